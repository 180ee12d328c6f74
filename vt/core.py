"""Running the program under observation, and the verdict discipline."""
import hashlib, json, multiprocessing, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback

import build as B
import ps as PS

VERIF = B.VERIF
SCRATCH_ROOT = None


class Inconclusive(Exception):
    pass


class Case:
    """One execution: script, model files and flags, all inside a scratch dir."""

    def __init__(self, script, files=None, args=(), script_name="s.script", variant="plain",
                 default_flags=True):
        self.script = script.encode("utf-8", "surrogateescape") if isinstance(script, str) else script
        self.files = {k: (v.encode() if isinstance(v, str) else v) for k, v in (files or {}).items()}
        self.args = list(args)
        self.script_name = script_name
        self.variant = variant
        self.default_flags = default_flags
        self.keep = None          # (which pages the check is about, of how many)

    def digest(self):
        h = hashlib.sha256(self.script)
        for k in sorted(self.files):
            h.update(k.encode() + b"\0" + self.files[k])
        h.update(repr((self.args, self.script_name)).encode())
        return h.hexdigest()[:16]


class Result:
    __slots__ = ("rc", "sig", "err", "out", "stdout", "timeout", "_pages", "keep")

    @property
    def ok(self):
        return self.rc == 0

    def crashed(self):
        return self.sig is not None or self.rc not in (0, 1) or b"Sanitizer" in self.err \
            or b"runtime error:" in self.err

    def pages(self):
        if getattr(self, "_pages", None) is None:
            self._pages = PS.interpret(self.out)
            if self.keep and len(self._pages) == self.keep[1]:
                self._pages = [self._pages[i] for i in self.keep[0]]
        return self._pages


SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=%d:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "LSAN_OPTIONS": "exitcode=98",
}


class Runner:
    def __init__(self, bins, leaks=False):
        self.bins = bins          # variant -> dir
        self.leaks = leaks

    def run(self, case, timeout=90, preexec=None, output="o.ps", wrapper=(), keep=None, env=None):
        d = tempfile.mkdtemp(prefix="c", dir=SCRATCH_ROOT)
        try:
            return self._run(case, d, timeout, preexec, output, wrapper, env)
        finally:
            if keep is not None:
                keep(d)
            shutil.rmtree(d, ignore_errors=True)

    def _run(self, case, d, timeout, preexec, output, wrapper, env):
        for k, v in case.files.items():
            p = os.path.join(d, k)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(v)
        sp = os.path.join(d, case.script_name)
        os.makedirs(os.path.dirname(sp), exist_ok=True)
        with open(sp, "wb") as f:
            f.write(case.script)
        e = {"PATH": os.environ.get("PATH", ""), "HOME": d, "TZ": "UTC", "LC_ALL": "C"}
        if case.variant == "asan":
            e.update(SAN_ENV)
            e["ASAN_OPTIONS"] = SAN_ENV["ASAN_OPTIONS"] % (1 if self.leaks else 0)
        e.update(env or {})
        cmd = [*wrapper, os.path.join(self.bins[case.variant], "stl-to-ps")]
        if case.default_flags:
            cmd += [f"--script={case.script_name}", f"--output={output}"]
        cmd += case.args
        r = Result()
        r.timeout = False
        r.keep = case.keep
        for attempt, to in enumerate((timeout, timeout * 2)):
            try:
                p = subprocess.run(cmd, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=to, preexec_fn=preexec)
                break
            except subprocess.TimeoutExpired:
                continue
        else:
            r.timeout = True
            r.rc, r.sig, r.err, r.stdout, r.out = None, None, b"", b"", None
            return r
        r.rc = p.returncode
        r.sig = -p.returncode if p.returncode < 0 else None
        r.err, r.stdout = p.stderr, p.stdout
        op = os.path.join(d, output)
        r.out = open(op, "rb").read() if os.path.isfile(op) else None
        return r


class Obs:
    """What one unit of workload observed."""

    def __init__(self):
        self.viol = []          # (key, message, Case or None)
        self.counts = {}
        self.nontrivial = []
        self.samples = []
        self.runs = 0
        self.inconclusive = []

    def inc(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def bad(self, key, msg, case=None):
        self.viol.append((key, msg, case))

    def note(self, token):
        self.nontrivial.append(hashlib.sha256(repr(token).encode()).digest()[:8])

    def sample(self, s):
        self.samples.append(s)


class Env:
    """Handed to every unit: rng, runner, observation."""

    def __init__(self, prop, tier, seed, index, runner, extra):
        self.prop, self.tier, self.seed, self.index = prop, tier, seed, index
        self.rng = random.Random(f"{prop}/{seed}/{index}")
        self.runner = runner
        self.o = Obs()
        self.extra = extra

    def run(self, case, **kw):
        self.o.runs += 1
        r = self.runner.run(case, **kw)
        if r.timeout and not kw.get("timeout_ok"):
            raise Inconclusive("no answer within the time limit")
        return r

    def expect_ok(self, case, what="a valid script", **kw):
        """Run something valid; None (after recording a violation) if refused."""
        r = self.run(case, **kw)
        if not r.ok:
            self.o.bad("refused", f"{what} was not accepted: rc={r.rc} {r.err[:400]!r}", case)
            return None
        try:
            r.pages()
        except PS.PSError as e:
            self.o.bad("malformed", f"{what} gave PostScript that does not run: {e}", case)
            return None
        return r


_G = {}


def _worker(i):
    prop, tier, seed, fn, runner, extra = _G["job"]
    env = Env(prop, tier, seed, i, runner, extra)
    try:
        fn(env)
    except Inconclusive as e:
        env.o.inconclusive.append(f"unit {i}: {e}")
    except Exception:
        env.o.inconclusive.append(f"unit {i}: " + traceback.format_exc()[-1500:])
    o = env.o
    if len(o.viol) > 5:
        o.viol = o.viol[:5]
    o.samples = o.samples[:1]
    return i, o


def run_units(prop, tier, seed, fn, n, runner, extra=None, jobs=8):
    """-> list of (index, Obs), in index order."""
    _G["job"] = (prop, tier, seed, fn, runner, extra)
    out = []
    with multiprocessing.get_context("fork").Pool(jobs) as pool:
        for r in pool.imap_unordered(_worker, range(n), chunksize=max(1, min(8, n // (jobs * 4) or 1))):
            out.append(r)
    out.sort(key=lambda t: t[0])
    return out


# ---------------------------------------------------------------- known findings
def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    r = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                r.append(m.groups())
    return r


def save_replay(prop, n, key, msg, case, seed, tier):
    d = os.path.join(VERIF, "evidence", "replay", f"{prop}-{n}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(os.path.join(d, "why.txt"), "w", errors="backslashreplace") as f:
        f.write(f"property {prop}\nkey {key}\nVERIF_SEED={seed} VERIF_TIER={tier}\n{msg}\n")
        if case is not None:
            f.write("\nrun in this directory: stl-to-ps --script=%s --output=o.ps %s\n" % (
                case.script_name, " ".join(map(repr, case.args))))
    if case is not None:
        for k, v in [*case.files.items(), (case.script_name, case.script)]:
            p = os.path.join(d, os.path.normpath("/" + k).lstrip("/"))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "wb").write(v)
    return os.path.relpath(d, VERIF)


def readable(s):
    return str(s).encode("utf-8", "backslashreplace").decode()


def finish(prop, tier, seed, t0, units, rule, minimum, note=None, level="exploration", extra_cov=None,
           assumptions=()):
    """Fold observations into the evidence file and the verdict -> exit code."""
    runs = sum(o.runs for _, o in units)
    counts = {}
    nontriv = set()
    viol, inconc, samples = [], [], []
    for i, o in units:
        for k, v in o.counts.items():
            counts[k] = counts.get(k, 0) + v
        nontriv.update(o.nontrivial)
        viol += [(i, *v) for v in o.viol]
        inconc += o.inconclusive
        if len(samples) < 3:
            samples += o.samples[:1]
    known = {(p, k): d for p, k, d in known_findings()}
    new, seen_known = [], {}
    for v in viol:
        if (prop, v[1]) in known:
            seen_known[v[1]] = known[(prop, v[1])]
        else:
            new.append(v)
    cov = {"evaluations": runs, "distinct_nontrivial": len(nontriv), "rule": rule,
           "samples": [readable(s)[:3000] for s in samples[:3]], "observed": counts, "units": len(units)}
    if note:
        cov["note"] = note
    cov.update(extra_cov or {})
    if inconc:
        cov["inconclusive"] = [readable(s)[:600] for s in inconc[:5]]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        f.write(json.dumps(ev, indent=1) + "\n")
    for k, d in seen_known.items():
        print(f"KNOWN-FINDING: property={prop} {d}")
    if new:
        keys = {}
        for i, key, msg, case in new:
            keys.setdefault(key, []).append((i, msg, case))
        n = 0
        for key, vs in list(keys.items())[:6]:
            i, msg, case = vs[0]
            path = save_replay(prop, n, key, f"unit {i}: {msg}", case, seed, tier)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  [{key}] x{len(vs)} {msg[:600]}")
            n += 1
        return 1
    if inconc:
        print(f"{prop}: inconclusive: {len(inconc)} unit(s) gave no answer")
        for s in inconc[:3]:
            print("  " + s)
        return 2
    if len(nontriv) < minimum:
        print(f"{prop}: inconclusive: only {len(nontriv)} of the {minimum} distinct non-trivial observations required")
        return 2
    print(f"{prop}: held on {runs} executions, {len(nontriv)} distinct non-trivial; " +
          ", ".join(f"{k}={v}" for k, v in sorted(counts.items())[:14]))
    return 0
