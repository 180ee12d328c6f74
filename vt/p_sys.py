"""C24, C25: what a run does to the system around it, and how much work it is."""
import os, re, subprocess, sys, tempfile, threading, time, resource, math, shutil, stat
import numpy as np
import docs, gen as G
from common import *
from core import Case, Inconclusive
from p_io import sans_time

LINE = re.compile(rb"^(\d+) +([a-z_0-9]+)\((.*?)\) += (-?\d+|\?)", re.S)
CALL = re.compile(rb"^(\d+) +([a-z_0-9]+)\((.*)$", re.S)      # cut off by another process' line
STRING = re.compile(rb'"((?:[^"\\]|\\.)*)"')
CHANGES = {b"unlink", b"unlinkat", b"rename", b"renameat", b"renameat2", b"mkdir", b"mkdirat", b"rmdir", b"link", b"linkat",
           b"symlink", b"symlinkat", b"chmod", b"fchmod", b"fchmodat", b"fchmodat2", b"chown", b"fchown", b"lchown", b"fchownat", b"truncate",
           b"utime", b"utimes", b"utimensat", b"futimesat", b"mknod", b"mknodat", b"mount", b"umount2", b"chroot",
           b"setxattr", b"lsetxattr", b"removexattr", b"swapon", b"acct"}
OTHERS = {b"fork", b"vfork", b"clone", b"clone3", b"kill", b"tkill", b"tgkill", b"ptrace", b"socket", b"connect", b"bind", b"listen", b"accept",
          b"sendto", b"socketpair", b"setuid", b"setgid", b"setsid", b"setpgid"}
TRACE = "trace=%file,%network,fork,vfork,clone,clone3,execve,execveat,kill,tkill,tgkill,ptrace,fchmod,fchown,ftruncate,setuid,setgid,setsid"
SYSTEM = (b"/lib", b"/usr/", b"/etc/", b"/proc/", b"/sys/", b"/dev/", b"/run/systemd", b"/var/lib/sss", b"/nix", b"/opt/veriftools", b"/opt/vp")


def unquote(b):
    def f(m):
        s = m[1]
        t = {b"n": b"\n", b"t": b"\t", b"r": b"\r", b"v": b"\v", b"f": b"\f", b"\\": b"\\", b'"': b'"'}
        return t[s] if s in t else bytes([int(s, 8) & 255])
    return re.sub(rb"\\([0-7]{1,3}|.)", f, b)


def strace_works(runner, tier, seed):
    """The monitor must see what a known program does."""
    import core
    d = tempfile.mkdtemp(prefix="st", dir=core.SCRATCH_ROOT)
    try:
        p = subprocess.run(["strace", "-f", "-qq", "-s", "4096", "-e", TRACE, "-o", d + "/log", "sh", "-c", "echo a > f; cat f; rm f"], cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    except FileNotFoundError:
        raise RuntimeError("no strace here")
    log = open(d + "/log", "rb").read()
    ev = [m for m in map(CALL.match, log.split(b"\n")) if m]
    kinds = {m[2] for m in ev}
    if p.returncode or not (kinds & {b"fork", b"vfork", b"clone", b"clone3"}) or not kinds & {b"unlink", b"unlinkat"} or b"O_CREAT" not in log:
        raise RuntimeError("strace does not show what a known program does: " + log[-300:].decode("latin-1") + p.stderr.decode()[:300])
    return {}


def snapshot(d):
    r = {}
    for root, ds, fs in os.walk(d):
        for f in ds + fs:
            p = os.path.join(root, f)
            st = os.lstat(p)
            k = os.path.relpath(p, d)
            if stat.S_ISREG(st.st_mode):
                r[k] = ("file", st.st_mode, open(p, "rb").read(), st.st_mtime_ns)
            elif stat.S_ISLNK(st.st_mode):
                r[k] = ("link", os.readlink(p))
            else:
                r[k] = ("other", st.st_mode)
    return r


def put(d, files):
    for k, v in files.items():
        p = os.path.join(d, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(v.encode() if isinstance(v, str) else v)


def launch(env, d, args, wrapper=(), stdin=None, timeout=120, cwd=None):
    cmd = [*wrapper, os.path.join(env.runner.bins["plain"], "stl-to-ps"), *args]
    e = {"PATH": os.environ.get("PATH", ""), "HOME": d, "TZ": "UTC", "LC_ALL": "C"}
    env.o.runs += 1
    try:
        return subprocess.run(cmd, cwd=cwd or d, env=e, input=stdin, stdin=None if stdin is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                              timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Inconclusive("no answer in time")


def broken(rng, src):
    k = rng.randrange(5)
    if k == 0:
        return src + b"page { frobnicate = 3; }\n"
    if k == 1:
        return src + b"page { draw no_such { } }\n"
    if k == 2:
        return src[:rng.randint(0, max(0, len(src) - 2))] + b" $ "
    if k == 3:
        return b'load zz = "nowhere/zz.stl";\n' + src
    return b'load zz = "decoy.txt";\n' + src


def c24(env):
    import core
    rng = env.rng
    d = tempfile.mkdtemp(prefix="sys", dir=core.SCRATCH_ROOT)
    try:
        (c24_traced, c24_pipes, c24_together)[(0, 0, 0, 1, 2)[env.index % 5]](env, rng, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


OTHER = G.stl(G.box([0, 0, 0], [3, 1, 2]))


def setting(env, rng, d):
    """Files for a document whose models are spread over a search path -> (script name, script, flags, allowed reads, output name, good)"""
    doc, files = docs.document(rng, pages=rng.choice([0, 1, 1, 2]), max_draws=2)
    for f in files:
        if rng.random() < .4:
            # a facet without a normal: left out, with a warning
            k = rng.choice(["endsolid", "facet normal"])
            pre, _, post = files[f].partition("  " + k) if k != "endsolid" else files[f].rpartition("endsolid")
            if _:
                files[f] = pre + "  facet normal 0 0 0\n outer loop\n vertex 1 2 3\n vertex 1 2 3\n vertex 9 9 9\n endloop\n endfacet\n" + _ + post
    dirs = ["lib", "ext/a", "b c"][:rng.randint(0, 3)]
    place, allowed = {}, set()
    for n in doc["models"]:
        f = doc["file"][n]
        k = rng.randint(0, len(dirs))
        for j, x in enumerate(["."] + dirs):
            path = os.path.normpath(os.path.join(x, f))
            if j <= k:
                allowed.add(path)
            if j == k:
                place[path] = files[f]
            elif j > k and rng.random() < .5:
                place[path] = rng.choice(["not a model", "", files[f], OTHER])     # not looked at
    src = docs.plain(doc)
    good = rng.random() < .7
    if not good:
        src = broken(rng, src)
        allowed |= {os.path.normpath(os.path.join(x, f)) for x in ["."] + dirs for f in ("nowhere/zz.stl", "decoy.txt")}
    sname = rng.choice(["s.script", "in/doc.example", "q.stl-script"])
    oname = rng.choice(["o.ps", "out/o.ps", "in/doc.ps", "o"])
    put(d, place)
    put(d, {sname: src, "decoy.txt": "keep me", "lib/other.stl": G.stl(G.box([0, 0, 0], [1, 1, 1])), "unrelated/x.ps": "%!", "in/k": "k", "out/k": "k",
            oname + ".bak": "b", "stl-to-ps.log": "l", sname + "~": "t", "core": "c"})
    args = list(QUIET)
    if dirs:
        args.append("--load_path=" + ",".join(dirs))
    if rng.random() < .5:
        args.append("--name=" + rng.choice(["n", "a/b", "../x", "unrelated/x.ps", "//:t"]))
    return doc, sname, src, args, allowed, oname, good


def reference(env, d, args, sname, name):
    p = launch(env, d, [*args, f"--script={sname}", f"--output={name}"])
    path = os.path.join(d, name)
    b = open(path, "rb").read() if os.path.exists(path) else None
    if b is not None:
        os.unlink(path)
    return p.returncode, None if b is None else sans_time(b)


def c24_traced(env, rng, d):
    doc, sname, src, args, allowed, oname, good = setting(env, rng, d)
    case = Case(src, {}, args, sname)
    rc0, want = reference(env, d, args, sname, "reference.out")
    if (rc0 == 0) != good and good:
        env.o.bad("refused", f"a valid document gave {rc0}", case)
        return
    # something may be there already
    pre = rng.choice([None, None, b"", b"old\n", b"x" * (len(want or b"") + 5000), "link"])
    op = os.path.join(d, oname)
    if pre == "link":
        put(d, {"elsewhere/real.ps": b"y" * 100000})
        os.symlink(os.path.join(d, "elsewhere/real.ps"), op)
    elif pre is not None:
        put(d, {oname: pre})
    before = snapshot(d)
    log = os.path.join(os.path.dirname(d), "log" + os.path.basename(d))
    try:
        p = launch(env, d, [*args, f"--script={sname}", f"--output={oname}"],
                   wrapper=["strace", "-f", "-qq", "-s", "4096", "-e", TRACE, "-o", log])
        trace = open(log, "rb").read()
    finally:
        if os.path.exists(log):
            os.unlink(log)
    after = snapshot(d)
    if p.returncode != rc0:
        env.o.bad("status", f"status {p.returncode} in place of {rc0}", case)
        return
    if p.stdout:
        env.o.bad("stdout", f"wrote to standard output: {p.stdout[:200]!r}", case)
        return
    outs = {oname} | ({"elsewhere/real.ps"} if pre == "link" else set())
    for k in sorted(set(before) | set(after)):
        if k in outs:
            continue
        if before.get(k) != after.get(k):
            env.o.bad("files", f"{k!r} was {'made' if k not in before else 'removed' if k not in after else 'changed'}", case)
            return
    if pre == "link" and after.get(oname) != before[oname]:
        env.o.bad("files", "the output's symbolic link was replaced", case)
        return
    got = sans_time(open(op, "rb").read()) if os.path.exists(op) else None
    if rc0 == 0 and got != want:
        env.o.bad("output", f"over an output file of {0 if pre is None else len(pre)} bytes: {len(got or b'')} bytes in place of {len(want)}", case)
        return
    first = True
    n = 0
    here = os.path.realpath(d).encode()
    exe = os.path.realpath(env.runner.bins["plain"]).encode()
    for l in trace.split(b"\n"):
        m = LINE.match(l)
        if m:
            call, a, ret = m[2], m[3], m[4]
        else:
            m = CALL.match(l)
            if not m:
                continue
            call, a, ret = m[2], m[3], b"?"
        n += 1
        if call in (b"execve", b"execveat"):
            if not first:
                env.o.bad("process", f"started a program: {l[:200]!r}", case)
                return
            first = False
            continue
        if call in OTHERS:
            if call in (b"clone", b"clone3") and b"CLONE_THREAD" in a:
                continue
            if call in (b"kill", b"tkill", b"tgkill") and p.returncode < 0:
                continue
            env.o.bad("process", f"system call {l[:200]!r}", case)
            return
        paths = [unquote(s) for s in STRING.findall(a)]
        if call in CHANGES:
            env.o.bad("changes", f"system call {l[:200]!r}", case)
            return
        if call in (b"open", b"openat", b"openat2", b"creat"):
            if not paths or ret.startswith(b"-"):
                continue
            path = paths[0]
            full = os.path.normpath(os.path.join(here, path)) if not path.startswith(b"/") else os.path.normpath(path)
            inside = full.startswith(here + b"/")
            rel = full[len(here) + 1:].decode("latin-1") if inside else None
            writes = call == b"creat" or re.search(rb"O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|O_APPEND|O_TMPFILE", a)
            if writes:
                if rel != os.path.normpath(oname) and full not in (b"/dev/null", b"/dev/tty"):
                    env.o.bad("writes", f"opened {path!r} for writing", case)
                    return
                continue
            if inside and rel not in allowed and rel != os.path.normpath(sname) and not os.path.isdir(full):
                env.o.bad("reads", f"read {path!r}, which is neither the script nor a model it loads", case)
                return
            if not inside and not full.startswith(SYSTEM) and not full.startswith(exe):
                env.o.bad("reads", f"read {path!r}", case)
                return
    if first or n < 5:
        raise Inconclusive(f"strace shows only {n} calls")
    env.o.inc("system calls judged", n)
    env.o.inc("traced runs, status %d" % rc0)
    env.o.note(("traced", src, oname, pre))
    env.o.sample(src.decode("latin-1"))


def feed(f, data):
    try:
        f.write(data)
        f.close()
    except OSError:
        pass                    # not read to the end


def c24_pipes(env, rng, d):
    """Script, models and output through pipes."""
    doc, sname, src, args, allowed, oname, good = setting(env, rng, d)
    case = Case(src, {}, args, sname)
    rc0, want = reference(env, d, args, sname, "reference.out")
    how = rng.randrange(3)
    if how == 0:
        p = launch(env, d, [*args, "--script=/dev/stdin", f"--output={oname}"], stdin=src)
        # the path is part of the header
        want2 = want.replace(b"% Source: " + sname.encode(), b"% Source: /dev/stdin") if want is not None else None
        op = os.path.join(d, oname)
        got = open(op, "rb").read() if os.path.exists(op) else b""
    elif how == 1:
        p = launch(env, d, [*args, f"--script={sname}", "--output=/dev/stdout"])
        got, want2 = p.stdout, want
    else:
        # a model through a named pipe
        if not doc["models"]:
            return
        f = doc["file"][doc["models"][0]]
        path = next((os.path.join(d, x) for x in allowed if os.path.basename(x) == f and os.path.exists(os.path.join(d, x))), None)
        if path is None:
            return
        data = open(path, "rb").read()
        os.unlink(path)
        os.mkfifo(path)
        feeder = subprocess.Popen([sys.executable, "-S", "-c", "import sys; d=sys.stdin.buffer.read(); open(sys.argv[1],'wb').write(d)", path],
                                  stdin=subprocess.PIPE, stderr=subprocess.DEVNULL)
        try:
            threading.Thread(target=feed, args=(feeder.stdin, data), daemon=True).start()
            p = launch(env, d, [*args, f"--script={sname}", f"--output={oname}"])
        finally:
            feeder.kill()
            feeder.wait()
        op = os.path.join(d, oname)
        got, want2 = (open(op, "rb").read() if os.path.exists(op) else b""), want
    what = ("the script", "the output", "a model")[how]
    if p.returncode != rc0:
        env.o.bad("pipe-status", f"{what} through a pipe: status {p.returncode} in place of {rc0}: {p.stderr[-200:]!r}", case)
        return
    if rc0 == 0 and sans_time(got) != want2:
        env.o.bad("pipe", f"{what} through a pipe: {len(got)} bytes in place of {len(want2)}", case)
        return
    env.o.inc(f"{what} through a pipe")
    env.o.note(("pipe", how, src))


def c24_together(env, rng, d):
    """Several runs at once, on the same models."""
    doc, files = docs.document(rng, pages=1, max_draws=2)
    put(d, files)
    srcs = []
    for k in range(rng.randint(2, 6)):
        s = docs.plain(doc) + b'page { name = "%d"; text["run %d"]{} }\n' % (k, k)
        if rng.random() < .2:
            s += b"page { nope = 1; }\n"
        srcs.append(s)
        put(d, {f"s{k}": s})
    refs = [reference(env, d, QUIET, f"s{k}", f"ref{k}") for k in range(len(srcs))]
    e = {"PATH": os.environ.get("PATH", ""), "HOME": d, "TZ": "UTC", "LC_ALL": "C"}
    exe = os.path.join(env.runner.bins["plain"], "stl-to-ps")
    ps = [subprocess.Popen([exe, *QUIET, f"--script=s{k}", f"--output=o{k}"], cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL) for k in range(len(srcs))]
    env.o.runs += len(ps)
    try:
        for k, p in enumerate(ps):
            try:
                rc = p.wait(timeout=120)
            except subprocess.TimeoutExpired:
                raise Inconclusive("no answer in time")
            got = sans_time(open(os.path.join(d, f"o{k}"), "rb").read()) if os.path.exists(os.path.join(d, f"o{k}")) else None
            if rc != refs[k][0] or rc == 0 and got != refs[k][1]:
                env.o.bad("together", f"run {k} of {len(ps)} at once: status {rc} (alone {refs[k][0]}), output {'differs' if got != refs[k][1] else 'same'}",
                          Case(srcs[k], files, QUIET))
                return
    finally:
        for p in ps:
            if p.poll() is None:
                p.kill()
                p.wait()
    extra = set(os.listdir(d)) - {f"{c}{k}" for c in "so" for k in range(len(ps))} - set(files)
    if extra:
        env.o.bad("files", f"left behind {sorted(extra)}", Case(srcs[0], files, QUIET))
        return
    env.o.inc("runs at once", len(ps))
    env.o.note(("together", *srcs))


# ------------------------------------------------------------------ C25
def ball(n, r=1.0):
    """About n facets, most edges sharp enough or not to show, none degenerate."""
    k = max(4, int(math.sqrt(n / 2)))
    t = []
    P = lambda i, j: np.array([r * math.sin(math.pi * (i + .5) / (k + 1)) * math.cos(2 * math.pi * j / k),
                               r * math.sin(math.pi * (i + .5) / (k + 1)) * math.sin(2 * math.pi * j / k), r * math.cos(math.pi * (i + .5) / (k + 1))])
    for i in range(k):
        for j in range(k):
            a, b, c, e = P(i, j), P(i, (j + 1) % k), P(i + 1, (j + 1) % k), P(i + 1, j)
            t += [[a, e, c], [a, c, b]]
    return [np.array(x) for x in t]


def comb(n):
    """n / 12 boxes side by side: every edge shows."""
    t = []
    for i in range(max(1, n // 12)):
        t += G.box([i * 2, 0, 0], [i * 2 + 1, 1 + i % 3, 1])
    return t


def boxes(n):
    """Boxes in a grid behind and beside each other: edges hide and cross."""
    t = []
    k = max(1, int(math.sqrt(n / 12)))
    for i in range(k):
        for j in range(k):
            t += G.box([i * 2, j * 2, (i * 7 + j * 3) % 5 * 2], [i * 2 + 1.3, j * 2 + 1.3, (i * 7 + j * 3) % 5 * 2 + 1])
    return t


def bars(n):
    """Bars across bars: most edges cross most others."""
    t = []
    k = max(1, n // 24)
    for i in range(k):
        t += G.box([i * 2, -1, 0], [i * 2 + 1, k * 2, 1]) + G.box([-1, i * 2, 3], [k * 2, i * 2 + 1, 4])
    return t


BOX = G.stl(G.box([0, 0, 0], [2, 1, 1]))
NEAR = "near([0.1, 0, 0.2])"


def sheet(n, rows=1):
    """A flat plate of n facets turned away from the viewer: read, but nothing to draw."""
    t = []
    for i in range(n):
        t.append(np.array([[i, 0, 0], [i, 1, 0], [i + 1, 0, 0]], float))
    return t


def doc1(body):
    return 'load m = "m.stl";\n' + body


def scenarios():
    """name -> (make(n) -> (script, files, args, ok), start n, growth allowed for twice the input)"""
    S = {}
    lin, quad = 2.7, 5.0
    S["facets of a ball"] = (lambda n: (doc1("page { draw m { view = [20, 30]; scale = 1:2; } }"), {"m.stl": G.stl(ball(n))}, [], 0), 500, quad)
    S["boxes in a row"] = (lambda n: (doc1("page { draw m { view = [20, 30]; scale = 1:9; } }"), {"m.stl": G.stl(comb(n))}, [], 0), 400, quad)
    S["boxes in a grid"] = (lambda n: (doc1("page { draw m { view = [20, 30]; scale = 1:9; } }"), {"m.stl": G.stl(boxes(n))}, [], 0), 600, quad)
    S["boxes in a grid from above"] = (lambda n: (doc1("page { draw m { scale = 1:9; } }"), {"m.stl": G.stl(boxes(n))}, [], 0), 600, quad)
    S["bars across bars"] = (lambda n: (doc1("page { draw m { scale = 1:9; } }"), {"m.stl": G.stl(bars(n))}, [], 0), 480, quad)
    S["facets turned away"] = (lambda n: (doc1("page { draw m { } }"), {"m.stl": G.stl(sheet(n))}, [], 0), 2000, lin)
    S["models read but not drawn"] = (lambda n: (doc1("page { }"), {"m.stl": G.stl(sheet(n))}, [], 0), 2000, lin)
    S["solids in a file"] = (lambda n: (doc1("page { }"), {"m.stl": "solid a\nendsolid a\n" * n}, [], 0), 20000, lin)
    S["vertexes in a facet"] = (lambda n: (doc1("page { }"), {"m.stl": "solid a\nfacet normal 0 0 1\nouter loop\n" + "vertex 1 2 3\n" * n +
                                                         "endloop\nendfacet\nendsolid\n"}, [], 1), 20000, lin)
    S["length of a line"] = (lambda n: (doc1("page { }"), {"m.stl": "solid " + "a" * n + "\nendsolid a\n"}, [], 0), 100000, lin)
    S["pages"] = (lambda n: ("page { }\n" * n, {}, [], 0), 2000, lin)
    S["named pages"] = (lambda n: ("".join('page { name = "p%d"; }\n' % i for i in range(n)), {}, [], 0), 2000, lin)
    S["texts"] = (lambda n: ("page {" + 'text["a b"] { @[1, 2]; }\n' * n + "}", {}, [], 0), 3000, lin)
    S["lines of a text"] = (lambda n: ('page { text["' + "ab\\n" * n + '"] { } }', {}, [], 0), 8000, lin)
    S["length of a text"] = (lambda n: ('page { text["' + "ab" * n + '"] { } }', {}, [], 0), 20000, lin)
    S["escapes in a text"] = (lambda n: ('page { text["' + "\\\\\\\"(" * n + '"] { } }', {}, [], 0), 20000, lin)
    S["literals joined"] = (lambda n: ("page { text[" + '"ab" ' * n + "] { } }", {}, [], 0), 10000, lin)
    S["length of a name"] = (lambda n: ('page { name = "' + "ab" * n + '"; }', {}, [], 0), 20000, lin)
    S["white space"] = (lambda n: ("page {" + " \n\t" * n + "}", {}, [], 0), 30000, lin)
    S["comments"] = (lambda n: ("page {" + "// what\n" * n + "}", {}, [], 0), 20000, lin)
    S["length of a comment"] = (lambda n: ("page { //" + "x" * n + "\n}", {}, [], 0), 100000, lin)
    S["length of a number"] = (lambda n: ("page { text[\"a\"] { @[0." + "1" * n + ", 1]; } }", {}, [], 0), 40000, lin)
    S["length of an identifier"] = (lambda n: (f'load {"m" * n} = "m.stl"; page {{ draw {"m" * n} {{ }} }}', {"m.stl": BOX}, [], 0), 40000, lin)
    S["draw blocks"] = (lambda n: (doc1("page {" + "draw m { @[1, 1]; }\n" * n + "}"), {"m.stl": BOX}, [], 0), 500, lin)
    S["draw blocks on pages"] = (lambda n: (doc1("page { draw m { @[1, 1]; } }\n" * n), {"m.stl": BOX}, [], 0), 500, lin)
    S["loads"] = (lambda n: ("".join(f'load m{i} = "m.stl";\n' for i in range(n)) + "page { draw m0 { } }", {"m.stl": BOX}, [], 0), 500, lin)
    S["dims"] = (lambda n: (doc1("page { draw m {" + "dim(at = [0,2,0], from = [0,0,0], to = [2,0,0], dir = [1,0,0]);\n" * n + "} }"),
                            {"m.stl": BOX}, [], 0), 500, lin)
    S["angles"] = (lambda n: (doc1("page { draw m {" + "angle(at = [0,2,0], apex = [0,0,0], to_dir = [2,0,0], from_dir = [0,1,0]);\n" * n + "} }"),
                              {"m.stl": BOX}, [], 0), 500, lin)
    S["near points"] = (lambda n: (doc1("page { draw m {" + f"dim(at = {NEAR}, from = {NEAR}, to = near([2,0,.1]), dir = [1,0,0]);\n" * n + "} }"),
                                   {"m.stl": BOX}, [], 0), 500, lin)
    S["nested functions"] = (lambda n: (doc1("page { draw m { dim(at = " + "near(" * n + "[.1,.2,.3]" + ")" * n +
                                             ", from = [0,0,0], to = [2,0,0], dir = [1,0,0]); } }"), {"m.stl": BOX}, [], 0), 480, lin)
    S["circles in a model of many corners"] = (lambda n: (doc1("page { draw m { dia(at = [0,0,0], center = [0,0,0], dir = [1,0,0]); } }"),
                                                         {"m.stl": G.stl(G.prism(G.ngon(0, 0, 1, n), 0, 1))}, [], 0), 60, quad)
    S["search path"] = (lambda n: (doc1("page { }"), {"z/m.stl": BOX}, ["--load_path=" + ",".join("d%d" % i for i in range(n)) + ",z"], 0), 1000, lin)
    S["mistakes"] = (lambda n: (doc1("page {" + "draw m { dim(at = [0,0,0]); }\n" * n + "}"), {"m.stl": BOX}, [], 1), 500, lin)
    S["repeated properties"] = (lambda n: ("page {" + 'name = "a";\n' * n + "}", {}, [], 1), 2000, lin)
    S["unknown properties"] = (lambda n: ("page {" + "".join(f"p{i} = 3;\n" for i in range(n)) + "}", {}, [], 1), 2000, lin)
    S["missing models"] = (lambda n: ("".join(f'load m{i} = "no.stl";\n' for i in range(n)), {}, [], 1), 500, lin)
    S["format"] = (lambda n: (doc1('page { draw m { dim(at = [0,2,0], from = [0,0,0], to = [2,0,0], dir = [1,0,0], fmt = "' + "x" * n + '%.1f"); } }'),
                              {"m.stl": BOX}, [], 0), 40000, lin)
    ring = {"m.stl": G.stl(G.prism(G.ngon(0, 0, 1, 12), 0, 1))}
    for kind in ("dia", "rad"):
        S[kind + "s"] = (lambda n, kind=kind: (doc1("page { draw m {" + f"{kind}(at = [2,2,0], center = [0,0,0], dir = [1,1,0]);\n" * n + "} }"), ring, [], 0),
                         300, lin)
    S["centers"] = (lambda n: (doc1("page { draw m {" + "dim(at = center([0,0,0]), from = [0,0,0], to = [2,0,0], dir = [1,0,0]);\n" * n + "} }"), ring, [], 0),
                    300, lin)
    S["annotations of all kinds"] = (lambda n: (doc1("page { draw m {" + (
        "dim(at = [0,2,0], from = [0,0,0], to = [2,0,0], dir = [1,0,0], fmt = \"%.2f\");\n"
        "angle(at = [0,2,0], apex = [0,0,0], to_point = [2,0,0], from_dir = [0,1,0], fmt = \"%f!\");\n"
        "rad(at = [2,2,0], center = center([0,0,0]), dir = [1,1,0]);\n") * n + "} }"), ring, [], 0), 200, lin)
    S["facets on an edge"] = (lambda n: (doc1("page { }"), {"m.stl": G.stl([np.array([[0, 0, 0], [0, 0, 1], [math.cos(i), math.sin(i), i / n]])
                                                                           for i in range(n)])}, [], 0), 2000, lin)
    S["a facet again and again"] = (lambda n: (doc1("page { draw m { } }"), {"m.stl": G.stl([np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0.]])] * n)}, [], 0), 2000, lin)
    S["facets in a plane"] = (lambda n: (doc1("page { draw m { scale = 1:9; } }"), {"m.stl": G.stl(grid(n))}, [], 0), 500, quad)
    S["facets from the side"] = (lambda n: (doc1("page { draw m { view = \"X+\"; } }"), {"m.stl": G.stl(grid(n))}, [], 0), 2000, lin)
    S["words on a line"] = (lambda n: ("page { " + 'text["a"] { } ' * n + "}", {}, [], 0), 3000, lin)
    S["properties of texts"] = (lambda n: ("page { " + 'text["a"] { size = 9; @[1, 3]; }\n' * n + "}", {}, [], None), 1500, lin)
    S["draws in views of their own"] = (lambda n: (doc1("page {" + "".join(f"draw m {{ view = [{i % 360}, {i / 50}]; scale = 1:{i % 9 + 1}; @[{i % 7}, 2]; }}\n"
                                                                          for i in range(n)) + "}"), {"m.stl": BOX}, [], 0), 400, lin)
    S["models of their own"] = (lambda n: ("".join(f'load m{i} = "m{i}.stl"; page {{ draw m{i} {{ }} }}\n' for i in range(n)),
                                           {f"m{i}.stl": BOX for i in range(n)}, [], 0), 100, lin)
    S["loads along a search path"] = (lambda n: ("".join(f'load m{i} = "m.stl";\n' for i in range(n)), {"c/m.stl": BOX}, ["--load_path=a,b,c,d"], 0), 400, lin)
    S["models again"] = (lambda n: ('load m = "m.stl";\n' * n, {"m.stl": BOX}, [], 1), 500, lin)
    S["unknown models"] = (lambda n: ("page {" + "".join(f"draw m{i} {{ }}\n" for i in range(n)) + "}", {}, [], 1), 1000, lin)
    S["argument of a dim again"] = (lambda n: (doc1("page { draw m { dim(at = [0,2,0]" + ", dir = [1,0,0]" * n + "); } }"), {"m.stl": BOX}, [], 1), 1000, lin)
    S["lines before a mistake"] = (lambda n: ("page { }\n" * n + "page { $ }", {}, [], 1), 3000, lin)
    S["columns before a mistake"] = (lambda n: ("page { } " * n + "page { $ }", {}, [], 1), 3000, lin)
    S["pages with everything"] = (lambda n: (doc1("".join(
        f'page {{ name = "n{i}"; draw m {{ view = [{i % 50}, 20]; dim(at = [0,2,0], from = {NEAR}, to = [2,0,0], dir = [1,0,0]); }} text["t {i}"] {{ @[1, 3]; }} }}\n'
        for i in range(n))), {"m.stl": BOX}, [], 0), 200, lin)
    return S


def grid(n):
    k = max(1, int(math.sqrt(n / 2)))
    t = []
    for i in range(k):
        for j in range(k):
            t += [np.array([[i, j, 0], [i + 1, j, 0], [i, j + 1, 0]], float), np.array([[i + 1, j, 0], [i + 1, j + 1, 0], [i, j + 1, 0]], float)]
    return t


SCEN = scenarios()


def measured(env, case, d, tool):
    """-> (status, work, peak memory in kB, output bytes).  Work is steps of the program's own control flow (compiler instrumentation), or
    every instruction, the libraries' too (cachegrind)."""
    put(d, case.files)
    put(d, {case.script_name: case.script})
    out, cnt = os.path.join(d, "o.ps"), os.path.join(d, "count")
    for f in (out, cnt):
        if os.path.exists(f):
            os.unlink(f)
    e = {"PATH": os.environ.get("PATH", ""), "HOME": d, "TZ": "UTC", "LC_ALL": "C", "VT_COUNT": cnt}
    env.o.runs += 1
    cmd = [os.path.join(env.runner.bins["count"], "stl-to-ps")] if tool == "steps" else \
        ["valgrind", "-q", "--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=" + cnt, "--log-file=" + os.path.join(d, "vlog"),
         os.path.join(env.runner.bins["plain"], "stl-to-ps")]
    p = subprocess.Popen([*cmd, f"--script={case.script_name}", "--output=o.ps", *case.args], cwd=d, env=e,
                         stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, "err"), "wb"))
    killer = threading.Timer(300, p.kill)
    killer.start()
    try:
        _, st = os.waitpid(p.pid, 0)
    finally:
        killer.cancel()
    p.returncode = os.waitstatus_to_exitcode(st)
    if p.returncode == -9:
        raise Inconclusive("no answer in time")
    work, peak = None, 0
    if os.path.exists(cnt):
        if tool == "steps":
            work, peak = map(int, open(cnt).read().split())
        else:
            m = re.search(rb"^summary: *(\d+)", open(cnt, "rb").read(), re.M)
            work = int(m[1]) if m else None
    return p.returncode, work, peak, os.path.getsize(out) if os.path.exists(out) else 0


def c25(env):
    import core
    rng = env.rng
    names = sorted(SCEN)
    name = names[env.index % len(names)]
    tool = "instructions" if env.index // len(names) % 3 == 1 else "steps"
    make, n0, growth = SCEN[name]
    n0 = int(n0 * rng.uniform(.7, 1.05)) if env.index >= len(names) else n0
    sizes = [n0, 2 * n0] if growth > 3 else [n0, 4 * n0]
    if name == "nested functions":
        sizes = [n0 // 4, n0]
    elif env.tier == "thorough":
        sizes += [sizes[1] * (2 if growth > 3 else 4)]
    d = tempfile.mkdtemp(prefix="wrk", dir=core.SCRATCH_ROOT)
    try:
        base = Case("", {}, QUIET)
        r0 = measured(env, base, d, tool)
        got = []
        for n in sizes:
            script, files, args, rc = make(n)
            case = Case(script, files, [*QUIET, *args])
            r = measured(env, case, d, tool)
            if rc is not None and r[0] != rc:
                env.o.bad("status", f"{name}, {n}: status {r[0]} in place of {rc}: {open(os.path.join(d, 'err'), 'rb').read()[-300:]!r}", None)
                return
            if r[1] is None or not r0[1]:
                raise Inconclusive("the work of a run was not counted")
            got.append((n, r[1] - r0[1], r[2] - r0[2], len(case.script) + sum(map(len, case.files.values()))))
        for (n1, w1, m1, b1), (n2, w2, m2, b2) in zip(got, got[1:]):
            # what input there really is decides how much is twice as much
            f = max(n2 / n1, b2 / b1)
            lim = growth / 2 * f if growth < 3 else growth / 4 * f * f
            env.o.inc("growths measured in " + tool)
            if w2 > lim * w1 + (50000 if tool == "steps" else 300000):
                env.o.bad("work", f"{name}: {n2} in place of {n1} takes {w2} {tool} in place of {w1} ({w2 / max(w1, 1):.2f} times, allowed {lim:.1f})", None)
                return
            if m2 > 16384 and m2 > lim * max(m1, 1024) + 8192:
                env.o.bad("memory", f"{name}: {n2} in place of {n1} takes {m2} kB more than nothing in place of {m1} kB", None)
                return
        n, w, m, b = got[-1]
        if growth < 3 and m > 4096 + 400 * b / 1024:
            env.o.bad("memory", f"{name}: {m} kB for an input of {b} bytes", None)
            return
        env.o.inc(tool + " counted", sum(g[1] for g in got))
        env.o.note((name, tool, *sizes))
        env.o.sample((name, tool, [(g[0], g[1], g[2], round(g[1] / g[0], 1)) for g in got]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
