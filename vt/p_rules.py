"""C23: what a build with the Bazel rules does.

There is no Bazel here, so rule.bzl is run by a small stand-in for it: the rules'
implementation functions run for real (Starlark is close enough to Python), the
actions they register are recorded, and each one is then executed the way Bazel's
sandbox does, in a directory that holds its declared inputs and nothing else.
stl-to-ps is the real one; ps2pdf and openscad are stand-ins that copy.
"""
import ast, math, os, re, shutil, stat, subprocess, tempfile
import build as B
import core
import docs
import gen as G
import p_io
from common import *

PS2PDF = """#!/bin/bash
a=(); for x in "$@"; do case "$x" in -*) ;; *) a+=("$x");; esac; done
[ ${#a[@]} = 2 ] || { echo "ps2pdf: want IN OUT, got: $*" >&2; exit 3; }
{ printf '%%PDF-stand-in\\n'; cat "${a[0]}"; } >"${a[1]}.tmp" && [ -f "${a[0]}" ] && mv "${a[1]}.tmp" "${a[1]}"
"""
# the "STL" is the source with every include replaced by what it names
OPENSCAD = r"""#!/usr/bin/env python3
import os, re, sys
out, src, it = None, [], iter(sys.argv[1:])
for a in it:
    if a == "-o" or a == "--o":
        out = next(it)
    elif a.startswith("-o"):
        out = a[2:]
    elif a.startswith("-"):
        sys.exit("openscad: what is " + a)
    else:
        src.append(a)
if out is None or len(src) != 1:
    sys.exit("openscad: want -o OUT SRC, got %r" % sys.argv[1:])
def read(p):
    s = open(p, encoding="latin-1", newline="").read()
    return re.sub(r"include <(.*?)>\n", lambda m: read(os.path.join(os.path.dirname(p), m[1])), s)
t = read(src[0])
open(out, "w", encoding="latin-1", newline="").write(t)
"""


class Root:
    def __init__(self, path):
        self.path = path


class File:
    def __init__(self, short, root="", is_source=True, owner=None):
        self.short_path = short
        self.root = Root(root)
        self.path = os.path.join(root, short) if root else short
        self.basename = os.path.basename(short)
        self.dirname = os.path.dirname(self.path)
        self.extension = self.basename.rsplit(".", 1)[1] if "." in self.basename else ""
        self.is_source = is_source
        self.is_directory = False
        self.owner = owner

    def __repr__(self):
        return f"<{self.path}>"


class Depset:
    def __init__(self, direct=None, order="default", transitive=None, **kw):
        self.l = []
        for x in [*(direct or []), *[y for t in (transitive or []) for y in t.to_list()]]:
            if x not in self.l:
                self.l.append(x)

    def to_list(self):
        return list(self.l)


class SDict(dict):
    """Starlark's dict: keys() and friends are lists."""

    def keys(self):
        return list(dict.keys(self))

    def values(self):
        return list(dict.values(self))

    def items(self):
        return list(dict.items(self))


class Struct:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Label(Struct):
    def __str__(self):
        return f"//{self.package}:{self.name}"


class Args:
    def __init__(self):
        self.argv = []
        self.seen = []

    def _s(self, v, fmt=None):
        if isinstance(v, File):
            self.seen.append(v)
            v = v.path
        v = str(v)
        return fmt.replace("%s", v, 1) if fmt else v

    def add(self, a, value=None, format=None):
        if value is None:
            self.argv.append(self._s(a, format))
        else:
            self.argv += [str(a), self._s(value, format)]

    def _vals(self, a, values, map_each, omit, uniquify):
        if values is None:
            name, values = None, a
        else:
            name = a
        vs = values.to_list() if isinstance(values, Depset) else list(values)
        if map_each:
            o = []
            for v in vs:
                m = map_each(v)
                o += [] if m is None else m if isinstance(m, list) else [m]
            vs = o
        if uniquify:
            vs = list(dict.fromkeys(vs))
        return name, vs

    def add_all(self, a, values=None, map_each=None, format_each=None, before_each=None, omit_if_empty=True, uniquify=False,
                expand_directories=True, terminate_with=None, allow_closure=False):
        name, vs = self._vals(a, values, map_each, omit_if_empty, uniquify)
        if not vs and omit_if_empty:
            return
        if name:
            self.argv.append(name)
        for v in vs:
            if before_each:
                self.argv.append(before_each)
            self.argv.append(self._s(v, format_each))
        if terminate_with:
            self.argv.append(terminate_with)

    def add_joined(self, a, values=None, join_with=None, map_each=None, format_each=None, format_joined=None, omit_if_empty=True, uniquify=False,
                   expand_directories=True, allow_closure=False):
        name, vs = self._vals(a, values, map_each, omit_if_empty, uniquify)
        if not vs and omit_if_empty:
            return
        if name:
            self.argv.append(name)
        s = join_with.join(self._s(v, format_each) for v in vs)
        self.argv.append(format_joined.replace("%s", s, 1) if format_joined else s)

    def use_param_file(self, *a, **k):
        pass

    def set_param_file_format(self, *a):
        pass


class BuildFails(Exception):
    """The build reports an error (as opposed to this stand-in not coping)."""


class Actions:
    def __init__(self, bz, label):
        self.bz, self.label, self.list = bz, label, []

    def args(self):
        return Args()

    def declare_file(self, name, sibling=None):
        d = os.path.dirname(sibling.short_path) if sibling else self.label.package
        f = self.bz.generated(os.path.normpath(os.path.join(d, name)))
        return f

    def _add(self, inputs, outputs, cmd, tools, mnemonic):
        ins = inputs.to_list() if isinstance(inputs, Depset) else list(inputs or [])
        ts = tools.to_list() if isinstance(tools, Depset) else list(tools or [])
        self.list.append(Struct(inputs=ins, outputs=list(outputs), cmd=cmd, tools=[t for t in ts if isinstance(t, File)]))

    @staticmethod
    def _argv(arguments):
        v = []
        for a in arguments or []:
            v += a.argv if isinstance(a, Args) else [str(a)]
        return v

    def run(self, outputs, executable, inputs=None, arguments=None, tools=None, mnemonic=None, progress_message=None, env=None,
            use_default_shell_env=False, unused_inputs_list=None, execution_requirements=None, **kw):
        ts = list(tools or []) if not isinstance(tools, Depset) else tools.to_list()
        if isinstance(executable, File):
            ts.append(executable)
            exe = executable.path
        else:
            exe = str(executable)
        self._add(inputs, outputs, [exe] + self._argv(arguments), ts, mnemonic)

    def run_shell(self, outputs, command, inputs=None, arguments=None, tools=None, mnemonic=None, progress_message=None, env=None,
                  use_default_shell_env=False, execution_requirements=None, **kw):
        self._add(inputs, outputs, ["/bin/bash", "-c", command, ""] + self._argv(arguments), tools, mnemonic)

    def symlink(self, output, target_file=None, target_path=None, **kw):
        self._add([target_file], [output], ["/bin/cp", target_file.path, output.path], [], None)

    def write(self, output, content, is_executable=False, **kw):
        text = "\n".join(content.argv) + "\n" if isinstance(content, Args) else content
        self._add([], [output], ["/bin/bash", "-c", 'printf %s "$1" >"$2"', "", text, output.path], [], None)


class Bazel:
    def __init__(self, rule_file, prog, root):
        self.dir = root                 # the execution root: every file that exists so far
        self.prog = prog
        self.bin = "bazel-out/k8-fastbuild/bin"
        self.targets = {}               # short path -> (File, DefaultInfo-ish)
        self.gen = {}
        self.log = []
        self.rules = {}
        tree = ast.parse(open(rule_file, "rb").read(), "rule.bzl")

        class T(ast.NodeTransformer):
            def wrap(s, n):
                s.generic_visit(n)
                return ast.copy_location(ast.Call(ast.Name("dict", ast.Load()), [n], []), n)
            visit_Dict = visit_DictComp = wrap
        tree = ast.fix_missing_locations(T().visit(tree))
        self.tool = File("stl-to-ps/stl-to-ps", "bazel-out/k8-opt-exec/bin", False)

        def fail(*a, **k):
            raise BuildFails("fail: " + " ".join(map(str, a)))
        attr = Struct(**{k: (lambda k: lambda default=None, **kw: Struct(kind=k, default=default, **kw))(k)
                         for k in ("label", "label_list", "output", "output_list", "string", "string_list", "bool", "int", "string_dict")})
        g = {"rule": lambda implementation, attrs=None, doc="", **kw: Struct(impl=implementation, attrs=attrs or {}),
             "attr": attr, "depset": Depset, "struct": Struct, "DefaultInfo": lambda **k: ("DefaultInfo", k),
             "OutputGroupInfo": lambda **k: ("OutputGroupInfo", k), "fail": fail, "dict": SDict, "Label": lambda s: s, "True": True,
             "load": lambda *a, **k: None, "select": lambda d: next(iter(d.values())), "config": Struct(exec=lambda *a: "exec"),
             "provider": lambda *a, **k: (lambda **kw: ("provider", kw))}
        exec(compile(tree, "rule.bzl", "exec"), g)
        self.rules = {k: v for k, v in g.items() if isinstance(v, Struct) and hasattr(v, "impl")}

    def source(self, short, data):
        p = os.path.join(self.dir, short)
        os.makedirs(os.path.dirname(p) or ".", exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
        return File(short)

    def elsewhere(self, short, data):
        """A file generated in another configuration, e.g. behind a transition."""
        f = File(short, "bazel-out/k8-opt-ST-4c64f0b3d5c7/bin", False)
        p = os.path.join(self.dir, f.path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as o:
            o.write(data)
        return f

    def generated(self, short):
        if short not in self.gen:
            self.gen[short] = File(short, self.bin, False)
        return self.gen[short]

    def instantiate(self, kind, package, name, **given):
        """A target; -> what its build did.  Raises BuildFails."""
        r = self.rules[kind]
        label = Label(name=name, package=package, workspace_name="", workspace_root="")
        ctx = Struct(label=label, file=Struct(), files=Struct(), outputs=Struct(), attr=Struct(name=name), executable=Struct(),
                     workspace_name="ws", bin_dir=Root(self.bin), genfiles_dir=Root(self.bin), features=[], var={}, configuration=Struct())
        wanted = []
        for k in given:
            if k not in r.attrs:
                raise BuildFails(f"no such attribute '{k}' in '{kind}' rule")
        for k, a in r.attrs.items():
            v = given.get(k)
            if v is None and k.startswith("_") and a.kind == "label":
                v = self.tool
            if a.kind == "output":
                if v is None:
                    if getattr(a, "mandatory", False):
                        raise BuildFails(f"missing value for mandatory attribute '{k}'")
                    setattr(ctx.outputs, k, None)
                    continue
                f = self.generated(os.path.normpath(os.path.join(package, v)))
                setattr(ctx.outputs, k, f)
                wanted.append(f)
            elif a.kind == "label":
                if v is None and getattr(a, "mandatory", False):
                    raise BuildFails(f"missing value for mandatory attribute '{k}'")
                setattr(ctx.file, k, v)
                setattr(ctx.files, k, [v] if v else [])
                setattr(ctx.executable, k, v)
                setattr(ctx.attr, k, Struct(files=Depset([v] if v else []), label=k))
            elif a.kind == "label_list":
                v = list(v or [])
                setattr(ctx.files, k, v)
                setattr(ctx.attr, k, [Struct(files=Depset([x]), label=k) for x in v])
            else:
                setattr(ctx.attr, k, v if v is not None else a.default)
        ctx.actions = Actions(self, label)
        ctx.runfiles = lambda **kw: Struct(merge=lambda *a: None, merge_all=lambda *a: None, **kw)
        ctx.expand_location = lambda s, *a, **k: s
        info = r.impl(ctx)
        acts = ctx.actions.list
        made = {}
        for a in acts:
            if not a.outputs:
                raise BuildFails("an action with no output")
            for o in a.outputs:
                if o.path in made:
                    raise BuildFails(f"{o.path} is generated by two actions")
                if not o.short_path.startswith(package + "/" if package else ""):
                    raise BuildFails(f"{o.path} is not in the package")
                made[o.path] = a
        for w in wanted:
            if w.path not in made:
                raise BuildFails(f"the requested output {w.path} has no generating action")
        files = None
        for p in info if isinstance(info, (list, tuple)) else [info] if info else []:
            if isinstance(p, tuple) and p[0] == "DefaultInfo" and p[1].get("files") is not None:
                files = p[1]["files"].to_list()
        default = files if files is not None else wanted
        for w in wanted:
            self._make(w.path, made, set())
        return Struct(wanted=wanted, default=default, actions=acts)

    def _make(self, path, made, busy):
        if os.path.exists(os.path.join(self.dir, path)) and path not in made:
            return
        a = made.get(path)
        if a is None:
            raise BuildFails(f"nothing makes {path}")
        if getattr(a, "done", False):
            return
        if path in busy:
            raise BuildFails(f"{path} is needed to make itself")
        for i in a.inputs:
            if i is not self.tool:
                self._make(i.path, made, busy | {path})
        box = tempfile.mkdtemp(prefix="box", dir=core.SCRATCH_ROOT)
        try:
            for i in a.inputs + a.tools:
                d = os.path.join(box, i.path)
                os.makedirs(os.path.dirname(d), exist_ok=True)
                if i is self.tool:
                    if not os.path.exists(d):
                        os.symlink(self.prog, d)
                else:
                    shutil.copy(os.path.join(self.dir, i.path), d)
            for o in a.outputs:
                os.makedirs(os.path.join(box, os.path.dirname(o.path)), exist_ok=True)
            tb = os.path.join(box, ".tools")
            os.makedirs(tb)
            for n, t in (("ps2pdf", PS2PDF), ("openscad", OPENSCAD)):
                with open(os.path.join(tb, n), "w") as f:
                    f.write(t)
                os.chmod(os.path.join(tb, n), 0o755)
            cmd = list(a.cmd)
            if "/" not in cmd[0]:
                if not os.path.exists(os.path.join(tb, cmd[0])):
                    raise BuildFails(f"no {cmd[0]} on the PATH")
                cmd[0] = os.path.join(tb, cmd[0])
            elif not cmd[0].startswith("/"):
                if not os.path.exists(os.path.join(box, cmd[0])):
                    raise BuildFails(f"{cmd[0]} is not an input of the action that runs it")
                cmd[0] = os.path.join(box, cmd[0])
            p = subprocess.run(cmd, cwd=box, env={"PATH": tb + ":/usr/bin:/bin", "TZ": "UTC", "LC_ALL": "C"}, stdin=subprocess.DEVNULL,
                               capture_output=True, timeout=100)
            self.log.append((a.cmd, p.returncode, p.stderr))
            if p.returncode:
                raise BuildFails(f"{' '.join(a.cmd)[:300]} failed with {p.returncode}: {p.stderr[-300:].decode('latin-1')}")
            for o in a.outputs:
                s = os.path.join(box, o.path)
                if not os.path.isfile(s):
                    raise BuildFails(f"output {o.path} was not created by {' '.join(a.cmd)[:300]}")
                d = os.path.join(self.dir, o.path)
                os.makedirs(os.path.dirname(d), exist_ok=True)
                shutil.copy(s, d)
            a.done = True
        finally:
            shutil.rmtree(box, ignore_errors=True)


TIME = re.compile(rb"\d{4}-\d\d-\d\d[ T]\d\d:\d\d(:\d\d)?")
NAMES = ["p", "plan", "my-part", "part_2", "a.b", "x+y", "v1.0-rc", "drawing", "A"]


def c23(env):
    rng = env.rng
    prog = env.runner.bins["plain"] + "/stl-to-ps"
    rule_file = os.path.join(B.SRC, "rule.bzl")
    if env.index % 3 == 2:
        return c23_scad(env, prog, rule_file)
    root = tempfile.mkdtemp(prefix="ws", dir=core.SCRATCH_ROOT)
    try:
        bz = Bazel(rule_file, prog, root)
        doc, files = docs.document(rng, models=rng.randint(1, 3), pages=rng.choice([1, 2]))
        pkg = rng.choice(["", "p", "parts/left", "stl-to-ps", "x.y"])
        deps, place = [], {}
        for i, (f, text) in enumerate(sorted(files.items())):
            how = rng.choice(["source", "source", "generated", "other package", "external", "subdirectory", "other configuration"])
            d = {"other package": "lib/models", "external": "external/models+", "subdirectory": os.path.join(pkg, "sub")}.get(how, pkg)
            short = os.path.join(d, f)
            place[f] = short
            if how == "generated":
                src = bz.source(os.path.join(pkg, f"gen{i}.scad"), text.encode())
                t = bz.instantiate("scad_binary", pkg, f"gen{i}", src=src, out=f)
                deps += t.wanted
            elif how == "other configuration":
                deps.append(bz.elsewhere(short, text.encode()))
            else:
                deps.append(bz.source(short, text.encode()))
            env.o.inc("models: " + how)
        doc["file"] = {n: place[os.path.basename(p)] for n, p in doc["file"].items()}
        for k in range(rng.randint(0, 2)):
            deps.append(bz.source(os.path.join(pkg, f"unused{k}.stl"), p_io.sized_box(5, 5).encode()))
        rng.shuffle(deps)
        bad = rng.choice([None, None, None, "undeclared", "script"])
        if bad == "undeclared":
            victim = place[os.path.basename(sorted(files)[0])]
            deps = [x for x in deps if x.short_path != victim]
        src = docs.plain(doc)
        if bad == "script":
            src += rng.choice([b"page { nonsense(1); }", b"page {", b'load zz = "no such.stl";'])
        sdir = rng.choice([pkg, os.path.join(pkg, "scripts"), "lib"])
        sname = os.path.join(sdir, rng.choice(["plan.script", "a b.example", "x"]))
        if rng.random() < .3:
            # a script that is itself made by the build
            scad = bz.source(os.path.join(pkg, "genscript.in"), src)
            script = bz.instantiate("scad_binary", pkg, "genscript", src=scad, out="gen.script").wanted[0]
            env.o.inc("scripts: generated")
        else:
            script = bz.source(sname, src)
            env.o.inc("scripts: source")
        name = rng.choice(NAMES)
        out = rng.choice([name + ".pdf", "out.pdf", "docs/" + name + ".pdf", "a/b/c.pdf", "noext", "docs/out.v2.pdf"])
        what = f"stl2pdf(name={name!r}, script={script.path!r}, deps={[d.path for d in deps]}, out={out!r}) in //{pkg}"
        case = Case(src, {place[f]: t for f, t in files.items()})
        env.o.runs += 1
        try:
            t = bz.instantiate("stl2pdf", pkg, name, script=script, deps=deps, out=out)
        except BuildFails as e:
            if bad:
                env.o.inc("builds that fail as they must")
                env.o.note(("bad", case.digest(), what))
            else:
                env.o.bad("fails", f"{what}: {e}", case)
            return
        if bad:
            env.o.bad("passes", f"{what} builds, though " + ("a model it loads is not among its deps" if bad == "undeclared" else "its script is wrong"), case)
            return
        pdf = open(os.path.join(root, t.wanted[0].path), "rb").read()
        if t.wanted[0].path != os.path.join(bz.bin, pkg, out) or [f.path for f in t.default] != [t.wanted[0].path]:
            env.o.bad("outputs", f"{what} gives {[f.path for f in t.default]}", case)
            return
        # the same, without the rules
        d = Case(src, {place[f]: x for f, x in files.items()}, ["--name=" + name], script_name=script.path)
        r = env.run(d)
        if not r.ok:
            env.o.bad("direct", f"refused when run directly: {r.err[-300:]!r}", case)
            return
        got, want = pdf.split(b"\n", 1)[1], r.out
        if p_io.sans_time(TIME.sub(b"TIME", got)) != p_io.sans_time(TIME.sub(b"TIME", want)):
            env.o.bad("differs", f"{what}: the result is not what stl-to-ps --name={name} makes of the same files", case)
            return
        if pdf[:14] != b"%PDF-stand-in\n"[:14]:
            env.o.bad("not pdf", f"{what}: the output never went through ps2pdf", case)
            return
        env.o.inc("builds compared with a direct run")
        env.o.inc("actions executed", len(bz.log))
        env.o.note(("ok", case.digest(), what))
        env.o.sample(what + " ran " + "; ".join(" ".join(c) for c, _, _ in bz.log))
    finally:
        shutil.rmtree(root, ignore_errors=True)


def c23_scad(env, prog, rule_file):
    rng = env.rng
    root = tempfile.mkdtemp(prefix="ws", dir=core.SCRATCH_ROOT)
    try:
        bz = Bazel(rule_file, prog, root)
        pkg = rng.choice(["", "p", "parts/left", "x.y"])
        n = rng.randint(0, 4)
        deps, body = [], ""
        for i in range(n):
            rel = rng.choice([f"d{i}.scad", f"sub/d{i}.scad"])
            deps.append(bz.source(os.path.join(pkg, rel), f"// part {i} {rng.random()}\n".encode()))
            body += f"include <{rel}>\n"
        text = body + f"cube({rng.random()});\n"
        src = bz.source(os.path.join(pkg, rng.choice(["m.scad", "in put.scad", "deep/m.scad" if not n else "n.scad"])), text.encode())
        rng.shuffle(deps)
        bad = n and rng.random() < .25
        if bad:
            deps.pop()
        name = rng.choice(NAMES)
        out = rng.choice([name + ".stl", "o.stl", "stl/o.stl", "a/b/c.stl"])
        what = f"scad_binary(name={name!r}, src={src.path!r}, deps={[d.path for d in deps]}, out={out!r}) in //{pkg}"
        env.o.runs += 1
        try:
            t = bz.instantiate("scad_binary", pkg, name, src=src, out=out, **({"deps": deps} if deps or rng.random() < .5 else {}))
        except BuildFails as e:
            if bad:
                env.o.inc("builds that fail as they must")
                env.o.note(("scad bad", what, text))
            else:
                env.o.bad("scad fails", f"{what}: {e}")
            return
        if bad:
            env.o.bad("scad passes", f"{what} builds, though a file it includes is not among its deps")
            return
        if t.wanted[0].path != os.path.join(bz.bin, pkg, out) or [f.path for f in t.default] != [t.wanted[0].path]:
            env.o.bad("scad outputs", f"{what} gives {[f.path for f in t.default]}")
            return
        got = open(os.path.join(root, t.wanted[0].path)).read()
        inc = "".join(open(os.path.join(root, pkg, m)).read() for m in re.findall(r"include <(.*?)>", text))
        if got != inc + re.sub(r"include <.*?>\n", "", text):
            env.o.bad("scad differs", f"{what}: the output is not made from src")
            return
        env.o.inc("scad builds")
        env.o.inc("actions executed", len(bz.log))
        env.o.note(("scad", what, text))
    finally:
        shutil.rmtree(root, ignore_errors=True)
