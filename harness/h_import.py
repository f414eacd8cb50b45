"""C22: finding, loading and reloading .cgx files."""
import importlib, itertools, os, random, shutil, sys, tempfile
from pathlib import Path
import collagraph as cg
from collagraph.cgx import cgx
from collagraph.cgx.importer import CgxImporter
from common import Fail

COUNT = itertools.count()
NAMES = ["alpha", "beta", "x_1", "Alpha", "My_Part", "ALPHA", "__x__", "a\u00e9"]
FILES = ["alpha.cgx", "beta.cgx", "alpha.py.cgx", "alpha.CGX", "Alpha.cgx", "alpha.cgx.bak", "alpha", "pkg.alpha.cgx", "x_1.cgx", "My_Part.cgx", "my_part.cgx", "ALPHA.cgx", "__x__.cgx", "a\u00e9.cgx", "cgx", ".cgx", "alphacgx"]


def source(mark, stmts=None, roots=1, extra=True):
    if stmts is None:
        stmts = [["assign", "marker", mark], ["class", "Main", "C"]]
    lines = ["import collagraph as cg"]
    for s in stmts:
        if s[0] == "class":
            base = {"C": "(cg.Component)", "none": "", "sub": "(Main)", "obj": "(object)", "many": "(dict, cg.Component)"}[s[2]]
            lines += [f"class {s[1]}{base}:", f"    tag = {mark!r}", "    def hello(self):", "        return self.tag"]
        elif s[0] == "own":
            lines += [f"class {s[1]}(cg.Component):", "    def render(self):", "        return None"]
        elif s[0] == "assign":
            lines.append(f"{s[1]} = {s[2]!r}")
        elif s[0] == "def":
            lines += [f"def {s[1]}():", f"    return ({mark!r}, __name__, marker if 'marker' in globals() else None)", ""]
        elif s[0] == "if":
            lines += ["if True:", f"    class {s[1]}:", "        pass"]
        elif s[0] == "in":
            lines += [f"def make_{s[1]}():", f"    class {s[1]}:", "        pass", f"    return {s[1]}"]
        elif s[0] == "inner":
            lines += [f"class {s[1]}(cg.Component):", "    class Inner:", "        pass"]
    els = "".join(f"<root{i} v=\"{mark}\"/>" for i in range(roots))
    tpl = f"<template>{'<!-- c --> ' if extra else ''}{els}</template>"
    return tpl + "\n<script>\n" + "\n".join(lines) + "\n</script>\n"


def check_find(case):
    tmp = Path(tempfile.mkdtemp(prefix="cgxfind"))
    old = list(sys.path)
    try:
        dirs = []
        for i, files in enumerate(case["dirs"]):
            d = tmp / f"d{i}"
            if files is not None:
                d.mkdir()
                for f in files:
                    if f.endswith("/"):
                        (d / f[:-1]).mkdir(exist_ok=True)
                    elif not (d / f).exists():
                        (d / f).write_text(source(f"{i}"))
            dirs.append(d)
        name = case["name"]
        leaf = name.rpartition(".")[2]
        want = next((i for i, d in enumerate(dirs) if d.is_dir() and f"{leaf}.cgx" in [x.name for x in d.iterdir() if x.is_file()]), None)
        if case.get("how") == "sys":
            sys.path[:] = [str(d) for d in dirs]
            spec = CgxImporter.find_spec(name, None)
        elif case.get("how") == "target":
            class T:
                __spec__ = object()
            if CgxImporter.find_spec(name, [str(d) for d in dirs], T) is not T.__spec__:
                return f"find: reloading {name} did not use the existing spec"
            return None
        else:
            spec = CgxImporter.find_spec(name, [str(d) for d in dirs] if case.get("how") != "paths" else dirs)
        if want is None:
            if spec is not None:
                return f"find: {name} in {case['dirs']} found {spec.origin}"
            return None
        if spec is None:
            return f"find: {name} in {case['dirs']} is not found"
        if Path(spec.origin) != dirs[want] / f"{leaf}.cgx" or spec.name != name:
            return f"find: {name} in {case['dirs']} gives {spec.name} at {spec.origin} instead of directory {want}"
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        if m.marker != str(want) or m.__file__ != spec.origin or m.__name__ != name or m.Main.tag != str(want):
            return f"find: {name} in {case['dirs']} loads the wrong file"
    finally:
        sys.path[:] = old
        shutil.rmtree(str(tmp))


def gen_find(rng, size=None):
    return {"dirs": [rng.choice([None, [], [f + rng.choice(["", "", "/"]) for f in rng.sample(FILES, rng.randrange(0, 4))]]) for _ in range(rng.randrange(1, 5))],
            "name": rng.choice(["", "pkg.", "a.b."]) + rng.choice(NAMES), "how": rng.choice(["path", "sys", "paths", "target"])}


def all_find(tier):
    opts = [None, [], ["alpha.cgx"], ["beta.cgx"], ["alpha.cgx/"], ["alpha.cgx", "pkg.alpha.cgx"], ["Alpha.cgx"]]
    for n in (1, 2, 3):
        for dirs in itertools.product(opts, repeat=n):
            for how in ("path", "sys"):
                yield {"dirs": list(dirs), "name": "pkg.alpha" if len(str(dirs)) % 2 else "alpha", "how": how}
    for name in NAMES:
        for files in ([name + ".cgx"], [name.lower() + ".cgx"], [name.upper() + ".cgx"], [name.swapcase() + ".cgx", name + ".cgx"]):
            for how in ("path", "sys"):
                yield {"dirs": [files, [name + ".cgx"]], "name": name, "how": how}


def check_load(case):
    stmts, roots = case["stmts"], case["roots"]
    tops = [(s[1], {"C": True, "many": True, "none": False, "obj": False, "sub": True}[s[2]] if s[0] == "class" else True) for s in stmts if s[0] in ("class", "own", "inner")]
    if not tops:
        return None
    names = [s[1] for s in stmts]
    if len(set(names)) != len(names):
        return None
    if any(s[0] == "class" and s[2] == "sub" for s in stmts) and ["class", "Main", "C"] not in stmts[: next(i for i, s in enumerate(stmts) if s[0] == "class" and s[2] == "sub")]:
        return None
    last, ok = tops[-1]
    src = source("m", stmts, roots)
    try:
        C, ns = cgx.load_from_string(src)
    except ValueError as e:
        if roots == 1 and ok:
            return f"load: {stmts} is rejected: {e}"
        text = str(e)
        if roots != 1 and ok and not ("root" in text or str(roots) in text):
            return f"load: {roots} roots are rejected with {text!r}"
        if roots == 1 and not (last in text or "omponent" in text):
            return f"load: a script whose last class is not a component is rejected with {text!r}"
        return None
    if roots != 1 or not ok:
        return f"load: {stmts} with {roots} root elements is accepted"
    if C is not ns.get(last) or C.__name__ != last:
        return f"load: {stmts}: the component is {C} instead of {last}"
    for s in stmts:
        n = f"make_{s[1]}" if s[0] == "in" else s[1]
        if n not in ns:
            return f"load: {stmts}: {n} is missing"
        if s[0] == "assign" and ns[n] != s[2]:
            return f"load: {stmts}: {n} is {ns[n]}"
        if s[1] != last and s[0] == "class" and "render" in vars(ns[n]):
            return f"load: {stmts}: {n} got a render method"
    v = C({}, None).render()
    if getattr(v, "type", None) != "root0" or dict(v.props) != {"v": "m"}:
        return f"load: {stmts}: render gives {v}"


def gen_load(rng, size=None):
    pool = ["Main", "Foo", "Bar", "marker", "helper", "x"]
    stmts = []
    for n in rng.sample(pool, rng.randrange(1, 6)):
        k = rng.choice(["class", "class", "assign", "def", "if", "in", "own", "inner"])
        stmts.append({"class": [k, n, rng.choice(["C", "C", "none", "sub", "obj"])], "assign": [k, n, rng.choice([1, "s", None])]}.get(k, [k, n]))
    return {"stmts": stmts, "roots": rng.choice([1, 1, 1, 0, 2, 3])}


def check_reload(case):
    tmp = Path(tempfile.mkdtemp(prefix="cgxload"))
    name = f"verif_cgx_{next(COUNT)}"
    f = tmp / f"{name}.cgx"
    sys.path.insert(0, str(tmp))
    try:
        m = None
        for i, stmts in enumerate(case["versions"]):
            stmts = [s for s in stmts if s[0] in ("assign", "def")] + [["class", "Main", "C"]]
            f.write_text(source(f"v{i}", stmts))
            importlib.invalidate_caches()
            m = importlib.import_module(name) if m is None else importlib.reload(m)
            if m.__name__ != name or m.__file__ != str(f):
                return f"reload: the module is {m.__name__} at {m.__file__}"
            if m.Main.tag != f"v{i}":
                return f"reload: the component is that of {m.Main.tag} instead of v{i}"
            v = m.Main({}, None).render()
            if dict(v.props) != {"v": f"v{i}"}:
                return f"reload: the component of v{i} renders {v.props}"
            for s in stmts:
                if s[0] == "assign" and getattr(m, s[1], None) != s[2]:
                    return f"reload: {s[1]} is {getattr(m, s[1], None)!r} instead of {s[2]!r} in version {i} of {case['versions']}"
                if s[0] == "def" and getattr(m, s[1])()[:2] != (f"v{i}", name):
                    return f"reload: {s[1]}() is {getattr(m, s[1])()} in version {i} of {case['versions']}"
    finally:
        sys.path.remove(str(tmp))
        sys.modules.pop(name, None)
        shutil.rmtree(str(tmp))


def gen_reload(rng, size=None):
    return {"versions": [[rng.choice([["assign", n, rng.choice([1, "s", None, 0])], ["def", n]]) for n in rng.sample(["marker", "helper", "x"], rng.randrange(0, 4))] for _ in range(rng.choice([1, 2, 3]))]}


def families(pid):
    return {"search paths": (gen_find, check_find, None), "small search paths": (None, check_find, all_find), "scripts": (gen_load, check_load, None), "reloads": (gen_reload, check_reload, None)}
