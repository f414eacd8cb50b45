"""C23: the validators of the command line, alone and behind the argument parser."""
import argparse, contextlib, io, itertools, json, os, random, shutil, sys, tempfile
from pathlib import Path
import collagraph.__main__ as main_mod
from common import Fail

SEEN = """<template><item/></template>
<script>
import collagraph as cg
import sys
class Seen(cg.Component):
    def mounted(self):
        sys.modules["h_cli_seen"].props.append(self.props)
</script>
"""
TREE = {"comp.cgx": "<template><a/></template>", "other.txt": "{}", "noext": "1", ".cgx": "x", "upper.CGX": "x", "dir.cgx/": None, "dir/": None, "dir/in.cgx": "x", "sp ace.cgx": "x", "two.dots.cgx": "x", "old.cgx.bak": "x", "a.cgx.txt": "x", "b.cgx.": "x",
        "state.json": '{"a": [1, null, "\u00e9"]}', "list.json": "[1, 2]", "bad.json": "{a: 1}", "empty.json": "", "null.json": "null", "latin.json": None, "{}": "[5]", "5": '"file"', "trail.cgx ": "x", "cgx": "x",
        "lines.json": '{\n  "a": 1,\n\t"b": [ "x  y ",\n 2 ]\n}\n', "split.json": "[1\n2]", "cut.json": '"a\nb"', "num.json": "1\n2", "long.json": json.dumps({"k" + str(i): " " * i for i in range(3000)}, indent=1), "blank.json": " \n\n", "bom.json": "\ufeff[1]",
        "seen.cgx": SEEN, "deep/a/b.json": "[[]]", "two.json": "{}\n{}"}
LITERALS = ["{}", "5", "null", "true", "[]", '{"a": 1}', '{"a": {"b": [1, 2.5, "x"]}}', "{'a': 1}", "", " ", "nope", "{", '"s"', "[1,]", "0", "-1e3", "\x00", "a\x00b", '"\\u00e9"', "1 2", "True",
            '{"a": 1, "a": 2}', " [1] ", "\n", "[" * 40 + "]" * 40, "'x'", "NULL", "\udcff", "1\n2", "tru\ne", "[1\n,2]", '"a\nb"', '{"a":\n 1}', '"' + "y" * 30 + '"']


def build(tmp):
    for n, c in TREE.items():
        p = tmp / n
        if n.endswith("/"):
            p.mkdir(parents=True, exist_ok=True)
        else:
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(b"\xff\xfe{" if n == "latin.json" else c.encode())
    (tmp / "link.cgx").symlink_to(tmp / "comp.cgx")
    (tmp / "broken.cgx").symlink_to(tmp / "missing")
    (tmp / "as.cgx").symlink_to(tmp / "other.txt")
    (tmp / "as.txt").symlink_to(tmp / "comp.cgx")
    (tmp / "twice.cgx").symlink_to(tmp / "as.txt")
    (tmp / "up.cgx").symlink_to(tmp / "dir" / ".." / "noext")
    (tmp / "loop.cgx").symlink_to(tmp / "loop.cgx")
    (tmp / "linkdir.cgx").symlink_to(tmp / "dir")


ROOT = [None]


def root():
    if ROOT[0] is None:
        import atexit
        ROOT[0] = Path(tempfile.mkdtemp(prefix="cgxcli"))
        build(ROOT[0])
    return ROOT[0]


def cleanup():
    if ROOT[0] is not None:
        shutil.rmtree(str(ROOT[0]))
        ROOT[0] = None


def is_regular(p):
    try:
        return os.path.isfile(str(Path(p)))     # (pathlib's reading: trailing slashes don't matter)
    except ValueError:
        return False


def value_of(case):
    v = case["value"]
    if case.get("pad"):
        v = v[:1] + " " * case["pad"] + v[1:] if v[:1] in "[{" else v + "z" * case["pad"]
    if case.get("quote"):
        v = json.dumps("q" * case["quote"])
    return v


def expect_component(v):
    if is_regular(v):
        name = os.path.basename(os.path.normpath(v))
        return os.path.splitext(name)[1] == ".cgx"
    return False


def expect_state(v):
    try:
        if is_regular(v):
            with open(str(Path(v)), encoding="utf-8") as f:
                return True, json.loads(f.read())
        return True, json.loads(v)
    except (ValueError, UnicodeError):
        return False, None
    except RecursionError:
        return None, None


def check(case):
    v = value_of(case)
    base = root()
    old = os.getcwd()
    os.chdir(base)
    try:
        if case.get("abs"):
            v = str(base) + "/" + v if "\x00" not in v else v
        kind = case.get("kind", "component")
        fn = main_mod.existing_component_file if kind == "component" else main_mod.json_contents
        ok, want = (expect_component(v), None) if kind == "component" else expect_state(v)
        if ok is None:
            return None
        try:
            got = fn(v)
        except argparse.ArgumentTypeError as e:
            if ok:
                return f"{kind}: {short(v)} is rejected: {short(str(e))}"
            if v not in str(e):
                return f"{kind}: the rejection of {short(v)} does not name it: {short(str(e))}"
            return parser(case, v, kind, ok, want)
        except BaseException as e:
            return f"{kind}: {short(v)} raises {type(e).__name__}: {short(str(e))}"
        if not ok:
            return f"{kind}: {short(v)} is accepted as {short(repr(got))}"
        if kind == "component" and Path(got) != Path(v):
            return f"component: {short(v)} becomes {got}"
        if kind == "state" and (got != want or type(got) is not type(want)):
            return f"state: {short(v)} becomes {short(repr(got))} instead of {short(repr(want))}"
        return parser(case, v, kind, ok, want)
    finally:
        os.chdir(old)


def parser(case, v, kind, ok, want):
    """The same through the argument parser."""
    if v.startswith("-"):
        return None
    seen = []
    real, argv = main_mod.init_collagraph, sys.argv
    main_mod.init_collagraph = lambda *a, **k: seen.append((a, k))
    sys.argv = ["collagraph", "--renderer", "dict"] + (["--state", v, "comp.cgx"] if kind == "state" else [v])
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err):
            main_mod.run()
    except SystemExit as e:
        if ok:
            return f"{kind}: the command line rejects {short(v)}: {short(err.getvalue()[-200:])}"
        return None if e.code == 2 else f"{kind}: the command line exits with {e.code} for {short(v)}"
    except BaseException as e:
        return f"{kind}: the command line raises {type(e).__name__} for {short(v)}"
    finally:
        main_mod.init_collagraph, sys.argv = real, argv
    if not ok:
        return f"{kind}: the command line accepts {short(v)}"
    a, k = seen[0]
    got = list(a) + list(k.values())
    if kind == "state" and not any(x == want and type(x) is type(want) for x in got):
        return f"state: the command line passes {short(repr(got))} for {short(v)}"
    if kind == "component" and not any(isinstance(x, (str, Path)) and Path(x) == Path(v) for x in got):
        return f"component: the command line passes {short(repr(got))} for {short(v)}"


def check_run(case):
    """The state becomes the props of the component that is started."""
    import types
    from observ import to_raw
    want = case["state"]
    if not (want is None or isinstance(want, dict)):
        return None
    base = root()
    old, argv, hook = os.getcwd(), sys.argv, sys.breakpointhook
    seen = sys.modules["h_cli_seen"] = types.ModuleType("h_cli_seen")
    seen.props = []
    stops = []
    os.chdir(base)
    sys.breakpointhook = lambda *a, **k: stops.append(1)
    sys.argv = ["collagraph", "--renderer", "dict"] + ([] if want is None else ["--state", " " + json.dumps(want)]) + ["seen.cgx"]
    try:
        main_mod.run()
    except BaseException as e:
        return f"run: starting with state {short(repr(want))} raises {type(e).__name__}: {short(str(e))}"
    finally:
        os.chdir(old)
        sys.argv, sys.breakpointhook = argv, hook
    got = [to_raw(p) for p in seen.props]
    if got != [want or {}]:
        return f"run: state {short(repr(want))} gives the component {short(repr(got))}"


RUN_VALUES = [None, True, False, 0, 1, -2.5, "", "x", "1", [], [1, None], {}, {"a": None}, [[]], {"b": {"c": 0}}]


def run_values(tier):
    yield {"state": None}
    yield {"state": {}}
    for v in RUN_VALUES:
        for k in ("a", "", "class", "State", "\u00e9", "a b"):
            yield {"state": {k: v}}
    for v, w in [(None, 1), (1, None), (0, ""), (None, None), ({}, [])]:
        yield {"state": {"a": v, "b": w}}


def gen_run(rng, size=None):
    return {"state": {rng.choice(["a", "b", "c", "x-y", "state", "title"]): rng.choice(RUN_VALUES) for _ in range(rng.randrange(5))}}


def short(s):
    return s if len(s) < 90 else s[:60] + f"...({len(s)})"


def values(tier):
    names = [n.rstrip("/") for n in TREE] + ["link.cgx", "broken.cgx", "loop.cgx", "linkdir.cgx", "as.cgx", "as.txt", "twice.cgx", "up.cgx", "missing.cgx", "comp.cgx/", "comp.cgx/x.cgx", "./comp.cgx", "dir/../comp.cgx", ".", "/", "~", "dir/"]
    for kind in ("component", "state"):
        for v in names + LITERALS:
            yield {"kind": kind, "value": v}
            if v in names:
                yield {"kind": kind, "value": v, "abs": True}
        for n in (200, 250, 255, 256, 300, 4090, 4096, 5000, 70000):
            for v in ("[]", "{}", '{"a": 1}', "x", "[", "comp.cgx"):
                yield {"kind": kind, "value": v, "pad": n}
            yield {"kind": kind, "value": "", "quote": n}


def gen(rng, size=None):
    chars = '{}[]",:0123456789 \nabcx./\\\x00ué-+eE.truefalsn'
    if rng.random() < 0.5:
        v = "".join(rng.choice(chars) for _ in range(rng.randrange(0, 12)))
    else:
        def j(d):
            return rng.choice([lambda: rng.choice([None, True, 1, -2.5, "", "é", "x/y"]), lambda: [j(d - 1) for _ in range(rng.randrange(3))] if d else 0, lambda: {rng.choice("abc/"): j(d - 1) for _ in range(rng.randrange(3))} if d else 1])()
        v = json.dumps(j(3))
        if rng.random() < 0.3 and v:
            i = rng.randrange(len(v))
            v = v[:i] + rng.choice(chars) + v[i + 1:]
    return {"kind": rng.choice(["component", "state", "state"]), "value": v, "abs": False}


def families(pid):
    return {"values": (None, check, values), "random values": (gen, check, None), "starts": (None, check_run, run_values), "random starts": (gen_run, check_run, None)}
