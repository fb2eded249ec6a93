"""Dumping, loading, overrides (C01-C07, C30)."""
import os
import random
import re

import hyperstate
from core import Check, Draw, Skip, Violation
from ref import Ref
from universe import CATALOGUE, SCALARS, Built, Doc, TypeGen, catalogue_classes, hashable, kind, num_text, ron, same


def expect_same(a, b, what, **kw):
    m = same(a, b, **kw)
    if m:
        raise Violation("%s: %s" % (what, m))


def kinds_of(u):
    out = set()

    def walk(t):
        out.add(kind(t))
        if isinstance(t, list) and t[0] in ("opt", "list", "tup", "dict"):
            for x in t[1:]:
                walk(x)

    for st in u["structs"].values():
        for f in st["fields"]:
            walk(f["t"])
    return out


class C01(Check):
    id = "C01"
    rule = ("random dataclass universes over all supported field types with random values; "
            "non-trivial: the value has a container, enum, nested or optional part, or a string or number that needs care")
    quick = 170
    thorough = 4000

    def gen(self, d):
        g = TypeGen(d, depth=d.int(1, 3))
        u = g.universe()
        return {"u": u, "values": [g.root_value() for _ in range(d.int(1, 4))]}

    def corpus(self):
        for i, (t, js) in enumerate(CATALOGUE):
            yield {"u": catalogue_classes([(0, t), (1, CATALOGUE[i - 1][0])]), "values": [{"x0": j, "x1": CATALOGUE[i - 1][1][0]} for j in js]}

    def run(self, case, ctx):
        b = Built(case["u"])
        ks = kinds_of(case["u"])
        for k in ks:
            ctx.label("type:" + k)
        folder = ctx.dir()
        for i, j in enumerate(case["values"]):
            obj, ref = b.root_value(j), b.root_value(j)
            text = hyperstate.dumps(obj)
            if not isinstance(text, str):
                raise Violation("dumps returned %r" % (text,))
            expect_same(ref, obj, "dumping changed the object")
            back = hyperstate.loads(b.root, text)
            expect_same(obj, back, "dumped and loaded again\n%s\n" % text)
            text2 = hyperstate.dumps(back)
            if text2 != text:
                raise Violation("dumping the loaded value gives another text:\n%s\n%s" % (text, text2))
            path = os.path.join(folder, "f%d.ron" % i)
            import pathlib

            hyperstate.dump(obj, pathlib.Path(path) if i % 2 else path)
            with open(path, newline="") as f:
                on_disk = f.read()
            if on_disk != text:
                raise Violation("dump wrote\n%r\nbut dumps returned\n%r" % (on_disk, text))
            expect_same(obj, hyperstate.load(b.root, pathlib.Path(path) if i % 3 else path), "dumped to a file and loaded")
            if any(c in text for c in "\\'") or re.search(r"[^\x20-\x7e\n]", text):
                ctx.mark("text needs quoting")
        if sorted(os.listdir(folder)) != ["f%d.ron" % i for i in range(len(case["values"]))]:
            raise Violation("unexpected files: %r" % os.listdir(folder))
        if ks - set(SCALARS):
            ctx.mark("structured")


def attempt(f, *a, **k):
    """("ok", value) or ("error", exception)."""
    try:
        return "ok", f(*a, **k)
    except BaseException as e:
        if not is_error(e):
            raise
        return "error", e


def is_error(e):
    # what the parser raises for some malformed documents is not an Exception
    return isinstance(e, (Exception, SystemExit)) or type(e).__name__ == "PanicException"


def judge(b, expected, got, what):
    """Compares an outcome of the code with one of the reference loader."""
    if expected[0] == "ok":
        if got[0] == "error":
            raise Violation("%s: expected %r, but it was rejected: %r" % (what, expected[1], got[1]))
        expect_same(expected[1], got[1], what)
    elif expected[0] == "bad":
        if got[0] == "ok":
            raise Violation("%s: accepted as %r, although %s" % (what, got[1], expected[1]))
    elif got[0] == "ok":
        m = b.conforms_struct(b.u["root"], got[1])
        if m:
            raise Violation("%s: loaded a value that does not conform: %s" % (what, m))


class C02(Check):
    id = "C02"
    rule = ("random universes and values drawn half from the defaults; non-trivial: the text leaves out at least one field "
            "and keeps at least one")
    quick = 200
    thorough = 4000

    def gen(self, d):
        g = TypeGen(d, depth=d.int(1, 2), defaults=75, required_nested=30)
        u = g.universe()
        return {"u": u, "values": [g.struct_value(u["root"], keep_default=60) for _ in range(d.int(1, 4))]}

    def run(self, case, ctx):
        import pathlib

        import pyron

        b = Built(case["u"])
        folder = ctx.dir()
        for j in case["values"]:
            obj, ref = b.root_value(j), b.root_value(j)
            text = hyperstate.dumps(obj, elide_defaults=True)
            expect_same(ref, obj, "dumping changed the object")
            path = pathlib.Path(folder) / "c.ron"
            hyperstate.dump(obj, path, elide_defaults=True)
            with open(path, newline="") as f:
                if f.read() != text:
                    raise Violation("dump and dumps differ with elide_defaults")
            back = hyperstate.loads(b.root, text)
            expect_same(obj, back, "elided and loaded again\n%s\n" % text, zero_sign=False)
            counts = [0, 0]
            self.walk(b, ["st", b.u["root"]], obj, pyron.loads(text, preserve_class_names=True), "", counts, text)
            if counts[0] and counts[1]:
                ctx.mark("some fields elided, some kept")

    def walk(self, b, t, v, tree, path, counts, text):
        k = kind(t)
        if k == "opt":
            if v is not None:
                self.walk(b, t[1], v, tree, path, counts, text)
        elif k == "list":
            for i, (x, y) in enumerate(zip(v, tree)):
                self.walk(b, t[1], x, y, "%s[%d]" % (path, i), counts, text)
        elif k == "tup":
            for i, (x, y) in enumerate(zip(v, tree)):
                self.walk(b, t[i + 1], x, y, "%s[%d]" % (path, i), counts, text)
        elif k == "dict":
            for key in v:
                self.walk(b, t[2], v[key], tree[key], "%s.%s" % (path, key), counts, text)
        elif k in ("st", "un"):
            name = type(v).__name__
            for f in b.u["structs"][name]["fields"]:
                x = getattr(v, f["n"])
                present = f["n"] in tree
                p = "%s.%s" % (path, f["n"])
                if "d" in f:
                    default = b.value(f["t"], f["d"][1])
                    equal = same(default, x, zero_sign=False) is None
                    if not equal and not present:
                        raise Violation("%s = %r is not the default %r but was left out of\n%s" % (p, x, default, text))
                    if equal and present and f["t"] in SCALARS and self.plain(x):
                        raise Violation("%s = %r is the default but was written in\n%s" % (p, x, text))
                elif not present and kind(f["t"]) != "st":
                    raise Violation("%s has no default but was left out of\n%s" % (p, text))
                counts[0 if not present else 1] += 1
                if present:
                    self.walk(b, f["t"], x, tree[f["n"]], p, counts, text)

    @staticmethod
    def plain(x):
        if isinstance(x, float):
            return x == x and abs(x) != float("inf")
        if isinstance(x, int) and not isinstance(x, bool):
            return -(2**63) <= x < 2**63
        return True


def positions(node, out=None, setter=None):
    """All (node, setter) of a document."""
    if out is None:
        out = []
    if setter:
        out.append((node, setter))
    k = node[0]
    if k in ("list", "tup"):
        for i, x in enumerate(node[1]):
            positions(x, out, lambda new, l=node[1], i=i: l.__setitem__(i, new))
    elif k == "map":
        for e in node[1]:
            positions(e[1], out, lambda new, e=e: e.__setitem__(1, new))
    elif k == "st":
        for e in node[2]:
            positions(e[1], out, lambda new, e=e: e.__setitem__(1, new))
    return out


def random_node(d, depth=2):
    k = d.weighted([(4, "num"), (3, "str"), (2, "bool"), (2, "none"), (2, "list"), (2, "tup"), (2, "map"), (2, "st"), (1, "float")])
    if depth == 0 and k in ("list", "tup", "map", "st"):
        k = "num"
    if k == "num":
        return ["num", str(d.int64())]
    if k == "float":
        return ["num", num_text(d.real(False))]
    if k == "str":
        return ["str", d.text()]
    if k == "bool":
        return ["bool", d.chance(50)]
    if k == "none":
        return ["none"]
    if k == "list":
        return ["list", [random_node(d, depth - 1) for _ in range(d.size(0, 3))]]
    if k == "tup":
        return ["tup", [random_node(d, depth - 1) for _ in range(d.size(1, 3))]]
    if k == "map":
        keys = []
        for _ in range(d.size(0, 3)):
            key = ["str", d.text()] if d.chance(70) else ["num", str(d.n(9))]
            if key not in keys and key[1] not in ("!__name__", "!weak ref"):
                keys.append(key)
        return ["map", [[key, random_node(d, depth - 1)] for key in keys]]
    names = d.names(d.size(0, 3))
    return ["st", d.pick([None, "Other", "Config", "Opt"]) if names else "Other", [[n, random_node(d, depth - 1)] for n in names]]


def tweak(d, node):
    """A node that is close to the given one but often not valid in its place."""
    k = node[0]
    if k == "num" and d.chance(75):
        c = d.n(5)
        if c == 0:
            return ["num", node[1] + ".5"] if "." not in node[1] else ["num", node[1] + "5"]
        if c == 1:
            return ["str", node[1]]
        if c == 2:
            return ["list", [node]]
        if c == 3:
            return ["str", node[1] + d.pick(["x", ".5", " ", "e1", "_0", "@step"])]
        if c == 4:
            return ["num", str(d.n(10))]
        return ["num", num_text(d.real(False))]
    if k == "str" and d.chance(75):
        c = d.n(4)
        if c == 0:
            return ["str", node[1] + "x"]
        if c == 1:
            return ["list", [node]]
        if c == 2:
            return ["num", str(d.n(9))]
        if c == 3:
            return ["none"]
        return ["str", node[1].upper()]
    if k in ("list", "tup") and d.chance(85):
        c = d.n(4)
        items = list(node[1])
        if c == 0:
            return [k, items + [items[-1] if items else ["num", "1"]]]
        if c == 1 and len(items) > 1:
            return [k, items[:-1]]
        if c == 2 and items:
            return ["tup" if k == "list" else "list", items]
        if c == 3 and items:
            return items[0]
        return ["map", [[["num", str(i)], x] for i, x in enumerate(items)]]
    if k == "map" and d.chance(80):
        items = [list(e) for e in node[1]]
        c = d.n(3)
        if c == 0:
            return ["map", items + [[["str", "extra"], ["num", "1"]]]]
        if c == 1:
            return ["map", items + [[["num", "77"], ["num", "1"]]]]
        if c == 2 and items:
            return ["map", items[:-1]]
        return ["list", [e[1] for e in items]]
    if k == "st" and d.chance(90):
        items = [list(e) for e in node[2]]
        c = d.n(7)
        if c == 0 and items:
            i = d.n(len(items) - 1)
            items[i][0] = items[i][0] + d.pick(["_", "x", "s"])
        elif c == 1 and items:
            del items[d.n(len(items) - 1)]
        elif c == 2:
            items.append([d.pick(["extra", "unknown", "version", "lr2"]), random_node(d, 1)])
        elif c == 3:
            return ["none"]
        elif c == 4:
            return ["list", [node]]
        elif c == 5:
            return ["st", d.pick(["Other", "Opt", "Net", "Config", None]) if items else "Other", items]
        elif c == 6:
            return ["str", node[1] or "Config"]
        else:
            return ["tup", [e[1] for e in items] or [["num", "1"]]]
        return ["st", node[1] or "Config" if not items else node[1], items]
    return random_node(d)


def mutate(d, doc, n):
    doc = ["root", doc]
    for _ in range(n):
        pos = []
        positions(doc[1], pos, lambda new: doc.__setitem__(1, new))
        node, setter = pos[d.n(len(pos) - 1)]
        setter(tweak(d, node))
    return doc[1]


class C03(Check):
    id = "C03"
    rule = ("random universes; documents describing a value in random surface forms, two thirds with 1-3 mutations of random "
            "nodes; non-trivial: a mutated document that the reference loader rejects, or a conforming one with a conversion")
    quick = 300
    thorough = 6000

    def gen(self, d):
        g = TypeGen(d, depth=d.int(1, 3), defaults=30)
        u = g.universe()
        docs = []
        for _ in range(d.int(1, 5)):
            doc = Doc(u, d).root(g.root_value())
            import json

            doc = json.loads(json.dumps(doc))
            if d.chance(66):
                doc = mutate(d, doc, d.size(1, 3, 35))
            docs.append([doc, d.pick([None, 2, 4])])
        return {"u": u, "docs": docs}

    def corpus(self):
        """Values of every type of the catalogue, for a field of any other."""
        nodes = {}
        for t, js in CATALOGUE:
            for j in js:
                node = Doc(catalogue_classes([]), None).node(t, j)
                nodes[ron(node)] = node
        for t, _ in CATALOGUE:
            yield {"u": catalogue_classes([(0, t)]), "docs": [[["st", "Config", [["x0", n]]], None] for n in nodes.values()]}

    def run(self, case, ctx):
        b = Built(case["u"])
        ref = Ref(b)
        folder = ctx.dir()
        for i, (doc, indent) in enumerate(case["docs"]):
            text = ron(doc, indent)
            expected = ref.root(doc)
            ctx.label("outcome:" + expected[0])
            got = attempt(hyperstate.loads, b.root, text)
            judge(b, expected, got, "loading\n%s\n" % text)
            if got[0] == "ok":
                m = b.conforms_struct(b.u["root"], got[1])
                if m:
                    raise Violation("loading\n%s\ngave a value that does not conform: %s" % (text, m))
            path = os.path.join(folder, "f%d.ron" % i)
            with open(path, "w") as f:
                f.write(text)
            judge(b, expected, attempt(hyperstate.load, b.root, path), "loading the file\n%s\n" % text)
            if expected[0] == "bad":
                ctx.mark()
            elif expected[0] == "ok" and doc[0] != "st" or '"-' in text or ": (" in text:
                ctx.mark("surface form")


def drop_fields(d, node, pct):
    """Leaves out fields of structs at random depths."""
    for n, _ in [(node, None)] + positions(node):
        if n[0] == "st":
            n[2] = [e for e in n[2] if not d.chance(pct)]
            if not n[2] and n[1] is None:
                n[0], n[1] = "map", []
                del n[2:]


def mutables(v, out):
    import dataclasses

    if dataclasses.is_dataclass(v):
        out.append(v)
        for f in dataclasses.fields(v):
            mutables(getattr(v, f.name), out)
    elif isinstance(v, (list, tuple)):
        if isinstance(v, list):
            out.append(v)
        for x in v:
            mutables(x, out)
    elif isinstance(v, dict):
        out.append(v)
        for x in v.values():
            mutables(x, out)
    return out


def spoil(v):
    for x in mutables(v, []):
        if isinstance(x, list):
            x.append("spoiled")
        elif isinstance(x, dict):
            x["spoiled"] = 1
        else:
            for n in list(x.__dict__):
                x.__dict__[n] = "spoiled"


class C04(Check):
    id = "C04"
    rule = ("random universes with nested required and defaulted fields; documents with random fields left out at every depth; "
            "non-trivial: at least one field is left out")
    quick = 250
    thorough = 5000

    def gen(self, d):
        g = TypeGen(d, depth=d.int(1, 2), defaults=d.pick([55, 75, 90]), required_nested=60, nstructs=(1, 5))
        u = g.universe()
        docs = []
        for _ in range(d.int(1, 4)):
            doc = Doc(u, d, plain=d.chance(50)).root(g.root_value())
            import json

            doc = json.loads(json.dumps(doc))
            if doc[0] == "map":
                doc = ["st", None, [[a[1], x] for a, x in doc[1]]]
            drop_fields(d, doc, d.pick([20, 50, 80]))
            docs.append(doc)
        return {"u": u, "docs": docs, "none": d.chance(40)}

    def run(self, case, ctx):
        b = Built(case["u"])
        ref = Ref(b)
        path = os.path.join(ctx.dir(), "c.ron")
        todo = [("text", doc) for doc in case["docs"]]
        if case["none"]:
            todo.append(("nothing", ["st", None, []]))
        for how, doc in todo:
            text = ron(doc)
            expected = ref.root(doc)
            loaders = [lambda: hyperstate.loads(b.root, text)]
            if how == "nothing":
                loaders = [lambda: hyperstate.load(b.root, None), lambda: hyperstate.load(b.root, file=None, overrides=[])]
            else:
                with open(path, "w") as f:
                    f.write(text)
                loaders.append(lambda: hyperstate.load(b.root, path))
            ctx.label("outcome:" + expected[0], how)
            seen = []
            for load in loaders + loaders[:1]:
                got = attempt(load)
                judge(b, expected, got, "loading %s\n%s\n" % (how, text))
                if got[0] == "ok":
                    seen.append(got[1])
                else:
                    names = ref.missing(doc)
                    if names and not any(n in str(got[1]) for n in names):
                        raise Violation("loading\n%s\nlacks %r, but the error is: %s" % (text, names, got[1]))
            ids = {}
            for i, v in enumerate(seen):
                for m in mutables(v, []):
                    if ids.get(id(m), i) != i:
                        raise Violation("two loaded configs share %r\n%s" % (m, text))
                    ids[id(m)] = i
            if seen:
                spoil(seen[0])
                judge(b, expected, ("ok", seen[-1]), "after changing another loaded config\n%s\n" % text)
                judge(b, expected, attempt(loaders[0]), "loading after changing a loaded config\n%s\n" % text)
                for c in b.classes:
                    pass
            if any(f["n"] + ":" not in text for s in b.u["structs"].values() for f in s["fields"]):
                ctx.mark()


class C05(Check):
    id = "C05"
    rule = ("random universes and documents with unknown fields inserted in random structs at any depth; non-trivial: an unknown "
            "field sits below the top level")
    quick = 200
    thorough = 4000

    def gen(self, d):
        g = TypeGen(d, depth=d.int(1, 3), defaults=40, nstructs=(1, 4))
        u = g.universe()
        import json

        docs = []
        for _ in range(d.int(1, 3)):
            doc = json.loads(json.dumps(Doc(u, d, plain=d.chance(50)).root(g.root_value())))
            if doc[0] == "map":
                doc = ["st", None, [[a[1], x] for a, x in doc[1]]]
            how = d.weighted([(60, "extra"), (20, "missing"), (20, "mutated")])
            if how == "missing":
                drop_fields(d, doc, 25)
            elif how == "mutated":
                doc = mutate(d, doc, 1)
            extended = json.loads(json.dumps(doc))
            self.extend(d, u, ["st", u["root"]], extended, g, d.pick([25, 50, 80]), 0)
            docs.append([doc, extended])
        return {"u": u, "docs": docs, "sm": d.chance(30)}

    def extend(self, d, u, t, node, g, pct, depth):
        k = kind(t)
        n = node[0]
        if k == "opt" and n != "none":
            self.extend(d, u, t[1], node, g, pct, depth)
        elif k == "list" and n == "list":
            for x in node[1]:
                self.extend(d, u, t[1], x, g, pct, depth + 1)
        elif k == "tup" and n == "tup":
            for x, y in zip(t[1:], node[1]):
                self.extend(d, u, x, y, g, pct, depth + 1)
        elif k == "dict" and n == "map":
            for _, y in node[1]:
                self.extend(d, u, t[2], y, g, pct, depth + 1)
        elif k in ("st", "un"):
            name = t[1] if k == "st" else node[1] if n == "st" and node[1] in t[1:] else None
            if name is None or n not in ("st", "map"):
                return
            fields = {f["n"]: f for f in u["structs"][name]["fields"]}
            items = node[2] if n == "st" else node[1]
            for a, x in items:
                a = a if n == "st" else a[1]
                if a in fields:
                    self.extend(d, u, fields[a]["t"], x, g, pct, depth + 1)
            present = {a if n == "st" else a[1] for a, _ in items}
            while d.chance(pct):
                a = d.pick(["extra", "legacy", "version_", "old_lr", "zzz", "Config", "self", "cls", "value2", "xx", "f", "clz"])
                if fields and d.chance(30):
                    # similar to a field
                    a = d.pick(sorted(fields))
                    a = d.pick([a.upper(), a.capitalize(), a + "_", "x" + a, a[:-1] or "y", a + a, a.replace("_", "")])
                if a in fields or a in present:
                    break
                present.add(a)
                x = random_node(d)
                items.insert(d.n(len(items)), [a, x] if n == "st" else [["str", a], x])

    def run(self, case, ctx):
        b = Built(case["u"])
        strict, loose = Ref(b), Ref(b, ignore_extra=True)
        folder = ctx.dir()
        for i, (doc, extended) in enumerate(case["docs"]):
            t1, t2 = ron(doc), ron(extended)
            e2 = loose.root(extended)
            ctx.label("outcome:" + e2[0])
            got = attempt(hyperstate.loads, b.root, t2, ignore_extra_fields=True)
            judge(b, e2, got, "loading with ignore_extra_fields\n%s\n" % t2)
            if t1 != t2:
                ctx.label("extended")
                if e2[0] == "ok":
                    plain = attempt(hyperstate.loads, b.root, t1)
                    if plain[0] == "ok":
                        expect_same(plain[1], got[1], "with and without the unknown fields\n%s\n%s\n" % (t1, t2))
                judge(b, strict.root(extended), attempt(hyperstate.loads, b.root, t2), "loading without ignore_extra_fields\n%s\n" % t2)
                for a, x in extended[2] if extended[0] == "st" else []:
                    if x not in [y for _, y in doc[2]] and a in [n for n, _ in doc[2]]:
                        ctx.mark("nested")
            if case["sm"]:
                path = os.path.join(folder, "c%d.ron" % i)
                with open(path, "w") as f:
                    f.write(t2)
                ck = os.path.join(folder, "ck%d" % i)
                os.mkdir(ck)
                for n in ("config.ron", "state.ron"):
                    with open(os.path.join(ck, n), "w") as f:
                        f.write(t2)
                for init in (path, ck):
                    for ignore in (True, False):
                        sm = hyperstate.StateManager(b.root, b.root, lambda c, x: None, init_path=init, ignore_extra_fields=ignore)
                        want = e2 if ignore else strict.root(extended)
                        what = "StateManager(ignore_extra_fields=%s) on\n%s\n" % (ignore, t2)
                        judge(b, want, attempt(lambda: sm.config), what)
                        if init == ck and want[0] != "any":
                            judge(b, want, attempt(lambda: sm.state), "state of " + what)


# ------------------------------------------------------------------ overrides


def paths_of(u, name=None, prefix=()):
    """All overridable (path, type, through) of a config class."""
    out = []
    for f in u["structs"][name or u["root"]]["fields"]:
        p = prefix + (f["n"],)
        out.append((p, f["t"]))
        t = f["t"]
        while kind(t) == "opt":
            t = t[1]
        if kind(t) == "st":
            out.extend(paths_of(u, t[1], p))
    return out


TRUE = ["True", "true", "1", "t", "T"]
FALSE = ["False", "false", "0", "f", "F"]
WORD = re.compile(r"[a-zA-Z_][a-zA-Z_0-9]*\Z")


def words(d, t, node):
    """Bare identifiers for strings, where an override may use them."""
    k = kind(t)
    if k == "opt" and node[0] != "none":
        return words(d, t[1], node)
    if k in ("str", "lit") and node[0] == "str" and WORD.match(node[1]) and node[1] not in ("None", "true", "false", "Some") and not node[1].startswith("_") and d.chance(60):
        import keyword

        return node if keyword.iskeyword(node[1]) else ["word", node[1]]
    if k == "list" and node[0] == "list":
        return ["list", [words(d, t[1], x) for x in node[1]]]
    return node


def override_text(d, t, j, u, doc=Doc):
    """(text after the equals sign, AST node it stands for)."""
    if t == "str":
        return j, ["str", j]
    if t == "bool":
        return d.pick(TRUE if j else FALSE), ["bool", j]
    node = (Doc(u, d, plain=d.chance(40)) if doc is Doc else doc(u, None)).node(t, j)
    return ron(words(d, t, node), d.pick([None, None, 2])), node


def set_path(u, doc, path, node):
    """The document with the field at `path` set; absent and None structs are created."""
    name = u["root"]
    cur = doc
    for i, seg in enumerate(path):
        items = cur[2] if cur[0] == "st" else cur[1]
        key = seg if cur[0] == "st" else ["str", seg]
        entry = next((e for e in items if e[0] == key), None)
        if i == len(path) - 1:
            if entry:
                entry[1] = node
            else:
                items.append([key, node])
            return
        if entry is None:
            entry = [key, ["st", None, []]]
            items.append(entry)
        elif entry[1][0] == "none":
            entry[1] = ["st", None, []]
        cur = entry[1]


def apply_overrides(u, doc, overrides):
    import json

    doc = json.loads(json.dumps(doc))
    for path, _, node in overrides:
        set_path(u, doc, path, json.loads(json.dumps(node)))
    return doc


class C06(Check):
    id = "C06"
    rule = ("random universes, base documents with fields left out (or no document) and 1-5 overrides of nested paths; non-trivial: "
            "an override below the top level, or several of the same path, or a value with '=' or quotes")
    quick = 300
    thorough = 5000

    def gen(self, d):
        import json

        g = TypeGen(d, depth=d.int(0, 2), defaults=d.pick([40, 70, 90]), nstructs=(1, 4), required_nested=50)
        u = g.universe()
        paths = paths_of(u)
        if not paths:
            raise Skip()
        base = None
        if d.chance(75):
            base = json.loads(json.dumps(Doc(u, d, plain=d.chance(50)).root(g.root_value())))
            if base[0] == "map":
                base = ["st", None, [[a[1], x] for a, x in base[1]]]
            if d.chance(60):
                drop_fields(d, base, d.pick([20, 50]))
        ovs = []
        for _ in range(d.size(1, d.pick([5, 5, 5, 14]), 85)):
            if ovs and d.chance(20):
                path = ovs[d.n(len(ovs) - 1)][0]
                t = dict(paths)[tuple(path)]
            else:
                path, t = d.pick(paths)
            text, node = override_text(d, t, g.value(t), u)
            ovs.append([list(path), text, node])
        return {"u": u, "base": base, "overrides": ovs, "how": d.pick(["loads", "file", "sm"])}

    def corpus(self):
        for i, (t, js) in enumerate(CATALOGUE):
            u = catalogue_classes([(0, t)])
            for k, j in enumerate(js):
                text, node = override_text(Draw(random.Random(i)), t, j, u)
                yield {"u": u, "base": None, "overrides": [[["x0"], text, node]], "how": ["loads", "file", "sm"][(i + k) % 3]}

    def run(self, case, ctx):
        b = Built(case["u"])
        ref = Ref(b)
        base, ovs = case["base"], case["overrides"]
        edited = apply_overrides(case["u"], base or ["st", None, []], ovs)
        expected = ref.root(edited)
        texts = ["%s=%s" % (".".join(p), s) for p, s, _ in ovs]
        kept = list(texts)
        text = ron(base) if base else None
        how = case["how"]
        if how == "sm":
            path = None
            if text is not None:
                path = os.path.join(ctx.dir(), "c.ron")
                with open(path, "w") as f:
                    f.write(text)
            sm = hyperstate.StateManager(b.root, b.root, lambda c, x: None, init_path=path, overrides=texts)
            got = attempt(lambda: sm.config)
        elif base is None:
            got = attempt(hyperstate.load, b.root, None, overrides=texts)
        elif how == "loads":
            got = attempt(hyperstate.loads, b.root, text, overrides=texts)
        else:
            path = os.path.join(ctx.dir(), "c.ron")
            with open(path, "w") as f:
                f.write(text)
            got = attempt(hyperstate.load, b.root, path, texts)
        ctx.label("outcome:" + expected[0], "base" if base else "no base", how)
        what = "overrides %r on\n%s\n" % (texts, text)
        judge(b, expected, got, what)
        if texts != kept:
            raise Violation("%s: the list of overrides was changed" % what)
        if expected[0] == "ok":
            plain = attempt(hyperstate.loads, b.root, ron(edited))
            if plain[0] == "ok":
                expect_same(plain[1], got[1], "%s against the edited document\n%s\n" % (what, ron(edited)))
            if any(len(p) > 1 for p, _, _ in ovs):
                ctx.mark("nested path")
            if len({tuple(p) for p, _, _ in ovs}) < len(ovs):
                ctx.mark("repeated path")
            if any("=" in s or "'" in s or '"' in s for _, s, _ in ovs):
                ctx.mark("special characters")


class C07(Check):
    id = "C07"
    rule = ("random universes and override lists of valid overrides with unknown names, missing equals signs, non-words for bools "
            "and ill-typed values mixed in; non-trivial: at least one bad override together with a valid one, or two unknown names")
    quick = 300
    thorough = 5000

    def gen(self, d):
        g = TypeGen(d, depth=d.int(0, 2), defaults=d.pick([80, 100]), nstructs=(1, 4), required_nested=50)
        u = g.universe()
        paths = paths_of(u)
        if not paths:
            raise Skip()
        known = {p for p, _ in paths}
        base = Doc(u, None).root(g.root_value())
        out = []
        for _ in range(d.size(1, 5, 75)):
            path, t = d.pick(paths)
            kind_ = d.weighted([(4, "valid"), (6, "unknown"), (1, "malformed"), (2, "badbool"), (3, "illtyped")])
            if kind_ == "valid":
                text, node = override_text(d, t, g.value(t), u)
                out.append(["valid", ".".join(path) + "=" + text, list(path), node])
            elif kind_ == "unknown":
                c = d.n(7)
                p = list(path)
                if c == 0:
                    p[-1] += d.pick(["x", "_", "2", " "])
                elif c == 1:
                    p = p + [d.pick(["x", "lr", "value"])]
                elif c == 2:
                    p = p[1:] or ["nope"]
                elif c == 3:
                    p[0] = d.pick(["nope", "Config", ""])
                elif c == 4:
                    p[-1] = p[-1].swapcase()
                elif c == 5:
                    p = p + [""]
                elif c == 6:
                    p = p[:-1] + [" " + p[-1]]
                else:
                    p = ["unknown", "path"]
                if tuple(p) in known:
                    continue
                # the last segment must not be reachable by a shorter route
                out.append(["unknown", ".".join(p) + "=" + d.pick(["1", "true", "abc", ""]), p, None])
            elif kind_ == "malformed":
                out.append(["malformed", d.pick([".".join(path), "", path[0] + ":1", path[0] + " 1"]), [], None])
            elif kind_ == "badbool":
                bools = [p for p, t in paths if t == "bool"]
                if bools:
                    p = d.pick(bools)
                    out.append(["bad", ".".join(p) + "=" + d.pick(["yes", "no", "TRUE", "2", "", "tru", "on", "None", " true", "1.0", "-1", "y"]), list(p), None])
            else:
                node = tweak(d, Doc(u, None).node(t, g.value(t)))
                if t in ("str", "bool"):
                    continue
                if "word" in str(node):
                    continue
                out.append(["typed", ".".join(path) + "=" + ron(node), list(path), node])
        if not out:
            raise Skip()
        return {"u": u, "base": base, "overrides": out, "how": d.pick(["loads", "none", "sm"])}

    def run(self, case, ctx):
        b = Built(case["u"])
        ref = Ref(b)
        ovs = case["overrides"]
        texts = [o[1] for o in ovs]
        how = case["how"]
        base = case["base"]
        if how == "none":
            base = ["st", None, []]
            got = attempt(hyperstate.load, b.root, None, texts)
        elif how == "loads":
            got = attempt(hyperstate.loads, b.root, ron(base), texts)
        else:
            path = os.path.join(ctx.dir(), "c.ron")
            with open(path, "w") as f:
                f.write(ron(base))
            sm = hyperstate.StateManager(b.root, b.root, lambda c, x: None, init_path=path, overrides=texts)
            got = attempt(lambda: sm.config)
        what = "overrides %r on\n%s\n" % (texts, ron(base))
        unknown = [".".join(o[2]) for o in ovs if o[0] == "unknown"]
        bads = [o for o in ovs if o[0] in ("malformed", "bad")]
        if bads or unknown:
            if got[0] == "ok":
                raise Violation("%s: accepted as %r" % (what, got[1]))
            ctx.label("rejected")
            if len(ovs) > 1:
                ctx.mark("mixed")
        if unknown and not bads and not any(o[0] == "typed" for o in ovs):
            e = got[1]
            ctx.label("unknown:%d" % min(len(unknown), 3))
            for n in unknown:
                if n not in str(e):
                    raise Violation("%s: the error does not name %r: %s: %s" % (what, n, type(e).__name__, e))
            errs = getattr(e, "not_found_errors", None)
            reported = [x.fpath for x in errs] if errs is not None else [e.fpath] if hasattr(e, "fpath") else None
            if reported is None:
                raise Violation("%s: unknown fields %r raised %r" % (what, unknown, e))
            if sorted(reported) != sorted(unknown):
                raise Violation("%s: reported %r instead of %r" % (what, reported, unknown))
        if not unknown and not bads:
            # The last one to touch a part of the config decides about it; leave clashes to C06
            roots = [tuple(o[2]) for o in ovs]
            ref = Ref(b, override=True)
            clash = any(i != j and a == c[: len(a)] for i, a in enumerate(roots) for j, c in enumerate(roots))
            if not clash:
                edited = apply_overrides(case["u"], base, [(o[2], None, o[3]) for o in ovs])
                expected = ref.root(edited)
                if expected[0] == "bad" and got[0] == "ok":
                    raise Violation("%s: accepted as %r, although %s" % (what, got[1], expected[1]))
                if expected[0] == "ok":
                    judge(b, expected, got, what)
                if expected[0] == "bad" and any(o[0] == "typed" for o in ovs):
                    ctx.mark("ill-typed value")


def plain(v):
    """A config as plain data (for classes that are not versioned)."""
    import dataclasses
    import enum

    if dataclasses.is_dataclass(v):
        out = {}
        if hasattr(type(v), "version"):
            out["version"] = type(v).version()
        for f in dataclasses.fields(v):
            out[f.name] = plain(getattr(v, f.name))
        return out
    if isinstance(v, enum.Enum):
        return v.value
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(plain(x) for x in v)
    return v


def versioned_ns(version, rules=None):
    from hyperstate import Versioned

    ns = {"version": classmethod(lambda cls: version)}
    if rules is not None:
        ns["upgrade_rules"] = classmethod(lambda cls: rules)
    return ns, (Versioned,)


class C30(Check):
    id = "C30"
    rule = ("random configs, a third with versioned classes and a third with overrides and scheduled fields; non-trivial: nested "
            "dataclasses, enums or containers in the config")
    quick = 200
    thorough = 4000

    def gen(self, d):
        import json

        g = TypeGen(d, depth=d.int(1, 3), defaults=40, nstructs=(1, 4))
        u = g.universe()
        versions = {n: d.n(5) for n in u["structs"] if d.chance(30)}
        j = g.root_value()
        ovs = []
        if d.chance(40):
            paths = paths_of(u)
            for _ in range(d.size(1, 3)):
                path, t = d.pick(paths)
                text, node = override_text(d, t, g.value(t), u)
                ovs.append([list(path), text, node])
        sched = [f["n"] for f in u["structs"]["Config"]["fields"] if f["t"] in ("int", "float") and d.chance(35)]
        edits = []
        if d.chance(50):
            opts = [(path, t) for path, t in paths_of(u) if path[0] not in sched]
            for _ in range(d.int(1, 3)) if opts else []:
                path, t = d.pick(opts)
                edits.append([list(path), t, g.value(t)])
        return {"u": u, "value": j, "versions": versions, "overrides": ovs, "sched": sched, "edits": edits, "early": d.chance(30)}

    def edit(self, b, cfg, edits):
        for path, t, j in edits:
            at = cfg
            for n in path[:-1]:
                at = getattr(at, n, None)
            if at is not None:
                setattr(at, path[-1], b.value(t, j))

    def run(self, case, ctx):
        u = case["u"]
        b = Built(u, {n: versioned_ns(v) for n, v in case["versions"].items()})
        cfg = b.root_value(case["value"])
        path = os.path.join(ctx.dir(), "c.ron")
        text = hyperstate.dumps(cfg)
        for n in case["sched"]:
            text = re.sub(r"(?m)^(    %s: ).*,$" % n, r'\1"step: 10@0 lin 20@10",', text)
        with open(path, "w") as f:
            f.write(text)
        import dataclasses

        State = dataclasses.make_dataclass("State", [("step", int)])
        ovs = ["%s=%s" % (".".join(p), s) for p, s, _ in case["overrides"]]
        sm = hyperstate.StateManager(b.root, State, lambda c, x: State(0), init_path=path, overrides=ovs)
        r = attempt(lambda: sm.config)
        if r[0] == "error":
            if ovs or case["versions"]:
                ctx.label("overrides rejected")
                return
            raise r[1]
        if case["early"]:
            expect_same(plain(sm.config), sm.config_dict(), "config_dict before there is a state")
        sm.state
        for step in (0, 5):
            sm.state.step = step
            sm.step()
            want = plain(sm.config)
            got = sm.config_dict()
            expect_same(want, got, "config_dict of %r" % (sm.config,))
            self.order(sm.config, got, "config_dict")
            for n in case["sched"]:
                if not any(o[0] == [n] for o in case["overrides"]) and got[n] != 10 + step:
                    raise Violation("scheduled field %s is %r in config_dict at step %d" % (n, got[n], step))
            before = plain(sm.config)
            spoil(got)
            expect_same(before, plain(sm.config), "config after changing the dictionary")
            expect_same(before, sm.config_dict(), "config_dict after changing an earlier one")
            if case["edits"]:
                self.edit(b, sm.config, case["edits"][: 1 + step])
                expect_same(plain(sm.config), sm.config_dict(), "config_dict after changing the config")
        if kinds_of(u) - set(SCALARS):
            ctx.mark("structured")
        if case["versions"]:
            ctx.label("versioned")
        if case["sched"]:
            ctx.label("scheduled")

    def order(self, v, d, path):
        import dataclasses

        if dataclasses.is_dataclass(v):
            if hasattr(type(v), "version") and list(d)[:1] != ["version"]:
                raise Violation("%s: version is not first: %r" % (path, d))
            for f in dataclasses.fields(v):
                self.order(getattr(v, f.name), d[f.name], "%s.%s" % (path, f.name))
        elif isinstance(v, dict):
            for k in v:
                self.order(v[k], d[k], "%s.%s" % (path, k))
        elif isinstance(v, (list, tuple)):
            for x, y in zip(v, d):
                self.order(x, y, path)
