"""Schema dumps, the schema checker and its proposed rules (C14-C18)."""
import copy
import dataclasses
import enum
import json
import os

import hyperstate
from c_rules import build, cli, text_of
from c_serde import attempt, expect_same, versioned_ns
from core import Check, Skip, Violation
from history import Missing, complete, refs, spec, thin, toposort, unopt, unshare
from universe import CATALOGUE, SCALARS, Built, Doc, TypeGen, catalogue_classes, hashable, kind, ron


def dump_schema(cls, path):
    status, out = cli(cls, ["dump-schema", path])
    if status != 0:
        raise Violation("dump-schema: status %r\n%s" % (status, out))


def checker(cls, path):
    from hyperstate.schema.schema_checker import SchemaChecker
    from hyperstate.schema.types import load_schema

    return SchemaChecker(load_schema(path), cls)


def describe(u):
    out = []
    for name, st in u["structs"].items():
        out.append("%s(%s)" % (name, ", ".join(
            "%s: %s%s" % (f["n"], show(f["t"], u), " = %s" % json.dumps(f["d"][1]) if "d" in f else "") for f in st["fields"])))
    return "; ".join(out)


def show(t, u):
    if isinstance(t, str):
        return t
    if t[0] == "enum":
        return "%s%r" % (t[1], u["enums"][t[1]])
    if t[0] == "st":
        return t[1]
    return "%s[%s]" % (t[0], ", ".join(show(x, u) if t[0] not in ("lit", "un") else repr(x) for x in t[1:]))


class C14(Check):
    id = "C14"
    rule = ("random versioned classes over all types and defaults (nested, containers, unions, inheritance, docstrings), dumped by the command; "
            "non-trivial: the class has a container, enum, literal, union or nested class")
    quick = 170
    thorough = 4000

    def gen(self, d):
        g = TypeGen(d, depth=d.int(1, 3), nstructs=(1, 4))
        u = g.universe()
        vers = {n: d.n(5) for n in u["structs"] if n == u["root"] or d.chance(20)}
        if d.chance(30):
            for st in u["structs"].values():
                st["doc"] = d.pick(["A config.", "Text\n\n:param x: the 'x'\n:param lr: rate = 0.1\n"])
        return {"u": u, "versions": vers, "rules": d.chance(30), "cwd": d.chance(20)}

    def run(self, case, ctx):
        from hyperstate.schema.rewrite_rule import DeleteField

        u = case["u"]
        extra = {}
        for n, v in case["versions"].items():
            rules = {i: [DeleteField(("zzz",))] for i in range(v)} if case["rules"] else None
            extra[n] = versioned_ns(v, rules)
        b = Built(u, extra=extra)
        folder = ctx.dir()
        p1, p2 = os.path.join(folder, "a.ron"), os.path.join(folder, "b.ron")
        what = "class %s\n" % describe(u)
        if case["cwd"]:
            old = os.getcwd()
            os.chdir(folder)
            try:
                status, out = cli(b.root, ["dump-schema"])
                if status != 0:
                    raise Violation("%sdump-schema: %r %s" % (what, status, out))
            finally:
                os.chdir(old)
            if os.listdir(folder) != ["config-schema.ron"]:
                raise Violation("dump-schema without a name wrote %r" % os.listdir(folder))
            os.rename(os.path.join(folder, "config-schema.ron"), p1)
        else:
            dump_schema(b.root, p1)
        again = Built(u, extra=extra)
        dump_schema(again.root, p2)
        text = open(p1).read()
        if text != open(p2).read():
            raise Violation("%sdumped twice:\n%s\n%s" % (what, text, open(p2).read()))
        from hyperstate.schema.schema_change import Severity

        for cls in (b.root, again.root):
            c = attempt(checker, cls, p1)
            if c[0] == "error":
                raise Violation("%schecking against its own schema: %r\n%s" % (what, c[1], text))
            if c[1].changes or c[1].proposed_fixes or c[1].severity() != Severity.INFO:
                raise Violation("%schanges against its own schema: %r %r\n%s" % (what, c[1].changes, c[1].severity(), text))
        status, out = cli(b.root, ["check-schema", p1])
        if status != 0 or out.strip() != "Schema compatible":
            raise Violation("%scheck-schema: status %r, output\n%s" % (what, status, out))
        status, out = cli(b.root, ["upgrade-schema", p2])
        if status != 0 or open(p2).read() != text:
            raise Violation("%supgrade-schema of an unchanged class: status %r\n%s\nfrom\n%s\nto\n%s" % (
                what, status, out, text, open(p2).read()))
        for st in u["structs"].values():
            for f in st["fields"]:
                if f["t"] not in SCALARS:
                    ctx.mark()
                ctx.label("type:" + kind(f["t"]))
                if "d" in f:
                    ctx.label("default:" + kind(f["t"]))


# ------------------------------------------------------------------ changes of classes


def report_paths(u, target, name=None, prefix=()):
    """Paths at which the checker reports about struct `target` (containers do not show in paths)."""
    name = name or u["root"]
    out = [prefix] if name == target else []
    for f in spec(u, name):
        def walk(t):
            k = kind(t)
            if k == "st":
                out.extend(report_paths(u, target, t[1], prefix + (f["n"],)))
            elif k == "un":
                for x in t[1:]:
                    out.extend(report_paths(u, target, x, prefix + (f["n"],)))
            elif k in ("opt", "list", "tup"):
                for x in t[1:]:
                    walk(x)
            elif k == "dict":
                walk(t[2])

        walk(f["t"])
    return list(dict.fromkeys(out))


def direct_structs(u, name=None):
    """Structs that are reached by exactly one path, of plain and optional fields."""
    name = name or u["root"]
    out = [name]
    for f in spec(u, name):
        t = unopt(f["t"])
        if kind(t) == "st" and refs(u, t[1]) == 1:
            out.extend(direct_structs(u, t[1]))
    return out


def fits(u, t, j):
    """Whether the value j has type t."""
    k = kind(t)
    if k == "int":
        return isinstance(j, int) and not isinstance(j, bool)
    if k == "float":
        return isinstance(j, float) or (isinstance(j, int) and not isinstance(j, bool) and abs(j) <= 2**53)
    if k == "str":
        return isinstance(j, str)
    if k == "bool":
        return isinstance(j, bool)
    if k == "opt":
        return j is None or fits(u, t[1], j)
    if k == "list":
        return isinstance(j, list) and all(fits(u, t[1], x) for x in j)
    if k == "tup":
        return isinstance(j, list) and len(j) == len(t) - 1 and all(fits(u, x, y) for x, y in zip(t[1:], j))
    if k == "dict":
        return isinstance(j, list) and all(isinstance(p, list) and len(p) == 2 and fits(u, t[1], p[0]) and fits(u, t[2], p[1]) for p in j)
    if k == "lit":
        return any(x == j and type(x) is type(j) for x in t[1:])
    if k == "enum":
        return isinstance(j, str) and j in [v for v, _ in u["enums"][t[1]]]
    if k == "st":
        return isinstance(j, dict) and set(j) == {f["n"] for f in spec(u, t[1])} and all(fits(u, f["t"], j[f["n"]]) for f in spec(u, t[1]))
    if k == "un":
        return isinstance(j, list) and len(j) == 2 and j[0] in t[1:] and fits(u, ["st", j[0]], j[1])
    raise AssertionError(t)


def mend(g, u, t, j):
    """A value of type t that keeps as much of j as fits."""
    k = kind(t)
    if k == "float" and isinstance(j, int) and fits(u, t, j):
        return float(j)
    if k == "opt" and j is not None:
        return mend(g, u, t[1], j)
    if k == "st" and isinstance(j, dict):
        out = {}
        for f in spec(u, t[1]):
            if f["n"] in j:
                out[f["n"]] = mend(g, u, f["t"], j[f["n"]])
            elif "d" in f:
                out[f["n"]] = f["d"][1]
            else:
                out[f["n"]] = g.value(f["t"])
        return out
    if k == "un" and isinstance(j, list) and len(j) == 2 and isinstance(j[1], dict) and j[0] in t[1:]:
        return [j[0], mend(g, u, ["st", j[0]], j[1])]
    if k == "list" and isinstance(j, list) and not (j and isinstance(j[0], list) and kind(t[1]) in SCALARS):
        return [mend(g, u, t[1], x) for x in j]
    if k == "tup" and isinstance(j, list) and len(j) == len(t) - 1:
        return [mend(g, u, x, y) for x, y in zip(t[1:], j)]
    if k == "dict" and isinstance(j, list) and all(isinstance(p, list) and len(p) == 2 and fits(u, t[1], p[0]) for p in j):
        return [[a, mend(g, u, t[2], x)] for a, x in j]
    return j if fits(u, t, j) else g.value(t)


def mend_defaults(g, u):
    toposort(u)
    for st in u["structs"].values():
        for f in st["fields"]:
            if "d" in f:
                old = f["d"][1]
                new = mend(g, u, f["t"], old)
                if new != old or not hashable(f["t"], new):
                    f["d"] = ["f" if not hashable(f["t"], new) else f["d"][0], new]
        st["fields"].sort(key=lambda x: "d" in x)


SIMILAR = {"lr": "lr_", "steps": "n_steps", "alpha": "alpha1", "beta_1": "beta1", "use_bias": "usebias", "hidden_dim": "hd",
           "warmup_steps": "ws", "lr_max": "lrmax", "seed": "seeds", "items": "item", "table": "tables", "kind": "kinds",
           "name": "names", "data": "datas", "value": "values", "count_": "count", "index_": "index"}
INFO, WARN, ERROR = 1, 2, 3


class Mutator:
    """One change of the classes. `expect` lists what the checker has to report: (kind, path, severity)."""

    OPS = [(3, "add"), (2, "require"), (3, "remove"), (3, "rename"), (4, "cdef"), (3, "ddef"), (2, "adddef"), (2, "widen"), (1, "optional"),
           (2, "litadd"), (2, "litremove"), (2, "littostr"), (2, "check"), (2, "enumadd"), (2, "enumremove"), (2, "enumvalue"), (2, "enumname"), (1, "enumboth"),
           (2, "retype"), (1, "wrap"), (1, "tuple"), (1, "dictkey"), (1, "unionadd"), (1, "unionremove"), (1, "classname"), (1, "group"),
           (1, "ungroup"), (1, "inner"), (1, "tostruct"), (1, "fromstruct"), (1, "outeropt"), (1, "unopt")]
    MORE = [(2, "renametype"), (2, "litmix")]

    def __init__(self, d, g, u, structs, ops=None, direct=False):
        self.d, self.g, self.u = d, g, u
        self.direct = direct  # not inside of containers
        self.structs = structs  # names of those that may change
        self.ops = ops

    def pick_field(self, test=lambda f: True):
        c = [(n, f) for n in self.structs if n in self.u["structs"] for f in spec(self.u, n) if test(f)]
        return self.d.pick(c) if c else (None, None)

    def fresh(self, n):
        return self.d.names(1, {f["n"] for f in spec(self.u, n)})[0]

    def paths(self, n, *tail):
        return [p + tail for p in self.report[n]]

    def mutate(self):
        d = self.d
        op = d.weighted([(w, o) for w, o in self.OPS + self.MORE if (o in self.ops if self.ops else (w, o) in self.OPS)])
        self.report = {n: report_paths(self.u, n) for n in self.u["structs"]}
        out = getattr(self, "op_" + op)()
        if out is None:
            return None
        if not toposort(self.u):
            return None
        mend_defaults(self.g, self.u)
        unshare(self.u)
        return {"op": op, "expect": [[k, list(p), s] for k, p, s in out]}

    def each(self, n, f, kindname, severity):
        return [(kindname, p, severity) for p in self.paths(n, f["n"])]

    # -- fields
    def leaves_default(self, name):
        """Whether all that the checker sees of the struct has a default of its own."""
        return all(self.leaves_default(f["t"][1]) if kind(f["t"]) == "st" else "d" in f for f in spec(self.u, name))

    def op_add(self):
        n = self.d.pick(self.structs)
        t = self.g.type(1)
        if kind(t) == "st" and not self.leaves_default(t[1]):
            return None  # known/struct_with_default_added.json
        f = {"n": self.fresh(n), "t": t, "d": ["v", self.g.value(t)]}
        if kind(t) == "st" and [n, f["n"]] in self.u.get("gone", []):
            return None  # known/struct_gains_default.json
        if kind(t) == "st" and self.direct:
            # the same, if the fields of another struct are taken to have moved into it
            f["d"] = ["f", complete(self.u, t, {})]
        spec(self.u, n).append(f)
        if kind(t) == "st":
            return []  # reported by its parts
        return self.each(n, f, "FieldAdded", INFO)

    def op_require(self):
        n = self.d.pick(self.structs)
        t = self.g.type(1)
        if kind(t) == "st":
            return None
        f = {"n": self.fresh(n), "t": t}
        spec(self.u, n).insert(0, f)
        return self.each(n, f, "FieldAdded", WARN if kind(t) in ("opt", "list") else ERROR)

    def leaves(self, t, p):
        """Paths of what is inside of a struct that is gone."""
        if kind(t) != "st":
            return [p]
        return [q for f in spec(self.u, t[1]) for q in self.leaves(f["t"], p + (f["n"],))]

    def op_remove(self):
        n, f = self.pick_field()
        if f is None:
            return None
        out = [("FieldRemoved", q, WARN) for p in self.paths(n, f["n"]) for q in self.leaves(f["t"], p)]
        spec(self.u, n).remove(f)
        self.u.setdefault("gone", []).append([n, f["n"]])
        return out

    def op_rename(self):
        n, f = self.pick_field(lambda f: f["n"] in SIMILAR)
        if f is None or SIMILAR[f["n"]] in [x["n"] for x in spec(self.u, n)]:
            return None
        if self.direct and self.own_default(f):
            return None
        out = []
        for p in self.paths(n, f["n"]):
            out += [("FieldRenamed", q, WARN) for q in self.leaves(f["t"], p)]
        self.u.setdefault("gone", []).append([n, f["n"]])
        f["n"] = SIMILAR[f["n"]]
        return out

    def op_renametype(self):
        """A rename together with a change of the type, which may not be possible for every value."""
        n, f = self.pick_field(lambda f: f["n"] in SIMILAR and kind(f["t"]) != "st")
        if f is None or SIMILAR[f["n"]] in [x["n"] for x in spec(self.u, n)]:
            return None
        t = f["t"]
        opts = [t[1] if kind(t) == "opt" and kind(t[1]) != "st" else ["opt", t] if kind(t) not in ("opt", "un") else None]
        for a, b in (("int", "float"), ("float", "int"), ("str", ["lit", "a", "abc", ""]), ("int", ["lit", 0, 1, 2]), ("bool", "int"), ("int", "str"), ("str", "bool")):
            opts += [b if t == a else [t[0], b] if t in (["opt", a], ["list", a]) else None]
        if kind(t) == "lit":
            opts += ["str" if isinstance(t[1], str) else "int", ["lit", t[1]]]
        opts = [x for x in opts if x is not None]
        if not opts:
            return None
        f["t"] = self.d.pick(opts)
        f["n"] = SIMILAR[f["n"]]
        if "d" in f and f["t"] != ["opt", t]:
            f["d"] = [f["d"][0], self.g.value(f["t"])]
        return []

    def own_default(self, f):
        """Structs with a default besides those of their fields: renames of all of their parts miss what is written as `()`."""
        return kind(f["t"]) == "st" and ("d" in f or "had" in f or any(self.own_default(x) for x in spec(self.u, f["t"][1])))

    def op_cdef(self):
        n, f = self.pick_field(lambda f: "d" in f)
        if f is None:
            return None
        new = self.g.value(f["t"])
        b = Built(self.u)
        same = b.value(f["t"], f["d"][1]) == b.value(f["t"], new)
        f["d"] = ["f", new]
        return self.each(n, f, "none", INFO) if same else self.each(n, f, "DefaultValueChanged", WARN)

    def op_ddef(self):
        n, f = self.pick_field(lambda f: "d" in f)
        if f is None:
            return None
        del f["d"]
        if kind(f["t"]) == "st":
            f["had"] = True
        return self.each(n, f, "DefaultValueRemoved", WARN)

    def op_adddef(self):
        n, f = self.pick_field(lambda f: "d" not in f)
        if f is None:
            return None
        if kind(f["t"]) == "st":
            return None
        f["d"] = ["f", self.g.value(f["t"])]
        return self.each(n, f, "none", INFO)

    # -- types
    def retype(self, n, f, t):
        f["t"] = t

    def op_widen(self):
        n, f = self.pick_field(lambda f: unopt(f["t"]) == "int" or f["t"] in (["list", "int"], ["dict", "str", "int"], ["tup", "int"]))
        if f is None:
            return None
        f["t"] = json.loads(json.dumps(f["t"]).replace('"int"', '"float"'))
        return self.each(n, f, "TypeChanged", INFO)

    def op_optional(self):
        n, f = self.pick_field(lambda f: kind(f["t"]) not in ("opt", "st", "un"))
        if f is None:
            return None
        f["t"] = ["opt", f["t"]]
        return self.each(n, f, "TypeChanged", INFO)

    def op_outeropt(self):
        n, f = self.pick_field(lambda f: kind(f["t"]) == "st")
        if f is None:
            return None
        f["t"] = ["opt", f["t"]]
        return [("?", p, WARN) for p in self.paths(n, f["n"])]

    def op_unopt(self):
        n, f = self.pick_field(lambda f: kind(f["t"]) == "opt")
        if f is None:
            return None
        out = [("?" if kind(f["t"][1]) == "st" else "TypeChanged", p, WARN if kind(f["t"][1]) in ("st", "lit") else ERROR) for p in self.paths(n, f["n"])]
        f["t"] = f["t"][1]
        return out

    def op_littostr(self):
        n, f = self.pick_field(lambda f: kind(unopt(f["t"])) == "lit")
        if f is None:
            return None
        if len({type(x) for x in unopt(f["t"])[1:]}) > 1 or isinstance(unopt(f["t"])[1], bool):
            return None
        new = "str" if isinstance(unopt(f["t"])[1], str) else "int"
        f["t"] = new if kind(f["t"]) != "opt" else ["opt", new]
        return self.each(n, f, "TypeChanged", INFO)

    def op_check(self):
        n, f = self.pick_field(lambda f: unopt(f["t"]) in ("str", "int"))
        if f is None:
            return None
        vals = self.d.sample(["a", "b", "c", "abc", "", "1"] if unopt(f["t"]) == "str" else [0, 1, 2, 3, -1, 10], self.d.int(1, 4))
        if "d" in f and f["d"][1] is not None and f["d"][1] not in vals:
            vals.append(f["d"][1])
        f["t"] = ["lit"] + vals if kind(f["t"]) != "opt" else ["opt", ["lit"] + vals]
        return self.each(n, f, "TypeChanged", WARN)

    def op_litadd(self):
        n, f = self.pick_field(lambda f: kind(unopt(f["t"])) == "lit")
        if f is None:
            return None
        l = unopt(f["t"])
        if "new value" in l or 55 in l:
            return None
        l.insert(self.d.int(1, len(l)), "new value" if isinstance(l[1], str) else 55)
        return self.each(n, f, "LiteralValuesAdded", INFO)

    def op_litremove(self):
        n, f = self.pick_field(lambda f: kind(unopt(f["t"])) == "lit" and len(unopt(f["t"])) > 2)
        if f is None:
            return None
        l = unopt(f["t"])
        keep = f["d"][1] if "d" in f else None
        i = self.d.int(1, len(l) - 1)
        if l[i] == keep:
            i = 1 if i > 1 else 2
        del l[i]
        return self.each(n, f, "LiteralValuesRemoved", WARN)

    def op_litmix(self):
        """Some values are gone, perhaps all of them, and others are new."""
        n, f = self.pick_field(lambda f: kind(unopt(f["t"])) == "lit")
        if f is None:
            return None
        l = unopt(f["t"])
        if len({type(x) for x in l[1:]}) > 1 or isinstance(l[1], bool):
            return None
        keep = [f["d"][1]] if "d" in f and f["d"][1] is not None else []
        new = self.d.sample(["new value", "newer", "N"] if isinstance(l[1], str) else [55, 56, -57], self.d.int(1, 3))
        stay = self.d.sample(l[1:], self.d.pick([0, 0, 0, 1, 2]))
        stay = [x for x in l[1:] if x in stay or x in keep]
        if len(stay) == len(l) - 1 or set(new) & set(l[1:]):
            return None
        l[1:] = new + stay if self.d.chance(50) else stay + new
        return self.each(n, f, "LiteralValuesAdded", INFO) + self.each(n, f, "LiteralValuesRemoved", WARN)

    def enum_fields(self, name):
        return [(n, f) for n in self.u["structs"] for f in spec(self.u, n) if json.dumps(["enum", name]) in json.dumps(f["t"])]

    def pick_enum(self, least=1):
        names = []
        for n in self.structs:
            for f in spec(self.u, n):
                t = unopt(f["t"])
                if kind(t) == "enum" and len(self.u["enums"][t[1]]) >= least and t[1] not in names:
                    if all(m in self.structs and (not self.direct or kind(unopt(x["t"])) == "enum") for m, x in self.enum_fields(t[1])):
                        names.append(t[1])
        return self.d.pick(names) if names else None

    def enum_report(self, name, kindname, sev):
        return [(kindname, p, sev) for n, f in self.enum_fields(name) for p in self.paths(n, f["n"])]

    def op_enumadd(self):
        e = self.pick_enum()
        if e is None or "NEW" in [v for v, _ in self.u["enums"][e]]:
            return None
        vs = self.u["enums"][e]
        vs.insert(self.d.n(len(vs)), ["NEW", "new value" if isinstance(vs[0][1], str) else 55])
        return self.enum_report(e, "EnumVariantAdded", INFO)

    def op_enumremove(self):
        e = self.pick_enum(2)
        if e is None:
            return None
        vs = self.u["enums"][e]
        gone = vs.pop(self.d.n(len(vs) - 1))[0]
        return self.enum_report(e, "EnumVariantRemoved", ERROR)

    def op_enumvalue(self):
        e = self.pick_enum()
        if e is None:
            return None
        v = self.d.pick(self.u["enums"][e])
        if any(x in ("other value", 77) or n[-1] == "_" for n, x in self.u["enums"][e]):
            return None
        v[1] = self.other_value(v[1], [x for _, x in self.u["enums"][e]])
        return self.enum_report(e, "EnumVariantValueChanged", WARN)

    def other_value(self, x, used):
        new = self.d.pick([None, None, x + " " if isinstance(x, str) else str(x)])
        if new is None or new in used:
            return "other value" if isinstance(x, str) else 77
        return new

    def op_enumname(self, both=False):
        e = self.pick_enum()
        if e is None:
            return None
        v = self.d.pick(self.u["enums"][e])
        if any(x in ("other value", 77) or n[-1] == "_" for n, x in self.u["enums"][e]):
            return None
        old = v[0]
        v[0] = old + "_"

        def walk(t, j):
            k = kind(t)
            if j is None:
                return j
            if k == "enum" and t[1] == e:
                return v[0] if j == old else j
            if k == "opt":
                return walk(t[1], j)
            if k == "list":
                return [walk(t[1], x) for x in j]
            if k == "tup":
                return [walk(x, y) for x, y in zip(t[1:], j)]
            if k == "dict":
                return [[a, walk(t[2], x)] for a, x in j]
            if k == "st":
                return {f["n"]: walk(f["t"], j[f["n"]]) for f in spec(self.u, t[1])}
            if k == "un":
                return [j[0], walk(["st", j[0]], j[1])]
            return j

        for n in self.u["structs"]:
            for f in spec(self.u, n):
                if "d" in f:
                    f["d"] = [f["d"][0], walk(f["t"], f["d"][1])]
        if both:
            v[1] = self.other_value(v[1], [x for _, x in self.u["enums"][e]])
            return self.enum_report(e, "EnumVariantValueChanged", WARN)
        return self.enum_report(e, "EnumVariantRenamed", INFO)

    def op_enumboth(self):
        return self.op_enumname(True)

    def op_retype(self):
        n, f = self.pick_field(lambda f: f["t"] in SCALARS)
        if f is None:
            return None
        t = self.d.pick({"int": ["str", "bool"], "float": ["int", "str", "bool"], "str": ["int", "float", "bool"], "bool": ["int", "float", "str"]}[f["t"]])
        f["t"] = t
        return self.each(n, f, "TypeChanged", ERROR)

    def op_wrap(self):
        n, f = self.pick_field(lambda f: f["t"] in SCALARS)
        if f is None:
            return None
        f["t"] = ["list", f["t"]]
        return self.each(n, f, "TypeChanged", WARN)

    def op_inner(self):
        """A change inside of a container."""
        n, f = self.pick_field(lambda f: kind(f["t"]) in ("list", "dict", "tup"))
        if f is None:
            return None
        i = 2 if f["t"][0] == "dict" else 1
        t = f["t"][i]
        new = {"int": "str", "str": "int", "float": "str", "bool": "str"}.get(kind(t))
        if new is None:
            return None
        f["t"] = f["t"][:i] + [new] + f["t"][i + 1:]
        return self.each(n, f, "TypeChanged", ERROR)

    def op_tuple(self):
        n, f = self.pick_field(lambda f: kind(f["t"]) == "tup")
        if f is None:
            return None
        if len(f["t"]) > 2 and self.d.chance(50):
            f["t"] = f["t"][:-1]
        else:
            f["t"] = f["t"] + [self.d.pick(SCALARS)]
        return self.each(n, f, "TypeChanged", ERROR)

    def op_dictkey(self):
        n, f = self.pick_field(lambda f: kind(f["t"]) == "dict")
        if f is None:
            return None
        f["t"] = ["dict", "int" if f["t"][1] == "str" else "str", f["t"][2]]
        return self.each(n, f, "TypeChanged", ERROR)

    def op_unionadd(self):
        n, f = self.pick_field(lambda f: kind(f["t"]) == "un")
        if f is None:
            return None
        more = [s for s in self.u["structs"] if s not in f["t"][1:] and s != self.u["root"]]
        if not more:
            return None
        f["t"] = f["t"] + [self.d.pick(more)]
        return [("none", p, INFO) for p in self.paths(n, f["n"])]

    def op_unionremove(self):
        n, f = self.pick_field(lambda f: kind(f["t"]) == "un" and len(f["t"]) > 3)
        if f is None:
            return None
        i = self.d.int(1, len(f["t"]) - 1)
        f["t"] = f["t"][:i] + f["t"][i + 1:]
        return self.each(n, f, "TypeChanged", ERROR)

    def op_classname(self):
        names = [n for n in self.structs if n != self.u["root"] and not any(
            n in x for st in self.u["structs"].values() for f in st["fields"] for x in [json.dumps(f["t"])] if '"un"' in x)]
        if not names:
            return None
        n = self.d.pick(names)
        self.u["structs"] = {("Renamed" if k == n else k): v for k, v in self.u["structs"].items()}
        for st in self.u["structs"].values():
            for f in st["fields"]:
                f["t"] = rename_struct(f["t"], n, "Renamed")
        self.structs = ["Renamed" if x == n else x for x in self.structs]
        return []

    def op_group(self):
        n = self.d.pick(self.structs)
        fields = [f for f in spec(self.u, n) if kind(f["t"]) != "st"]
        if not fields or "Group" in self.u["structs"]:
            return None
        moved = self.d.sample(fields, self.d.int(1, 2))
        if len(report_paths(self.u, n)) != 1:
            return None
        name = moved[0]["n"] if self.d.chance(25) else self.fresh(n)
        out = [("FieldRenamed", p, WARN) for f in moved for p in self.paths(n, f["n"])]
        for f in moved:
            spec(self.u, n).remove(f)
        moved.sort(key=lambda f: "d" in f)
        self.u["structs"]["Group"] = {"fields": moved}
        spec(self.u, n).append({"n": name, "t": ["st", "Group"]})
        return out

    def op_ungroup(self):
        n, f = self.pick_field(lambda f: kind(f["t"]) == "st" and "d" not in f and "had" not in f and refs(self.u, f["t"][1]) == 1)
        if f is None:
            return None
        inner = spec(self.u, f["t"][1])
        mine = spec(self.u, n)
        if any(x["n"] in [y["n"] for y in mine if y is not f] for x in inner) or any(kind(x["t"]) == "st" for x in inner) or not inner:
            return None
        out = [("FieldRenamed", p + (x["n"],), WARN) for x in inner for p in self.paths(n, f["n"])]
        mine.remove(f)
        mine.extend(inner)
        del self.u["structs"][f["t"][1]]
        self.structs = [s for s in self.structs if s != f["t"][1]]
        return out

    def op_tostruct(self):
        n, f = self.pick_field(lambda f: kind(f["t"]) != "st")
        others = [s for s in self.u["structs"] if s != self.u["root"] and s != n]
        if f is None or not others:
            return None
        f["t"] = ["st", self.d.pick(others)]
        f.pop("d", None)
        return [("?", p, WARN) for p in self.paths(n, f["n"])]

    def op_fromstruct(self):
        n, f = self.pick_field(lambda f: kind(f["t"]) == "st")
        if f is None:
            return None
        f["t"] = self.d.pick(SCALARS)
        f.pop("d", None)
        if self.d.chance(50):
            f["d"] = ["v", self.g.value(f["t"])]
        return [("?", p, WARN) for p in self.paths(n, f["n"])]


def rename_struct(t, a, b):
    if not isinstance(t, list):
        return t
    if t[0] in ("st", "un"):
        return [t[0]] + [b if x == a else x for x in t[1:]]
    if t[0] in ("opt", "list", "tup", "dict"):
        return [t[0]] + [rename_struct(x, a, b) for x in t[1:]]
    return t


def gen_classes(d, **kw):
    opts = dict(depth=d.int(1, 2), nstructs=(1, 4), inherit=False, bigint=False, nonfinite=d.chance(20), required_nested=d.pick([30, 70]),
                defaults=d.pick([40, 70]), nfields=(1, 5))
    opts.update(kw)
    g = TypeGen(d, **opts)
    u = g.universe()
    unshare(u)
    return u, g


def gen_docs(d, g, u, n):
    g.u = u
    out = []
    for _ in range(n):
        j = g.struct_value(u["root"], keep_default=25)
        out.append(thin(d, u, ["st", u["root"]], j, d.pick([0, 20, 60, 95])))
    return out


# ------------------------------------------------------------------ preserved values


class Preserved:
    """Compares a value of the old class with one of the new class."""

    def __init__(self, renames=(), gone=(), loose=()):
        self.renames = dict(renames)
        self.gone = set(gone)
        self.loose = loose

    def compare(self, a, b):
        self.root = b
        return self.struct(a, b, (), False)

    def struct(self, a, b, path, inside):
        for f in dataclasses.fields(a):
            p = path + (f.name,)
            if not inside and p in self.gone:
                continue
            x = getattr(a, f.name)
            if not inside and p in self.renames:
                y = self.root
                for seg in self.renames[p]:
                    if not hasattr(y, seg):
                        return "%s should be at %s" % (".".join(p), ".".join(self.renames[p]))
                    y = getattr(y, seg)
                m = self.value(x, y, p, inside)
                if m:
                    return m
                continue
            if dataclasses.is_dataclass(x) and not inside and not self.listed(b, f.name):
                # a struct that is gone: its parts have moved
                m = self.struct(x, None, p, inside)
            elif not self.listed(b, f.name):
                m = "%s is gone" % ".".join(p)
            else:
                m = self.value(x, getattr(b, f.name), p, inside)
            if m:
                return m
        return None

    def listed(self, b, name):
        return dataclasses.is_dataclass(b) and name in [f.name for f in dataclasses.fields(b)]

    def value(self, x, y, p, inside):
        name = ".".join(p)
        if dataclasses.is_dataclass(x):
            if not dataclasses.is_dataclass(y):
                # parts may have moved elsewhere
                if not inside and any(q[: len(p)] == p for q in list(self.renames) + list(self.gone)):
                    return self.struct(x, None, p, inside)
                return "%s: %r became %r" % (name, x, y)
            return self.struct(x, y, p, inside)
        if isinstance(x, enum.Enum):
            if isinstance(y, enum.Enum) and (x.value == y.value or x.name == y.name or x.name + "_" == y.name):
                return None
            return "%s: %r became %r" % (name, x, y)
        if isinstance(x, float) and x != x:
            return None if isinstance(y, float) and y != y else "%s: %r became %r" % (name, x, y)
        if isinstance(x, (list, tuple)) and type(x) is type(y) and len(x) == len(y):
            for u, v in zip(x, y):
                m = self.value(u, v, p, True)
                if m:
                    return m
            return None
        if isinstance(x, dict) and isinstance(y, dict) and list(x) == list(y):
            for k in x:
                m = self.value(x[k], y[k], p, True)
                if m:
                    return m
            return None
        if type(x) is type(y) and x == y:
            return None
        if type(x) is int and type(y) is float and x == y:
            return None
        return "%s: %r became %r" % (name, x, y)


def small_ints(j):
    """Integers that floats represent exactly."""
    if isinstance(j, bool) or j is None or isinstance(j, (str, float)):
        return j
    if isinstance(j, int):
        return j if abs(j) <= 2**53 else j % 1000
    if isinstance(j, list):
        return [small_ints(x) for x in j]
    return {k: small_ints(x) for k, x in j.items()}


def shrink_ints(u):
    for st in u["structs"].values():
        for f in st["fields"]:
            if "d" in f:
                f["d"] = [f["d"][0], small_ints(f["d"][1])]


def structs_in(t):
    if not isinstance(t, list) or t[0] in ("lit", "enum"):
        return []
    return t[1:] if t[0] in ("st", "un") else [n for x in t[1:] for n in structs_in(x)]


def enums_in(u, t, seen=()):
    if not isinstance(t, list) or t[0] == "lit":
        return []
    if t[0] == "enum":
        return [t[1]]
    if t[0] in ("st", "un"):
        return [e for n in t[1:] if n not in seen for f in spec(u, n) for e in enums_in(u, f["t"], seen + (n,))]
    return [e for x in t[1:] for e in enums_in(u, x, seen)]


class C15(Check):
    id = "C15"
    rule = ("random classes changed in 0-3 random ways (fields, defaults, types, enums, literals, nested classes, also inside containers) and "
            "documents of the old class with fields left out; non-trivial: the checker reports INFO for a class that did change")
    quick = 400
    thorough = 12000

    def gen(self, d):
        u, g = gen_classes(d, empty_structs=False)
        shrink_ints(u)
        old = copy.deepcopy(u)
        docs = [small_ints(x) for x in gen_docs(d, g, u, d.int(2, 5))]
        g.u = u
        ops = []
        for _ in range(d.int(1, 3)):
            before = copy.deepcopy(u)
            structs = list(u["structs"])
            mutator = Mutator(d, g, u, structs, [o for _, o in Mutator.OPS + Mutator.MORE])
            alone = False
            if not ops and d.chance(25):
                # a field becomes optional, and what is in it changes
                held = [(f, inner, enums) for n in structs for f in spec(u, n) for inner, enums in [(structs_in(f["t"]), enums_in(u, f["t"]))]
                        if (inner or enums) and kind(f["t"]) not in ("opt", "un", "st")]
                if held:
                    f, structs, enums = d.pick(held)
                    f["t"] = ["opt", f["t"]]
                    ops.append("optional")
                    alone = d.chance(80)
                    mutator = Mutator(d, g, u, structs or list(u["structs"]))
                    if enums and (not structs or d.chance(50)):
                        mutator.pick_enum = lambda least=1: d.pick([e for e in enums if len(u["enums"][e]) >= least] or [None])
                        mutator.ops = ["enumadd", "enumremove", "enumvalue", "enumname", "enumboth"]
                    elif d.chance(60):
                        mutator.ops = ["add", "require", "remove", "cdef", "ddef", "adddef", "widen", "optional", "unopt"]
            m = mutator.mutate()
            if m is None:
                u.clear()
                u.update(before)
                if structs != list(u["structs"]) and ops:
                    ops.pop()
            else:
                ops.append(m["op"])
                if alone:
                    break
        return {"old": old, "new": u, "docs": docs, "v": d.n(3), "bump": d.chance(30), "ops": ops, "elide": d.chance(50)}

    def corpus(self):
        """Every type of the catalogue that becomes any other: one class with a field for each of them."""
        for i in range(len(CATALOGUE)):
            yield {"from": i}

    def catalogue(self, case, ctx):
        from hyperstate.schema.schema_change import Severity

        a, js = CATALOGUE[case["from"]]
        path = os.path.join(ctx.dir(), "schema.ron")

        def build_both(fields):
            old, new = catalogue_classes([(i, a) for i in fields]), catalogue_classes([(i, CATALOGUE[i][0]) for i in fields])
            b = build(old, 1), build(new, 1)
            dump_schema(b[0].root, path)
            return old, new, b, checker(b[1].root, path)

        fields = [i for i in range(len(CATALOGUE)) if i != case["from"]]
        c = build_both(fields)[3]
        bad = {x.field[0] for x in c.changes if x.severity() != Severity.INFO}
        fields = [i for i in fields if "x%d" % i not in bad]
        for i in fields:
            old, new, b, c = build_both([i])
            if c.severity() != Severity.INFO:
                raise Violation("%s became %s: severity %s alone, INFO among others" % (describe(old), describe(new), c.severity().name))
            ctx.mark("catalogue")
            for j in js:
                text = text_of(old, {"x%d" % i: j}, 1)
                self.check({"ops": ["catalogue"], "old": old, "new": new}, b[0], b[1], text, c)

    def run(self, case, ctx):
        from hyperstate.schema.schema_change import Severity

        if "from" in case:
            return self.catalogue(case, ctx)
        v = case["v"]
        old = build(case["old"], v)
        new = build(case["new"], v + (1 if case["bump"] else 0))
        path = os.path.join(ctx.dir(), "schema.ron")
        dump_schema(old.root, path)
        c = checker(new.root, path)
        for op in case["ops"]:
            ctx.label("%s:%s" % (op, c.severity().name))
        if c.severity() != Severity.INFO:
            return
        if case["ops"]:
            ctx.mark()
        for j in case["docs"]:
            text = text_of(case["old"], j, v)
            self.check(case, old, new, text, c)
            b = hyperstate.loads(old.root, text)
            self.check(case, old, new, hyperstate.dumps(b, elide_defaults=case["elide"]), c)

    def check(self, case, old, new, text, c):
        a = hyperstate.loads(old.root, text)
        got = attempt(hyperstate.loads, new.root, text)
        what = "%r: %s\nbecame %s\nwhich is compatible (%r)\n%s\n" % (case["ops"], describe(case["old"]), describe(case["new"]), c.changes, text)
        if got[0] == "error":
            raise Violation("%s does not load any more: %r" % (what, got[1]))
        m = Preserved().compare(a, got[1])
        if m:
            raise Violation("%s %s" % (what, m))


class C16(Check):
    id = "C16"
    rule = ("random classes with 1-2 changes of known kind and place; non-trivial: a change has to be reported")
    quick = 250
    thorough = 12000

    def gen(self, d):
        u, g = gen_classes(d, empty_structs=False)
        shrink_ints(u)
        old = copy.deepcopy(u)
        ms = []
        for _ in range(d.pick([1, 1, 2])):
            before = copy.deepcopy(u)
            # the second one must not meet the first
            used = {tuple(e[1])[:1] for m in ms for e in m["expect"]}
            m = Mutator(d, g, u, list(u["structs"]), [o for _, o in Mutator.OPS] + ["litmix"]).mutate()
            clash = m is not None and ms and (
                {m["op"], ms[0]["op"]} & {"add", "require", "remove", "rename", "group", "ungroup", "tostruct", "fromstruct", "outeropt", "unopt", "unionadd", "unionremove", "classname"}
                or any(tuple(e[1])[:1] in used for e in m["expect"]))
            if m is None or clash:
                u.clear()
                u.update(before)
            else:
                ms.append(m)
        if not ms:
            raise Skip()
        return {"old": old, "new": u, "ms": ms, "v": d.n(3), "bump": d.chance(40)}

    def run(self, case, ctx):
        v = case["v"]
        old = build(case["old"], v)
        new = build(case["new"], v + (1 if case["bump"] else 0))
        path = os.path.join(ctx.dir(), "schema.ron")
        dump_schema(old.root, path)
        c = checker(new.root, path)
        ops = [m["op"] for m in case["ms"]]
        got = [(type(x).__name__, tuple(x.field), x.severity().value) for x in c.changes]
        what = "%r: %s\nbecame %s\nreported %r, severity %s\n" % (ops, describe(case["old"]), describe(case["new"]), got, c.severity().name)
        want = [(k, tuple(p), s) for m in case["ms"] for k, p, s in m["expect"]]
        least = 1
        for k, p, s in want:
            if k == "none":
                continue
            ctx.mark()
            ctx.label(k)
            if k == "?":
                if not any(q[: len(p)] == p and t >= s for _, q, t in got):
                    raise Violation("%s nothing about %s" % (what, ".".join(p)))
                least = max(least, s)
                continue
            hits = [x for x in got if x[0] == k and x[1] == p]
            if not hits:
                raise Violation("%s no %s at %s" % (what, k, ".".join(p)))
            if not any(x[2] == s for x in hits):
                raise Violation("%s %s at %s has severity %r instead of %d" % (what, k, ".".join(p), [x[2] for x in hits], s))
            least = max(least, s)
        if c.severity().value < least:
            raise Violation("%s severity at least %d" % (what, least))
        # nothing else
        exact = {(k, p) for k, p, _ in want}
        loose = {p for k, p, _ in want if k in ("?", "none")}
        additive = all(m["op"] in ("add", "adddef", "litadd", "enumadd", "enumname", "widen", "optional", "littostr", "unionadd", "classname") for m in case["ms"])
        if additive and c.severity().value != INFO:
            raise Violation("%s although the changes are additive" % what)
        for k, p, s in got:
            if (k, p) in exact or any(p[: len(q)] == q for q in loose):
                continue
            if k in ("DefaultValueChanged", "DefaultValueRemoved") and any(q[: len(p)] == p for _, q, _ in want) and not additive:
                continue  # the default of a struct that contains the change
            if k == "FieldAdded" and s == INFO and "add" in ops:
                continue
            if k == "FieldAdded" and s == INFO and ("rename" in ops or "group" in ops):
                continue
            if k == "DefaultValueChanged" and self.defaults_differ(case, p):
                continue
            raise Violation("%s %s at %s did not happen" % (what, k, ".".join(p)))
        status, out = cli(new.root, ["check-schema", path])
        if status != 0 or ("Schema compatible" in out) != (c.severity().value == INFO) or ("Schema incompatible" in out) == (c.severity().value == INFO):
            raise Violation("%s check-schema: status %r\n%s" % (what, status, out))

    def defaults_differ(self, case, p):
        """Whether the default of the field at the path was changed along the way."""
        def find(u):
            name = u["root"]
            f = None
            for seg in p:
                fs = [x for x in spec(u, name) if x["n"] == seg] if name else []
                if not fs:
                    return None
                f = fs[0]
                t = f["t"]
                while kind(t) in ("opt", "list", "tup", "dict"):
                    t = t[2] if kind(t) == "dict" else t[1]
                name = t[1] if kind(t) in ("st",) else None
            return f

        a, b = find(case["old"]), find(case["new"])
        return a is None or b is None or a.get("d", [0, 0])[1] != b.get("d", [0, 0])[1]


class C17(Check):
    id = "C17"
    rule = ("random classes changed in 1-3 ways of fields that are not in containers, the proposed rules added, and documents of the old class; "
            "non-trivial: rules were proposed and every incompatible change has one")
    quick = 130
    thorough = 9000
    OPS = ("add", "remove", "rename", "cdef", "ddef", "adddef", "widen", "optional", "litadd", "litremove", "littostr", "check", "enumadd",
           "enumvalue", "enumname", "enumboth", "require", "group", "ungroup", "classname", "renametype")

    def gen(self, d):
        u, g = gen_classes(d, empty_structs=False)
        shrink_ints(u)
        old = copy.deepcopy(u)
        docs = [small_ints(x) for x in gen_docs(d, g, u, d.int(2, 5))]
        g.u = u
        ops = []
        for _ in range(d.int(1, 3)):
            before = copy.deepcopy(u)
            m = Mutator(d, g, u, direct_structs(u), self.OPS, direct=True).mutate()
            if m is None:
                u.clear()
                u.update(before)
            else:
                ops.append(m["op"])
        if not ops:
            raise Skip()
        return {"old": old, "new": u, "docs": docs, "v": d.n(3), "ops": ops}

    def run(self, case, ctx):
        from hyperstate.schema import rewrite_rule as rr
        from hyperstate.schema.schema_change import Severity

        v = case["v"]
        old = build(case["old"], v)
        path = os.path.join(ctx.dir(), "schema.ron")
        dump_schema(old.root, path)
        bare = build(case["new"], v)
        c = checker(bare.root, path)
        if any(x.severity() != Severity.INFO and x.proposed_fix() is None for x in c.changes):
            ctx.label("no fix")
            return
        fixes = c.proposed_fixes
        if any(isinstance(f, rr.AddDefault) and len(x.field) > len(f.field) and tuple(x.field[: len(f.field)]) == tuple(f.field) and type(x).__name__ in ("FieldRemoved", "FieldRenamed")
               for f in fixes for x in c.changes):
            # known/struct_replaced_leaves_moved.json
            ctx.label("struct replaced by a field of its name")
            return
        for op in case["ops"]:
            ctx.label(op)
        new = build(case["new"], v + 1, {v: fixes})
        what = "%r: %s\nbecame %s\nchanges %r\nrules %r\n" % (case["ops"], describe(case["old"]), describe(case["new"]), c.changes, fixes)
        again = attempt(checker, new.root, path)
        if again[0] == "error":
            raise Violation("%s the checker fails: %r" % (what, again[1]))
        if again[1].severity() != Severity.INFO:
            raise Violation("%s still %r" % (what, again[1].changes))
        if fixes:
            ctx.mark()
        renames = {tuple(f.old_field): tuple(f.new_field) for f in fixes if isinstance(f, rr.RenameField)}
        gone = {tuple(f.field) for f in fixes if isinstance(f, rr.DeleteField)}
        for j in case["docs"]:
            text = text_of(case["old"], j, v)
            a = hyperstate.loads(old.root, text)
            got = attempt(hyperstate.loads, new.root, text)
            forbidden = self.forbidden(case["new"], a, renames, gone, ())
            if got[0] == "error":
                if not forbidden:
                    raise Violation("%s\n%s\ndoes not load any more: %r" % (what, text, got[1]))
                ctx.label("rejected")
                continue
            if forbidden:
                raise Violation("%s\n%s\nloads as %r, although %s" % (what, text, got[1], forbidden))
            m = new.conforms_struct(case["new"]["root"], got[1])
            if m:
                raise Violation("%s\n%s\n%s" % (what, text, m))
            m = Preserved(renames, gone).compare(a, got[1])
            if m:
                raise Violation("%s\n%s\nloads as %r: %s" % (what, text, got[1], m))
            # and as an upgraded file
            back = hyperstate.loads(bare_at(case["new"], v + 1).root, hyperstate.dumps(got[1]))
            expect_same(got[1], back, "dumped and loaded", exact_class=False)

    def forbidden(self, u, a, renames, gone, path):
        """A value that a literal type does not allow any more."""
        for f in dataclasses.fields(a):
            p = path + (f.name,)
            if p in gone:
                continue
            x = getattr(a, f.name)
            if dataclasses.is_dataclass(x) and p not in renames:
                m = self.forbidden(u, x, renames, gone, p)
                if m:
                    return m
                continue
            q = renames.get(p, p)
            t = type_at(u, q)
            if t is not None and kind(unopt(t)) == "lit" and isinstance(x, (str, int)):
                if x not in unopt(t)[1:]:
                    return "%r is not allowed at %s" % (x, ".".join(q))
        return None


def bare_at(u, v):
    return build(u, v)


def type_at(u, path):
    name = u["root"]
    t = None
    for seg in path:
        f = next((x for x in spec(u, name) if x["n"] == seg), None) if name else None
        if f is None:
            return None
        t = f["t"]
        name = unopt(t)[1] if kind(unopt(t)) == "st" else None
    return t


class C18(Check):
    id = "C18"
    rule = ("random classes changed in 0-2 ways, with and without the proposed rules and a new version; upgrade-schema and check-schema on the "
            "old schema file; non-trivial: the class did change")
    quick = 200
    thorough = 4000

    def gen(self, d):
        u, g = gen_classes(d)
        old = copy.deepcopy(u)
        ops = []
        rules = d.chance(50)
        for _ in range(d.int(0, 2)):
            before = copy.deepcopy(u)
            m = Mutator(d, g, u, direct_structs(u) if rules else list(u["structs"]), direct=rules).mutate()
            if m is None:
                u.clear()
                u.update(before)
            else:
                ops.append(m["op"])
        return {"old": old, "new": u, "v": d.n(3), "ops": ops, "bump": d.n(2), "rules": rules}

    def run(self, case, ctx):
        from hyperstate.schema.schema_change import Severity

        v = case["v"]
        old = build(case["old"], v)
        folder = ctx.dir()
        path, now = os.path.join(folder, "s.ron"), os.path.join(folder, "now.ron")
        dump_schema(old.root, path)
        text = open(path).read()
        if case["rules"]:
            fixes = checker(build(case["new"], v).root, path).proposed_fixes
            new = build(case["new"], v + 1, {v: fixes})
        else:
            new = build(case["new"], v + case["bump"])
        dump_schema(new.root, now)
        current = open(now).read()
        c = checker(new.root, path)
        compatible = c.severity() == Severity.INFO
        ctx.label("compatible" if compatible else "incompatible", *case["ops"])
        if case["ops"]:
            ctx.mark()
        what = "%r: %s\nbecame %s\nchanges %r\n" % (case["ops"], describe(case["old"]), describe(case["new"]), c.changes)
        status, out = cli(new.root, ["check-schema", path])
        if status != 0:
            raise Violation("%s check-schema: status %r\n%s" % (what, status, out))
        if open(path).read() != text:
            raise Violation("%s check-schema changed the file" % what)
        if ("Schema compatible" in out) != compatible:
            raise Violation("%s check-schema:\n%s" % (what, out))
        status, out = cli(new.root, ["upgrade-schema", path])
        if not isinstance(status, int):
            raise Violation("%s upgrade-schema: status %r\n%s" % (what, status, out))
        after = open(path).read()
        if not compatible:
            if after != text:
                raise Violation("%s upgrade-schema overwrote the file although %r:\n%s" % (what, c.severity(), after))
        else:
            if after != current:
                raise Violation("%s upgrade-schema left\n%s\ninstead of\n%s" % (what, after, current))
            status, out = cli(new.root, ["check-schema", path])
            if status != 0 or "Schema compatible" not in out or "Schema incompatible" in out:
                raise Violation("%s check-schema after upgrade-schema: %r\n%s" % (what, status, out))
        if sorted(os.listdir(folder)) != ["now.ron", "s.ron"]:
            raise Violation("upgrade-schema left %r" % os.listdir(folder))
