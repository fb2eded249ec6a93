"""Generated dataclasses, their values, and documents describing them.

A universe is JSON:
  {"enums": {name: [[variant, value], ...]},
   "structs": {name: {"fields": [{"n": name, "t": T, "d": default}], ...}},   (innermost first)
   "root": name}
A type T is "int" | "float" | "str" | "bool" | ["opt", T] | ["list", T] | ["tup", T...] |
  ["dict", K, T] | ["lit", value...] | ["enum", name] | ["st", name] | ["un", name...].
A default d is absent, ["v", J] (plain) or ["f", J] (factory).
A value J is type directed: scalars as they are, None as null, lists and tuples as lists,
dicts as lists of pairs, enums as variant names, structs as {field: J}, unions as [name, J].
"""
import copy
import dataclasses
import enum
import json
import math
import typing
from typing import Any, Dict, List, Literal, Optional, Tuple, Union

SCALARS = ("int", "float", "str", "bool")


def kind(t):
    return t if isinstance(t, str) else t[0]


# ------------------------------------------------------------------ classes


class Built:
    def __init__(self, u, extra=None, py=None):
        """extra: class name -> (namespace, bases); py: name -> (type, function of the JSON value)."""
        self.u = u
        self.py = py or {}
        self.enums = {}
        self.classes = {}
        for name, variants in u.get("enums", {}).items():
            self.enums[name] = enum.Enum(name, [(v, x) for v, x in variants])
        for name, spec in u["structs"].items():
            self.classes[name] = self._build(name, spec, extra or {})
        self.root = self.classes[u["root"]]

    def _build(self, name, spec, extra):
        fields = []
        for f in spec["fields"]:
            fields.append(self._field(f))
        ns, bases = {}, ()
        if "doc" in spec:
            ns["__doc__"] = spec["doc"]
        if name in extra:
            ns2, bases = extra[name]
            ns.update(ns2)
        bases += tuple(type("%sPart%d" % (name, i), (), {"__doc__": doc}) for i, doc in enumerate(spec.get("parts", [])))
        inherit = spec.get("inherit", 0)
        if inherit:
            base = dataclasses.make_dataclass(name + "Base", fields[:inherit], bases=bases)
            cls = dataclasses.make_dataclass(name, fields[inherit:], bases=(base,), namespace=ns)
        else:
            cls = dataclasses.make_dataclass(name, fields, bases=bases, namespace=ns, eq=spec.get("eq", True))
        return cls

    def _field(self, f):
        t = self.type(f["t"])
        if "d" not in f:
            return (f["n"], t)
        how, j = f["d"]
        if how == "v":
            return (f["n"], t, dataclasses.field(default=self.value(f["t"], j)))
        return (f["n"], t, dataclasses.field(default_factory=lambda: self.value(f["t"], j)))

    def type(self, t):
        k = kind(t)
        if k in SCALARS:
            return {"int": int, "float": float, "str": str, "bool": bool}[k]
        if k == "opt":
            # the same either way
            return Union[None, self.type(t[1])] if self.u.get("none first") else Optional[self.type(t[1])]
        if k == "list":
            return List[self.type(t[1])]
        if k == "tup":
            return Tuple[tuple(self.type(x) for x in t[1:])]
        if k == "dict":
            return Dict[self.type(t[1]), self.type(t[2])]
        if k == "lit":
            return Literal[tuple(t[1:])]
        if k == "enum":
            return self.enums[t[1]]
        if k == "st":
            return self.classes[t[1]]
        if k == "un":
            return Union[tuple(self.classes[x] for x in t[1:])]
        if k == "py":
            return self.py[t[1]][0]
        raise AssertionError(t)

    def value(self, t, j):
        """The Python value described by j."""
        k = kind(t)
        if k == "float":
            return float(j)
        if k in SCALARS or k == "lit":
            return j
        if k == "opt":
            return None if j is None else self.value(t[1], j)
        if k == "list":
            return [self.value(t[1], x) for x in j]
        if k == "tup":
            return tuple(self.value(x, y) for x, y in zip(t[1:], j))
        if k == "dict":
            return {a: self.value(t[2], b) for a, b in j}
        if k == "enum":
            return self.enums[t[1]][j]
        if k == "st":
            return self.struct(t[1], j)
        if k == "un":
            return self.struct(j[0], j[1])
        if k == "py":
            return self.py[t[1]][1](j)
        raise AssertionError(t)

    def struct(self, name, j):
        spec = {f["n"]: f["t"] for f in self.u["structs"][name]["fields"]}
        return self.classes[name](**{n: self.value(spec[n], v) for n, v in j.items()})

    def root_value(self, j):
        return self.struct(self.u["root"], j)

    # -- conformance
    def conforms(self, t, v, path="value"):
        """None, or a message saying where v is not of type t."""
        k = kind(t)
        if k in SCALARS:
            want = {"int": int, "float": float, "str": str, "bool": bool}[k]
            return None if type(v) is want else "%s: %r is not a %s" % (path, v, k)
        if k == "opt":
            return None if v is None else self.conforms(t[1], v, path)
        if k == "list":
            if type(v) is not list:
                return "%s: %r is not a list" % (path, v)
            for i, x in enumerate(v):
                m = self.conforms(t[1], x, "%s[%d]" % (path, i))
                if m:
                    return m
            return None
        if k == "tup":
            if type(v) is not tuple or len(v) != len(t) - 1:
                return "%s: %r is not a tuple of %d" % (path, v, len(t) - 1)
            for i, x in enumerate(v):
                m = self.conforms(t[i + 1], x, "%s[%d]" % (path, i))
                if m:
                    return m
            return None
        if k == "dict":
            if type(v) is not dict:
                return "%s: %r is not a dict" % (path, v)
            for a, b in v.items():
                m = self.conforms(t[1], a, path + ".key") or self.conforms(t[2], b, "%s.%s" % (path, a))
                if m:
                    return m
            return None
        if k == "lit":
            ok = any(type(v) is type(x) and v == x for x in t[1:])
            return None if ok else "%s: %r is not one of %r" % (path, v, t[1:])
        if k == "enum":
            return None if type(v) is self.enums[t[1]] else "%s: %r is not a %s" % (path, v, t[1])
        if k == "st":
            return self.conforms_struct(t[1], v, path)
        if k == "un":
            for x in t[1:]:
                if type(v) is self.classes[x]:
                    return self.conforms_struct(x, v, path)
            return "%s: %r is none of %r" % (path, v, t[1:])
        raise AssertionError(t)

    def conforms_struct(self, name, v, path="value"):
        if type(v) is not self.classes[name]:
            return "%s: %r is not a %s" % (path, v, name)
        for f in self.u["structs"][name]["fields"]:
            if f["n"] not in v.__dict__:
                return "%s.%s is not set" % (path, f["n"])
            m = self.conforms(f["t"], v.__dict__[f["n"]], "%s.%s" % (path, f["n"]))
            if m:
                return m
        return None


def same(a, b, path="value", zero_sign=True, exact_class=True):
    """None if a and b are equal with the same types throughout, else where they differ."""
    if dataclasses.is_dataclass(a) and dataclasses.is_dataclass(b):
        if exact_class and type(a) is not type(b):
            return "%s: %r != %r (classes %s and %s)" % (path, a, b, type(a), type(b))
        fa = [f.name for f in dataclasses.fields(a)]
        fb = [f.name for f in dataclasses.fields(b)]
        if fa != fb:
            return "%s: fields %r != %r" % (path, fa, fb)
        for n in fa:
            try:
                x, y = getattr(a, n), getattr(b, n)
            except AttributeError as e:
                return "%s.%s: %s" % (path, n, e)
            m = same(x, y, "%s.%s" % (path, n), zero_sign, exact_class)
            if m:
                return m
        return None
    if hasattr(type(a), "payload_differ"):
        return a.payload_differ(b, path)
    if isinstance(a, enum.Enum) and isinstance(b, enum.Enum) and not exact_class:
        return None if (a.name, a.value) == (b.name, b.value) else "%s: %r != %r" % (path, a, b)
    if type(a) is not type(b):
        return "%s: %r (%s) != %r (%s)" % (path, a, type(a).__name__, b, type(b).__name__)
    if isinstance(a, float):
        if a != a and b != b:
            return None
        if a == b and (not zero_sign or math.copysign(1, a) == math.copysign(1, b)):
            return None
        return "%s: %r != %r" % (path, a, b)
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: %r != %r" % (path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            m = same(x, y, "%s[%d]" % (path, i), zero_sign, exact_class)
            if m:
                return m
        return None
    if isinstance(a, dict):
        if set(a) != set(b) or len(a) != len(b):
            return "%s: keys %r != %r" % (path, list(a), list(b))
        kb = {k: k for k in b}
        for k in a:
            m = same(k, kb[k], path + ".key") or same(a[k], b[k], "%s.%s" % (path, k), zero_sign, exact_class)
            if m:
                return m
        return None
    return None if a == b else "%s: %r != %r" % (path, a, b)


# ------------------------------------------------------------------ generators


# the others have names that contain each other, or differ in case only
STRUCT_NAMES = [["Opt", "Net", "Task", "Inner", "Leaf"], ["AdamW", "Adam", "ADAM", "AdamW2", "Ada"], ["Adam", "NAdam", "dam", "NNAdam", "m"], ["Conf", "Configs", "ConfigBase2", "config", "C"],
                ["A_B", "AB", "A", "Ab", "B"]]


class TypeGen:
    """Options of the generated universes."""

    def __init__(self, d, depth=2, nstructs=(1, 3), nfields=(1, 4), unions=True, dicts=True, enums=True,
                 lits=True, optionals=True, lists=True, tuples=True, struct_in_containers=True,
                 empty_structs=True, scalars=("int", "float", "str", "bool"), defaults=55, nonfinite=True,
                 bigint=True, required_nested=35, inherit=True, docs=False, key_text=None):
        self.__dict__.update(locals())
        self.u = {"enums": {}, "structs": {}, "root": None}
        self.chain = self.long = False

    def universe(self):
        d = self.d
        n = d.int(*self.nstructs)
        names = ["Config"] + d.weighted([(5, STRUCT_NAMES[0])] + [(1, x) for x in STRUCT_NAMES[1:]])[: n - 1]
        if self.nstructs[1] >= 3 and d.chance(4):
            # small structs nested deeply
            self.chain = True
            names = ["Config"] + ["L%d" % i for i in range(1, d.int(5, 9))]
        for name in reversed(names):
            self.struct(name)
        self.u["root"] = names[0]
        if d.chance(8):
            self.u["none first"] = True
        return self.u

    def struct(self, name):
        d = self.d
        lo, hi = self.nfields
        k = d.size(0 if (self.empty_structs and name != "Config" and d.chance(6)) else lo, hi, 65)
        if self.chain:
            k = min(k, 2)
        elif hi >= 4 and d.chance(2):
            k = d.int(8, 14)
        fields = [self.field(n) for n in d.names(k)]
        if self.chain and self.u["structs"]:
            t = ["st", list(self.u["structs"])[-1]]
            f = {"n": d.names(1, {x["n"] for x in fields})[0], "t": t}
            if self.optionals and d.chance(25):
                f["t"] = ["opt", t]
            elif self.lists and self.struct_in_containers and d.chance(10):
                f["t"] = ["list", t]
            if not d.chance(self.required_nested):
                f["d"] = ["f", self.value(f["t"])]
            fields.append(f)
        # connect structs that nothing refers to yet
        spec = dict(fields=fields)
        self.u["structs"][name] = spec
        self.finish_fields(name)

    def finish_fields(self, name):
        spec = self.u["structs"][name]
        used = {f["n"] for f in spec["fields"]}
        if name == "Config":
            for s in list(self.u["structs"]):
                if s != "Config" and not self.referred(s) and self.d.chance(85):
                    n = self.d.names(1, used)[0]
                    used.add(n)
                    f = {"n": n, "t": ["st", s]}
                    if not self.d.chance(self.required_nested + 25):
                        f["d"] = ["f", self.value(f["t"])]
                    spec["fields"].append(f)
        # fields without default come first, as dataclasses demand
        spec["fields"].sort(key=lambda f: "d" in f)
        if self.inherit and len(spec["fields"]) > 1 and self.d.chance(12):
            spec["inherit"] = self.d.int(1, len(spec["fields"]) - 1)

    def referred(self, s):
        def inside(t):
            return isinstance(t, list) and ((t[0] in ("st", "un") and s in t[1:]) or any(inside(x) for x in t[1:]))

        return any(inside(f["t"]) for st in self.u["structs"].values() for f in st["fields"])

    def field(self, n):
        d = self.d
        t = self.type(self.depth)
        f = {"n": n, "t": t}
        pct = self.defaults
        if kind(t) == "st":
            pct = 100 - self.required_nested
        if d.chance(pct):
            j = self.default(t)
            mutable = kind(t) in ("list", "dict", "st", "un", "tup", "opt") and not hashable(t, j)
            f["d"] = ["f" if mutable or d.chance(15) else "v", j]
        return f

    def default(self, t):
        return self.value(t)

    def type(self, depth):
        d = self.d
        opts = [(3, s) for s in self.scalars]
        if self.lits:
            opts.append((2, "lit"))
        if self.enums:
            opts.append((2, "enum"))
        if self.u["structs"] and not self.chain:
            opts.append((5, "st"))
        if depth > 0:
            if self.optionals:
                opts.append((3, "opt"))
            if self.lists:
                opts.append((3, "list"))
            if self.tuples:
                opts.append((2, "tup"))
            if self.dicts:
                opts.append((2, "dict"))
            if self.unions and len(self.u["structs"]) >= 2 and not self.chain:
                opts.append((2, "un"))
        k = d.weighted(opts)
        if k in SCALARS:
            return k
        if k == "lit":
            return self.literal()
        if k == "enum":
            return self.enum()
        if k == "st":
            return ["st", d.pick(list(self.u["structs"]))]
        if k == "un":
            return ["un"] + d.sample(list(self.u["structs"]), d.int(2, 3))
        if k == "opt":
            t = self.type(depth - 1)
            return t if kind(t) == "opt" else ["opt", t]
        if k == "list":
            return ["list", self.type(depth - 1)]
        if k == "tup":
            return ["tup"] + [self.type(depth - 1) for _ in range(d.size(1, 3))]
        if k == "dict":
            return ["dict", d.pick(["str", "int"]), self.type(depth - 1)]
        raise AssertionError

    def literal(self):
        d = self.d
        if d.chance(30):
            return ["lit"] + d.sample([0, 1, 2, 3, 7, -1, 100], d.int(1, 4))
        if d.chance(14):
            return ["lit"] + d.sample(d.pick([[True, False], ["a", 2, "2", 100, "relu"], ["a", True, "True", False]]), d.int(1, 3))
        return ["lit"] + d.sample(["a", "b", "c", "relu", "tanh", "x-y", "A", "two words", "1", "it's"], d.int(1, 4))

    def enum(self):
        d = self.d
        if self.u["enums"] and d.chance(50):
            return ["enum", d.pick(list(self.u["enums"]))]
        name = "E%d" % len(self.u["enums"])
        if d.chance(30):
            vals = d.sample([0, 1, 2, 3, 5, -1], d.int(1, 4))
        else:
            vals = d.sample(["a", "b", "c", "red", "green", "x", "a b", "'q'"], d.int(1, 4))
        names = d.sample(["RED", "GREEN", "B", "A", "X1", "a", "b"], len(vals))
        self.u["enums"][name] = [list(x) for x in zip(names, vals)]
        return ["enum", name]

    # -- values
    def value(self, t):
        d = self.d
        k = kind(t)
        if k == "int":
            return d.integer() if self.bigint else d.int64()
        if k == "float":
            return d.real(self.nonfinite)
        if k == "str":
            return d.text()
        if k == "bool":
            return d.chance(50)
        if k == "opt":
            return self.value(t[1]) if d.chance(60) else None
        if k == "list":
            out = [self.value(t[1]) for _ in range(self.length())]
            if not self.long and kind(t[1]) in SCALARS and d.chance(1):
                self.long = True
                times = d.pick([20, 100, 600])
                if len(json.dumps(out)) * times < 100000:
                    out = out * times
            return out
        if k == "tup":
            return [self.value(x) for x in t[1:]]
        if k == "dict":
            out = {}
            for _ in range(self.length()):
                key = d.text(self.key_text) if t[1] == "str" else d.int64()
                if key in ("!__name__", "!weak ref"):
                    continue
                out[key] = self.value(t[2])
            return [[a, b] for a, b in out.items()]
        if k == "lit":
            return d.pick(t[1:])
        if k == "enum":
            return d.pick([v for v, _ in self.u["enums"][t[1]]])
        if k == "st":
            return self.struct_value(t[1])
        if k == "un":
            name = d.pick(t[1:])
            return [name, self.struct_value(name)]
        raise AssertionError(t)

    def length(self):
        if not self.long and self.d.chance(1):
            self.long = True
            return self.d.int(10, 13)
        return self.d.size(0, 3, 65)

    def struct_value(self, name, keep_default=35):
        out = {}
        for f in self.u["structs"][name]["fields"]:
            if "d" in f and self.d.chance(keep_default):
                out[f["n"]] = f["d"][1]
            else:
                out[f["n"]] = self.value(f["t"])
        return out

    def root_value(self):
        return self.struct_value(self.u["root"])


def hashable(t, j):
    k = kind(t)
    if k in SCALARS or k in ("lit", "enum"):
        return True
    if k == "opt":
        return j is None or hashable(t[1], j)
    if k == "tup":
        return all(hashable(x, y) for x, y in zip(t[1:], j))
    return False


# ------------------------------------------------------------------ documents
# An AST node: ["num", text] ["str", s] ["bool", b] ["none"] ["list", [node]] ["tup", [node]]
# ["map", [[key node, node]]] ["st", name or None, [[field, node]]] ["word", identifier]

_ESC = {"\n": "\\n", "\r": "\\r", "\t": "\\t", '"': '\\"', "\0": "\\0", "\\": "\\\\"}


def ron_str(s):
    return '"' + "".join(_ESC.get(c, c) for c in s) + '"'


def ron(node, indent=None, level=0):
    k = node[0]
    if k in ("num", "word"):
        return node[1]
    if k == "str":
        return ron_str(node[1])
    if k == "bool":
        return "true" if node[1] else "false"
    if k == "none":
        return "None"
    if k == "list":
        items, o, c = [ron(x, indent, level + 1) for x in node[1]], "[", "]"
    elif k == "tup":
        items, o, c = [ron(x, indent, level + 1) for x in node[1]], "(", ")"
    elif k == "map":
        items, o, c = ["%s: %s" % (ron(a), ron(b, indent, level + 1)) for a, b in node[1]], "{", "}"
    elif k == "st":
        items, o, c = ["%s: %s" % (a, ron(b, indent, level + 1)) for a, b in node[2]], (node[1] or "") + "(", ")"
        if not node[1] and not node[2]:
            return "{}"
    else:
        raise AssertionError(node)
    if indent is None or not items:
        return o + ", ".join(items) + c
    pad = "\n" + " " * (indent * (level + 1))
    return o + pad + ("," + pad).join(items) + ",\n" + " " * (indent * level) + c


def num_text(x):
    if isinstance(x, int):
        return str(x)
    s = repr(float(x))
    if "e" in s:
        from decimal import Decimal

        s = format(Decimal(s), "f")
    return s if "." in s else s + ".0"


class Doc:
    """Documents that describe a value."""

    def __init__(self, u, d=None, plain=False, anon=False):
        self.u = u
        self.d = d
        self.anon = anon
        self.plain = plain or d is None

    def chance(self, pct):
        return False if self.plain else self.d.chance(pct)

    def node(self, t, j):
        k = kind(t)
        if k == "int":
            if not -(2**63) <= j < 2**63:
                return ["str", str(j)]
            if abs(j) < 2**53 and self.chance(12):
                return ["num", num_text(float(j))]
            if self.chance(6):
                return ["str", str(j)]
            return ["num", str(j)]
        if k == "float":
            j = float(j)
            if j != j or j in (float("inf"), float("-inf")):
                return ["str", repr(j)]
            if j == int(j) and abs(j) < 2**53 and math.copysign(1, j) == (1 if j >= 0 else -1) and not (j == 0 and math.copysign(1, j) < 0) and self.chance(25):
                return ["num", str(int(j))]
            if self.chance(6):
                return ["str", repr(j)]
            return ["num", num_text(j)]
        if k == "str":
            return ["str", j]
        if k == "bool":
            return ["bool", j]
        if k == "opt":
            return ["none"] if j is None else self.node(t[1], j)
        if k == "list":
            return ["list", [self.node(t[1], x) for x in j]]
        if k == "tup":
            return ["tup", [self.node(x, y) for x, y in zip(t[1:], j)]]
        if k == "dict":
            return ["map", [[["str", a] if t[1] == "str" else ["num", str(a)], self.node(t[2], b)] for a, b in j]]
        if k == "lit":
            return ["bool", j] if isinstance(j, bool) else ["num", str(j)] if isinstance(j, int) else ["str", j]
        if k == "enum":
            v = dict((a, b) for a, b in self.u["enums"][t[1]])[j]
            return ["num", str(v)] if isinstance(v, int) else ["str", v]
        if k == "st":
            return self.struct(t[1], j)
        if k == "un":
            return self.struct(j[0], j[1], named=True)
        raise AssertionError(t)

    def struct(self, name, j, named=False):
        types = {f["n"]: f["t"] for f in self.u["structs"][name]["fields"]}
        items = [[n, self.node(types[n], v)] for n, v in j.items()]
        if not self.plain and len(items) > 1 and self.chance(20):
            items = self.d.shuffle(items)
        if not named and self.chance(15):
            return ["map", [[["str", n], x] for n, x in items]]
        if not named and (self.anon or items and self.chance(40)):
            return ["st", None, items]
        return ["st", name, items]

    def root(self, j):
        return self.struct(self.u["root"], j)


# types of all kinds with values of theirs
CATALOGUE = [
    ["int", [0, -7, 1]], ["float", [0.5, -1e30, 1.0]], ["str", ["", "a", "1", "None"]], ["bool", [True, False]],
    [["lit", "a"], ["a"]], [["lit", "a", "b"], ["a", "b"]], [["lit", "1", "None"], ["1", "None"]], [["lit", 1], [1]], [["lit", 0, 1, 2], [0, 1, 2]],
    [["lit", True], [True]], [["lit", True, False], [True, False]], [["lit", "a", 1], ["a", 1]], [["lit", "a", True], ["a", True]],
    [["enum", "E1"], ["A", "B"]], [["enum", "E2"], ["A", "B"]], [["enum", "E3"], ["A", "B", "C"]],
    [["st", "P"], [{"x": 1, "y": "p"}]], [["st", "Q"], [{"x": 1.5, "y": "q"}]], [["st", "R"], [{"x": 3}]],
    [["un", "P", "Q"], [["P", {"x": 1, "y": "p"}], ["Q", {"x": 1.5, "y": "q"}]]], [["un", "Q", "P", "R"], [["R", {"x": 3}], ["P", {"x": 1, "y": "p"}]]],
    [["tup", "int", "int"], [[1, 2]]], [["tup", "int", "float"], [[1, 2.5]]], [["tup", "float", "float"], [[1.5, 2.5]]], [["tup", "int"], [[1]]],
    [["tup", "int", "int", "int"], [[1, 2, 3]]],
    [["dict", "str", "int"], [[], [["a", 1]], [["1", 2]]]], [["dict", "int", "int"], [[], [[1, 2]]]], [["dict", "str", "float"], [[["a", 1.5]]]],
    [["dict", "str", ["opt", "int"]], [[["a", None]]]],
]
CATALOGUE += [[["list", t], [js, js[:1], []]] for t, js in CATALOGUE[:26]]
CATALOGUE += [[["opt", t], [None] + js] for t, js in CATALOGUE[:27] + CATALOGUE[30:33]]
CATALOGUE += [[["list", ["opt", "int"]], [[1, None], []]], [["list", ["list", "int"]], [[[1], []]]], [["opt", ["list", ["opt", "float"]]], [None, [None, 1.5]]]]
CATALOGUE_STRUCTS = {
    "P": {"fields": [{"n": "x", "t": "int"}, {"n": "y", "t": "str"}]}, "Q": {"fields": [{"n": "x", "t": "float"}, {"n": "y", "t": "str"}]},
    "R": {"fields": [{"n": "x", "t": "int"}]},
}
CATALOGUE_ENUMS = {"E1": [["A", "a"], ["B", "b"]], "E2": [["A", 1], ["B", 2]], "E3": [["A", "a"], ["B", "b"], ["C", "c"]]}


def catalogue_classes(types):
    return {"enums": copy.deepcopy(CATALOGUE_ENUMS), "root": "Config",
            "structs": dict(copy.deepcopy(CATALOGUE_STRUCTS), Config={"fields": [{"n": "x%d" % i, "t": copy.deepcopy(t)} for i, t in types]})}
