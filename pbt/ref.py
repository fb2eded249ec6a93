"""A reference loader: what a document means for a type, computed from the document's AST.

load(T, node) returns ("ok", python value), ("bad", reason) or ("any",) where the property
leaves the outcome open (then only conformance is checked).
"""
import re

from universe import kind

INT = re.compile(r"-?\d+\Z")
ANY = ("any",)


def bad(why):
    return ("bad", why)


def combine(results, make):
    """bad dominates any, any dominates ok."""
    anys = False
    out = []
    for r in results:
        if r[0] == "bad":
            return r
        if r[0] == "any":
            anys = True
        else:
            out.append(r[1])
    return ANY if anys else ("ok", make(out))


class Ref:
    def __init__(self, built, ignore_extra=False, override=False):
        self.override = override  # structs may stand for strings and tuples in overrides
        self.b = built
        self.u = built.u
        self.ignore_extra = ignore_extra

    def root(self, node):
        return self.struct(self.u["root"], node, "")

    def load(self, t, node, path="value"):
        k = kind(t)
        n = node[0]
        if self.override and n == "st" and k in ("str", "lit", "tup"):
            return ANY
        if k == "opt":
            return ("ok", None) if n == "none" else self.load(t[1], node, path)
        if k == "int":
            if n == "num":
                if INT.match(node[1]):
                    v = int(node[1])
                    return ("ok", v) if -(2**63) <= v < 2**63 else ANY
                x = float(node[1])
                if x in (float("inf"), float("-inf")):
                    return ANY
                return ("ok", int(x)) if x == int(x) else bad("%s: %s is not an int" % (path, node[1]))
            if n == "str":
                return self.numeric(node[1], path, True)
            return bad("%s: %r for an int" % (path, node))
        if k == "float":
            if n == "num":
                return ("ok", float(int(node[1]) if INT.match(node[1]) else node[1]))
            if n == "str":
                return self.numeric(node[1], path, False)
            return bad("%s: %r for a float" % (path, node))
        if k == "str":
            if n == "word":
                return ANY
            return ("ok", node[1]) if n == "str" else bad("%s: %r for a str" % (path, node))
        if k == "bool":
            return ("ok", node[1]) if n == "bool" else bad("%s: %r for a bool" % (path, node))
        if k == "lit":
            if n == "word":
                return ANY
            if n == "str":
                v = node[1]
            elif n == "num":
                if not INT.match(node[1]):
                    return ANY if float(node[1]) in [a for a in t[1:] if not isinstance(a, str)] else bad("%s: literal" % path)
                v = int(node[1])
            elif n == "bool":
                return ANY if any(a in (0, 1) for a in t[1:]) else bad("%s: literal" % path)
            else:
                return bad("%s: %r for a literal" % (path, node))
            if any(type(a) is type(v) and a == v for a in t[1:]):
                return ("ok", v)
            if n == "num" and any(isinstance(a, bool) and a == v for a in t[1:]):
                return ANY
            return bad("%s: %r is not one of %r" % (path, v, t[1:]))
        if k == "enum":
            members = {v: m for m, v in self.u["enums"][t[1]]}
            if n == "str" and node[1] in members:
                return ("ok", self.b.enums[t[1]][members[node[1]]])
            if n == "num":
                if not INT.match(node[1]):
                    return ANY if float(node[1]) in [a for a in members if not isinstance(a, str)] else bad("%s: enum" % path)
                if int(node[1]) in members:
                    return ("ok", self.b.enums[t[1]][members[int(node[1])]])
            if n == "bool" and any(a in (0, 1) for a in members):
                return ANY
            return bad("%s: %r is not a value of the enum" % (path, node))
        if k == "list":
            if n != "list":
                return bad("%s: %r for a list" % (path, node))
            return combine([self.load(t[1], x, path) for x in node[1]], list)
        if k == "tup":
            if n != "tup" or len(node[1]) != len(t) - 1:
                return bad("%s: %r for a tuple" % (path, node))
            return combine([self.load(x, y, path) for x, y in zip(t[1:], node[1])], tuple)
        if k == "dict":
            if n == "st":
                return ANY if node[2] or node[1] else ("ok", {})
            if n != "map":
                return bad("%s: %r for a dict" % (path, node))
            keys = [self.load(t[1], a, path) for a, _ in node[1]]
            vals = [self.load(t[2], b, path) for _, b in node[1]]
            return combine([combine(keys, list), combine(vals, list)], lambda kv: dict(zip(kv[0], kv[1])))
        if k == "st":
            return self.struct(t[1], node, path)
        if k == "un":
            if n == "word" and node[1] in t[1:]:
                return self.struct(node[1], ["st", node[1], []], path)
            if n != "st" or node[1] not in t[1:]:
                return bad("%s: %r for a union" % (path, node))
            return self.struct(node[1], node, path)
        raise AssertionError(t)

    def numeric(self, s, path, as_int):
        if "@" in s:
            return ANY
        if INT.match(s):
            return ("ok", int(s) if as_int else float(s))
        try:
            x = float(s)
        except ValueError:
            return bad("%s: %r is not a number" % (path, s))
        if not as_int:
            return ("ok", x)
        if x != x or x in (float("inf"), float("-inf")) or int(x) != x:
            return bad("%s: %r is not an int" % (path, s))
        return ANY

    def struct(self, name, node, path):
        n = node[0]
        if n == "st":
            items = node[2]
            if node[1] not in (None, name):
                loose = True
            else:
                loose = False
        elif n == "word":
            items, loose = [], True
        elif n == "map":
            if any(a[0] != "str" for a, _ in node[1]):
                return ANY if self.ignore_extra else bad("%s: %r for a struct" % (path, node))
            items, loose = [[a[1], b] for a, b in node[1]], False
        else:
            return bad("%s: %r for a struct" % (path, node))
        fields = {f["n"]: f for f in self.u["structs"][name]["fields"]}
        out = {}
        results = []
        given = set()
        for fname, x in items:
            given.add(fname)
            if fname not in fields:
                if not self.ignore_extra:
                    return bad("%s.%s is unknown" % (path, fname))
                continue
            r = self.load(fields[fname]["t"], x, "%s.%s" % (path, fname))
            results.append(r)
            if r[0] == "ok":
                out[fname] = r[1]
        for fname, f in fields.items():
            if fname in given:
                continue
            if "d" in f:
                out[fname] = self.b.value(f["t"], f["d"][1])
            elif kind(f["t"]) == "st":
                r = self.struct(f["t"][1], ["st", None, []], "%s.%s" % (path, fname))
                results.append(r)
                if r[0] == "ok":
                    out[fname] = r[1]
            else:
                return ("bad", "%s.%s is missing" % (path, fname), fname)
        if loose and not any(r[0] == "bad" for r in results):
            return ANY
        return combine(results, lambda _: self.b.classes[name](**out))

    def missing(self, node):
        """Names of the required fields that the document leaves out and nothing can supply."""
        out = []

        def walk(t, n):
            k = kind(t)
            if k == "opt" and n[0] != "none":
                walk(t[1], n)
            elif k == "list" and n[0] == "list":
                for x in n[1]:
                    walk(t[1], x)
            elif k == "tup" and n[0] == "tup":
                for x, y in zip(t[1:], n[1]):
                    walk(x, y)
            elif k == "dict" and n[0] == "map":
                for _, y in n[1]:
                    walk(t[2], y)
            elif k == "st":
                st(t[1], n)
            elif k == "un" and n[0] == "st" and n[1] in t[1:]:
                st(n[1], n)

        def st(name, n):
            items = dict((a, b) for a, b in n[2]) if n[0] == "st" else dict((a[1], b) for a, b in n[1]) if n[0] == "map" else {}
            for f in self.u["structs"][name]["fields"]:
                if f["n"] in items:
                    walk(f["t"], items[f["n"]])
                elif "d" not in f:
                    if kind(f["t"]) == "st":
                        st(f["t"][1], ["st", None, []])
                    else:
                        out.append(f["n"])

        st(self.u["root"], node)
        return out
