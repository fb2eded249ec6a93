"""Histories of config classes: universes related by edits, each expressed by rewrite rules.

A history is {"v0": first version, "us": [universe, ...], "steps": [[edit, ...], ...]} where
steps[i] leads from us[i] (version v0 + i) to us[i + 1]. An edit is a JSON list:
  ["rename", p, q] ["delete", p] ["map", p, fn] ["cdef", p, T, old, new] ["adef", p, T, default]
  ["check", p, T, [value...]] ["reject", p, T, [value...]] ["add", p]
  ["dissolve", p]: a struct whose fields have all been moved or deleted is gone, without a rule
"""
import copy
import json

from core import Skip
from universe import TypeGen, hashable, kind


def unopt(t):
    while kind(t) == "opt":
        t = t[1]
    return t


def refs(u, name):
    n = 0

    def walk(t):
        nonlocal n
        if isinstance(t, list):
            if t[0] in ("st", "un"):
                n += t[1:].count(name)
            elif t[0] in ("opt", "list", "tup", "dict"):
                for x in t[1:]:
                    walk(x)

    for st in u["structs"].values():
        for f in st["fields"]:
            walk(f["t"])
    return n


def spec(u, name):
    return u["structs"][name]["fields"]


def field_at(u, path):
    """The field and the chain of fields leading to it."""
    name = u["root"]
    chain = []
    for i, seg in enumerate(path):
        f = next((x for x in spec(u, name) if x["n"] == seg), None)
        if f is None:
            return None, chain
        if i == len(path) - 1:
            return f, chain
        chain.append(f)
        t = unopt(f["t"])
        if kind(t) != "st":
            return None, chain
        name = t[1]


def owner(u, path):
    name = u["root"]
    for seg in path[:-1]:
        f = next(x for x in spec(u, name) if x["n"] == seg)
        name = unopt(f["t"])[1]
    return name


def editable(u, name=None, prefix=()):
    """Paths of the fields that only one path leads to."""
    out = []
    for f in spec(u, name or u["root"]):
        out.append(prefix + (f["n"],))
        t = unopt(f["t"])
        if kind(t) == "st" and refs(u, t[1]) == 1:
            out.extend(editable(u, t[1], prefix + (f["n"],)))
    return out


def editable_structs(u, name=None, prefix=()):
    out = [prefix]
    for f in spec(u, name or u["root"]):
        t = unopt(f["t"])
        if kind(t) == "st" and refs(u, t[1]) == 1:
            out.extend(editable_structs(u, t[1], prefix + (f["n"],)))
    return out


def plain_chain(u, path):
    """Whether all structs on the path are required and have no default of their own."""
    name = u["root"]
    for seg in path:
        f = next(x for x in spec(u, name) if x["n"] == seg)
        if kind(f["t"]) != "st" or "d" in f:
            return False
        name = f["t"][1]
    return True


def leafy(u, f):
    """Whether the field has a struct as its default that consists of the defaults of the struct's fields."""
    if kind(f["t"]) != "st" or "d" not in f or not can_default(u, f["t"][1]):
        return False
    return f["d"][1] == complete(u, f["t"], {})


def open_chain(u, path):
    """Whether all structs on the path are built from the defaults of their fields when they are absent."""
    for i in range(1, len(path) + 1):
        f, _ = field_at(u, path[:i])
        if kind(f["t"]) != "st" or "d" in f and not leafy(u, f):
            return False
    return True


def raw(u, t, j):
    """Plain data, as a rule would hold it."""
    k = kind(t)
    if k == "float":
        return float(j)
    if k == "opt":
        return None if j is None else raw(u, t[1], j)
    if k == "list":
        return [raw(u, t[1], x) for x in j]
    if k == "tup":
        return tuple(raw(u, x, y) for x, y in zip(t[1:], j))
    if k == "dict":
        return {a: raw(u, t[2], b) for a, b in j}
    if k == "enum":
        return dict((a, b) for a, b in u["enums"][t[1]])[j]
    if k == "st":
        types = {f["n"]: f["t"] for f in spec(u, t[1])}
        return {n: raw(u, types[n], x) for n, x in j.items()}
    if k == "un":
        return dict(raw(u, ["st", j[0]], j[1]), **{"!__name__": j[0]})
    return j


def toposort(u):
    """Orders the structs innermost first; False if there is a cycle."""
    out, state = [], {}

    def uses(t):
        if isinstance(t, list):
            if t[0] in ("st", "un"):
                yield from t[1:]
            elif t[0] in ("opt", "list", "tup", "dict"):
                for x in t[1:]:
                    yield from uses(x)

    def visit(n):
        if state.get(n) == 1:
            return False
        if state.get(n) == 2:
            return True
        state[n] = 1
        for f in spec(u, n):
            for m in uses(f["t"]):
                if not visit(m):
                    return False
        state[n] = 2
        out.append(n)
        return True

    if not all(visit(n) for n in list(u["structs"])):
        return False
    u["structs"] = {n: u["structs"][n] for n in out}
    return True


class Missing(Exception):
    pass


def complete(u, t, j):
    """The value that a document with the fields of j describes."""
    k = kind(t)
    if k == "opt":
        return None if j is None else complete(u, t[1], j)
    if k == "list":
        return [complete(u, t[1], x) for x in j]
    if k == "tup":
        return [complete(u, x, y) for x, y in zip(t[1:], j)]
    if k == "dict":
        return [[a, complete(u, t[2], x)] for a, x in j]
    if k == "un":
        return [j[0], complete(u, ["st", j[0]], j[1])]
    if k == "st":
        out = {}
        for f in spec(u, t[1]):
            if f["n"] in j:
                out[f["n"]] = complete(u, f["t"], j[f["n"]])
            elif "d" in f:
                out[f["n"]] = copy.deepcopy(f["d"][1])
            elif kind(f["t"]) == "st":
                out[f["n"]] = complete(u, f["t"], {})
            else:
                raise Missing(f["n"])
        return out
    return j


def thin(d, u, t, j, pct):
    """Leaves out fields that have a default (or consist of such)."""
    k = kind(t)
    if k == "opt":
        return None if j is None else thin(d, u, t[1], j, pct)
    if k == "list":
        return [thin(d, u, t[1], x, pct) for x in j]
    if k == "tup":
        return [thin(d, u, x, y, pct) for x, y in zip(t[1:], j)]
    if k == "dict":
        return [[a, thin(d, u, t[2], x, pct)] for a, x in j]
    if k == "un":
        return [j[0], thin(d, u, ["st", j[0]], j[1], pct)]
    if k != "st":
        return j
    out = {}
    for f in spec(u, t[1]):
        if f["n"] not in j:
            continue
        optional = "d" in f or (kind(f["t"]) == "st" and can_default(u, f["t"][1]))
        if optional and d.chance(pct):
            continue
        out[f["n"]] = thin(d, u, f["t"], j[f["n"]], pct)
    return out


def can_default(u, name):
    return all("d" in f or (kind(f["t"]) == "st" and can_default(u, f["t"][1])) for f in spec(u, name))


# ------------------------------------------------------------------ functions of MapFieldValue


def fn_value(fn, x):
    """The function on plain values."""
    k = fn[0]
    if k == "opt":
        return None if x is None else fn_value(fn[1], x)
    if k == "add":
        return x + fn[1]
    if k == "mul":
        return x * fn[1]
    if k == "tostr":
        return str(x)
    if k == "half":
        return x * 0.5
    if k == "wrap":
        return [x]
    if k == "prefix":
        return fn[1] + x
    if k == "len":
        return len(x)
    if k == "not":
        return not x
    if k == "toint":
        return int(x)
    if k == "table":
        for a, b in fn[1]:
            if a == x and type(a) is type(x):
                return b
        return x
    raise AssertionError(fn)


def fn_type(fn, t):
    k = fn[0]
    if k == "opt":
        return ["opt", fn_type(fn[1], t[1])]
    if k == "wrap":
        return ["list", t]
    if k == "table" and kind(t) == "lit":
        return ["lit"] + [fn_value(fn, x) for x in t[1:]]
    return {"tostr": "str", "half": "float", "len": "int", "toint": "int"}.get(k, t)


def gen_fn(d, u, t):
    k = kind(t)
    if k == "opt":
        fn = gen_fn(d, u, t[1])
        return None if fn is None else ["opt", fn]
    if k == "int":
        return d.pick([["add", d.int(-3, 7)], ["mul", d.int(2, 5)], ["tostr"], ["half"], ["wrap"]])
    if k == "float":
        return d.pick([["mul", 2.0], ["add", 1.5], ["wrap"]])
    if k == "str":
        return d.pick([["prefix", "p-"], ["len"], ["wrap"]])
    if k == "bool":
        return d.pick([["not"], ["toint"]])
    if k == "lit" and all(isinstance(x, str) for x in t[1:]):
        olds = d.subset(t[1:], 60)
        return ["table", [[x, "new " + x] for x in olds]] if olds else None
    return None


# ------------------------------------------------------------------ effect of edits on values


def at(j, path):
    """The struct value that holds the last segment, or None."""
    for seg in path[:-1]:
        if j is None or seg not in j:
            return None
        j = j[seg]
    return j


class Rejected(Exception):
    pass


def affect(u, j, edit, partial=False, check=True):
    """Applies an edit to a complete (or partial) value in place; u is the universe before."""
    op, p = edit[0], edit[1]
    s = at(j, p)
    there = s is not None and (p[-1] in s or not partial)
    if op == "rename":
        if there:
            q = edit[2]
            v = s.pop(p[-1])
            t = j
            for seg in q[:-1]:
                t = t.setdefault(seg, {}) if partial else t[seg]
                if t is None:
                    return
            t[q[-1]] = v
    elif op in ("delete", "dissolve"):
        if s is not None:
            s.pop(p[-1], None)
    elif op == "map":
        if there:
            f, _ = field_at(u, p)
            if kind(unopt(f["t"])) != "enum":
                s[p[-1]] = fn_value(edit[2], s[p[-1]])
    elif op in ("add", "adef"):
        if not partial and s is not None and p[-1] not in s:
            s[p[-1]] = copy.deepcopy(edit[3])
    elif op == "check":
        if check and there and s[p[-1]] is not None and not member(s[p[-1]], edit[3]):
            raise Rejected("%r is not in %r" % (s[p[-1]], edit[3]))
    elif op == "reject":
        if check and there and s[p[-1]] is not None and member(s[p[-1]], edit[3]):
            raise Rejected("%r is in %r" % (s[p[-1]], edit[3]))


def member(x, values):
    return any(x == v for v in values)


# ------------------------------------------------------------------ generating edits


class Evolver:
    def __init__(self, d, u, g, deep=False):
        self.d, self.u, self.g, self.deep = d, u, g, deep
        self.touched = 0
        self.pending = []

    def fresh(self, name):
        used = {f["n"] for f in spec(self.u, name)}
        # known/struct_replaced_later.json
        used |= {n for s, n in self.u.get("gone", []) if s == name}
        return self.d.names(1, used)[0]

    def put(self, p, f):
        fields = spec(self.u, owner(self.u, p))
        fields.append(f)
        fields.sort(key=lambda x: "d" in x)

    def take(self, p):
        fields = spec(self.u, owner(self.u, p))
        f = next(x for x in fields if x["n"] == p[-1])
        fields.remove(f)
        return f

    def defaults(self, p, edit, before):
        """Edits the struct defaults that contain the path."""
        for i in range(1, len(p)):
            f, _ = field_at(self.u, p[:i])
            if f is not None and "d" in f and f["d"][1] is not None:
                inner = [edit[0], p[i:]] + ([edit[2][i:]] if edit[0] == "rename" else edit[2:])
                fake = {"structs": before["structs"], "enums": before["enums"], "root": unopt(f["t"])[1]}
                affect(fake, f["d"][1], inner)

    def struct_default(self, p):
        """The default of a struct follows those of its fields."""
        f, _ = field_at(self.u, p)
        old = f["d"][1]
        f["d"] = ["f", complete(self.u, f["t"], {})]
        f["was"] = True
        return ["cdef", p, f["t"], old, copy.deepcopy(f["d"][1])]

    def destinations(self, p, f):
        u = self.u
        # known/changed_default_moves_into_default_struct.json
        default = "d" in f and not self.changed(f)
        return [s for s in editable_structs(u) if open_chain(u, s) and list(s[: len(p)]) != list(p) and (default or plain_chain(u, s))]

    def changed(self, f):
        """Whether the default of the field, or of a part of it, was another one in an earlier version."""
        return "was" in f or kind(unopt(f["t"])) == "st" and any(self.changed(x) for x in spec(self.u, unopt(f["t"])[1]))

    def dissolution(self):
        """Edits that empty a struct, which the class then does without."""
        d, u = self.d, self.u
        structs = [s for s in editable_structs(u) if s and open_chain(u, s) and all(plain_chain(u, s[:i]) for i in range(1, len(s))) and spec(u, owner(u, s + ("?",)))]
        if not structs:
            return []
        p = list(d.pick(structs))
        plan = []
        for f in spec(u, owner(u, p + ["?"])):
            dests = self.destinations(p, f)
            if dests and d.chance(70):
                plan.append(["move", p + [f["n"]], list(d.pick(dests))])
            else:
                plan.append(["delete", p + [f["n"]]])
        return plan + [["dissolve", p]]

    def edit(self, planned=None):
        d, u = self.d, self.u
        before = copy.deepcopy(u)
        paths = editable(u)
        if planned:
            return self.planned(planned, before)
        op = d.weighted([(4, "cdef"), (4, "rename"), (3, "delete"), (3, "map"), (3, "add"), (2, "adef"), (2, "drop"),
                         (2, "check"), (2, "reject"), (12 if self.deep else 2, "move"), (1, "revalue"), (1, "nothing")])
        f = None
        if op not in ("add", "adef"):
            if not paths:
                return None
            p = list(d.pick(paths))
            f, chain = field_at(u, p)
            t = f["t"]
        if op == "cdef":
            if "d" not in f:
                return None
            old = f["d"][1]
            new = self.g.value(t)
            self.pending = [p[:i] for i in range(1, len(p)) if leafy(u, field_at(u, p[:i])[0])] if d.chance(75) else []
            f["d"] = ["v" if hashable(t, new) else "f", new]
            f["was"] = True
            return ["cdef", p, t, old, copy.deepcopy(new)]
        if op == "rename":
            q = p[:-1] + [self.fresh(owner(u, p))]
            e = ["rename", p, q]
            self.defaults(p, e, before)
            f["n"] = q[-1]
            return e
        if op == "move":
            if not open_chain(u, p[:-1]):
                return None
            dests = [s for s in self.destinations(p, f) if list(s) != p[:-1]]
            if not dests:
                return None
            return self.planned(["move", p, list(d.pick(dests))], before)
        if op == "delete":
            return self.planned(["delete", p], before)
        if op == "map":
            fn = gen_fn(d, u, t)
            if fn is None:
                return None
            if "d" in f:
                f["d"] = ["f", fn_value(fn, f["d"][1])]
            e = ["map", p, fn]
            self.defaults(p, e, before)
            f["t"] = fn_type(fn, t)
            return e
        if op == "revalue":
            k = unopt(t)
            if kind(k) != "enum":
                return None
            # a new enum of the same variants, one with another value
            vs = copy.deepcopy(u["enums"][k[1]])
            i = d.n(len(vs) - 1)
            old = vs[i][1]
            new = next(x for x in ([77, 78, 79] if isinstance(old, int) else ["v1", "v2", "v3"]) if x not in [b for _, b in vs])
            vs[i][1] = new
            name = "%s_%d" % (k[1], len(u["enums"]))
            u["enums"][name] = vs
            f["t"] = subst(t, k[1], name)
            return ["map", p, ["table", [[old, new]]]]
        if op == "drop":
            # the default is removed: absent fields keep it by way of AddDefault
            if "d" not in f:
                return None
            e = ["adef", p, t, f["d"][1]]
            del f["d"]
            spec(u, owner(u, p)).sort(key=lambda x: "d" in x)
            return e
        if op in ("add", "adef"):
            s = list(d.pick(editable_structs(u)))
            p = s + [self.fresh(owner(u, s + ["?"]))]
            t = self.g.type(1)
            j = self.g.value(t)
            f = {"n": p[-1], "t": t}
            if op == "add":
                f["d"] = ["v" if hashable(t, j) else "f", j]
            e = [op, p, t, j]
            self.defaults(p, e, before)
            self.put(p, f)
            return e
        if op in ("check", "reject"):
            return self.restrict(op, p, f, before)
        return None

    def planned(self, edit, before):
        op, p = edit[:2]
        f, _ = field_at(self.u, p)
        if op == "move":
            q = edit[2] + [self.fresh(owner(self.u, edit[2] + ["?"]))]
            self.defaults(p, ["delete", p], before)
            if "d" in f:
                self.defaults(q, ["add", q, f["t"], f["d"][1]], before)
            f = self.take(p)
            f["n"] = q[-1]
            self.put(q, f)
            return ["rename", p, q]
        e = [op, p]
        if op == "dissolve":
            self.u.setdefault("gone", []).append([owner(self.u, p), p[-1]])
        self.defaults(p, ["delete", p], before)
        self.take(p)
        return e

    def restrict(self, op, p, f, before):
        """Some values are not allowed any more; the type may say so."""
        d, u = self.d, self.u
        t = f["t"]
        k = unopt(t)
        needed = []
        for i in range(1, len(p)):
            c, _ = field_at(u, p[:i])
            if "d" in c and c["d"][1] is not None:
                s = at(c["d"][1], p[i:])
                if s is not None:
                    needed.append(s[p[-1]])
        if "d" in f:
            needed.append(f["d"][1])
        needed = [x for x in needed if x is not None]
        if kind(k) == "lit":
            pool = k[1:]
        elif k == "str":
            pool = ["a", "b", "c", "abc", "", "1", "x y", "B", "d", "e"]
        elif k == "int":
            pool = list(range(0, 20))
        else:
            return None
        if op == "check":
            allowed = [x for x in pool if d.chance(60) and not member(x, needed)] + unique(needed)
            if not allowed:
                return None
            if kind(k) == "lit" or d.chance(60):
                f["t"] = ["lit"] + allowed if kind(t) != "opt" else ["opt", ["lit"] + allowed]
            return ["check", p, k, allowed]
        banned = [x for x in pool if d.chance(40) and not member(x, needed)]
        rest = [x for x in pool if not member(x, banned)]
        if not banned or not rest:
            return None
        if kind(k) == "lit":
            f["t"] = ["lit"] + rest if kind(t) != "opt" else ["opt", ["lit"] + rest]
        return ["reject", p, k, banned]


def unique(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def subst(t, a, b):
    if kind(t) == "opt":
        return ["opt", subst(t[1], a, b)]
    return ["enum", b]


def deep_universe(d, g):
    """Two chains of structs, which fields move between."""
    g.u = u = {"enums": {}, "structs": {}, "root": "Config"}
    tops = []
    for chain in (["P", "Q", "R"], ["X", "Y"]):
        inner = None
        for name in reversed(chain):
            fields = []
            for n in d.names(d.int(1, 2)):
                t = g.type(0) if not u["structs"] else d.pick(["int", "str", "float"])
                fields.append({"n": n, "t": t})
                if d.chance(85):
                    fields[-1]["d"] = ["v", g.value(t)]
            if inner:
                fields.append(nested(d, u, inner, {x["n"] for x in fields}))
            fields.sort(key=lambda f: "d" in f)
            u["structs"][name] = {"fields": fields}
            inner = name
        tops.append(inner)
    fields = []
    for name in tops:
        fields.append(nested(d, u, name, {x["n"] for x in fields}))
    fields.sort(key=lambda f: "d" in f)
    u["structs"]["Config"] = {"fields": fields}
    return u


def nested(d, u, name, used):
    f = {"n": d.names(1, used)[0], "t": ["st", name]}
    how = d.weighted([(5, "required"), (3, "default"), (1, "none"), (1, "optional")])
    if how in ("none", "optional"):
        f["t"] = ["opt", f["t"]]
    if how == "none":
        f["d"] = ["v", None]
    elif how != "required" and can_default(u, name):
        f["d"] = ["f", complete(u, ["st", name], {})]
    return f


def gen_history(d, n=None, edits=4, **kw):
    opts = dict(depth=d.int(0, 2), nstructs=(1, 4), inherit=False, bigint=False, nonfinite=False,
                required_nested=d.pick([30, 70]), defaults=d.pick([50, 80]), optionals=True)
    opts.update(kw)
    g = TypeGen(d, **opts)
    deep = opts["nstructs"][1] >= 3 and d.chance(10)
    u = deep_universe(d, g) if deep else g.universe()
    # optional structs are where absence matters
    for st in list(u["structs"].values()):
        for f in st["fields"]:
            if kind(f["t"]) == "st" and not deep and d.chance(25):
                f["t"] = ["opt", f["t"]]
                if "d" in f:
                    if d.chance(70):
                        f["d"] = ["v", None]
                elif d.chance(60):
                    f["d"] = ["v", None]
                st["fields"].sort(key=lambda x: "d" in x)
    fix_defaults(u, g)
    toposort(u)
    for name in list(u["structs"]):
        # the usual default_factory=Struct
        for f in spec(u, name):
            if kind(f["t"]) == "st" and can_default(u, f["t"][1]) and d.chance(30):
                f["d"] = ["f", complete(u, f["t"], {})]
        spec(u, name).sort(key=lambda x: "d" in x)
    unshare(u)
    us, steps = [copy.deepcopy(u)], []
    for _ in range(n if n is not None else d.int(1, 4)):
        es = []
        more = d.size(0, edits, 75)
        pending = []
        plan = []
        while more > 0 or pending or plan:
            g.u = u
            before = copy.deepcopy(u)
            evolver = Evolver(d, u, g, deep)
            if not pending and not plan and d.chance(12 if deep else 6):
                more -= 1
                plan = evolver.dissolution()
                if not plan:
                    continue
            if plan:
                e = evolver.edit(plan.pop(0))
            elif pending:
                e = evolver.struct_default(pending.pop(d.n(len(pending) - 1)))
            else:
                more -= 1
                e = evolver.edit()
                pending = evolver.pending if e is not None else []
            if e is not None and toposort(u):
                before["enums"] = copy.deepcopy(u["enums"])
                e = copy.deepcopy(e)
                es.append([e, before])
            else:
                u.clear()
                u.update(before)
            unshare(u)
        steps.append(es)
        us.append(copy.deepcopy(u))
    return {"v0": d.pick([0, 1, 5, 0, 1, 5, 8, 9, 98, 999]), "us": us, "steps": steps}, g


def unshare(u):
    """Values hold the defaults of inner structs by reference: separate them."""
    new = json.loads(json.dumps(u))
    u.clear()
    u.update(new)


def fix_defaults(u, g):
    """Struct defaults are values of the (changed) types."""
    for st in u["structs"].values():
        for f in st["fields"]:
            if "d" in f and f["d"][1] is not None and contains_struct(f["t"]):
                j = g.value(f["t"])
                f["d"] = ["v" if j is None else "f", j]
        st["fields"].sort(key=lambda x: "d" in x)


def contains_struct(t):
    return isinstance(t, list) and (t[0] in ("st", "un") or any(contains_struct(x) for x in t[1:]))


# ------------------------------------------------------------------ rules


def rule_of(edit, before):
    from hyperstate.schema import rewrite_rule as rr

    op, p = edit[0], edit[1]
    # paths are any sequences
    seq = list if sum(map(len, p)) % 2 else tuple
    if op == "rename":
        return rr.RenameField(seq(p), seq(edit[2]))
    if op == "delete":
        return rr.DeleteField(seq(p))
    if op == "map":
        return rr.MapFieldValue(seq(p), lambda x: fn_value(edit[2], x))
    if op == "cdef":
        return rr.ChangeDefault(seq(p), raw(before, edit[2], edit[3]), raw(before, edit[2], edit[4]))
    if op == "adef":
        return rr.AddDefault(seq(p), raw(before, edit[2], edit[3]))
    if op == "check":
        return rr.CheckValue(seq(p), set(edit[3]))
    if op == "reject":
        return rr.RejectValues(seq(p), set(edit[3]))
    return None


def rules_of(h):
    """{version: [rule, ...]}"""
    out = {}
    for i, es in enumerate(h["steps"]):
        rs = [r for r in (rule_of(e, b) for e, b in es) if r is not None]
        if rs or i % 2:
            out[h["v0"] + i] = rs
    if h["v0"] == 1:
        # any order will do
        out = dict(reversed(list(out.items())))
    return out


def replay(h, i, k, j, **kw):
    """The value j at us[i] carried to us[k]; raises Rejected."""
    j = copy.deepcopy(j)
    for es in h["steps"][i:k]:
        for e, before in es:
            affect(before, j, e, **kw)
    return j
