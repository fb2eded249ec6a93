"""Versioned configs: rewrite rules, stamps, upgrade-config (C08-C13)."""
import copy
import dataclasses
import io
import json
import math
import os
import pathlib
import re
import sys
from typing import List

import hyperstate
from c_sched import gen_schedule
from c_serde import attempt, expect_same, is_error, mutate, override_text, paths_of, versioned_ns
from core import Check, Skip, Violation
from history import (Missing, Rejected, affect, at, can_default, complete, editable, editable_structs, field_at, fn_type, fn_value, gen_fn,
                     gen_history, owner, plain_chain, raw, replay, rule_of, rules_of, spec, thin, toposort, unopt)
from hyperstate.schema.rewrite_rule import MapFieldValue
from universe import Built, Doc, TypeGen, kind, ron


def build(u, version, rules=None, constant=True):
    if rules is not None and not constant:
        made = rules
        ns, bases = versioned_ns(version)
        ns["upgrade_rules"] = classmethod(lambda cls: made())
        return Built(u, extra={u["root"]: (ns, bases)})
    return Built(u, extra={u["root"]: versioned_ns(version, rules)})


def classes(h, constant=True):
    """The class of every version, with all rules up to it."""
    out = []
    for i, u in enumerate(h["us"]):
        v = h["v0"] + i

        def rules(v=v):
            return {k: r for k, r in rules_of(h).items() if k < v}

        out.append(build(u, v, rules() if constant else rules, constant))
    return out


def stamped(d, node, version):
    """The document with the version somewhere in the root struct."""
    item = ["version", ["num", str(version)]]
    i = 0 if d is None or d.chance(60) else d.n(len(node[2]))
    node[2].insert(i, item)
    return node


def text_of(u, j, version, anon=False):
    """anon: without the names of the classes."""
    node = json.loads(json.dumps(Doc(u, None, anon=anon).root(j)))
    return ron(stamped(None, node, version))


def gen_doc(d, g, h, i):
    """A partial value at us[i]; most of the time one that no check rejects."""
    u = h["us"][i]
    g.u = u
    for _ in range(4):
        j = thin(d, u, ["st", u["root"]], g.struct_value(u["root"], keep_default=25), d.pick([10, 40, 80]))
        try:
            replay(h, i, len(h["us"]) - 1, complete(u, ["st", u["root"]], j))
        except Rejected:
            if d.chance(85):
                continue
        break
    return j


def outcome(h, i, k, j):
    """("ok", complete value at us[k]), ("bad", why), or ("any", value) if only an old default is rejected."""
    u = h["us"][i]
    full = complete(u, ["st", u["root"]], j)
    try:
        replay(h, i, k, j, partial=True)
    except Rejected as e:
        return "bad", str(e)
    try:
        return "ok", replay(h, i, k, full)
    except Rejected:
        return "any", replay(h, i, k, full, check=False)


def loader(how, cls, text, folder, overrides=None):
    if how == "loads":
        return attempt(hyperstate.loads, cls, text, overrides)
    path = os.path.join(folder, "c.ron")
    with open(path, "w") as f:
        f.write(text)
    if how == "load":
        return attempt(hyperstate.load, cls, path, overrides)
    sm = hyperstate.StateManager(cls, cls, lambda c, x: None, init_path=path, overrides=overrides)
    return attempt(lambda: sm.config)


def labels(h, ctx, i, k):
    for es in h["steps"][i:k]:
        for e, _ in es:
            ctx.label("rule:" + e[0])


class C09(Check):
    id = "C09"
    rule = ("random histories of 1-4 versions with up to 4 edits each, and documents of any version with any defaulted fields and "
            "structs left out, loaded at every later version; non-trivial: some rule names a field or struct of the document or its defaults")
    quick = 180
    thorough = 4000

    def gen(self, d):
        h, g = gen_history(d)
        docs = []
        for _ in range(d.int(1, 3)):
            i = d.n(len(h["us"]) - 2)
            docs.append([i, gen_doc(d, g, h, i)])
        return {"h": h, "docs": docs, "constant": d.chance(50), "how": d.pick(["loads", "load", "sm"]), "anon": d.chance(25)}

    def run(self, case, ctx):
        h = case["h"]
        cls = classes(h, case["constant"])
        n = len(cls)
        for i, j in case["docs"]:
            u = h["us"][i]
            text = text_of(u, j, h["v0"] + i, case["anon"])
            if any(es for es in h["steps"][i:]):
                ctx.mark()
            labels(h, ctx, i, n)
            for k in range(i, n):
                want = outcome(h, i, k, j)
                for again in range(2):
                    got = loader(case["how"], cls[k].root, text, ctx.dir())
                    what = "version %d loaded at version %d%s\n%s\nwith rules %r\n" % (
                        h["v0"] + i, h["v0"] + k, " once more" if again else "", text,
                        [rule_of(e, b) for es in h["steps"][i:k] for e, b in es if rule_of(e, b)])
                    ctx.label("outcome:" + want[0])
                    if want[0] == "bad":
                        if got[0] == "ok":
                            raise Violation("%s accepted as %r, although %s" % (what, got[1], want[1]))
                    elif got[0] == "error":
                        if want[0] == "ok":
                            raise Violation("%s rejected: %r\nexpected %r" % (what, got[1], want[1]))
                    else:
                        expect_same(cls[k].root_value(want[1]), got[1], what)


class C11(Check):
    id = "C11"
    rule = ("random histories of 2-5 versions and documents of the first ones; non-trivial: at least two versions with rules are crossed")
    quick = 150
    thorough = 3500

    def gen(self, d):
        h, g = gen_history(d, n=d.int(2, 5), edits=3)
        i = d.n(len(h["us"]) - 3)
        return {"h": h, "i": i, "doc": gen_doc(d, g, h, i), "elide": [d.chance(40) for _ in h["us"]], "constant": d.chance(50),
                "files": d.chance(40), "anon": d.chance(25)}

    def run(self, case, ctx):
        h, i = case["h"], case["i"]
        cls = classes(h, case["constant"])
        text = text_of(h["us"][i], case["doc"], h["v0"] + i, case.get("anon"))
        labels(h, ctx, i, len(cls))
        if sum(1 for es in h["steps"][i:] if es) > 1:
            ctx.mark()
        step = text
        for k in range(i, len(cls)):
            want = outcome(h, i, k, case["doc"])
            if want[0] == "any":
                return
            direct = attempt(hyperstate.loads, cls[k].root, text)
            stepped = attempt(hyperstate.loads, cls[k].root, step)
            what = "version %d to %d\n%s\nagainst version by version, the last one being\n%s\n" % (h["v0"] + i, h["v0"] + k, text, step)
            if direct[0] != stepped[0]:
                raise Violation("%s: %r but %r" % (what, direct, stepped))
            if direct[0] == "error":
                if want[0] == "ok":
                    raise Violation("%s both were rejected: %r" % (what, direct[1]))
                ctx.label("rejected")
                return
            expect_same(direct[1], stepped[1], what, zero_sign=False)
            if case["files"]:
                path = os.path.join(ctx.dir(), "c.ron")
                hyperstate.dump(stepped[1], path, elide_defaults=case["elide"][k])
                with open(path) as f:
                    step = f.read()
            else:
                step = hyperstate.dumps(stepped[1], elide_defaults=case["elide"][k])
            tree = parse(step)
            if [x for x in tree if x != "!__name__"][:1] != ["version"] or tree["version"] != h["v0"] + k:
                raise Violation("%s: dumped without the version %d in front:\n%s" % (what, h["v0"] + k, step))
            expect_same(direct[1], hyperstate.loads(cls[k].root, step), "%s dumped and loaded again\n%s\n" % (what, step), zero_sign=False)


def parse(text):
    import pyron

    return pyron.loads(text, preserve_class_names=True)


def alone(u, name, j, p):
    """Only what must be there and the field at the path."""
    out = {}
    for f in spec(u, name):
        n, t = f["n"], f["t"]
        if n not in j:
            continue
        if n == p[0]:
            st = unopt(t)
            if len(p) > 1 and j[n] is not None and kind(st) == "st":
                out[n] = alone(u, st[1], j[n], p[1:])
            else:
                out[n] = j[n]
        elif not ("d" in f or (kind(t) == "st" and can_default(u, t[1]))):
            out[n] = alone(u, t[1], j[n], [None]) if kind(t) == "st" else j[n]
    return out


class C10(Check):
    id = "C10"
    rule = ("one rewrite rule with arbitrary parameters applied to random documents in which any field or struct may be absent or None; "
            "non-trivial: the rule names a field that the document's structs have")
    quick = 500
    thorough = 12000

    def gen(self, d):
        h, g = gen_history(d, n=0)
        u = h["us"][0]
        before = copy.deepcopy(u)
        paths = editable(u)
        op = d.pick(["cdef", "adef", "rename", "delete", "map", "check", "reject", "move"])
        if not paths:
            raise Skip()
        # deep paths are the interesting ones
        deep = [p for p in paths if len(p) > 1]
        p = list(d.pick(deep if deep and d.chance(60) else paths))
        f, _ = field_at(u, p)
        t = f["t"]
        docs = []
        for _ in range(d.int(1, 4)):
            full = g.root_value()
            docs.append(alone(before, before["root"], full, p) if d.chance(25) else thin(d, before, ["st", before["root"]], full, d.pick([0, 30, 70])))
        if op == "map" and d.chance(15):
            return self.gen_raw(d)
        edit = self.edit(d, g, u, op, p, f, t)
        return {"before": before, "after": u, "edit": edit, "docs": docs, "v": d.pick([0, 3]), "how": d.pick(["loads", "load", "sm"]),
                "anon": d.chance(30)}

    def gen_raw(self, d):
        """Documents whose values are equal to each other and yet differ."""
        pool = [["num", "0"], ["num", "1"], ["num", "2"], ["bool", False], ["bool", True], ["num", "0.0"], ["num", "1.0"], ["str", "1"], ["str", ""],
                ["none"], ["list", []], ["list", [["num", "1"]]], ["list", [["num", "1.0"]]], ["list", [["bool", True]]], ["str", "[1]"]]
        return {"raw": [d.pick(pool) for _ in range(d.int(2, 8))], "deep": d.chance(50), "v": d.pick([0, 3]), "how": d.pick(["loads", "load", "sm"])}

    def run_raw(self, case, ctx):
        v, deep = case["v"], case["deep"]
        seen = []

        def fn(x):
            seen.append(x)
            return [type(x).__name__, repr(x), str(len(seen))]

        p = ["inner", "x"] if deep else ["x"]
        rule = MapFieldValue(p, fn)
        Inner = dataclasses.make_dataclass("Inner", [("x", List[str])])
        ns, bases = versioned_ns(v + 1, {v: [rule]})
        Config = dataclasses.make_dataclass("Config", [("inner", Inner)] if deep else [("x", List[str])], bases=bases, namespace=ns)
        python = {"num": lambda s: float(s) if "." in s else int(s), "bool": bool, "str": str, "list": lambda xs: [value(x) for x in xs]}

        def value(node):
            return None if node[0] == "none" else python[node[0]](node[1])

        for i, node in enumerate(case["raw"]):
            s = ron(node)
            text = "Config(version: %d, %s)" % (v, "inner: Inner(x: %s)" % s if deep else "x: %s" % s)
            got = loader(case["how"], Config, text, ctx.dir())
            x = value(node)
            want = [type(x).__name__, repr(x), str(i + 1)]
            if got[0] == "error":
                raise Violation("%s rejected: %r" % (text, got[1]))
            y = got[1].inner.x if deep else got[1].x
            if y != want:
                raise Violation("%s loaded as %r, but its function gives %r" % (text, y, want))
            if len(seen) != i + 1:
                raise Violation("%s: the function was called %d times for %d documents" % (text, len(seen), i + 1))
        ctx.mark("raw")

    def edit(self, d, g, u, op, p, f, t):
        own = owner(u, p)
        fields = spec(u, own)

        def fresh(s):
            return d.names(1, {x["n"] for x in spec(u, s)})[0]

        def resort(s=own):
            spec(u, s).sort(key=lambda x: "d" in x)

        if op == "cdef":
            old, new = g.value(t), g.value(t)
            f["d"] = ["f", new]
            resort()
            # struct defaults that contain the field stay as they are
            return ["cdef", p, t, old, new]
        if op == "adef":
            j = g.value(t)
            if d.chance(70):
                f.pop("d", None)
                resort()
            return ["adef", p, t, j]
        if op == "rename":
            old = f["n"]
            f["n"] = fresh(own)
            e = ["rename", p, p[:-1] + [f["n"]]]
            self.struct_defaults(u, p, lambda s: s.__setitem__(f["n"], s.pop(old)) if old in s else None)
            return e
        if op == "move":
            if not plain_chain(u, p[:-1]):
                raise Skip()
            dests = [list(x) for x in editable_structs(u) if plain_chain(u, x) and x[: len(p)] != tuple(p)]
            dests = [s for s in dests if s != p[:-1]]
            if not dests:
                raise Skip()
            s = d.pick(dests)
            own2 = owner(u, s + ["?"])
            if own2 == own:
                raise Skip()
            fields.remove(f)
            f["n"] = fresh(own2)
            spec(u, own2).append(f)
            resort(own2)
            toposort(u)
            return ["rename", p, s + [f["n"]]]
        if op == "delete":
            fields.remove(f)
            self.struct_defaults(u, p, lambda s: s.pop(f["n"], None))
            return ["delete", p]
        if op == "map":
            fn = gen_fn(d, u, t)
            if fn is None:
                raise Skip()
            f["t"] = fn_type(fn, t)
            self.struct_defaults(u, p, lambda s: s.__setitem__(f["n"], g.value(f["t"])) if f["n"] in s else None)
            if "d" in f:
                f["d"] = ["f", g.value(f["t"])]
            return ["map", p, fn]
        k = unopt(t)
        if kind(k) == "lit":
            pool = k[1:]
        elif k == "int":
            pool = [0, 1, 2, 3, 5, 7]
        elif k == "str":
            pool = ["a", "b", "c", "", "abc", "1"]
        elif k == "float":
            pool = [0.0, 1.0, 2.5, 0.1]
        elif k == "bool":
            pool = [True, False]
        else:
            raise Skip()
        return [op, p, k, d.subset(pool, 50)]

    def struct_defaults(self, u, p, change):
        for i in range(1, len(p)):
            c, _ = field_at(u, p[:i])
            if c is not None and "d" in c and c["d"][1] is not None:
                s = at(c["d"][1], p[i:])
                if s is not None:
                    change(s)

    def effect(self, case, j):
        """The document that remains, or Rejected."""
        edit, u = case["edit"], case["before"]
        op, p = edit[0], edit[1]
        j = copy.deepcopy(j)
        s = at(j, p)
        there = s is not None and p[-1] in s
        if op in ("cdef", "adef"):
            if there:
                return j
            # absent: create the structs on the way only where they would exist anyway
            cur, name = j, u["root"]
            for seg in p[:-1]:
                f = next(x for x in spec(u, name) if x["n"] == seg)
                if seg not in cur:
                    if "d" in f or kind(f["t"]) != "st":
                        return j
                    cur[seg] = {}
                cur = cur[seg]
                if cur is None:
                    return j
                name = unopt(f["t"])[1]
            cur[p[-1]] = copy.deepcopy(edit[3])
            return j
        if not there:
            return j
        if op == "rename":
            v = s.pop(p[-1])
            cur = j
            for seg in edit[2][:-1]:
                cur = cur.setdefault(seg, {})
            cur[edit[2][-1]] = v
        elif op == "delete":
            del s[p[-1]]
        elif op == "map":
            s[p[-1]] = fn_value(edit[2], s[p[-1]])
        elif op == "check":
            if s[p[-1]] is not None and s[p[-1]] not in edit[3]:
                raise Rejected("%r is not allowed" % (s[p[-1]],))
        elif op == "reject":
            if s[p[-1]] is not None and s[p[-1]] in edit[3]:
                raise Rejected("%r is not allowed any more" % (s[p[-1]],))
        return j

    def run(self, case, ctx):
        if "raw" in case:
            return self.run_raw(case, ctx)
        v = case["v"]
        rule = rule_of(case["edit"], case["before"])
        new = build(case["after"], v + 1, {v: [rule]})
        ctx.label("rule:" + case["edit"][0])
        for j in case["docs"]:
            text = text_of(case["before"], j, v, case["anon"])
            what = "rule %r (%r) on\n%s\n" % (rule, case["edit"], text)
            s = at(j, case["edit"][1])
            if s is None:
                ctx.label("struct absent or None")
            else:
                ctx.mark("present" if case["edit"][1][-1] in s else "absent")
            u = case["after"]
            try:
                want = complete(u, ["st", u["root"]], self.effect(case, j))
            except (Rejected, Missing) as e:
                want = e
            got = loader(case["how"], new.root, text, ctx.dir())
            if isinstance(want, Exception):
                ctx.label("rejected")
                if got[0] == "ok":
                    raise Violation("%s accepted as %r, although %r" % (what, got[1], want))
            elif got[0] == "error":
                raise Violation("%s rejected: %r\nexpected %r" % (what, got[1], want))
            else:
                expect_same(new.root_value(want), got[1], what)
            # at the current version the rule does not apply
            if not isinstance(want, Exception):
                text = text_of(u, want, v + 1, case["anon"])
                expect_same(new.root_value(want), hyperstate.loads(new.root, text), "at the current version\n%s\n" % text)


class C08(Check):
    id = "C08"
    rule = ("random histories, documents of old versions and 1-4 overrides of fields of the current version; non-trivial: a rule names an "
            "overridden field (by its current or an old name) or one next to it")
    quick = 200
    thorough = 4500

    def gen(self, d):
        if d.chance(30):
            return self.gen_nested(d)
        h, g = gen_history(d)
        i = d.n(len(h["us"]) - 2)
        doc = gen_doc(d, g, h, i)
        u = h["us"][-1]
        g.u = u
        want = outcome(h, i, len(h["us"]) - 1, doc)
        if want[0] != "ok":
            raise Skip()
        full = want[1]
        # fields that a rule has touched, under the name that they have now
        touched = set()
        for es in h["steps"][i:]:
            for e, _ in es:
                touched = {q for p in touched for q in [moved(p, e)] if q is not None}
                touched.add(tuple(e[2] if e[0] == "rename" else e[1]))
        ovs = []
        paths = [(p, t) for p, t in paths_of(u) if self.reachable(u, doc, full, h, i, p)]
        hot = [x for x in paths if x[0] in touched]
        if not paths:
            raise Skip()
        for _ in range(d.size(1, 4)):
            path, t = d.pick(hot if hot and d.chance(65) else paths)
            if any(list(path)[: len(o[0])] == o[0] or o[0][: len(path)] == list(path) for o in ovs if o[0] != list(path)):
                continue
            j = g.value(t)
            text, _ = override_text(d, t, j, u)
            ovs.append([list(path), text, j])
        old = []
        for v, es in enumerate(h["steps"]):
            for n, (e, _) in enumerate(es):
                p = tuple(e[1])
                if e[0] in ("rename", "delete") and self.type_at(u, p) is None:
                    # a value that fits the field that it became
                    t = self.type_at(u, self.later(h, v, n, p) or ())
                    old.append([list(p), override_text(d, t, g.value(t), u)[0] if t is not None else d.pick(["1", "True", "x"])])
        return {"h": h, "i": i, "doc": doc, "overrides": ovs, "old": d.pick(old) if old and d.chance(60) else None, "how": d.pick(["loads", "load", "sm"]), "constant": d.chance(50),
                "anon": d.chance(25), "hot": any(tuple(o[0]) in touched for o in ovs)}

    def later(self, h, v, n, p):
        """The current path of a field, given before an edit."""
        for w in range(v, len(h["steps"])):
            for e, _ in h["steps"][w][n if w == v else 0:]:
                p = p and moved(p, e)
        return p

    def type_at(self, u, path):
        t = ["st", u["root"]] if path else None
        for seg in path:
            t = unopt(t)
            if kind(t) != "st":
                return None
            t = next((f["t"] for f in spec(u, t[1]) if f["n"] == seg), None)
            if t is None:
                return None
        return t

    def gen_nested(self, d):
        """Versioned classes inside the config, with rules of their own."""
        u, g, vers = gen_versions(d)
        doc = thin(d, u, ["st", u["root"]], g.root_value(), d.pick([0, 40]))
        doc = copy.deepcopy(doc)
        stamp_all(d, u, ["st", u["root"]], doc, vers)
        ovs = []
        paths = paths_of(u)
        deep = [x for x in paths if len(x[0]) > 1 or kind(unopt(x[1])) == "st"]
        for _ in range(d.size(1, 4, 70)):
            path, t = d.pick(deep if deep and d.chance(80) else paths)
            j = copy.deepcopy(g.value(t))
            stamp_all(d, u, t, j, vers)
            text, _ = override_text(d, t, j, u, StampDoc)
            ovs.append([list(path), text, j])
        return {"u": u, "vers": vers, "doc": doc, "overrides": ovs, "how": d.pick(["loads", "load", "sm"])}

    def run_nested(self, case, ctx):
        u, vers = case["u"], case["vers"]
        root = ["st", u["root"]]
        b = Built(u, extra=traced(vers))
        want = copy.deepcopy(case["doc"])
        # outermost rules first, those of nested structs when something inside is overridden or they are loaded
        trace(vers, u["root"], want)
        inner = set()
        for path, _, j in case["overrides"]:
            cur, name = want, u["root"]
            for seg in path[:-1]:
                name = unopt(next(f["t"] for f in spec(u, name) if f["n"] == seg))[1]
                if cur.get(seg) is None:
                    cur[seg] = {}
                elif name in vers and trace(vers, name, cur[seg]):
                    inner.add(name)
                cur = cur[seg]
            cur[path[-1]] = copy.deepcopy(j)
        versioned_structs(u, root, want, lambda name, fields: trace(vers, name, fields))
        try:
            obj = b.root_value(complete(u, root, want))
        except Missing:
            raise Skip()
        text = ron(StampDoc(u, None).root(case["doc"]))
        texts = ["%s=%s" % (".".join(p), s) for p, s, _ in case["overrides"]]
        got = loader(case["how"], b.root, text, ctx.dir(), texts)
        if inner:
            ctx.mark("overrides a field inside a versioned struct that its rules change")
        ctx.label("nested versions")
        what = "overrides %r, versions %r\n%s\n" % (texts, vers, text)
        if got[0] == "error":
            raise Violation("%s rejected: %r\nexpected %r" % (what, got[1], obj))
        expect_same(obj, got[1], what)

    def reachable(self, u, doc, full, h, i, p):
        """Whether setting the field leaves the others alone: its structs exist without a default of their own."""
        if plain_chain(u, p[:-1]):
            return True
        cur = full
        for seg in p[:-1]:
            if cur is None:
                return False
            cur = cur.get(seg)
        if cur is None:
            return False
        # present in the document under the same name throughout
        cur = doc
        for seg in p[:-1]:
            if not isinstance(cur, dict) or seg not in cur:
                return False
            cur = cur[seg]
        for es in h["steps"][i:]:
            for e, _ in es:
                for q in [e[1]] + ([e[2]] if e[0] == "rename" else []):
                    if list(p[: len(q)]) == list(q) and len(q) < len(p):
                        return False
        return cur is not None

    def run(self, case, ctx):
        if "vers" in case:
            return self.run_nested(case, ctx)
        h, i = case["h"], case["i"]
        k = len(h["us"]) - 1
        b = classes(h, case["constant"])[k]
        want = outcome(h, i, k, case["doc"])[1]
        for p, _, j in case["overrides"]:
            cur = want
            for seg in p[:-1]:
                cur = cur[seg]
                if cur is None:
                    raise Skip()
            cur[p[-1]] = copy.deepcopy(j)
        text = text_of(h["us"][i], case["doc"], h["v0"] + i, case.get("anon"))
        texts = ["%s=%s" % (".".join(p), s) for p, s, _ in case["overrides"]]
        got = loader(case["how"], b.root, text, ctx.dir(), texts)
        labels(h, ctx, i, k)
        if case["hot"]:
            ctx.mark("overrides a field that a rule names")
        what = "overrides %r on version %d\n%s\nwith rules %r\n" % (
            texts, h["v0"] + i, text, [rule_of(e, x) for es in h["steps"][i:k] for e, x in es if rule_of(e, x)])
        if got[0] == "error":
            raise Violation("%s rejected: %r\nexpected %r" % (what, got[1], want))
        expect_same(b.root_value(want), got[1], what)
        if case.get("old"):
            name = ".".join(case["old"][0])
            bad = "%s=%s" % (name, case["old"][1])
            got = loader(case["how"], b.root, text, ctx.dir(), texts + [bad])
            ctx.label("a former name")
            if got[0] == "ok":
                raise Violation("%s accepts %r as well, which is no field of the current version, as %r" % (what, bad, got[1]))
            if name not in str(got[1]):
                raise Violation("%s and %r: the error does not name it: %r" % (what, bad, got[1]))


def moved(p, e):
    """The path after an edit, or None if it is gone."""
    if e[0] == "rename" and list(p[: len(e[1])]) == list(e[1]):
        return tuple(e[2]) + tuple(p[len(e[1]):])
    if e[0] == "delete" and list(p[: len(e[1])]) == list(e[1]):
        return None
    return p


# ------------------------------------------------------------------ stamps


def versioned_structs(u, t, j, f, path="value"):
    """Calls f(name, j) for every struct value inside j."""
    k = kind(t)
    if j is None:
        return
    if k == "opt":
        versioned_structs(u, t[1], j, f, path)
    elif k == "list":
        for x in j:
            versioned_structs(u, t[1], x, f)
    elif k == "tup":
        for x, y in zip(t[1:], j):
            versioned_structs(u, x, y, f)
    elif k == "dict":
        for _, x in j:
            versioned_structs(u, t[2], x, f)
    elif k in ("st", "un"):
        name, fields = (t[1], j) if k == "st" else (j[0], j[1])
        f(name, fields)
        types = {x["n"]: x["t"] for x in spec(u, name)}
        for n, x in fields.items():
            if n in types:
                versioned_structs(u, types[n], x, f)


class StampDoc(Doc):
    """Writes the stamp that a value carries in its key "!v" ([position, version])."""

    def struct(self, name, j, named=False):
        j = dict(j)
        stamp = j.pop("!v", None)
        node = Doc.struct(self, name, j, named)
        if stamp is not None:
            node[2].insert(min(stamp[0], len(node[2])), ["version", ["num", str(stamp[1])]])
        return node


def gen_versions(d, unversioned_root=False):
    """A universe in which the root (maybe) and some nested classes are versioned: (u, generator, versions and rules by class)."""
    g = TypeGen(d, depth=d.int(1, 2), inherit=False, required_nested=50, bigint=False, nonfinite=False)
    u = g.universe()
    vers = {}
    root = unversioned_root and d.chance(20)
    for name in u["structs"]:
        if name == u["root"] and not root or name != u["root"] and d.chance(60):
            vers[name] = {"v": d.pick([0, 1, 2, 3, 7]), "rules": []}
            for v in range(vers[name]["v"]):
                if d.chance(60):
                    vers[name]["rules"].append([v, d.int(0, 3)])
            vers[name]["rules"] = d.shuffle(vers[name]["rules"])
            u["structs"][name]["fields"].append({"n": "trace_", "t": "str", "d": ["v", ""]})
    return u, g, vers


def stamp_all(d, u, t, j, vers):
    """Stamps every versioned struct of the value with some version; their number."""
    n = 0

    def put(name, fields):
        nonlocal n
        if name in vers:
            fields["!v"] = [d.pick([0, 0, 1, 9]), d.n(vers[name]["v"])]
            if "trace_" in fields and d.chance(50):
                del fields["trace_"]
            n += 1

    versioned_structs(u, t, j, put)
    return n


def trace(vers, name, fields):
    """Replaces the stamp by the marks of the rules that apply; the versions that have any."""
    stamp = fields.pop("!v", None)
    if stamp is None:
        return []
    marks = ""
    applied = []
    for v in range(stamp[1], vers[name]["v"]):
        for i in range(dict(map(tuple, vers[name]["rules"])).get(v, 0)):
            marks += "%s %d.%d;" % (name, v, i)
            applied.append((name, v))
    if marks:
        fields["trace_"] = fields.get("trace_", "") + marks
    return applied


def traced(vers):
    """The class attributes of versioned classes whose rules record their application in a field."""
    from hyperstate.schema.rewrite_rule import RewriteRule

    class Trace(RewriteRule):
        def __init__(self, mark):
            self.mark = mark

        def apply(self, state_dict):
            if "version" in state_dict:
                raise Violation("a rule is shown the stamp: %r" % (state_dict,))
            state_dict["trace_"] = state_dict.get("trace_", "") + self.mark
            return state_dict

        def apply_to_schema(self, schema):
            pass

    extra = {}
    for name, s in vers.items():
        rules = {v: [Trace("%s %d.%d;" % (name, v, i)) for i in range(n)] for v, n in s["rules"]}
        extra[name] = versioned_ns(s["v"], rules)
    return extra


class C12(Check):
    id = "C12"
    rule = ("random universes with a versioned root (80 %) and versioned nested classes (in optionals, containers and unions), every instance "
            "of a document stamped with a random older version, rules that record their application in a field; "
            "non-trivial: rules of at least two versions, or of nested instances, apply")
    quick = 250
    thorough = 5000

    def gen(self, d):
        u, g, vers = gen_versions(d, True)
        docs = []
        for _ in range(d.int(1, 3)):
            j = copy.deepcopy(thin(d, u, ["st", u["root"]], g.root_value(), d.pick([0, 40])))
            n = stamp_all(d, u, ["st", u["root"]], j, vers)
            docs.append([j, d.n(max(0, n))])
        return {"u": u, "vers": vers, "docs": docs, "how": d.pick(["loads", "load", "sm"]), "elide": d.chance(50)}

    def run(self, case, ctx):
        u, vers = case["u"], case["vers"]
        extra = traced(vers)
        b = Built(u, extra=extra)
        root = ["st", u["root"]]
        for j, drop in case["docs"]:
            text = ron(StampDoc(u, None).root(j))
            want = copy.deepcopy(j)  # stamps are replaced by the marks of their rules
            applied = set()

            versioned_structs(u, root, want, lambda name, fields: applied.update(trace(vers, name, fields)))
            try:
                obj = b.root_value(complete(u, root, want))
            except Missing:
                raise Skip()
            got = loader(case["how"], b.root, text, ctx.dir())
            what = "versions %r\n%s\n" % (vers, text)
            if got[0] == "error":
                raise Violation("%s rejected: %r" % (what, got[1]))
            expect_same(obj, got[1], what)
            if len(applied) > 1 or any(n != u["root"] for n, _ in applied):
                ctx.mark("rules apply")
            # stamps of dumps
            for elide in (case["elide"], not case["elide"]):
                text2 = hyperstate.dumps(got[1], elide_defaults=elide)
                self.stamps(u, vers, parse(text2), got[1], text2)
                expect_same(got[1], hyperstate.loads(b.root, text2), "dumped and loaded\n%s\n" % text2, zero_sign=False)
            # one stamp missing
            k = -1
            bad = copy.deepcopy(j)
            gone = []

            def remove(name, fields):
                nonlocal k
                if "!v" in fields:
                    k += 1
                    if k == drop:
                        del fields["!v"]
                        gone.append(name)

            versioned_structs(u, root, bad, remove)
            if u["root"] not in vers:
                # the manager of a config without versions takes nested structs without stamp for current ones
                ctx.label("root without version")
                gone = gone if case["how"] != "sm" else []
            if gone:
                text3 = ron(StampDoc(u, None).root(bad))
                got3 = loader(case["how"], b.root, text3, ctx.dir())
                if got3[0] == "ok":
                    raise Violation("the stamp of a %s is missing, but it loads as %r\n%s" % (gone[0], got3[1], text3))
                ctx.label("stamp missing")
        # no file: the defaults of now, without rules
        try:
            plain = b.root_value(complete(u, root, {}))
        except Missing:
            return
        expect_same(plain, hyperstate.load(b.root, None), "loaded without a file")
        sm = hyperstate.StateManager(b.root, b.root, lambda c, x: None)
        expect_same(plain, sm.config, "manager without a file")
        ctx.label("no file")

    def stamps(self, u, vers, tree, value, text):
        import dataclasses

        if dataclasses.is_dataclass(value) and isinstance(tree, dict):
            name = type(value).__name__
            keys = [k for k in tree if k != "!__name__"]
            if name in vers:
                if not keys or keys[0] != "version" or tree["version"] != vers[name]["v"]:
                    raise Violation("a %s is dumped without version %d in front:\n%s" % (name, vers[name]["v"], text))
            elif "version" in keys:
                raise Violation("a %s is dumped with a version:\n%s" % (name, text))
            for k in keys:
                if k != "version":
                    self.stamps(u, vers, tree[k], getattr(value, k), text)
        elif isinstance(value, (list, tuple)):
            for x, y in zip(tree, value):
                self.stamps(u, vers, x, y, text)
        elif isinstance(value, dict):
            for k in value:
                self.stamps(u, vers, tree[k], value[k], text)


# ------------------------------------------------------------------ upgrade-config


def cli(cls, args):
    """Runs the schema evolution command line; (exit status, output)."""
    import hyperstate

    argv, out, err = sys.argv, sys.stdout, sys.stderr
    sys.argv = ["prog"] + args
    sys.stdout = sys.stderr = buf = io.StringIO()
    try:
        hyperstate.schema_evolution_cli(cls)
        status = 0
    except SystemExit as e:
        status = e.code or 0
    except BaseException as e:
        if not is_error(e):
            raise
        status = repr(e)
    finally:
        sys.argv, sys.stdout, sys.stderr = argv, out, err
    return status, buf.getvalue()


class C13(Check):
    id = "C13"
    rule = ("random histories and 1-3 files of random versions, with schedules in fields that no rule touches, given to upgrade-config with "
            "and without --dry-run and --include-defaults; non-trivial: a rule applies to a file or it has a schedule")
    quick = 120
    thorough = 2500

    def gen(self, d):
        h, g = gen_history(d, n=d.int(1, 3))
        touched = {p[-1] for es in h["steps"] for e, _ in es for p in ([e[1], e[2]] if e[0] == "rename" else [e[1]])}
        files = []
        for _ in range(d.int(1, 3)):
            i = d.n(len(h["us"]) - 1)
            u = h["us"][i]
            j = gen_doc(d, g, h, i)
            scheds = []
            self.schedules(d, u, u["root"], j, (), touched, scheds)
            if outcome(h, i, len(h["us"]) - 1, j)[0] != "ok":
                continue
            files.append([i, j, scheds, d.pick([None, 2, 4])])
        if not files:
            raise Skip()
        return {"h": h, "files": files, "include": d.chance(40), "bad": self.bad(d, h, files) if d.chance(40) else None}

    def bad(self, d, h, files):
        """A file that does not load, most likely."""
        i, j, _, indent = d.pick(files)
        node = stamped(None, json.loads(json.dumps(Doc(h["us"][i], None).root(j))), h["v0"] + i)
        how = d.pick(["extra", "mutated", "mutated", "cut", "unstamped", "future"])
        if how == "extra":
            cur = node
            while cur[0] == "st":
                inner = [x for _, x in cur[2] if x[0] == "st"]
                if not inner or d.chance(50):
                    cur[2].insert(d.n(len(cur[2])), ["zzz", ["num", "1"]])
                    break
                cur = d.pick(inner)
        elif how == "mutated":
            node = mutate(d, [node[0], node[1], [x for x in node[2] if x[0] != "version"]], d.int(1, 2))
            if node[0] == "st":
                stamped(None, node, h["v0"] + i)
        elif how == "unstamped":
            node[2] = [x for x in node[2] if x[0] != "version"]
        elif how == "future":
            node = stamped(None, [node[0], node[1], [x for x in node[2] if x[0] != "version"]], d.pick(["x", None, -1, 2.5]))
        text = ron(node, indent)
        # the upgrade from a version of minus many takes for ever
        text = re.sub(r"version: -?\d{4,}", "version: -1", text)
        return text[: d.n(len(text))] if how == "cut" else text

    def schedules(self, d, u, name, j, path, touched, out):
        for f in spec(u, name):
            n = f["n"]
            if n not in j or n in touched or j[n] is None:
                continue
            t = f["t"]
            if t in ("int", "float") and d.chance(35):
                text = gen_schedule(d, "step", 4)["text"]
                if "d" in f and f["d"][1] is not None and abs(f["d"][1]) < 1e9 and d.chance(40):
                    # starts with the default
                    text = re.sub(": [^@]*@", lambda m: ": %r@" % f["d"][1], text, 1)
                out.append([list(path) + [n], text])
            elif kind(unopt(t)) == "st":
                self.schedules(d, u, unopt(t)[1], j[n], path + (n,), touched, out)

    def run(self, case, ctx):
        h = case["h"]
        last = len(h["us"]) - 1
        u = h["us"][last]
        b = classes(h)[last]
        folder = ctx.dir()
        paths, texts, before, scheds = [], [], [], []
        for n, (i, j, sc, indent) in enumerate(case["files"]):
            node = json.loads(json.dumps(Doc(h["us"][i], None).root(j)))
            for p, s in sc:
                cur = node
                for seg in p[:-1]:
                    cur = dict(cur[2])[seg]
                next(x for x in cur[2] if x[0] == p[-1])[1] = ["str", s]
            text = ron(stamped(None, node, h["v0"] + i), indent)
            path = os.path.join(folder, "f%d.ron" % n)
            with open(path, "w") as f:
                f.write(text)
            paths.append(path)
            texts.append(text)
            if sc or any(h["steps"][i:]):
                ctx.mark("schedule" if sc else "rules")
            got = attempt(hyperstate.load, b.root, path)
            if got[0] == "error":
                raise Violation("version %d does not load: %r\n%s" % (h["v0"] + i, got[1], text))
            before.append(got[1])
            scheds.append(self.recorded(b, path))
        flags = ["--include-defaults"] if case["include"] else []
        status, out = cli(b.root, ["upgrade-config", "--dry-run"] + flags + paths)
        if status != 0:
            raise Violation("upgrade-config --dry-run: status %r\n%s" % (status, out))
        for path, text in zip(paths, texts):
            if open(path).read() != text:
                raise Violation("--dry-run changed the file\n%s\ninto\n%s" % (text, open(path).read()))
        status, out = cli(b.root, ["upgrade-config"] + flags + paths)
        if status != 0:
            raise Violation("upgrade-config: status %r\n%s\nfiles %s" % (status, out, "\n".join(texts)))
        if sorted(os.listdir(folder)) != ["f%d.ron" % n for n in range(len(paths))]:
            raise Violation("upgrade-config left %r" % sorted(os.listdir(folder)))
        once = []
        for path, text, obj, sc in zip(paths, texts, before, scheds):
            new = open(path).read()
            once.append(new)
            what = "upgraded\n%s\ninto\n%s\n" % (text, new)
            tree = parse(new)
            if [k for k in tree if k != "!__name__"][:1] != ["version"] or tree["version"] != h["v0"] + last:
                raise Violation("%s not stamped with the current version" % what)
            got = attempt(hyperstate.load, b.root, path)
            if got[0] == "error":
                raise Violation("%s which does not load: %r" % (what, got[1]))
            expect_same(obj, got[1], what, zero_sign=False)
            if self.recorded(b, path) != sc:
                raise Violation("%s schedules %r became %r" % (what, sc, self.recorded(b, path)))
            for p, s in sc:
                x = tree
                for seg in p:
                    x = x[seg] if isinstance(x, dict) else None
                if x != s:
                    raise Violation("%s the schedule %r of %s became %r" % (what, s, p, x))
            self.defaults(u, u["root"], tree, b, obj, case["include"], what, {tuple(p) for p, _ in sc})
            # loading the upgraded file applies no rules
            bare = build(u, h["v0"] + last, {})
            expect_same(obj, hyperstate.load(bare.root, path), what + "without rules", exact_class=False, zero_sign=False)
        status, out = cli(b.root, ["upgrade-config"] + flags + paths)
        for path, new in zip(paths, once):
            if open(path).read() != new:
                raise Violation("upgrading again changed\n%s\ninto\n%s" % (new, open(path).read()))
        if case.get("bad") is not None:
            path = os.path.join(folder, "bad.ron")
            with open(path, "w") as f:
                f.write(case["bad"])
            if attempt(hyperstate.load, b.root, path)[0] == "ok":
                return
            ctx.label("bad file")
            status, out = cli(b.root, ["upgrade-config"] + flags + [path])
            with open(path) as f:
                text = f.read()
            if text != case["bad"] or status == 0:
                raise Violation("upgrade-config of a file that does not load: status %r, and it has become\n%s\ninstead of\n%s" % (status, text, case["bad"]))

    def recorded(self, b, path):
        """[path, text] of the schedules that a manager runs for the file."""
        @dataclasses.dataclass
        class Now:
            step: int = 0

        sm = hyperstate.StateManager(b.root, Now, lambda c, x: Now(), init_path=path)
        out = []
        folder = os.path.join(os.path.dirname(path) + ".ck")

        def walk(t, p):
            for k, v in t.items():
                if not isinstance(k, str):
                    continue
                if isinstance(v, str) and "@" in v:
                    out.append([p + [k], v])
                elif isinstance(v, dict):
                    walk(v, p + [k])

        import shutil

        sm.checkpoint(folder)
        with open(os.path.join(folder, "config.ron")) as f:
            tree = parse(f.read())
        shutil.rmtree(folder)
        ints = []
        walk(tree, [])
        return [x for x in out if isinstance(getattr_path(sm.config, x[0]), (int, float))]

    def defaults(self, u, name, tree, b, obj, include, what, scheduled, path=()):
        for f in spec(u, name):
            n = f["n"]
            v = getattr(obj, n)
            t = f["t"]
            there = n in tree
            if include and not there:
                raise Violation("%s %s is left out" % (what, ".".join(path + (n,))))
            if not there and "d" not in f:
                raise Violation("%s %s is required, but left out" % (what, ".".join(path + (n,))))
            if not include and "d" in f and t in ("int", "float", "str", "bool") and path + (n,) not in scheduled:
                default = b.value(t, f["d"][1])
                same = v == default or (v != v and default != default)
                if t == "int" and not -(2**63) <= v < 2**63 or t == "float" and v in (math.inf, -math.inf):
                    continue  # written as strings
                if same and there and v == v:
                    raise Violation("%s %s equals its default, but is written" % (what, ".".join(path + (n,))))
                if not same and not there:
                    raise Violation("%s %s differs from its default, but is left out" % (what, ".".join(path + (n,))))
            k = unopt(t)
            if kind(k) == "st" and there and isinstance(tree[n], dict) and v is not None:
                self.defaults(u, k[1], tree[n], b, v, include, what, scheduled, path + (n,))


def getattr_path(obj, path):
    for p in path:
        obj = getattr(obj, p, None)
    return obj
