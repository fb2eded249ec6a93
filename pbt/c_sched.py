"""Hyperparameter schedules (C19, C20)."""
import dataclasses
import math
import os

import hyperstate
from core import Check, Skip, Violation
from c_serde import attempt, expect_same
from universe import Built, Doc, TypeGen, kind, ron, same

KINDS = ["lin", "cos", "step"]


def gen_number(d, integral=False):
    """(text, value)"""
    c = d.n(5)
    if c == 0:
        v = d.n(10)
        text = str(v)
    elif c == 1:
        v = d.n(1000)
        text = str(v)
    elif c == 2:
        text = "%d.%d" % (d.n(50), d.n(99))
    elif c == 3:
        text = "%de%d" % (d.int(1, 99), d.int(0, 6))
    elif c == 4:
        text = "%d.%de-%d" % (d.int(1, 9), d.n(9), d.int(1, 6))
    else:
        text = "0.%0*d" % (d.int(1, 4), d.n(9))
    if d.chance(20):
        text = "-" + text
    return text


def gen_schedule(d, xname, maxpoints=5):
    """{"text", "points": [[x, y]], "kinds": [...]}"""
    n = d.size(2, maxpoints, 55)
    xs = []
    x = 0.0
    if d.chance(35):
        x = float(gen_number(d))
    text_x = [repr(x) if d.chance(30) or x != int(x) else str(int(x))]
    xs.append(float(text_x[0]))
    while len(xs) < n:
        step = gen_number(d).lstrip("-")
        if float(step) < 1e-5:
            step = "1"
        nx = xs[-1] + float(step)
        text_x.append(repr(nx) if nx != int(nx) or d.chance(30) else str(int(nx)))
        if float(text_x[-1]) <= xs[-1]:
            text_x[-1] = str(int(xs[-1]) + 2)
        xs.append(float(text_x[-1]))
    ys = [gen_number(d) for _ in range(n)]
    kinds = []
    parts = ["%s@%s" % (ys[0], text_x[0])]
    for i in range(1, n):
        k = d.weighted([(40, "lin"), (35, "cos"), (25, "step")])
        kinds.append(k)
        # a kind holds until another one is named, and it is linear at first
        if k != (kinds[-2] if len(kinds) > 1 else "lin") or d.chance(50):
            parts.append(k)
        parts.append("%s@%s" % (ys[i], text_x[i]))
    return {"text": "%s: %s" % (xname, " ".join(parts)), "x": xname,
            "points": [[a, float(b)] for a, b in zip(xs, ys)], "kinds": kinds}


def reference(s, x):
    """(value, exact)"""
    pts, kinds = s["points"], s["kinds"]
    if x <= pts[0][0]:
        return pts[0][1], True
    if x >= pts[-1][0]:
        return pts[-1][1], True
    for i in range(len(kinds)):
        (x0, y0), (x1, y1) = pts[i], pts[i + 1]
        if x == x0:
            return y0, True
        if x0 < x < x1:
            r = (x - x0) / (x1 - x0)
            if kinds[i] == "step":
                return y0, True
            if kinds[i] == "lin":
                return y0 + (y1 - y0) * r, False
            return y0 + (y1 - y0) * (1 - math.cos(math.pi * r)) / 2, False
    raise AssertionError


def bounds(s, x):
    pts = s["points"]
    for i in range(len(pts) - 1):
        if pts[i][0] <= x < pts[i + 1][0]:
            return sorted((pts[i][1], pts[i + 1][1]))
    y = pts[0][1] if x < pts[0][0] else pts[-1][1]
    return [y, y]


def check_value(s, x, cls, got, what):
    want, exact = reference(s, x)
    if type(got) is not cls:
        raise Violation("%s: %s(%r) is %r, not a %s" % (what, s["text"], x, got, cls.__name__))
    scale = max([abs(y) for _, y in s["points"]] + [1e-300])
    eps = 0.0 if exact else 1e-9 * scale
    if cls is int:
        if int(want - eps) <= got <= int(want + eps):
            return
        raise Violation("%s: %s at %r is %r, expected %r truncated" % (what, s["text"], x, got, want))
    if not abs(got - want) <= eps:
        raise Violation("%s: %s at %r is %r, expected %r" % (what, s["text"], x, got, want))
    lo, hi = bounds(s, x)
    if not lo - 1e-12 * scale <= got <= hi + 1e-12 * scale:
        raise Violation("%s: %s at %r is %r, outside of [%r, %r]" % (what, s["text"], x, got, lo, hi))


class C19(Check):
    id = "C19"
    rule = ("random schedule strings of 2-16 points (ints, decimals, exponents, negative numbers) and segment kinds, evaluated at the "
            "points, around them, between, before and after; non-trivial: more than one segment or a segment that is not linear")
    quick = 400
    thorough = 8000

    def gen(self, d):
        s = gen_schedule(d, d.pick(["step", "epoch", "x"]), d.pick([5, 5, 5, 16]))
        xs = []
        pts = [p[0] for p in s["points"]]
        for p in pts:
            xs.append(p)
            xs.append(p + d.pick([-1, 1, 1e-3, -1e-3]))
        for a, b in zip(pts, pts[1:]):
            for _ in range(2):
                xs.append(a + (b - a) * d.n(1000) / 1000.0)
            xs.append((a + b) / 2)
        xs += [pts[0] - d.n(100), pts[-1] + d.n(1000), 0.0, -5.0, 1e12]
        xs = [int(x) if x == int(x) and d.chance(40) else x for x in xs]
        return {"s": s, "xs": d.shuffle(xs), "int": d.chance(30), "opt": d.chance(10)}

    def run(self, case, ctx):
        import typing

        s = case["s"]
        cls = int if case["int"] else float
        t = typing.Optional[cls] if case["opt"] else cls
        Config = dataclasses.make_dataclass("Config", [("before", int), ("lr", t), ("after", str)])
        State = dataclasses.make_dataclass("State", [(s["x"], float)])
        text = 'Config(before: 3, lr: "%s", after: "1@2")' % s["text"]
        cfg = hyperstate.loads(Config, text)
        check_value(s, 0.0, cls, cfg.lr, "after loading")
        path = os.path.join(ctx.dir(), "c.ron")
        with open(path, "w") as f:
            f.write(text)
        sm = hyperstate.StateManager(Config, State, lambda c, x: State(case["xs"][0]), init_path=path)
        for i, x in enumerate(case["xs"]):
            setattr(sm.state, s["x"], x)
            if i:
                sm.step()
            check_value(s, x, cls, sm.config.lr, "at x = %r" % (x,))
        if (sm.config.before, sm.config.after) != (3, "1@2"):
            raise Violation("other fields changed: %r" % (sm.config,))
        if len(s["kinds"]) > 1 or s["kinds"] != ["lin"]:
            ctx.mark(*s["kinds"])


class C20(Check):
    id = "C20"
    rule = ("random configs of nested dataclasses with schedules on random int and float fields at any depth, under random sequences of "
            "state changes, steps, checkpoints and restarts; non-trivial: at least two scheduled fields, or one below the top level")
    quick = 250
    thorough = 5000

    def gen(self, d):
        import json

        g = TypeGen(d, depth=1, scalars=("int", "float", "float", "str"), defaults=30, nstructs=(2, 5), nfields=(1, 3), unions=False,
                    required_nested=70, nonfinite=False, bigint=False, empty_structs=False)
        u = g.universe()
        doc = json.loads(json.dumps(Doc(u, None).root(g.root_value())))
        scheds = []
        self.place(d, u, ["st", u["root"]], doc, (), scheds)
        ops = []
        for _ in range(d.size(1, 10, 80)):
            ops.append(d.weighted([
                (5, ["set", d.pick(["step", "epoch", "x"]), d.n(30)]),
                (3, ["set", d.pick(["epoch", "x"]), d.n(300) / 7.0]),
                (5, ["step"]),
                (2, ["look"]),
                (1, ["edit"]),
                (1, ["save"]),
                (2, ["restart"]),
                (2, ["spoil", d.n(9)]),
            ]))
        over = None
        if scheds and d.chance(20):
            s = d.pick(scheds)
            over = [s[0], d.pick([None, gen_schedule(d, "step")])]
        return {"u": u, "doc": doc, "scheds": scheds, "ops": ops, "dir": d.chance(75), "over": over}

    def place(self, d, u, t, node, path, out):
        k = kind(t)
        if k == "opt" and node[0] != "none":
            self.place(d, u, t[1], node, path, out)
        elif k in ("int", "float") and d.chance(70):
            s = gen_schedule(d, d.pick(["step", "epoch", "x"]), 4)
            out.append([list(path), k, s])
            node[:] = ["str", s["text"]]
        elif k == "st":
            types = {f["n"]: f["t"] for f in u["structs"][t[1]]["fields"]}
            for n, x in node[2] if node[0] == "st" else []:
                self.place(d, u, types[n], x, path + (n,), out)

    def run(self, case, ctx):
        import pyron

        u = case["u"]
        b = Built(u)
        folder = ctx.dir()
        ckpt = os.path.join(folder, "run") if case["dir"] else None
        path = os.path.join(folder, "c.ron")
        with open(path, "w") as f:
            f.write(ron(case["doc"]))
        State = dataclasses.make_dataclass("State", [("step", int), ("epoch", float), ("x", float)])
        scheds = {tuple(p): (float if k == "float" else int, s) for p, k, s in case["scheds"]}
        overrides = []
        if case["over"]:
            p, s = case["over"]
            if s is None:
                overrides.append(".".join(p) + "=7")
                del scheds[tuple(p)]
            else:
                overrides.append('%s="%s"' % (".".join(p), s["text"]))
                scheds[tuple(p)] = (scheds[tuple(p)][0], s)
        inits = []

        def initial(cfg, extra):
            inits.append(1)
            return State(3, 1.5, 2.0)

        def manager():
            return hyperstate.StateManager(b.root, State, initial, init_path=path, checkpoint_dir=ckpt, overrides=list(overrides))

        def get(cfg, p):
            for n in p:
                cfg = getattr(cfg, n)
            return cfg

        def values(cfg):
            """The other fields, with scheduled ones blanked."""
            def walk(v, p):
                if dataclasses.is_dataclass(v):
                    return {f.name: walk(getattr(v, f.name), p + (f.name,)) for f in dataclasses.fields(v)}
                return None if p in scheds else v
            return walk(cfg, ())

        sm = manager()
        for p, (cls, s) in scheds.items():
            check_value(s, 0.0, cls, get(sm.config, p), "%s before the state is accessed" % ".".join(p))
        fixed = values(sm.config)
        model = {"step": 3, "epoch": 1.5, "x": 2.0}
        saved = None

        def check(what):
            for p, (cls, s) in scheds.items():
                check_value(s, applied[s["x"]], cls, get(sm.config, p), "%s %s" % (".".join(p), what))
            expect_same(fixed, values(sm.config), "fields without schedule " + what)

        def check_files(d):
            tree = pyron.load(os.path.join(d, "config.ron"), preserve_class_names=True)
            for p, (cls, s) in scheds.items():
                x = tree
                for n in p:
                    x = x[n]
                if x != s["text"]:
                    raise Violation("config.ron has %r for %s instead of the schedule %r" % (x, ".".join(p), s["text"]))

        sm.state
        applied = dict(model)
        check("after the state was accessed")
        n = 0
        for op in case["ops"]:
            if op[0] == "set":
                if op[1] == "step" and op[2] < model["step"]:
                    continue
                v = op[2] if op[1] == "step" else float(op[2])
                setattr(sm.state, op[1], v)
                model[op[1]] = v
                check("after setting the state")
            elif op[0] == "step":
                sm.step()
                applied = dict(model)
                if ckpt:
                    saved = saved if saved and saved["step"] == model["step"] else dict(model)
                    check_files(os.path.join(ckpt, "latest-step%012d" % model["step"]))
                check("after step()")
                ctx.label("step")
            elif op[0] == "look":
                sm.config, sm.state
                check("after looking at it")
            elif op[0] == "edit":
                for f in u["structs"][u["root"]]["fields"]:
                    if f["t"] == "str":
                        setattr(sm.config, f["n"], "edited")
                # only what reaches a checkpoint survives a restart: keep it out of the comparison
                fixed = values(sm.config)
                if ckpt:
                    sm.state.step += 1
                    model["step"] += 1
                    sm.step()
                    applied = dict(model)
                    saved = dict(model)
            elif op[0] == "spoil" and scheds:
                # the program assigns a scheduled field: the next step() brings it back, whatever the state is
                p = sorted(scheds)[op[1] % len(scheds)]
                at = get(sm.config, p[:-1])
                setattr(at, p[-1], scheds[p][0](12345))
                sm.step()
                applied = dict(model)
                if ckpt:
                    saved = saved if saved and saved["step"] == model["step"] else dict(model)
                check("after a scheduled field was assigned and step()")
            elif op[0] == "save":
                n += 1
                target = os.path.join(folder, "explicit%d" % n)
                sm.checkpoint(target)
                check_files(target)
                check("after checkpoint()")
                other = hyperstate.StateManager(b.root, State, initial, init_path=target)
                if same(dataclasses.asdict(other.state), model):
                    raise Violation("restored state %r instead of %r" % (other.state, model))
                for p, (cls, s) in scheds.items():
                    check_value(s, model[s["x"]], cls, get(other.config, p), "%s in the restored config" % ".".join(p))
                ctx.label("checkpoint")
            elif op[0] == "restart":
                if not saved:
                    continue
                sm = manager()
                for p, (cls, s) in scheds.items():
                    check_value(s, 0.0, cls, get(sm.config, p), "%s restored, before the state is accessed" % ".".join(p))
                sm.state
                model = dict(saved)
                applied = dict(model)
                check("after restoring")
                ctx.label("restart")
        if len(scheds) > 1 or any(len(p) > 1 for p in scheds):
            ctx.mark("nested schedule" if any(len(p) > 1 for p in scheds) else "several")
