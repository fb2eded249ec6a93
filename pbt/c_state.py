"""StateManager: checkpoints, restoring, crashes and failures (C21-C24, C31, C32)."""
import copy
import ctypes
import dataclasses
import json
import os
import pathlib
import shutil

import hyperstate
import payload
from c_rules import cli
from c_sched import check_value, gen_schedule
from c_serde import attempt, expect_same, override_text, versioned_ns
from core import Check, HarnessError, Skip, Violation
from universe import Built, Doc, TypeGen, kind, ron, same


class Blob(hyperstate.Serializable):
    """Keeps whatever data it is given."""

    def __init__(self, data):
        self.data = data

    def serialize(self):
        return self.data

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        return cls(state_dict)

    def payload_differ(self, other, path):
        if type(other) is not type(self):
            return "%s: %r instead of a %s" % (path, other, type(self).__name__)
        return payload.differ(self.data, other.data, path)

    def __repr__(self):
        return "%s(%.300r)" % (type(self).__name__, self.data)


class Params(Blob):
    pass


class Buffer(Blob):
    """False while it is empty."""

    def __len__(self):
        return len(self.data) if isinstance(self.data, (list, dict, str)) else 0


PY = {"Params": (Params, lambda p: Params(payload.build(p))), "Buffer": (Buffer, lambda p: Buffer(payload.build(p)))}


def struct_paths(u, name=None, prefix=()):
    """(path, type) of all fields that are reached through dataclasses only."""
    for f in u["structs"][name or u["root"]]["fields"]:
        yield prefix + (f["n"],), f["t"]
        if kind(f["t"]) == "st":
            yield from struct_paths(u, f["t"][1], prefix + (f["n"],))


def get_path(obj, path):
    for n in path:
        obj = getattr(obj, n)
    return obj


def set_path(obj, path, value):
    setattr(get_path(obj, path[:-1]), path[-1], value)


def gen_program(d, small=False, sched=40, blobs=3, versions=15):
    """A config class with a config file, and a state class with an initial state."""
    key = d.pick(["step", "epoch", "n_iter", "step_", "i"])
    size = dict(nstructs=(1, 2), nfields=(1, 3)) if small else dict(nstructs=(1, 3), nfields=(1, 4))
    g = TypeGen(d, depth=1 if small else d.int(1, 2), required_nested=55, **size)
    u = g.universe()
    doc = json.loads(json.dumps(Doc(u, None).root(g.root_value())))
    scheds = []
    if d.chance(sched):
        place(d, u, u["root"], doc, (), scheds, [key, "progress"])
    vers = {n: d.n(4) for n in u["structs"] if d.chance(versions)}
    for n, v in vers.items():
        stamp(u, ["st", u["root"]], doc, n, v)
    h = TypeGen(d, depth=1, required_nested=60, inherit=False, **size)
    su = h.universe()
    root = su["structs"].pop("Config")
    root["fields"] = [f for f in root["fields"] if f["n"] not in (key, "progress")]
    names = [n for n in d.pick([("params", "buffer", "ema", "net_"), ("net", "Net", "net_"), ("q", "qq", "Q")]) if n not in [f["n"] for f in root["fields"]]]
    bl = {n: d.pick(["Params", "Buffer"]) for n in names[: d.n(blobs)]}
    su["structs"]["State"] = root
    su["root"] = "State"
    value = h.struct_value("State")
    front = [{"n": key, "t": "int"}, {"n": "progress", "t": "float"}] + [{"n": n, "t": ["py", c]} for n, c in bl.items()]
    value.update({key: d.pick([0, 0, 1, 50, 999]), "progress": float(d.n(20))})
    for n in bl:
        value[n] = payload.gen(d, 1 if small else 2)
    plain = [f for f in root["fields"] if "d" not in f]
    root["fields"] = d.shuffle(front + plain) + [f for f in root["fields"] if "d" in f]
    return {"key": key, "u": u, "doc": doc, "scheds": scheds, "versions": vers, "su": su, "state": value, "blobs": bl,
            "lazy": bool(bl) or d.chance(30)}


def place(d, u, name, node, path, out, xs):
    types = {f["n"]: f["t"] for f in u["structs"][name]["fields"]}
    for n, x in node[2]:
        t = types[n]
        if t in ("int", "float") and d.chance(45):
            s = gen_schedule(d, d.pick(xs), 4)
            out.append([list(path + (n,)), t, s])
            x[:] = ["str", s["text"]]
        elif kind(t) == "st":
            place(d, u, t[1], x, path + (n,), out, xs)


def stamp(u, t, node, name, version):
    """Writes the version into every struct `name` of a plain document."""
    k = kind(t)
    if node[0] == "none":
        return
    if k == "opt":
        stamp(u, t[1], node, name, version)
    elif k == "list":
        for x in node[1]:
            stamp(u, t[1], x, name, version)
    elif k == "tup":
        for x, y in zip(t[1:], node[1]):
            stamp(u, x, y, name, version)
    elif k == "dict":
        for _, x in node[1]:
            stamp(u, t[2], x, name, version)
    elif k in ("st", "un"):
        cls = node[1] if k == "un" else t[1]
        types = {f["n"]: f["t"] for f in u["structs"][cls]["fields"]}
        for n, x in node[2]:
            if n != "version":
                stamp(u, types[n], x, name, version)
        if cls == name:
            node[2].insert(0, ["version", ["num", str(version)]])


class Program:
    def __init__(self, case, folder):
        p = self.p = case
        self.folder = folder
        self.b = Built(p["u"], {n: versioned_ns(v) for n, v in p["versions"].items()})
        self.sb = Built(p["su"], {"State": ({}, (hyperstate.Lazy,))} if p["lazy"] else {}, PY)
        self.file = os.path.join(folder, "config.ron")
        with open(self.file, "w") as f:
            f.write(ron(p["doc"]))
        self.scheds = {tuple(path): (float if k == "float" else int, s) for path, k, s in p["scheds"]}
        self.types = {"config": dict(struct_paths(p["u"])), "state": dict(struct_paths(p["su"]))}
        self.built = {"config": self.b, "state": self.sb}
        self.key = p["key"]
        self.inits = []
        self.saves = 0

    def initial(self, config, ctx):
        self.inits.append((config, ctx))
        return self.sb.root_value(self.p["state"])

    def manager(self, directory=None, init=None, **kw):
        return hyperstate.StateManager(self.b.root, self.sb.root, self.initial, init_path=init if init is not None else self.file,
                                       checkpoint_dir=directory, checkpoint_key=self.key, **kw)

    def first(self):
        """[config, state] at the start of a run, from the document alone."""
        cfg = hyperstate.load(self.b.root, self.file)
        return [cfg, self.sb.root_value(self.p["state"])]

    def compare(self, model, sm, what, lazy=True, sched=True, applied=None):
        """The model against a manager; lazy=False leaves blobs alone."""
        cfg, st = sm.config, sm.state
        expect_same(self.blank(model[0]), self.blank(cfg), "config " + what)
        for f in dataclasses.fields(self.sb.root):
            if not lazy and f.name in self.p["blobs"]:
                continue
            expect_same(getattr(model[1], f.name), getattr(st, f.name), "state.%s %s" % (f.name, what))
        if sched:
            for path, (cls, s) in self.scheds.items():
                x = getattr(applied or model[1], s["x"])
                check_value(s, x, cls, get_path(cfg, path), "config.%s %s" % (".".join(path), what))

    def matches(self, model, sm):
        """None if the manager is at the model, else where it differs."""
        try:
            self.compare(model, sm, "")
        except Violation as e:
            return str(e)

    def blank(self, cfg):
        if not self.scheds:
            return cfg
        out = copy.deepcopy(cfg)
        for path in self.scheds:
            set_path(out, path, None)
        return out

    # ---- operations: the same on a manager and on the model
    def apply(self, op, config, state):
        k = op[0]
        if k == "set":
            _, which, path, j = op
            set_path(config if which == "config" else state, path, self.built[which].value(self.types[which][tuple(path)], j))
        elif k == "blob":
            _, name, pl, how = op
            if how == "assign":
                setattr(state, name, PY[self.p["blobs"][name]][1](pl))
            else:
                getattr(state, name).data = payload.build(pl)
        elif k == "touch":
            for n in op[1]:
                getattr(state, n)
        elif k == "key":
            setattr(state, self.key, getattr(state, self.key) + op[1])
        elif k == "progress":
            state.progress = float(op[1])
        else:
            raise AssertionError(op)


MUTATE = ("set", "blob", "touch", "key", "progress")


def gen_mutation(d, p):
    g = TypeGen(d)
    sp = {tuple(x[0]) for x in p["scheds"]}
    opts = [(4, "state"), (4, "key"), (1, "progress")]
    cp = [(path, t) for path, t in struct_paths(p["u"]) if not any(s[: len(path)] == path for s in sp)]
    if cp:
        opts.append((2, "config"))
    if p["blobs"]:
        opts += [(4, "blob"), (2, "touch")]
    k = d.weighted(opts)
    if k == "key":
        return ["key", d.weighted([(6, 1), (2, d.int(1, 20)), (1, 10**6), (1, 0), (1, -1), (1, d.int(-20, -1))])]
    if k == "progress":
        return ["progress", d.n(60) / 2.0]
    if k == "blob":
        return ["blob", d.pick(list(p["blobs"])), payload.gen(d, 1), d.pick(["assign", "inplace"])]
    if k == "touch":
        return ["touch", d.subset(list(p["blobs"]))]
    if k == "config":
        path, t = d.pick(cp)
        g.u = p["u"]
        return ["set", "config", list(path), g.value(t)]
    sps = [(path, t) for path, t in struct_paths(p["su"]) if path not in ((p["key"],), ("progress",)) and kind(t) != "py"]
    if not sps:
        return ["key", 1]
    path, t = d.pick(sps)
    g.u = p["su"]
    return ["set", "state", list(path), g.value(t)]


def tree(path, mtimes=False):
    """{relative name: contents, or None for a folder}"""
    out = {}
    for base, dirs, files in os.walk(path):
        for n in dirs:
            full = os.path.join(base, n)
            out[os.path.relpath(full, path)] = ("link", os.readlink(full)) if os.path.islink(full) else None
        for n in files:
            full = os.path.join(base, n)
            with open(full, "rb") as f:
                data = f.read()
            out[os.path.relpath(full, path)] = (data, os.stat(full).st_mtime_ns, os.stat(full).st_mode) if mtimes else data
    return out


def tree_differ(a, b):
    if a == b:
        return None
    lines = []
    for n in sorted(set(a) | set(b)):
        if n not in b:
            lines.append("%s is gone" % n)
        elif n not in a:
            lines.append("%s is new" % n)
        elif a[n] != b[n]:
            lines.append("%s changed: %.300r -> %.300r" % (n, a[n], b[n]))
    return "; ".join(lines[:6])


def latest(folder):
    return sorted(n for n in os.listdir(folder) if n.startswith("latest-"))


def gen_ops(d, p, n=(1, 14), extra=()):
    ops = []
    for _ in range(d.size(*n, 88)):
        k = d.weighted([(6, "mutate"), (4, "step")] + list(extra))
        if k == "mutate":
            ops.append(gen_mutation(d, p))
        elif k == "step":
            if d.chance(70):
                ops.append(["key", 1])
            ops.append(["step"])
        else:
            ops.append([k] if isinstance(k, str) else k)
    return ops


class C21(Check):
    id = "C21"
    rule = ("random programs (config and state classes, schedules, lazy blobs, versions) run twice with the same operations, one of "
            "them restarted from its checkpoint again and again; non-trivial: a restart after which there was another step")
    quick = 90
    thorough = 1500
    quick_s = 60

    def gen(self, d):
        p = gen_program(d)
        ops = gen_ops(d, p, (2, 14), [(3, "restart"), (1, "peek"), (1, "save")])
        return {"p": p, "ops": ops}

    def run(self, case, ctx):
        folder = ctx.dir()
        prog = Program(case["p"], folder)
        key = prog.key
        dirs = [os.path.join(folder, "a"), os.path.join(folder, "b")]
        one, two = prog.manager(dirs[0]), prog.manager(dirs[1])
        model = prog.first()
        one.state, two.state
        applied = copy.deepcopy(model[1])
        saved, dirty, restarted = None, True, False

        def compare(what, lazy):
            prog.compare(model, one, "of the program that was not restarted, %s" % what, lazy=True, applied=applied)
            prog.compare(model, two, "of the restarted program, %s" % what, lazy=lazy, applied=applied)
            for path in prog.scheds:
                expect_same(get_path(one.config, path), get_path(two.config, path), "scheduled %s %s" % (".".join(path), what))

        def step():
            nonlocal saved, dirty, applied
            one.step()
            two.step()
            applied = copy.deepcopy(model[1])
            if saved is None or getattr(saved[1], key) != getattr(model[1], key):
                saved = copy.deepcopy(model)
                dirty = False
            m = tree_differ(tree(dirs[0]), tree(dirs[1]))
            if m:
                raise Violation("the checkpoints of the two programs differ: " + m)
            compare("after step()", False)

        for op in case["ops"] + [["restart"], ["key", 1], ["step"], ["restart"]]:
            k = op[0]
            if k in MUTATE:
                for c, s in (model, (one.config, one.state), (two.config, two.state)):
                    prog.apply(op, c, s)
                if k != "touch":
                    dirty = True
                compare("after %r" % (op,), False)
            elif k == "step":
                step()
                if restarted:
                    ctx.mark("step after restart")
            elif k == "restart":
                advanced = False
                if dirty:
                    while saved and getattr(saved[1], key) == getattr(model[1], key) or not advanced:
                        advanced = True
                        for c, s in (model, (one.config, one.state), (two.config, two.state)):
                            prog.apply(["key", 1], c, s)
                    step()
                two = prog.manager(dirs[1])
                restarted = True
                ctx.label("restart")
                compare("after restarting", False)
            elif k == "peek" and saved:
                other = prog.manager(dirs[1])
                prog.compare(saved, other, "of a program restored from the latest checkpoint")
                ctx.label("peek")
            elif k == "save":
                prog.saves += 1
                target = os.path.join(folder, "saved%d" % prog.saves)
                two.checkpoint(target)
                other = prog.manager(None, target)
                prog.compare(model, other, "of a program restored from an explicit checkpoint")
                ctx.label("save")
        compare("at the end", True)
        if prog.p["blobs"]:
            ctx.label("blobs")
        if prog.scheds:
            ctx.label("schedules")
        if prog.p["versions"]:
            ctx.label("versions")


# ------------------------------------------------------------------ crashes and failures


class Shim:
    COUNT, CRASH, CRASH_AFTER, FAIL_ONCE, FAIL_FROM, FULL_FROM = range(6)

    def __init__(self):
        self.lib = ctypes.CDLL(os.environ["VERIF_SHIM"])
        self.lib.shim_trace.restype = ctypes.c_char_p

    def arm(self, prefix, mode, n, err=5, device=None, norename=0):
        self.lib.shim_norename(norename)
        self.lib.shim_arm(prefix.encode(), device.encode() if device else None, mode, n, err)

    def disarm(self):
        return self.lib.shim_disarm()

    def trace(self):
        return self.lib.shim_trace().decode("utf8", "replace").splitlines()


def child(f):
    """Runs f in a forked process; (exit status, JSON value that f returned or None)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            try:
                out = f()
            except Violation as e:
                out = {"violation": str(e)}
            data = json.dumps(out).encode()
            while data:
                data = data[os.write(w, data):]
            code = 0
        except BaseException:
            import traceback

            try:
                os.write(w, json.dumps({"crash": traceback.format_exc()[-3000:]}).encode())
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        chunk = os.read(r, 65536)
        if not chunk:
            break
        data += chunk
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return -os.WTERMSIG(status), None
    return os.WEXITSTATUS(status), json.loads(data.decode()) if data else None


class Faults(Check):
    """A run up to some point, then one operation that is hit at every file system operation."""

    shim = True

    def gen(self, d):
        p = gen_program(d, small=True, sched=25, blobs=2, versions=10)
        ops = gen_ops(d, p, (0, 6), [(1, "restart"), (1, "save")])
        tail = []
        for _ in range(d.size(1, 3)):
            tail.append(gen_mutation(d, p))
        for op in ops + tail:
            if op[0] == "key":
                # the latest checkpoint is the one with the highest key, so there is no order among those of a key that decreases
                op[1] = abs(op[1])
        return {"p": p, "ops": ops, "tail": tail, "victim": d.weighted([(5, "step"), (2, "save")]), "xdev": d.chance(45),
                "inside": d.chance(40), "modes": d.sample([3, 4, 5], 2), "errs": d.sample([5, 13, 28], 1), "again": d.chance(30),
                "norename": d.pick([5, 13, 28, 1]) if d.chance(50) else 0,
                "pick": d.n(1000)}

    def start(self, case, ctx):
        """Runs the operations before the victim."""
        self.base = ctx.dir()
        self.tmp = os.path.join(self.base, "tmp")
        os.mkdir(self.tmp)
        import tempfile

        tempfile.tempdir = self.tmp
        os.environ["TMPDIR"] = self.tmp
        self.work = os.path.join(self.base, "work")
        os.mkdir(self.work)
        prog = self.prog = Program(case["p"], self.work)
        self.dir = os.path.join(self.work, "run")
        self.shim_ = Shim()
        sm = prog.manager(self.dir)
        model = prog.first()
        sm.state
        saved = copy.deepcopy(model)
        saved_key = None
        self.explicit = {}
        for op in case["ops"]:
            if op[0] in MUTATE:
                prog.apply(op, *model)
                prog.apply(op, sm.config, sm.state)
            elif op[0] == "step":
                sm.step()
                if getattr(model[1], prog.key) != saved_key:
                    saved_key = getattr(model[1], prog.key)
                    saved = copy.deepcopy(model)
            elif op[0] == "save":
                t = self.target(case)
                sm.checkpoint(t)
                self.explicit[t] = copy.deepcopy(model)
            elif op[0] == "restart":
                sm = prog.manager(self.dir)
                sm.state
                model = copy.deepcopy(saved)
        for op in case["tail"] + [["key", 1]]:
            prog.apply(op, *model)
            prog.apply(op, sm.config, sm.state)
        if case["victim"] == "save":
            self.victim_target = self.target(case)
        else:
            self.victim_target = os.path.join(self.dir, "latest-%s%012d" % (prog.key, getattr(model[1], prog.key)))
        self.sm, self.model, self.saved = sm, model, saved
        self.device = self.tmp if case["xdev"] else None

    def target(self, case):
        self.prog.saves += 1
        return os.path.join(self.dir if case["inside"] else self.work, "keep%d" % self.prog.saves)

    def victim(self, case):
        if case["victim"] == "save":
            self.sm.checkpoint(self.victim_target)
        else:
            self.sm.step()

    def count(self, case, norename=0):
        """The file system operations of the victim."""
        def f():
            self.shim_.arm(self.base, Shim.COUNT, 0, 0, self.device, norename)
            r = attempt(lambda: self.victim(case))
            n = self.shim_.disarm()
            if r[0] == "error" and not norename:
                raise r[1]
            return {"n": n, "trace": self.shim_.trace()}

        status, out = child(f)
        if status != 0 or out is None or "n" not in out:
            raise Violation("%s fails without any fault: %r" % (case["victim"], out))
        if out["n"] < 1:
            raise HarnessError("the shim sees no file system operations")
        if len(out["trace"]) != out["n"]:
            out["trace"] += ["?"] * (out["n"] - len(out["trace"]))
        return out["trace"]

    def snapshot(self):
        self.copy = os.path.join(self.base, "copy")
        shutil.copytree(self.work, self.copy, symlinks=True)

    def restore(self):
        for d in (self.work, self.tmp):
            shutil.rmtree(d)
        shutil.copytree(self.copy, self.work, symlinks=True)
        os.mkdir(self.tmp)


class C22(Faults):
    id = "C22"
    rule = ("random programs, histories and one final step() or checkpoint(), during which the process dies before every file system "
            "operation and after a part of every write, with the temporary directory on the same or (simulated) another device; "
            "non-trivial: there is an earlier checkpoint or another device")
    quick = 7
    thorough = 120
    quick_s = 100
    level = "fault_enumeration"

    def run(self, case, ctx):
        self.start(case, ctx)
        self.snapshot()
        trace = self.count(case)
        self.restore()
        before = tree(self.work)
        points = []
        for i, what in enumerate(trace):
            points.append((Shim.CRASH, i))
            if what.split(" ")[0] in ("write", "sendfile", "writev", "pwrite"):
                points.append((Shim.CRASH_AFTER, i))
        points.append((Shim.CRASH, len(trace)))
        for mode, i in points:
            self.restore()
            what = "crash %s operation %d of %d (%s)" % ("before" if mode == Shim.CRASH else "amid", i, len(trace), trace[i] if i < len(trace) else "end")
            self.crash(case, mode, i, what)
            self.verify(case, what, before, i == len(trace))
            if case["again"] and (i + case["pick"]) % 4 == 0:
                self.second(case, what)
        ctx.label("victim:" + case["victim"])
        ctx.label("device:" + ("other" if case["xdev"] else "same"))
        if case["xdev"] or latest(self.copy + "/run"):
            ctx.mark("crash points: %d+" % (len(points) // 20 * 20))

    def crash(self, case, mode, i, what):
        def f():
            self.shim_.arm(self.base, mode, i, 0, self.device)
            self.victim(case)
            self.shim_.disarm()
            return {}

        status, out = child(f)
        if status not in (0, 77):
            raise Violation("%s: the process ended with %s %r" % (what, status, out))

    def verify(self, case, what, before, finished):
        prog = self.prog
        after = tree(self.work)
        # explicit checkpoints and the config file are as before
        for t in list(self.explicit) + [prog.file]:
            rel = os.path.relpath(t, self.work)
            for n in before:
                if (n == rel or n.startswith(rel + "/")) and before[n] != after.get(n, 0):
                    raise Violation("%s: %s changed" % (what, n))
        r = attempt(lambda: self.fresh())
        if r[0] == "error":
            raise Violation("%s: a new manager fails to restore: %r\nfiles: %s" % (what, r[1], sorted(after)))
        sm = r[1]
        olds = [("the last finished step", self.saved)]
        news = [("the step being saved", self.model)] if case["victim"] == "step" else []
        if finished and news:
            olds = []
        diffs = []
        for name, m in olds + news:
            x = prog.matches(m, sm)
            if x is None:
                break
            diffs.append("not %s: %s" % (name, x))
        else:
            raise Violation("%s: the restored state is %s\nfiles: %s" % (what, "\n".join(diffs), sorted(after)))
        if case["victim"] == "save" and os.path.exists(self.victim_target):
            other = prog.manager(None, self.victim_target)
            prog.compare(self.model, other, "of the explicit checkpoint, " + what)
        elif case["victim"] == "save" and finished:
            raise Violation("checkpoint() did not save anything")

    def fresh(self):
        sm = self.prog.manager(self.dir)
        sm.config
        for f in dataclasses.fields(sm.state):
            getattr(sm.state, f.name)
        return sm

    def second(self, case, what):
        """The restarted program makes a step, and dies in it too."""
        prog = self.prog
        keep = self.sm, self.model, self.saved, self.victim_target, self.explicit
        try:
            sm = self.fresh()
            old = self.model if prog.matches(self.model, sm) is None else self.saved
            new = copy.deepcopy(old)
            k = getattr(self.model[1], prog.key)
            if case["pick"] // 4 % 2 or k <= getattr(old[1], prog.key):
                k = max(k, getattr(self.saved[1], prog.key)) + 1
            for st in (new[1], sm.state):
                setattr(st, prog.key, k)
            self.sm, self.model, self.saved = sm, new, old
            self.explicit = {}
            sub = dict(case, victim="step")
            trace = self.count_only(sub)
            i = case["pick"] % (len(trace) + 1)
            before = tree(self.work)
            self.crash(sub, Shim.CRASH, i, what)
            self.verify(sub, what + ", then a second crash before operation %d of the next step" % i, before, i == len(trace))
        finally:
            self.sm, self.model, self.saved, self.victim_target, self.explicit = keep

    def count_only(self, case):
        side = os.path.join(self.base, "side")
        shutil.copytree(self.work, side, symlinks=True)
        try:
            return self.count(case)
        finally:
            shutil.rmtree(self.work)
            os.rename(side, self.work)
            shutil.rmtree(self.tmp)
            os.mkdir(self.tmp)


class C31(Faults):
    id = "C31"
    rule = ("random programs, histories and one final step() or checkpoint(), every file system operation of which fails once, or from "
            "there on, or for lack of space, with the temporary directory on the same or (simulated) another device; then the same "
            "manager goes on; non-trivial: there is an earlier checkpoint or another device")
    quick = 6
    thorough = 100
    quick_s = 100
    level = "fault_enumeration"

    def run(self, case, ctx):
        self.start(case, ctx)
        self.snapshot()
        trace = self.count(case)
        self.restore()
        traces = {0: trace}
        norename = case["norename"]
        if norename:
            traces[norename] = self.count(case, norename)
            self.restore()
        before = tree(self.work)
        failed = 0
        plan = [(mode, i, 0) for mode in case["modes"] for i in range(len(trace))]
        # no rename works, and one other operation fails as well
        plan += [(Shim.FAIL_ONCE, i, norename) for i in range(len(traces[norename])) if norename]
        for mode, i, norename in plan:
            trace = traces[norename]
            self.restore()
            err = 28 if mode == Shim.FULL_FROM else case["errs"][0]
            what = "error %d in operation %d of %d (%s)%s" % (err, i, len(trace), trace[i], {3: "", 4: " and all later ones", 5: " and all later ones that need space"}[mode])
            if norename:
                what += " and error %d in every rename" % norename

            status, out = child(lambda: self.fault(case, mode, i, err, what, before, norename))
            if status != 0 or not out:
                raise Violation("%s: the process ended with %s %r" % (what, status, out))
            if "violation" in out:
                raise Violation("%s: %s" % (what, out["violation"]))
            failed += out["raised"]
        ctx.label("victim:" + case["victim"])
        ctx.label("device:" + ("other" if case["xdev"] else "same"))
        if failed and (case["xdev"] or latest(self.copy + "/run")):
            ctx.mark("faults")

    def fault(self, case, mode, i, err, what, before, norename):
        prog, sm, target = self.prog, self.sm, self.victim_target
        self.shim_.arm(self.base, mode, i, err, self.device, norename)
        r = attempt(lambda: self.victim(case))
        self.shim_.disarm()
        raised = r[0] == "error"
        after = tree(self.work)
        protected = set(os.path.relpath(t, self.work) for t in list(self.explicit) + [prog.file])
        if not os.path.exists(target) or case["victim"] == "save":
            # nothing was saved, so everything must be as it was
            protected.update(os.path.relpath(os.path.join(self.dir, n), self.work) for n in latest(self.dir) + latest(self.copy + "/run")
                             if not n.endswith(".tmp"))
            protected.discard(os.path.relpath(target, self.work))
        for rel in protected:
            for n in set(before) | set(after):
                if (n == rel or n.startswith(rel + "/")) and before.get(n, 0) != after.get(n, 0):
                    raise Violation("%s changed: %s" % (n, tree_differ({n: before.get(n, 0)}, {n: after.get(n, 0)})))
        if os.path.exists(target):
            other = prog.manager(None, target)
            prog.compare(self.model, other, "of the new checkpoint%s" % (" (although it was an error)" if raised else ""))
        elif not raised:
            raise Violation("no error was raised, but nothing was saved")
        if case["victim"] == "step":
            other = prog.manager(self.dir)
            prog.compare(self.model if os.path.exists(target) else self.saved, other, "restored after the failure")
        # the same manager goes on
        if i % 3 == 0:
            prog.apply(["key", 1], *self.model)
            prog.apply(["key", 1], sm.config, sm.state)
        r = attempt(lambda: sm.step())
        if r[0] == "error":
            raise Violation("the next step() fails: %r" % (r[1],))
        prog.compare(self.model, prog.manager(self.dir), "restored after the next step()")
        self.only("the next step()")
        prog.apply(["key", 1], *self.model)
        prog.apply(["key", 1], sm.config, sm.state)
        r = attempt(lambda: sm.step())
        if r[0] == "error":
            raise Violation("the step() after the next fails: %r" % (r[1],))
        prog.compare(self.model, prog.manager(self.dir), "restored after the step() after the next")
        self.only("the step() after the next")
        return {"raised": raised}

    def only(self, what):
        found = [n for n in latest(self.dir) if not n.endswith(".tmp")]
        want = ["latest-%s%012d" % (self.prog.key, getattr(self.model[1], self.prog.key))]
        if found != want:
            raise Violation("after %s there are the checkpoints %r instead of %r" % (what, found, want))


# ------------------------------------------------------------------ what is on disk


FOREIGN_FILES = ["notes.txt", "config.ron", "latest", "latest.txt", "events.000000000099", "x000000000042", "latest-step000000098765",
                 "state.ron", "work.tmp", ".hidden", "core.1234", "lock"]
FOREIGN_DIRS = ["logs", "plots", "latest-best", "best", "202401010000", "ckpt-000000000900", "tb-999999999999", "latest", "old-latest-step000000000050",
                "work.tmp", "latest-step000000000003.0a1b2c.tmp", "latest-step000000000001.old", ".hidden", "latest-step000000000002.bak", "tmp",
                "__pycache__"]


def gen_foreign(d):
    """[[name, kind, text]] in a checkpoint directory."""
    out = []
    for n in d.sample(FOREIGN_FILES, d.weighted([(3, 0), (2, 1), (1, 3)])):
        out.append([n, "file", d.text()])
    for n in d.sample(FOREIGN_DIRS, d.weighted([(3, 0), (2, 1), (1, 3)])):
        if n not in [x[0] for x in out]:
            out.append([n, "dir", d.pick([None, "a.txt", "config.ron", "sub/state.ron"])])
    return out


def put_foreign(folder, items):
    for name, k, x in items:
        path = os.path.join(folder, name)
        if k == "file":
            with open(path, "w") as f:
                f.write(x)
        else:
            os.makedirs(path)
            if x:
                os.makedirs(os.path.dirname(os.path.join(path, x)), exist_ok=True)
                with open(os.path.join(path, x), "w") as f:
                    f.write("not RON (")


class C23(Check):
    id = "C23"
    rule = ("random programs with one to three managers in a process (each with its own checkpoint directory that also holds foreign "
            "files), random steps with repeated and increasing keys, explicit checkpoints and restarts; the whole tree is compared with "
            "a model after every operation; non-trivial: at least three steps of which one replaced a checkpoint")
    quick = 110
    thorough = 2000
    quick_s = 60

    def gen(self, d):
        p = gen_program(d, small=True, blobs=2, versions=0)
        m = d.weighted([(5, 1), (3, 2), (1, 3)])
        foreign = [gen_foreign(d) for _ in range(m)]
        ops = []
        for _ in range(d.size(2, 16, 90)):
            i = d.n(m - 1)
            k = d.weighted([(6, "step"), (4, "mutate"), (2, "restart"), (2, "save"), (1, "foreign"), (1, "dir")])
            if k == "dir":
                ops.append([i, ["dir", d.n(2)]])
            elif k == "step":
                if d.chance(65):
                    ops.append([i, ["key", d.pick([1, 1, 1, 2, 7, 10**5, 10**11, 10**13, -1, -3, -(10**6)])]])
                ops.append([i, ["step"]])
            elif k == "mutate":
                ops.append([i, gen_mutation(d, p)])
            elif k == "save":
                ops.append([i, ["save", d.pick(["keep", "best", "manual-", "latest-good", "a b"]), d.chance(60), d.chance(30)]])
            elif k == "foreign":
                ops.append([i, ["foreign", d.pick(["new.txt", "sub"]), d.pick(["file", "dir"])]])
            else:
                ops.append([i, ["restart"]])
        return {"p": p, "foreign": foreign, "ops": ops, "relative": d.chance(20), "path": d.chance(50), "nested": d.chance(20)}

    def run(self, case, ctx):
        folder = ctx.dir()
        prog = Program(case["p"], folder)
        n = len(case["foreign"])
        runs = os.path.join(folder, "runs")
        os.mkdir(runs)
        dirs = [os.path.join(runs, "r%d" % i) for i in range(n)]
        if case["nested"]:
            dirs = [os.path.join(dirs[0], *["r%d" % j for j in range(1, i + 1)]) for i in range(n)]
        expected = {}

        def record(path):
            rel = os.path.relpath(path, runs)
            expected[rel] = None
            for k, v in tree(path).items():
                expected[os.path.join(rel, k)] = v

        cur = list(dirs)  # where each of the managers saves now

        def manager(i):
            d = cur[i]
            if case["relative"]:
                d = os.path.relpath(d)
            return prog.manager(pathlib.Path(d) if case["path"] else d)

        def verify(what):
            m = tree_differ(expected, tree(runs))
            if m:
                raise Violation("after %s: %s" % (what, m))

        for i, d in enumerate(dirs):
            if case["foreign"][i]:
                os.makedirs(d)
                put_foreign(d, case["foreign"][i])
        for k, v in tree(runs).items():
            expected[k] = v
        sms, models, saved, stepped, replaced = [], [], [None] * n, 0, 0
        for i in range(n):
            sms.append(manager(i))
            rel = os.path.relpath(dirs[i], runs)
            while rel:
                expected[rel] = None
                rel = os.path.dirname(rel)
            models.append(prog.first())
            sms[i].state
            prog.compare(models[i], sms[i], "of a new run")
        verify("starting")
        files = None
        for i, op in case["ops"]:
            sm, model, k = sms[i], models[i], op[0]
            if k in MUTATE:
                prog.apply(op, *model)
                prog.apply(op, sm.config, sm.state)
                verify("changing the state")
            elif k == "dir":
                cur[i] = [None, dirs[i], dirs[i] + "b"][op[1]]
                sm.checkpoint_dir = cur[i] and pathlib.Path(cur[i])
                if cur[i]:
                    expected[os.path.relpath(cur[i], runs)] = None
                verify("setting checkpoint_dir")
                ctx.label("dir")
            elif k == "step" and not cur[i]:
                sm.step()
                verify("step() without a checkpoint directory")
            elif k == "step":
                sm.step()
                stepped += 1
                key = getattr(model[1], prog.key)
                name = os.path.join(cur[i], "latest-%s%012d" % (prog.key, key))
                if saved[i] is None or saved[i][0] != name:
                    if saved[i] is not None:
                        replaced += 1
                        old = os.path.relpath(saved[i][0], runs)
                        for x in list(expected):
                            if x == old or x.startswith(old + "/"):
                                del expected[x]
                    saved[i] = (name, copy.deepcopy(model))
                    target = name
                    if not os.path.isdir(target):
                        raise Violation("no checkpoint %s after step(): %r" % (name, sorted(os.listdir(cur[i]))))
                    record(target)
                    prog.compare(saved[i][1], prog.manager(None, target), "of the checkpoint that step() wrote")
                verify("step() at key %d" % key)
            elif k == "save":
                prog.saves += 1
                inside = dirs[i] if op[2] else runs
                target = os.path.join(inside, "%s%d" % (op[1], prog.saves))
                sm.checkpoint(pathlib.Path(target) if op[3] else target)
                if not os.path.isdir(target):
                    raise Violation("checkpoint() did not make %s" % target)
                record(target)
                prog.compare(model, prog.manager(None, target), "of the explicit checkpoint")
                verify("checkpoint()")
            elif k == "foreign":
                path = os.path.join(dirs[i], op[1])
                if not os.path.exists(path):
                    put_foreign(dirs[i], [[op[1], op[2], "x"]])
                    record(path) if op[2] == "dir" else expected.update({os.path.relpath(path, runs): b"x"})
                verify("adding a file")
            elif k == "restart":
                cur[i] = os.path.dirname(saved[i][0]) if saved[i] else dirs[i]
                sms[i] = manager(i)
                models[i] = copy.deepcopy(saved[i][1]) if saved[i] else prog.first()
                sms[i].state
                prog.compare(models[i], sms[i], "after restarting")
                verify("restarting")
                ctx.label("restart")
        if stepped >= 3 and replaced:
            ctx.mark("%d managers" % n)


class C24(Check):
    id = "C24"
    rule = ("random checkpoint directories (absent, empty, with foreign entries and leftovers of crashes, with one to three automatic "
            "checkpoints of different states), init_path (none, config file, checkpoint) and overrides; non-trivial: more than one source")
    quick = 130
    thorough = 2500
    quick_s = 60

    def gen(self, d):
        p = gen_program(d, small=True, blobs=2, sched=0, versions=10)
        for st in p["u"]["structs"].values():
            for f in st["fields"]:
                if kind(f["t"]) == "st":
                    f.pop("d", None)
            st.pop("inherit", None)
        if d.chance(60):
            # defaults for everything else, so that no file is needed
            g = TypeGen(d)
            g.u = p["u"]
            for name, st in p["u"]["structs"].items():
                for f in st["fields"]:
                    if "d" not in f and kind(f["t"]) != "st":
                        f["d"] = ["f", g.value(f["t"])]
        for st in p["u"]["structs"].values():
            st["fields"].sort(key=lambda f: "d" in f)
        keys = sorted(set(d.pick([0, 1, 5, 9, 10, 99, 100, 12345, 10**6, 999999999, 10**11, -1, -3, -20, -(10**10), 10**12 - 1, 10**12, 1700000000000, 10**15 + 3]) for _ in range(d.weighted([(4, 0), (4, 1), (3, 2), (3, 3)]))))
        g = TypeGen(d)
        ovs = []
        plain = [(path, t) for path, t in struct_paths(p["u"]) if t in ("int", "float", "str", "bool")]
        if plain and d.chance(50):
            g.u = p["u"]
            for _ in range(d.size(1, 2)):
                path, t = d.pick(plain)
                j = g.value(t)
                ovs.append([list(path), override_text(d, t, j, p["u"])[0], j])
        return {"p": p, "names": [d.pick([None, None, None, "a", "zz_steps"]) for _ in keys], "keys": d.shuffle(keys), "muts": [[gen_mutation(d, p) for _ in range(d.size(1, 3))] for _ in range(len(keys) + 1)],
                "foreign": gen_foreign(d), "leftover": d.chance(25), "dir": d.weighted([(2, None), (1, "absent"), (5, "present")]),
                "init": d.weighted([(3, "file"), (3, "checkpoint"), (2, "none")]), "ovs": ovs, "first": d.pick(["config", "state"]),
                "str": d.chance(50), "later": d.chance(20),
                # what the files are called says nothing about what they are
                "called": d.pick(["init-checkpoint", "init-checkpoint", "ckpt.1", "run.ron", "latest", "latest-step000000000001", "a b.c", ".hidden"]),
                "file": d.pick(["config.ron", "config.ron", "config", "config.ron.bak", "latest.txt", "state.ron", "c o n", ".cfg"]),
                "relative": d.chance(30), "link": d.subset(["run", "init"]) if d.chance(15) else [],
                "deep": d.pick(["", "", "runs", "runs/2026-11-19/a b"])}

    def run(self, case, ctx):
        folder = ctx.dir()
        prog = Program(case["p"], folder)
        run_dir = os.path.join(folder, case.get("deep", ""), "run")
        # checkpoints with different contents, made by runs in other folders
        sm = prog.manager()
        sm.state
        model = prog.first()
        sources, values = {}, {}
        called = case.get("called", "init-checkpoint")
        targets = [os.path.join(folder, called)]
        if case["dir"] == "present":
            os.makedirs(run_dir)
            # the key may have had another name in an earlier run
            for k, n in zip(case["keys"], case["names"]):
                # names that end in 12 characters of the key are understood whatever the key was called
                t = os.path.join(run_dir, "latest-%s%012d" % (n if n and k < 10**12 else prog.key, k))
                targets.append(t)
                values[t] = k
            put_foreign(run_dir, case["foreign"])
            if case["leftover"]:
                left = os.path.join(run_dir, "latest-%s%012d.0a1b2c3d-4e5f-6071-8293-a4b5c6d7e8f9.tmp" % (prog.key, 10**11 + 1))
                os.mkdir(left)
                with open(os.path.join(left, "config.ron"), "w") as f:
                    f.write("Config(")
        for t, muts in zip(targets, case["muts"]):
            for op in muts:
                if op[0] != "key":
                    prog.apply(op, sm.config, sm.state)
                    prog.apply(op, *model)
            k = 7 if t == targets[0] else values[t]
            setattr(sm.state, prog.key, k)
            setattr(model[1], prog.key, k)
            sm.checkpoint(t)
            sources[t] = copy.deepcopy(model)
        config_file = prog.file
        if case.get("file", "config.ron") != "config.ron":
            os.mkdir(os.path.join(folder, "files"))
            config_file = os.path.join(folder, "files", case["file"])
            shutil.copy(prog.file, config_file)
        init = {"file": config_file, "checkpoint": targets[0], "none": None}[case["init"]]
        if len(targets) > 1:
            source = max(targets[1:], key=lambda t: values[t])
        elif case["init"] == "checkpoint":
            source = targets[0]
        else:
            source = None
        overrides = ["%s=%s" % (".".join(p), text) for p, text, _ in case["ovs"]]
        links = case.get("link", [])
        run_given = run_dir
        if "run" in links and os.path.isdir(run_dir):
            run_given = os.path.join(folder, "run-link")
            os.symlink(run_dir, run_given)
        if "init" in links and init:
            os.symlink(init, os.path.join(folder, "init-link"))
            init = os.path.join(folder, "init-link")
        if case.get("relative"):
            run_given = os.path.relpath(run_given)
            init = init and os.path.relpath(init)
        before = tree(folder, True)
        prog.inits = []
        if init and not case["str"]:
            init = pathlib.Path(init)
        d = None if case["dir"] is None else run_given
        sm = hyperstate.StateManager(prog.b.root, prog.sb.root, prog.initial, init, None if case["later"] else d,
                                     overrides if overrides or case["str"] else None, checkpoint_key=prog.key)
        if case["later"] and d:
            sm.checkpoint_dir = pathlib.Path(d)
        told = dict({"greeting": "hello"}, **{"k%d" % i: i for i in range(len(case["keys"]) * 2)})
        for k, v in told.items():
            sm.set_deserialize_ctx(k, v)
        other = prog.manager(None, init)
        other.set_deserialize_ctx("secret", "of another manager")
        other.set_deserialize_ctx("greeting", "of another manager")
        if source:
            want = copy.deepcopy(sources[source])
        elif init:
            want = prog.first()
        else:
            r = attempt(prog.b.root)
            if r[0] == "error":
                r = attempt(hyperstate.load, prog.b.root, None)
                if r[0] == "error":
                    # the class has fields without defaults, so nothing can be loaded
                    if attempt(lambda: sm.config)[0] == "ok" and not overrides:
                        raise Violation("a config came from nowhere")
                    ctx.label("nothing to load")
                    return
            want = [r[1], prog.sb.root_value(case["p"]["state"])]
        for path, _, j in case["ovs"]:
            set_path(want[0], path, prog.b.value(prog.types["config"][tuple(path)], j))
        if case["first"] == "state":
            sm.state
        expect_same(want[0], sm.config, "config (from %s)" % (source or init))
        if prog.inits and source:
            raise Violation("the initial state was made, although there is a checkpoint")
        for f in dataclasses.fields(prog.sb.root):
            expect_same(getattr(want[1], f.name), getattr(sm.state, f.name), "state.%s (from %s)" % (f.name, source or "initial_state"))
        sm.config, sm.state
        if not source:
            if len(prog.inits) != 1 or prog.inits[0][0] is not sm.config:
                raise Violation("initial_state was called with %r instead of once with the config" % (prog.inits,))
            if prog.inits[0][1] != told:
                raise Violation("initial_state got the context %r" % (prog.inits[0][1],))
        after = tree(folder, True)
        if d:
            made = os.path.relpath(run_dir, folder)
            while made:
                before.setdefault(made, None)
                made = os.path.dirname(made)
        m = tree_differ(before, after)
        if m:
            raise Violation("restoring changed files: " + m)
        if d:
            prog.apply(["key", 1], sm.config, sm.state)
            sm.step()
            after = tree(folder, True)
            for n in before:
                if n.split(os.sep)[0] == called and before[n] != after.get(n, 0):
                    raise Violation("the checkpoint given as init_path changed: %s" % n)
        if sum([len(targets) > 1, case["init"] != "none", bool(overrides)]) > 1:
            ctx.mark("run" if len(targets) > 1 else "init")
        ctx.label("source:" + ("run" if len(targets) > 1 else case["init"]))


class C32(Check):
    id = "C32"
    rule = ("random configs, checkpoints (with lazy blobs, schedules, older versions) and read-only operations on them, also failing "
            "ones; all files are compared before and after; non-trivial: a checkpoint with blobs or an older version was read")
    quick = 130
    thorough = 2500
    quick_s = 60

    def gen(self, d):
        p = gen_program(d, small=True, blobs=2, versions=15)
        paths = [(path, t) for path, t in struct_paths(p["u"]) if t in ("int", "float", "str", "bool")]
        sp = [tuple(x[0]) for x in p["scheds"]]
        g = TypeGen(d)
        g.u = p["u"]
        ovs = []
        if paths and d.chance(60):
            for _ in range(d.size(1, 3)):
                path, t = d.pick(paths)
                ovs.append("%s=%s" % (".".join(path), override_text(d, t, g.value(t), p["u"])[0]))
        if d.chance(15):
            ovs.append("no.such=1")
        ops = []
        for _ in range(d.size(2, 9, 85)):
            ops.append(d.pick(["load", "loads", "config", "state", "fields", "dict", "restart", "init", "old", "help", "check", "bad", "dumps"]))
        return {"p": p, "ovs": ovs, "ops": ops, "steps": d.n(2), "save": d.chance(50), "foreign": gen_foreign(d)}

    def run(self, case, ctx):
        import contextlib
        import io
        import sys

        from hyperstate.schema.rewrite_rule import RenameField
        from hyperstate.schema.schema_checker import schema_evolution_cli
        from hyperstate.schema.help import help as print_help

        folder = ctx.dir()
        prog = Program(case["p"], folder)
        run_dir = os.path.join(folder, "run")
        sm = prog.manager(run_dir)
        sm.state
        for _ in range(case["steps"]):
            prog.apply(["key", 1], sm.config, sm.state)
            sm.step()
        put_foreign(run_dir, [x for x in case.get("foreign", []) if not os.path.exists(os.path.join(run_dir, x[0]))])
        init = prog.file
        if case["save"]:
            init = os.path.join(folder, "saved")
            sm.checkpoint(init)
        ns, bases = versioned_ns(2, {1: [RenameField(("before",), ("now",))]})
        Old = dataclasses.make_dataclass("Old", [("now", int), ("other", str, "x")], bases=bases, namespace=ns)
        old = os.path.join(folder, "old.ron")
        with open(old, "w") as f:
            f.write("Old(version: 1, before: 3)")
        schema = os.path.join(folder, "schema.ron")
        cli(Old, ["dump-schema", schema])
        overrides = list(case["ovs"])
        ctx_value = {"key": [1]}
        before = tree(folder, True)
        tmp_before = tree(os.environ["TMPDIR"], True)
        sm = None
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            for op in case["ops"]:
                if sm is None or op in ("restart", "init"):
                    sm = prog.manager(None if op == "init" else run_dir, init, overrides=overrides)
                    sm.set_deserialize_ctx("value", ctx_value)
                if op == "load":
                    attempt(hyperstate.load, prog.b.root, prog.file, overrides)
                    attempt(hyperstate.load, prog.b.root, None, overrides)
                elif op == "loads":
                    text = ron(case["p"]["doc"])
                    attempt(hyperstate.loads, prog.b.root, text, overrides, True)
                elif op == "config":
                    attempt(lambda: sm.config)
                elif op == "state":
                    attempt(lambda: sm.state)
                elif op == "fields":
                    attempt(lambda: [getattr(sm.state, f.name) for f in dataclasses.fields(prog.sb.root)])
                    if prog.p["blobs"] and (case["steps"] or case["save"]):
                        ctx.mark("blobs")
                elif op == "dict":
                    attempt(lambda: sm.config_dict())
                elif op == "dumps":
                    attempt(lambda: hyperstate.dumps(sm.state))
                    attempt(lambda: hyperstate.dumps(sm.config, elide_defaults=True))
                elif op == "old":
                    r = attempt(hyperstate.load, Old, old)
                    if r != ("ok", Old(3)):
                        raise Violation("the older config loads as %r" % (r,))
                    attempt(lambda: hyperstate.StateManager(Old, prog.sb.root, prog.initial, old).config)
                    ctx.mark("older version")
                elif op == "help":
                    query = case["p"]["u"]["structs"]["Config"]["fields"][0]["n"] if case["steps"] else ""
                    attempt(print_help, prog.b.root, query)
                elif op == "check":
                    argv = sys.argv
                    sys.argv = ["x", "check-schema", schema]
                    try:
                        attempt(schema_evolution_cli, Old)
                    finally:
                        sys.argv = argv
                elif op == "bad":
                    attempt(hyperstate.load, prog.b.root, os.path.join(folder, "missing.ron"))
                    attempt(hyperstate.load, Old, prog.file)
                m = tree_differ(before, tree(folder, True)) or tree_differ(tmp_before, tree(os.environ["TMPDIR"], True))
                if m:
                    raise Violation("%s changed files: %s" % (op, m))
                if overrides != case["ovs"]:
                    raise Violation("%s changed the list of overrides: %r" % (op, overrides))
                if ctx_value != {"key": [1]}:
                    raise Violation("%s changed the context: %r" % (op, ctx_value))
        if overrides:
            ctx.label("overrides")
