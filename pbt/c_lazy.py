"""Serializable blobs and lazy fields (C25-C27)."""
import copy
import dataclasses
import json
import os
import pickle
import re

import hyperstate
import payload
from c_serde import attempt, expect_same
from c_state import Blob, tree, tree_differ
from core import Check, Skip, Violation


class Recorder(hyperstate.Serializable):
    """Remembers the calls of deserialize."""

    calls = []
    depends = {}

    def __init__(self, data):
        self.data = data

    def serialize(self):
        return self.data

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        other = cls.depends.get(cls.__name__)
        if other is not None:
            getattr(state, other)
        out = cls(state_dict)
        Recorder.calls.append((cls.__name__, state_dict, config, state, dict(ctx), out, getattr(state, "plain", None)))
        return out


# of objects that are false
FALSY = {"len": {"__len__": lambda self: 0}, "bool": {"__bool__": lambda self: False}}

# field names that a careless implementation confuses
NAMES = [["b0", "b1", "b2", "b3"], ["net", "Net", "NET", "net_"], ["q", "Q", "qq", "Qq"], ["ab", "a", "a_b", "abc"], ["b1", "b10", "b11", "b"],
         ["params", "params_ema", "ema", "Params"], ["b", "b_", "B", "B_"]]


def gen_names(d, n):
    return d.sample(d.pick(NAMES), n) if d.chance(50) else NAMES[0][:n]


def gen_falsy(d, n):
    return [d.weighted([(6, None), (1, "len"), (1, "bool")]) for _ in range(n)]


def blob_classes(n, falsy=()):
    return [type("Blob%d" % i, (Recorder,), dict(FALSY.get(falsy[i] if i < len(falsy) else None, {}))) for i in range(n)]


def blob_file(folder, name):
    """The file of a blob field: the one that has the name of the field in its name."""
    return [f for f in os.listdir(folder) if name in re.split(r"[^A-Za-z0-9_]+", f)]


def state_class(classes, name="State", names=None):
    fields = [("step", int), ("plain", str)] + list(zip(names or NAMES[0], classes))
    return dataclasses.make_dataclass(name, fields, bases=(hyperstate.Lazy,))


REFUSED = ["set", "object", "complex", "bigint", "objarray", "objarray2", "instance", "nested", "objstruct", "npint", "datetime", "overlap"]


def refused(k):
    import numpy as np

    return {
        "set": {1, 2}, "object": object(), "complex": 1j, "bigint": 2**64, "objarray": np.array([None, "x"], dtype=object),
        "objarray2": np.zeros((0,), dtype=object), "instance": Blob(1), "nested": {"a": [1, {"b": {1, 2}}]},
        "objstruct": np.zeros(2, dtype=[("x", "O"), ("y", "<i4")]), "npint": np.int64(3), "datetime": np.datetime64("2020-01-01"),
        "overlap": np.zeros(2, dtype={"names": ["a", "b"], "formats": ["<i4", "<i4"], "offsets": [2, 0]}),
    }[k]


class C25(Check):
    id = "C25"
    rule = ("random nested payloads (dicts, lists, scalars, arrays of 34 dtypes and 4 structured ones in 6 memory layouts) stored in one to three fields, "
            "through dump/load and through a checkpoint; plus payloads that must be refused; non-trivial: at least one array or two "
            "levels of containers")
    quick = 400
    thorough = 8000

    def gen(self, d):
        n = d.size(1, 3, 40)
        return {"blobs": [payload.gen(d, d.int(0, 3)) for _ in range(n)], "bad": d.weighted([(7, None), (1, "x")]) and d.pick(REFUSED),
                "where": d.n(3), "reload": d.chance(50), "names": gen_names(d, n), "falsy": gen_falsy(d, n),
                "odd": ["arr", payload.gen_odd(d), d.pick([[], [1], [3], [2, 2], [0]]), d.pick(payload.LAYOUTS), [d.n(255) for _ in range(3)]] if d.chance(20) else None}

    def corpus(self):
        out = []
        for dt in payload.BOOL_INT + payload.FLOATS + payload.OTHERS:
            for layout in payload.LAYOUTS:
                out.append({"blobs": [["arr", dt, [3, 2], layout, [1, 0, 255, 4, 5, 6]], ["arr", dt, [], "C", [3]], ["arr", dt, [0, 2], "F", []]],
                            "bad": None, "where": 0, "reload": False, "names": NAMES[0][:3], "falsy": []})
        for k in REFUSED:
            for w in range(4):
                out.append({"blobs": [["int", 1]], "bad": k, "where": w, "reload": False, "names": ["b0"], "falsy": []})
        return out

    def odd(self, case, ctx, State, classes, data, path):
        """Structured types with gaps, overlaps or titles are stored exactly or refused."""
        spec = case["odd"]
        a, b = payload.build(spec), payload.build(spec)
        r = attempt(hyperstate.dump, State(1, "", *[c(v) for c, v in zip(classes, [a] + data[1:])]), path)
        if r[0] != "ok":
            offsets = spec[1].get("offsets", [])
            if "titles" not in json.dumps(spec) and offsets == sorted(offsets):
                nested = [f for f in spec[1]["formats"] if isinstance(f, dict) and f.get("offsets", []) != sorted(f.get("offsets", []))]
                if not nested:
                    raise Violation("an array of dtype %r was refused: %r" % (a.dtype, r[1]))
            ctx.mark("odd dtype refused")
            return
        Recorder.calls = []
        got = getattr(hyperstate.load(State, path), case["names"][0]).data
        m = payload.differ(b, got)
        if m:
            raise Violation("an array of dtype %r: %s" % (a.dtype, m))
        ctx.mark("odd dtype")

    def run(self, case, ctx):
        import numpy as np

        folder = ctx.dir()
        names = case["names"]
        classes = blob_classes(len(names), case["falsy"])
        State = state_class(classes, names=names)
        data = [payload.build(p) for p in case["blobs"]]
        refs = [payload.build(p) for p in case["blobs"]]
        if case["bad"]:
            x = refused(case["bad"])
            wrapped = [x, {"k": x}, [1, x], {"a": [{"b": x}]}][case["where"]]
            bad = State(1, "", *[c(v) for c, v in zip(classes, [wrapped] + data[1:])])
            r = attempt(hyperstate.dump, bad, os.path.join(folder, "bad.ron"))
            if r[0] == "ok":
                raise Violation("%r was dumped" % (wrapped,))
            ctx.mark("refused")
            return
        if case.get("odd"):
            self.odd(case, ctx, State, classes, data, os.path.join(folder, "odd.ron"))
        obj = State(5, "x", *[c(v) for c, v in zip(classes, data)])
        plain = os.path.join(folder, "plain")
        os.mkdir(plain)
        hyperstate.dump(obj, os.path.join(plain, "state.ron"))
        Config = dataclasses.make_dataclass("Config", [("lr", float, 0.5)])
        sm = hyperstate.StateManager(Config, State, lambda c, x: obj, checkpoint_dir=os.path.join(folder, "run"))
        sm.step()
        for i, v in enumerate(refs):
            m = payload.differ(v, data[i])
            if m:
                raise Violation("dumping changed the data: " + m)

        def verify(st, what):
            Recorder.calls = []
            got = []
            for i, v in enumerate(refs):
                x = getattr(st, names[i])
                if len(Recorder.calls) != i + 1:
                    raise Violation("deserialize was called %d times for %d fields" % (len(Recorder.calls), i + 1))
                m = payload.differ(v, Recorder.calls[i][1])
                if m:
                    raise Violation("%s, deserialize of b%d got something else: %s" % (what, i, m))
                got.append(x.data)
            arrs = [a for v in got for a in payload.arrays(v)]
            for i, a in enumerate(arrs):
                if not a.flags.writeable:
                    raise Violation("%s, a restored array is not writable" % what)
                if a.size and a.dtype.kind in "biuf":
                    keep = [b.tobytes() for b in arrs]
                    a[...] = 1
                    for j, b in enumerate(arrs):
                        if j != i and b.tobytes() != keep[j]:
                            raise Violation("%s, writing to one restored array changed another" % what)
            return arrs

        arrs = verify(hyperstate.load(State, os.path.join(plain, "state.ron")), "loaded")
        verify(hyperstate.load(State, os.path.join(plain, "state.ron")), "loaded again after changing the first result")
        verify(hyperstate.StateManager(Config, State, lambda c, x: None, checkpoint_dir=os.path.join(folder, "run")).state, "restored")
        if case["reload"]:
            again = os.path.join(folder, "again")
            os.mkdir(again)
            hyperstate.dump(hyperstate.load(State, os.path.join(plain, "state.ron")), os.path.join(again, "state.ron"))
            m = tree_differ(tree(plain), tree(again))
            if m:
                raise Violation("dumping what was loaded gives other files: " + m)
            verify(hyperstate.load(State, os.path.join(again, "state.ron")), "loaded, dumped and loaded")
        if arrs or any(p[0] in ("list", "dict") and p[1] for p in case["blobs"]):
            ctx.mark("arrays" if arrs else "containers")
        for a in arrs:
            ctx.label("dtype:" + a.dtype.str)


class C26(Check):
    id = "C26"
    rule = ("random sequences of reads, assignments, dumps, removals, damages and repairs of blob files, over one to four blob fields, "
            "loaded directly or restored by a manager; compared with a model of which field was loaded when; non-trivial: at least one "
            "blob is loaded after another operation on the object")
    quick = 400
    thorough = 8000

    def gen(self, d):
        n = d.size(1, 4, 65)
        ops = []
        for _ in range(d.size(1, 14, 88)):
            i = d.n(n - 1)
            ops.append(d.weighted([
                (8, ["read", i]), (3, ["assign", i, d.n(1000)]), (3, ["remove", i]), (2, ["damage", i, d.n(4)]), (3, ["repair", i]),
                (2, ["dump"]), (1, ["dumps"]), (2, ["ctx", d.pick(["k", "device", "seed", "a", "b", "c"]), d.n(9)]), (1, ["plain", d.text()]), (1, ["repr"]),
                (1, ["other", i]), (1, ["step"]), (2, ["plainly", i, d.n(4)]),
            ]))
        dep = [d.n(n - 1), d.n(n - 1)] if n > 1 and d.chance(25) else None
        if dep and dep[0] == dep[1]:
            dep = None
        return {"n": n, "blobs": [payload.gen(d, 1) for _ in range(n)], "ops": ops, "hide": d.subset(range(n), 30),
                "via": d.pick(["load", "manager", "init"]), "dep": dep, "relative": d.chance(25), "decoy": d.chance(40), "names": gen_names(d, n), "falsy": gen_falsy(d, n), "keys": d.pick([0, 0, 1, 4])}

    def run(self, case, ctx):
        folder = ctx.dir()
        n = case["n"]
        classes = blob_classes(n, case["falsy"])
        cwd = os.getcwd()
        Recorder.calls = []
        Recorder.depends = {}
        if case["dep"]:
            Recorder.depends["Blob%d" % case["dep"][0]] = case["names"][case["dep"][1]]
        try:
            self.go(case, ctx, folder, classes)
        finally:
            Recorder.depends = {}
            os.chdir(cwd)

    def go(self, case, ctx, folder, classes):
        n = case["n"]
        names = case["names"]
        State = state_class(classes, names=names)
        Config = dataclasses.make_dataclass("Config", [("lr", float, 0.5)])
        run = os.path.join(folder, "run")
        first = State(5, "x", *[c(payload.build(p)) for c, p in zip(classes, case["blobs"])])
        sm = hyperstate.StateManager(Config, State, lambda c, x: first, checkpoint_dir=run)
        sm.step()
        source = os.path.join(run, "latest-step%012d" % 5)
        files = {}
        for i in range(n):
            cand = blob_file(source, names[i])
            if len(cand) != 1:
                raise Violation("no file for blob b%d: %r" % (i, os.listdir(source)))
            path = os.path.join(source, cand[0])
            with open(path, "rb") as f:
                files[i] = (path, f.read())
        bad = set()
        for path, _ in files.values():
            os.rename(path, path + ".hidden")
        Recorder.calls = []
        want_ctx = {}
        if case.get("decoy"):
            # another manager of the process has a context of its own
            decoy = hyperstate.StateManager(Config, State, lambda c, x: None, init_path=source)
            decoy.set_deserialize_ctx("secret", "of another manager")
            decoy.set_deserialize_ctx("k", "of another manager")
            decoy.state.set_deserialize_ctx("device", "of another state")
        # relative to a directory that the process leaves before it reads a blob
        cwd = os.getcwd()
        relative = case.get("relative")
        if relative:
            os.chdir(folder)
            run, source = (os.path.relpath(x, folder) for x in (run, source))
        if case["via"] == "load":
            obj = hyperstate.load(State, os.path.join(source, "state.ron"))
            config = None
            manager = None
        else:
            manager = hyperstate.StateManager(Config, State, lambda c, x: None, **({"checkpoint_dir": run} if case["via"] == "manager" else {"init_path": source}))
            for k in ["k", "m", "n", "o", "p"][:1 + case.get("keys", 0)]:
                manager.set_deserialize_ctx(k, "from manager")
                want_ctx[k] = "from manager"
            obj = manager.state
            config = manager.config
        if case.get("decoy"):
            decoy.set_deserialize_ctx("later", "of another manager")
            decoy.state.set_deserialize_ctx("last", "of another state")
        if relative:
            os.chdir(cwd)
            source = os.path.join(folder, source)
        if Recorder.calls:
            raise Violation("loading read blobs: %r" % (Recorder.calls,))
        for i, (path, _) in files.items():
            if i in case["hide"]:
                bad.add(i)
            else:
                os.rename(path + ".hidden", path)
        values = {}
        plain = "x"
        dumps = 0
        dep = case["dep"]

        def needs(i):
            """Blobs that reading i loads, in order."""
            out = [i]
            if dep and dep[0] == i and dep[1] not in values:
                out = [dep[1], i]
            return out

        def calls(expected, what):
            got = [c[0] for c in Recorder.calls]
            if got != ["Blob%d" % i for i in expected]:
                raise Violation("%s loaded %r, expected %r" % (what, got, expected))
            for c, i in zip(Recorder.calls, expected):
                m = payload.differ(payload.build(case["blobs"][i]), c[1])
                if m:
                    raise Violation("%s: contents of b%d: %s" % (what, i, m))
                if c[2] is not config and (c[2] != config or config is None):
                    raise Violation("%s: deserialize of b%d got the config %r" % (what, i, c[2]))
                if c[3] is not obj:
                    raise Violation("%s: deserialize of b%d got another object than the owner" % (what, i))
                if c[4] != want_ctx:
                    raise Violation("%s: deserialize of b%d got the context %r instead of %r" % (what, i, c[4], want_ctx))
                if c[6] != plain:
                    raise Violation("%s: deserialize of b%d saw plain = %r instead of %r" % (what, i, c[6], plain))
                values[i] = c[5]

        def read(i, what):
            Recorder.calls = []
            if i in values:
                x = obj.__getattribute__(names[i]) if dumps % 2 else getattr(obj, names[i])
                calls([], what)
                if x is not values[i]:
                    raise Violation("%s gave another object than before" % what)
                return
            todo = needs(i)
            r = attempt(getattr, obj, names[i])
            if any(x in bad for x in todo):
                if r[0] == "ok":
                    raise Violation("%s gave %r, although the file is missing or damaged" % (what, r[1]))
                calls([], what)
                return
            if r[0] == "error":
                raise Violation("%s failed: %r" % (what, r[1]))
            calls(todo, what)
            if r[1] is not values[i]:
                raise Violation("%s did not give what deserialize returned" % what)
            ctx.label("loaded")

        for op in case["ops"]:
            k = op[0]
            if k == "read":
                read(op[1], "reading b%d" % op[1])
                if len(values) > 1:
                    ctx.mark("several")
            elif k == "assign":
                Recorder.calls = []
                new = classes[op[1]](op[2])
                setattr(obj, names[op[1]], new)
                values[op[1]] = new
                if Recorder.calls:
                    raise Violation("assigning b%d loaded a blob" % op[1])
                ctx.mark("assign")
            elif k == "plainly":
                # something that is not Serializable
                Recorder.calls = []
                values[op[1]] = [None, 0, "", [], {"a": 1}][op[2]]
                setattr(obj, names[op[1]], values[op[1]])
                if Recorder.calls:
                    raise Violation("assigning b%d loaded a blob" % op[1])
                ctx.mark("assign")
            elif k == "remove":
                path = files[op[1]][0]
                if os.path.exists(path):
                    os.remove(path)
                bad.add(op[1])
            elif k == "damage":
                path, data = files[op[1]]
                with open(path, "wb") as f:
                    # incomplete, empty, or followed by more
                    f.write([data[: len(data) // 2] if len(data) > 1 else b"", b"", b"\xc1", data + b"\x00", b"\xd9\x02\xff\xff"][op[2]])
                bad.add(op[1])
            elif k == "repair":
                path, data = files[op[1]]
                with open(path, "wb") as f:
                    f.write(data)
                bad.discard(op[1])
            elif k == "ctx":
                obj.set_deserialize_ctx(op[1], op[2])
                want_ctx[op[1]] = op[2]
            elif k == "plain":
                obj.plain = plain = op[1]
            elif k == "repr":
                Recorder.calls = []
                if obj.step != 5 or obj.plain != plain:
                    raise Violation("plain fields are %r, %r" % (obj.step, obj.plain))
                calls([], "reading plain fields")
            elif k == "other":
                # another object restored from the same files is independent
                other = hyperstate.load(State, os.path.join(source, "state.ron"))
                Recorder.calls = []
                r = attempt(getattr, other, names[op[1]])
                need = {op[1]} | ({dep[1]} if dep and dep[0] == op[1] else set())
                if (r[0] == "ok") != (not need & bad):
                    raise Violation("another object reads b%d: %r" % (op[1], r))
                Recorder.calls = []
            elif k in ("dump", "dumps"):
                Recorder.calls = []
                dumps += 1
                target = os.path.join(folder, "dump%d" % dumps)
                os.mkdir(target)
                unloaded = [i for i in range(n) if i not in values]
                if k == "dump":
                    r = attempt(hyperstate.dump, obj, os.path.join(target, "state.ron"))
                else:
                    r = attempt(hyperstate.dumps, obj)
                for c in Recorder.calls:
                    values[int(c[0][4:])] = c[5]
                if any(i in bad for i in unloaded):
                    if r[0] == "ok":
                        raise Violation("%s succeeded without blob %r" % (k, [i for i in unloaded if i in bad]))
                    continue
                if r[0] == "error":
                    raise Violation("%s failed: %r" % (k, r[1]))
                if sorted(c[0] for c in Recorder.calls) != ["Blob%d" % i for i in unloaded]:
                    raise Violation("%s loaded %r, expected %r" % (k, [c[0] for c in Recorder.calls], unloaded))
                if k == "dump" and all(isinstance(values[i], Recorder) for i in range(n)):
                    Recorder.calls = []
                    back = hyperstate.load(State, os.path.join(target, "state.ron"))
                    for i in range(n):
                        m = payload.differ(values[i].data, getattr(back, names[i]).data)
                        if m:
                            raise Violation("dumped b%d is not what access gives: %s" % (i, m))
                    ctx.mark("dump")
            elif k == "step" and case["via"] == "manager":
                # the same key again: the checkpoint stays as it is, and nothing is loaded
                Recorder.calls = []
                if relative:
                    os.chdir(folder)
                r = attempt(manager.step)
                os.chdir(cwd)
                if r[0] == "error":
                    raise Violation("step() failed: %r" % (r[1],))
                for c in Recorder.calls:
                    values[int(c[0][4:])] = c[5]
        for i in range(n):
            read(i, "finally reading b%d" % i)


class Trip:
    """Unpickling it leaves a trace."""

    def __init__(self, path):
        self.path = path

    def __reduce__(self):
        return os.mkdir, (self.path,)


# none of these is the opt-in
SIMILAR = ["NO_UNSAFE_DESERIALIZE_PICKLE", "UNSAFE_DESERIALIZE", "unsafe_deserialize_pickle", "UNSAFE_DESERIALIZE_PICKLES", "DESERIALIZE_PICKLE",
           "HYPERSTATE_UNSAFE_DESERIALIZE_PICKLE", "UNSAFE_PICKLE", "UNSAFE_DESERIALIZE_MSGPACK", "UNSAFE"]


class C27(Check):
    id = "C27"
    rule = ("random checkpoints whose blob fields are msgpack blobs or legacy pickles (both markers), with files of pickles at every "
            "path that a loader might fall back to, accessed in random order with and without the opt-in; non-trivial: a pickle was in "
            "reach of an access")
    quick = 400
    thorough = 6000

    def gen(self, d):
        n = d.size(1, 4, 65)
        fields = []
        for _ in range(n):
            fields.append(d.pick(["msgpack", "BLOB", "pickle", "msgpack-pickle", "msgpack-object", "msgpack-missing", "msgpack-ext"]))
        return {"fields": fields, "blobs": [payload.gen(d, 1) for _ in range(n)], "optin": d.weighted([(6, None), (3, "1"), (1, "yes")]),
                "order": d.shuffle(range(n)), "via": d.pick(["load", "manager", "init"]), "decoys": d.chance(60),
                "config": d.weighted([(6, "ok"), (1, "pickle")]), "then": d.pick(["dump", "step", "dict", None]), "proto": d.pick([0, 2, 4]),
                "repeat": d.chance(40), "env": d.sample(SIMILAR, d.weighted([(1, 0), (1, 1), (1, 3)])),
                "names": gen_names(d, n), "falsy": gen_falsy(d, n)}

    def run(self, case, ctx):
        os.environ.pop("UNSAFE_DESERIALIZE_PICKLE", None)
        if case["optin"]:
            os.environ["UNSAFE_DESERIALIZE_PICKLE"] = case["optin"]
        for x in case.get("env", []):
            os.environ[x] = "1"
        try:
            self.go(case, ctx)
        finally:
            os.environ.pop("UNSAFE_DESERIALIZE_PICKLE", None)
            for x in case.get("env", []):
                os.environ.pop(x, None)

    def go(self, case, ctx):
        import msgpack

        from hyperstate import msgpack_torch

        folder = ctx.dir()
        tripped = os.path.join(folder, "tripped")
        bomb = pickle.dumps(Trip(tripped), case["proto"])
        n = len(case["fields"])
        names = case["names"]
        classes = blob_classes(n, case["falsy"])
        State = state_class(classes, names=names)
        Config = dataclasses.make_dataclass("Config", [("lr", float, 0.5)])
        run = os.path.join(folder, "run")
        source = os.path.join(run, "latest-step%012d" % 5)
        os.makedirs(source)

        def write(name, data):
            with open(os.path.join(source, name), "wb") as f:
                f.write(data)

        lines = []
        optin = bool(case["optin"])
        for i, kind in enumerate(case["fields"]):
            name = names[i]
            value = payload.build(case["blobs"][i])
            good = msgpack.packb(value, default=msgpack_torch.encode)
            benign = pickle.dumps(value, case["proto"])
            if case["decoys"]:
                for f in (name, name + ".pickle", "state.%s" % name, "state.%s.pickle" % name, "state.%s.pkl" % name, "%s.msgpack" % name):
                    write(f, bomb)
            marker = "<blob:msgpack>"
            if kind == "BLOB":
                marker = "<BLOB>"
                write(name, benign if optin else bomb)
            elif kind == "pickle":
                marker = "<blob:pickle>"
                write("state.%s.pickle" % name, benign if optin else bomb)
            elif kind == "msgpack":
                write("state.%s.msgpack" % name, good)
            elif kind == "msgpack-pickle":
                write("state.%s.msgpack" % name, bomb)
            elif kind == "msgpack-object":
                write("state.%s.msgpack" % name, msgpack.packb({b"__tensor__": "numpy", b"dtype": "|O" if case["proto"] % 2 else [["x", "|O"]], b"shape": (1,), b"data": bomb}))
            elif kind == "msgpack-ext":
                write("state.%s.msgpack" % name, msgpack.packb([msgpack.ExtType(c, bomb) for c in (0, 1, 42)]))
            lines.append('    %s: "%s",' % (name, marker))
        write("state.ron", ('State(\n    step: 5,\n    plain: "x",\n' + "\n".join(lines) + "\n)\n").encode())
        write("config.ron", b"Config(lr: 0.25)" if case["config"] == "ok" else bomb)

        def safe(what):
            if os.path.exists(tripped):
                raise Violation("%s executed a pickle" % what)

        Recorder.calls = []
        manager = None
        if case["via"] == "load":
            r = attempt(hyperstate.load, State, os.path.join(source, "state.ron"))
            if case["config"] != "ok":
                attempt(hyperstate.load, Config, os.path.join(source, "config.ron"))
                safe("loading a config")
        else:
            manager = hyperstate.StateManager(Config, State, lambda c, x: None, **({"checkpoint_dir": run} if case["via"] == "manager" else {"init_path": source}))
            r = attempt(lambda: manager.state)
        safe("loading")
        if Recorder.calls:
            raise Violation("loading called deserialize")
        if r[0] == "error":
            if manager and case["config"] != "ok":
                return
            raise Violation("a checkpoint with legacy fields can not be loaded: %r" % (r[1],))
        obj = r[1]
        for i in case["order"] * (2 if case["repeat"] else 1):
            kind = case["fields"][i]
            Recorder.calls = []
            r = attempt(getattr, obj, names[i])
            safe("access of a %s field" % kind)
            legacy = kind in ("BLOB", "pickle")
            if kind == "msgpack" or legacy and optin:
                if r[0] == "error":
                    raise Violation("access of a %s field failed: %r" % (kind, r[1]))
                want = payload.build(case["blobs"][i])
                if legacy:
                    # numpy's pickles forget some byte orders here
                    want = pickle.loads(pickle.dumps(want, case["proto"]))
                m = payload.differ(want, r[1].data)
                if m:
                    raise Violation("%s field: %s" % (kind, m))
            elif legacy:
                if r[0] == "ok":
                    raise Violation("access of a %s field without the opt-in gave %r" % (kind, r[1]))
                if not isinstance(r[1], RuntimeError):
                    raise Violation("access of a %s field without the opt-in raised %r" % (kind, r[1]))
                if Recorder.calls:
                    raise Violation("deserialize of a %s field was called without the opt-in" % kind)
                ctx.mark("legacy refused")
            if kind != "msgpack":
                ctx.mark(kind + (" opt-in" if optin else ""))
        if obj.plain != "x" or obj.step != 5:
            raise Violation("plain fields are %r" % (obj.plain,))
        if case["then"] == "dump":
            attempt(hyperstate.dump, obj, os.path.join(folder, "out.ron"))
        elif manager and case["then"] == "step":
            obj.step += 1
            attempt(manager.step)
        elif manager and case["then"] == "dict":
            attempt(manager.config_dict)
        safe("dumping")
