"""Command decorators and help (C28, C29)."""
import copy
import io
import json
import os
import re
import shutil
import sys

import hyperstate
from c_serde import attempt, expect_same, judge, override_text, paths_of
from c_state import Program, gen_program, struct_paths, tree, tree_differ
from core import Check, Skip, Violation
from universe import Built, Doc, TypeGen, kind, ron

ANSI = re.compile("\x1b\\[[0-9;]*m")


class Boom(Exception):
    pass


def run_command(f, args):
    """(exit status, output, result) of a decorated function under the arguments."""
    argv, out, err = sys.argv, sys.stdout, sys.stderr
    sys.argv = ["prog"] + args
    sys.stdout = sys.stderr = buf = io.StringIO()
    result = None
    try:
        result = f()
        status = 0
    except SystemExit as e:
        status = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
    except Exception as e:
        status = 1
        buf.write("\n%s: %s" % (type(e).__name__, e))
    finally:
        sys.argv, sys.stdout, sys.stderr = argv, out, err
    return status, ANSI.sub("", buf.getvalue()), result


def help_text(cls, *query):
    out, buf = sys.stdout, io.StringIO()
    sys.stdout = buf
    try:
        hyperstate.help(cls, *query)
    finally:
        sys.stdout = out
    return ANSI.sub("", buf.getvalue())


class C28(Check):
    id = "C28"
    rule = ("random config classes, config files, checkpoints, overrides (good ones, unknown names, ill-typed values), options in random "
            "order for both decorators; non-trivial: overrides with a file or checkpoint, or a bad argument")
    quick = 160
    thorough = 3000

    def gen(self, d):
        p = gen_program(d, small=True, blobs=1, sched=20, versions=15)
        plain = [(path, t) for path, t in paths_of(p["u"]) if t in ("int", "float", "str", "bool")]
        touched = {tuple(x[0]) for x in p["scheds"]}
        g = TypeGen(d)
        g.u = p["u"]
        ovs = []
        for _ in range(d.size(0, 3, 60)):
            if d.chance(22):
                if d.chance(60) or not plain:
                    ovs.append(["unknown", d.pick(["nope=1", "nope.x=2", "lr.lr.lr=1", "Config.x=3", "=1", "lr x=1"])])
                else:
                    path, t = d.pick(plain)
                    if t != "str":
                        ovs.append(["bad", ".".join(path) + "=" + d.pick(["abc", "[1]", "1.5.5", ""])])
            elif plain:
                path, t = d.pick(plain)
                if path not in touched:
                    text, _ = override_text(d, t, g.value(t), p["u"])
                    ovs.append(["ok", ".".join(path) + "=" + text])
        malformed = d.chance(6)
        if malformed:
            ovs.insert(d.n(len(ovs)), ["malformed", d.pick(["lr", "nope", "Config", "x.y"])])
        known = {".".join(path) for path, _ in paths_of(p["u"])}
        ovs = [o for o in ovs if not (o[0] == "unknown" and o[1].split("=")[0] in known)]
        # the last override of a field decides about it, so one with a bad value has to be alone
        bad = {o[1].split("=")[0] for o in ovs if o[0] == "bad"}
        ovs = [o for i, o in enumerate(ovs) if o[1].split("=")[0] not in bad or o[0] == "bad" and o not in ovs[:i]]
        ok = [o for o in ovs if o[0] == "ok"]
        if ok and d.chance(25):
            # again as before, after another value
            x = d.pick(ok)
            path, t = next((path, t) for path, t in plain if ".".join(path) == x[1].split("=")[0])
            text, _ = override_text(d, t, g.value(t), p["u"])
            ovs += [["ok", ".".join(path) + "=" + text]] + ([x] if d.chance(60) else [])
        return {"p": p, "stateful": d.chance(55), "config": d.chance(60), "resume": d.chance(30), "dir": d.pick([None, "absent", "empty", "run"]),
                "ovs": ovs, "help": d.weighted([(9, None), (1, ""), (1, "lr")]), "verbose": d.chance(30), "first": d.chance(50),
                "raises": d.chance(10), "twice": d.chance(15), "key": d.chance(50), "sep": d.chance(30)}

    def prepare_files(self, prog, folder, case):
        """A checkpoint to resume from and the checkpoint directory."""
        sm = prog.manager()
        setattr(sm.state, prog.key, 7)
        sm.checkpoint(os.path.join(folder, "saved"))
        run = os.path.join(folder, "run")
        if case["dir"] in ("empty", "run"):
            os.mkdir(run)
        if case["dir"] == "run":
            setattr(sm.state, prog.key, 12)
            sm.checkpoint(os.path.join(run, "latest-%s%012d" % (prog.key, 12)))

    def run(self, case, ctx):
        folder = ctx.dir()
        for n in ("cli", "api"):
            os.mkdir(os.path.join(folder, n))
        ovs = [x for _, x in case["ovs"]]
        if case["stateful"]:
            self.stateful(case, ctx, folder, ovs)
        else:
            self.plain(case, ctx, folder, ovs)

    def args(self, case, options, ovs):
        if case["verbose"]:
            options = options + ["-v"]
        if case["help"] is not None:
            info = ["--hps-info"] + ([case["help"]] if case["help"] else [])
            return ovs + options + info if case["first"] or not case["help"] else options + info + ovs
        return ovs + options if case["first"] else options + ovs

    def option(self, case, name, value):
        return ["--%s=%s" % (name, value)] if case["sep"] else ["--" + name, value]

    def quiet_cases(self, case, what, status, calls, output, cls):
        """The cases in which the function must not be called whatever the config is."""
        if case["help"] is not None:
            if calls:
                raise Violation("%s although only help was asked for, the function was called" % what)
            if status != 0:
                raise Violation("%s help: status %r\n%s" % (what, status, output))
            want = help_text(cls, case["help"])
            if want.strip() not in output:
                raise Violation("%s help printed\n%s\ninstead of\n%s" % (what, output, want))
            ctx_label = "help"
            return ctx_label
        if any(k == "malformed" for k, _ in case["ovs"]):
            if calls:
                raise Violation("%s the function was called despite the malformed override" % what)
            return "malformed"
        return None

    def plain(self, case, ctx, folder, ovs):
        prog = Program(case["p"], os.path.join(folder, "cli"))
        cls = prog.b.root
        calls = []
        token = object()

        def main(cfg):
            calls.append(cfg)
            if case["raises"]:
                raise Boom("on purpose")
            return token

        f = hyperstate.command(cls)(main)
        options = self.option(case, "config", prog.file) if case["config"] else []
        args = self.args(case, options, ovs)
        before = tree(folder, True)
        status, output, result = run_command(f, args)
        what = "command %r with %s\n" % (args, open(prog.file).read())
        m = tree_differ(before, tree(folder, True))
        if m:
            raise Violation("%s changed files: %s" % (what, m))
        label = self.quiet_cases(case, what, status, calls, output, cls)
        if label:
            ctx.mark(label)
            return
        want = attempt(hyperstate.load, cls, prog.file if case["config"] else None, list(ovs))
        bad = any(k in ("unknown", "bad") for k, _ in case["ovs"])
        if bad and want[0] == "ok":
            raise Violation("%s load accepts %r" % (what, ovs))
        if want[0] == "error":
            if calls:
                raise Violation("%s the function was called with %r, although load fails: %r" % (what, calls, want[1]))
            if status == 0:
                raise Violation("%s exit status 0, although load fails: %r\n%s" % (what, want[1], output))
            self.names(case, what, output)
            ctx.mark("failed")
            return
        if len(calls) != 1:
            raise Violation("%s the function was called %d times; status %r\n%s" % (what, len(calls), status, output))
        expect_same(want[1], calls[0], what)
        self.outcome(case, what, status, result, token, output)
        if case["twice"] and not case["raises"]:
            status, output, result = run_command(f, args)
            if len(calls) != 2 or status != 0 or result is not token:
                raise Violation("%s called again: %d calls, status %r" % (what, len(calls), status))
            expect_same(want[1], calls[1], what + "called again")
        ctx.label("ran")
        if ovs and case["config"]:
            ctx.mark("file and overrides")

    def outcome(self, case, what, status, result, token, output):
        if case["raises"]:
            if status == 0:
                raise Violation("%s the function failed, but the exit status is 0" % what)
        elif status != 0 or result is not token:
            raise Violation("%s status %r, result %r\n%s" % (what, status, result, output))

    def names(self, case, what, output):
        """Unknown names alone are all reported."""
        kinds = {k for k, _ in case["ovs"]}
        if kinds <= {"ok", "unknown"}:
            for k, x in case["ovs"]:
                if k == "unknown" and x.split("=")[0] not in output:
                    raise Violation("%s the output does not name %r:\n%s" % (what, x, output))

    def stateful(self, case, ctx, folder, ovs):
        progs = {}
        for n in ("cli", "api"):
            progs[n] = Program(case["p"], os.path.join(folder, n))
            self.prepare_files(progs[n], os.path.join(folder, n), case)
        prog = progs["cli"]
        calls, seen = [], []
        token = object()

        def main(sm):
            calls.append(sm)
            seen.append(sm.config)
            sm.state
            if case["raises"]:
                raise Boom("on purpose")
            self.work(sm, prog)
            return token

        prog.inits = []
        f = hyperstate.stateful_command(prog.b.root, prog.sb.root, prog.initial, prog.key)(main)
        if prog.key == "step" and case["key"]:
            f = hyperstate.stateful_command(prog.b.root, prog.sb.root, prog.initial)(main)

        def paths(n):
            at = os.path.join(folder, n)
            return (progs[n].file if case["config"] else None, os.path.join(at, "saved") if case["resume"] else None,
                    os.path.join(at, "run") if case["dir"] else None)

        config, resume, run_dir = paths("cli")
        options = []
        for name, x in (("config", config), ("resume-from", resume), ("checkpoint-dir", run_dir)):
            if x:
                options += self.option(case, name, x)
        args = self.args(case, options, ovs)
        before = tree(os.path.join(folder, "cli"), True)
        status, output, result = run_command(f, args)
        what = "stateful command %r with %s\n" % (args, open(prog.file).read())
        label = self.quiet_cases(case, what, status, calls, output, prog.b.root)
        if label is None and config and resume:
            if calls or status == 0:
                raise Violation("%s both a config and a checkpoint: %d calls, status %r" % (what, len(calls), status))
            label = "both"
        if label:
            m = tree_differ(before, tree(os.path.join(folder, "cli"), True))
            if m:
                raise Violation("%s changed files: %s" % (what, m))
            ctx.mark(label)
            return
        other = progs["api"]
        config, resume, run_dir = paths("api")
        other.inits = []
        ref = hyperstate.StateManager(other.b.root, other.sb.root, other.initial, config or resume, run_dir, list(ovs), checkpoint_key=other.key)
        want = attempt(lambda: ref.config)
        bad = any(k in ("unknown", "bad") for k, _ in case["ovs"])
        if bad and want[0] == "ok":
            raise Violation("%s StateManager accepts %r" % (what, ovs))
        if want[0] == "error":
            if seen:
                raise Violation("%s the function got the config %r, although loading fails: %r" % (what, seen[0], want[1]))
            if status == 0:
                raise Violation("%s exit status 0, although loading fails: %r\n%s" % (what, want[1], output))
            self.names(case, what, output)
            ctx.mark("failed")
            return
        if len(calls) != 1:
            raise Violation("%s the function was called %d times; status %r\n%s" % (what, len(calls), status, output))
        if not isinstance(calls[0], hyperstate.StateManager):
            raise Violation("%s the function got %r" % (what, calls[0]))
        ref.state
        self.outcome(case, what, status, result, token, output)
        if not case["raises"]:
            self.work(ref, other)
        expect_same(ref.config, calls[0].config, what + "config", exact_class=False)
        expect_same(ref.state, calls[0].state, what + "state", exact_class=False)
        if len(prog.inits) != len(other.inits):
            raise Violation("%s initial_state was called %d times instead of %d" % (what, len(prog.inits), len(other.inits)))
        a, b = tree(os.path.join(folder, "cli")), tree(os.path.join(folder, "api"))
        m = tree_differ(b, a)
        if m:
            raise Violation("%s files differ from those of a StateManager: %s" % (what, m))
        ctx.label("ran", "dir:%s" % case["dir"])
        if ovs and (case["config"] or case["resume"] or case["dir"] == "run"):
            ctx.mark("source and overrides")

    def work(self, sm, prog):
        setattr(sm.state, prog.key, getattr(sm.state, prog.key) + 1)
        sm.step()


# ------------------------------------------------------------------ help


def type_words(u, t):
    """Texts that tell the type and have to be in its description."""
    k = kind(t)
    if k in ("int", "float", "str", "bool"):
        return [k]
    if k == "opt":
        return ["Optional"] + type_words(u, t[1])
    if k == "list":
        return ["List"] + type_words(u, t[1])
    if k == "tup":
        return ["Tuple"] + [w for x in t[1:] for w in type_words(u, x)]
    if k == "dict":
        return ["Dict"] + type_words(u, t[1]) + type_words(u, t[2])
    if k == "lit":
        return [repr(x) for x in t[1:]]
    if k == "enum":
        return [t[1]] + [v for v, _ in u["enums"][t[1]]]
    return list(t[1:])


def unwrap(t):
    while kind(t) in ("opt", "list"):
        t = t[1]
    return t


def has_struct(t):
    return isinstance(t, list) and (t[0] in ("st", "un") or (t[0] in ("opt", "list", "tup", "dict") and any(has_struct(x) for x in t[1:])))


class C29(Check):
    id = "C29"
    rule = ("random classes with and without field descriptions, help of all and queries of all field names and of near and far words; "
            "non-trivial: a name that occurs at several paths, or nested classes")
    quick = 220
    thorough = 4000

    def gen(self, d):
        g = TypeGen(d, depth=d.int(1, 3), nstructs=(1, 4), nfields=(1, 5), bigint=False, optionals=True)
        u = g.universe()
        for st in u["structs"].values():
            if d.chance(60):
                st["descriptions"] = {}
                if d.chance(35):
                    # what the class inherits is described where it comes from, unless it says otherwise; the first base goes before the others
                    parts = [self.describe(d, st, tag) for tag in "pqr"[:d.int(1, 3)]]
                    st["parts"] = [doc for doc, _ in parts]
                    for _, texts in reversed(parts):
                        st["descriptions"].update(texts)
                st["doc"], texts = self.describe(d, st, "")
                st["descriptions"].update(texts)
        names = sorted({f["n"] for st in u["structs"].values() for f in st["fields"]})
        queries = names + d.sample(["learning_rate", "x", "zzzzzz", "Lr", "step", "lr ", "s"], 3) + [names[0][:-1] or "q"]
        return {"u": u, "queries": queries, "how": d.pick(["help", "command", "empty"]), "versioned": d.chance(20),
                "value": g.root_value(), "doc": Doc(u, None).root(g.root_value())}

    def describe(self, d, st, tag):
        described = d.subset([f["n"] for f in st["fields"]], 70)
        style = d.pick(["rest", "google"])
        texts = {n: "%s %d%s" % (d.pick(["the rate", "how many of them", "used for: testing", "x = y", "a, b (c)"]), i, tag) for i, n in enumerate(described)}
        if style == "rest":
            return "A class.\n\n" + "".join(":param %s: %s\n" % x for x in texts.items()), texts
        return "A class.\n\nArgs:\n" + "".join("    %s: %s\n" % x for x in texts.items()) if texts else "A class.", texts

    def run(self, case, ctx):
        u = case["u"]
        b = Built(u)
        cls = b.root
        if case["how"] == "command":
            def show(*q):
                status, out, _ = run_command(hyperstate.command(cls)(lambda c: None), ["--hps-info"] + list(q))
                if status != 0:
                    raise Violation("--hps-info %r: status %r\n%s" % (q, status, out))
                return out
        else:
            def show(*q):
                return help_text(cls, *q)
        text = show() if case["how"] != "empty" else show("")
        lines = text.splitlines()
        rest = self.listing(u, u["root"], lines, 0, text)
        if rest:
            raise Violation("help shows more than the fields: %r\n%s" % (rest, text))
        paths = self.find(u)
        for q in case["queries"]:
            out = show(q) if case["how"] == "command" or q else show()
            shown = self.shown(out)
            exact = [p for p in paths if p[-1] == q]
            for p in exact:
                n = shown.count(".".join(p))
                if n != 1:
                    raise Violation("help for %r shows %s %d times:\n%s" % (q, ".".join(p), n, out))
                self.entry(u, p, paths[p], out)
            if len(exact) > 1:
                ctx.mark("several")
            for s in shown:
                if tuple(s.split(".")) not in paths:
                    raise Violation("help for %r shows %r, which is no field:\n%s" % (q, s, out))
            if not exact and not shown:
                raise Violation("help for %r shows nothing" % q)
            for p in exact:
                self.override(case, b, p, paths[p])
        if any(kind(unwrap(f["t"])) == "st" for f in u["structs"][u["root"]]["fields"]):
            ctx.mark("nested")

    def listing(self, u, name, lines, depth, text):
        """Consumes the lines of the fields of a struct."""
        for f in u["structs"][name]["fields"]:
            if not lines:
                raise Violation("help lacks %s of %s:\n%s" % (f["n"], name, text))
            line, lines = lines[0], lines[1:]
            if not line.startswith("  " * depth + f["n"] + ":"):
                raise Violation("help shows %r instead of the field %s of %s:\n%s" % (line, f["n"], name, text))
            self.line(u, name, f, line[len("  " * depth + f["n"]) + 1:], text)
            t = unwrap(f["t"])
            if kind(t) == "st":
                lines = self.listing(u, t[1], lines, depth + 1, text)
        return lines

    def line(self, u, name, f, line, text):
        """The part of a line after the name of a field."""
        for w in type_words(u, f["t"]):
            if w not in line:
                raise Violation("help of %s.%s does not tell the type %r: %r\n%s" % (name, f["n"], f["t"], line, text))
        if kind(unwrap(f["t"])) == "st":
            return
        main = line.split("  # ")[0]
        if "d" in f and f["d"][1] is not None:
            want = " = "
            if not has_struct(f["t"]) and "enum" not in str(f["t"]):
                want += self.default(u, f)
            if want not in line:
                raise Violation("help of %s.%s does not show the default %s: %r\n%s" % (name, f["n"], want, line, text))
        elif " = " in main and not has_struct(f["t"]):
            if not any(" = " in w for w in type_words(u, f["t"])):
                raise Violation("help of %s.%s shows a default: %r\n%s" % (name, f["n"], line, text))
        desc = u["structs"][name].get("descriptions", {}).get(f["n"])
        if desc is not None and not line.endswith(desc):
            raise Violation("help of %s.%s does not show its description %r: %r\n%s" % (name, f["n"], desc, line, text))

    def default(self, u, f):
        b = Built.__new__(Built)
        b.u, b.enums, b.classes, b.py = u, {}, {}, {}
        return repr(b.value(f["t"], f["d"][1]))

    def find(self, u, name=None, prefix=()):
        """path -> (struct, field) of everything an override can name."""
        out = {}
        for f in u["structs"][name or u["root"]]["fields"]:
            out[prefix + (f["n"],)] = (name or u["root"], f)
            t = f["t"]
            while kind(t) == "opt":
                t = t[1]
            if kind(t) == "st":
                out.update(self.find(u, t[1], prefix + (f["n"],)))
        return out

    def shown(self, out):
        return [l.split(":")[0] for l in out.splitlines() if l and not l.startswith(" ")]

    def entry(self, u, p, where, out):
        name, f = where
        lines = out.splitlines()
        head = ".".join(p) + ":"
        i = next(i for i, l in enumerate(lines) if l.startswith(head))
        self.line(u, name, f, lines[i][len(head):], out)
        t = unwrap(f["t"])
        if kind(t) == "st":
            inner = []
            for l in lines[i + 1:]:
                if not l.startswith("  "):
                    break
                inner.append(l.strip().split(":")[0])
            want = [x["n"] for x in u["structs"][t[1]]["fields"]]
            if inner != want:
                raise Violation("help of %s shows the fields %r instead of %r:\n%s" % (".".join(p), inner, want, out))

    def override(self, case, b, p, where):
        f = where[1]
        if kind(f["t"]) == "opt":
            text = "None"
        elif f["t"] == "str":
            text = "abc"
        else:
            j = self.at(case["value"], p)
            if j is None:
                return
            text = ron(Doc(case["u"], None).node(f["t"], j[0]))
            if f["t"] == "bool":
                text = text.capitalize()
        r = attempt(hyperstate.loads, b.root, ron(case["doc"]), ["%s=%s" % (".".join(p), text)])
        if r[0] == "error" and ("FieldNotFound" in type(r[1]).__name__ or "FieldsNotFound" in type(r[1]).__name__):
            raise Violation("help shows the path %s, but it is not accepted as an override: %r" % (".".join(p), r[1]))

    def at(self, j, p):
        for seg in p:
            if not isinstance(j, dict) or seg not in j:
                return None
            j = j[seg]
        return [j]
