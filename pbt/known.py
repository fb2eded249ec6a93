"""Known findings: one function per defect that is recorded in known_findings.txt, not repaired.

A witness file /verif/known/<name>.json holds {"case": {"known": "<name>"}}. Its function runs the
failing input against the real code and raises Violation while the defect is there.
"""
import dataclasses
import os
from dataclasses import dataclass, field
from enum import Enum
from typing import Any, Dict, List, Optional


import hyperstate
from c_rules import cli
from core import Violation
from hyperstate import Lazy, Serializable, StateManager, Versioned

FOUND = {}


def finding(f):
    FOUND[f.__name__] = f
    return f


def run(name, ctx):
    FOUND[name](ctx)


def check(ok, what):
    if not ok:
        raise Violation(what)


class Box(Serializable):
    def __init__(self, data):
        self.data = data

    def serialize(self):
        return self.data

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        return cls(state_dict)


# ------------------------------------------------------------------ blobs


@finding
def blob_in_plain_dataclass(ctx):
    @dataclass
    class State:
        box: Box

    path = os.path.join(ctx.dir(), "state.ron")
    hyperstate.dump(State(Box([1])), path)
    got = hyperstate.load(State, path)
    check(isinstance(got.box, Box) and got.box.data == [1], "a Serializable field of a dataclass that is not Lazy loads as %r" % (got.box,))


@finding
def blobs_of_two_files(ctx):
    @dataclass
    class State(Lazy):
        box: Box

    d = ctx.dir()
    hyperstate.dump(State(Box([1])), os.path.join(d, "a.ron"))
    hyperstate.dump(State(Box([2])), os.path.join(d, "b.ron"))
    got = hyperstate.load(State, os.path.join(d, "a.ron")).box.data
    check(got == [1], "the blob of a.ron is %r after b.ron was dumped to the same directory" % (got,))


# ------------------------------------------------------------------ schedules


@dataclass
class Step:
    step: int = 0


@finding
def schedule_in_list(ctx):
    @dataclass
    class Opt:
        lr: float

    @dataclass
    class Config:
        opts: List[Opt]

    path = os.path.join(ctx.dir(), "c.ron")
    with open(path, "w") as f:
        f.write('Config(opts: [Opt(lr: "step: 0@0 10@10")])')
    sm = StateManager(Config, Step, lambda c, x: Step(), init_path=path)
    try:
        sm.state.step = 5
        sm.step()
    except Exception as e:
        raise Violation("a schedule in a list: %r" % (e,))
    check(sm.config.opts[0].lr == 5.0, "a schedule in a list has value %r at 5" % (sm.config.opts[0].lr,))


# ------------------------------------------------------------------ schema checks and proposed rules


def versions(version, old, new, rules=(), extra=None):
    """Two versioned classes of the same name with the given fields {name: (type, default...)}."""

    def make(fields, v, rules):
        ns = {
            "version": classmethod(lambda cls: v),
            "upgrade_rules": classmethod(lambda cls: {version: list(rules)} if rules else {}),
        }
        out = []
        for n, spec in fields.items():
            t, d = spec if isinstance(spec, tuple) else (spec, None)
            if d is None:
                out.append((n, t))
            elif callable(d):
                out.append((n, t, field(default_factory=d)))
            else:
                out.append((n, t, field(default=d)))
        return dataclasses.make_dataclass("Config", out, bases=(Versioned,), namespace=ns)

    return make(old, version, ()), make(new, version + 1 if rules else version, rules)


def checker(ctx, old, new):
    from hyperstate.schema.schema_checker import SchemaChecker
    from hyperstate.schema.types import load_schema

    path = os.path.join(ctx.dir(), "schema.ron")
    cli(old, ["dump-schema", path])
    return SchemaChecker(load_schema(path), new)


def repaired(ctx, oldf, newf, text, expected, ok=None):
    """Adds the proposed rules; the text must then load as the value that `expected` gives for the new class."""
    old, new = versions(0, oldf, newf)
    c = checker(ctx, old, new)
    assert c.proposed_fixes, "no rules are proposed"
    old, new = versions(0, oldf, newf, c.proposed_fixes)
    try:
        c = checker(ctx, old, new)
        severity = c.severity().name
    except Exception as e:
        raise Violation("with the proposed rules the check fails: %r" % (e,))
    try:
        got = hyperstate.loads(new, text)
    except Exception as e:
        raise Violation("with the proposed rules the config %s is rejected: %r" % (text, e))
    check(got == expected(new), "with the proposed rules %r the config %s loads as %r" % (new.upgrade_rules(), text, got))
    check(severity == "INFO", "with the proposed rules %r the severity is %s" % (new.upgrade_rules(), severity))


@finding
def list_wrap_stays_warn(ctx):
    repaired(ctx, {"x": int}, {"x": List[int]}, "Config(version: 0, x: 3)", lambda c: c(x=[3]))


@finding
def enum_values_swapped(ctx):
    Old = Enum("Mode", [("A", 1), ("B", 2)])
    New = Enum("Mode", [("A", 2), ("B", 1)])
    repaired(ctx, {"x": Old}, {"x": New}, "Config(version: 0, x: 1)", lambda c: c(x=New.A))


@finding
def change_in_container(ctx):
    Old = dataclasses.make_dataclass("Opt", [("rate", float)])
    New = dataclasses.make_dataclass("Opt", [("rates", float)])
    repaired(ctx, {"opts": List[Old]}, {"opts": List[New]}, "Config(version: 0, opts: [Opt(rate: 1.5)])", lambda c: c(opts=[New(1.5)]))


@finding
def struct_made_optional(ctx):
    Opt = dataclasses.make_dataclass("Opt", [("lr", float)])
    repaired(ctx, {"opt": Opt}, {"opt": Optional[Opt]}, "Config(version: 0, opt: Opt(lr: 1.5))", lambda c: c(opt=Opt(1.5)))


@finding
def renamed_struct_written_empty(ctx):
    Opt = dataclasses.make_dataclass("Opt", [("lr", float, field(default=1.0))])
    repaired(
        ctx,
        {"opt": (Opt, lambda: Opt(5.0))},
        {"opti": (Opt, lambda: Opt(5.0))},
        "Config(version: 0, opt: Opt())",
        lambda c: c(opti=Opt(1.0)),
    )


@finding
def struct_gains_default(ctx):
    Opt = dataclasses.make_dataclass("Opt", [("lr", float, field(default=1.0))])
    old, new = versions(0, {"opt": Opt}, {"opt": (Opt, lambda: Opt(2.0))})
    c = checker(ctx, old, new)
    got = hyperstate.loads(new, "Config(version: 0)").opt.lr
    check(c.severity().name != "INFO" or got == 1.0, "a nested struct gets the default Opt(lr=2.0): severity %s, but an absent opt.lr changes from 1.0 to %r" % (c.severity().name, got))


@finding
def empty_struct_removed(ctx):
    Nil = dataclasses.make_dataclass("Nil", [])
    old, new = versions(0, {"nil": Nil, "x": (int, 1)}, {"x": (int, 1)})
    c = checker(ctx, old, new)
    try:
        hyperstate.loads(new, "Config(version: 0, x: 2, nil: Nil())")
        loads = True
    except Exception:
        loads = False
    check(c.severity().name != "INFO" or loads, "a field of an empty struct is removed: severity %s, but old configs do not load" % c.severity().name)


@finding
def struct_with_default_added(ctx):
    Opt = dataclasses.make_dataclass("Opt", [("lr", float)])
    old, new = versions(0, {"x": (int, 1)}, {"x": (int, 1), "opt": (Opt, lambda: Opt(2.0))})
    c = checker(ctx, old, new)
    got = hyperstate.loads(new, "Config(version: 0, x: 2)")
    assert got.opt == Opt(2.0)
    check(c.severity().name == "INFO", "adding a struct field with a default has severity %s" % c.severity().name)


@finding
def default_struct_parts_move(ctx):
    Opt = dataclasses.make_dataclass("Opt", [("lr", float, field(default=1.0))])
    repaired(ctx, {"opt": (Opt, lambda: Opt(5.0))}, {"lr": (float, 1.0)}, "Config(version: 0)", lambda c: c(lr=5.0))


@finding
def struct_replaced_leaves_moved(ctx):
    Old = dataclasses.make_dataclass("Opt", [("a_long", int), ("b_long", int)])
    repaired(
        ctx,
        {"opt": Old},
        {"opt": List[int], "a_long": int, "b_long": int},
        "Config(version: 0, opt: Opt(a_long: 1, b_long: 2))",
        lambda c: c(opt=[], a_long=1, b_long=2),
    )


# ------------------------------------------------------------------ upgrades


def upgraded(version, fields, rules, text):
    ns = {"version": classmethod(lambda cls: version), "upgrade_rules": classmethod(lambda cls: rules)}
    cls = dataclasses.make_dataclass("Config", fields, bases=(Versioned,), namespace=ns)
    try:
        return hyperstate.loads(cls, text)
    except Exception as e:
        raise Violation("%s is rejected: %r" % (text, e))


@finding
def struct_replaced_later(ctx):
    from hyperstate.schema.rewrite_rule import RenameField

    # opt: Opt(lr) is dissolved in version 1, version 2 has a new opt
    New = dataclasses.make_dataclass("New", [("rate", float, field(default=1.0))])
    got = upgraded(2, [("lr", float), ("opt", Optional[New], None)], {0: [RenameField(("opt", "lr"), ("lr",))]}, "Config(version: 0, opt: Opt(lr: 0.5))")
    check(got.opt is None, "opt: Opt(lr: 0.5), whose only field moved, becomes the new field opt with value %r instead of its default None" % (got.opt,))


@finding
def changed_default_moves_into_default_struct(ctx):
    from hyperstate.schema.rewrite_rule import ChangeDefault, RenameField

    A = dataclasses.make_dataclass("A", [("other", int, field(default=1))])
    B = dataclasses.make_dataclass("B", [("x", int, field(default=9))])
    rules = {0: [ChangeDefault(("a", "x"), 0, 9)], 1: [RenameField(("a", "x"), ("b", "x"))]}
    got = upgraded(2, [("a", A), ("b", B, field(default_factory=B))], rules, "Config(version: 0)")
    check(got.b.x == 0, "a.x, by default 0 in version 0, is %r after its default changed and it moved into b" % (got.b.x,))
