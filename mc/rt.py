"""Runs abstract programs (see rtref) on the implementation, next to the
reference interpreter."""
import json
import warnings
from decimal import Decimal

from . import rtref
from .core import Violation
from .rtref import ANY, FnError, None_, Num, Typed, Unsupported
from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.types import (FluentDecimal, FluentFloat, FluentInt, FluentNone, FluentNumber, FluentType,
                                  fluent_number)

warnings.simplefilter("ignore")


class Custom(FluentType):
    def __init__(self, text=None, error=None):
        self.text, self.error = text, error

    def format(self, locale):
        if self.error is not None:
            raise self.error
        return self.text


class Boom(Exception):
    pass


class Value(ValueError):
    pass


class Opaque:
    pass


def arg(spec):
    """spec -> (value to pass, model value)"""
    k = spec[0]
    if k == "i":
        return spec[1], Num(spec[1])
    if k == "f":
        return float(spec[1]), Num(float(spec[1]))
    if k == "d":
        return Decimal(spec[1]), Num(Decimal(spec[1]))
    if k == "b":
        return bool(spec[1]), Num(int(spec[1]))
    if k == "s":
        return spec[1], spec[1]
    if k == "num":
        v, m = arg(spec[1])
        return fluent_number(v, **spec[2]), Num(m.value, spec[2])
    if k == "None":
        return None, Unsupported(type(None))
    if k == "list":
        return [1], Unsupported(list)
    if k == "bytes":
        return b"x", Unsupported(bytes)
    if k == "opaque":
        return Opaque(), Unsupported(Opaque)
    if k == "ft":
        return Custom(spec[1]), Typed(spec[1])
    if k == "ftx":
        e = Boom(spec[1])
        return Custom(error=e), Typed(error=("Boom", (spec[1],)))
    if k == "fnone":
        return FluentNone(spec[1]), None_(spec[1])
    if k == "long":
        return "x" * spec[1], "x" * spec[1]
    raise AssertionError(spec)


def describe(x):
    """Like rtref.describe, for what the implementation passes."""
    if isinstance(x, FluentNone):
        return "none:%s" % x.name
    if isinstance(x, FluentNumber):
        if isinstance(x, FluentDecimal):
            return "d:" + Decimal.__str__(x)
        if isinstance(x, FluentFloat):
            return "f:" + float.__repr__(x)
        if isinstance(x, FluentInt):
            return "i:%d" % int(x)
    if isinstance(x, Custom):
        return "t:%s" % (x.text,)
    if type(x) is str:
        return "s:" + x
    return "?%s" % type(x).__name__


class Log:
    """Functions for the implementation; records calls."""

    def __init__(self, names=None):
        self.calls = []
        self.raised = []
        table = {
            "ECHO": self.wrap("ECHO", lambda a, k: "|".join([describe(x) for x in a] + [
                "%s=%s" % (n, describe(x)) for n, x in k.items()])),
            "ID": self.wrap("ID", lambda a, k: a[0]),
            "FAIL": self.wrap("FAIL", self.fail(Boom)),
            "FAILV": self.wrap("FAILV", self.fail(Value)),
            "FAILK": self.wrap("FAILK", self.fail(KeyError)),
            "FAILT": self.wrap("FAILT", self.fail(TypeError)),
            "NONE": self.wrap("NONE", lambda a, k: FluentNone("nn")),
            "NONE0": self.wrap("NONE0", lambda a, k: FluentNone()),
            "SEVEN": self.wrap("SEVEN", lambda a, k: FluentInt(7)),
            "BADTYPE": self.wrap("BADTYPE", lambda a, k: Custom(error=Boom("fmt"))),
            "LONG": self.wrap("LONG", lambda a, k: "y" * int(a[0])),
            "EMPTY": self.wrap("EMPTY", lambda a, k: ""),
        }
        self.table = {n: f for n, f in table.items() if names is None or n in names}

    def fail(self, cls):
        def f(a, k):
            e = cls("failed")
            self.raised.append(e)
            raise e
        return f

    def wrap(self, name, f):
        def g(*a, **k):
            self.calls.append((name, [describe(x) for x in a], [(n, describe(x)) for n, x in k.items()]))
            return f(a, k)
        g.__name__ = name
        return g


def _raise(kind, *args):
    def f(a, k):
        raise FnError((kind, args))
    return f


def _long(a, k):
    if not (len(a) == 1 and isinstance(a[0], Num)):
        raise FnError((ANY, ANY))
    return "y" * int(a[0].value)


def _id(a, k):
    if not a:
        raise FnError(("IndexError", ANY))
    return a[0]


MODEL = {
    "ECHO": lambda a, k: "|".join([rtref.describe(x) for x in a] + ["%s=%s" % (n, rtref.describe(x))
                                                                   for n, x in k.items()]),
    "ID": _id,
    "FAIL": _raise("Boom", "failed"), "FAILV": _raise("Value", "failed"), "FAILK": _raise("KeyError", "failed"),
    "FAILT": _raise("TypeError", "failed"),
    "NONE": lambda a, k: None_("nn"), "NONE0": lambda a, k: None_(None), "SEVEN": lambda a, k: Num(7),
    "BADTYPE": lambda a, k: Typed(error=("Boom", ("fmt",))), "LONG": _long, "EMPTY": lambda a, k: "",
}


class Runner:
    """One bundle with a program, and its model."""

    def __init__(self, program, isolating=True, locale="en", functions=None, source=None,
                 junk=False, separate=False):
        self.program = json.loads(json.dumps(program))
        self.source = rtref.render(self.program) if source is None else source
        self.log = Log(functions)
        self.bundle = FluentBundle([locale], functions=self.log.table, use_isolating=isolating)
        # separate: each entry is the only one of its resource
        sources = [rtref.render([e]) for e in self.program] if separate else [self.source]
        body = []
        for src in sources:
            res = FluentResource(src)
            body += res.body
            self.bundle.add_resource(res)
        n = sum(type(e).__name__ in ("Message", "Term") for e in body)
        if not junk and (n != len(self.program) or len(body) != n):
            raise Violation("the program is not read as written:\n%s" % self.source)
        self.model = rtref.Interp(self.program, {n: MODEL[n] for n in self.log.table}, isolating, locale)

    def run(self, name, attr, args, what=""):
        """args: {name: spec}.  Returns (text, errors of the model)."""
        impl, model = {}, {}
        for k, spec in args.items():
            impl[k], model[k] = arg(spec)
        m = self.bundle.get_message(name)
        pattern = m.attributes[attr] if attr else m.value
        self.log.calls[:] = []
        try:
            got, errs = self.bundle.format_pattern(pattern, impl)
        except Exception as e:
            raise Violation("format_pattern raised %r\n%s%s%s %r\n%s"
                            % (e, what, name, "." + attr if attr else "", args, self.only(name)))
        want, werrs = self.model.format(self.model.entry(name, attr), model)
        if type(got) is not str:
            raise Violation("result %r is not a string" % (got,))
        if got != want or not rtref.same_errors(errs, werrs):
            raise Violation("%s%s%s with %r gives\n  %r %r\nshould be\n  %r %r\n%s"
                            % (what, name, "." + attr if attr else "", args, got, errs, want, werrs, self.only(name)))
        if self.log.calls != self.model.calls:
            raise Violation("%s%s with %r calls\n  %r\nshould be\n  %r\n%s"
                            % (what, name, args, self.log.calls, self.model.calls, self.only(name)))
        return got, werrs

    def only(self, name):
        """The entries the message needs, for reports."""
        keep, todo = [], [("msg", name)]
        defs = {}
        for e in self.program:
            defs.setdefault((e[0], e[1]), e)
        while todo:
            k = todo.pop()
            if k in keep or k not in defs:
                continue
            keep.append(k)
            todo += list(refs(defs[k]))
        return rtref.render([defs[k] for k in sorted(keep)])


def refs(x):
    if isinstance(x, (list, tuple)):
        if len(x) == 3 and x[0] == "msg" and isinstance(x[1], str):
            yield ("msg", x[1])
        elif len(x) == 4 and x[0] == "term" and isinstance(x[1], str) and (x[3] is None or len(x[3]) == 2):
            yield ("term", x[1])
        for y in x:
            yield from refs(y)
