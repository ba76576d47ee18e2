"""C23: functions are called as written, once, and failures stay local."""
import datetime
import functools
import itertools
import json
from decimal import Decimal

from .. import rt, rtref
from ..core import Check, Result, Scope, Violation, chunks
from ..progs import F, M, N, P, PL, S, SEL, T, TR, V
from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.types import (FluentDate, FluentDateTime, FluentDecimal, FluentFloat, FluentInt, FluentNone, FluentType)

BASE = [["msg", "msg", [T("mv "), P(V("s"))], [["at", [T("ma")]]]], ["term", "t", [T("tv "), P(V("a"))], [["at", [P(V("a"))]]]],
        ["msg", "calls", [P(F("ECHO", [S("inner")])), T("+"), P(F("SEVEN"))], []], ["term", "tc", [P(F("ECHO", [V("a")]))], [["at", [P(F("ECHO", [V("a")], [["k", S("at")]]))]]]],
        ["msg", "fails", [P(F("FAIL")), T(" after")], []]]
ARGS = {"s": ["s", "str"], "i": ["i", 3], "f": ["f", "2.5"], "d": ["d", "1.50"], "ft": ["ft", "custom"], "bad": ["None"], "none": ["fnone", "nm"], "b": ["b", 1]}
POS = [S("x"), S(""), S("\\"), N("1"), N("-2.50"), N("007"), V("s"), V("i"), V("f"), V("d"), V("ft"), V("bad"), V("miss"), V("none"), V("b"), M("msg"), M("msg", "at"), M("nope"),
       TR("t"), TR("t", None, [[], [["a", N("1")]]]), PL(V("s")), PL(S("y")), F("SEVEN"), F("ECHO", [V("i")]), F("FAIL"), F("UNKNOWN"),
       F("NUMBER", [V("i")], [["minimumFractionDigits", N("1")]]), PL(SEL(V("i"), ("3", [T("three")]), ("*o", [T("o")])))]
NAMED = [[], [["k", S("v")]], [["k", N("1")]], [["a", S("1")], ["b", N("2.0")]], [["b", N("1")], ["a", S("2")], ["z-1", S("")]], [["self", S("me")]],
         [["name", S("n")], ["args", N("0")]]]
# expressions that call functions, for placement
CALLS = [F("ECHO", [S("a")]), F("ECHO", [F("ECHO", [S("b")]), F("SEVEN")]), F("FAIL"), F("FAILV", [S("c")]), F("UNKNOWN", [F("ECHO", [S("d")])]), F("NONE"), F("BADTYPE"),
         M("calls"), M("fails"), TR("tc", None, [[], [["a", S("e")]]]), TR("tc", None, [[F("ECHO", [S("positional")])], [["a", S("f")]]]),
         PL(F("ECHO", [S("g")])), F("NUMBER", [F("SEVEN")]), F("NUMBER", [F("FAIL")]), F("ID", [F("FAILK")]), F("ECHO", [M("calls"), TR("tc")]),
         SEL(F("SEVEN"), ("7", [P(F("ECHO", [S("hit")]))]), ("*o", [P(F("ECHO", [S("miss")]))])),
         SEL(F("ECHO", [S("h")]), ("one", [P(F("FAIL"))]), ("*o", [P(F("ECHO", [S("dflt")]))])),
         SEL(TR("tc", "at", [[], [["a", S("i")]]]), ("one", [P(F("FAIL"))]), ("*o", [P(F("SEVEN"))])),
         SEL(F("FAIL"), ("x", [P(F("ECHO", [S("no")]))]), ("*y", [P(F("ECHO", [S("yes")]))]), ("z", [P(F("FAILV"))]))]


def place(e, k):
    """One call in a larger pattern."""
    return [
        [P(e)], [T("a "), P(e), T(" b")], [P(e), P(e)], [P(V("s")), T(" "), P(e), T(" "), P(V("miss"))],
        [P(SEL(V("i"), ("2", [P(F("FAIL"))]), ("3", [P(e), T("!")]), ("*o", [P(F("ECHO", [S("wrong")]))])))],
        [P(SEL(V("miss"), ("2", [P(F("FAIL"))]), ("3", [P(F("ECHO", [S("wrong")]))]), ("*o", [P(e)])))],
        [P(F("ECHO", [e if e[0] != "sel" else PL(e), V("i")], [["k", S("w")]]))], [P(PL(PL(e)))],
    ][k]


class Gone(Exception):
    pass


class Odd(KeyError):
    def __str__(self):
        return "odd"


EXCEPTIONS = [Exception("e"), ValueError("v"), TypeError("t"), KeyError("k"), IndexError("i"), AttributeError("a"), RuntimeError("r"), ZeroDivisionError(),
              RecursionError("rec"), StopIteration(), StopAsyncIteration(), NotImplementedError(), OSError(5, "os"), UnicodeDecodeError("utf-8", b"x", 0, 1, "u"),
              MemoryError(), AssertionError(), LookupError("l"), ArithmeticError(), Gone("g"), Odd("o"), Warning("w"), EOFError(), ImportError("x"),
              OverflowError(), BufferError()]


class Callable_:
    def __init__(self, f):
        self.f = f

    def __call__(self, *args, **kw):
        return self.f(*args, **kw)

    def method(self, *args, **kw):
        return self.f(*args, **kw)


class Empty(Callable_):
    def __len__(self):
        return 0


class Equal(Callable_):
    """Equal to everything, and not hashable."""
    def __eq__(self, other):
        return True
    __hash__ = None


def as_class(f):
    class K(str):
        def __new__(cls, *args, **kw):
            return str.__new__(cls, f(*args, **kw))
    return K


CALLABLES = [lambda f: f, lambda f: lambda *a, **k: f(*a, **k), Callable_, Empty, Equal, lambda f: Callable_(f).method, functools.partial, as_class,
             lambda f: functools.lru_cache(maxsize=0)(f), lambda f: Empty(f).__call__]
# arguments in the message -> what arrives
SHAPES = [("", (), {}), ("1", (1,), {}), ('"a"', ("a",), {}), ('1, "b"', (1, "b"), {}), ("k: 1", (), {"k": 1}), ('1, k: "v"', (1,), {"k": "v"}),
          ('"x", 2, k: 1, l: "m"', ("x", 2), {"k": 1, "l": "m"}), ("l: 1, k: 2", (), {"k": 2, "l": 1})]


def sig0():
    return "s"


def sig1(x):
    return "s"


def sig_k(x=0, *, k):
    return "s"


def sig_kl(k=0, l=0):
    return "s"


def sig_po(x=0, /, **kw):
    return "s"


def sig_va(*args):
    return "s"


SIGNATURES = [sig0, sig1, sig_k, sig_kl, sig_po, sig_va]


class C23(Check):
    id = "C23"
    assumptions = ["functions raise subclasses of Exception", "named arguments distinct (the parser refuses others)"]

    def scopes(self, tier):
        thorough = tier == "thorough"
        np_ = range(len(POS))

        def gen_shapes(block):
            for i in block:
                yield ["shape", i]

        def gen_place(block):
            for i, k in block:
                yield ["place", i, k]

        def gen_fail(block):
            for k in block:
                yield ["fail", k]

        def gen_seq(block):
            for i, j in block:
                yield ["seq", i, j, int(thorough)]
        return [
            Scope("arguments", "every list of <=3 positional arguments of %d kinds x %d lists of named ones: what the function receives"
                  % (len(POS), len(NAMED)), [[i] for i in np_], gen_shapes),
            Scope("places", "%d calling expressions in pairs, %d places, the calls in order" % (len(CALLS), 8),
                  [[(i, k)] for i in range(len(CALLS)) for k in range(8)], gen_place),
            Scope("sequences", "every sequence of %d calling expressions of %d" % (4 if thorough else 3, len(CALLS)), [[(i, j)] for i in range(len(CALLS)) for j in range(len(CALLS))], gen_seq),
            Scope("failures", "every subset of 5 calls failing, %d exceptions, in text, arguments, selectors, variants" % len(EXCEPTIONS),
                  [[k] for k in range(len(EXCEPTIONS))], gen_fail),
            Scope("registries", "every subset of names registered in two bundles, custom NUMBER and DATETIME included", [[k] for k in range(16)],
                  lambda block: (["reg", k, l] for k in block for l in range(16))),
            Scope("once", "%d kinds of callable x %d exceptions and none x %d argument lists x repeated in one pattern"
                  % (len(CALLABLES), len(EXCEPTIONS), len(SHAPES)), [[i] for i in range(len(CALLABLES))],
                  lambda block: (["once", i, e] for i in block for e in range(-1, len(EXCEPTIONS)))),
            Scope("signatures", "%d functions of fixed signatures x %d argument lists" % (len(SIGNATURES), len(SHAPES)), [[i] for i in range(len(SIGNATURES))],
                  lambda block: (["sig", i] for i in block)),
            Scope("types", "type and value of each kind of argument a function receives", [0], lambda b: [["types"]]),
        ]

    def run_case(self, scope, case):
        return getattr(self, "do_" + case[0])(*case[1:])

    def run_all(self, prog, names, argsets=(ARGS,), isolating=False):
        r = rt.Runner(prog, isolating=isolating)
        outs, n = set(), 0
        for args in argsets:
            for name in names:
                text, errs = r.run(name, None, args)
                outs.add((len(errs), text[:16]))
                # the exceptions themselves are reported
                n += 1
        return Result(len(outs), traces=n, states=n, transitions=n)

    def do_shape(self, i):
        prog, names = list(BASE), []
        lists = [[]] + [[POS[i]]] + [[POS[i], x] for x in POS]
        lists += [[POS[i], x, y] for x in POS for y in POS]
        for pos in lists:
            for named in NAMED if len(pos) < 3 else NAMED[:2]:
                names.append("m%d" % len(names))
                prog.append(["msg", names[-1], [T("<"), P(F("ECHO", json.loads(json.dumps(pos)), named)), T(">")], []])
        return self.run_all(prog, names)

    def do_place(self, i, k):
        prog, names = list(BASE), []
        for j, y in enumerate(CALLS):
            p = place(CALLS[i], k)
            q = place(y, (k + j) % 8)
            names += ["m%d" % j, "n%d" % j]
            prog += [["msg", "m%d" % j, json.loads(json.dumps([P(S("-")), *p, P(S("-")), *q])), []],
                     ["msg", "n%d" % j, json.loads(json.dumps([P(M("h%d" % j)), P(S(" ")), P(M("h%d" % j, "at")), P(M("h%d" % j))])), []],
                     ["msg", "h%d" % j, json.loads(json.dumps(p)), [["at", json.loads(json.dumps(q))]]]]
        return self.run_all(prog, names, isolating=bool(k % 2))

    def do_seq(self, i, j, more):
        prog, names = list(BASE), []
        for k, z in enumerate(CALLS):
            names.append("m%d" % k)
            prog.append(["msg", names[-1], json.loads(json.dumps([P(CALLS[i]), P(CALLS[j]), T(" "), P(z)])), []])
            for l, u in enumerate(CALLS if more else []):
                names.append("m%d-%d" % (k, l))
                prog.append(["msg", names[-1], json.loads(json.dumps([P(CALLS[i]), P(CALLS[j]), P(z), T(" "), P(u)])), []])
        return self.run_all(prog, names)

    def do_fail(self, k):
        exc = EXCEPTIONS[k]
        n = 0
        shapes = [
            ("m = A{ F0() }B{ F1() }C{ F2() }D{ F3() }E{ F4() }G\n", [0, 1, 2, 3, 4], "A{0}B{1}C{2}D{3}E{4}G"),
            ("m = A{ F0() }B{ r }C{ -t }G\nr = { F1() }x{ F2() }\n-t = { F3() } { F4() }\n", [0, 1, 2, 3, 4], "A{0}B{1}x{2}C{3} {4}G"),
            ("m = { F0() ->\n    [f0] A{ F1() }\n   *[other] B{ F2() }\n    }{ F3() ->\n    [x] { F4() }\n   *[y] Y{ F4() }\n    }\n", None, None),
            ("m = { F0(F1(F2()), F3()) }{ F4() }\n", None, None),
        ]
        for bits in range(32):
            def fn(i):
                e = self.copy(exc)

                def f(*args, **kw):
                    log.append((i, len(args), len(kw)))
                    if bits >> i & 1:
                        raised.append(e)
                        raise e
                    return "f%d" % i
                return f
            for src, order, shape in shapes:
                log, raised = [], []
                b = FluentBundle(["en"], functions={"F%d" % i: fn(i) for i in range(5)}, use_isolating=False)
                b.add_resource(FluentResource(src))
                for round_ in range(2):
                    log[:], raised[:] = [], []
                    text, errs = b.format_pattern(b.get_message("m").value, {})
                    n += 1
                    out = ["F%d()" % i if bits >> i & 1 else "f%d" % i for i in range(5)]
                    if shape is None and "->" in src:
                        want_order = [0, 2 if bits & 1 else 1, 3, 4]
                        want = ("B" + out[2] if bits & 1 else "A" + out[1]) + "Y" + out[4]
                        sizes = [0, 0, 0, 0]
                    elif shape is None:
                        want_order, want, sizes = [2, 1, 3, 0, 4], out[0] + out[4], [0, 1, 0, 2, 0]
                    else:
                        want_order, want, sizes = order, shape.format(*out), [0] * 5
                    if text != want:
                        raise Violation("%r with failing %s: %r, should be %r" % (src, bin(bits), text, want))
                    if [x[0] for x in log] != want_order or [x[1] for x in log] != sizes or any(x[2] for x in log):
                        raise Violation("%r with failing %s calls %r, should call %r" % (src, bin(bits), log, want_order))
                    if len(errs) != len(raised) or any(a is not b_ for a, b_ in zip(errs, raised)):
                        raise Violation("%r with failing %s: errors %r, raised %r" % (src, bin(bits), errs, raised))
        return Result(n, traces=n, states=n, transitions=n)

    @staticmethod
    def copy(e):
        try:
            return type(e)(*e.args)
        except TypeError:
            return e

    def do_reg(self, k, l):
        """k, l: which of these are registered in the two bundles."""
        names = ["NUMBER", "DATETIME", "A", "B-C_1"]
        src = 'n = { NUMBER($n) }\nd = { DATETIME($d) }\na = { A($n) }\nb = { B-C_1($n, x: 1) }\ns = { NUMBER($n) ->\n    [k1] K\n   *[o] O\n    }\nx = { a } { b }\n'
        res = FluentResource(src)
        logs, bundles = [[], []], []
        for w, bits in ((0, k), (1, l)):
            fs = {}
            for i, name in enumerate(names):
                if bits >> i & 1:
                    def f(*args, _w=w, _n=name, **kw):
                        logs[_w].append((_n, [type(a) for a in args], sorted(kw.items())))
                        return "k%d" % _w
                    fs[name] = f
            b = FluentBundle(["en"], functions=fs if bits else ([None, {}][w]), use_isolating=False)
            b.add_resource(res)
            bundles.append(b)
        args = {"n": 5, "d": datetime.date(2020, 1, 2)}
        n = 0
        for order in ((0, 1), (1, 0)):
            for name in "ndabsx":
                for w in order:
                    bits = (k, l)[w]
                    logs[0][:], logs[1][:] = [], []
                    text, errs = bundles[w].format_pattern(bundles[w].get_message(name).value, args)
                    n += 1
                    own = "k%d" % w
                    na, nb = bits >> 2 & 1, bits >> 3 & 1
                    calls_a, calls_b = [("A", [FluentInt], [])], [("B-C_1", [FluentInt], [("x", 1)])]
                    want, calls, bad = {
                        "n": (own, [("NUMBER", [FluentInt], [])], 0) if bits & 1 else ("5", [], 0),
                        "d": (own, [("DATETIME", [FluentDate], [])], 0) if bits & 2 else ("Jan 2, 2020", [], 0),
                        "a": (own, calls_a, 0) if na else ("A()", [], 1),
                        "b": (own, calls_b, 0) if nb else ("B-C_1()", [], 1),
                        "s": ("K" if bits & 1 and w == 1 else "O", [("NUMBER", [FluentInt], [])] if bits & 1 else [], 0),
                        "x": ("%s %s" % (own if na else "A()", own if nb else "B-C_1()"), (calls_a if na else []) + (calls_b if nb else []), (not na) + (not nb)),
                    }[name]
                    if text != want or logs[w] != calls or logs[1 - w] or len(errs) != bad or not all(type(e).__name__ == "FluentReferenceError" for e in errs):
                        raise Violation("%s with %s registered (other bundle: %s): %r %r, calls %r; should be %r, calls %r"
                                        % (name, bin(bits), bin((k, l)[1 - w]), text, errs, logs, want, calls))
        return Result(n, traces=n, states=n, transitions=n)

    def do_once(self, i, e):
        log = []

        def f(*args, **kw):
            log.append((args, list(kw.items())))
            if e >= 0:
                raise exc
            return "r"
        exc = self.copy(EXCEPTIONS[e])
        b = FluentBundle(["en"], functions={"F": CALLABLES[i](f)}, use_isolating=False)
        b.add_resource(FluentResource("".join("m%d = { F(%s) }\nn%d = { F(%s) } { F(%s) }{ F(1) ->\n   *[a] { F(%s) }\n }\n" % (k, s[0], k, s[0], s[0], s[0])
                                              for k, s in enumerate(SHAPES))))
        n = 0
        for k, (src, pos, named) in enumerate(SHAPES):
            one = (pos, [tuple(x.split(": ")) for x in src.split(", ") if ":" in x])
            one = (pos, [(a, named[a]) for a, _ in one[1]])
            r = "F()" if e >= 0 else "r"
            for name, want, calls in (("m", r, [one]), ("n", "%s %s%s" % (r, r, r), [one, one, ((1,), []), one])):
                del log[:]
                text, errs = b.format_pattern(b.get_message("%s%d" % (name, k)).value, {})
                n += 1
                if text != want or log != calls or len(errs) != (len(calls) if e >= 0 else 0) or any(x is not exc for x in errs):
                    raise Violation("F(%s) (%s) raising %r: %r %r, calls %r; should be %r, calls %r" % (src, name, e >= 0 and exc, text, errs, log, want, calls))
        return Result(n, traces=n, states=n, transitions=n)

    def do_sig(self, i):
        f = SIGNATURES[i]
        b = FluentBundle(["en"], functions={"F": f}, use_isolating=False)
        b.add_resource(FluentResource("".join("m%d = { F(%s) }!\n" % (k, s[0]) for k, s in enumerate(SHAPES))))
        for k, (src, pos, named) in enumerate(SHAPES):
            try:
                f(*pos, **named)
                want, bad = "s!", False
            except TypeError:
                want, bad = "F()!", True
            text, errs = b.format_pattern(b.get_message("m%d" % k).value, {})
            if text != want or bad != (len(errs) == 1) or any(type(x) is not TypeError for x in errs):
                raise Violation("%s called as F(%s): %r %r, should be %r" % (f.__name__, src, text, errs, want))
        return Result(i, traces=len(SHAPES), states=len(SHAPES), transitions=len(SHAPES))

    def do_types(self):
        cases = [
            (3, FluentInt, 3), (True, FluentInt, 1), (-10 ** 20, FluentInt, -10 ** 20), (2.5, FluentFloat, 2.5), (Decimal("1.50"), FluentDecimal, Decimal("1.50")),
            ("s", str, "s"), (datetime.date(2020, 1, 2), FluentDate, datetime.date(2020, 1, 2)),
            (datetime.datetime(2020, 1, 2, 3, 4, 5, 6), FluentDateTime, datetime.datetime(2020, 1, 2, 3, 4, 5, 6)), (None, FluentNone, FluentNone("x")), ([1], FluentNone, FluentNone("x")),
        ]
        lits = [("1", FluentInt, 1), ("1.0", FluentFloat, 1.0), ("-0.50", FluentFloat, -0.5), ("007", FluentInt, 7), ('"1"', str, "1"), ('"\\u0041"', str, "A"),
                ("{ 1 }", str, "1"), ('{ "x" }', str, "x"), ("msg", str, "M"), ("-t", str, "T"), ("$nope", FluentNone, FluentNone("nope")), ("nope", FluentNone, FluentNone("{nope}")),
                ("G()", FluentNone, FluentNone("G()")), ("F(1)", FluentInt, 99), ("NUMBER(1.5)", FluentFloat, 1.5)]
        n = 0
        got = []

        def f(*args, **kw):
            got.append((args, kw))
            return FluentInt(99)
        b = FluentBundle(["en"], functions={"F": f}, use_isolating=False)
        b.add_resource(FluentResource("m = { F($x) }\nmsg = M\n-t = T\n" + "".join("p%d = { F(%s) }\n" % (i, l[0]) for i, l in enumerate(lits))
                                      + "".join("k%d = { F(k: %s) }\n" % (i, l[0]) for i, l in enumerate(lits[:6])) + "-u = { F($v) }\n"
                                      + "".join("t%d = { -u(v: %s) }\n" % (i, l[0]) for i, l in enumerate(lits[:6]))))
        for value, typ, want in cases:
            got.clear()
            text, errs = b.format_pattern(b.get_message("m").value, {"x": value})
            n += 1
            if len(got) != 1 or type(got[0][0][0]) is not typ or got[0][0][0] != want or got[0][1] or text != "99":
                raise Violation("F(%r) receives %r, result %r" % (value, got, text))
        for kind in "pkt":
            for i, (l, typ, want) in enumerate(lits if kind == "p" else lits[:6]):
                got.clear()
                b.format_pattern(b.get_message("%s%d" % (kind, i)).value, {})
                n += 1
                x = got[-1][1]["k"] if kind == "k" else got[-1][0][0]
                if type(x) is not typ or x != want:
                    raise Violation("%s%d: F receives %r for %s" % (kind, i, got, l))
        return Result(n, traces=n, states=n, transitions=n)


CHECK = C23()
