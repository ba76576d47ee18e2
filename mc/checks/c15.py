"""C15: formatting never raises; failures are errors plus fallback text."""
import collections
import datetime
import enum
import itertools
import math
from decimal import Decimal
from fractions import Fraction

from .. import numref, rt
from ..core import Check, Result, Scope, Violation, chunks
from ..progs import F, M, N, P, PL, S, SEL, T, TR, V, ARGSETS
from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.types import FluentInt, FluentNone, FluentType, fluent_date, fluent_number

ARGS = {"ok": ["s", "fine"], "n": ["i", 3], "bad": ["None"], "lst": ["list"], "byt": ["bytes"], "opq": ["opaque"],
        "ftx": ["ftx", "kaput"], "inf": ["f", "inf"], "long": ["long", 2500]}

FAULTS = [V("miss"), V("bad"), V("lst"), V("byt"), V("opq"), V("ftx"), M("miss"), M("ref", "miss"), M("noval"), M("miss", "x"),
          TR("miss"), SEL(TR("miss", "x", [[V("miss")], [["k", S("v")]]]), ("v", [T("V")]), ("*d", [T("D")])), TR("t", None, [[V("miss")], []]),
          F("FAIL"), F("FAILV"), F("FAILK", [V("ok")]), F("FAILT"), F("UNKNOWN"), F("UNKNOWN", [V("miss")]), F("BADTYPE"),
          F("NUMBER", [V("ok")]), F("NUMBER"), F("NUMBER", [V("n"), V("n")]), F("NUMBER", [V("miss")]),
          F("NUMBER", [V("n")], [["style", S("nope")]]), F("NUMBER", [V("n")], [["bogus", N("1")]]),
          F("NUMBER", [V("n")], [["style", S("currency")]]), F("DATETIME", [V("n")]), F("DATETIME"),
          F("DATETIME", [V("miss")]), F("ECHO", [V("miss")]), F("ID"), M("cyc"), TR("tcyc"), M("ref", "cyc"),
          SEL(V("miss"), ("a", [T("A")]), ("*b", [T("dflt")])), SEL(F("FAIL"), ("a", [T("A")]), ("*b", [P(F("FAILV"))])),
          SEL(V("bad"), ("one", [T("A")]), ("*b", [P(V("miss"))])), SEL(V("n"), ("3", [P(V("miss"))]), ("*b", [T("B")])),
          SEL(TR("t", "miss"), ("a", [T("A")]), ("*b", [T("b")])), PL(V("miss")), PL(M("miss")), PL(PL(F("FAIL")))]
OKS = [V("ok"), V("n"), S("lit"), N("2.50"), M("good"), M("ref", "x"), TR("t"), F("ECHO", [V("n")], [["k", N("1")]]),
       F("NUMBER", [V("n")], [["minimumFractionDigits", N("2")]]), SEL(V("n"), ("3", [T("three")]), ("*o", [T("oth")])),
       PL(V("ok")), TR("tv", None, [[], [["v", S("arg")]]])]
BASE = [
    ["msg", "good", [T("good value")], []], ["msg", "noval", None, [["x", [T("only attr")]]]],
    ["msg", "ref", [T("ref")], [["x", [T("attr "), P(V("ok"))]], ["cyc", [P(M("ref", "cyc"))]]]],
    ["msg", "cyc", [T("c "), P(M("cyc"))], []], ["term", "tcyc", [P(TR("tcyc"))], []],
    ["term", "t", [T("term")], [["x", [T("tx")]]]], ["term", "tv", [P(V("v"))], []],
]


# contexts in which a pattern p is evaluated: name -> (extra entries, the pattern to format)
def contexts(p, k):
    h = "h%s" % k
    return [
        ([], p),
        ([["msg", h, p, []]], [T("via "), P(M(h)), T(".")]),
        ([["msg", h, [T("x")], [["a", p]]]], [P(M(h, "a"))]),
        ([["term", h, p, []]], [P(TR(h)), T(" / "), P(TR(h, None, [[], [["ok", S("TA")], ["n", N("3")]]]))]),
        ([["term", h, [T("x")], [["a", p]]]], [P(SEL(TR(h, "a"), ("fine", [T("F")]), ("*o", [T("o"), P(TR(h))])))]),
        ([], [T("v: "), P(SEL(V("n"), ("1", [T("no")]), ("3", p), ("*o", [T("o")])))]),
        ([], [P(SEL(V("miss"), ("1", [T("no")]), ("*o", p)))]),
        ([["msg", h, p, []]], [P(F("ECHO", [M(h), V("ok")], [["k", N("1")]])), P(PL(M(h)))]),
        ([["msg", h, p, []], ["msg", h + "b", [P(M(h)), T("+")], []], ["term", h + "c", [P(M(h + "b"))], []]],
         [P(TR(h + "c")), T("-"), P(M(h)), P(M(h + "b"))]),
    ]


class Strange(enum.IntEnum):
    ONE = 1


class StrSub(str):
    pass


class IntSub(int):
    pass


class BadStr:
    def __str__(self):
        raise RuntimeError("no str")
    __repr__ = __str__


class BadZone(datetime.tzinfo):
    def utcoffset(self, dt):
        raise RuntimeError("no offset")
    tzname = dst = utcoffset


class Raises(FluentType):
    def __init__(self, e):
        self.e = e

    def format(self, locale):
        raise self.e


class FormatsTo(FluentType):
    def __init__(self, what):
        self.what = what

    def format(self, locale):
        return self.what


class Uncomparable(FluentType):
    """Fails when it is matched against a variant's key."""

    def __eq__(self, other):
        raise LookupError("not comparable")
    __hash__ = object.__hash__

    def format(self, locale):
        return "U"


UTC = datetime.timezone.utc
# name -> (factory, expected text without options, or None when it must be an error)
WEIRD = {
    "bytes": (lambda: b"b", None), "bytearray": (lambda: bytearray(b"b"), None), "list": (lambda: ["x"], None),
    "dict": (lambda: {"a": 1}, None), "set": (lambda: {1}, None), "tuple": (lambda: (1,), None), "none": (lambda: None, None),
    "lambda": (lambda: (lambda: 1), None), "complex": (lambda: 1j, None), "object": (object, None),
    "fraction": (lambda: Fraction(1, 2), None), "badstr": (BadStr, None), "class": (lambda: str, None), "type": (lambda: FluentInt, None),
    "time": (lambda: datetime.time(1, 2), None), "delta": (lambda: datetime.timedelta(1), None), "generator": (lambda: iter([1]), None),
    "ellipsis": (lambda: ..., None), "exception": (lambda: ValueError("v"), None), "module": (lambda: math, None),
    "base-type": (FluentType, None), "bad-zone": (lambda: datetime.datetime(2020, 1, 2, tzinfo=BadZone()), ...),
    "raise-lookup": (lambda: Raises(KeyError("k")), None), "raise-type": (lambda: Raises(TypeError("k")), None),
    "raise-recursion": (lambda: Raises(RecursionError("k")), None), "raise-value": (lambda: Raises(ValueError("k")), None),
    "raise-stop": (lambda: Raises(StopIteration()), None), "raise-mem": (lambda: Raises(MemoryError()), None),
    "raise-index": (lambda: Raises(IndexError()), None), "raise-assert": (lambda: Raises(AssertionError()), None),
    "fmt-int": (lambda: FormatsTo(5), None), "fmt-none": (lambda: FormatsTo(None), None), "fmt-bytes": (lambda: FormatsTo(b"x"), None),
    "fmt-list": (lambda: FormatsTo(["x"]), None), "fmt-fluent": (lambda: FormatsTo(FluentNone("y")), None),
    "fmt-sub": (lambda: FormatsTo(StrSub("sub")), "sub"), "uncomparable": (Uncomparable, "U"),
    "true": (lambda: True, "1"), "intenum": (lambda: Strange.ONE, "1"), "strsub": (lambda: StrSub("sub"), "sub"),
    "intsub": (lambda: IntSub(7), "7"), "str": (lambda: "text", "text"), "empty": (lambda: "", ""), "int": (lambda: -5, "-5"),
    "zero": (lambda: 0, "0"), "negzero": (lambda: -0.0, ...), "float": (lambda: 1.5, "1.5"), "dec": (lambda: Decimal("2.25"), "2.25"),
    "big": (lambda: 10 ** 24, "1" + ",000" * 8), "big28": (lambda: 10 ** 28, ...), "huge": (lambda: 10 ** 400, ...), "huge5": (lambda: 10 ** 5000, ...),
    "hugedec": (lambda: Decimal("1e400"), ...), "tinydec": (lambda: Decimal("1e-400"), ...), "prec": (lambda: Decimal("1." + "1" * 60), ...),
    "inf": (lambda: math.inf, ...), "-inf": (lambda: -math.inf, ...), "nan": (lambda: math.nan, ...),
    "dinf": (lambda: Decimal("Infinity"), ...), "dnan": (lambda: Decimal("NaN"), ...), "dsnan": (lambda: Decimal("sNaN"), ...),
    "maxf": (lambda: 1.7976931348623157e308, ...), "minf": (lambda: 5e-324, ...),
    "date": (lambda: datetime.date(2020, 1, 2), "Jan 2, 2020"), "datetime": (lambda: datetime.datetime(2020, 1, 2, 3, 4), "Jan 2, 2020"),
    "datemin": (lambda: datetime.date.min, ...), "datemax": (lambda: datetime.date.max, ...),
    "dtmin": (lambda: datetime.datetime.min, ...), "dtmax": (lambda: datetime.datetime.max, ...),
    "dtminutc": (lambda: datetime.datetime.min.replace(tzinfo=datetime.timezone(datetime.timedelta(hours=14))), ...),
    "dtmaxutc": (lambda: datetime.datetime.max.replace(tzinfo=datetime.timezone(datetime.timedelta(hours=-12))), ...),
    "fint": (lambda: fluent_number(3, minimumFractionDigits=1), "3.0"), "fnone": (lambda: FluentNone("gone"), "gone"),
    "fnone0": (lambda: FluentNone(), "???"), "surrogate": (lambda: "\ud800", "\ud800"), "nul": (lambda: "\0", "\0"),
}
USES = [
    ("lone", "m = { $x }", "{}"), ("text", "m = A{ $x }B", "A{}B"), ("twice", "m = { $x } and { $x }", "{} and {}"),
    ("ref", "m = r { i }\ni = { $x }", "r {}"), ("attr", "m = { i.a }\ni =\n    .a = <{ $x }>", "<{}>"),
    ("term", "m = { -t(x: 1) }{ $x }\n-t = t{ $x }", "t1{}"), ("nested", "m = { { $x } }!", "{}!"),
    ("selector", "m = { $x ->\n    [zzz] Z\n   *[other] o { $x }\n    } end", None),
    ("ordinal", "m = { NUMBER($x, type: \"ordinal\") ->\n    [1] Z\n   *[other] o\n    } end", None),
    ("numsel", "m = { $x ->\n    [1] one\n    [one] 1\n    [0.5] half\n   *[few] o\n    } end", None),
    ("number", "m = { NUMBER($x) } end", None), ("digits", "m = { NUMBER($x, minimumFractionDigits: 2) } end", None),
    ("signif", "m = { NUMBER($x, maximumSignificantDigits: 2) } end", None), ("percent", "m = { NUMBER($x, style: \"percent\") } end", None),
    ("currency", "m = { NUMBER($x, style: \"currency\", currency: \"EUR\") } end", None),
    ("datetime", "m = { DATETIME($x) } end", None), ("full", "m = { DATETIME($x, dateStyle: \"full\", timeStyle: \"full\") } end", None),
    ("zone", "m = { DATETIME($x, timeZone: \"Asia/Tokyo\", timeStyle: \"short\") } end", None),
    ("func", "m = { TAKE($x) } end", "took end"), ("funcout", "m = { GIVE() } end", None),
    ("both", "m = { GIVE() ->\n    [1] one\n   *[o] o { TAKE($x) }\n    } { $x } end", None),
]
OPTVALUES = ["0", "1", "2", "-1", "1.5", "20", "100", "1000", "99999999999999999999", '"x"', '""', '"2"', '"decimal"', '"percent"', '"currency"',
             '"ordinal"', '"full"', '"short"', '"Nowhere/None"', '"Europe/Paris"', '"../../etc/passwd"', '"\\u0000"', '"EUR"', '"XYZ"', '"code"', '"name"', '"false"']
NUMOPTS = ["style", "type", "currency", "currencyDisplay", "useGrouping", "minimumIntegerDigits", "minimumFractionDigits",
           "maximumFractionDigits", "minimumSignificantDigits", "maximumSignificantDigits", "bogus", "value", "self"]
DATEOPTS = ["timeZone", "hour12", "weekday", "year", "timeZoneName", "dateStyle", "timeStyle", "bogus", "dt", "self"]


def bundle(source, **kw):
    b = FluentBundle(kw.pop("locales", ["en"]), use_isolating=kw.pop("iso", False), **kw)
    b.add_resource(FluentResource(source))
    return b


def checked(b, name, args, what):
    """Formats; the result must be text and a new list of exceptions."""
    try:
        got = b.format_pattern(b.get_message(name).value, args)
    except Exception as e:
        raise Violation("%s raised %s: %.200s" % (what, type(e).__name__, e))
    if not isinstance(got, tuple) or len(got) != 2 or not isinstance(got[0], str) or type(got[1]) is not list:
        raise Violation("%s returned %r" % (what, got))
    if not all(isinstance(e, Exception) for e in got[1]):
        raise Violation("%s: errors are %r" % (what, got[1]))
    return got


class C15(Check):
    id = "C15"

    def scopes(self, tier):
        thorough = tier == "thorough"
        nf, no = len(FAULTS), len(OKS)
        ncx = len(contexts([], 0))

        def gen_pairs(block):
            for i in block:
                for k in range(ncx):
                    yield ["pair", i, k]

        def gen_sets(block):
            for i, j in block:
                for k in range(ncx):
                    yield ["slots", i, j, k]

        def gen_weird(block):
            for w in block:
                for u in range(len(USES)):
                    yield ["weird", w, u]

        def gen_opts(block):
            for fn, o in block:
                for v in OPTVALUES:
                    yield ["opt", fn, o, v]

        def gen_opt2(block):
            for a, b in block:
                yield ["opt2", a, b]

        def gen_deep(block):
            for shape, n in block:
                yield ["deep", shape, n]
        depths = [10, 50, 90, 100, 120, 150, 200, 300, 500, 900, 1500, 3000] + (list(range(60, 400, 10)) if thorough else [])
        fj = range(nf) if thorough else range(0, nf, 2)
        return [
            Scope("pairs", "every ordered pair of %d failing and %d good expressions side by side, in %d contexts, isolation on/off"
                  % (nf, no, ncx), chunks(range(nf + no), 64), gen_pairs),
            Scope("slots", "every subset of 4 slots failing, for %d pairs of failing expressions, in %d contexts" % (len(fj) * len(fj), ncx),
                  [[(i, j)] for i in fj for j in fj], gen_sets),
            Scope("arguments", "%d unusual argument or function result values x %d uses x %d locales"
                  % (len(WEIRD), len(USES), len(LOCALES)), [[w] for w in WEIRD], gen_weird),
            Scope("options", "every option of NUMBER and DATETIME x %d values x %d argument values" % (len(OPTVALUES), len(OPTARGS)),
                  [[("NUMBER", o)] for o in NUMOPTS] + [[("DATETIME", o)] for o in DATEOPTS], gen_opts),
            Scope("option-pairs", "pairs of NUMBER options with values at and past their range",
                  [[(a, b)] for a, b in itertools.combinations(NUMOPTS[:10] if thorough else NUMOPTS[:1] + NUMOPTS[2:3] + NUMOPTS[5:10], 2)], gen_opt2),
            Scope("deep", "chains and nestings of %d shapes up to 3000 levels" % len(SHAPES),
                  [[(s, n)] for s in SHAPES for n in depths], gen_deep),
            Scope("counts", "%d failing expressions repeated up to 999 times in one pattern, and over nested patterns: each failure is its own error"
                  % nf, [[i] for i in range(nf)], lambda b: (["count", i, n] for i in b for n in (COUNTS if not thorough else range(1, 1000)))),
            Scope("mappings", "%d kinds of argument dicts x every subset of %d unusual argument names, used and unused arguments"
                  % (len(KINDS), len(KEYS)), [[(k, e)] for k in KINDS for e in range(2)],
                  lambda b: (["mapping", k, e] for k, e in b)),
            Scope("calls", "args None and {}, fresh results, all sequences of 4 calls over 4 messages", [0], lambda b: [["calls"]]),
        ]

    def run_case(self, scope, case):
        return getattr(self, "do_" + case[0])(*case[1:])

    def do_pair(self, i, k):
        alpha = FAULTS + OKS
        prog, names = list(BASE), []
        for j, y in enumerate(alpha):
            extra, pat = contexts([T("A "), P(alpha[i]), T(" B "), P(y), T(" C")], "%d" % j)[k]
            prog += extra + [["msg", "m%d" % j, pat, []]]
            names.append("m%d" % j)
        extra, pat = contexts([P(alpha[i])], "l")[k]
        prog += extra + [["msg", "ml", pat, []]]
        names.append("ml")
        n, outs = 0, set()
        r = rt.Runner(prog, isolating=bool((i + k) % 2))
        for j, name in enumerate(names):
            text, errs = r.run(name, None, ARGS)
            n += 1
            if i < len(FAULTS) and k in (0, 1, 5) and not errs:
                raise Violation("%r fails without an error" % (alpha[i],))
            if k in (0, 1, 2, 3) and name != "ml" and not ("A " in text and " B " in text and text.count(" C") >= 1):
                raise Violation("text around failures is lost: %r" % text)
            outs.add((len(errs), text[:20]))
        return Result(len(outs), traces=n, states=n, transitions=n)

    def do_slots(self, i, j, k):
        prog, names = list(BASE), []
        for bits in range(16):
            slots = []
            for s in range(4):
                e = (FAULTS[i] if s % 2 == 0 else FAULTS[j]) if bits >> s & 1 else OKS[(i + j + s) % len(OKS)]
                slots += [P(e), T("|%d|" % s)]
            extra, pat = contexts(slots, "%d" % bits)[k]
            prog += extra + [["msg", "m%d" % bits, pat, []]]
            names.append("m%d" % bits)
        r = rt.Runner(prog, isolating=bool((i + j + k) % 2))
        n, outs = 0, set()
        for bits, name in enumerate(names):
            text, errs = r.run(name, None, ARGS)
            n += 1
            if k in (0, 1, 5) and bool(errs) != bool(bits):
                raise Violation("slots failing: %s, errors: %r" % (bin(bits), errs))
            outs.add(len(errs))
        return Result(len(outs), traces=n, states=n, transitions=n)

    def do_weird(self, w, u):
        make, plain = WEIRD[w]
        use, source, shape = USES[u]
        n = 0
        outs = set()
        for locale in LOCALES:
            for iso in (False, True):
                x = make()
                b = bundle(source, locales=[locale], iso=iso, functions={"TAKE": lambda *a, **k: "took", "GIVE": lambda: x})
                what = "%s of %s in %s" % (use, w, locale)
                text, errs = checked(b, "m", {"x": x}, what)
                n += 1
                if "end" in source and not text.endswith("end") and text != "{???}":
                    raise Violation("%s: %r lost the text" % (what, text))
                outs.add((text[:20], len(errs)))
                if locale != "en" or iso or shape is None:
                    continue
                # must be an error iff there is no plain rendering
                if use == "func":
                    if "took" not in text:
                        raise Violation("%s: %r" % (what, text))
                    continue
                times = shape.count("{}")
                if plain is None:
                    kind = "???" if isinstance(x, FluentType) else "x"
                    if text != shape.replace("{}", kind) or len(errs) != times:
                        raise Violation("%s: %r, errors %r" % (what, text, errs))
                elif plain is not ...:
                    if text != shape.replace("{}", plain) or errs:
                        raise Violation("%s: %r, errors %r" % (what, text, errs))
                elif ("???" in text) != bool(errs):
                    raise Violation("%s: %r, errors %r" % (what, text, errs))
        return Result(len(outs), traces=n, states=n, transitions=n)

    def do_opt(self, fn, o, v):
        b = bundle("m = A { %s($x, %s: %s) } B { $ok }\n" % (fn, o, v)
                   + "s = A { %s($x, %s: %s) ->\n    [one] 1\n   *[other] o\n    } B { $ok }\n" % (fn, o, v))
        outs = set()
        for x in OPTARGS:
            for name in "ms":
                what = "%s(%r, %s: %s)" % (fn, x, o, v)
                text, errs = checked(b, name, {"x": x, "ok": "OK"}, what)
                if not text.startswith("A ") or not text.endswith(" B OK"):
                    raise Violation("%s: %r" % (what, text))
                if name == "m":
                    mid = text[2:-5]
                    if bool(errs) != (mid in ("%s()" % fn, "???", "x")) and not (mid == "none" and not errs):
                        raise Violation("%s: %r with %r" % (what, text, errs))
                outs.add((text[:30], len(errs)))
        return Result(len(outs), traces=2 * len(OPTARGS), states=2 * len(OPTARGS), transitions=2 * len(OPTARGS))

    def do_opt2(self, a, b):
        n = 0
        for va in OPTVALUES[:6] + OPTVALUES[9:16]:
            for vb in OPTVALUES[:6] + OPTVALUES[9:16]:
                bd = bundle("m = A { NUMBER($x, %s: %s, %s: %s) } B { $ok }\n" % (a, va, b, vb))
                for x in OPTARGS[:5]:
                    what = "NUMBER(%r, %s: %s, %s: %s)" % (x, a, va, b, vb)
                    text, errs = checked(bd, "m", {"x": x, "ok": "OK"}, what)
                    n += 1
                    if not text.startswith("A ") or not text.endswith(" B OK") or bool(errs) != (text[2:-5] in ("NUMBER()", "???")):
                        raise Violation("%s: %r with %r" % (what, text, errs))
        return Result((a, b), traces=n, states=n, transitions=n)

    def do_deep(self, shape, n):
        source, want = SHAPES[shape](n)
        b = bundle(source + "after = { $x }\n")
        outs = []
        for _ in range(2):
            text, errs = checked(b, "m", {"x": "X"}, "%s of %d levels" % (shape, n))
            if text == "{???}":
                if len(errs) != 1 or not isinstance(errs[0], (RecursionError, ValueError)):
                    raise Violation("%s of %d levels: {???} with %r" % (shape, n, errs))
                if n < 60:
                    raise Violation("%s of %d levels fails: %r" % (shape, n, errs))
            elif text != want or errs:
                raise Violation("%s of %d levels: %r %r, not %r" % (shape, n, text[:100], errs, want[:100]))
            outs.append(text == "{???}")
            if checked(b, "after", {"x": "X"}, "after") != ("X", []):
                raise Violation("the call after a deep one is disturbed")
        return outs

    def do_count(self, i, n):
        f = FAULTS[i]
        prog = BASE + [["msg", "one", [P(f), T("|")], []], ["msg", "m", [P(f)] * n, []],
                       ["msg", "p", [P(f) if k % 2 else P(V("ok")) for k in range(2 * n if n < 500 else n)], []],
                       ["msg", "q", [P(M("one"))] * n, []], ["msg", "e", [P(f)] * 5, []],
                       ["msg", "r", [P(SEL(V("n"), ("3", [P(M("e"))]), ("*o", [T("no")])))] * n, []]]
        r = rt.Runner(prog, isolating=False)
        each = len(r.run("one", None, ARGS)[1])
        outs = []
        for name, times in (("m", n), ("p", n if n < 500 else n // 2), ("q", n), ("r", 5 * n)):
            text, errs = r.run(name, None, ARGS)
            if text != "{???}" and len(errs) != each * times:
                raise Violation("%d failures, %d errors: %r" % (each * times, len(errs), f))
            outs.append(text == "{???}")
        return Result(tuple(outs), traces=5, states=5, transitions=5)

    def do_mapping(self, kind, falls):
        """Whatever else an argument dict holds, a pattern sees the arguments it names and no others."""
        b = bundle("m = A { $x } B { $y } C\ns = { $x ->\n    [one] 1\n   *[other] o{ $y }\n    }\nt = { -t(y: 1) }\n-t = T{ $x }{ $y }\n")
        n = 0
        for bits in range(2 ** len(KEYS)):
            for has in range(4):
                args = {}
                for i, k in enumerate(KEYS):
                    if bits >> i & 1:
                        args[k] = [object(), "v", 3][i % 3]
                if has & 1:
                    args["x"] = "X"
                if has & 2:
                    args["y"] = 5
                if falls:
                    args = dict(reversed(args.items()))
                given = KINDS[kind](args)
                before = list(given.items())
                x, y = "X" if has & 1 else "x", "5" if has & 2 else "y"
                nx, ny = not has & 1, not has & 2
                for name, want, errs in (("m", "A %s B %s C" % (x, y), nx + ny), ("s", "o" + y, nx + ny), ("t", "Tx1", 0)):
                    what = "%s with %s of %r" % (name, kind, args)
                    text, got = checked(b, name, given, what)
                    n += 1
                    if text != want or len(got) != errs:
                        raise Violation("%s: %r %r, not %r" % (what, text, got, want))
                if [(id(k), id(v)) for k, v in given.items()] != [(id(k), id(v)) for k, v in before]:
                    raise Violation("%s of %r is changed to %r" % (kind, args, given))
        return Result((kind, falls), traces=n, states=n, transitions=n)

    def do_calls(self):
        b = bundle("a = plain\nb = { $x }\nc = { miss } { $x }\nd = { FAIL() }{ c }\n", functions={"FAIL": rt.Log().table["FAIL"]})
        want = {"a": ("plain", 0, 0), "b": ("x", 0, 1), "c": ("{miss} x", 1, 2), "d": ("FAIL(){miss} x", 2, 3)}
        n = 0
        for seq, append in itertools.product(itertools.product("abcd", repeat=4), (True, False)):
            lists = []
            for k, m in enumerate(seq):
                # args: omitted, None, {}, given
                mode = (k + ord(m)) % 4
                pat = b.get_message(m).value
                if mode == 0:
                    text, errs = b.format_pattern(pat)
                else:
                    text, errs = b.format_pattern(pat, [None, {}, {"x": "x"}][mode - 1])
                n += 1
                if text != want[m][0] or len(errs) != want[m][1 if mode == 3 else 2]:
                    raise Violation("%s as call %d of %r: %r %r" % (m, k, seq, text, errs))
                if any(errs is l for l, _ in lists):
                    raise Violation("error lists are shared between calls")
                if append:
                    errs.append("mine")
                lists.append((errs, list(errs)))
            for l, copy in lists:
                if l != copy:
                    raise Violation("a later call changed the errors of an earlier one")
        return Result(n, traces=n, states=n, transitions=n)


def chain_msg(n):
    return "m = { m1 }\n" + "".join("m%d = { m%d }\n" % (i, i + 1) for i in range(1, n)) + "m%d = end { $x }\n" % n, "end X"


def chain_text(n):
    return ("m = m{ m1 }\n" + "".join("m%d = { m%d }.\n" % (i, i + 1) for i in range(1, n)) + "m%d = end{ $x }\n" % n,
            "mendX" + "." * (n - 1))


def chain_attr(n):
    return "m = { m1.a }\n" + "".join("m%d = v\n    .a = { m%d.a }\n" % (i, i + 1) for i in range(1, n)) + "m%d = v\n    .a = { $x }\n" % n, "X"


def chain_term(n):
    return "m = { -m1(x: \"X\") }\n" + "".join("-m%d = { -m%d(x: \"X\") }\n" % (i, i + 1) for i in range(1, n)) + "-m%d = { $x }\n" % n, "X"


def chain_sel(n):
    v = "m%d = { $x ->\n    [Y] no\n   *[X] { m%d }\n    }\n"
    return "m = { m1 }\n" + "".join(v % (i, i + 1) for i in range(1, n)) + "m%d = { $x }\n" % n, "X"


def chain_selector(n):
    v = "{ -t%d.a ->\n        [no] no\n       *[X] in\n        }\n"
    terms = "".join("-t%d = v\n    .a = %s" % (i, v % (i + 1)) for i in range(1, n)) + "-t%d = v\n    .a = no\n" % n
    return "m = " + v % 1 + terms, "no"


class Reads(dict):
    """Answers for names it does not hold."""

    def __missing__(self, key):
        return "made up"


KEYS = [1, None, ("x",), "", "X", StrSub("z"), b"x", "$x", frozenset()]
COUNTS = list(range(1, 41)) + [49, 50, 51, 63, 64, 65, 99, 100, 101, 102, 127, 128, 129, 199, 200, 201, 249, 250, 255, 256, 257, 299, 300, 332, 333, 399, 400, 499, 500, 501, 512, 513, 700, 998, 999]
KINDS = {"dict": dict, "OrderedDict": collections.OrderedDict, "Reads": Reads,
         "defaultdict": lambda d: collections.defaultdict(lambda: "default", d), "Counter": collections.Counter}
SHAPES = {"messages": chain_msg, "in-text": chain_text, "attributes": chain_attr, "terms": chain_term, "variants": chain_sel,
          "selectors": chain_selector}
LOCALES = ["en", "ar", "pl", "fr", "ja"]
OPTARGS = [0, 3, -1234.5678, Decimal("0.05"), 10 ** 40, math.inf, math.nan, datetime.date(2020, 1, 2), datetime.datetime(2020, 1, 2, 3, 4, 5),
           datetime.datetime.max, "text", None, FluentNone("none")]
CHECK = C15()
