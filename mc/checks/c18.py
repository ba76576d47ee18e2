"""C18: selection picks the first matching variant, else the default."""
import itertools
import math
from decimal import Decimal

import babel

from .. import numref, plurals
from ..core import Check, Result, Scope, Violation, chunks
from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.types import FluentNone, FluentType, fluent_number
LONGEST = 40
DIGITS = 26
NAME = "keep-The_bookmarks2and-Everything-elseXYZ"
DIGIT = "31415926535897932384626433"
LOCALES = ["en", "fr", "pl", "ru", "ar", "lv", "ja", "cy", "it", "de"]
MORE_LOCALES = ["pt", "pt-PT", "pt-BR", "es", "cs", "sl", "uk", "sv", "lt", "ro", "he", "ga", "da", "is", "hi", "sr-Latn", "sr-Cyrl-RS",
                "zh-Hant-TW", "en-GB"]
ALL_LOCALES = LOCALES + MORE_LOCALES
LIST_LOCALES = ["pt", "pt-PT", "tlh", "ar", "cs", "xx-YY", "sl"]
CATS = ["zero", "one", "two", "few", "many", "other"]
KEYS = ["one", "other", "few", "many", "two", "zero", "a", "0", "1", "1.0", "2", "0.5", "-1", "1000000"]
MORE_KEYS = ["01", "0.10", "1.50", "A", "One", "a-b_1", "-0", "-0.5", "11", "true", "0.011", "100000000000000000000", "21"]


class Custom(FluentType):
    def __init__(self, text):
        self.text = text

    def format(self, locale):
        return self.text


def num_specs():
    ints = [0, 1, 2, 3, 5, 6, 8, 11, 12, 21, 22, 80, 100, 101, 111, 1000000, 1000001, -1, -2, 10 ** 20, 2 ** 53 + 1]
    floats = ["0.0", "-0.0", "1.0", "2.0", "0.5", "1.5", "0.1", "1.1", "2.11", "-1.0", "-0.5", "1e6", "1e20", "inf", "-inf", "nan"]
    decs = ["0", "1", "1.0", "1.00", "1.5", "0.10", "0.1", "2.21", "21", "-1", "0.5", "0.50", "1E+6", "Infinity", "NaN", "0.011", "0.012"]
    return ([["i", x] for x in ints] + [["f", x] for x in floats] + [["d", x] for x in decs] + [["b", 1], ["b", 0]]
            + [["ord", ["i", x]] for x in (0, 1, 2, 3, 4, 5, 8, 11, 12, 13, 21, 22, 23, 80, 101)]
            + [["ord", ["f", x]] for x in ("1.0", "2.0", "1.5")] + [["ord", ["d", x]] for x in ("1", "2", "3", "11", "2.0")]
            + [["opt", ["i", 1], {"minimumFractionDigits": 2}], ["opt", ["f", "0.5"], {"style": "percent"}],
               ["opt", ["d", "1"], {"style": "currency", "currency": "EUR"}], ["opt", ["f", "1.4"], {"maximumFractionDigits": 0}]])


TEXTS = [["s", x] for x in ("", "one", "other", "few", "a", "A", "1", "1.0", "0", "0.5", "-1", " one", "one ", "one\u2069", "zero", "true", "1000000")]
OTHERS = [["none"], ["missing"], ["list"], ["fnone", "one"], ["fnone", None], ["custom", "one"], ["custom", "1"]]
VALUES = num_specs() + TEXTS + OTHERS


def make(spec):
    k = spec[0]
    if k == "i":
        return spec[1]
    if k == "f":
        return float(spec[1])
    if k == "d":
        return Decimal(spec[1])
    if k == "b":
        return bool(spec[1])
    if k == "ord":
        return fluent_number(make(spec[1]), type="ordinal")
    if k == "opt":
        return fluent_number(make(spec[1]), **spec[2])
    if k == "s":
        return spec[1]
    if k == "list":
        return [1]
    if k == "fnone":
        return FluentNone(spec[1])
    if k == "custom":
        return Custom(spec[1])
    return None


def is_num(key):
    return key[0] in "-0123456789"


def meaning(spec):
    """('num', value, ordinal) | ('text', s) | None"""
    k = spec[0]
    if k in ("i", "f", "d", "b"):
        return ("num", int(make(spec)) if k == "b" else make(spec), False)
    if k == "ord":
        return ("num", make(spec[1]), True)
    if k == "opt":
        return ("num", make(spec[1]), False)
    if k == "s":
        return ("text", spec[1])
    return None


def matches(m, key, locale):
    if m is None:
        return False
    if m[0] == "text":
        return not is_num(key) and m[1] == key
    v = m[1]
    if is_num(key):
        if isinstance(v, (float, Decimal)) and not math.isfinite(v):
            return False
        return numref.to_decimal(v) == Decimal(key)
    return plurals.category(v, locale, m[2]) == key


def expected(m, keys, default, locale):
    for i, k in enumerate(keys):
        if matches(m, k, locale):
            return i
    return default


def select(selector, keys, default, pad=""):
    return "{ %s ->%s\n    }" % (selector, "".join("\n    %s[%s%s%s] %d" % ("*" if i == default else " ", pad, k, pad, i)
                                                 for i, k in enumerate(keys)))


# selector source, arguments -> meaning
KINDS = [
    ("$x", {"x": ["i", 1]}, ("num", 1, False)), ("$x", {"x": ["s", "a"]}, ("text", "a")),
    *[("$x", {"x": ["s", t]}, ("text", t)) for t in ("\u2068one\u2069", "\u2068a\u2069", "\u2068one", "a\u2069", "\u200ea", "a\u200b", "\ufeffone", "o\u0301ne", "\uff41", " a", "a\n", "ONE", "one\0")],
    ("IDENT($x)", {"x": ["s", "\u2068one\u2069"]}, ("text", "\u2068one\u2069")), ('"\\u2068one\\u2069"', {}, ("text", "\u2068one\u2069")),
    ("1", {}, ("num", 1, False)), ("1.0", {}, ("num", 1.0, False)), ("0.5", {}, ("num", 0.5, False)), ("-1", {}, ("num", -1, False)),
    ("2", {}, ("num", 2, False)), ("0", {}, ("num", 0, False)), ("000", {}, ("num", 0, False)), ("1000000.0", {}, ("num", 1000000, False)),
    ('"one"', {}, ("text", "one")), ('"1"', {}, ("text", "1")), ('"a"', {}, ("text", "a")), ('""', {}, ("text", "")),
    ('"\\u0061"', {}, ("text", "a")), ('"\\u0031"', {}, ("text", "1")),
    ("NUMBER($x)", {"x": ["i", 2]}, ("num", 2, False)), ('NUMBER($x, type: "ordinal")', {"x": ["i", 2]}, ("num", 2, True)),
    ('NUMBER($x, type: "ordinal")', {"x": ["d", "1"]}, ("num", 1, True)), ('NUMBER($x, type: "ordinal")', {"x": ["f", "3.0"]}, ("num", 3, True)),
    ('NUMBER(2, type: "ordinal")', {}, ("num", 2, True)), ('NUMBER($x, type: "cardinal")', {"x": ["ord", ["i", 2]]}, ("num", 2, False)),
    ("NUMBER($x)", {"x": ["ord", ["i", 2]]}, ("num", 2, True)), ("NUMBER($x, minimumFractionDigits: 1)", {"x": ["i", 1]}, ("num", 1, False)),
    ("NUMBER($x, minimumFractionDigits: 1)", {"x": ["ord", ["i", 1]]}, ("num", 1, True)),
    ("NUMBER($x, style: \"percent\")", {"x": ["f", "0.5"]}, ("num", 0.5, False)),
    ('NUMBER($x, type: "nope")', {"x": ["i", 1]}, None), ("NUMBER($x)", {"x": ["s", "1"]}, None), ("NUMBER($x)", {}, None),
    ("FAIL()", {}, None), ("UNKNOWN()", {}, None), ("NUMBER()", {}, None), ("$none", {}, None),
    ("IDENT($x)", {"x": ["s", "one"]}, ("text", "one")), ("IDENT($x)", {"x": ["d", "1.00"]}, ("num", Decimal("1.00"), False)),
    ("IDENT(1)", {}, ("num", 1, False)), ('IDENT("a")', {}, ("text", "a")), ("IDENT(msg)", {}, ("text", "one")), ("IDENT(-t)", {}, ("text", "a")),
    ("SEVEN()", {}, ("num", 7, False)), ("ONE()", {}, ("num", 1, True)),
    ("-t.one", {}, ("text", "one")), ("-t.num", {}, ("text", "1")), ("-t.lit", {}, ("text", "1")), ("-t.var", {}, ("text", "v")),
    ('-t.var(v: "one")', {}, ("text", "one")), ("-t.var(v: 1)", {}, ("text", "1")), ("-t.join(v: \"n\")", {}, ("text", "one")),
    ("-t.sel(v: 1)", {}, ("text", "one")), ("-t.sel(v: 2)", {}, ("text", "other")), ("-t.sel", {}, ("text", "other")),
    ("-t.ref", {}, ("text", "one")), ("-t.missing", {}, None), ("-missing.attr", {}, None), ("-t.cyc", {}, None),
    ("-t.var(v: \"one\")", {"v": ["s", "other"]}, ("text", "one")), ("-t.miss", {}, ("text", "{nope}")),
]
SUPPORT = """msg = one
-t = a
    .one = one
    .num = 1
    .lit = { 1 }
    .var = { $v }
    .join = o{ "n" }{ "e" }
    .sel = { $v ->
        [1] one
       *[2] other
    }
    .ref = { msg }
    .cyc = { -t.cyc2 ->
       *[a] { -u }
    }
    .cyc2 = { -u }
    .miss = { nope }
-u = { -t.cyc ->
       *[a] x
    }
"""


def fail():
    raise ValueError("no")


FUNCS = {"FAIL": fail, "IDENT": lambda x: x, "SEVEN": lambda: fluent_number(7), "ONE": lambda: fluent_number(1, type="ordinal")}

# two keys that both match some value
PAIRS = [("a", "a"), ("1", "1"), ("1", "one"), ("one", "1"), ("1", "1.0"), ("other", "2"), ("2", "other"), ("one", "one"), ("0.5", "0.50"), ("a", "k0")]
LONG_VALUES = [["s", "a"], ["s", "k0"], ["s", "k3"], ["s", "zz"], ["s", "one"], ["i", 1], ["i", 2], ["d", "1.0"], ["f", "0.5"], ["ord", ["i", 1]], ["missing"]]

LIST_VALUES = [0, 1, 2, 3, 4, 5, 11, 100, 101, 1000000, 0.5, 1.5, Decimal("1.0")]

# selectors put together in one message
SEL = ["%s", 'NUMBER(%s, type: "ordinal")', "%s"]
SOLO = ([(f, s) for f in (0, 1) for s in (["i", 1], ["i", 2], ["i", 3], ["i", 5], ["i", 21], ["f", "1.0"], ["d", "2"], ["f", "1.5"], ["d", "1.0"], ["i", 0], ["i", 8], ["i", 1000000])]
        + [(2, ["s", x]) for x in ("one", "two", "1", "a")])
TWICE_KEYS = ["a", "5", "zero", "one", "two", "few", "many", "other"]
TWICE_LOCALES = ["en", "it", "cy", "pl", "ar", "fr"]


class C18(Check):
    id = "C18"
    findings = {"babel-operands": lambda case, msg: case[0] in ("keys", "rules", "more") and "leading fraction zeros" in msg}
    assumptions = ["plural categories from hand-written CLDR rules of %d locales" % len(ALL_LOCALES),
                   "Decimals within 28 digits", "the category is that of the number, whatever its digits options"]

    def scopes(self, tier):
        thorough = tier == "thorough"
        nk = range(len(KEYS))
        locs = range(len(LOCALES))
        trip_locs = locs if thorough else (0, 2, 4, 5, 7)

        def gen_two(block):
            for a, b in block:
                yield ["keys", [a], b]
                for c in nk:
                    yield ["keys", [a, c], b]

        def gen_three(block):
            for a, b, loc in block:
                for c in nk:
                    yield ["keys", [a, b, c], loc]

        def gen_rules(block):
            for loc, k in block:
                yield ["rules", loc, k]

        def gen_kinds(block):
            for i in block:
                for loc in locs if thorough else (0, 2, 5, 7):
                    yield ["kinds", i, loc]

        def gen_more(block):
            for i in block:
                for loc in (0, 2, 5):
                    yield ["more", i, loc]

        def gen_lists(block):
            for ls in block:
                yield ["lists", list(ls)]
        def gen_long(block):
            for n, p in block:
                for loc in (0, 2):
                    yield ["long", n, p, loc]
        most = 24 if thorough else 12
        lists = [ls for k in (1, 2, 3) for ls in itertools.product(LIST_LOCALES, repeat=k)]
        return [
            Scope("locale-lists", "every list of <=3 of %d locales (2 unknown to CLDR): category of %d values"
                  % (len(LIST_LOCALES), len(LIST_VALUES)), chunks(lists, 16), gen_lists),
            Scope("one-two", "all lists of 1-2 keys of %d, each default, x %d selector values x %d locales" % (len(KEYS), len(VALUES), len(LOCALES)),
                  [[(a, loc)] for a in nk for loc in locs], gen_two),
            Scope("three", "all lists of 3 keys of %d, each default, x %d selector values x %d locales" % (len(KEYS), len(VALUES), len(trip_locs)),
                  [[(a, b, loc)] for a in nk for b in nk for loc in trip_locs], gen_three),
            Scope("rules", "cardinal and ordinal category of 0-%d, their tenths and hundredths, as int, float, Decimal, negative, x %d locales"
                  % (1000 if thorough else 200, len(ALL_LOCALES)),
                  [[(loc, k)] for loc in range(len(ALL_LOCALES)) for k in range(0, 1000 if thorough else 200, 25)], gen_rules),
            Scope("selectors", "%d kinds of selector x all lists of <=2 keys x %d locales, isolation on/off" % (len(KINDS), len(LOCALES) if thorough else 4),
                  chunks(range(len(KINDS)), 64), gen_kinds),
            Scope("everywhere", "all %d locales Babel knows: cardinal and ordinal category of 0-%d and %d further numbers, as Babel has them"
                  % (len(KNOWN), 1000 if thorough else 130, len(EVERY)), chunks(KNOWN, 64), lambda block: (["every", l, 1000 if thorough else 130] for l in block)),
            Scope("long", "4 to %d variants, two of which may match, at every pair of positions, the default at either end or at either of them: "
                  "%d pairs of keys x %d values x 2 locales" % (most, len(PAIRS), len(LONG_VALUES)),
                  [[(n, p)] for n in range(4, most + 1) for p in range(len(PAIRS))], gen_long),
            Scope("long-keys", "names of 1 to %d characters and numbers of 1 to %d digits as keys: every one-character change, cut and extension of one, "
                  "before or after it, for each of them as the selector" % (LONGEST, DIGITS),
                  [[("name", k)] for k in range(1, LONGEST + 1)] + [[("number", k)] for k in range(1, DIGITS + 1)],
                  lambda b: (["longkeys", what, k] for what, k in b)),
            Scope("neighbours", "%d keys x floats and Decimals at %d small distances from each: only the number itself matches" % (len(NEAR), len(STEPS)),
                  [[i] for i in range(len(NEAR))], lambda b: (["near", i] for i in b)),
            Scope("together", "%d selectors (cardinal, ordinal, text) with each other, side by side, thrice, nested and as two selects of one value, x %d locales"
                  % (len(SOLO), len(TWICE_LOCALES)), [[(i, loc)] for i in range(len(SOLO)) for loc in TWICE_LOCALES],
                  lambda b: (["together", i, loc] for i, loc in b)),
            Scope("more-keys", "%d unusual keys with each other key x %d values x 3 locales" % (len(MORE_KEYS), len(VALUES)),
                  [[i] for i in range(len(MORE_KEYS))], gen_more),
        ]

    def run_case(self, scope, case):
        return getattr(self, "do_" + case[0])(*case[1:])

    def choose(self, lists, loc, values=VALUES):
        """lists: [(keys, default)]"""
        locale = LOCALES[loc]
        src = "".join("m%d = %s\n" % (i, select("$x", keys, d, " " if i % 2 else "")) for i, (keys, d) in enumerate(lists))
        b = FluentBundle([locale])
        b.add_resource(FluentResource(src))
        n, outs, odd = 0, set(), None
        for spec in values:
            m = meaning(spec)
            args = {} if spec[0] == "missing" else {"x": make(spec)}
            for i, (keys, d) in enumerate(lists):
                text, errs = b.format_pattern(b.get_message("m%d" % i).value, args)
                want = str(expected(m, keys, d, locale))
                bad = spec[0] in ("none", "missing", "list")
                n += 1
                if text != want or bool(errs) != bad:
                    known = m and m[0] == "num" and zeros(m[1])
                    msg = "%s%r of %s in %s chooses %r %r, should be %s" % ("leading fraction zeros: " if known else "", spec,
                                                                           select("$x", keys, d), locale, text, errs, want)
                    if not known:
                        raise Violation(msg)
                    odd = odd or msg
                outs.add(text)
        if odd:
            raise Violation(odd)
        return Result(len(outs), traces=n, states=n, transitions=n)

    def do_keys(self, ks, loc):
        keys = [KEYS[k] for k in ks]
        return self.choose([(keys, d) for d in range(len(keys))], loc)

    def do_more(self, i, loc):
        k = MORE_KEYS[i]
        lists = [([k], 0)]
        for o in KEYS + MORE_KEYS:
            lists += [([k, o], 0), ([k, o], 1), ([o, k], 0), ([o, k], 1)]
        return self.choose(lists, loc, VALUES + [["s", k], ["d", k] if is_num(k) else ["s", k.upper()], ["f", k] if is_num(k) else ["s", k.lower()],
                                                 ["i", 10 ** 20], ["f", "0.011"]])

    def do_together(self, i, locale):
        form, spec = SOLO[i]
        a = SEL[form] % "$x"
        b = FluentBundle([locale], use_isolating=False)
        src, cases = "", []

        def sel(x, inner=None):
            return "{ %s ->%s\n   *[zz] z\n }" % (x, "".join("\n    [%s] %s" % (k, inner or k) for k in TWICE_KEYS))

        def keys(m):
            return next((k for k in TWICE_KEYS if matches(m, k, locale)), None)

        def mean(f, s):
            v = meaning(s)
            return ("num", v[1], f == 1) if f < 2 else v
        ma = keys(mean(form, spec)) or "z"
        for f2 in range(len(SEL)):
            c = SEL[f2] % "$y"
            src += "s%d = %s-%s\nt%d = %s-%s-%s\nn%d = %s\n-t%d = x\n    .a = %s\nr%d = %s-{ -t%d.a(y: 1) ->\n   *[zz] q\n }-%s\n" % (
                f2, sel(a), sel(c), f2, sel(a), sel(c), sel(a), f2, sel(a, sel(c)).replace("*[zz] z\n }", "*[zz] " + sel(c).replace("\n", "\n  ") + "\n }"),
                f2, sel("$y"), f2, sel(a), f2, sel(a))
            src += "o%d = %s-%s\n" % (f2, sel(a), sel(SEL[f2] % "$x"))
        b.add_resource(FluentResource(src))
        n = 0
        for f2, s2 in SOLO:
            args = {"x": make(spec), "y": make(s2)}
            mc = keys(mean(f2, s2)) or "z"
            for name, want in (("s", [ma, mc]), ("t", [ma, mc, ma]), ("n", [mc]), ("r", [ma, "q", ma])):
                text, errs = b.format_pattern(b.get_message("%s%d" % (name, f2)).value, args)
                n += 1
                if text != "-".join(want) or errs:
                    raise Violation("%s%d with %r in %s: %r %r, should be %r\n%s" % (name, f2, args, locale, text, errs, "-".join(want), src))
        for f2 in range(len(SEL)):
            if (f2 < 2) == (form < 2):
                text, errs = b.format_pattern(b.get_message("o%d" % f2).value, {"x": make(spec)})
                want = "%s-%s" % (ma, keys(mean(f2, spec)) or "z")
                n += 1
                if text != want or errs:
                    raise Violation("o%d with %r in %s: %r %r, should be %r" % (f2, spec, locale, text, errs, want))
        return Result(ma, traces=n, states=n, transitions=n)

    def do_long(self, n, p, loc):
        lists = []
        for i in range(n):
            for j in range(i + 1, n):
                keys = ["k%d" % k for k in range(n)]
                keys[i], keys[j] = PAIRS[p]
                lists += [(keys, d) for d in sorted({0, i, j, n - 1})]
        return self.choose(lists, loc, LONG_VALUES)

    def do_longkeys(self, what, k):
        """Keys match as a whole."""
        if what == "name":
            base = NAME[:k]
            changed = [base[:i] + c + base[i + 1:] for i in range(k) for c in (base[i].swapcase(), "-", "_", "7") if c != base[i]]
            keys = [c for c in changed if c[0].isalpha()] + [base[:i] for i in range(1, k)] + [base + c for c in "a-_0"]
        else:
            base = DIGIT[:k]
            changed = [base[:i] + c + base[i + 1:] for i in range(k) for c in "19" if c != base[i]]
            keys = changed + [base[:i] for i in range(1, k)] + [base + c for c in "05"] + ["-" + base]
        keys = [key for key in dict.fromkeys(keys) if key != base]
        b = FluentBundle(["en"], use_isolating=False)
        b.add_resource(FluentResource("".join("m%d-%d = { $x ->\n    [%s] 0\n    [%s] 1\n   *[zz] 2\n    }\n" % ((i, d) + ((base, key) if d else (key, base)))
                                              for i, key in enumerate(keys) for d in (0, 1))))
        n = 0
        for i, key in enumerate(keys):
            for d in (0, 1):
                p = b.get_message("m%d-%d" % (i, d)).value
                values = [(base, 0 if d else 1), (key, 1 if d else 0)]
                if what == "name":
                    values += [(v, 2) for v in (base + " ", " " + key, base + "\n", key + "\0", base + base)]
                else:
                    values = [(f(v), want) for v, want in values for f in (int, Decimal)] + [(base, 2), (Decimal(base + ".5"), 2)]
                for v, want in values:
                    text, errs = b.format_pattern(p, {"x": v})
                    n += 1
                    if text != str(want) or errs:
                        raise Violation("[%s] 0 [%s] 1 *[zz] 2 for %r: %s %r" % (((base, key) if d else (key, base)) + (v, text, errs)))
        return Result((what, k), traces=n, states=n, transitions=n)

    def do_near(self, i):
        key = NEAR[i]
        exact = Decimal(key)
        values = {}

        def add(v):
            values[type(v), repr(v)] = v
        f = float(exact)
        up = down = f
        add(f)
        for _ in range(40):
            up, down = math.nextafter(up, math.inf), math.nextafter(down, -math.inf)
            add(up)
            add(down)
        for step in STEPS:
            for g in (f + float(step), f - float(step), f * (1 + float(step)), f * (1 - float(step)), f / 3 * 3, f / 10 * 10, f / 7 + f / 7 * 6):
                add(g)
            for dec in (exact + step, exact - step):
                add(dec)
        for parts in ((0.1, 0.2), (0.1, 0.7), (1.1, 2.2), (0.5, 0.5), (3.0, -0.7), (0.1, 0.1, 0.1), (2.0, -1.1)):
            add(sum(parts))
        for v in [exact, int(exact), -exact, -f]:
            add(v)
        b = FluentBundle(["en"], use_isolating=False)
        b.add_resource(FluentResource("m = { $x ->\n    [%s] 0\n   *[zz] 1\n    }\nn = { NUMBER($x) ->\n   *[zz] 1\n    [%s] 0\n    }\n" % (key, key)))
        n = 0
        for v in values.values():
            for arg in (v, fluent_number(v, maximumFractionDigits=1)):
                for name in "mn":
                    text, errs = b.format_pattern(b.get_message(name).value, {"x": arg})
                    n += 1
                    want = "0" if numref.to_decimal(v) == exact else "1"
                    if text != want or errs:
                        raise Violation("[%s] for %r in %s: %s %r" % (key, arg, name, text, errs))
        return Result(key, traces=n, states=n, transitions=n)

    def do_every(self, locale, top):
        """Categories come from the locale of the bundle; Babel is the oracle."""
        known = babel.Locale.parse(locale)
        b = FluentBundle([locale.replace("_", "-")])
        sel = select("$x", CATS, 5)
        b.add_resource(FluentResource("m = %s\no = %s\n" % (sel, sel.replace("$x", 'NUMBER($x, type: "ordinal")'))))
        forms = [(b.get_message("m").value, known.plural_form), (b.get_message("o").value, known.ordinal_form)]
        n = 0
        for v in list(range(top + 1)) + EVERY:
            for p, form in forms:
                text, errs = b.format_pattern(p, {"x": v})
                n += 1
                if errs or CATS[int(text)] != form(v):
                    raise Violation("%r is %r %r in %s, should be %s" % (v, CATS[int(text)], errs, locale, form(v)))
        return Result(tuple(sorted(known.plural_form.rules)) + tuple(sorted(known.ordinal_form.rules)), traces=n, states=n, transitions=n)

    def do_lists(self, ls):
        rules = next((x for x in ls if x in plurals.RULES), None)
        if rules is None:
            return None
        b = FluentBundle(ls)
        b.add_resource(FluentResource("m = %s\n" % select("$x", CATS, 5)))
        for v in LIST_VALUES:
            text, errs = b.format_pattern(b.get_message("m").value, {"x": v})
            want = str(CATS.index(plurals.category(v, rules)))
            if text != want or errs:
                raise Violation("%r is %r in a bundle for %r, should be %s" % (v, text, ls, want))
        return Result(rules, traces=len(LIST_VALUES))

    def do_rules(self, loc, start):
        locale = ALL_LOCALES[loc]
        b = FluentBundle([locale])
        sel = select("$x", CATS, 5)
        b.add_resource(FluentResource("m = %s\no = %s\n" % (sel, sel.replace("$x", 'NUMBER($x, type: "ordinal")'))))
        n, odd = 0, None
        for base in range(start, start + 25):
            vals = [base, -base, float(base), Decimal(base), Decimal("%d.0" % base), base * 1000, base * 1000000, base + 1000000,
                    base * 10 ** 17, base + 10 ** 18]
            for frac in ("1", "5", "01", "10", "11", "12", "21", "25", "99", "101", "011"):
                vals += [float("%d.%s" % (base, frac)), Decimal("%d.%s" % (base, frac)), Decimal("-%d.%s" % (base, frac))]
            for v in vals:
                for name in "mo":
                    text, errs = b.format_pattern(b.get_message(name).value, {"x": v})
                    n += 1
                    want = str(CATS.index(plurals.category(v, locale, name == "o")))
                    if text != want or errs:
                        msg = "%r is %r in %s, should be %s (%s)" % (v, text, locale, want, "ordinal" if name == "o" else "cardinal")
                        if not zeros(v):
                            raise Violation(msg)
                        odd = odd or "leading fraction zeros: " + msg
        if odd:
            raise Violation(odd)
        return Result(n, traces=n, states=n, transitions=n)

    def do_kinds(self, i, loc):
        selector, args, m = KINDS[i]
        locale = LOCALES[loc]
        lists = [([k], 0) for k in KEYS]
        for a in KEYS:
            for c in KEYS:
                lists += [([a, c], 0), ([a, c], 1)]
        src = SUPPORT + "".join("m%d = %s\n" % (j, select(selector, keys, d)) for j, (keys, d) in enumerate(lists))
        impl = {k: make(s) for k, s in args.items()}
        n = 0
        for iso in (False, True):
            b = FluentBundle([locale], functions=FUNCS, use_isolating=iso)
            b.add_resource(FluentResource(src))
            for j, (keys, d) in enumerate(lists):
                text, errs = b.format_pattern(b.get_message("m%d" % j).value, impl)
                n += 1
                want = expected(m, keys, d, locale)
                if text != str(want) or (m is None) != bool(errs) and "miss" not in selector:
                    raise Violation("%s with %r chooses %r %r, should be %s (isolation %s)" % (select(selector, keys, d), args, text, errs, want, iso))
        return Result(n, traces=n, states=n, transitions=n)


KNOWN = sorted(babel.localedata.locale_identifiers())
EVERY = [float(x) for x in ("0.1", "0.5", "1.1", "1.5", "1.9", "2.1", "2.5", "10.1", "21.1", "1e6", "1.0", "2.0")] + [
    Decimal(x) for x in ("1.0", "1.00", "0.5", "1.10", "2.0", "2.3", "5.0", "11.1", "12.50", "21.0")] + [-1, -2, 10 ** 6, 2 * 10 ** 6, 10 ** 6 + 1, 10 ** 9, 999999, 1001]
NEAR = ["0", "1", "-1", "2", "3", "7", "0.1", "0.3", "0.30", "0.5", "0.8", "1.1", "3.3", "2.3", "0.9", "-0.3", "1.5", "100", "1000000", "1000000.1", "9007199254740992", "9007199254740993",
        "123456789", "0.333333333333", "0.000001", "99999999999999999999"]
STEPS = [Decimal(1).scaleb(-k) for k in range(1, 20)]


def zeros(v):
    """Babel (2.18) drops the zeros after the decimal point of a number below
    1 when it takes its plural operands."""
    if isinstance(v, (float, Decimal)) and math.isfinite(v) and abs(v) < 1:
        return format(numref.to_decimal(abs(v)), "f").startswith("0.0")
    return False


CHECK = C18()
