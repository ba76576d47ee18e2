"""C24: numbers are formatted as their options and the locale demand."""
import enum
import itertools
import warnings
from decimal import Decimal

from .. import numref
from ..core import Check, Result, Scope, Violation, chunks
import babel.numbers
from babel import Locale
from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.types import FluentDecimal, FluentFloat, FluentInt, FluentNone, FluentNumber, fluent_number

VALUES = ["0", "-0.0", "1", "-1", "5", "7", "9", "10", "42", "99", "100", "999", "1000", "9999", "12345", "100000",
          "1234567", "-1234567", "0.5", "1.5", "2.5", "-0.5", "-2.5", "0.05", "0.005", "0.0005", "0.00051", "0.25",
          "1.005", "1.995", "9.999", "9.5", "99.95", "0.0999", "0.1", "0.995", "123.456", "-1234.5678", "999999.9999",
          "1e21", "1e-7", "1.10", "12345678901234567890", "-0.001", "1e16", "0.30000000000000004"]
DECIMALS = ["1.10", "0", "-0.00", "1E+3", "123456.789", "1.0050", "2.5", "-2.500", "1E-7", "9.9999", "1E+20",
            "0.0999", "12345678901234567890.123"]


def value(spec):
    kind, text = spec
    if kind == "d":
        return Decimal(text)
    if kind == "b":
        return text == "1"
    return float(text) if "." in text or "e" in text else int(text)


SPECS = [["n", t] for t in VALUES] + [["n", "3.0"], ["n", "100.0"]] + [["d", t] for t in DECIMALS] + [["b", "1"], ["b", "0"]]
STYLES = [{}, {"style": "percent"}] + [
    dict(style="currency", currency=c, **({"currencyDisplay": d} if d else {}))
    for c in ("USD", "EUR", "JPY", "KWD") for d in (None, "symbol", "code")]
GROUPS = [{}, {"useGrouping": False}, {"useGrouping": True}]
INTS = [{}] + [{"minimumIntegerDigits": k} for k in (1, 2, 5)]


def digit_options(fd=(0, 1, 2, 3, 5), sd=(1, 2, 3, 6, 21)):
    out = []
    for mn in (None,) + fd:
        for mx in (None,) + fd:
            o = {}
            if mn is not None:
                o["minimumFractionDigits"] = mn
            if mx is not None:
                o["maximumFractionDigits"] = mx
            out.append(o)
    sds = []
    for mn in (None,) + sd:
        for mx in (None,) + sd:
            o = {}
            if mn is not None:
                o["minimumSignificantDigits"] = mn
            if mx is not None:
                o["maximumSignificantDigits"] = mx
            if o:
                sds.append(o)
    out += sds
    # significant digits win over fraction digits
    out += [dict(a, **b) for a in sds[::3] for b in ({"minimumFractionDigits": 2}, {"maximumFractionDigits": 0},
                                                    {"minimumFractionDigits": 1, "maximumFractionDigits": 4})]
    return [o for o in out if numref.valid(o)]


def literal(v):
    if isinstance(v, bool):
        return str(int(v))
    if isinstance(v, str):
        return '"%s"' % v
    return str(v)


MERGE = [{}, {"useGrouping": False}, {"useGrouping": True}, {"style": "percent"}, {"style": "decimal"},
         {"style": "currency", "currency": "EUR"}, {"currency": "JPY"}, {"style": "currency", "currency": "USD",
                                                                       "currencyDisplay": "code"},
         {"currencyDisplay": "symbol"}, {"currencyDisplay": "code"}, {"minimumFractionDigits": 1},
         {"minimumFractionDigits": 4}, {"maximumFractionDigits": 0}, {"maximumFractionDigits": 4},
         {"minimumFractionDigits": 2, "maximumFractionDigits": 2}, {"minimumIntegerDigits": 3},
         {"minimumSignificantDigits": 2}, {"maximumSignificantDigits": 3},
         {"minimumSignificantDigits": 1, "maximumSignificantDigits": 4}, {"type": "ordinal"}, {"type": "cardinal"},
         {"style": "percent", "maximumFractionDigits": 1, "useGrouping": False},
         {"minimumIntegerDigits": 2, "minimumFractionDigits": 3, "type": "ordinal"}]
ALL_NAMES = ["style", "type", "currency", "currencyDisplay", "useGrouping", "minimumIntegerDigits",
             "minimumFractionDigits", "maximumFractionDigits", "minimumSignificantDigits", "maximumSignificantDigits"]
DEFAULTS = {"style": "decimal", "type": "cardinal", "currency": None, "currencyDisplay": "symbol", "useGrouping": True}


def effective(o):
    return {n: o.get(n, DEFAULTS.get(n)) for n in ALL_NAMES}


def options_of(x):
    return {n: getattr(x.options, n) for n in ALL_NAMES}


def family(v):
    return FluentInt if isinstance(v, int) else FluentFloat if isinstance(v, float) else FluentDecimal


def same_value(a, v):
    if isinstance(v, Decimal):
        return isinstance(a, Decimal) and a.as_tuple() == v.as_tuple()
    if isinstance(v, float):
        return isinstance(a, float) and float.__repr__(a) == repr(v)
    return isinstance(a, int) and int(a) == int(v)


class C24(Check):
    id = "C24"
    assumptions = ["finite numbers, results of at most 28 digits (Python's decimal context)",
                   "exact ties round to even, floats count as the decimal repr() shows",
                   "locale patterns and symbols are a table of 20 locales in mc/numref.py; CLDR's minimum grouping "
                   "digits are not applied (babel)", "currencyDisplay: name is documented as unsupported"]

    def scopes(self, tier):
        thorough = tier == "thorough"
        digs = digit_options() if not thorough else digit_options((0, 1, 2, 3, 4, 5, 8, 20), (1, 2, 3, 4, 5, 6, 10, 21))
        locs = ["en", "de", "hi", "de-CH", "nl"] + (["fr", "pt", "ru", "pl", "lv", "ja"] if thorough else [])
        combos = [dict(s, **g, **i) for s in STYLES for g in GROUPS[:2 if not thorough else 3] for i in INTS]

        def gen(block):
            for c in block:
                for d in digs:
                    yield ["format", dict(combos[c], **d), locs]
        pairs = [(i, j) for i in range(len(MERGE)) for j in range(len(MERGE))]

        def gen_merge(block):
            for i, j in block:
                yield ["merge", MERGE[i], MERGE[j]]

        def gen_triple(block):
            for i, j in block:
                for k in range(0, len(MERGE), 1 if thorough else 3):
                    yield ["chain", MERGE[i], MERGE[j], MERGE[k]]

        def gen_loc(block):
            for l in block:
                for s in STYLES:
                    for g in GROUPS[:2]:
                        yield ["format", dict(s, **g), [l]]

        def gen_refuse(block):
            for n, v in [("style", "unit"), ("style", ""), ("style", "Percent"), ("currencyDisplay", "x"),
                         ("currencyDisplay", "narrow"), ("type", "x"), ("type", "plural"), ("foo", 1),
                         ("usegrouping", True), ("minimumfractiondigits", 1), ("Style", "decimal"), ("value", 1),
                         ("digits", 2), ("style", "currency"), ("unit", "m"), ("notation", "compact")]:
                for s in (["n", "5"], ["n", "0.5"], ["d", "1.5"]):
                    for base in ({}, {"useGrouping": False}, {"style": "percent", "minimumFractionDigits": 1}):
                        yield ["refuse", n, v, s, base]
        def gen_dec(block):
            for k, i in block:
                d, parts = (5, 20) if thorough else (4, 5)
                for start in range(k * 10 ** d // parts, (k + 1) * 10 ** d // parts, 500):
                    yield ["dec", d, start, start + 500, i]
                if k == 0:
                    yield ["dec", 2, 0, 1000, i]
        names = ["de", "en", "hi", "xx", "zz-ZZ", "de-CH", "en-US", "tlh"]
        lists = [list(t) for k in (1, 2, 3) for t in itertools.permutations(names, k)
                 if any(x in numref.LOCALES for x in t)]

        def gen_choice(block):
            for l in block:
                yield ["choice", l]
        return [
            Scope("locale-choice", "every list of <=3 locales out of %d, known and unknown" % len(names),
                  chunks(lists, 16), gen_choice),
            Scope("options", "%d style/grouping/integer combinations x %d digit combinations x %d values x %d locales"
                  % (len(combos), len(digs), len(SPECS), len(locs)), [[i] for i in range(len(combos))], gen),
            Scope("locales", "all styles x grouping x %d values in %d locales" % (len(SPECS), len(numref.LOCALES)),
                  [[l] for l in numref.LOCALES if numref.LOCALES[l][4]], gen_loc),
            Scope("merge", "all %d pairs of option sets, in code and in the message" % len(pairs), chunks(pairs, 64),
                  gen_merge),
            Scope("chain", "wrapping of wrapped numbers: three option sets in a row", chunks(pairs, 64), gen_triple),
            Scope("unset", "options set back to None in code, one or all of them: %d option sets" % len(MERGE), [[i] for i in range(len(MERGE))], lambda block: (["unset", i] for i in block)),
            Scope("sequences", "every ordered pair of %d values x %d option sets and locales for the first x as many for the second: the second result, "
                  "in code and from a message" % (len(SPECS), len(SETS)), [[i] for i in range(len(SPECS))], lambda block: (["seq", i] for i in block)),
            Scope("decimals", "every number of <=%d decimals below 1 and of <=2 decimals below 10, as float, Decimal and negative, x %d option sets"
                  % (5 if thorough else 4, len(DSETS)), [[(k, i)] for k in range(5 if not thorough else 20) for i in range(len(DSETS))], gen_dec),
            Scope("magnitudes", "numbers of 1 to %d digits around the powers of ten, with 0-4 decimals, as int, float and Decimal, x %d option sets x 3 locales" % (24, len(DSETS)),
                  [[e] for e in range(24)], lambda block: (["mag", e, i] for e in block for i in range(len(DSETS)))),
            Scope("places", "%d numbers, as literals, arguments and through NUMBER(), in %d places of messages, %d locales" % (len(PLACED), len(PLACES), len(numref.LOCALES)),
                  [[l] for l in numref.LOCALES], lambda block: (["place", l, i] for l in block for i in range(len(PLACED)))),
            Scope("kinds", "numbers of %d derived types, and of up to 400 digits: wrapped, optioned, shown" % len(KINDS), [[i] for i in range(len(KINDS))],
                  lambda block: (["kind", i] for i in block)),
            Scope("spellings", "every locale's name in other cases and with underscores, alone and after an unknown one", [[l] for l in numref.LOCALES],
                  lambda block: (["spell", l] for l in block)),
            Scope("everywhere", "all %d locales Babel knows x %d numbers x styles x grouping, as Babel shows them" % (len(KNOWN), len(EVERY)), chunks(KNOWN, 64),
                  lambda block: (["every", l] for l in block)),
            Scope("refused", "unknown option names and values, in code and in messages", [0], gen_refuse),
        ]

    def run_case(self, scope, case):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return getattr(self, "do_" + case[0])(*case[1:])

    def do_format(self, o, locs):
        n = 0
        total = 0
        lo = [(l, Locale.parse(l.replace("-", "_"))) for l in locs]
        before = {l: (str(b.decimal_formats[None].pattern), b.decimal_formats[None].frac_prec,
                      b.decimal_formats[None].int_prec, b.decimal_formats[None].grouping) for l, b in lo}
        for spec in SPECS:
            v = value(spec)
            x = fluent_number(v, **o)
            if type(x) is not family(v) or not same_value(x, v):
                raise Violation("fluent_number(%r, %r) is %s(%r)" % (v, o, type(x).__name__, x))
            if options_of(x) != effective(o):
                raise Violation("fluent_number(%r, **%r) has the options %r" % (v, o, x.options))
            for l, b in lo:
                total += 1
                want = numref.format_number(v, o, l)
                if want is None:
                    continue
                got = x.format(b)
                n += 1
                if got != want:
                    raise Violation("fluent_number(%r, **%r) in %s: %r, should be %r" % (v, o, l, got, want))
        for l, b in lo:
            f = b.decimal_formats[None]
            if before[l] != (str(f.pattern), f.frac_prec, f.int_prec, f.grouping):
                raise Violation("the locale data of %s has changed" % l)
        return Result(tuple(sorted(o)), traces=n, states=n, transitions=total)

    def message(self, opts):
        return "m = { NUMBER(" + ", ".join(["$n"] + ["%s: %s" % (k, literal(v)) for k, v in opts.items()]) + ") }\n"

    def do_merge(self, a, b):
        merged = dict(a, **b)
        a_ok = a.get("style") != "currency" or a.get("currency")
        src = self.message(b) + "plain = { $n }\nsel = { NUMBER($n%s) ->\n [one] one\n *[other] other\n}\n" % "".join(
            ", %s: %s" % (k, literal(v)) for k, v in b.items())
        n = 0
        for loc in ("en", "de-CH"):
            bundle = FluentBundle([loc], use_isolating=False)
            bundle.add_resource(FluentResource(src))
            m, plain = bundle.get_message("m").value, bundle.get_message("plain").value
            for spec in SPECS[::3]:
                v = value(spec)
                x = fluent_number(v, **a) if a and a_ok else v
                args = {"n": x}
                fields = [(m, merged), (plain, a), (m, merged)]
                for pat, o in fields:
                    bad = o.get("style") == "currency" and not o.get("currency")
                    got, errs = bundle.format_pattern(pat, args)
                    n += 1
                    if bad:
                        if got != "NUMBER()" or len(errs) != 1 or not isinstance(errs[0], ValueError):
                            raise Violation("currency style without a currency gives %r %r" % (got, errs))
                        continue
                    if not numref.valid(o):
                        continue
                    want = numref.format_number(v, o, loc)
                    if want is None:
                        continue
                    if got != want or errs:
                        raise Violation("%r with %r in code and %r in the message (%s): %r %r, should be %r"
                                        % (v, a, b, loc, got, errs, want))
                if args != {"n": x} or args["n"] is not x:
                    raise Violation("the arguments were changed")
                if isinstance(x, FluentNumber) and (options_of(x) != effective(a) or not same_value(x, v)):
                    raise Violation("the number passed in was changed: %r" % (x.options,))
        return Result((tuple(a), tuple(b)), traces=n, states=n, transitions=n)

    def do_unset(self, i):
        o = dict({"maximumFractionDigits": 1, "minimumIntegerDigits": 3}, **MERGE[i])
        if o.get("style") == "currency" and not o.get("currency"):
            o["currency"] = "JPY"
        names = [k for k in ALL_NAMES if k not in DEFAULTS and o.get(k) is not None] + (["currency"] if o.get("style") != "currency" and o.get("currency") else [])
        n = 0
        for spec in (["n", "1234567"], ["n", "1234.5678"], ["d", "0.0550"], ["n", "-3"]):
            v = value(spec)
            for gone in [[k] for k in names] + [names]:
                y = fluent_number(fluent_number(v, **o), **{k: None for k in gone})
                left = {k: x for k, x in o.items() if k not in gone}
                n += 1
                if options_of(y) != effective(left):
                    raise Violation("options of %r wrapped with %r, then without %r: %r" % (v, o, gone, y.options))
                if numref.valid(left):
                    want, got = numref.format_number(v, left, "en"), y.format(Locale.parse("en"))
                    if want is not None and got != want:
                        raise Violation("%r wrapped with %r, then without %r: %r, should be %r" % (v, o, gone, got, want))
        return Result(tuple(names), traces=n, states=n, transitions=n)

    def do_chain(self, a, b, c):
        sets = [a, b, c]
        n = 0
        for spec in (["n", "1234567"], ["n", "1234.5678"], ["d", "0.0550"], ["n", "-3"]):
            v = value(spec)
            xs, merged = [], {}
            x = v
            for o in sets:
                merged = dict(merged, **o)
                if merged.get("style") == "currency" and not merged.get("currency"):
                    try:
                        fluent_number(x, **o)
                    except ValueError:
                        break
                    raise Violation("currency style without a currency was accepted")
                x = fluent_number(x, **o)
                xs.append((x, dict(merged)))
            for y, o in xs:
                n += 1
                if type(y) is not family(v) or not same_value(y, v):
                    raise Violation("%r wrapped with %r is %s(%r)" % (v, sets, type(y).__name__, y))
                if options_of(y) != effective(o):
                    raise Violation("options of %r wrapped with %r: %r" % (v, sets, y.options))
                if numref.valid(o):
                    want = numref.format_number(v, o, "en")
                    got = y.format(Locale.parse("en"))
                    if want is not None and got != want:
                        raise Violation("%r wrapped with %r: %r, should be %r" % (v, sets, got, want))
        if options_of(FluentInt(1)) != effective({}) or options_of(fluent_number(1.5)) != effective({}):
            raise Violation("the default options have changed")
        return Result(len(xs), traces=n, states=n, transitions=n)

    def do_seq(self, i):
        """What is remembered of a number must not show in the result for one
        equal to it."""
        first = value(SPECS[i])
        bs = {}
        for l in {l for _, l in SETS}:
            bs[l] = FluentBundle([l], use_isolating=False)
            bs[l].add_resource(FluentResource("m = { $n }\n" + "".join(self.message(o).replace("m =", "m%d =" % k, 1) for k, (o, _) in enumerate(SETS))))
        loc = {l: Locale.parse(l) for l in bs}

        def get(v, k):
            o, l = SETS[k]
            b = bs[l]
            p, q = b.get_message("m").value, b.get_message("m%d" % k).value
            return (b.format_pattern(q, {"n": v}), b.format_pattern(p, {"n": fluent_number(v, **o)}), (fluent_number(v, **o).format(loc[l]), []))
        n = 0
        for spec in SPECS:
            v = value(spec)
            for k2, (o, l) in enumerate(SETS):
                want = numref.format_number(v, o, l)
                if want is None:
                    continue
                for k1 in range(len(SETS)):
                    get(first, k1)
                    for how, got in enumerate(get(v, k2)):
                        n += 1
                        if got != (want, []):
                            raise Violation("%r with %r in %s (%d), after %r with %r in %s: %r, should be %r" % (v, o, l, how, first, SETS[k1][0], SETS[k1][1], got, want))
        return Result(n, traces=n, states=n, transitions=n)

    def numbers(self, values, i, locs):
        o = DSETS[i]
        n = 0
        for l in locs:
            b = FluentBundle([l], use_isolating=False)
            b.add_resource(FluentResource(self.message(o)))
            p = b.get_message("m").value
            for v in values:
                want = numref.format_number(v, o, l)
                if want is None:
                    continue
                got = b.format_pattern(p, {"n": v})
                n += 1
                if got != (want, []):
                    raise Violation("NUMBER(%r, %r) in %s: %r, should be %r" % (v, o, l, got, want))
        return Result((i, n), traces=n, states=n, transitions=n)

    def do_dec(self, d, start, stop, i):
        values = []
        for k in range(start, stop):
            t = "%d.%0*d" % (k // 10 ** d, d, k % 10 ** d)
            values += [float(t), Decimal(t)]
            if k % 5 == 0:
                values += [-float(t), Decimal("-" + t)]
        return self.numbers(values, i, ["en" if i % 2 else "de"])

    def do_mag(self, e, i):
        values = []
        for n in sorted({10 ** e * f + d for f in (1, 2, 5, 9) for d in (-2, -1, 0, 1)} | {int("1234567890" * 3) // 10 ** (30 - e - 1)}):
            values += [n, -n, Decimal(n), float(n)]
            for t in ("5", "50", "25", "499", "4999", "95", "995", "005", "0005"):
                values += [Decimal("%d.%s" % (n, t)), float("%d.%s" % (n, t))]
        return self.numbers(values, i, ["en", "hi", "de"])

    def do_choice(self, locales):
        bundle = FluentBundle(locales, use_isolating=False)
        bundle.add_resource(FluentResource('m = { $n } { NUMBER($n, style: "percent") } { 1234.5 }\n'))
        loc = next(l for l in locales if l in numref.LOCALES)
        for v in (1234567.891, -0.5, 12):
            want = " ".join([numref.format_number(v, {}, loc), numref.format_number(v, {"style": "percent"}, loc),
                             numref.format_number(1234.5, {}, loc)])
            got = bundle.format_pattern(bundle.get_message("m").value, {"n": v})
            if got != (want, []):
                raise Violation("locales %r: %r, should be %r" % (locales, got, want))
        return loc

    def do_place(self, locale, i):
        """A number looks the same wherever it stands."""
        text = PLACED[i]
        v = value(["n", text])
        n = 0
        for e, o in [(text, {}), ("NUMBER(%s)" % text, {}), ("NUMBER(%s, minimumFractionDigits: 3)" % text, {"minimumFractionDigits": 3}),
                     ("$n", {}), ("NUMBER($n)", {}), ("NUMBER($n, style: \"percent\", useGrouping: \"\")" , {"style": "percent", "useGrouping": ""}),
                     ("ID(%s)" % text, {}), ("ID($n)", {})]:
            want = numref.format_number(v, dict(o, useGrouping=bool(o.get("useGrouping", True))), locale)
            if want is None:
                continue
            for iso in (False, True):
                b = FluentBundle([locale], functions={"ID": lambda x: x, "TWO": lambda x, k: k}, use_isolating=iso)
                src = "".join("%s\n" % p.replace("E", e) for p in PLACES)
                b.add_resource(FluentResource(src.replace("TWO(1", "TWO(%s" % text) + "arg = { -arg(n: %s) }\n-arg = <{ $n }>\n" % text))
                for name in [p.split(" ")[0] for p in PLACES if p[0] != "-"] + ["arg"]:
                    if e.startswith("$") or "$" in e:
                        if name in ("term", "termattr"):
                            continue    # no such argument inside of a term
                    if name == "arg" and o:
                        continue
                    m = b.get_message(name)
                    for pat in [m.value] + list(m.attributes.values()):
                        got, errs = b.format_pattern(pat, {"n": v})
                        n += 1
                        w = numref.format_number(v, {}, locale) if name == "arg" else want
                        if got.replace("\u2068", "").replace("\u2069", "") not in (w, "<%s>" % w) or errs:
                            raise Violation("%s in %s, %s: %r %r, should be %r" % (e, name, locale, got, errs, w))
        return Result(i, traces=n, states=n, transitions=n)

    def do_kind(self, i):
        """Types derived from the number types, and numbers of many digits."""
        v, plain = KINDS[i]
        n = 0
        for o in MERGE:
            if o.get("style") == "currency" and not o.get("currency"):
                continue
            for o2 in ({}, {"minimumIntegerDigits": 2}, {"useGrouping": False}):
                x = fluent_number(v, **o)
                y = fluent_number(x, **o2)
                z = fluent_number(y)
                n += 3
                for a, opts in ((x, o), (y, dict(o, **o2)), (z, dict(o, **o2))):
                    if type(a) is not family(plain) or not same_value(a, plain):
                        raise Violation("%r of %s wrapped with %r: %s(%r)" % (v, type(v).__name__, opts, type(a).__name__, a))
                    if options_of(a) != effective(opts):
                        raise Violation("%r wrapped with %r has the options %r" % (v, opts, a.options))
        got = []
        b = FluentBundle(["en"], functions={"SEE": lambda *x, **k: got.append((x, k)) or "seen"}, use_isolating=False)
        b.add_resource(FluentResource("m = { $n }\nf = { SEE($n) }\ng = { NUMBER($n, minimumIntegerDigits: 1) }\nh = { SEE(NUMBER($n)) }\n"))
        for name in "fh":
            r = b.format_pattern(b.get_message(name).value, {"n": v})
            if r != ("seen", []) or type(got[-1][0][0]) is not family(plain) or not same_value(got[-1][0][0], plain):
                raise Violation("%r passed to a function: %r, %r" % (v, r, got[-1:]))
        want = numref.format_number(plain, {}, "en") if len(str(plain)) < 28 else None
        if want is not None:
            for name in "mg":
                r = b.format_pattern(b.get_message(name).value, {"n": v})
                n += 1
                if r != (want, []):
                    raise Violation("%r of %s: %r, should be %r" % (v, type(v).__name__, r, want))
        return Result(i, traces=n, states=n, transitions=n)

    def do_spell(self, locale):
        """Locale names are told apart neither by case nor by the separator."""
        v, n = 1234567.891, 0
        want = numref.format_number(v, {"style": "percent"}, locale) + " " + numref.format_number(v, {}, locale)
        for name in spellings(locale):
            for names in ([name], ["xx", name], [name, "en", "de"]):
                b = FluentBundle(names, use_isolating=False)
                b.add_resource(FluentResource('m = { NUMBER($n, style: "percent") } { $n }\n'))
                got = b.format_pattern(b.get_message("m").value, {"n": v})
                n += 1
                if got != (want, []):
                    raise Violation("locales %r: %r, should be %r" % (names, got, want))
        return Result(n, traces=n, states=n, transitions=n)

    def do_every(self, locale):
        """What isn't asked for is the locale's; Babel is the oracle."""
        known = Locale.parse(locale)
        b = FluentBundle([locale.replace("_", "-")], use_isolating=False)
        b.add_resource(FluentResource('a = { $n }\nb = { NUMBER($n, style: "percent") }\nc = { NUMBER($n, style: "currency", currency: "EUR") }\n'
                                      'd = { NUMBER($n, style: "currency", currency: "JPY") }\ne = { NUMBER($n, style: "currency", currency: "KWD", currencyDisplay: "code") }\n'
                                      'g = { NUMBER($n, minimumFractionDigits: 4) }\n'))
        n = 0
        for v in EVERY:
            for plain in (False, True):
                group = {"group_separator": False} if plain else {}
                want = {"a": babel.numbers.format_decimal(v, locale=known, **group), "b": babel.numbers.format_percent(v, locale=known, **group),
                        "c": babel.numbers.format_currency(v, "EUR", locale=known, **group), "d": babel.numbers.format_currency(v, "JPY", locale=known, **group)}
                if not plain:
                    want["e"] = babel.numbers.format_currency(v, "KWD", format=known.currency_formats["standard"].pattern.replace("\xa4", "\xa4\xa4"), locale=known)
                    if known.decimal_formats[None].frac_prec == (0, 3):
                        want["g"] = babel.numbers.format_decimal(v, format=known.decimal_formats[None].pattern.replace(".###", ".0000"), locale=known)
                x = fluent_number(v, useGrouping=False) if plain else v
                for name, w in want.items():
                    got = b.format_pattern(b.get_message(name).value, {"n": x})
                    n += 1
                    if got != (w, []):
                        raise Violation("%s of %r in %s: %r, should be %r" % (name, x, locale, got, w))
        return Result(known.decimal_formats[None].pattern, traces=n, states=n, transitions=n)

    def do_refuse(self, name, v, spec, base):
        x = value(spec)
        wrapped = fluent_number(x, **base)
        for subject in (x, wrapped):
            try:
                r = fluent_number(subject, **{name: v})
            except (TypeError, ValueError):
                pass
            else:
                raise Violation("fluent_number(%r, %s=%r) accepted: %r" % (subject, name, v, r.options))
        bundle = FluentBundle(["en"], use_isolating=False)
        bundle.add_resource(FluentResource(self.message({name: v}) + "p = { $n }\n"))
        for subject in (x, wrapped):
            got, errs = bundle.format_pattern(bundle.get_message("m").value, {"n": subject})
            if got != "NUMBER()" or len(errs) != 1 or not isinstance(errs[0], (TypeError, ValueError)):
                raise Violation("NUMBER(%r, %s: %r) gives %r %r" % (subject, name, v, got, errs))
        if options_of(wrapped) != effective(base):
            raise Violation("a refused option changed the number: %r" % (wrapped.options,))
        none = FluentNone("x")
        if fluent_number(none, style="percent") is not none:
            raise Violation("FluentNone is not passed through")
        for bad in ("5", None, [1]):
            try:
                fluent_number(bad)
            except TypeError:
                continue
            raise Violation("fluent_number(%r) accepted" % (bad,))
        return name


KNOWN = sorted(babel.localedata.locale_identifiers())
EVERY = [0, 1, -1, 1234567, -1234567, 12345, 0.5, -0.25, 1234.5678, Decimal("99999.995"), 10 ** 12]


class Color(enum.IntEnum):
    RED = 1234567


class Int(int):
    def __str__(self):
        return "odd"


class Float(float):
    def __repr__(self):
        return "odd"


class Dec(Decimal):
    def __str__(self):
        return "odd"


def spellings(name):
    out = {name, name.lower(), name.upper(), name.replace("-", "_"), name.swapcase(), name.capitalize(), name.lower().replace("-", "_"), name.upper().replace("-", "_")}
    return sorted(out)


PLACED = ["0", "7", "42", "1234", "9999", "10000", "1234567", "-1", "-1234", "0.5", "1234.5", "-0.25", "9999.125"]
# E is the expression
PLACES = ["lone = { E }", "text = <{ E }>", "attr = { E }\n    .at = <{ E }>", "nested = { { E } }", "nested2 = <{ { { E } } }>", "variant = { 1 ->\n    [1] { E }\n   *[o] no\n    }",
          "variant2 = <{ \"x\" ->\n    [1] no\n   *[o] { E }\n    }>", "-t = { E }", "-u = <{ E }>", "term = { -t }", "term2 = { -u(n: 1) }", "term = <{ -t }>", "termattr = { -u }",
          "ref = { lone }", "ref2 = { text }", "ref3 = { attr.at }", "fn = { ID(E) }", "fn2 = { ID({ E }) }", "fn3 = { ID(ID(E)) }", "named = { TWO(2, k: 1) }"]
PLACES = [p for p in PLACES if not p.startswith(("term2", "named", "term = <"))]
KINDS = [(Color.RED, 1234567), (Int(1234), 1234), (Int(-5), -5), (Float(1234.5), 1234.5), (Float(0.1), 0.1), (Dec("1234.50"), Decimal("1234.50")), (True, 1), (False, 0)]
KINDS += [(x, x) for x in (10 ** 30 + 1, -(10 ** 100) - 7, 2 ** 1000 + 1, Decimal(10) ** 27 + 1, Decimal("1" * 40), Decimal("-0." + "1" * 40), Decimal("1." + "0" * 40), Decimal("1." + "0" * 29 + "1"),
                           Decimal("123456789" * 40 + ".5"), Decimal("1E-40"), Decimal("1.50E+40"), Decimal("-0E+3"), Decimal("-0.000"), Decimal("0E-40"), Decimal("1.000E-30"), -0.0, 5e-324, 1.7976931348623157e308,
                           0.1 + 0.2)]
SETS = [({}, "en"), ({"minimumFractionDigits": 1}, "en"), ({"style": "percent", "useGrouping": False}, "de"), ({}, "de")]
DSETS = [{}, {"style": "percent"}, {"style": "percent", "maximumFractionDigits": 1}, {"maximumFractionDigits": 2}, {"maximumFractionDigits": 0},
         {"maximumSignificantDigits": 2}, {"style": "percent", "maximumSignificantDigits": 2}, {"style": "currency", "currency": "USD"},
         {"style": "percent", "minimumFractionDigits": 3}, {"minimumFractionDigits": 2, "useGrouping": False}]
CHECK = C24()
