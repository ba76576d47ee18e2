"""C21: formatting has no side effects on what it is given."""
import datetime
import decimal
import itertools
import os
import random
import types
import warnings
from collections import OrderedDict
from decimal import Decimal

import babel

from .. import docs
from ..core import Check, Result, Scope, Violation, chunks
from fluent.runtime import FluentBundle, FluentResource, builtins as fluent_builtins, types as fluent_types
from fluent.runtime.types import FluentNone, FluentType, fluent_date, fluent_number

LOCALES = ["en", "de", "ar", "fr"]
TZ = datetime.timezone(datetime.timedelta(hours=5, minutes=30))


class Custom(FluentType):
    def __init__(self, text):
        self.text = text

    def format(self, locale):
        return self.text


def photo(x, seen=None):
    """Everything observable about x and what it holds, identities included."""
    seen = {} if seen is None else seen
    if x is None or isinstance(x, (bool, types.FunctionType, type, types.BuiltinFunctionType)):
        return id(x)
    if type(x) in (int, float, str, bytes, Decimal):
        return (type(x).__name__, repr(x))
    if id(x) in seen:
        return ("seen", seen[id(x)])
    seen[id(x)] = len(seen)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, id(x), tuple(photo(y, seen) for y in x))
    if isinstance(x, (dict, types.MappingProxyType)):
        return (type(x).__name__, id(x), tuple((photo(k, seen), photo(v, seen)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, id(x), tuple(sorted(map(repr, x))))
    body = repr(x) if isinstance(x, (int, float, str, Decimal, datetime.date)) else ""
    d = getattr(x, "__dict__", None)
    return (type(x).__name__, id(x), body, tuple((k, photo(v, seen)) for k, v in sorted(d.items())) if d else ())


def world():
    """Shared data outside of the bundles."""
    out = []
    for name in LOCALES:
        loc = babel.Locale.parse(name)
        for table in (loc.decimal_formats, loc.percent_formats, loc.currency_formats):
            out.append((name, tuple((k, tuple(sorted((a, repr(b)) for a, b in vars(v).items()))) for k, v in sorted(table.items(), key=repr))))
        out.append(repr(sorted(loc.number_symbols.get("latn", {}).items())))
        out.append(repr([(k, v.pattern) for k, v in sorted(loc.date_formats.items(), key=repr)]))
        out.append(repr([(k, v.pattern) for k, v in sorted(loc.time_formats.items(), key=repr)]))
        out.append(repr(sorted((k, str(v)) for k, v in loc.datetime_formats.items() if k)))
        out.append(repr((loc.plural_form.rules, loc.ordinal_form.rules)))
    out.append(photo(fluent_builtins.BUILTINS))
    out.append(repr(getattr(fluent_types.FluentNumber, "default_number_format_options", None)))
    c = decimal.getcontext()
    out.append((c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, tuple((k.__name__, v) for k, v in c.traps.items())))
    out.append(hash(random.getstate()))
    out.append(repr(sorted(os.environ.items())))
    return out


SOURCE = """a = A { $n } { $s } { b }
b = { $n ->
    [one] one { $n }
   *[other] other { -t(n: 2) }
  } { NUMBER($n, minimumFractionDigits: 1) }
    .x = { NUMBER($n, style: "percent") }
    .y = { NUMBER($n, style: "currency", currency: "USD", currencyDisplay: "code") } { NUMBER($n, useGrouping: "") }
-t = term { $n } { $s }
    .g = { $n }
c = { -t.g(n: 3) ->
    [3] { F($n, k: $s) }
   *[o] O
  } { NUMBER($n, maximumSignificantDigits: 1) } { NUMBER($n, type: "ordinal") }
d = { DATETIME($d, dateStyle: "full") } { DATETIME($d, timeZone: "Asia/Tokyo", dateStyle: "short", timeStyle: "short") } { $d }
e = { miss } { $nope } { F() } { e } { -t.zz ->
   *[o] x
  } { FAIL() }
f = { F($n, $s, k: 1) } { $o } { "lit\\u0041" } { 1.50 } { -3 }
g = { b.y } { b.x } { $p } { NUMBER($p, minimumFractionDigits: 3) } { NUMBER($p) }
h = { NUMBER($n, minimumIntegerDigits: 4, maximumFractionDigits: 0) } { NUMBER($n, currency: "JPY", style: "currency") }
"""
SOURCE = SOURCE.replace("k: $s", "k: \"s\"")
NAMES = ["a", "b", "b.x", "b.y", "c", "d", "e", "f", "g", "h"]
OVERRIDE = "a = over { b }\n-t = other term\nF = m\n"


def functions(tag):
    def F(*args, **kw):
        return "%s%d%s" % (tag, len(args), sorted(kw))

    def FAIL():
        raise ValueError("fail")
    return {"F": F, "FAIL": FAIL}


def arguments(k):
    base = [
        {"n": 1, "s": "S", "d": datetime.datetime(2021, 2, 3, 4, 5, 6, tzinfo=TZ), "o": Custom("obj"),
         "p": fluent_number(0.5, style="percent", minimumFractionDigits=1)},
        OrderedDict([("n", fluent_number(1234.5, minimumFractionDigits=3)), ("s", fluent_number(2)), ("d", fluent_date(
            datetime.datetime(2021, 2, 3, 23, 5), dateStyle="long", timeStyle="short", timeZone="Europe/Paris")),
            ("o", FluentNone("none")), ("p", fluent_number(Decimal("3.25"), style="currency", currency="EUR"))]),
        types.MappingProxyType({"n": Decimal("2.50"), "s": ["list"], "d": datetime.date(2020, 2, 29), "o": {"x": [1, {2}]}, "p": True}),
    ]
    return base[k]


class Setup:
    """Two bundles sharing a resource, arguments and functions."""

    def __init__(self, locales):
        self.resource = FluentResource(SOURCE)
        self.over = FluentResource(OVERRIDE)
        self.args = [arguments(k) for k in range(3)]
        self.functions = functions("f")
        self.locales = [[l, "en"] for l in locales]
        self.bundles = [FluentBundle(self.locales[0], functions=self.functions, use_isolating=False),
                        FluentBundle(self.locales[1], functions=self.functions)]
        self.given = (self.resource, self.over, self.args, self.functions, self.locales)

    def fresh(self, k, ops):
        """A bundle of its own that got the same resources."""
        b = FluentBundle(list(self.locales[k]), functions=functions("f"), use_isolating=bool(k))
        for op in ops:
            b.add_resource(FluentResource(SOURCE if op[0] == "add" else OVERRIDE), allow_overrides=op[0] == "over")
        return b


def run(b, name, args):
    n, _, attr = name.partition(".")
    if not b.has_message(n):
        return None
    m = b.get_message(n)
    text, errs = b.format_pattern(m.attributes[attr] if attr else m.value, args)
    return text, [(type(e).__name__, str(e)) for e in errs]


_alone = {}
OPS = [["add", 0], ["add", 1], ["over", 0], ["over", 1]] + [["fmt", k, n, a] for k in (0, 1) for n in (0, 1, 3, 4, 5, 8, 9) for a in (0, 1)] \
    + [["fmt", 0, n, 2] for n in (0, 4, 5, 6)] + [["fmt", 1, n, 0] for n in (2, 6, 7)]


class C21(Check):
    id = "C21"
    assumptions = ["custom functions change nothing but the numbers and dates made of arguments for them"]

    def scopes(self, tier):
        thorough = tier == "thorough"
        pairs = [["en", "de"], ["ar", "en"]] if thorough else [["en", "de"]]

        def gen(block):
            for p, x in block:
                for tail in itertools.product(OPS, repeat=2 if thorough else 1):
                    yield ["ops", p, [["add", 0], ["add", 1], x, *tail]]
                    if x[0] != "fmt":
                        yield ["ops", p, [x, *tail]]

        def gen_watch(block):
            for n in block:
                for a in range(3):
                    for l in range(len(LOCALES)):
                        for iso in (0, 1):
                            yield ["watch", n, a, l, iso]

        def gen_opts(block):
            for i in block:
                yield ["opts", i]
        texts = [s for s in docs.standard(tier, 2) if s.name.startswith(("holes", "edits", "trunc", "scale"))]
        for s in texts:
            s.name = "text-" + s.name
        return texts + [
            Scope("histories", "two bundles sharing resource, arguments and functions: every sequence of %d of %d operations, each result "
                  "compared with bundles of its own" % (3 if thorough else 2, len(OPS)), [[(p, x)] for p in pairs for x in OPS], gen),
            Scope("watch", "every message x 3 argument mappings x %d locales x isolation, with everything given and all locale data "
                  "compared before and after" % len(LOCALES), [[i] for i in range(len(NAMES))], gen_watch),
            Scope("assigning", "functions that set the options of the numbers and dates they are given: every ordered pair of %d values, later calls of this and "
                  "another bundle" % len(ASSIGNED), [[i] for i in range(len(ASSIGNED))], lambda block: (["assign", i] for i in block)),
            Scope("options", "every number or date option combination of %d, passed in and overridden by the message" % len(OPTIONED),
                  [[i] for i in range(len(OPTIONED))], gen_opts),
        ]

    def run_case(self, scope, case):
        if isinstance(case, str):
            return self.do_text(case)
        return getattr(self, "do_" + case[0])(*case[1:])

    def do_ops(self, locales, ops):
        s = Setup(locales)
        before = photo(s.given)
        added = [[], []]
        n = 0
        for i, op in enumerate(ops):
            k = op[1]
            if op[0] == "add":
                s.bundles[k].add_resource(s.resource)
                added[k].append(op)
            elif op[0] == "over":
                s.bundles[k].add_resource(s.over, allow_overrides=True)
                added[k].append(op)
            else:
                got = run(s.bundles[k], NAMES[op[2]], s.args[op[3]])
                key = (locales[k], k, NAMES[op[2]], op[3], tuple(x[0] for x in added[k]))
                if key not in _alone:
                    _alone[key] = run(s.fresh(k, added[k]), NAMES[op[2]], arguments(op[3]))
                n += 1
                if got != _alone[key]:
                    raise Violation("%r after %r gives %r, in a bundle of its own %r" % (op, ops[:i], got, _alone[key]))
            now = photo(s.given)
            if now != before:
                raise Violation("%r changed what was given: %s" % (op, where(before, now)))
        return Result(n, traces=n, states=len(ops), transitions=len(ops))

    def do_watch(self, n, a, l, iso):
        res, args, fs, locs = FluentResource(SOURCE), arguments(a), functions("f"), [LOCALES[l]]
        given = (res, args, fs, locs)
        before, outside = photo(given), world()
        b = FluentBundle(locs, functions=fs, use_isolating=bool(iso))
        b.add_resource(res)
        first = run(b, NAMES[n], args)
        second = run(b, NAMES[n], args)
        if first != second:
            raise Violation("%s twice: %r, %r" % (NAMES[n], first, second))
        if photo(given) != before:
            raise Violation("%s changed what was given: %s" % (NAMES[n], where(before, photo(given))))
        now = world()
        if now != outside:
            raise Violation("%s changed shared data: %s" % (NAMES[n], where(tuple(outside), tuple(now))))
        return first

    def do_assign(self, i):
        """A function may do as it likes with the number or date made for it of
        an argument; others don't notice."""
        def SET(x):
            x.options = fluent_types.merge_options(type(x.options), None, {"timeZone": "Asia/Tokyo"} if isinstance(x, datetime.date) else {"minimumIntegerDigits": 4})
            x.extra = 1
            return x

        def SEE(x):
            return "extra" if hasattr(x, "extra") else "plain"
        res = FluentResource("set = { SET($x) }\nget = { $x } { SEE($x) } { $x ->\n    [1] one\n   *[o] other\n    }\n")
        fs = {"SET": SET, "SEE": SEE}
        n = 0
        for j in range(len(ASSIGNED)):
            b, c = (FluentBundle(["en"], functions=fs, use_isolating=False) for _ in range(2))
            b.add_resource(res)
            c.add_resource(res)
            alone = run(c, "get", {"x": ASSIGNED[j]()})
            given = ASSIGNED[j]()
            first = ASSIGNED[i]()
            before = photo(given), photo(first)
            run(b, "set", {"x": first})
            run(b, "set", {"x": given})
            for d in (b, c, FluentBundle(["en"], functions=fs, use_isolating=False)):
                if d is not b and d is not c:
                    d.add_resource(res)
                got = [run(d, "get", {"x": x}) for x in (given, ASSIGNED[j]())]
                n += 2
                if got != [alone, alone]:
                    raise Violation("SET on %r and %r, then %r: %r, alone %r" % (first, given, given, got, alone))
            if (photo(given), photo(first)) != before:
                raise Violation("SET changed the arguments")
        return Result(n, traces=n, states=n, transitions=n)

    def do_opts(self, i):
        value, opts, over = OPTIONED[i]
        make = fluent_number if not isinstance(value, datetime.date) else fluent_date
        name = "NUMBER" if make is fluent_number else "DATETIME"
        n = 0
        for locale in LOCALES:
            x = make(value, **opts)
            before, outside = photo(x), world()
            plain = FluentBundle([locale])
            src = "m = { $x }\no = { %s($x%s) }\n" % (name, "".join(", %s: %s" % (k, ('"%s"' % v if isinstance(v, str) else v)) for k, v in over.items()))
            plain.add_resource(FluentResource(src))
            alone = run(plain, "m", {"x": make(value, **opts)})
            with_over = run(plain, "o", {"x": make(value, **opts)})
            b = FluentBundle([locale])
            b.add_resource(FluentResource(src))
            for name2, want in (("m", alone), ("o", with_over), ("m", alone), ("o", with_over), ("m", alone)):
                got = run(b, name2, {"x": x})
                n += 1
                if got != want:
                    raise Violation("%r with %r over %r in %s: %s gives %r, alone %r" % (value, over, opts, locale, name2, got, want))
            if photo(x) != before:
                raise Violation("the options of the argument changed: %s" % (where(before, photo(x)),))
            make(x)
            make(x, **over)
            if world() != outside or photo(x) != before:
                raise Violation("merging options changed others: %s" % where(tuple(outside), tuple(world())))
        return Result(n, traces=n, states=n, transitions=n)

    def do_text(self, text):
        res = FluentResource(text)
        before = photo(res)
        outs = []
        args = {"v": "V", "n": 1, "name": "N"}
        bs = [FluentBundle(["en"], use_isolating=False), FluentBundle(["de"])]
        for b in bs:
            b.add_resource(res)
            b.add_resource(res, allow_overrides=True)
        names = sorted({e.id.name for e in res.body if type(e).__name__ == "Message"})
        for r in range(2):
            for k, b in enumerate(bs):
                for n in names:
                    m = b.get_message(n)
                    for p in [m.value] * (m.value is not None) + list(m.attributes.values()):
                        out = b.format_pattern(p, args)
                        outs.append((k, n, out[0], [repr(e) for e in out[1]]))
        if outs[:len(outs) // 2] != outs[len(outs) // 2:]:
            raise Violation("the second round differs: %r" % (outs,))
        if photo(res) != before:
            raise Violation("the resource changed: %s" % (where(before, photo(res)),))
        if args != {"v": "V", "n": 1, "name": "N"}:
            raise Violation("the arguments changed: %r" % args)
        return len(outs)


def where(a, b, path=""):
    """First difference between two photos."""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return where(x, y, "%s/%s" % (path, i))
    return "%s: %.300r -> %.300r" % (path, a, b)


_DT = datetime.datetime(2021, 2, 3, 4, 5, 6, tzinfo=TZ)
OPTIONED = [(v, o, w) for v in (5, 1234.5678, Decimal("0.0625")) for o in (
    {}, {"minimumFractionDigits": 2}, {"style": "percent"}, {"style": "currency", "currency": "EUR"}, {"useGrouping": False},
    {"maximumSignificantDigits": 2}, {"type": "ordinal"}) for w in (
    {}, {"minimumFractionDigits": 3}, {"style": "percent"}, {"style": "currency", "currency": "JPY"},
    {"style": "currency", "currency": "USD", "currencyDisplay": "code"}, {"useGrouping": 0}, {"minimumIntegerDigits": 3},
    {"maximumFractionDigits": 0}, {"minimumSignificantDigits": 5})]
OPTIONED += [(v, o, w) for v in (_DT, datetime.datetime(2020, 1, 2, 3, 4)) for o in (
    {}, {"dateStyle": "full"}, {"timeStyle": "short"}, {"timeZone": "Asia/Tokyo"}, {"dateStyle": "long", "timeStyle": "full", "timeZone": "UTC"})
    for w in ({}, {"dateStyle": "short"}, {"timeStyle": "long"}, {"timeZone": "America/New_York"})]
OPTIONED += [(datetime.date(2020, 1, 2), o, w) for o in ({}, {"dateStyle": "full"}) for w in ({}, {"dateStyle": "short"})]
ASSIGNED = [lambda: 1, lambda: 5, lambda: True, lambda: 1.0, lambda: Decimal(1), lambda: 12345, lambda: 0.5, lambda: Decimal("0.5"), lambda: fluent_number(1, minimumFractionDigits=1),
            lambda: fluent_number(5), lambda: _DT, lambda: datetime.datetime(2020, 1, 2, 3, 4), lambda: datetime.date(2020, 1, 2),
            lambda: fluent_date(_DT, timeStyle="short"), lambda: _DT.astimezone(datetime.timezone.utc)]
CHECK = C21()
