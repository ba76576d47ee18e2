"""C25: dates and times show the right instant in the right zone and style."""
import datetime
import itertools
import os
import time
import warnings
import zoneinfo

import babel
import babel.dates
import pytz

from ..core import Check, Result, Scope, Violation, chunks
from ..dateref import EPOCH, LOCALES, STYLES, ZONES, civil, format_date, format_datetime, utc
from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.types import FluentDate, FluentDateTime, fluent_date

U = datetime.timezone.utc
NY, BE, TK = (zoneinfo.ZoneInfo(z) for z in ("America/New_York", "Europe/Berlin", "Asia/Tokyo"))


def fixed(minutes):
    return datetime.timezone(datetime.timedelta(minutes=minutes))


# where the value comes from: how to make it from an instant, its own zone
SOURCES = {
    "naive": (None, "UTC"), "utc": (U, "UTC"), "pytz-utc": (pytz.UTC, "UTC"), "zi-utc": (zoneinfo.ZoneInfo("UTC"), "UTC"), "+5:30": (fixed(330), 19800), "+0": (fixed(0), "UTC"),
    "-3:30": (fixed(-210), -12600), "-0:30": (fixed(-30), -1800), "+14": (fixed(840), 50400), "-12": (fixed(-720), -43200), "ny": (NY, "America/New_York"),
    "berlin": (BE, "Europe/Berlin"), "tokyo": (TK, "Asia/Tokyo"), "pytz-ny": (pytz.timezone("America/New_York"), "America/New_York"),
    "pytz-berlin": (pytz.timezone("Europe/Berlin"), "Europe/Berlin"),
}
INSTANTS = [utc(2021, 1, 1), utc(2021, 1, 1) - 1, utc(2020, 2, 29, 12), utc(2020, 2, 29) - 1, utc(2020, 3, 1), utc(2019, 2, 28, 23) + 3599,
            utc(2021, 7, 4, 16) + 309, utc(2021, 7, 4) + 1, utc(2021, 9, 9, 9) + 599, utc(2021, 10, 10, 10) + 60, utc(2021, 12, 31, 23) + 3599, utc(2021, 12, 31, 12),
            utc(2016, 5, 5, 0), utc(2016, 5, 5, 11) + 3599, utc(2016, 5, 5, 13), utc(2010, 6, 30, 15) + 30, utc(2029, 11, 30, 10)]
for _y in (2021, 2024):
    for _t in (utc(_y, 3, 14 if _y == 2021 else 10, 7), utc(_y, 11, 7 if _y == 2021 else 3, 6), utc(_y, 3, 28 if _y == 2021 else 31, 1), utc(_y, 10, 31 if _y == 2021 else 27, 1)):
        INSTANTS += [_t - 3601, _t - 3600, _t - 1800, _t - 1, _t, _t + 1800, _t + 3599, _t + 3600]
EVERY_HOUR = [utc(y, 1, 1) + k * 3600 * 7 for y in (2021,) for k in range(0, 1260)]
EDGES = [utc(2021, 7, 4, h) + x for h in (0, 12, 22, 4) for x in (-1, 0, 59, 60, 1799, 3599)] + [utc(2022, 1, 1) + x for x in (-1, 0)] + [utc(2020, 3, 1) - 1, utc(2024, 2, 29) + 86399]
ZONE_OPTS = [None, "UTC", "Asia/Tokyo", "America/New_York", "Europe/Berlin", "Etc/GMT+5", "Etc/GMT-14", "Etc/GMT+12"]
DATES = [datetime.date(y, m, d) for y, m, d in ((2020, 2, 29), (2021, 1, 1), (2021, 12, 31), (1999, 9, 9), (2000, 10, 10), (1, 1, 1), (9999, 12, 31), (987, 3, 4), (1582, 10, 15))]
DATES += [datetime.date(2021, m, d) for m in range(1, 13) for d in (1, 2, 9, 10, 15, 16, 17, 28)]


def own(source, t):
    """(value, offset, zone name) of instant t in its source."""
    tz, zone = SOURCES[source]
    if isinstance(zone, int):
        off, name = zone, "offset"
    else:
        off, name = ZONES[zone](t)
    y, m, d, H, M, S, _ = civil(t + off)
    if tz is not None and hasattr(tz, "localize") and tz is not pytz.UTC:
        # pytz values are made by localize; is_dst settles the second hour
        v = tz.localize(datetime.datetime(y, m, d, H, M, S), is_dst=name.endswith("dst"))
    else:
        v = datetime.datetime(y, m, d, H, M, S, 123456, tzinfo=tz)
        if zone in ("America/New_York", "Europe/Berlin") and ZONES[zone](t - 3600)[0] != off and name.endswith("std"):
            v = v.replace(fold=1)
    return v, off, name


def fields(v):
    return (v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond, v.fold)


def quoted(opts):
    return "".join(", %s: \"%s\"" % x for x in opts.items())


class Zone(datetime.tzinfo):
    """A fixed offset under some name."""

    def __init__(self, minutes, name):
        self.minutes, self.key, self.zone = minutes, name, name

    def utcoffset(self, dt):
        return datetime.timedelta(minutes=self.minutes)

    def dst(self, dt):
        return datetime.timedelta(0)

    def tzname(self, dt):
        return self.zone


def joined(pattern, time, date):
    """CLDR's pattern with {0} and {1} filled in, quotes resolved."""
    out, i, quoted_ = "", 0, False
    while i < len(pattern):
        if pattern[i] == "'":
            if pattern[i + 1:i + 2] == "'":
                out += "'"
                i += 1
            else:
                quoted_ = not quoted_
        elif not quoted_ and pattern[i:i + 3] in ("{0}", "{1}"):
            out += date if pattern[i + 1] == "1" else time
            i += 2
        else:
            out += pattern[i]
        i += 1
    return out


KNOWN = sorted(babel.localedata.locale_identifiers())
EVERY = [datetime.datetime(2021, 7, 4, 16, 5, 9, tzinfo=U), datetime.datetime(2020, 12, 31, 0, 0, 30, tzinfo=NY)]


class Stamp(datetime.datetime):
    """What a library of its own may hand over."""

    @property
    def nanosecond(self):
        return 7


class Odd(datetime.datetime):
    def __str__(self):
        return "odd"
    __repr__ = isoformat = strftime = lambda self, *a: "odd"


class Deep(Stamp):
    def __eq__(self, other):
        return NotImplemented
    __hash__ = None


class Day(datetime.date):
    def __str__(self):
        return "odd"


class Holiday(Day):
    name = "New Year"


NAMED = [(make, name) for make in (lambda m, x: datetime.timezone(datetime.timedelta(minutes=m), x), Zone)
         for name in ("UTC", "EST", "Asia/Tokyo", "America/New_York", "Etc/GMT+5", "CET")]
NAMED_OFFSETS = (300, -300, 0, 60, 345)


HOSTS = ("America/New_York", "Asia/Kolkata", "Pacific/Kiritimati", "Europe/Berlin")


class C25(Check):
    id = "C25"
    findings = {"negative-offset": lambda case, msg: "negative part-hour offset" in msg}
    assumptions = ["CLDR patterns and names written out for %s" % ", ".join(LOCALES), "zone rules of 2010-2030"]

    def scopes(self, tier):
        thorough = tier == "thorough"
        inst = range(len(INSTANTS))
        srcs = list(SOURCES)

        def gen_conv(block):
            for s, z in block:
                for i in inst:
                    yield ["conv", s, i, z, thorough]

        def gen_hours(block):
            for s in block:
                for k in range(0, len(EVERY_HOUR), 60):
                    yield ["hours", s, k]

        def gen_dates(block):
            for i in block:
                yield ["date", i]

        def gen_merge(block):
            for a in block:
                for b in range(len(OPTS)):
                    yield ["merge", a, b]

        def gen_wrap(block):
            for s in block:
                for i in inst:
                    yield ["wrap", s, i]
        def gen_seq(block):
            for s in block:
                for i in (2, 6, 17, 20, 21, 24, 25, 28):
                    yield ["seq", s, i]
        return [
            Scope("conversions", "%d instants (around every change of offset) x %d kinds of value x %d requested zones x 25 pairs of styles x %s"
                  % (len(INSTANTS), len(srcs), len(ZONE_OPTS), "5 locales" if thorough else "1-2 of 5 locales"), [[(s, z)] for s in srcs for z in range(len(ZONE_OPTS))], gen_conv),
            Scope("hours", "every seventh hour of a year from %d kinds of value into each zone" % len(srcs), [[s] for s in srcs], gen_hours),
            Scope("dates", "%d dates x 4 styles and none x 5 locales, from code and from a message" % len(DATES), [[i] for i in range(len(DATES))], gen_dates),
            Scope("merging", "%d x %d option sets: code, then message; dates, datetimes" % (len(OPTS), len(OPTS)), [[a] for a in range(len(OPTS))], gen_merge),
            Scope("fractions", "%d instants in the last and first seconds of minutes, hours and days x %d kinds of value x 7 fractions of a second x 3 requested zones" % (len(EDGES), len(srcs)),
                  [[(s, i)] for s in srcs for i in range(len(EDGES))], lambda block: (["micro", s, i] for s, i in block)),
            Scope("wrapping", "%d instants x %d kinds of value: fields, zone, fold, instant, equality after wrapping once and twice" % (len(INSTANTS), len(srcs)), [[s] for s in srcs], gen_wrap),
            Scope("sequences", "every ordered pair of %d kinds of value, at the same instant or at another with the same fields, one bundle: the second call's result" % len(srcs),
                  [[s] for s in srcs], gen_seq),
            Scope("named-zones", "zones of %d kinds whose name is that of another zone x %d offsets x %d instants x %d requested zones"
                  % (len(NAMED), len(NAMED_OFFSETS), len(EDGES), len(ZONE_OPTS)), [[(k, o)] for k in range(len(NAMED)) for o in NAMED_OFFSETS], lambda b: (["named", k, o] for k, o in b)),
            Scope("kinds", "dates and datetimes of derived types x %d instants x 25 pairs of styles x %d requested zones x 5 locales" % (len(EDGES[::3]), len(ZONE_OPTS)),
                  [[i] for i in range(len(EDGES[::3]))], lambda b: (["kind", i] for i in b)),
            Scope("everywhere", "all %d locales Babel knows: %d values x 24 pairs of styles, the parts as Babel shows them, joined by the locale's pattern" % (len(KNOWN), len(EVERY)),
                  chunks(KNOWN, 64), lambda block: (["every", l] for l in block)),
            Scope("hosts", "%d kinds of value x 8 instants x %d requested zones on hosts whose own zone is one of %s" % (len(srcs), len(ZONE_OPTS), ", ".join(HOSTS)),
                  [[(h, s)] for h in HOSTS for s in srcs], lambda block: (["host", h, s, i] for h, s in block for i in [2, 6] + list(range(18, 42, 4)))),
            Scope("refused", "bad styles, zones, names and values", [0], lambda b: [["refused"]]),
        ]

    def run_case(self, scope, case):
        return getattr(self, "do_" + case[0])(*case[1:])

    def bundle(self, locale, src):
        b = FluentBundle([locale], use_isolating=False)
        b.add_resource(FluentResource(src))
        return b

    def compare(self, got, want, off, name, what):
        text, errs = got
        if errs:
            raise Violation("%s: errors %r" % (what, errs))
        if want is not None and text != want:
            extra = ""
            if name == "offset" and off < 0 and off % 3600:
                # Babel names offsets like -03:30 one hour too far west
                wrong = -((-off) // 3600 + 1) * 3600 - (-off) % 3600
                if text == self.want_(wrong):
                    extra = "negative part-hour offset: "
            raise Violation("%s%s: %r, should be %r" % (extra, what, text, want))

    def do_conv(self, s, i, z, deep):
        t = INSTANTS[i]
        v, off, name = own(s, t)
        zone = ZONE_OPTS[z]
        if zone is not None:
            off, name = ZONES[zone](t)
        c = civil(t + off)
        src = ""
        combos = [(ds, ts) for ds in [None] + STYLES for ts in [None] + STYLES]
        tz = {"timeZone": zone} if zone else {}
        for k, (ds, ts) in enumerate(combos):
            o = dict(tz)
            o.update({"dateStyle": ds} if ds else {}, **({"timeStyle": ts} if ts else {}))
            src += "m%d = { DATETIME($d%s) }\n" % (k, quoted(o))
        names = list(LOCALES)
        locs = names if deep else {names[(i + z) % len(names)], names[(i + 2 * z + len(s)) % len(names)]}
        n = 0
        odd = None
        for locale in sorted(locs):
            b = self.bundle(locale, src)
            for k, (ds, ts) in enumerate(combos):
                want = format_datetime(c, off, name, locale, ds, ts)
                what = "%r (%s) as %s/%s in %s in %s" % (v, s, ds, ts, zone, locale)
                self.want_ = lambda o: format_datetime(c, o, name, locale, ds, ts)
                try:
                    self.compare(b.format_pattern(b.get_message("m%d" % k).value, {"d": v}), want, off, name, what)
                    # the same from code
                    opts = {a: x for a, x in (("dateStyle", ds), ("timeStyle", ts), ("timeZone", zone)) if x}
                    w = fluent_date(v, **opts)
                    self.compare((w.format(babel.Locale.parse(locale, sep="-")), []), want, off, name, what + ", from code")
                except Violation as e:
                    if "negative part-hour" not in str(e):
                        raise
                    odd = odd or e
                n += 2
        res = Result((c, name), traces=n, states=n // 2, transitions=n)
        if odd:
            odd.result = res
            raise odd
        return res

    def do_host(self, host, s, i):
        """The zone of the computer makes no difference."""
        before = os.environ.get("TZ")
        n, odd = 0, None
        try:
            os.environ["TZ"] = host
            time.tzset()
            for z in range(len(ZONE_OPTS)):
                try:
                    n += self.do_conv(s, i, z, False).traces
                except Violation as e:
                    if "negative part-hour" not in str(e):
                        raise
                    odd = e
        finally:
            if before is None:
                os.environ.pop("TZ", None)
            else:
                os.environ["TZ"] = before
            time.tzset()
        if odd:
            raise odd
        return Result(n, traces=n, states=n, transitions=n)

    def do_named(self, k, minutes):
        """A zone is what its offset says, not what it is called."""
        make, zname = NAMED[k]
        tz = make(minutes, zname)
        n = 0
        styles = [(ds, ts) for ds in [None] + STYLES for ts in [None] + STYLES]
        for locale in ("en", "de"):
            src = "".join('m%d-%d = { DATETIME($d%s) }\n' % (i, j, quoted(dict({"timeZone": z} if z else {}, **{a: x for a, x in (("dateStyle", ds), ("timeStyle", ts)) if x})))
                          for i, z in enumerate(ZONE_OPTS) for j, (ds, ts) in enumerate(styles))
            b = self.bundle(locale, src)
            for t in EDGES[::2]:
                y, mo, d, H, M, S, _ = civil(t + minutes * 60)
                v = datetime.datetime(y, mo, d, H, M, S, tzinfo=tz)
                for i, z in enumerate(ZONE_OPTS):
                    off, name = ZONES[z](t) if z else (minutes * 60, None)
                    for j, (ds, ts) in enumerate(styles):
                        if not z and ts in ("full", "long"):
                            continue   # Babel shows the name
                        want = format_datetime(civil(t + off), off, name, locale, ds, ts)
                        got = b.format_pattern(b.get_message("m%d-%d" % (i, j)).value, {"d": v})
                        n += 1
                        if want is not None and got != (want, []):
                            raise Violation("%r (%s) in %s as %s/%s: %r, should be %r" % (v, zname, z, ds, ts, got, want))
        return Result(n, traces=n, states=n, transitions=n)

    def do_kind(self, i):
        """Types derived from date and datetime are shown like those."""
        t = EDGES[::3][i]
        n = 0
        styles = [(ds, ts) for ds in [None] + STYLES for ts in [None] + STYLES]
        y, mo, d, H, M, S, _ = civil(t)
        for locale in sorted(LOCALES):
            src = "".join('m%d-%d = { DATETIME($d%s) }\n' % (k, j, quoted(dict({"timeZone": z} if z else {}, **{a: x for a, x in (("dateStyle", ds), ("timeStyle", ts)) if x})))
                          for k, z in enumerate(ZONE_OPTS) for j, (ds, ts) in enumerate(styles))
            b = self.bundle(locale, src + "plain = { $d }\nfn = { NOPE($d) }\n")
            for make in (Stamp, Odd, Deep):
                for tz in (None, U):
                    v = make(y, mo, d, H, M, S, 5, tzinfo=tz)
                    w = fluent_date(v)
                    if fields(w) != fields(v) or w.tzinfo is not v.tzinfo and w.utcoffset() != datetime.timedelta(0) or not isinstance(w, FluentDateTime):
                        raise Violation("%r wrapped: %r" % (v, w))
                    for k, z in enumerate(ZONE_OPTS):
                        off, name = ZONES[z or "UTC"](t)
                        for j, (ds, ts) in enumerate(styles):
                            want = format_datetime(civil(t + off), off, name, locale, ds, ts)
                            self.compare(b.format_pattern(b.get_message("m%d-%d" % (k, j)).value, {"d": v}), want, off, name,
                                         "%r (%s) in %s as %s/%s in %s" % (v, make.__name__, z, ds, ts, locale))
                            n += 1
                    if not self.same(b, "plain", v, datetime.datetime(y, mo, d, H, M, S, 5, tzinfo=tz)):
                        raise Violation("%r is shown unlike its datetime" % (v,))
            for make in (Day, Holiday):
                v = make(y, mo, d)
                w = fluent_date(v)
                if (w.year, w.month, w.day) != (y, mo, d) or not isinstance(w, FluentDate) or not self.same(b, "plain", v, datetime.date(y, mo, d)):
                    raise Violation("%r wrapped: %r" % (v, w))
                for j, (ds, ts) in enumerate(styles):
                    if ts is None:
                        self.compare(b.format_pattern(b.get_message("m0-%d" % j).value, {"d": v}), format_date(civil(t), locale, ds), 0, None, "%r as %s in %s" % (v, ds, locale))
                        n += 1
        return Result(n, traces=n, states=n, transitions=n)

    def same(self, b, name, v, w):
        p = b.get_message(name).value
        a, c = b.format_pattern(p, {"d": v}), b.format_pattern(p, {"d": w})
        return a == c and not a[1]

    def do_every(self, locale):
        """Babel is the oracle for a date or a time alone."""
        known = babel.Locale.parse(locale)
        styles = [(ds, ts) for ds in [None] + STYLES for ts in [None] + STYLES]
        src = "".join('m%d = { DATETIME($d%s) }\n' % (j, quoted({a: x for a, x in (("dateStyle", ds), ("timeStyle", ts)) if x})) for j, (ds, ts) in enumerate(styles))
        b = self.bundle(locale.replace("_", "-"), src)
        n = 0
        for v in EVERY:
            for j, (ds, ts) in enumerate(styles):
                date = babel.dates.format_date(v, ds or "medium", locale=known)
                time = babel.dates.format_time(v, ts, locale=known) if ts else None
                want = date if ts is None else time if ds is None else joined(str(babel.dates.get_datetime_format(ds, locale=known)), time, date)
                got = b.format_pattern(b.get_message("m%d" % j).value, {"d": v})
                n += 1
                if got != (want, []):
                    raise Violation("%r as %s/%s in %s: %r, should be %r" % (v, ds, ts, locale, got, want))
        return Result(tuple(str(babel.dates.get_datetime_format(s, locale=known)) for s in STYLES), traces=n, states=n, transitions=n)

    def do_hours(self, s, k0):
        n = 0
        b = self.bundle("en-GB", "".join('m%d = { DATETIME($d, dateStyle: "short", timeStyle: "medium"%s) }\n' % (i, quoted({"timeZone": z} if z else {}))
                                         for i, z in enumerate(ZONE_OPTS)))
        for t in EVERY_HOUR[k0:k0 + 60]:
            v, off0, name0 = own(s, t)
            for i, z in enumerate(ZONE_OPTS):
                off = ZONES[z](t)[0] if z else off0
                want = format_datetime(civil(t + off), off, None, "en-GB", "short", "medium")
                got = b.format_pattern(b.get_message("m%d" % i).value, {"d": v})
                n += 1
                if got != (want, []):
                    raise Violation("%r (%s) in %s: %r, should be %r" % (v, s, z, got, want))
        return Result(n, traces=n, states=n, transitions=n)

    def do_micro(self, s, i):
        """Fractions of a second never round up."""
        t = EDGES[i]
        v0, off0, name0 = own(s, t)
        b = self.bundle("en-GB", "".join('m%d = { DATETIME($d, dateStyle: "long", timeStyle: "medium"%s) }\n' % (k, quoted({"timeZone": z} if z else {}))
                                         for k, z in enumerate((None, "Asia/Tokyo", "America/New_York"))) + "p = { $d }\n")
        n = 0
        for micro in (0, 1, 499999, 500000, 500001, 999499, 999999):
            v = v0.replace(microsecond=micro)
            for wrap in (0, 1):
                for k, z in enumerate((None, "Asia/Tokyo", "America/New_York")):
                    off = ZONES[z](t)[0] if z else off0
                    want = format_datetime(civil(t + off), off, None, "en-GB", "long", "medium")
                    got = b.format_pattern(b.get_message("m%d" % k).value, {"d": fluent_date(v, dateStyle="short") if wrap else v})
                    n += 1
                    if got != (want, []):
                        raise Violation("%r (%s) in %s: %r, should be %r" % (v, s, z, got, want))
                want = format_date(civil(t + off0), "en-GB", None)
                got = b.format_pattern(b.get_message("p").value, {"d": fluent_date(v) if wrap else v})
                n += 1
                if got != (want, []):
                    raise Violation("%r (%s): %r, should be %r" % (v, s, got, want))
        return Result((s, i), traces=n, states=n, transitions=n)

    def do_date(self, i):
        d = DATES[i]
        c = (d.year, d.month, d.day, 0, 0, 0, d.weekday())
        n = 0
        for locale in LOCALES:
            b = self.bundle(locale, "m = { $d }\n" + "".join('m%d = { DATETIME($d, dateStyle: "%s") }\n' % (k, s) for k, s in enumerate(STYLES))
                            + 'z = { DATETIME($d, timeZone: "Pacific/Kiritimati") }\n')
            for k, s in enumerate([None] + STYLES):
                want = format_date(c, locale, s)
                checks = [("m%d" % (k - 1) if k else "m", d), ("m", fluent_date(d, **({"dateStyle": s} if s else {})))]
                if s is None:
                    checks += [("z", d), ("m", datetime.datetime(d.year, d.month, d.day, 23, 59)), ("m", fluent_date(d))]
                for name, v in checks:
                    got = b.format_pattern(b.get_message(name).value, {"d": v})
                    n += 1
                    if got != (want, []):
                        raise Violation("%r with %s in %s: %r, should be %r" % (v, s, locale, got, want))
        w = fluent_date(d)
        if type(w) is not FluentDate or w != d or (w.year, w.month, w.day) != (d.year, d.month, d.day):
            raise Violation("wrapping %r gives %r" % (d, w))
        return Result(n, traces=n, states=n, transitions=n)

    def do_merge(self, a, b_):
        """Options from code, then from the message."""
        t = utc(2021, 7, 4, 22) + 309
        n = 0
        ca, cb = OPTS[a], OPTS[b_]
        merged = {**ca, **cb}
        res = []
        for value in (datetime.datetime(2021, 7, 4, 22, 5, 9), datetime.datetime(2021, 7, 5, 0, 5, 9, tzinfo=BE), datetime.date(2021, 7, 4)):
            is_date = not isinstance(value, datetime.datetime)
            before = None
            try:
                v = fluent_date(value, **ca)
            except TypeError:
                if not (is_date and "timeStyle" in ca):
                    raise Violation("options %r for %r are refused" % (ca, value))
                continue
            if is_date and "timeStyle" in ca:
                raise Violation("a time style is accepted for a date: %r" % ca)
            for locale in ("en", "de"):
                b = self.bundle(locale, "m = { DATETIME($d%s) }\np = { $d }\nn = { DATETIME($d) }\n" % quoted(cb))
                for name, opts in (("p", ca), ("m", merged), ("n", ca), ("p", ca)):
                    got = b.format_pattern(b.get_message(name).value, {"d": v})
                    n += 1
                    if is_date and name == "m" and "timeStyle" in cb:
                        if got[0] != "DATETIME()" or len(got[1]) != 1 or not isinstance(got[1][0], TypeError):
                            raise Violation("time style for a date: %r" % (got,))
                        continue
                    if is_date:
                        want = format_date((2021, 7, 4, 0, 0, 0, 6), locale, opts.get("dateStyle"))
                    else:
                        z = opts.get("timeZone") or ("Europe/Berlin" if value.tzinfo else "UTC")
                        off, zn = ZONES[z](t)
                        want = format_datetime(civil(t + off), off, zn, locale, opts.get("dateStyle"), opts.get("timeStyle"))
                    if want is not None and got != (want, []):
                        raise Violation("%r with %r from code and %r from the message (%s): %r, should be %r" % (value, ca, cb, name, got, want))
                    res.append(want)
            # from code twice: a wrapped value wrapped again
            try:
                w = fluent_date(v, **cb)
                for k in ("dateStyle", "timeStyle", "timeZone"):
                    if getattr(w.options, k) != merged.get(k) or getattr(v.options, k) != ca.get(k):
                        raise Violation("wrapping again with %r over %r: %s is %r" % (cb, ca, k, getattr(w.options, k)))
            except TypeError:
                if not (is_date and "timeStyle" in cb):
                    raise Violation("options %r for %r are refused" % (cb, v))
        return Result(tuple(res), traces=n, states=n, transitions=n)

    def do_wrap(self, s, i):
        t = INSTANTS[i]
        v, off, name = own(s, t)
        got = []
        b = FluentBundle(["en"], functions={"TAKE": lambda x: got.append(x) or "ok"}, use_isolating=False)
        b.add_resource(FluentResource("m = { TAKE($d) }\nn = { TAKE(DATETIME($d, dateStyle: \"full\")) }\n"))
        b.format_pattern(b.get_message("m").value, {"d": v})
        b.format_pattern(b.get_message("n").value, {"d": v})
        b.format_pattern(b.get_message("m").value, {"d": fluent_date(v, timeStyle="short")})
        ws = [fluent_date(v), fluent_date(fluent_date(v, dateStyle="full")), fluent_date(fluent_date(v, dateStyle="full"), timeStyle="short"), *got]
        if len(got) != 3:
            raise Violation("DATETIME is not passed on: %r" % got)
        for k, w in enumerate(ws):
            if type(w) is not FluentDateTime or fields(w) != fields(v) or w.tzinfo is not v.tzinfo:
                raise Violation("wrapping %r gives %r (%d)" % (v, w, k))
            if w.utcoffset() != v.utcoffset() or w.tzname() != v.tzname():
                raise Violation("wrapping %r changes its offset: %r" % (v, w))
            if v.tzinfo is not None and w.timestamp() != v.timestamp():
                raise Violation("wrapping %r changes the instant: %r" % (v, w))
            if v != w and not v.fold:
                raise Violation("%r is not equal to %r" % (v, w))
        return Result(fields(v), traces=len(ws), states=1, transitions=len(ws))

    def do_seq(self, s, i):
        """What is remembered of a value must not show in results for others
        that are equal to it or have the same fields."""
        t = INSTANTS[i]
        one = own(s, t)[0]
        b = self.bundle("en", 'm = { DATETIME($d, timeStyle: "full") }\nz = { DATETIME($d, timeZone: "Asia/Tokyo", timeStyle: "short") }\n'
                        'p = { DATETIME($d, dateStyle: "short", timeStyle: "long") }\n')
        n = 0

        def get(name, v):
            return b.format_pattern(b.get_message(name).value, {"d": v})
        for s2 in SOURCES:
            others = [own(s2, t)]
            if one.tzinfo is not None:
                # the same fields in this zone
                tz, zone = SOURCES[s2]
                for d in range(-16 * 4, 16 * 4 + 1):
                    v, off, name = own(s2, t + d * 900)
                    if fields(v) == fields(one):
                        others.append((v, off, name))
            for v, off, name in others:
                if isinstance(SOURCES[s2][1], int) and off < 0 and off % 3600:
                    continue
                for first in ("m", "z", "p"):
                    for wrapped in (0, 1):
                        get(first, fluent_date(one) if wrapped else one)
                        inst = t if others[0][0] is v else None
                        c = (v.year, v.month, v.day, v.hour, v.minute, v.second, v.weekday())
                        for m in ("m", "p"):
                            want = format_datetime(c, off, name, "en", "short" if m == "p" else None, "full" if m == "m" else "long")
                            self.want_ = lambda o: None
                            self.compare(get(m, fluent_date(v) if wrapped else v), want, off, name, "%r (%s) after %r, %s" % (v, s2, one, m))
                            n += 1
                        if inst is not None:
                            toff, tname = ZONES["Asia/Tokyo"](inst)
                            want = format_datetime(civil(inst + toff), toff, tname, "en", None, "short")
                            self.compare(get("z", v), want, toff, tname, "%r (%s) after %r, in Tokyo" % (v, s2, one))
                            n += 1
        return Result(n, traces=n, states=n, transitions=n)

    def do_refused(self):
        n = 0
        d, dt = datetime.date(2021, 7, 4), datetime.datetime(2021, 7, 4, 1, 2, 3)
        for value in (d, dt):
            for o in ("dateStyle", "timeStyle"):
                for bad in ("Full", "none", "", "numeric", 0, 1, True, "medium "):
                    n += 1
                    try:
                        fluent_date(value, **{o: bad})
                    except (ValueError, TypeError):
                        continue
                    raise Violation("%s=%r is accepted" % (o, bad))
            for bad in ("style", "datestyle", "tz"):
                n += 1
                try:
                    fluent_date(value, **{bad: "x"})
                except TypeError:
                    continue
                raise Violation("option %s is accepted" % bad)
        for bad in (5, "2020-01-01", None, datetime.time(1, 2), 1.5, [], datetime.timedelta(1)):
            n += 1
            try:
                fluent_date(bad)
            except TypeError:
                continue
            raise Violation("fluent_date(%r) is accepted" % (bad,))
        for zone in ("Nowhere/Else", "utc+1", "", "Europe", "../UTC"):
            b = self.bundle("en", 'm = A { DATETIME($d, timeZone: "%s") } B\n' % zone)
            got = b.format_pattern(b.get_message("m").value, {"d": dt})
            n += 1
            if got[0] == "A ??? B" and got[1] or got[0] == "A DATETIME() B" and got[1] or zone == "" and not got[1]:
                continue
            if not got[1]:
                raise Violation("zone %r: %r" % (zone, got))
        # options that are not supported yet are warned about and change nothing
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            x = fluent_date(dt, weekday="long", dateStyle="short")
            n += 1
            if len(w) != 1 or "weekday" not in str(w[0].message):
                raise Violation("warnings: %r" % w)
        # those that are, are not
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            for o in OPTS:
                fluent_date(dt, **o)
                n += 1
            if w:
                raise Violation("warnings about options that are supported: %r" % w[0].message)
        b = self.bundle("en", "m = { $d }\n")
        if b.format_pattern(b.get_message("m").value, {"d": x}) != ("7/4/21", []):
            raise Violation("unsupported options change the result")
        return Result(n, traces=n, states=n, transitions=n)


OPTS = [{}, {"dateStyle": "full"}, {"dateStyle": "short"}, {"timeStyle": "medium"}, {"timeStyle": "short"}, {"timeZone": "Asia/Tokyo"}, {"timeZone": "America/New_York"},
        {"dateStyle": "long", "timeStyle": "short"}, {"dateStyle": "medium", "timeStyle": "full", "timeZone": "Europe/Berlin"}, {"timeStyle": "long", "timeZone": "UTC"},
        {"dateStyle": "short", "timeZone": "Etc/GMT-14"}]
CHECK = C25()
