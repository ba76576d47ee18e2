"""Reference model of dates and times: zone arithmetic from the rules written
out here, CLDR patterns and names of a few locales."""
import datetime

DAY = 86400
EPOCH = datetime.date(1970, 1, 1).toordinal()


def nth_sunday(year, month, n):
    """Day of the n-th (or last: -1) Sunday of a month."""
    if n > 0:
        d = datetime.date(year, month, 1)
        return 1 + (6 - d.weekday()) % 7 + 7 * (n - 1)
    last = 31
    d = datetime.date(year, month, last)
    return last - (d.weekday() + 1) % 7


def utc(y, m, d, h=0):
    return (datetime.date(y, m, d).toordinal() - EPOCH) * DAY + h * 3600


def ny(t):
    y = civil(t)[0]
    start, end = utc(y, 3, nth_sunday(y, 3, 2), 7), utc(y, 11, nth_sunday(y, 11, 1), 6)
    return (-14400, "dst") if start <= t < end else (-18000, "std")


def berlin(t):
    y = civil(t)[0]
    start, end = utc(y, 3, nth_sunday(y, 3, -1), 1), utc(y, 10, nth_sunday(y, 10, -1), 1)
    return (7200, "dst") if start <= t < end else (3600, "std")


# zone -> instant -> (offset, name key)
ZONES = {
    "UTC": lambda t: (0, "utc"), "Asia/Tokyo": lambda t: (32400, "jst"),
    "America/New_York": lambda t: (ny(t)[0], "ny" + ny(t)[1]), "Europe/Berlin": lambda t: (berlin(t)[0], "ce" + berlin(t)[1]),
    "Etc/GMT+5": lambda t: (-18000, "offset"), "Etc/GMT-14": lambda t: (50400, "offset"), "Etc/GMT+12": lambda t: (-43200, "offset"),
}


def civil(t):
    """Seconds since 1970 -> year, month, day, hour, minute, second, weekday"""
    days, s = divmod(t, DAY)
    d = datetime.date.fromordinal(days + EPOCH)
    return d.year, d.month, d.day, s // 3600, s // 60 % 60, s % 60, d.weekday()


_EN_M = "January February March April May June July August September October November December".split()
_EN_D = "Monday Tuesday Wednesday Thursday Friday Saturday Sunday".split()
LOCALES = {
    "en": dict(
        date=("EEEE, MMMM d, y", "MMMM d, y", "MMM d, y", "M/d/yy"),
        time=("h:mm:ss\u202fa zzzz", "h:mm:ss\u202fa z", "h:mm:ss\u202fa", "h:mm\u202fa"), both=("{1}, {0}",) * 4,
        months=_EN_M, short=[m[:3] for m in _EN_M], days=_EN_D,
        full=dict(nystd="Eastern Standard Time", nydst="Eastern Daylight Time", cestd="Central European Standard Time",
                  cedst="Central European Summer Time", jst="Japan Standard Time", utc="Coordinated Universal Time", offset="GMT"),
        long=dict(nystd="EST", nydst="EDT", utc="UTC")),
    "en-GB": dict(
        date=("EEEE, d MMMM y", "d MMMM y", "d MMM y", "dd/MM/y"), time=("HH:mm:ss zzzz", "HH:mm:ss z", "HH:mm:ss", "HH:mm"), both=("{1}, {0}",) * 4,
        months=_EN_M, short=[m[:3] for m in _EN_M[:8]] + ["Sept"] + [m[:3] for m in _EN_M[9:]], days=_EN_D,
        full=dict(nystd="Eastern Standard Time", nydst="Eastern Daylight Time", cestd="Central European Standard Time",
                  cedst="Central European Summer Time", jst="Japan Standard Time", utc="Coordinated Universal Time", offset="GMT"),
        long=dict(nystd=None, nydst=None, cestd="CET", cedst="CEST", utc="UTC")),
    "de": dict(
        date=("EEEE, d. MMMM y", "d. MMMM y", "dd.MM.y", "dd.MM.yy"), time=("HH:mm:ss zzzz", "HH:mm:ss z", "HH:mm:ss", "HH:mm"), both=("{1}, {0}",) * 4,
        months="Januar Februar M\u00e4rz April Mai Juni Juli August September Oktober November Dezember".split(), short=None,
        days="Montag Dienstag Mittwoch Donnerstag Freitag Samstag Sonntag".split(),
        full=dict(nystd="Nordamerikanische Ostk\u00fcsten-Normalzeit", nydst="Nordamerikanische Ostk\u00fcsten-Sommerzeit", cestd="Mitteleurop\u00e4ische Normalzeit",
                  cedst="Mitteleurop\u00e4ische Sommerzeit", jst="Japanische Normalzeit", utc="Koordinierte Weltzeit", offset="GMT"),
        long=dict(cestd="MEZ", cedst="MESZ", utc="UTC")),
    "fr": dict(
        date=("EEEE d MMMM y", "d MMMM y", "d MMM y", "dd/MM/y"), time=("HH:mm:ss zzzz", "HH:mm:ss z", "HH:mm:ss", "HH:mm"), both=("{1}, {0}",) * 3 + ("{1} {0}",),
        months="janvier f\u00e9vrier mars avril mai juin juillet ao\u00fbt septembre octobre novembre d\u00e9cembre".split(),
        short="janv. f\u00e9vr. mars avr. mai juin juil. ao\u00fbt sept. oct. nov. d\u00e9c.".split(),
        days="lundi mardi mercredi jeudi vendredi samedi dimanche".split(),
        full=dict(nystd="heure normale de l\u2019Est nord-am\u00e9ricain", nydst="heure d\u2019\u00e9t\u00e9 de l\u2019Est nord-am\u00e9ricain",
                  cestd="heure normale d\u2019Europe centrale", cedst="heure d\u2019\u00e9t\u00e9 d\u2019Europe centrale", jst="heure normale du Japon",
                  utc="temps universel coordonn\u00e9", offset="UTC"),
        long=dict(nystd="HNE", nydst="HEE", utc="TU")),
    "ja": dict(
        date=("y\u5e74M\u6708d\u65e5EEEE", "y\u5e74M\u6708d\u65e5", "y/MM/dd", "y/MM/dd"), time=("H\u6642mm\u5206ss\u79d2 zzzz", "H:mm:ss z", "H:mm:ss", "H:mm"),
        both=("{1} {0}",) * 4, months=None, short=None, days=[c + "\u66dc\u65e5" for c in "\u6708\u706b\u6c34\u6728\u91d1\u571f\u65e5"],
        full=dict(nystd="\u30a2\u30e1\u30ea\u30ab\u6771\u90e8\u6a19\u6e96\u6642", nydst="\u30a2\u30e1\u30ea\u30ab\u6771\u90e8\u590f\u6642\u9593",
                  cestd="\u4e2d\u592e\u30e8\u30fc\u30ed\u30c3\u30d1\u6a19\u6e96\u6642", cedst="\u4e2d\u592e\u30e8\u30fc\u30ed\u30c3\u30d1\u590f\u6642\u9593",
                  jst="\u65e5\u672c\u6a19\u6e96\u6642", utc="\u5354\u5b9a\u4e16\u754c\u6642", offset="GMT"),
        long=dict(jst="JST", utc="UTC")),
}
STYLES = ["full", "long", "medium", "short"]


def fill(pattern, loc, c, off=0, zone=None):
    """c: civil fields; None when a name is not known here."""
    y, m, d, H, M, S, wd = c
    out, i = "", 0
    while i < len(pattern):
        j = i
        while j < len(pattern) and pattern[j] == pattern[i]:
            j += 1
        k, n = pattern[i], j - i
        i = j
        if k == "E":
            out += loc["days"][wd]
        elif k == "M":
            out += loc["months"][m - 1] if n == 4 else loc["short"][m - 1] if n == 3 else "%0*d" % (n, m)
        elif k == "d":
            out += "%0*d" % (n, d)
        elif k == "y":
            out += str(y) if n == 1 else "%02d" % (y % 100)
        elif k == "H":
            out += "%0*d" % (n, H)
        elif k == "h":
            out += "%0*d" % (n, H % 12 or 12)
        elif k == "m":
            out += "%0*d" % (n, M)
        elif k == "s":
            out += "%0*d" % (n, S)
        elif k == "a":
            out += "AM" if H < 12 else "PM"
        elif k == "z":
            table = loc["full" if n == 4 else "long"]
            sign, a = "-" if off < 0 else "+", abs(off) // 60
            if zone != "offset" and zone in table:
                if table[zone] is None:
                    return None
                out += table[zone]
            elif n == 4:
                out += "%s%s%02d:%02d" % (loc["full"]["offset"], sign, a // 60, a % 60)
            else:
                out += "%s%02d%02d" % (sign, a // 60, a % 60)
        else:
            out += k * n
    return out


def format_date(c, locale, ds=None):
    return fill(LOCALES[locale]["date"][STYLES.index(ds or "medium")], LOCALES[locale], c)


def format_datetime(c, off, zone, locale, ds=None, ts=None):
    loc = LOCALES[locale]
    if ts is None:
        return format_date(c, locale, ds)
    t = fill(loc["time"][STYLES.index(ts)], loc, c, off, zone)
    if ds is None or t is None:
        return t
    return loc["both"][STYLES.index(ds)].replace("{0}", t).replace("{1}", format_date(c, locale, ds))
