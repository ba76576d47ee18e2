"""CLDR plural rules of a few languages, written out by hand."""
from decimal import Decimal


def operands(v):
    """n, i, v, w, f, t of a finite number.  Integral floats are integers,
    decimals keep their trailing zeros."""
    if isinstance(v, Decimal):
        d = abs(v)
    elif isinstance(v, float):
        d = abs(Decimal(int(v)) if v == int(v) else Decimal(float.__repr__(v)))
    else:
        d = abs(Decimal(int(v)))
    text = format(d, "f")
    i, _, frac = text.partition(".")
    return d, int(i), len(frac), len(frac.rstrip("0")), int(frac or 0), int(frac.rstrip("0") or 0)


def mod(n, m, *ranges):
    """n % m in one of the ranges (n may be a decimal: then never equal)"""
    n = n % m if m else n
    return n == int(n) and any((r == n if isinstance(r, int) else r[0] <= n <= r[1]) for r in ranges)


def _en(n, i, v, w, f, t):
    return "one" if i == 1 and v == 0 else "other"


def _en_ord(n, i, v, w, f, t):
    for k, c in ((1, "one"), (2, "two"), (3, "few")):
        if mod(n, 10, k) and not mod(n, 100, 10 + k):
            return c
    return "other"


def _fr(n, i, v, w, f, t):
    if i in (0, 1):
        return "one"
    if i % 1000000 == 0 and v == 0:
        return "many"
    return "other"


def _fr_ord(n, i, v, w, f, t):
    return "one" if n == 1 else "other"


def _pl(n, i, v, w, f, t):
    if i == 1 and v == 0:
        return "one"
    if v:
        return "other"
    if 2 <= i % 10 <= 4 and not 12 <= i % 100 <= 14:
        return "few"
    return "many"


def _ru(n, i, v, w, f, t):
    if v:
        return "other"
    if i % 10 == 1 and i % 100 != 11:
        return "one"
    if 2 <= i % 10 <= 4 and not 12 <= i % 100 <= 14:
        return "few"
    return "many"


def _ar(n, i, v, w, f, t):
    for k, c in ((0, "zero"), (1, "one"), (2, "two")):
        if n == k:
            return c
    if mod(n, 100, (3, 10)):
        return "few"
    if mod(n, 100, (11, 99)):
        return "many"
    return "other"


def _lv(n, i, v, w, f, t):
    if mod(n, 10, 0) or mod(n, 100, (11, 19)) or (v == 2 and 11 <= f % 100 <= 19):
        return "zero"
    if (mod(n, 10, 1) and not mod(n, 100, 11)) or (v == 2 and f % 10 == 1 and f % 100 != 11) \
            or (v != 2 and f % 10 == 1):
        return "one"
    return "other"


def _cy(n, i, v, w, f, t):
    for k, c in ((0, "zero"), (1, "one"), (2, "two"), (3, "few"), (6, "many")):
        if n == k:
            return c
    return "other"


def _cy_ord(n, i, v, w, f, t):
    for ks, c in (((0, 7, 8, 9), "zero"), ((1,), "one"), ((2,), "two"), ((3, 4), "few"), ((5, 6), "many")):
        if n in ks:
            return c
    return "other"


def _it(n, i, v, w, f, t):
    if i == 1 and v == 0:
        return "one"
    if i != 0 and i % 1000000 == 0 and v == 0:
        return "many"
    return "other"


def _it_ord(n, i, v, w, f, t):
    return "many" if n in (11, 8, 80, 800) else "other"


def _pt(n, i, v, w, f, t):
    return "one" if i in (0, 1) else _it(2 if n == 1 else n, i, v, w, f, t)


def _es(n, i, v, w, f, t):
    if n == 1:
        return "one"
    return "many" if i != 0 and i % 1000000 == 0 and v == 0 else "other"


def _cs(n, i, v, w, f, t):
    if v:
        return "many"
    return "one" if i == 1 else "few" if 2 <= i <= 4 else "other"


def _sl(n, i, v, w, f, t):
    if v:
        return "few"
    return {1: "one", 2: "two", 3: "few", 4: "few"}.get(i % 100, "other")


def _uk_ord(n, i, v, w, f, t):
    return "few" if mod(n, 10, 3) and not mod(n, 100, 13) else "other"


def _sv_ord(n, i, v, w, f, t):
    return "one" if mod(n, 10, 1, 2) and not mod(n, 100, 11, 12) else "other"


def _lt(n, i, v, w, f, t):
    if not mod(n, 100, (11, 19)):
        if mod(n, 10, 1):
            return "one"
        if mod(n, 10, (2, 9)):
            return "few"
    return "many" if f else "other"


def _ro(n, i, v, w, f, t):
    if i == 1 and v == 0:
        return "one"
    return "few" if v or n == 0 or mod(n, 100, (1, 19)) else "other"


def _he(n, i, v, w, f, t):
    if (i == 1 and v == 0) or (i == 0 and v):
        return "one"
    return "two" if i == 2 and v == 0 else "other"


def _ga(n, i, v, w, f, t):
    if n != int(n) or n > 10:
        return "other"
    return ["other", "one", "two", "few", "few", "few", "few", "many", "many", "many", "many"][int(n)]


def _da(n, i, v, w, f, t):
    return "one" if n == 1 or (t and i in (0, 1)) else "other"


def _is(n, i, v, w, f, t):
    if (t == 0 and i % 10 == 1 and i % 100 != 11) or (t % 10 == 1 and t % 100 != 11):
        return "one"
    return "other"


def _hi(n, i, v, w, f, t):
    return "one" if i == 0 or n == 1 else "other"


def _hi_ord(n, i, v, w, f, t):
    for ks, c in (((1,), "one"), ((2, 3), "two"), ((4,), "few"), ((6,), "many")):
        if n in ks:
            return c
    return "other"


def _sr(n, i, v, w, f, t):
    x = f if v else i
    if x % 10 == 1 and x % 100 != 11:
        return "one"
    return "few" if 2 <= x % 10 <= 4 and not 12 <= x % 100 <= 14 else "other"


def _other(*_):
    return "other"


RULES = {"en": (_en, _en_ord), "fr": (_fr, _fr_ord), "pl": (_pl, _other), "ru": (_ru, _other), "ar": (_ar, _other),
         "lv": (_lv, _other), "ja": (_other, _other), "cy": (_cy, _cy_ord), "it": (_it, _it_ord), "de": (_en, _other)}
RULES.update({
    "pt": (_pt, _other), "pt-PT": (_it, _other), "pt-BR": (_pt, _other), "es": (_es, _other), "cs": (_cs, _other),
    "sl": (_sl, _other), "uk": (_ru, _uk_ord), "sv": (_en, _sv_ord), "lt": (_lt, _other), "ro": (_ro, _fr_ord),
    "he": (_he, _other), "ga": (_ga, _fr_ord), "da": (_da, _other), "is": (_is, _other), "hi": (_hi, _hi_ord),
    "sr-Latn": (_sr, _other), "sr-Cyrl-RS": (_sr, _other), "zh-Hant-TW": (_other, _other), "en-GB": (_en, _en_ord),
})
RULES["en-US"] = RULES["en"]


def category(v, locale, ordinal=False):
    f = float(v)
    if f != f or f in (float("inf"), float("-inf")):
        return "other"
    return RULES[locale][1 if ordinal else 0](*operands(v))
