"""Reference model of number formatting: ECMA-402's digit options and CLDR's
patterns on exact decimals.  Deviations taken from the implementation's stated
basis (Python's decimal): exact ties go to even, floats count as the decimal
that repr() shows."""
from decimal import Decimal
from fractions import Fraction

# locale: decimal, group, grouping sizes, percent pattern, currency pattern
# (positive, negative), symbols
LOCALES = {
    "en": (".", ",", (3, 3), "{}%", ("\u00a4{}", "-\u00a4{}"), {"USD": "$", "EUR": "\u20ac", "JPY": "\u00a5"}),
    "de": (",", ".", (3, 3), "{}\u00a0%", ("{}\u00a0\u00a4", "-{}\u00a0\u00a4"),
           {"USD": "$", "EUR": "\u20ac", "JPY": "\u00a5"}),
    "fr": (",", "\u202f", (3, 3), "{}\u00a0%", ("{}\u00a0\u00a4", "-{}\u00a0\u00a4"),
           {"USD": "$US", "EUR": "\u20ac", "JPY": "JPY"}),
    "hi": (".", ",", (3, 2), "{}%", ("\u00a4{}", "-\u00a4{}"), {"USD": "$", "EUR": "\u20ac", "JPY": "JP\u00a5"}),
    "pt": (",", ".", (3, 3), "{}%", ("\u00a4\u00a0{}", "-\u00a4\u00a0{}"),
           {"USD": "US$", "EUR": "\u20ac", "JPY": "JP\u00a5"}),
    "de-CH": (".", "\u2019", (3, 3), "{}%", ("\u00a4\u00a0{}", "\u00a4-{}"),
              {"USD": "$", "EUR": "EUR", "JPY": "\u00a5"}),
    "nl": (",", ".", (3, 3), "{}%", ("\u00a4\u00a0{}", "\u00a4\u00a0-{}"),
           {"USD": "US$", "EUR": "\u20ac", "JPY": "JP\u00a5"}),
    "ru": (",", "\u00a0", (3, 3), "{}\u00a0%", ("{}\u00a0\u00a4", "-{}\u00a0\u00a4"),
           {"USD": "$", "EUR": "\u20ac", "JPY": "\u00a5"}),
    "pl": (",", "\u00a0", (3, 3), "{}%", ("{}\u00a0\u00a4", "-{}\u00a0\u00a4"),
           {"USD": "USD", "EUR": "\u20ac", "JPY": "JPY"}),
    "ar": (".", ",", (3, 3), "{}%", ("\u200f{}\u00a0\u00a4", "\u200f-{}\u00a0\u00a4"),
           {"USD": "US$", "EUR": "\u20ac", "JPY": "JP\u00a5", "KWD": "\u062f.\u0643.\u200f"}),
    "he": (".", ",", (3, 3), "{}%", ("\u200f{}\u00a0\u200f\u00a4", "\u200f-{}\u00a0\u200f\u00a4"),
           {"USD": "$", "EUR": "\u20ac", "JPY": "\u00a5"}),
    "fy": (",", ".", (3, 3), "{}%", ("\u00a4\u00a0{}", "\u00a4\u00a0{}-"),
           {"USD": "US$", "EUR": "\u20ac", "JPY": "JP\u00a5"}),
    "tr": (",", ".", (3, 3), "%{}", ("\u00a4{}", "-\u00a4{}"), {"USD": "$", "EUR": "\u20ac", "JPY": "\u00a5"}),
    "eu": (",", ".", (3, 3), "%\u00a0{}", ("{}\u00a0\u00a4", "-{}\u00a0\u00a4"),
           {"USD": "US$", "EUR": "\u20ac", "JPY": "JP\u00a5"}),
    "bn": (".", ",", (3, 2), "{}%", ("{}\u00a4", "-{}\u00a4"), {"USD": "US$", "EUR": "\u20ac", "JPY": "JP\u00a5"}),
    "es-CL": (",", ".", (3, 3), "{}%", ("\u00a4{}", "\u00a4-{}"), {"USD": "US$", "EUR": "EUR", "JPY": "JPY"}),
    "luy": (".", ",", (3, 3), "{}%", ("\u00a4{}", "\u00a4-\u00a0{}"),
            {"USD": "US$", "EUR": "\u20ac", "JPY": "JP\u00a5"}),
    "ur": (".", ",", (3, 3), "{}%", ("\u00a4{}", "-\u00a4{}"), {"USD": "$", "EUR": "\u20ac", "JPY": "JP\u00a5"}),
    "lv": (",", "\u00a0", (3, 3), "{}%", ("{}\u00a0\u00a4", "-{}\u00a0\u00a4"),
           {"USD": "$", "EUR": "\u20ac", "JPY": "\u00a5"}),
    "ja": (".", ",", (3, 3), "{}%", ("\u00a4{}", "-\u00a4{}"), {"USD": "$", "EUR": "\u20ac", "JPY": "\uffe5"}),
}
LOCALES["en-US"] = LOCALES["en"]
CURRENCY_DIGITS = {"USD": 2, "EUR": 2, "JPY": 0, "KWD": 3, "ISK": 0}


def to_decimal(v):
    if isinstance(v, Decimal):
        return Decimal(Decimal.__str__(v))
    if isinstance(v, float):
        return Decimal(float.__repr__(v))
    return Decimal(int(v))


def half_even(x):
    """Fraction -> int"""
    n = x.numerator // x.denominator
    r = x - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n % 2):
        n += 1
    return n


def exponent(x):
    """floor(log10 x) for a positive Fraction."""
    e = len(str(x.numerator)) - len(str(x.denominator))
    while Fraction(10) ** e > x:
        e -= 1
    while Fraction(10) ** (e + 1) <= x:
        e += 1
    return e


def digits(x, minint, minfrac, maxfrac):
    """x rounded to maxfrac fraction digits -> (integer digits, fraction digits)"""
    n = half_even(x * 10 ** maxfrac)
    s = str(n).rjust(maxfrac + 1, "0")
    i, f = (s[:-maxfrac], s[-maxfrac:]) if maxfrac else (s, "")
    while len(f) > minfrac and f.endswith("0"):
        f = f[:-1]
    return i.rjust(minint, "0"), f


def significant(x, minint, minsd, maxsd):
    if x == 0:
        e = 0
    else:
        e = exponent(x)
        n = half_even(x / Fraction(10) ** (e - maxsd + 1))
        if n == 10 ** maxsd:
            e += 1
            n //= 10
        x = n * Fraction(10) ** (e - maxsd + 1)
    return digits(x, minint, max(0, minsd - 1 - e), max(0, maxsd - 1 - e))


def group(s, sizes, sep):
    out, size = [], sizes[0]
    while len(s) > size:
        out.append(s[-size:])
        s = s[:-size]
        size = sizes[1]
    out.append(s)
    return sep.join(reversed(out))


def frac_digits(o):
    style = o.get("style", "decimal")
    if style == "currency":
        lo = hi = CURRENCY_DIGITS[o["currency"]]
    else:
        lo, hi = (0, 0) if style == "percent" else (0, 3)
    mn, mx = o.get("minimumFractionDigits"), o.get("maximumFractionDigits")
    if mn is None and mx is None:
        return lo, hi
    if mn is None:
        return min(lo, mx), mx
    if mx is None:
        return mn, max(hi, mn)
    return mn, mx


def sig_digits(o):
    mn, mx = o.get("minimumSignificantDigits"), o.get("maximumSignificantDigits")
    if mn is None and mx is None:
        return None
    mn = 1 if mn is None else mn
    return mn, max(21, mn) if mx is None else mx


def valid(o):
    """Options for which the result is defined: min <= max."""
    sd = sig_digits(o)
    if sd and not 1 <= sd[0] <= sd[1]:
        return False
    mn, mx = o.get("minimumFractionDigits"), o.get("maximumFractionDigits")
    return mn is None or mx is None or mn <= mx


def format_number(v, o, locale):
    """The text, or None when the number is outside the modelled range
    (more than 28 digits)."""
    dec, grp, sizes, percent, currency, symbols = LOCALES[locale]
    d = to_decimal(v)
    style = o.get("style", "decimal")
    x = Fraction(d)
    neg = d.is_signed()
    x = abs(x)
    if style == "percent":
        x *= 100
    minint = o.get("minimumIntegerDigits")
    minint = 1 if minint is None else max(1, minint)
    sd = sig_digits(o)
    if sd:
        i, f = significant(x, minint, *sd)
    else:
        lo, hi = frac_digits(o)
        if len(str(int(x))) + hi > 28:
            return None
        i, f = digits(x, minint, lo, hi)
    if o.get("useGrouping", True):
        i = group(i, sizes, grp)
    s = i + (dec + f if f else "")
    sign = "-" if neg else ""
    if style == "decimal":
        return sign + s
    if style == "percent":
        return sign + percent.format(s)
    code = o["currency"]
    sym = code if o.get("currencyDisplay") == "code" else symbols.get(code, code)
    return currency[neg].format(s).replace("\u00a4", sym)
