"""C12: literals decode to the value they denote."""
import itertools
from fractions import Fraction

from .. import docs
from ..core import Check, Result, Scope, Violation, chunks, strings
from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.types import FluentFloat, FluentInt
from fluent.syntax import FluentParser
from fluent.syntax import ast as FTL

HEX = "0123456789abcdefABCDEF"


def decode(body):
    """Own decoder: one left-to-right pass."""
    out, i = [], 0
    while i < len(body):
        c = body[i]
        if c != "\\":
            out.append(c)
            i += 1
            continue
        d = body[i + 1]
        if d in '\\"':
            out.append(d)
            i += 2
            continue
        n = {"u": 4, "U": 6}[d]
        digits = body[i + 2:i + 2 + n]
        assert len(digits) == n and all(x in HEX for x in digits)
        cp = 0
        for x in digits:
            cp = cp * 16 + HEX.index(x.lower())
        bad = 0xD800 <= cp <= 0xDFFF or cp > 0x10FFFF
        out.append("\ufffd" if bad else chr(cp))
        i += 2 + n
    return "".join(out)


TOKENS = ["\\\\", '\\"', "\\u0041", "\\ud800", "\\U01F600", "\\U110000", "\\u005c", "u", "U", "0041", "00", "x",
          " ", "{", "\u00e9", "}"]

PLACES = [
    ("alone", 'm = {{ "{}" }}\n', "{}"),
    ("text", 'm = x{{ "{}" }}y\n', "x{}y"),
    ("two", 'm = {{ "{}" }}{{ "{}" }}\n', "{}{}"),
    ("nested", 'm = a {{ {{ "{}" }} }}\n', "a {}"),
    ("mixed", 'm = {{ "{}" }}{{ 1 }}\n', "{}1"),
    ("posarg", 'm = {{ ID("{}") }}\n', "{}"),
    ("namedarg", 'm = {{ ID(0, k: "{}") }}\n', "0{}"),
    ("termarg", '-t = {{ $x }}\nm = {{ -t(x: "{}") }}\n', "{}"),
    ("attr", 'm =\n .a = {{ "{}" }}\nr = {{ m.a }}\n', "{}"),
    ("variant", 'm = {{ 1 ->\n *[a] {{ "{}" }}\n}}\n', "{}"),
]


def ident(x, k=""):
    return "%s%s" % (x, k)


class C12(Check):
    id = "C12"
    assumptions = ["string values up to the expansion limit of 2500 characters"]

    def scopes(self, tier):
        thorough = tier == "thorough"
        n = 5 if thorough else 4

        def gen_tok(block):
            if block is None:
                for s in strings(TOKENS, 1):
                    yield ["body", s]
            else:
                for s in strings(TOKENS, n - 2):
                    yield ["body", block + s]
        pairs = ["".join(t) for t in itertools.product(TOKENS, repeat=2)]

        def gen_place(block):
            for p in block:
                for s in strings(TOKENS, 3 if thorough else 2):
                    yield ["place", p, s]

        def gen_u(block):
            yield ["codes", "u", block, 1024]

        def gen_U(block):
            yield ["codes", "U", block, 4096]
        top = 0x1000000 if thorough else 0x111000
        Ublocks = list(range(0, top, 4096))
        if not thorough:
            Ublocks += [k << 12 for k in (0x200, 0x1ff, 0x400, 0x800, 0xd00, 0xd0d, 0xfff)]

        def gen_raw(block):
            for c in block:
                if chr(c) not in '"\\\n\r':
                    yield ["body", "x" + chr(c) + "y"]
        ranges = docs.ALL_CP if thorough else docs.BMP_QUICK
        cps = [c for a, b in ranges for c in range(a, b)]

        nd = 4 if thorough else 3

        def gen_num(block):
            ip = block
            for sign in ("", "-"):
                yield ["num", sign + ip]
                for fp in strings("0159", nd, 1):
                    yield ["num", sign + ip + "." + fp]
        ints = list(strings("01359", nd, 1)) + [
            "7", "0" * 20 + "1", "123456789012345678901234567890", "9007199254740993", "9" * 17, "1" + "0" * 22,
            "4" * 100, "9" * 300]

        def gen_longfrac(block):
            for k in block:
                for d in "0159":
                    for ip in ("0", "1", "12345", "-0", "-7"):
                        yield ["num", ip + "." + "0" * k + d]
                        yield ["num", ip + "." + d * (k + 1)]
                        yield ["num", ip + "." + d + "0" * k]
        # first of all, while whatever the workers remember is still empty
        first = ["0", "1", "7", "12", "101", "1000", "12345", "1.5", "0.25", "100.1", "99999.99", "1234567", "0.001", "9007199254740993", "2147483648", "123456789.5"]
        return [
            Scope("spellings", "%d numbers, each spelled with further zeros and signs, in fresh processes" % len(first),
                  [[f, s] for s in ("", "-") for f in first], lambda b: [["num", b[1] + b[0]]]),
            Scope("escapes%d" % n, "every string literal body of <=%d tokens over %d escape and plain tokens, "
                  "decoded from the tree and formatted" % (n, len(TOKENS)), [None] + pairs, gen_tok),
            Scope("places", "every body of <=%d tokens in %d positions (text, nested, arguments, selector, attribute, "
                  "variant)" % (3 if thorough else 2, len(PLACES) + 1),
                  [[i] for i in range(len(PLACES) + 1)], gen_place),
            Scope("u-escapes", "all 65536 four-digit escapes, both hex cases", range(0, 65536, 1024), gen_u),
            Scope("U-escapes", "all six-digit escapes up to %06X%s, both hex cases"
                  % (top - 1, "" if thorough else " and selected blocks above"), Ublocks, gen_U),
            Scope("characters", "every unescaped code point of %s" % ("Unicode" if thorough else "the quick ranges"),
                  chunks(cps, 64), gen_raw),
            Scope("numbers", "every number literal with <=%d integer digits of 01359 and <=%d fraction digits of 0159, "
                  "signed, and long ones" % (nd, nd), ints, gen_num),
            Scope("fractions", "fractions of 1 to %d digits" % (300 if thorough else 60),
                  chunks(range(300 if thorough else 60), 8), gen_longfrac),
        ]

    def run_case(self, scope, case):
        return getattr(self, "do_" + case[0])(*case[1:])

    def bundle(self, text, **kw):
        b = FluentBundle(["en-US"], use_isolating=False, functions={"ID": ident, **kw})
        b.add_resource(FluentResource(text))
        return b

    def fmt(self, b, name="m", args=None):
        v, errs = b.format_pattern(b.get_message(name).value, args)
        if errs:
            raise Violation("errors: %r" % errs)
        return v

    def do_body(self, body):
        want = decode(body)
        lit = FTL.StringLiteral(body)
        got = lit.parse()
        if got != {"value": want}:
            raise Violation("parse() of %r gives %r, it denotes %r" % (body, got, want))
        if lit.value != body or lit.parse() != got:
            raise Violation("parse() is not repeatable")
        src = 'm = { "%s" }\n' % body
        res = FluentParser().parse(src)
        node = res.body[0].value.elements[0].expression
        if type(node).__name__ != "StringLiteral" or node.value != body or node.parse() != {"value": want}:
            raise Violation("parsed literal %r" % (node.value,))
        out = self.fmt(self.bundle(src))
        if out != want:
            raise Violation("formats as %r, denotes %r" % (out, want))
        return (len(want), "\ufffd" in want)

    def do_place(self, i, body):
        want = decode(body)
        if i == len(PLACES):
            key = want if want.isascii() and want[:1].isalpha() and want.replace("_", "").isalnum() else None
            b = self.bundle('m = { "%s" ->\n [%s] hit\n *[other9] miss\n}\n' % (body, key or "x"))
            out, exp = self.fmt(b), "hit" if (key or "x") == want else "miss"
        else:
            _, src, exp = PLACES[i]
            k = src.count("{}")
            src = src.format(*[body] * k)
            exp = exp.format(*[want] * exp.count("{}"))
            b = self.bundle(src)
            out = self.fmt(b, "r" if "\nr =" in src else "m")
            again = self.fmt(b, "r" if "\nr =" in src else "m")
            if again != out:
                raise Violation("a second call gives %r, not %r" % (again, out))
        if out != exp:
            raise Violation("formats as %r, should be %r" % (out, exp))
        return (i, len(want))

    def do_codes(self, kind, start, n):
        for cp in range(start, start + n):
            for spec in ("x", "X"):
                digits = format(cp, ("04" if kind == "u" else "06") + spec)
                body = "a\\" + kind + digits + "0"
                bad = 0xD800 <= cp <= 0xDFFF or cp > 0x10FFFF
                want = "a" + ("\ufffd" if bad else chr(cp)) + "0"
                got = FTL.StringLiteral(body).parse()["value"]
                if got != want:
                    raise Violation("%r denotes %r, parse() gives %r" % (body, want, got))
        # and in one piece, through the parser and a bundle
        step = 1 if kind == "u" else 97
        cps = [c for c in range(start, start + n, step)][:1024]
        for i in range(0, len(cps), 64):
            part = cps[i:i + 64]
            body = "".join("\\" + kind + format(c, "04X" if kind == "u" else "06X") for c in part)
            want = "".join("\ufffd" if 0xD800 <= c <= 0xDFFF or c > 0x10FFFF else chr(c) for c in part)
            out = self.fmt(self.bundle('m = { "%s" }\n' % body))
            if out != want:
                raise Violation("formats as %r, denotes %r" % (out, want))
        return Result((kind, start), traces=2 * n, states=n, transitions=2 * n)

    def do_num(self, text):
        fr = Fraction(text)
        prec = len(text.partition(".")[2])
        want = {"value": float(fr), "precision": prec}
        src = "m = { %s }\nn = { CAP(%s, k: %s) ->\n [%s] hit\n *[o] miss\n}\n" % (text, text, text, text)
        node = FluentParser().parse(src).body[0].value.elements[0].expression
        for lit in (FTL.NumberLiteral(text), node):
            if lit.value != text:
                raise Violation("source text kept as %r" % lit.value)
            got = lit.parse()
            if got != want or type(got["precision"]) is not int or repr(float(got["value"])) != repr(float(text)):
                raise Violation("parse() of %s gives %r, it denotes %r" % (text, got, want))
        if len(text) < 40:
            # other spellings of the number, and the first one again
            for other in [text + (".0", "0")[bool(prec)], "%s00" % text if prec else text + ".000", text.replace("-", "-0") if text[0] == "-" else "0" + text,
                          text[1:] if text[0] == "-" else "-" + text, text]:
                p = len(other.partition(".")[2])
                got = FTL.NumberLiteral(other).parse()
                if got != {"value": float(Fraction(other)), "precision": p} or repr(float(got["value"])) != repr(float(other)):
                    raise Violation("parse() of %s after %s gives %r" % (other, text, got))
        seen = []

        def cap(x, k):
            seen.append((x, k))
            return x
        b = self.bundle(src, CAP=cap)
        out = self.fmt(b, "n")
        if out != "hit" or len(seen) != 1:
            raise Violation("%s does not select [%s] (%r, %d calls)" % (text, text, out, len(seen)))
        for v in seen[0]:
            if prec:
                ok = isinstance(v, float) and isinstance(v, FluentFloat) and v == float(fr)
            else:
                ok = isinstance(v, int) and isinstance(v, FluentInt) and Fraction(int(v)) == fr
            if not ok:
                raise Violation("passed to a function as %s(%r)" % (type(v).__name__, v))
        if prec <= 3 and len(text) < 16 and (fr != 0 or text[0] != "-"):
            i, _, f = text.lstrip("-").partition(".")
            f = f.rstrip("0")
            exp = ("-" if fr < 0 else "") + format(int(i), ",d") + ("." + f if f else "")
            if self.fmt(b) != exp:
                raise Violation("formats as %r, should be %r" % (self.fmt(b), exp))
        return (prec, len(text), fr < 0)


CHECK = C12()
