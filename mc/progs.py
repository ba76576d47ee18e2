"""Alphabets of patterns and expressions for the runtime checks."""


def T(s):
    return ["t", s]


def P(e):
    return ["p", e]


def S(s):
    return ["str", s]


def N(s):
    return ["num", s]


def V(n):
    return ["var", n]


def M(n, a=None):
    return ["msg", n, a]


def TR(n, a=None, args=None):
    return ["term", n, a, args]


def F(n, pos=(), named=()):
    return ["fn", n, list(pos), [list(x) for x in named]]


def SEL(selector, *variants):
    """variants: (key, pattern) with '*' before the default's key"""
    out = []
    for key, pat in variants:
        default = key.startswith("*")
        k = key.lstrip("*")
        kind = "num" if k[0].isdigit() or k[0] == "-" else "id"
        out.append([[kind, k], default, pat])
    return ["sel", selector, out]


def PL(e):
    return ["pl", e]


# every kind of inline expression and placeable content
ATOMS = [
    S("q"), S(""), N("1"), N("1.5"), N("-3"), V("s"), V("n"), V("none"), V("bad"), V("ftx"),
    M("a"), M("b"), M("b", "x"), M("miss"), M("a", "miss"), M("miss", "miss"), M("self"),
    TR("t"), TR("t", None, [[], [["v", S("q")]]]), TR("t", None, [[N("1")], [["n", N("2")], ["v", N("1")]]]),
    TR("u"), TR("u", None, [[], []]), TR("miss"), TR("miss", None, [[V("s")], []]),
    F("ECHO", [V("n"), M("a"), TR("t")], [["k", S("w")]]), F("ECHO"), F("UNKNOWN", [V("none")]), F("FAIL"), F("FAILV"), F("NONE"),
    F("SEVEN"), F("BADTYPE"), F("EMPTY"), F("NUMBER", [V("n")], [["minimumFractionDigits", N("1")]]), F("NUMBER", [V("s")]),
    F("ID", [V("s")]), F("ID", [PL(V("s"))]), F("FAILK"), F("FAILT", [M("miss")]),
    PL(V("s")), PL(S("q")), PL(PL(N("2"))), PL(M("a")),
    SEL(V("n"), ("one", [T("ONE")]), ("*other", [T("OTHER "), P(V("n"))])),
    SEL(V("s"), ("x", [P(V("s"))]), ("*y", [P(S("dflt"))])),
    SEL(V("none"), ("x", [T("X")]), ("*none", [P(V("none")), T("!")])),
    SEL(TR("t", "g"), ("m", [P(TR("t"))]), ("*f", [T("F")])),
    SEL(TR("t", "g", [[], [["v", S("m")]]]), ("m", [T("M")]), ("*f", [T("F")])),
    SEL(F("SEVEN"), ("7", [T("seven")]), ("*other", [T("o")])),
    SEL(F("FAIL"), ("7", [T("seven")]), ("*other", [P(F("FAIL"))])),
    SEL(S("k"), ("j", [T("J")]), ("*k", [P(SEL(N("1"), ("1", [T("in "), P(M("a"))]), ("*o", [T("out")])))])),
]

# values that the referenced entries may take
VALUES = [
    [T("txt")], [P(V("s"))], [T("v "), P(V("n"))], [P(M("b"))], [T("see "), P(M("b", "x"))], [P(TR("t"))],
    [T("t:"), P(TR("t", None, [[], [["v", S("p")]]]))], [P(M("a"))], [T("rec "), P(M("a"))],
    [P(SEL(V("n"), ("1", [T("1!")]), ("*other", [P(M("b")), T("?")])))], [P(F("ECHO", [V("v"), M("b", "x")]))],
    None, [P(S("lit")), T("+"), P(S(""))], [P(V("v")), P(V("v"))],
]
TERMS = [
    [T("term")], [P(V("v"))], [T("T("), P(V("v")), T(")")], [P(TR("u"))], [P(TR("u", None, [[], [["v", N("9")]]])), P(V("v"))],
    [P(M("b"))], [P(SEL(V("v"), ("q", [T("Q")]), ("1", [T("#1")]), ("*o", [P(V("v"))])))], [P(TR("t"))],
    [T("x"), P(TR("t", None, [[], [["v", S("r")]]]))],
]

ARGSETS = [
    {"s": ["s", "x"], "n": ["i", 1], "bad": ["None"], "ftx": ["ftx", "e"]},
    {"s": ["s", "y"], "n": ["f", "2.5"], "bad": ["list"], "ftx": ["ft", "T"], "v": ["s", "outer"]},
    {},
]


def atoms_program(atoms=None, affix=True):
    """One message per atom: alone, and between text."""
    out = []
    for i, e in enumerate(atoms if atoms is not None else ATOMS):
        out.append(["msg", "l%d" % i, [P(e)], []])
        if affix:
            out.append(["msg", "w%d" % i, [T("<"), P(e), T(">")], []])
    return out


def env_program(a, b, bx, t, u, g):
    out = []
    out.append(["msg", "a", a, [] if a is not None else [["only", [T("attr")]]]])
    out.append(["msg", "b", b, [["x", bx]]])
    out.append(["term", "t", t, [["g", g]]])
    out.append(["term", "u", u, []])
    out.append(["msg", "self", [T("s "), P(M("self"))], []])
    return out
