"""Generator of abstract Fluent trees and of their layouts.

Trees are reference tuples (see ftlref) without spans.  `render(tree, choose)`
prints one; every place where the grammar leaves the layout open asks
`choose(kind, options)`.  `layouts(tree, k)` enumerates every text with at
most k deviations from the default layout.
"""
import itertools

from .core import Scope, chunks

N = None


def ident(s):
    return ("Identifier", s, N)


def text(s):
    return ("TextElement", s, N)


def pl(e):
    return ("Placeable", e, N)


def pat(*els):
    return ("Pattern", tuple(text(e) if isinstance(e, str) else e for e in els), N)


def s(v):
    return ("StringLiteral", v, N)


def n(v):
    return ("NumberLiteral", v, N)


def var(v):
    return ("VariableReference", ident(v), N)


def msg(v, a=None):
    return ("MessageReference", ident(v), ident(a) if a else None, N)


def args(pos=(), named=()):
    return ("CallArguments", tuple(pos), tuple(("NamedArgument", ident(k), v, N) for k, v in named), N)


def term(v, a=None, c=None):
    return ("TermReference", ident(v), ident(a) if a else None, c, N)


def fun(v, c=None):
    return ("FunctionReference", ident(v), c or args(), N)


def sel(selector, *variants):
    return ("SelectExpression", selector, tuple(
        ("Variant", n(k) if k[0] in "-0123456789" else ident(k), p, d, N) for k, p, d in variants), N)


def attr(k, p):
    return ("Attribute", ident(k), p, N)


def message(k, value=None, attrs=(), comment=None):
    return ("Message", ident(k), value, tuple(attrs), comment, N)


def termdef(k, value, attrs=(), comment=None):
    return ("Term", ident(k), value, tuple(attrs), comment, N)


def comment(c, level=1):
    return (("Comment", "GroupComment", "ResourceComment")[level - 1], c, N)


def resource(*body):
    return ("Resource", tuple(body), N)


# -- printing with choices ----------------------------------------------------

INLINE = ["", " ", "   "]
BLANK = ["", " ", "\n", "\r\n   ", " \n\n"]
EOL = ["\n", "\r\n"]


class Printer:
    def __init__(self, choose):
        self.c = choose

    def eol(self):
        return self.c("eol", EOL)

    def inline(self, default=""):
        opts = [default] + [x for x in INLINE if x != default]
        return self.c("inline", opts)

    def blank(self, default=""):
        opts = [default] + [x for x in BLANK if x != default]
        return self.c("blank", opts)

    def resource(self, r):
        out = [self.c("lead", ["", "\n", "  \r\n", " \n\n"])]
        body = r[1]
        for i, e in enumerate(body):
            last = i == len(body) - 1
            out.append(self.entry(e))
            if last:
                out.append(self.c("tail", ["\n", "", "\r\n", "\n\n", "\n  ", "\n \n"]))
                continue
            nxt = body[i + 1]
            kind, nk = e[0], nxt[0]
            # these two would merge without a blank line
            need = kind == nk and kind.endswith("Comment") or \
                kind == "Comment" and nk in ("Message", "Term")
            opts = ["\n\n", "\n", "\r\n", "\n \n", "\r\n\r\n", "\n\n\n   \n"]
            if need:
                opts = ["\n\n", "\r\n\r\n", "\n \n", "\n   \r\n\n"]
            out.append(self.c("sep", opts))
        return "".join(out)

    def entry(self, e):
        if e[0].endswith("Comment"):
            return self.comment(e)
        head = ""
        if e[4] is not None:
            head = self.comment(e[4]) + self.eol()
        head += ("-" if e[0] == "Term" else "") + e[1][1] + self.inline(" ") + "="
        if e[2] is not None:
            head += self.pattern(e[2])
        for a in e[3]:
            head += self.c("attrsep", ["\n    ", "\n", "\r\n ", "\n\n  ", "\n   \n"]) if True else ""
            head += "." + a[1][1] + self.inline(" ") + "=" + self.pattern(a[2])
        return head

    def comment(self, e):
        mark = "#" * (("Comment", "GroupComment", "ResourceComment").index(e[0]) + 1)
        out = []
        ls = e[1].split("\n")
        for i, l in enumerate(ls):
            if l:
                out.append(mark + " " + l)
            else:
                out.append(mark + self.c("emptycomment", ["", " "]))
            if i < len(ls) - 1:
                out.append(self.eol())
        return "".join(out)

    def pattern(self, p):
        """Lines of pieces; the first line may follow inline or as a block."""
        lines = [[]]
        for el in p[1]:
            if el[0] == "TextElement":
                parts = el[1].split("\n")
                for i, t in enumerate(parts):
                    if i:
                        lines.append([])
                    if t:
                        lines[-1].append(("t", t))
            else:
                lines[-1].append(("p", el))

        def extra(line):
            if line and line[0][0] == "t":
                t = line[0][1]
                return len(t) - len(t.lstrip(" "))
            return 0
        rest = [extra(l) for l in lines[1:] if l]
        first = extra(lines[0])
        # inline: the first line carries no indent, the others must not share one
        can_inline = first == 0 and bool(lines[0]) and (not rest or min(rest) == 0)
        c0 = lines[0][0] if lines[0] else None
        can_block = bool(lines[0]) and min([first] + rest) == 0 and not (
            c0[0] == "t" and (c0[1].lstrip(" ") + "x")[0] in ".[*}")
        modes = []
        if can_inline:
            modes.append("inline")
        if can_block:
            modes.append("block")
        assert modes, p
        multi = len(lines) > 1 or any(k == "p" and x[1][0] == "SelectExpression" for l in lines for k, x in l)
        if multi and "block" in modes:
            modes.reverse()
        mode = self.c("mode", modes)
        width = self.c("indent", ["    ", " ", "  ", ""])
        if width == "":
            # only lines that begin with a placeable may start in column one,
            # and they make every indent significant
            ok = all(l[0][0] == "p" for l in lines[1:] if l) and (mode == "inline" or lines[0][0][0] == "p")
            if not ok:
                width = " "
        out = []
        if mode == "inline":
            out.append(self.inline(" "))
        else:
            out.append(self.c("blockstart", ["\n", "\r\n", " \n", "\n\n", "\n   \r\n"]))
            out.append(width)
        for i, line in enumerate(lines):
            if i:
                if line:
                    out.append(self.eol() + width)
                else:
                    out.append(self.eol() + self.c("blankline", ["", "  ", "         "]))
            for k, x in line:
                out.append(x if k == "t" else self.placeable(x))
        # trailing spaces are never part of a pattern
        out.append(self.c("trail", ["", " ", "  "]) if lines[-1][-1][0] == "t" else
                   self.c("trail", ["", " "]))
        return "".join(out)

    def placeable(self, p):
        e = p[1]
        if e[0] == "SelectExpression":
            return "{" + self.blank(" ") + self.select(e) + "}"
        return "{" + self.blank(" " if e[0] != "Placeable" else "") + self.expr(e) + self.blank(
            " " if e[0] != "Placeable" else "") + "}"

    def select(self, e):
        out = self.expr(e[1])
        if out[-1] in ')"' or e[1][0] == "NumberLiteral":
            out += self.blank(" ")
        else:
            # a hyphen would continue the identifier
            out += self.c("blank1", [b for b in [" "] + BLANK if b])
        out += "->" + self.inline("") + self.eol()
        vs = e[2]
        for i, v in enumerate(vs):
            out += self.c("varindent", ["    ", "", " ", "\n  ", "\r\n"])
            out += "*" if v[3] else ""
            key = v[1][1]
            if v[1][0] == "Identifier":
                key = v[1][1]
            out += "[" + self.blank("") + key + self.blank("") + "]"
            out += self.pattern(v[2])
            out += self.eol()
        return out + self.c("varend", ["", "  ", "\n"])

    def expr(self, e):
        k = e[0]
        if k == "StringLiteral":
            return '"' + e[1] + '"'
        if k == "NumberLiteral":
            return e[1]
        if k == "VariableReference":
            return "$" + e[1][1]
        if k == "MessageReference":
            return e[1][1] + ("." + e[2][1] if e[2] else "")
        if k == "TermReference":
            out = "-" + e[1][1] + ("." + e[2][1] if e[2] else "")
            if e[3] is not None:
                out += self.callargs(e[3])
            return out
        if k == "FunctionReference":
            return e[1][1] + self.callargs(e[2])
        if k == "Placeable":
            return self.placeable(e)
        raise AssertionError(k)

    def callargs(self, a):
        out = self.blank("") + "(" + self.blank("")
        items = [self.expr(x) for x in a[1]]
        items += [x[1][1] + self.blank("") + ":" + self.blank(" ") + self.expr(x[2]) for x in a[2]]
        for i, it in enumerate(items):
            out += it
            if i < len(items) - 1:
                out += self.blank("") + "," + self.blank(" ")
        if items:
            out += self.c("trailcomma", ["", ",", " , "])
            out += self.blank("")
        return out + ")"


def render(tree, deviations=()):
    """deviations: {choice index: option}.  Returns (text, option counts)."""
    dev = dict(deviations)
    counts = []

    def choose(kind, options):
        i = len(counts)
        counts.append(len(options))
        return options[min(dev.get(i, 0), len(options) - 1)]
    out = Printer(choose).resource(tree)
    return out, counts


def layouts(tree, k):
    """All texts with at most k choices off their default.  Stateless search:
    re-run with a prefix of choices, as deviations may change which choices
    follow."""
    stack = [({}, 0, 0)]
    while stack:
        dev, start, used = stack.pop()
        out, counts = render(tree, dev)
        yield out
        if used < k:
            for i in range(start, len(counts)):
                for o in range(1, counts[i]):
                    d = dict(dev)
                    d[i] = o
                    stack.append((d, i + 1, used + 1))


# -- pools of trees -------------------------------------------------------------

def inline_exprs(depth):
    """Inline expressions, most general first."""
    base = [var("v"), s(""), s("a"), s("\\\\"), s('\\"'), s("\\u00e9"), s("{x}"), s(" "), s("\\U01F600b"), n("0"),
            n("-1"),
            n("007.500"), msg("m"), msg("m", "a"), term("t"), term("t-2_x"), fun("F"), fun("F-2_")]
    if depth <= 0:
        return base
    sub = [var("v"), s("x"), n("1"), term("t"), term("t", "a"), fun("G"), msg("m"), msg("m", "b"), pl(var("w")),
           pl(pl(s("y")))]
    out = list(base)
    out += [pl(e) for e in base]
    for e in sub:
        out.append(fun("F", args([e])))
        out.append(term("t", None, args([e])))
    for nm in (("k", s("x")), ("k", n("-1.5")), ("K_0", s(""))):
        out.append(fun("F", args([], [nm])))
        out.append(term("t", None, args([], [nm])))
        out.append(fun("F", args([var("v")], [nm])))
    out.append(fun("F", args([var("v"), n("1"), s("x")], [("a", n("1")), ("b", s("2"))])))
    out.append(term("t", None, args()))
    out.append(fun("F", args([fun("G", args([term("u", None, args([], [("z", n("2"))]))]))])))
    out.append(pl(pl(pl(n("1")))))
    return out


def selects():
    x = pat("x")
    sels = [var("v"), s("a"), n("1"), fun("F", args([var("v")], [("k", n("1"))])), term("t", "a"),
            term("t", "a", args([], [("k", s("x"))]))]
    out = [sel(e, ("o", x, True)) for e in sels]
    out += [
        sel(var("v"), ("a", x, False), ("b", pat("y"), True), ("-1.50", pat("z"), False)),
        sel(var("v"), ("a", x, True), ("a", pat(pl(s("q"))), False)),
        sel(var("v"), ("one", pat("p\nq"), False), ("other", pat(pl(var("w")), " r\n\n  s"), True)),
        sel(var("v"), ("o", pat(pl(sel(n("2"), ("i", x, True)))), True)),
        sel(var("v"), ("o", pat("b ", pl(sel(n("2"), ("i", pat("c\nd"), False), ("j", x, True))), " e"), True)),
    ]
    return out


def patterns():
    out = [pat(t) for t in ("x", "x y", "x\ny", "x\n  y", "x\n\ny", "  x\ny", "x\n \u00e9", "a=b", "-x", "# x", "x }".replace(
        " }", ""), ".x", "[x", "*x", '"x"', "\\", "\\u0041", "//", "x\n# y", "x\n-y = z", "x\n = y", "\tx", "x\n\ty", "\u2028",
        "x\u00a0", "$v", "x\n\n\n    y\n  z")]
    v = pl(var("v"))
    w = pl(s("w"))
    out += [pat(v), pat("x ", v), pat(v, " x"), pat(v, w), pat(v, " ", w), pat(v, "\n", w), pat("x\n", v), pat(v, "\nx"),
            pat("x\n  ", v), pat(v, "\n\n  ", w, " x\ny"), pat("x ", v, " y ", w, "\nz"), pat("  ", v, "\nx"), pat(v, ".x"),
            pat(v, "\n  x\ny"), pat(w, "[x"), pat(".x", v), pat("x\n", v, "\n", w), pat("x", v, "\n \n y".replace(" \n", "\n"))]
    return out


def resources():
    x = pat("x")
    p2 = pat("a\n  b ", pl(var("v")))
    c = comment("c")
    out = [
        resource(),
        resource(message("a", x)),
        resource(message("aZ-_09", x, [attr("b", x)])),
        resource(message("a", None, [attr("b", x), attr("b", p2), attr("C-_1", pat(pl(s(""))))])),
        resource(termdef("t", p2, [attr("b", p2), attr("c", x)])),
        resource(message("a", x, [], comment("c\nd"))),
        resource(termdef("t", x, [attr("b", x)], comment("\n\nc\n"))),
        resource(message("a", None, [attr("b", x)], comment("")), message("b", x)),
        resource(c), resource(comment("g", 2)), resource(comment("r", 3)), resource(comment("", 1)),
        resource(comment(" c #", 1)), resource(comment("a\n\nb\n", 2)), resource(comment("= x\n.y\n\t", 3)),
        resource(c, message("a", x)), resource(c, c, termdef("t", x)),
        resource(comment("g", 2), comment("h", 2)), resource(comment("g", 2), message("a", x)),
        resource(comment("r", 3), comment("g", 2), c, message("a", x, [], comment("d")), c),
        resource(message("a", x), c, message("b", x)), resource(message("a", p2), termdef("a", p2), message("a", p2)),
        resource(message("a", x, [attr("b", p2)]), comment("g", 2), message("c", p2)),
        resource(message("a", pat(pl(sel(var("v"), ("o", p2, True))))), message("b", None, [attr(
            "c", pat(pl(sel(var("v"), ("o", x, True)))))])),
        resource(message("a", pat(pl(sel(var("v"), ("o", p2, True))), "\n", pl(s("x"))), [attr("b", x)], comment("c"))),
    ]
    return out


def trees():
    """(tree, kind) for the layout enumeration: one construct at a time, in
    each host where it may stand."""
    out = list(resources())
    for p in patterns():
        out.append(resource(message("a", p)))
        out.append(resource(message("a", None, [attr("b", p), attr("c", p)]), message("z", p)))
        out.append(resource(termdef("t", p, [attr("b", p)])))
        out.append(resource(message("a", pat(pl(sel(var("v"), ("k", p, False), ("o", p, True)))))))
    for e in inline_exprs(1):
        if not (e[0] == "TermReference" and e[2] is not None):
            out.append(resource(message("a", pat(pl(e)))))
            out.append(resource(message("a", pat("x ", pl(e), " y"), [attr("b", pat("p\n", pl(e), "\nq"))])))
    for e in selects():
        out.append(resource(message("a", pat(pl(e)))))
        out.append(resource(message("a", pat("x ", pl(e), " y\n z", pl(e)))))
        out.append(resource(termdef("a", pat("x\n", pl(e), "\n", pl(e)), [attr("b", pat(pl(e), "\nc"))])))
        out.append(resource(message("a", pat(pl(pl(e)), " ", pl(s("x"))), [attr("b", pat(pl(e)))])))
    return out


_TREES = None


def all_trees():
    global _TREES
    if _TREES is None:
        _TREES = trees()
    return _TREES


def layout_scopes(tier):
    ts = all_trees()

    def gen_k(k, limit):
        def gen(block):
            for i in block:
                t = ts[i]
                n_choices = len(render(t)[1])
                kk = k
                if n_choices > limit:
                    kk = k - 1
                for d in layouts(t, kk):
                    yield [d, t]
        return gen
    k, limit = {"single": (1, 1000), "quick": (2, 24), "thorough": (3, 30)}[tier]
    return [Scope("layouts%d" % k, "%d generated trees, every text with <=%d layout choices off the default "
                  "(<=%d for trees of more than %d choices)" % (len(ts), k, k - 1, limit),
                  chunks(range(len(ts)), 128), gen_k(k, limit))]
