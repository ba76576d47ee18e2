"""C08: trees built in code serialize to Fluent that means the same."""
import itertools

from .. import astgen as G, docs, ftlref
from ..core import Check, HarnessError, Scope, Violation, chunks
from ..syn import build, build_late, build_sparse, diff
from .c02 import tuplify
from fluent.syntax import FluentParser, FluentSerializer
from fluent.syntax import ast as FTL

PARSER = FluentParser(with_spans=False)
X = G.pat("x")
V = G.pl(G.var("v"))
S = G.pl(G.sel(G.var("v"), ("a", X, False), ("o", X, True)))
Q = G.pl(G.s("{ \\\" }"))


def lines_of(p):
    lines = [[]]
    for el in p[1]:
        if el[0] == "TextElement":
            for i, t in enumerate(el[1].split("\n")):
                if i:
                    lines.append([])
                if t:
                    lines[-1].append(t)
        else:
            lines[-1].append(None)
    return lines


def denotable(p):
    """Does some Fluent source denote this pattern?"""
    els = p[1]
    if not els:
        return False
    for i, e in enumerate(els):
        if e[0] == "TextElement":
            t = e[1]
            if not t or "{" in t or "}" in t or "\r\n" in t:
                return False
            if i and els[i - 1][0] == "TextElement":
                return False
    if els[-1][0] == "TextElement" and els[-1][1][-1] in " \n\r":
        return False
    lines = lines_of(p)
    if not lines[0]:
        return False
    extras = []
    for i, l in enumerate(lines):
        if not l:
            extras.append(None)
            continue
        if l[0] is None:
            extras.append(0)
            continue
        body = l[0].lstrip(" ")
        if not body and len(l) == 1:
            return False  # a line of blanks only
        extras.append(len(l[0]) - len(body))
        special = bool(body) and body[0] in ".[*"
        if special and (i or extras[0]):
            return False
        if special and i == 0:
            rest = [e for e in extras[1:] if e is not None]
    rest = [e for e in extras[1:] if e is not None]
    head = lines[0][0]
    special = head is not None and head.lstrip(" ")[:1] in (".", "[", "*") and head.lstrip(" ")[:1] != ""
    inline = extras[0] == 0 and (not rest or min(rest) == 0)
    block = not special and min([extras[0]] + rest) == 0
    return inline or block


def patterns(t):
    if isinstance(t, tuple):
        if t and t[0] == "Pattern":
            yield t
        for x in t:
            yield from patterns(x)


def stray_cr(t):
    """Comments that hold a CR right before a line's end: no source denotes them but by the finding of C07."""
    if not isinstance(t, tuple):
        return False
    if t and isinstance(t[0], str) and t[0].endswith("Comment"):
        return isinstance(t[1], str) and "\r\n" in t[1] + "\n"
    return any(map(stray_cr, t))


def assemble(atoms):
    """Atoms -> pattern: adjacent text joined."""
    els = []
    for a in atoms:
        if isinstance(a, str):
            if els and els[-1][0] == "TextElement":
                els[-1] = G.text(els[-1][1] + a)
            else:
                els.append(G.text(a))
        else:
            els.append(a)
    return ("Pattern", tuple(els), None)


ATOMS1 = ["x", " ", "\n", ".", V, S]
ATOMS2 = ["x", "  ", "\n", "[", "*", "#", "-", "=", "\t", "\u2028", "\r", "\x0b", "\x85", '"', "\\", V, Q]

HOSTS = [
    ("value", lambda p: G.resource(G.message("a", p), G.message("b", X))),
    ("attribute", lambda p: G.resource(G.message("a", None, [G.attr("b", p), G.attr("c", X)]))),
    ("term", lambda p: G.resource(G.termdef("a", p, [G.attr("b", p)]))),
    ("variant", lambda p: G.resource(G.message("a", G.pat(G.pl(G.sel(G.var("v"), ("k", p, False), ("o", X, True))),
                                                         " z")))),
    ("deep", lambda p: G.resource(G.termdef("t", X, [G.attr("b", G.pat("y ", G.pl(G.sel(G.n("1"), ("o", G.pat(
        G.pl(G.sel(G.var("w"), ("p", p, True)))), True)))))]))),
]

WRAPS = [
    ("pl", lambda p: G.pat(G.pl(p[1][0])) if p[1][0][0] == "Placeable" and len(p[1]) == 1 else None),
    ("sel", lambda p: G.pat(G.pl(G.sel(G.var("v"), ("k", X, False), ("o", p, True))))),
    ("sel1", lambda p: G.pat("b ", G.pl(G.sel(G.n("1"), ("o", p, True))))),
    ("sel2", lambda p: G.pat(G.pl(G.sel(G.term("t", "a"), ("1", p, True), ("2", p, False))), " e")),
    ("lines", lambda p: assemble(["l\n\n  "] + [e if e[0] != "TextElement" else e[1] for e in p[1]] + ["\nm"])),
    ("sel3", lambda p: G.pat(G.pl(G.pl(G.sel(G.s("q"), ("o", p, True)))))),
]


def entries_pool():
    c = G.comment
    return [G.message("a", X), G.message("a", G.pat("x\n y\nz")), G.message("a", X, [G.attr("b", X)], c("k")),
            G.message("a", None, [G.attr("b", G.pat(S))]), G.termdef("t", X), G.termdef("t", G.pat(S), [
                G.attr("c", G.pat("p\nq"))], c("l\n\nm")), c("s"), c(""), c("s\n"), c("g", 2), c("", 2), c("r\n\n#", 3),
            c("\n", 3), G.message("b", G.pat("x", V), [], c("\n"))]


def exprs():
    out = G.inline_exprs(1)
    base = G.inline_exprs(0)
    for e in G.inline_exprs(1):
        out.append(G.pl(e))
        out.append(G.fun("F", G.args([e, G.var("z")])))
        out.append(G.fun("F", G.args([G.var("z"), e], [("a", G.s("\\u0041"))])))
        out.append(G.term("t", None, G.args([e], [("a", G.n("-0.10")), ("b", G.s(""))])))
    for e in base:
        for f in base:
            out.append(G.fun("F", G.args([e, f])))
    return [e for e in out]


def bare_ok(e):
    """May stand in a placeable of its own."""
    return not (e[0] == "TermReference" and e[2] is not None) and not (
        e[0] == "FunctionReference" and False)


CP_CTX = [
    ("ends", "k{n} = {c}y{c}{{ 1 }}{c}{{ 2 }}\n"), ("text", "k{n} = x{c}y\n  {c}z{c}{c}w\n"), ("string", 'k{n} = {{ "{c}" }}{{ "{c}x" }}{{ "x{c}" }}{{ "x{c}y" }}\n'),
    ("argument", 'k{n} = {{ F("{c}", a: "{c}x", b: "x{c}") }}\n .a = {{ "{c}" ->\n *[o] {c}y\n }}\n'),
    ("comment", "# {c}\n# x{c}\n# {c}x\n# x{c}y\n-k{n} = z\n\n## {c}\n\n### x{c}y\n"),
]


class C08(Check):
    id = "C08"

    def scopes(self, tier):
        n1, n2 = (6, 4) if tier == "quick" else (7, 5)
        hosts = range(len(HOSTS))

        def gen_atoms(atoms, n):
            def gen(block):
                h, first = block
                for k in range(0, n):
                    for t in itertools.product(atoms, repeat=k):
                        p = assemble((atoms[first],) + t)
                        if denotable(p):
                            yield HOSTS[h][1](p)
            return gen

        def gen_exprs(block):
            es = exprs()
            for i in block:
                e = es[i]
                if bare_ok(e):
                    yield G.resource(G.message("a", G.pat(G.pl(e))), G.message("b", G.pat("x\n", G.pl(e), "\ny")))
                    yield G.resource(G.termdef("a", G.pat(G.pl(e), " ", G.pl(e)), [G.attr("b", G.pat(G.pl(e)))]))
                if e[0] in ("StringLiteral", "NumberLiteral", "VariableReference", "FunctionReference") or \
                        e[0] == "TermReference" and e[2] is not None:
                    yield G.resource(G.message("a", G.pat(G.pl(G.sel(e, ("o", G.pat(V), True))))))

        pool = entries_pool()

        def gen_entries(first):
            for k in range(0, 3):
                for t in itertools.product(range(len(pool)), repeat=k):
                    yield G.resource(*[pool[i] for i in (first,) + t])

        def gen_wraps(block):
            ps = G.patterns()[:30:3] + [G.pat(S), G.pat(V), G.pat("x ", S, "\ny"), G.pat(G.pl(G.pl(G.s("")))), G.pat(".x"),
                                       G.pat("[x\ny")]
            for i in block:
                for k in range(0, 4 if tier == "quick" else 5):
                    for ws in itertools.product(range(len(WRAPS)), repeat=k):
                        for p in ps:
                            for w in (i,) + ws:
                                if p is not None:
                                    p = WRAPS[w][1](p)
                                    if p is not None and not denotable(p):
                                        p = None
                            if p is not None:
                                yield HOSTS[k % len(HOSTS)][1](p)

        def gen_edit(block):
            trees = G.all_trees()
            pats = G.patterns()[::4] + [G.pat(S), G.pat("x ", S)]
            for i in block:
                for e in edits(trees[i], pats):
                    yield ["edit", i, e]

        def gen_all(block):
            for i in block:
                yield G.all_trees()[i]

        return [
            Scope("patterns%d" % n1, "all denotable patterns of <=%d atoms over %d kinds, in %d hosts"
                  % (n1, len(ATOMS1), len(HOSTS)), itertools.product(hosts, range(len(ATOMS1))),
                  gen_atoms(ATOMS1, n1)),
            Scope("characters%d" % n2, "all denotable patterns of <=%d atoms over %d kinds, in %d hosts"
                  % (n2, len(ATOMS2), len(HOSTS)), itertools.product(hosts, range(len(ATOMS2))),
                  gen_atoms(ATOMS2, n2)),
            Scope("expressions", "every expression of two levels alone, in text and as selector",
                  chunks(range(len(exprs())), 32), gen_exprs),
            Scope("entries3", "all resources of <=3 entries from %d" % len(pool), range(len(pool)), gen_entries),
            Scope("wraps", "patterns wrapped in every sequence of selects, placeables and lines, depth <=%d"
                  % (4 if tier == "quick" else 5), [[i] for i in range(len(WRAPS))], gen_wraps),
            Scope("trees", "%d generated trees" % len(G.all_trees()), chunks(range(len(G.all_trees())), 8), gen_all),
            Scope("edits", "parsed trees with every pattern, entry, attribute, comment or variant replaced, removed, "
                  "added or moved", chunks(range(len(G.all_trees())), 64), gen_edit),
            docs.codepoints(docs.BMP_QUICK if tier == "quick" else docs.ALL_CP, "codepoints", CP_CTX),
            docs.scale(tier != "quick"), docs.runs([40] if tier == "quick" else [3, 17, 40, 130]), docs.outer(),
        ]

    def run_case(self, scope, case):
        if isinstance(case, str):
            # the tree that this source denotes, built from nothing
            tree = ftlref.expected(case, False)
            case = (tree[0], tuple(e for e in tree[1] if e[0] != "Junk" and all(map(denotable, patterns(e)))
                                   and not stray_cr(e)), tree[2])
        case = tuplify(case)
        if case[0] == "edit":
            # apply the edit to the parsed tree, with public operations only
            src = G.render(G.all_trees()[case[1]])[0]
            node = FluentParser().parse(src)
            want = G.all_trees()[case[1]]
            node, want = apply_edit(node, want, case[2])
        else:
            want = case
            node = build(case)
        if scope.startswith(("patterns", "characters", "wraps")):
            src = G.render(want)[0]
            if ftlref.expected(src, False) != want:
                raise HarnessError("not denotable: %r printed as %r" % (want, src))
        if not scope.startswith(("patterns", "characters", "edits")):
            text = FluentSerializer().serialize(node)
            for make in (build_sparse, build_late):
                other = make(want)
                if ftlref.dump(other, False) != ftlref.dump(node, False):
                    raise Violation("%s gives another tree: %s" % (make.__doc__, diff(ftlref.dump(other, False), ftlref.dump(node, False))))
                if FluentSerializer().serialize(other) != text:
                    raise Violation("%s gives another text" % make.__doc__)
        before = ftlref.dump(node)
        text = FluentSerializer().serialize(node)
        if ftlref.dump(node) != before:
            raise Violation("serializing changed the tree")
        again = PARSER.parse(text)
        if any(isinstance(e, FTL.Junk) for e in again.body):
            raise Violation("serialized as %r, which has junk" % text)
        got = ftlref.dump(again, False)
        if got != want:
            raise Violation("serialized as %r: %s" % (text, diff(got, want)))
        return ftlref.shape(want)


def paths(t, k):
    """Paths of all nodes of type k."""
    out = []

    def go(x, path):
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str) and x[0] in ftlref.FIELDS:
                if x[0] == k:
                    out.append(path)
                for f, y in zip(ftlref.FIELDS[x[0]], x[1:-1]):
                    go(y, path + (f,))
            else:
                for i, y in enumerate(x):
                    go(y, path + (i,))
    go(t, ())
    return out


def edits(tree, pats):
    for p in paths(tree, "Pattern"):
        for q in pats:
            yield ["set", list(p), q]
    body = tree[1]
    for i in range(len(body)):
        yield ["del", ["body", i]]
        yield ["ins", ["body", i], G.comment("new\n\nc")]
        yield ["ins", ["body", i], G.message("new", G.pat("x\ny"))]
        if i:
            yield ["swap", ["body", i]]
        e = body[i]
        if e[0] in ("Message", "Term"):
            yield ["set", ["body", i, "comment"], None]
            yield ["set", ["body", i, "comment"], G.comment("n\n#\nm")]
            yield ["ins", ["body", i, "attributes", 0], G.attr("new", G.pat("p\n  q\nr"))]
            if e[2] is not None and e[3]:
                yield ["del", ["body", i, "attributes", 0]]
                if e[0] == "Message":
                    yield ["set", ["body", i, "value"], None]
            if e[0] == "Message" and e[2] is None:
                yield ["set", ["body", i, "value"], G.pat("  x\ny")]
    yield ["ins", ["body", len(body)], G.termdef("new", G.pat(S))]
    for p in paths(tree, "Variant"):
        yield ["ins", list(p), ("Variant", G.n("-1.0"), G.pat("n\n\n e"), False, None)]
    for p in paths(tree, "CallArguments"):
        yield ["set", list(p), G.args([G.pl(G.var("v")), G.s("\\\\")], [("z", G.s("\\\""))])]
    for p in paths(tree, "Identifier"):
        if p[-2:] != ("id", "x") and "arguments" not in p:
            pass


def apply_edit(node, tree, edit):
    op, path = edit[0], edit[1]
    new = edit[2] if len(edit) > 2 else None

    def step(n, k):
        return n[k] if isinstance(k, int) else getattr(n, k)
    host = node
    for k in path[:-1]:
        host = step(host, k)
    k = path[-1]
    if op == "set":
        if isinstance(k, int):
            host[k] = build(new)
        else:
            setattr(host, k, build(new))
    elif op == "del":
        del host[k]
    elif op == "ins":
        host.insert(k, build(new))
    elif op == "swap":
        host[k - 1], host[k] = host[k], host[k - 1]

    def rec(t, path):
        k = path[0]
        if isinstance(k, int):
            if len(path) == 1:
                items = list(t)
                if op == "set":
                    items[k] = new
                elif op == "del":
                    del items[k]
                elif op == "ins":
                    items.insert(k, new)
                else:
                    items[k - 1], items[k] = items[k], items[k - 1]
                return tuple(items)
            return t[:k] + (rec(t[k], path[1:]),) + t[k + 1:]
        i = ftlref.FIELDS[t[0]].index(k) + 1
        return t[:i] + (new if len(path) == 1 else rec(t[i], path[1:]),) + t[i + 1:]
    return node, rec(tree, list(path))


CHECK = C08()
