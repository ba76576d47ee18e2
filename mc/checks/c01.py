"""C01: parsing is total, terminating and a pure function of the text."""
from .. import docs, ftlref
from ..core import Check, Scope, Violation, chunks, strings
from ..syn import full, parts
from fluent.syntax import FluentParser, parse
from fluent.syntax import ast as FTL

# parsers that live as long as the worker and see every document
SHARED = {True: FluentParser(), False: FluentParser(with_spans=False)}


def pair_docs():
    out = list(docs.CORPUS)
    out += ["", "\n", "a", "a = {", "a = { \"", "# c", "# c\na", "a = b\n .c = {", "-t", "a = { $v ->\n", "a = { F(",
            "a = x\n  y", "a = x\n      y\n   z", "a =\n  {1}", "\r\n", "a = { -t(", "### r", "a = { 1 ->\n *[o] x\n", "}",
            "a = b\\", "a = {\"\\u00", "##", "a = b\r", "\u2028", "a = { { {", "[[", "//"]
    return out


PAIRS = pair_docs()


class C01(Check):
    id = "C01"
    findings = {
        "deep-nesting": lambda case, msg: "RecursionError" in msg and isinstance(case, str)
        and max(case.count(x) for x in "{(") >= 100,
    }
    assumptions = ["termination is decided by a 20 s limit per document"]

    def scopes(self, tier):
        deep = [75, 100, 150, 250, 400, 1000] + ([3000, 10000] if tier == "thorough" else [])
        big = [2000, 20000] if tier == "quick" else [2000, 20000, 60000]

        def gen_pairs(block):
            for i in block:
                for j in range(len(PAIRS)):
                    yield [PAIRS[i], PAIRS[j]]

        def gen_deep(block):
            yield from docs.nest_docs(block)

        def gen_big(block):
            for n in block:
                for t in ("a", "\n", " ", "#", "{", "\r\n", "a\n", " a\n", "# \n", "!\n", "\r", "a=b\n", "\\", '"', "[",
                          "{}", ".", "-", "a = {1}\n", "\u2028"):
                    if t in ("{", "{}") and n > 2000:
                        continue
                    yield t * n
                yield 'a = { "' + "x" * n
                yield "a = " + "x" * n
                yield "a = { F(" + "1," * n
                yield "# " + "c" * n + "\n# d"
                yield "a =\n" + " x\n\n" * n
        return docs.standard(tier, 1) + [
            Scope("reuse", "all ordered pairs of %d documents through one parser" % len(PAIRS),
                  chunks(range(len(PAIRS)), 16), gen_pairs),
            Scope("deep", "nesting depths %s" % deep, [[d] for d in deep], gen_deep),
            Scope("big", "25 uniform texts of %s items" % big, [[b] for b in big], gen_big),
        ]

    def run_case(self, scope, case):
        if scope == "reuse":
            return self.pair(*case)
        outcome = []
        fresh = {True: FluentParser(), False: FluentParser(with_spans=False)}
        for spans in (True, False):
            # with the other kind of parser made, and used, in between
            tree = fresh[spans].parse(case)
            if type(tree) is not FTL.Resource:
                raise Violation("parse returned %r" % (tree,))
            if (tree.span is None) == spans and tree.body:
                raise Violation("a parser with with_spans=%s gives the span %r" % (spans, tree.span))
            value = full(tree)
            again = SHARED[spans].parse(case)
            if full(again) != value:
                raise Violation("a reused parser (spans=%s) gives another tree:\n%r\nfresh:\n%r"
                                % (spans, full(again), value))
            entry = FluentParser(with_spans=spans).parse_entry(case)
            if not isinstance(entry, (FTL.Entry, FTL.Junk)):
                raise Violation("parse_entry returned %r" % (entry,))
            if full(SHARED[spans].parse_entry(case)) != full(entry):
                raise Violation("a reused parser gives another entry")
            if scope in ("truncations", "edits1", "nesting"):
                ids = set(map(id, parts(tree)))
                mine = parts(tree)
                if len(ids) != len(mine):
                    raise Violation("a node or list occurs twice in one tree")
                for p in parts(again):
                    if id(p) in ids:
                        raise Violation("two trees share %r" % (p,))
            if spans:
                outcome = [type(e).__name__ for e in tree.body]
        return outcome

    def pair(self, a, b):
        for spans in (True, False):
            p = FluentParser(with_spans=spans)
            ta = p.parse(a)
            va = full(ta)
            ea = p.parse_entry(a)
            vea = full(ea)
            tb = p.parse(b)
            eb = p.parse_entry(b)
            if full(ta) != va or full(ea) != vea:
                raise Violation("parsing %r changed the tree of %r" % (b, a))
            if full(tb) != full(parse(b, with_spans=spans)):
                raise Violation("after %r, %r parses differently" % (a, b))
            if full(eb) != full(FluentParser(with_spans=spans).parse_entry(b)):
                raise Violation("after %r, the entry %r parses differently" % (a, b))
            seen = set()
            for t in (ta, ea, tb, eb):
                for x in parts(t):
                    if id(x) in seen:
                        raise Violation("separately parsed trees share %r" % (x,))
                    seen.add(id(x))
        return (ftlref.shape(ftlref.dump(tb, False)))


CHECK = C01()
