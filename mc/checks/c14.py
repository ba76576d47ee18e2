"""C14: entries parse independently of the entries around them."""
import itertools

from .. import docs, ftlref
from ..core import Check, Result, Scope, Violation, chunks
from ..syn import diff
from fluent.syntax import FluentParser
from .c03 import BAD, GOOD

SEPS = ["\n\n", "\r\n\r\n", "\n\n \n   \n"]
ENDS = ["a =", "a = {", "a = { $v ->", "a = { $v ->\n *[o] x", "a = { $v ->\n *[o] x\n", "a = { F(", "a = { F(x:",
        "a = { F(x: 1", 'a = { "x', "a = x\n .b", "a = x\n .b =", "a = x\n  .b = y", "a = x\n ", "a = x  ", "a = { 1 }",
        "a = { 1 } ", "a = { -t", "a = { -t.", "a = { -t(", "-a", "-a =", "-", "#", "# c", "## c", "### c", "##", "#c",
        "# c\n", "# c\n#", "### r\n# c", "!", "!\n", "a", "a.", "a .b = c", " ", "  a = b", "a = b\n\n  c",
        "a = { 1 ->\n  [x] y\n}", "a = { 1 ->\n *[", "a = { 1 ->\n *[x]", "a = { { 1", "a = }", "a =\n\n .b = c",
        "[[ s ]]", "// c", "a = { \"\\u00", "a = \u2028", "a = x\n\t", "-a = b\n .c = d\n .e", "a = { m.", "a = {}",
        "a = { F( 1, ", "a = { -t(x: 1)", "a = { 1 ->\n *[a] b\n *[c] d\n }", "# x\n ## y", "\ufeffa = b", "a = x\n# c"]
STARTS = ["b = c", "b =\n  c\n   d\n\n   e\n", "-b = c\n", "b =\n .a = x", "# x\nb = y\n", "# x", "## g\n", "### r\n\n# s\n",
          "b = { $v ->\n *[o] p\n}\n", "B = x\nb\n", "b = c\n!junk\nd = e\n", "b = c\n\n\n# d", "#\n#\nb = c\n", "# x\nb\n",
          "b = {1}{2}\n  z\n", "b = c\n[[ s ]]", "-b = { -b }\n  .b = { -b }\n", "b = x\r\n  y\r\nc = d\r\n", "# x\r\n# y\r\nb = z",
          'b = { "}" }', "b = x\n  .y = z\n", "# c\n\nb = c", "b = c\n  ", "#", "#\n", "b = {\n1\n}"]


def shift(x, d):
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0] in ftlref.FIELDS:
            out = [shift(y, d) for y in x[:-1]]
            if x[0] == "Annotation":
                out = list(x[:-1])
            s = x[-1]
            out.append(None if s is None else (s[0] + d, s[1] + d))
            return tuple(out)
        return tuple([shift(y, d) for y in x])
    return x


def entries(text, spans=True):
    return list(ftlref.dump(FluentParser(with_spans=spans).parse(text), spans)[1])


def starts_well(text):
    es = entries(text)
    return bool(es) and es[0][0] != "Junk" and es[0][-1][0] == 0


class C14(Check):
    id = "C14"
    assumptions = ["the first text does not end in a lone CR, which the joining LF would turn into CRLF"]

    def scopes(self, tier):
        thorough = tier == "thorough"
        firsts = list(dict.fromkeys(ENDS + docs.CORPUS + STARTS + docs.LINES + [g % 1 for g in GOOD] + [b % 1 for b in BAD]))
        firsts += [f[:-1] for f in firsts if f.endswith("\n")]
        firsts = [f for f in dict.fromkeys(firsts) if not f.endswith("\r")]
        if thorough:
            firsts += [a + "\n" + b for a in docs.LINES for b in docs.LINES if not b.endswith("\r")]
            firsts += [d[:k] for d in docs.CORPUS for k in range(1, len(d)) if d[k - 1] != "\r"]
        else:
            firsts += [d[:k] for d in docs.CORPUS[:9] for k in range(1, len(d), 2) if d[k - 1] != "\r"]
        firsts = list(dict.fromkeys(firsts))
        seconds = [s for s in dict.fromkeys(STARTS + docs.CORPUS + [g % 2 for g in GOOD]) if starts_well(s)]

        def gen_pairs(block):
            for i in block:
                for b in seconds:
                    for sep in SEPS:
                        yield ["join", [firsts[i], b], sep]
        small = [s for s in STARTS if starts_well(s)]
        f3 = ENDS + [g % 1 for g in GOOD]

        def gen_triples(block):
            for i in block:
                for b, c in itertools.product(small, repeat=2):
                    yield ["join", [f3[i], b, c], "\n\n"]
        out = [
            Scope("pairs", "%d first texts (incl. prefixes of the corpus) x %d second texts that begin with a "
                  "well-formed entry x %d separators, spans on and off" % (len(firsts), len(seconds), len(SEPS)),
                  chunks(range(len(firsts)), 128), gen_pairs),
            Scope("triples", "%d x %d x %d texts" % (len(f3), len(small), len(small)),
                  chunks(range(len(f3)), 64), gen_triples),
        ]
        counts = [10, 65, 129, 256, 257, 300] + ([3, 40, 64, 127, 128, 255, 511, 512, 513, 1000, 1024, 1025, 4097] if thorough else [])
        many = ["k = v\n", "-k = v\n    .a = b\n", "# c\n\n", "## g\n\n", "!j\n", "k = { $x ->\n *[o] y\n }\n", "# c\nk = v\r\n", "k = v\n\n"]

        def gen_many(block):
            for i, n in block:
                for b in small + [c for c in seconds[len(small):] if len(c) < 40]:
                    yield ["join", [many[i] * n, b], "\n\n"]
        out.append(Scope("many", "%d kinds of entry repeated %s times, followed by a blank line and another entry" % (len(many), "/".join(map(str, counts))),
                         [[(i, n)] for i in range(len(many)) for n in counts], gen_many))
        for s in docs.standard(tier, 2):
            s.name = "single-" + s.name
            out.append(s)
        return out

    def run_case(self, scope, case):
        if isinstance(case, str):
            return self.do_single(case)
        return self.do_join(*case[1:])

    def do_join(self, texts, sep):
        out = None
        for spans in (True, False):
            doc = sep.join(texts)
            got = entries(doc, spans)
            want, off = [], 0
            loose = set()
            for k, t in enumerate(texts):
                es = entries(t, spans)
                want += [shift(e, off) for e in es]
                off += len(t) + len(sep)
                if k + 1 < len(texts) and es and es[-1][0] == "Junk":
                    loose.add(len(want) - 1)
            if len(got) != len(want):
                raise Violation("%d entries, %d apart (%s)\n%r\n%r"
                                % (len(got), len(want), spans, [e[0] for e in got], [e[0] for e in want]))
            for i, (g, w) in enumerate(zip(got, want)):
                if i in loose:
                    if g[0] != "Junk" or not g[1].startswith(w[1]) or g[1][len(w[1]):].strip(" \r\n"):
                        raise Violation("junk at the end of a text: %r, alone %r" % (g, w))
                    continue
                if g != w:
                    raise Violation("entry %d (spans %s): %s" % (i, spans, diff(g, w)))
            out = tuple(e[0] for e in got)
        return out

    def do_single(self, text):
        out = None
        for spans in (True, False):
            e = ftlref.dump(FluentParser(with_spans=spans).parse_entry(text), spans)
            full = entries(text, spans)
            want = next((x for x in full if x[0] not in ("Comment", "GroupComment", "ResourceComment")), None)
            if want is None:
                if e[0] != "Junk":
                    raise Violation("parse_entry gives %r, the text has no entry" % (e,))
            else:
                if want[0] in ("Message", "Term") and want[4] is not None:
                    # without the comment, which the span then excludes
                    span = want[5]
                    if span is not None:
                        a = want[1][-1][0] - (want[0] == "Term")
                        span = (a, span[1])
                    want = want[:4] + (None, span)
                if e != want:
                    raise Violation("parse_entry (spans %s): %s" % (spans, diff(e, want)))
            out = e[0]
        return out


CHECK = C14()
