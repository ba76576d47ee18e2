"""C04: spans point at exactly the source text of each node."""
from .. import astgen, docs, ftlref
from ..core import Check, Violation
from ..syn import diff
from fluent.syntax import FluentParser

OPEN = {"Placeable": "{", "StringLiteral": '"', "VariableReference": "$", "TermReference": "-", "CallArguments": "(",
        "Attribute": ".", "Term": "-#", "Comment": "#", "GroupComment": "#", "ResourceComment": "#", "Variant": "[*"}
CLOSE = {"Placeable": "}", "StringLiteral": '"', "CallArguments": ")"}


def squash(s):
    return s.replace("\r", "").replace("\n", "").replace(" ", "")


class C04(Check):
    id = "C04"

    def scopes(self, tier):
        return docs.standard(tier, 1) + astgen.layout_scopes(tier)

    def run_case(self, scope, case):
        source = case if isinstance(case, str) else case[0]
        tree = ftlref.dump(FluentParser().parse(source))
        want = ftlref.expected(source)
        if tree != want:
            # only spans are this property's business
            if ftlref.strip(tree) != ftlref.strip(want):
                if any(e[0] == "Junk" for e in want[1]):
                    self.invariants(source, tree)
                    return "tree differs (C02/C03/C06)"
                self.invariants(source, tree)
                return "tree differs (C02)"
            if mask(tree) != mask(want):
                raise Violation(diff(tree, want))
        self.invariants(source, tree)
        return ftlref.shape(tree)

    def invariants(self, src, tree):
        last = 0
        if tree[-1] != (0, len(src)):
            raise Violation("resource span %r for %d characters" % (tree[-1], len(src)))
        for e in tree[1]:
            a, b = self.span(e)
            if a < last:
                raise Violation("entry %r begins before the end of the previous one (%d)" % (e, last))
            self.blank(src[last:a])
            self.node(src, e, 0, len(src))
            last = b
        self.blank(src[last:])
        for e in tree[1]:
            a, b = self.span(e)
            if e[0] == "Junk":
                continue
            again = FluentParser(with_spans=False).parse(src[a:b])
            again = ftlref.dump(again, False)[1]
            if again != (ftlref.strip(e),):
                raise Violation("the slice %r of %r parses to %r" % (src[a:b], e, again))

    def blank(self, s):
        if s.replace("\r\n", "\n").strip(" \n"):
            raise Violation("text between entries is not blank: %r" % s)

    def span(self, n):
        if n[-1] is None:
            raise Violation("no span on %r" % (n,))
        return n[-1]

    def node(self, src, n, lo, hi):
        a, b = self.span(n)
        if not (lo <= a <= b <= hi):
            raise Violation("span %r of %r outside of its parent's (%d, %d)" % (n[-1], n, lo, hi))
        text = src[a:b]
        k = n[0]
        if k in OPEN and (not text or text[0] not in OPEN[k]):
            raise Violation("%s slice %r" % (k, text))
        if k in CLOSE and not text.endswith(CLOSE[k]):
            raise Violation("%s slice %r" % (k, text))
        if k in ("Identifier", "NumberLiteral") and text != n[1]:
            raise Violation("%s %r has the slice %r" % (k, n[1], text))
        if k == "StringLiteral" and text != '"' + n[1] + '"':
            raise Violation("string %r has the slice %r" % (n[1], text))
        if k == "Junk" and text != n[1]:
            raise Violation("junk %r has the slice %r" % (n[1], text))
        if k == "TextElement" and not squash(text).startswith(squash(n[1])):
            raise Violation("text %r has the slice %r" % (n[1], text))
        if k.endswith("Comment"):
            mark = "#" * (("Comment", "GroupComment", "ResourceComment").index(k) + 1)
            ls = [x[len(mark):] for x in text.replace("\r\n", "\n").split("\n")]
            if "\n".join(x[1:] for x in ls) != n[1]:
                raise Violation("comment %r has the slice %r" % (n[1], text))
        if k in ("MessageReference", "FunctionReference", "SelectExpression", "NamedArgument", "Message", "Pattern"):
            first = n[1]
            if k == "Message" and n[4] is not None:
                first = n[4]
            if k != "Pattern" and first[-1] and first[-1][0] != a:
                raise Violation("%s does not begin with its first part" % k)
        # children in source order
        kids = []
        for x in n[1:-1]:
            if isinstance(x, tuple) and x:
                if isinstance(x[0], str) and x[0] in ftlref.FIELDS:
                    kids.append(x)
                else:
                    kids.extend(y for y in x if isinstance(y, tuple) and y and y[0] in ftlref.FIELDS)
        if k in ("Message", "Term"):
            kids.sort(key=lambda x: 0 if x[0] == "Comment" else 1)
        at = a
        for x in kids:
            s = self.span(x)
            if k != "Junk" and s[0] < at:
                raise Violation("%s overlaps or precedes its sibling in %s: %r" % (x[0], k, n))
            self.node(src, x, a, b)
            at = s[1]


def mask(tree):
    return ("Resource", tuple(("Junk", e[1], (), e[-1]) if e[0] == "Junk" else e for e in tree[1]), tree[-1])


CHECK = C04()
