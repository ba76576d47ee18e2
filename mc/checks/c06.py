"""C06: every junk entry says what is wrong and where."""
from .. import docs, ftlref
from ..core import Check, Violation
from .c03 import BAD, GOOD  # noqa: F401
from fluent.syntax import FluentParser
from fluent.syntax import ast as FTL


class C06(Check):
    id = "C06"

    def scopes(self, tier):
        return docs.standard(tier, 1)

    def run_case(self, scope, case):
        tree = FluentParser().parse(case)
        want = {}
        for e in ftlref.expected(case)[1]:
            if e[0] == "Junk":
                want[e[3][0]] = e
        codes = []
        for e in tree.body:
            if not isinstance(e, FTL.Junk):
                if getattr(e, "annotations", None):
                    raise Violation("a %s has annotations" % type(e).__name__)
                continue
            if len(e.annotations) != 1:
                raise Violation("%d annotations on %r" % (len(e.annotations), e.content))
            a = e.annotations[0]
            if type(a.arguments) is not list:
                raise Violation("arguments are %r" % (a.arguments,))
            got = (a.code, tuple(a.arguments), a.message, (a.span.start, a.span.end))
            if not (e.span.start <= a.span.start == a.span.end <= e.span.end):
                raise Violation("position %d-%d outside of the junk %d-%d" % (
                    a.span.start, a.span.end, e.span.start, e.span.end))
            ref = want.get(e.span.start)
            if ref is None:
                # C03's business: other junk than the grammar gives
                codes.append("?")
                continue
            r = ref[2][0]
            exp = (r[1], r[2], r[3], r[4])
            if got != exp:
                raise Violation("junk %r: got %r, expected %r" % (e.content, got, exp))
            codes.append(a.code)
        # the same annotations from parse_entry, and without spans
        bare = FluentParser(with_spans=False).parse(case)
        for e, f in zip(tree.body, bare.body):
            if isinstance(e, FTL.Junk):
                a, b = e.annotations[0], f.annotations[0]
                if (a.code, a.arguments, a.message) != (b.code, b.arguments, b.message):
                    raise Violation("annotation differs without spans")
        return codes


CHECK = C06()
