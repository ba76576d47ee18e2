"""C02: sources parse to exactly the tree the grammar gives."""
from .. import astgen, docs, ftlref
from ..core import Check, HarnessError, Violation
from ..syn import diff
from fluent.syntax import FluentParser


def entries(tree):
    """The entries that are not junk; a marker for junk."""
    return tuple(e if e[0] != "Junk" else ("!",) for e in tree[1])


class C02(Check):
    id = "C02"

    def scopes(self, tier):
        return docs.standard(tier) + astgen.layout_scopes(tier)

    def run_case(self, scope, case):
        if isinstance(case, (list, tuple)):
            source, tree = case
            tree = tuplify(tree)
            if ftlref.expected(source, False) != tree:
                raise HarnessError("grammar reference and generator disagree on %r" % source)
        else:
            source = case
            tree = ftlref.expected(source, False)
        got = entries(ftlref.dump(FluentParser(with_spans=False).parse(source), False))
        want = entries(tree)
        if got != want:
            raise Violation(diff(got, want))
        return ftlref.shape(want)


def tuplify(x):
    if isinstance(x, (list, tuple)):
        return tuple([tuplify(y) for y in x])
    return x


CHECK = C02()
