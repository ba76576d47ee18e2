"""C05: line-ending style and the span option never change the tree."""
import itertools

from .. import astgen, docs, ftlref
from ..core import Check, Violation
from ..syn import diff, nodes
from fluent.syntax import FluentParser


def assignments(doc, full):
    """Texts that differ from doc (LF only) in line ends."""
    parts = doc.split("\n")
    n = len(parts) - 1
    if n == 0:
        return
    if n <= full:
        choices = itertools.product(("\n", "\r\n"), repeat=n)
    else:
        choices = [["\r\n"] * n]
        choices += [["\r\n" if j == i else "\n" for j in range(n)] for i in range(min(n, 8))]
        choices += [["\n" if j == i else "\r\n" for j in range(n)] for i in range(min(n, 8))]
        choices += [["\r\n" if j % 2 == i else "\n" for j in range(n)] for i in (0, 1)]
    for c in choices:
        out = [parts[0]]
        for e, p in zip(c, parts[1:]):
            out.append(e)
            out.append(p)
        s = "".join(out)
        if s != doc:
            yield s


def plain(tree):
    """Spans dropped, line ends in junk unified."""
    t = ftlref.strip(tree)
    return tuple(("Junk", e[1].replace("\r\n", "\n"), e[2], None) if e[0] == "Junk" else e for e in t[1])


class C05(Check):
    id = "C05"

    def scopes(self, tier):
        self.full = 3 if tier == "quick" else 6
        return docs.standard(tier, 2) + astgen.layout_scopes("quick" if tier == "thorough" else "single")

    def run_case(self, scope, case):
        doc = case if isinstance(case, str) else case[0]
        spans = FluentParser().parse(doc)
        on = ftlref.dump(spans)
        bare = FluentParser(with_spans=False).parse(doc)
        off = ftlref.dump(bare)
        if ftlref.strip(on) != ftlref.strip(off):
            raise Violation("spans on/off: " + diff(ftlref.strip(off), ftlref.strip(on)))
        for n in nodes(bare):
            if n.span is not None:
                raise Violation("a %s has a span with spans off" % type(n).__name__)
        for n in nodes(spans, spans=False):
            if n.span is None:
                raise Violation("a %s has no span with spans on" % type(n).__name__)
        lf = doc.replace("\r\n", "\n")
        if "\r\n" in lf:
            # a lone CR before CRLF: the same text in LF would end in another CRLF
            return None
        want = plain(off)
        todo = [lf] if lf != doc else []
        todo.extend(assignments(lf, self.full))
        for other in todo:
            if other == doc:
                continue
            got = plain(ftlref.dump(FluentParser(with_spans=False).parse(other)))
            if got != want:
                raise Violation("written as %r: %s" % (other, diff(got, want)))
        return len(todo), ftlref.shape(want)


CHECK = C05()
