"""C03: a syntax error costs its own entry and nothing else."""
import itertools

from .. import docs, ftlref
from ..core import Check, Scope, Violation, chunks
from ..syn import diff
from fluent.syntax import FluentParser

GOOD = ["g%d = v\n", "-g%d = t\n  .a = x\n", "# c\ng%d = v\n", "# s%d\n\n", "## g%d\n", "g%d =\n  a\n  { $b }\n"]
BAD = ["b%d\n", "b%d =\n", "-b%d\n", "b%d = {\n", 'b%d = { "x\n', "b%d = { $v ->\n [x] y\n}\n", "b%d = }\n",
       "b%d = { F(\n  1\n", "#b%d\n", "// b%d\n", "[[ b%d ]]\n", " b%d = x\n", "!%d\n\n\n", "b%d = v\n .a\n",
       "b%d = v\n  .a = {\n  .c = d\n", "b%d = { $v ->\n  *[a] x\n  *[b] y\n}\n", "b%d = { \"\\x\" }\n -c = d\n",
       "b%d = { m.a ->\n *[x] y\n }\n  # d\n", "b%d = { -t.a }\n\n\n  z\n", "-b%d =\n  .a = x\n", "b%d = {\r\n \r\n"]
SEP = ["", "\n"]


def mask(tree):
    return tuple(("Junk", e[1], e[-1]) if e[0] == "Junk" else e for e in tree[1])


class C03(Check):
    id = "C03"

    def scopes(self, tier):
        n = 3 if tier == "quick" else 4
        vocab = [("g", i) for i in range(len(GOOD))] + [("b", i) for i in range(len(BAD))]

        def gen(first):
            for k in range(0, n):
                for t in itertools.product(range(len(vocab)), repeat=k):
                    seq = [vocab[i] for i in (first,) + t]
                    if all(x == "g" for x, _ in seq):
                        continue
                    for sep in SEP:
                        d = sep.join((GOOD if x == "g" else BAD)[i] % j for j, (x, i) in enumerate(seq))
                        yield d
                        yield d[:-1]
        return docs.standard(tier, 1) + [
            Scope("mix%d" % n, "all sequences of <=%d entries from %d good and %d bad ones, with and without blank "
                  "lines and final line end" % (n, len(GOOD), len(BAD)), range(len(vocab)), gen)]

    def run_case(self, scope, case):
        got = FluentParser().parse(case)
        want = mask(ftlref.expected(case))
        tree = mask(ftlref.dump(got))
        if not any(e[0] == "Junk" for e in want) and not any(e[0] == "Junk" for e in tree):
            return None
        if tree != want:
            raise Violation(diff(tree, want))
        out = []
        for e in want:
            if e[0] == "Junk":
                if case[e[2][0]:e[2][1]] != e[1]:
                    raise Violation("junk %r is not the text at its span" % (e,))
                if not e[1] and case:
                    raise Violation("empty junk")
                out.append("!%d" % e[1].count("\n"))
            else:
                out.append(e[0])
        # the text without the junk parses to the other entries
        if len(want) > 1 and scope.startswith("mix"):
            rest = "".join(case[e[-1][0]:e[-1][1]] + "\n\n" for e in want if e[0] != "Junk")
            alone = ftlref.dump(FluentParser(with_spans=False).parse(rest), False)[1]
            if alone != tuple(ftlref.strip(e) for e in tree if e[0] != "Junk"):
                raise Violation("entries differ without the junk:\n%r\n%r" % (alone, tree))
        return out


CHECK = C03()
