"""C07: serializing a parsed resource and parsing it again loses nothing."""
from .. import astgen, docs, ftlref
from ..core import Check, Violation
from ..syn import diff
from .c03 import CHECK as MIX
from fluent.syntax import FluentParser, FluentSerializer
from fluent.syntax import ast as FTL

PARSER = FluentParser(with_spans=False)


def entries(tree):
    return tuple(e for e in ftlref.dump(tree, False)[1] if e[0] != "Junk")


def texts(t):
    """All text values and comments of a reference tree."""
    if isinstance(t, tuple):
        if t and t[0] in ("TextElement", "Comment", "GroupComment", "ResourceComment"):
            yield t[1]
        if t and t[0] == "Pattern" and not t[1]:
            yield None
        for x in t:
            yield from texts(x)


class C07(Check):
    id = "C07"
    findings = {
        "cr-before-line-end": lambda case, msg: any(
            x is not None and "\r\n" in x or x is not None and x.endswith("\r")
            for x in texts(ftlref.expected(source_of(case), False))),
        "only-cr": lambda case, msg: None in texts(ftlref.expected(source_of(case), False)),
    }

    def scopes(self, tier):
        return docs.standard(tier, 1) + astgen.layout_scopes("quick" if tier == "thorough" else "single") + \
            [s for s in MIX.scopes(tier) if s.name.startswith("mix")]

    def run_case(self, scope, case):
        doc = source_of(case)
        tree = FluentParser().parse(doc)
        before = ftlref.dump(tree)
        s1 = FluentSerializer().serialize(tree)
        if not isinstance(s1, str):
            raise Violation("serialize returned %r" % (s1,))
        again = PARSER.parse(s1)
        if any(isinstance(e, FTL.Junk) for e in again.body):
            raise Violation("the serialized text %r has junk" % s1)
        want = tuple(ftlref.strip(e) for e in before[1] if e[0] != "Junk")
        got = entries(again)
        if got != want:
            raise Violation("serialized as %r: %s" % (s1, diff(got, want)))
        s2 = FluentSerializer().serialize(again)
        if s2 != s1:
            raise Violation("not a fixed point:\n%r\n%r" % (s1, s2))
        junk = [e.content for e in tree.body if isinstance(e, FTL.Junk)]
        if junk:
            s3 = FluentSerializer(with_junk=True).serialize(tree)
            third = PARSER.parse(s3)
            if entries(third) != want:
                raise Violation("with junk kept, serialized as %r: %s" % (s3, diff(entries(third), want)))
            at = 0
            for c in junk:
                i = s3.find(c, at)
                if i < 0:
                    raise Violation("junk %r is not in %r" % (c, s3))
                at = i + len(c)
        elif FluentSerializer(with_junk=True).serialize(tree) != s1:
            raise Violation("with_junk changes a text without junk")
        # a serializer does not remember what it has serialized
        for kw, want_text in (({}, s1), ({"with_junk": True}, FluentSerializer(with_junk=True).serialize(tree))):
            one = FluentSerializer(**kw)
            for prior in PRIOR:
                try:
                    one.serialize(prior)
                except Exception:
                    if prior is not BROKEN:
                        raise
                if one.serialize(tree) != want_text:
                    raise Violation("a serializer used before gives %r, a new one %r" % (one.serialize(tree), want_text))
            if [one.serialize_entry(e) for e in tree.body if not isinstance(e, FTL.Junk)] != \
                    [FluentSerializer().serialize_entry(e) for e in tree.body if not isinstance(e, FTL.Junk)]:
                raise Violation("serialize_entry depends on what the serializer has done")
        if ftlref.dump(tree) != before:
            raise Violation("serializing changed the tree")
        # one entry at a time
        for e in tree.body:
            if not isinstance(e, FTL.Junk):
                one = PARSER.parse(FluentSerializer().serialize_entry(e))
                if ftlref.dump(one, False)[1] != (ftlref.strip(ftlref.dump(e)),):
                    raise Violation("serialize_entry does not round-trip %r" % (ftlref.dump(e, False),))
        return len(junk), ftlref.shape(want)


def source_of(case):
    return case if isinstance(case, str) else case[0]


# what a serializer has done before
BROKEN = FTL.Resource([FTL.Message(FTL.Identifier("a"), FTL.Pattern([FTL.TextElement("b"), FTL.Placeable(FTL.Identifier("no"))]))])
PRIOR = [PARSER.parse(t) for t in ("", "# c\n", "a = b\n", "junk {\n", "-t = { $x ->\n   *[o]\n        x\n        y\n    }\n    .a = { t }\n")]
PRIOR[3:3] = [BROKEN]
CHECK = C07()
