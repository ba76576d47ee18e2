"""C10: clones are deep and equality is structural."""
from .. import docs, ftlref, trees
from ..core import Check, Scope, Violation, chunks
from ..syn import build, diff, fields, full, is_node, kind, nodes, parts
from .c02 import tuplify
from fluent.syntax import FluentParser
from fluent.syntax import ast as FTL

IGNORES = [[], ["span"], ["comment"], ["value"], ["span", "attributes"], ["name", "span"], ["elements", "body"],
           ["annotations"], ["default", "key"], ["content", "span"], ["span", "value", "id", "arguments"]]


# values of a field; strings starting with = stand for what can't be in JSON
VALUES = ["=None", "", "x", "=False", "=True", "=[]", "=[None]", "=['x']", "=FTL.Identifier('x')", "=FTL.Identifier('')", "=FTL.TextElement('x')",
          "=[FTL.Identifier('x')]", "=[FTL.Identifier('x'), FTL.Identifier('x')]", "=[FTL.Identifier('y')]", "=FTL.Comment('')", "=FTL.Comment(None)", "=FTL.Comment('x')", "=FTL.GroupComment('x')"]


# alike after stripping, folding, normalizing, unescaping or converting
TEXTS = ["caf\u00e9", "cafe\u0301", "CAF\u00c9", "cafe", "\u212b", "\u00c5", "A\u030a", "\ufb01", "fi", "\u2160", "I", "i", "\u0131", "\u0130", "i\u0307", "ss", "\u00df", "SS", "\u1e9e",
         "\uff11", "1", "1.0", "1.00", "01", "+1", "\u0661", "\u00b9", " a", "a ", "a", "a\n", "\na", "a\r\n", "a\u00a0", "a\u200b", "\ufeffa", "a\tb", "a b", "a  b", "a\nb", "a\r\nb", "a\rb", "\\u0061",
         "\\U000061", "\\\\", "\\", "\\\"", "\"", "&amp;", "&", "a\0", "a\0b", "\ud800", "\udc00", "?", "\ufffd", "\U0001f600", "\ud83d\ude00", "-a", "a-", "\u2010", "-", "\u2019", "'", "\u0430",
         "a" * 100, "a" * 101, "None", "[]", "True"]


def value_of(v):
    return eval(v[1:], {"FTL": FTL}) if v.startswith("=") else v


def same(a, b, ignored):
    """Structural comparison of reference tuples (spans as (start, end))."""
    if trees.is_node(a) and trees.is_node(b):
        if a[0] != b[0]:
            return False
        for f, x, y in zip(ftlref.FIELDS[a[0]], a[1:-1], b[1:-1]):
            if f not in ignored and not same(x, y, ignored):
                return False
        return "span" in ignored or a[-1] == b[-1]
    if trees.is_node(a) or trees.is_node(b):
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y, ignored) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def reference(t):
    return t


def compare(a, b, ta, tb, ignored):
    args = [] if ignored is None else [ignored]
    r1, r2 = a.equals(b, *args), b.equals(a, *args)
    want = same(ta, tb, ["span"] if ignored is None else ignored)
    if r1 is not want or r2 is not want:
        raise Violation("equals(%s) gives %r and %r, expected %r, for\n%r\n%r" % (ignored, r1, r2, want, ta, tb))
    return want


def with_tuples(x, every, level=0):
    for f in fields(x):
        v = getattr(x, f)
        for y in v if isinstance(v, list) else [v]:
            if is_node(y):
                with_tuples(y, every, level + 1)
        if isinstance(v, list) and v and level % every == 0:
            setattr(x, f, tuple(v))


def exact(x):
    """A tree's value, types of containers included."""
    if is_node(x):
        return (kind(x),) + tuple([exact(getattr(x, f)) for f in fields(x)])
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [exact(y) for y in x]
    return (type(x).__name__, x)


class C10(Check):
    id = "C10"

    def scopes(self, tier):
        pool = trees.pool()
        step = 2 if tier == "quick" else 1
        subs = []
        have = set()
        for t in pool:
            for s in trees.subtrees(t):
                k = ftlref.strip(s) if len(subs) % 2 else s
                if k not in have and trees.node_count(s) <= 6:
                    have.add(k)
                    subs.append(s)
        subs = subs[:400 if tier == "quick" else 1200]

        def gen_clone(block):
            for i in block:
                yield ["clone", pool[i]]

        def gen_edit(block):
            for i in block:
                for what, t in trees.single_edits(pool[i]):
                    yield ["pair", pool[i], t]

        def gen_pairs(block):
            for i in block:
                for j in range(i, len(subs)):
                    yield ["pair", subs[i], subs[j]]

        def gen_extra(block):
            for i in block:
                for k in range(min(trees.node_count(pool[i]), 12)):
                    yield ["extra", pool[i], k]

        def gen_ctor(block):
            yield ["ctor"]

        def gen_fields(block):
            for name in block:
                for k in range(len(ftlref.FIELDS[name])):
                    for v in VALUES:
                        for w in VALUES:
                            for where in range(3):
                                yield ["field", name, k, v, w, where]
        def gen_texts(block):
            for name in block:
                for k in range(len(ftlref.FIELDS[name])):
                    for v in TEXTS:
                        for w in TEXTS:
                            yield ["field", name, k, v, w, 0]
        n = len(pool)
        return [
            Scope("clones", "%d trees: clone, then every part of clone and original" % n, chunks(range(n), 32), gen_clone),
            Scope("tuples", "%d trees with tuples in place of lists, at all or at every other level: clones" % n, chunks(range(n), 16), lambda b: (["tuples", pool[i], m] for i in b for m in (1, 2))),
            Scope("edits", "every single edit of every %dth tree, compared both ways under %d ignore lists"
                  % (step, len(IGNORES) + 1), chunks(range(0, n, step), 96), gen_edit),
            Scope("pairs", "all pairs of %d subtrees of <=6 nodes" % len(subs), chunks(range(len(subs)), 64), gen_pairs),
            Scope("extra-fields", "every tree, a further field on each of its first 12 nodes", chunks(range(n), 32), gen_extra),
            Scope("fields", "every field of every node type with every pair of %d values, the node alone, in a list and in a field" % len(VALUES), chunks(sorted(ftlref.FIELDS), 16), gen_fields),
            Scope("texts", "every field of every node type with every pair of %d texts that look or fold alike" % len(TEXTS), chunks(sorted(ftlref.FIELDS), 16), gen_texts),
            Scope("constructors", "every node type with its optional parts left out", [0], gen_ctor),
            docs.truncations(), docs.lines(2, name="lines2"),
        ]

    def run_case(self, scope, case):
        if isinstance(case, str):
            return self.clone(FluentParser().parse(case))
        case = tuplify(case)
        if case[0] == "clone":
            return self.clone(build(case[1]))
        if case[0] == "ctor":
            return self.ctor()
        if case[0] == "tuples":
            return self.tuples(*case[1:])
        if case[0] == "field":
            return self.field(*case[1:])
        if case[0] == "extra":
            return self.further(case[1], case[2])
        ta, tb = case[1], case[2]
        a, b = build(ta), build(tb)
        va, vb = full(a), full(b)
        out = [compare(a, b, ta, tb, None)]
        for ign in IGNORES:
            arg = list(ign)
            out.append(compare(a, b, ta, tb, arg))
            if arg != ign:
                raise Violation("equals changed the list of ignored fields")
        if (full(a), full(b)) != (va, vb):
            raise Violation("equals changed a tree")
        return out

    def clone(self, tree):
        value = full(tree)
        ref = ftlref.dump(tree)
        twin = tree.clone()
        if full(twin) != value:
            raise Violation("clone: " + diff(full(twin), value))
        for f in (None, [], ["span"]):
            compare(tree, twin, ref, ref, f)
            compare(tree, tree, ref, ref, f)
        mine = {id(p): p for p in parts(tree)}
        for p in parts(twin):
            if id(p) in mine:
                raise Violation("the clone shares %r" % (p,))
        # every edit of a part of the clone leaves the original alone
        for p in parts(twin):
            if isinstance(p, list):
                p.append("edited")
                p.reverse()
            else:
                for name in vars(p):
                    if not isinstance(getattr(p, name), list):
                        setattr(p, name, "edited")
        if full(tree) != value:
            raise Violation("editing the clone changed the original")
        return ftlref.shape(ref)

    def tuples(self, t, every):
        """Containers keep their type."""
        tree = build(t)
        with_tuples(tree, every)
        want = exact(tree)
        twin = tree.clone()
        if exact(twin) != want:
            raise Violation("clone: %r, should be %r" % (exact(twin), want))
        mine = {id(p) for p in parts(tree) if p != ()}
        for p in parts(twin):
            if id(p) in mine:
                raise Violation("the clone shares %r" % (p,))
        if exact(tree) != want:
            raise Violation("cloning changed the tree")
        return every

    def further(self, t, k):
        """A field that only one of the trees has."""
        a, b, c = build(t), build(t), build(t)
        for x, value in ((b, "x"), (c, "y")):
            nodes(x, False)[k].further = value
        for x, y in ((a, b), (b, a), (b, c), (c, b)):
            for ignored, want in ((None, False), ([], False), (["further"], True), (["span", "further"], True)):
                if x.equals(y, *([] if ignored is None else [ignored])) is not want:
                    raise Violation("equals(%s) is %r for trees that differ in a further field of node %d" % (ignored, not want, k))
        return k

    def field(self, name, k, v, w, where):
        """Two nodes that differ in one field only."""
        def make(value):
            node = getattr(FTL, name).__new__(getattr(FTL, name))
            for f in ftlref.FIELDS[name]:
                setattr(node, f, "other")
            node.span = None
            setattr(node, ftlref.FIELDS[name][k], value_of(value))
            return [node, FTL.Resource([FTL.Comment("x"), node]), FTL.Placeable(FTL.Placeable(node))][where]
        a, b = make(v), make(w)
        f = ftlref.FIELDS[name][k]
        # the field's name may also be one of the nodes around it
        for ignored, want in ((None, v == w), ([], v == w), ([f], True), ([f, "span"], True), (["span"], v == w), (["nothing"], v == w)):
            args = [] if ignored is None else [ignored]
            if a.equals(b, *args) is not want or b.equals(a, *args) is not want:
                raise Violation("%s.%s %r and %r: equals(%s) gives %r and %r" % (name, f, v, w, ignored, a.equals(b, *args), b.equals(a, *args)))
        return v == w

    def ctor(self):
        i = FTL.Identifier("i")
        makers = [
            lambda: FTL.Resource(), lambda: FTL.Message(i), lambda: FTL.Term(i, FTL.Pattern([])),
            lambda: FTL.CallArguments(), lambda: FTL.Junk(), lambda: FTL.Annotation("E0001"),
            lambda: FTL.Pattern([]), lambda: FTL.SelectExpression(i, []), lambda: FTL.MessageReference(i),
            lambda: FTL.TermReference(i), lambda: FTL.Comment(), lambda: FTL.Variant(i, FTL.Pattern([])),
        ]
        for m in makers:
            a, b = m(), m()
            if not a.equals(b) or not a.equals(b, ignored_fields=[]):
                raise Violation("two fresh %s differ" % type(a).__name__)
            for name, v in vars(a).items():
                w = getattr(b, name)
                if isinstance(v, list):
                    if v is w:
                        raise Violation("%s.%s is one list for all instances" % (type(a).__name__, name))
                    v.append("edited")
                    if getattr(m(), name) != []:
                        raise Violation("%s.%s remembers edits" % (type(a).__name__, name))
        j = FTL.Junk("x")
        j.add_annotation(FTL.Annotation("E1"))
        if FTL.Junk("x").annotations:
            raise Violation("add_annotation shows in another Junk")
        return "ok"


CHECK = C10()
