"""C11: visitors reach every node once; transformers edit exactly what they say."""
import itertools

from .. import ftlref, trees
from ..core import Check, Result, Scope, Violation, chunks
from ..syn import build, diff, fields, full, is_node, kind
from .c02 import tuplify
from fluent.syntax import Transformer, Visitor
from fluent.syntax import ast as FTL

TYPES = [k for k in ftlref.FIELDS if k != "Annotation"] + ["Annotation", "Span"]
ABSTRACT = ["BaseNode", "SyntaxNode", "Entry", "PatternElement", "Expression", "Literal", "BaseComment", "object"]


def children(node):
    """Direct child nodes with the list they are in (or None)."""
    for f in fields(node):
        v = getattr(node, f)
        if isinstance(v, list):
            for x in v:
                if is_node(x):
                    yield x, v
        elif is_node(v):
            yield v, None


def order_of(root, stop):
    """Expected visits: list of (node, position constraints).  Nodes below a
    node whose type is in `stop` are not visited."""
    out = []

    def go(n):
        out.append(n)
        if kind(n) in stop:
            return
        for c, _ in children(n):
            go(c)
    go(root)
    return out


def make_visitor(log, handlers):
    """handlers: {type: "descend"|"stop"}"""
    ns = {}

    def generic(self, node):
        log.append(("generic", node))
        Visitor.generic_visit(self, node)
    ns["generic_visit"] = generic
    for t, action in handlers.items():
        def h(self, node, t=t, action=action):
            log.append((t, node))
            if action == "descend":
                # straight to the base class, so that the node is logged once
                Visitor.generic_visit(self, node)
        ns["visit_" + t] = h
    return type("V", (Visitor,), ns)()


def check_visit(root, handlers):
    log = []
    v = make_visitor(log, handlers)
    v.visit(root)
    stop = {t for t, a in handlers.items() if a == "stop"}
    want = order_of(root, stop)
    got = [n for _, n in log]
    ids = [id(n) for n in got]
    if sorted(ids) != sorted(map(id, want)):
        extra = [kind(n) for n in got if id(n) not in set(map(id, want))]
        missing = [kind(n) for n in want if id(n) not in set(ids)]
        raise Violation("handlers %r: visited %d nodes, expected %d; missing %r, extra %r"
                        % (handlers, len(got), len(want), missing[:5], extra[:5]))
    pos = {i: k for k, i in enumerate(ids)}
    for n in want:
        last = {}
        for c, lst in children(n):
            if id(c) not in pos:
                continue
            if pos[id(c)] < pos[id(n)]:
                raise Violation("%s visited before its parent %s" % (kind(c), kind(n)))
            if lst is not None:
                if pos[id(c)] < last.get(id(lst), -1):
                    raise Violation("siblings in %s visited out of order" % kind(n))
                last[id(lst)] = pos[id(c)]
    for name, n in log:
        exp = kind(n) if kind(n) in handlers else "generic"
        if name != exp:
            raise Violation("a %s was dispatched to %s" % (kind(n), name))
    return len(got)


# -- transformers ---------------------------------------------------------------

def fresh(t):
    """The replacement for a node of type t."""
    return FTL.Identifier("new-" + t) if t != "Identifier" else FTL.Identifier("new")


def make_transformer(handlers):
    ns = {}
    consts = {t: fresh(t) for t in handlers}
    for t, action in handlers.items():
        def h(self, node, t=t, action=action):
            if action == "const":
                # the same object for all
                return consts[t]
            if action == "remove":
                return None
            if action == "replace":
                return fresh(t)
            if action == "descend-replace":
                Transformer.generic_visit(self, node)
                return fresh(t)
            if action == "descend-remove":
                self.generic_visit(node)
                return None
            if action == "wrap":
                return FTL.Placeable(node)
            if action == "edit":
                node.marked = t
                return self.generic_visit(node)
            if action == "keep":
                return node
        ns["visit_" + t] = h
    return type("T", (Transformer,), ns)()


ACTIONS = ["remove", "replace", "descend-replace", "descend-remove", "wrap", "edit", "keep", "const"]


def model(node, handlers):
    """What the transformed tree looks like: nested values with object
    identities of the nodes and lists that stay."""
    a = handlers.get(kind(node))
    if a in ("remove", "descend-remove"):
        return None
    if a in ("replace", "descend-replace", "const"):
        return ("new", full(fresh(kind(node))))
    if a == "keep":
        return ("same", id(node), full_ids(node))
    if a == "wrap":
        return ("wrap", id(node), full_ids(node))
    marked = kind(node) if a == "edit" else None
    out = [id(node), marked]
    for f in fields(node):
        v = getattr(node, f)
        if isinstance(v, list):
            # only nodes can be removed; other items stay, whatever they are
            items = [(is_node(x), model(x, handlers) if is_node(x) else x) for x in v]
            out.append((f, id(v), [x for node, x in items if not node or x is not None]))
        elif is_node(v):
            out.append((f, model(v, handlers)))
        else:
            out.append((f, v))
    return ("edit", out)


def full_ids(x):
    if is_node(x):
        return [id(x), kind(x)] + [full_ids(getattr(x, f, "gone")) for f in fields(x)]
    if isinstance(x, list):
        return [id(x)] + [full_ids(y) for y in x]
    return x


def matches(m, x, path):
    """Compare the transformed value with the model."""
    if m is None:
        if x is not None:
            raise Violation("%s: expected nothing, got %r" % (path, x))
        return
    if not isinstance(m, tuple):
        if x != m:
            raise Violation("%s: expected %r, got %r" % (path, m, x))
        return
    if m[0] == "new":
        if not is_node(x) or full(x) != m[1]:
            raise Violation("%s: expected the returned node, got %r" % (path, x))
    elif m[0] == "same":
        if id(x) != m[1] or full_ids(x) != m[2]:
            raise Violation("%s: the node should have been left as it was" % path)
    elif m[0] == "wrap":
        if kind(x) != "Placeable" or id(x.expression) != m[1] or full_ids(x.expression) != m[2]:
            raise Violation("%s: expected the returned wrapper" % path)
    else:
        ident, marked = m[1][0], m[1][1]
        if id(x) != ident:
            raise Violation("%s: expected the same node, got %r" % (path, x))
        if getattr(x, "marked", None) != marked:
            raise Violation("%s: handler ran for %r, expected %r" % (path, getattr(x, "marked", None), marked))
        for item in m[1][2:]:
            v = getattr(x, item[0], None)
            p = path + "/" + item[0]
            if len(item) == 3:
                if id(v) != item[1]:
                    raise Violation("%s: the list was replaced, not edited in place" % p)
                if len(v) != len(item[2]):
                    raise Violation("%s: %d items, expected %d" % (p, len(v), len(item[2])))
                for k, (a, b) in enumerate(zip(item[2], v)):
                    matches(a, b, p + "/%d" % k)
            else:
                matches(item[1], v, p)


def _attr(i):
    return FTL.Attribute(FTL.Identifier("a"), FTL.Pattern([FTL.TextElement("x")]))


def _variant(i):
    return FTL.Variant(FTL.Identifier("a"), FTL.Pattern([FTL.TextElement("x")]), i == 0)


# node with a list, the list's name, an item (equal ones, and all different)
LONG = [
    (FTL.Resource, "body", lambda i: FTL.Comment("x")), (FTL.Resource, "body", lambda i: FTL.Comment("x%d" % i)),
    (FTL.Resource, "body", lambda i: FTL.Message(FTL.Identifier("m%d" % (i % 7)), FTL.Pattern([FTL.TextElement("x")]))),
    (FTL.Pattern, "elements", lambda i: FTL.TextElement("x")), (FTL.Pattern, "elements", lambda i: FTL.Placeable(FTL.NumberLiteral(str(i)))),
    (lambda xs: FTL.Message(FTL.Identifier("m"), None, xs), "attributes", _attr), (lambda xs: FTL.SelectExpression(FTL.NumberLiteral("1"), xs), "variants", _variant),
    (lambda xs: FTL.CallArguments(xs, []), "positional", lambda i: FTL.NumberLiteral("1")),
    (lambda xs: FTL.CallArguments([], xs), "named", lambda i: FTL.NamedArgument(FTL.Identifier("k%d" % i), FTL.NumberLiteral("1"))),
    (lambda xs: _junk(xs), "annotations", lambda i: FTL.Annotation("E0003", [], "x")),
]


def _junk(xs):
    j = FTL.Junk("x")
    j.annotations = xs
    return j


class C11(Check):
    id = "C11"

    def scopes(self, tier):
        pool = trees.pool()
        n = len(pool)
        step = 3 if tier == "quick" else 1

        def types_in(t):
            ks = sorted({s[0] for s in trees.subtrees(t)})
            if any(s[-1] for s in trees.subtrees(t)):
                ks.append("Span")
            return ks

        def gen_one(block):
            for i in block:
                yield ["visit", pool[i], {}]
                yield ["visit", pool[i], {a: "stop" for a in ABSTRACT}]
                for t in TYPES:
                    for a in ("stop", "descend"):
                        yield ["visit", pool[i], {t: a}]

        def gen_two(block):
            for i in block:
                ks = types_in(pool[i])
                for t, u in itertools.combinations(ks, 2):
                    yield ["visit", pool[i], {t: "descend", u: "stop"}]
                    yield ["visit", pool[i], {t: "stop", u: "stop"}]
                    yield ["visit", pool[i], {t: "stop", u: "descend"}]

        def gen_tone(block):
            for i in block:
                ks = types_in(pool[i])
                yield ["transform", pool[i], {}]
                yield ["transform", pool[i], {a: "remove" for a in ABSTRACT}]
                for t in ks:
                    for a in ACTIONS:
                        yield ["transform", pool[i], {t: a}]

        def gen_ttwo(block):
            for i in block:
                ks = types_in(pool[i])
                for t, u in itertools.permutations(ks, 2):
                    for a, b in (("remove", "edit"), ("descend-replace", "remove"), ("edit", "wrap"),
                                 ("edit", "replace"), ("const", "remove")):
                        yield ["transform", pool[i], {t: a, u: b}]

        def gen_sub(block):
            seen = set()
            for i in block:
                for s in trees.subtrees(pool[i]):
                    if s not in seen:
                        seen.add(s)
                        yield ["visit", s, {s[0]: "stop"}]
                        yield ["visit", s, {}]
                        yield ["transform", s, {s[0]: "remove"}]
                        yield ["transform", s, {"Identifier": "replace"}]
        def gen_single(block):
            for i in block:
                yield ["single", pool[i]]
        lengths = list(range(0, 140)) + [200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049]
        return [
            Scope("long", "lists of %d lengths up to %d in %d fields: visited, items kept, edited and removed at 10 places" % (len(lengths), lengths[-1], len(LONG)),
                  chunks(lengths, 32), lambda block: (["long", k, f] for k in block for f in range(len(LONG)))),
            Scope("visit1", "%d trees x one handler, descending or not, for each of %d node types" % (n, len(TYPES)),
                  chunks(range(0, n, 2 if tier == "quick" else 1), 64), gen_one),
            Scope("visit2", "every %dth tree x handlers for every pair of node types in it" % step,
                  chunks(range(0, n, step), 64), gen_two),
            Scope("transform1", "%d trees x every action for each node type in it" % n, chunks(range(n), 64), gen_tone),
            Scope("transform2", "every %dth tree x action pairs for every ordered pair of types" % step,
                  chunks(range(0, n, step), 64), gen_ttwo),
            Scope("roots", "every subtree as root", chunks(range(n), 32), gen_sub),
            Scope("single", "%d trees x every single node removed, and replaced by every other one of its list" % n,
                  chunks(range(n), 64), gen_single),
        ]

    def do_single(self, t):
        """A handler that acts on one node only: it removes it, or puts a node
        in its place which the list has already."""
        t = tuplify(t)
        size = len(order_of(build(t), ()))
        n = 0
        for k in range(size):
            root = build(t)
            here = order_of(root, ())[k]
            lst = [l for x in order_of(root, ()) for c, l in children(x) if c is here]
            lst = lst[0] if lst else None
            for j in [None] + (list(range(len(lst))) if lst else []):
                root = build(t)
                nodes = order_of(root, ())
                here = nodes[k]
                there, parent, field = None, None, None
                if j is not None:
                    parent, field = [(x, f) for x in nodes for f in fields(x) if isinstance(getattr(x, f), list)
                                     and any(y is here for y in getattr(x, f))][0]
                    there = getattr(parent, field)[j]
                    if not is_node(there):
                        continue

                def h(tr, node):
                    return there if node is here else tr.generic_visit(node)

                if k == 0 and j is None:
                    if type("T", (Transformer,), {"visit_" + kind(here): h})().visit(root) is not None:
                        raise Violation("the root isn't removed")
                    continue

                def expect(x):
                    if is_node(x):
                        if x is here:
                            return full_ids(there)
                        return [id(x), kind(x)] + [expect(getattr(x, f)) for f in fields(x)]
                    if isinstance(x, list):
                        return [id(x)] + [expect(y) for y in x if there is not None or y is not here]
                    return x
                want = expect(root)
                got = type("T", (Transformer,), {"visit_" + kind(here): h})().visit(root)
                n += 1
                if full_ids(got) != want:
                    raise Violation("node %d, a %s, %s: the tree is %r" % (
                        k, kind(here), "removed" if j is None else "replaced by item %d of its list" % j, full(got)))
        return Result(n, traces=n, states=n, transitions=n)

    def do_long(self, size, f):
        make, field, item = LONG[f]
        n = 0
        node = make([item(i) for i in range(size)])
        check_visit(node, {})
        check_visit(node, {kind(item(0)): "stop"})
        places = sorted({i for i in (0, 1, size // 3, size // 2, size - 2, size - 1, 63, 64, 99, 100, 101, 127, 128) if 0 <= i < size})
        for what in ("remove", "replace", "edit"):
            for chosen in [[i] for i in places] + [places, list(range(size)), list(range(0, size, 2)), list(range(size // 2, size))]:
                items = [item(i) for i in range(size)]
                picked = {id(items[i]) for i in chosen}
                fresh = {i: item(-1) for i in picked}
                node = make(list(items))
                lst = getattr(node, field)
                want = [fresh[id(x)] if what == "replace" and id(x) in picked else x for x in items if what != "remove" or id(x) not in picked]
                seen = []

                def h(tr, x):
                    seen.append(x)
                    if id(x) not in picked:
                        return x
                    if what == "remove":
                        return None
                    if what == "edit":
                        x.marked = 1
                        return x
                    return fresh[id(x)]
                got = type("T", (Transformer,), {"visit_" + kind(item(0)): h})().visit(node)
                n += 1
                if got is not node or getattr(node, field) is not lst:
                    raise Violation("%s in a list of %d: not in place" % (what, size))
                if list(map(id, lst)) != list(map(id, want)):
                    raise Violation("%s of %r in a list of %d: %d items, expected %d; first difference at %r" % (
                        what, chosen[:9], size, len(lst), len(want), next((i for i, (a, b) in enumerate(zip(lst, want)) if a is not b), None)))
                if list(map(id, seen)) != list(map(id, items)):
                    raise Violation("a list of %d: items visited out of order or not once" % size)
        return Result(size, traces=n, states=n, transitions=n)

    def run_case(self, scope, case):
        if case[0] == "long":
            return self.do_long(*case[1:])
        if case[0] == "single":
            return self.do_single(case[1])
        op, t, handlers = case
        root = build(tuplify(t))
        if op == "visit":
            value = full(root)
            n = check_visit(root, handlers)
            if full(root) != value:
                raise Violation("visiting changed the tree")
            if isinstance(getattr(root, "body", None), list) and not handlers:
                log = []
                make_visitor(log, handlers).visit(root.body)
                if [x for _, x in log] != [x for e in root.body for x in order_of(e, ())] and \
                        sorted(id(x) for _, x in log) != sorted(id(x) for e in root.body for x in order_of(e, ())):
                    raise Violation("visiting a list of nodes")
            return n
        want = model(root, handlers)
        got = make_transformer(handlers).visit(root)
        matches(want, got, kind(root))
        return handlers


CHECK = C11()
