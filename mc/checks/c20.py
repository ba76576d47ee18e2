"""C20: a bundle's answers depend on its resources, not on earlier calls."""
import itertools
import re

from .. import rt, rtref
from ..core import Check, Result, Scope, Violation, chunks
from ..progs import F, M, N, P, PL, S, SEL, T, TR, V
from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.resolver import Message

# colliding definitions: every entry comes in several variants, values and
# attributes come and go, terms and messages share names
RESOURCES = [
    [["msg", "a", [T("a0 "), P(M("b")), T(" "), P(TR("t"))], [["x", [T("ax0")]]]], ["term", "t", [T("t0")], [["g", [T("f")]]]]],
    [["msg", "a", [T("a1")], []], ["msg", "b", [T("b1 "), P(SEL(TR("t", "g"), ("m", [T("M")]), ("*f", [T("F")])))], [["y", [T("by1")]]]]],
    [["msg", "b", [T("b2")], [["x", [T("bx2 "), P(M("a", "x"))]]]], ["term", "t", [T("t2 "), P(V("v"))], [["g", [T("m")]]]]],
    [["msg", "t", [T("msg t "), P(TR("a"))], []], ["term", "a", [T("term a")], []], ["msg", "a", [T("dup1")], []],
     ["msg", "a", None, [["x", [T("only "), P(M("b"))]]]]],
    [["msg", "c", [P(M("a")), T(" "), P(M("a", "x")), T(" "), P(M("b", "x")), T(" "), P(M("a", "z")), T(" "), P(TR("t", None, [[], [["v", S("V")]]]))], []],
     ["term", "b", [P(M("c"))], []], ["term", "t", [T("t4")], []], ["term", "t", [T("t4 again")], [["g", [T("x")]]]]],
    [["msg", "b", [P(TR("b"))], []], ["msg", "t", [P(M("b"))], []]],
]
JUNK = ["", "a = { broken\n", "# comment\n", "\n-t = \n", "### x\n\n# y\n\n", "b\n"]
NAMES = ["a", "b", "c", "t"]
ATTRS = ["x", "y"]
ARGS = {"v": ["s", "outer"]}
MISSING = ["miss", "-t", "-a", "a.x", "b.y", "", "A", "t.g", "a "]


def source(i):
    s = rtref.render(RESOURCES[i])
    if i in (1, 4):
        s = re.sub(r"^(?=-?[a-z]+ =)", "# about the next entry\n", s, flags=re.M)
    return (JUNK[i] + s) if i % 2 else (s + JUNK[i])


SOURCES = [source(i) for i in range(len(RESOURCES))]
_parsed, _expected = {}, {}


def resource(i):
    if i not in _parsed:
        _parsed[i] = FluentResource(SOURCES[i])
    return _parsed[i]


def entry_key(i, k):
    return (i, k)


def model_add(state, i, override):
    """state: {(kind, name): (resource, index)}"""
    for k, e in enumerate(RESOURCES[i]):
        key = (e[0], e[1])
        if override or key not in state:
            state[key] = (i, k)


def expected(state):
    """What a bundle with these definitions answers."""
    key = tuple(sorted(state.items()))
    if key not in _expected:
        m = rtref.Interp([RESOURCES[i][k] for i, k in state.values()], {}, False)
        out = {}
        args = {n: rt.arg(s)[1] for n, s in ARGS.items()}
        for n in NAMES:
            if n not in m.msgs:
                out[n] = None
                continue
            value, attrs = m.msgs[n]
            out[n] = (m.format(value, args) if value is not None else None,
                      {a: m.format(p, args) for a, p in attrs.items()})
        _expected[key] = out
    return _expected[key]


def same(got, want):
    return got[0] == want[0] and rtref.same_errors(got[1], want[1])


def ask(b, n, want, hist):
    """Compares everything about message n."""
    args = {k: rt.arg(s)[0] for k, s in ARGS.items()}
    if b.has_message(n) is not (want is not None):
        raise Violation("has_message(%r) is %r after %s" % (n, b.has_message(n), hist))
    try:
        m = b.get_message(n)
    except LookupError:
        if want is not None:
            raise Violation("get_message(%r) raises after %s" % (n, hist))
        return
    if want is None:
        raise Violation("get_message(%r) finds a message after %s" % (n, hist))
    if not isinstance(m, Message) or m.id.name != n:
        raise Violation("get_message(%r) is %r after %s" % (n, m, hist))
    value, attrs = want
    if (m.value is None) != (value is None) or set(m.attributes) != set(attrs):
        raise Violation("%s has value %r, attributes %r after %s" % (n, m.value, list(m.attributes), hist))
    if value is not None:
        got = b.format_pattern(m.value, args)
        if not same(got, value):
            raise Violation("%s gives %r, should be %r after %s" % (n, got, value, hist))
    for a, w in attrs.items():
        got = b.format_pattern(m.attributes[a], args)
        if not same(got, w):
            raise Violation("%s.%s gives %r, should be %r after %s" % (n, a, got, w, hist))


QUERIES = [["fmt", n] for n in NAMES] + [["get", "a"], ["get", "miss"]]
ADDS = [["add", i, o] for i in range(len(RESOURCES)) for o in (0, 1)]


class C20(Check):
    id = "C20"
    assumptions = ["a pattern is formatted by the bundle it came from, right after looking it up"]

    def scopes(self, tier):
        thorough = tier == "thorough"
        ops = ADDS + QUERIES
        firsts = [[x, y] for x in ADDS for y in ops]

        def gen(block):
            # depth-first over all continuations
            for head in block:
                yield ["seq", head]
                for k in range(1, (4 if thorough else 3)):
                    for tail in itertools.product(ops, repeat=k):
                        if k < 3 or tail[0] is not tail[1]:
                            yield ["seq", head + list(tail)]

        def gen_adds(block):
            for head in block:
                for k in range(1, 4 if thorough else 3):
                    for tail in itertools.product(ADDS, repeat=k):
                        yield ["asked", [head, *tail]]

        def gen_two(block):
            for x in block:
                n = 3 if thorough else 2
                for tail in itertools.product(ADDS + [["fmt", "c"], ["fmt", "a"]], repeat=n):
                    for who in itertools.product((0, 1), repeat=n):
                        yield ["two", [x, *tail], [0, *who]]
        return [
            Scope("histories", "every sequence of %d adding operations (%d resources, with and without overriding) and %d queries, up to %d long, "
                  "then everything asked" % (len(ADDS), len(RESOURCES), len(QUERIES), 5 if thorough else 4),
                  [[h] for h in firsts], gen),
            Scope("asked-throughout", "every sequence of up to %d adding operations, everything asked after each" % (4 if thorough else 3),
                  [[x] for x in ADDS], gen_adds),
            Scope("two-bundles", "every sequence of %d operations spread over two bundles sharing the resources" % (4 if thorough else 3), [[x] for x in ADDS], gen_two),
            Scope("edges", "empty bundles, missing names, missing resources, wholesale overriding", [0], lambda b: [["edges", k] for k in range(4)]),
        ]

    def run_case(self, scope, case):
        return getattr(self, "do_" + case[0])(*case[1:])

    def step(self, b, state, op, hist):
        if op[0] == "add":
            if op[2]:
                b.add_resource(resource(op[1]), allow_overrides=True)
            elif op[1] % 2:
                b.add_resource(resource(op[1]))
            else:
                b.add_resource(resource(op[1]), False)
            model_add(state, op[1], bool(op[2]))
        elif op[0] == "fmt":
            ask(b, op[1], expected(state).get(op[1]), hist)
        elif op[1] == "miss":
            ask(b, "miss", None, hist)
        else:
            try:
                b.get_message(op[1])
            except LookupError:
                pass

    def ask_all(self, b, state, hist):
        exp = expected(state)
        for n in NAMES:
            ask(b, n, exp[n], hist)
        for n in MISSING:
            ask(b, n, None, hist)

    def do_seq(self, seq):
        b = FluentBundle(["en"], use_isolating=False)
        state = {}
        for op in seq:
            self.step(b, state, op, seq)
        self.ask_all(b, state, seq)
        return tuple(sorted(state.items()))

    def do_asked(self, seq):
        b = FluentBundle(["en"], use_isolating=False)
        state = {}
        for i, op in enumerate(seq):
            self.step(b, state, op, seq)
            self.ask_all(b, state, seq[:i + 1])
            self.ask_all(b, state, seq[:i + 1])
        return tuple(sorted(state.items()))

    def do_two(self, seq, who):
        bs = [FluentBundle(["en"], use_isolating=False), FluentBundle(["en"], use_isolating=False)]
        states = [{}, {}]
        hist = list(zip(who, seq))
        for w, op in hist:
            self.step(bs[w], states[w], op, hist)
        for w in (0, 1):
            self.ask_all(bs[w], states[w], hist)
        return [tuple(sorted(s.items())) for s in states]

    def do_edges(self, k):
        b = FluentBundle(["en"], use_isolating=False)
        state = {}
        self.ask_all(b, state, "nothing")
        if k == 0:
            b.add_resource(FluentResource(""))
            b.add_resource(FluentResource("junk junk\n= \n"))
            b.add_resource(FluentResource("# only\n\n## comments\n"), allow_overrides=True)
            self.ask_all(b, state, "empty resources")
        elif k == 1:
            # all resources in one, twice
            whole = FluentResource("\n".join(SOURCES))
            for ov in (False, True, False):
                b.add_resource(whole, ov)
                for i in range(len(RESOURCES)):
                    model_add(state, i, ov)
                self.ask_all(b, state, "everything at once, %s" % ov)
        elif k == 2:
            # many overrides in a row show at once
            for i in range(20):
                b.add_resource(FluentResource("a = v%d { -t }\n-t = t%d\n" % (i, i)), allow_overrides=True)
                got = b.format_pattern(b.get_message("a").value)
                if got != ("v%d t%d" % (i, i), []):
                    raise Violation("override %d gives %r" % (i, got))
                b.add_resource(FluentResource("a = no\n-t = no\n"))
                got = b.format_pattern(b.get_message("a").value)
                if got != ("v%d t%d" % (i, i), []):
                    raise Violation("after a second definition: %r" % (got,))
        else:
            # every order of three resources without overriding
            for order in itertools.permutations(range(len(RESOURCES)), 3):
                b = FluentBundle(["en"], use_isolating=False)
                state = {}
                for i in order:
                    b.add_resource(resource(i))
                    model_add(state, i, False)
                self.ask_all(b, state, order)
        return k


CHECK = C20()
