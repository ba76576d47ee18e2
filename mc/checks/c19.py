"""C19: cycles and runaway expansion are cut off within fixed limits."""
import itertools

from .. import rt, rtref
from ..core import Check, Result, Scope, Violation, chunks
from ..progs import F, M, N, P, PL, S, SEL, T, TR, V
from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.errors import FluentCyclicReferenceError

# what a node of a reference graph is, and how it is referred to
NODES = {
    "msg": (lambda n, p: ["msg", n, p, []], lambda n: M(n)),
    "attr": (lambda n, p: ["msg", n, [T("v")], [["a", p]]], lambda n: M(n, "a")),
    "term": (lambda n, p: ["term", n, p, []], lambda n: TR(n)),
    "arg": (lambda n, p: ["term", n, p, []], lambda n: TR(n, None, [[], [["x", S("X")]]])),
    "tattr": (lambda n, p: ["term", n, [T("v")], [["a", p]]], lambda n: SEL(TR(n, "a"), ("q", [T("Q")]), ("*d", [T("D")]))),
}
# how a pattern holds its references (at least one)
HOLDS = {
    "lone": lambda es: [P(e) for e in es],
    "text": lambda es: [T("<")] + [P(e) for e in es] + [T(">")],
    "nested": lambda es: [P(PL(e)) for e in es],
    "variant": lambda es: [P(SEL(N("3"), ("1", [T("no")]), ("*o", [P(e)]))) for e in es],
    "matched": lambda es: [P(SEL(N("3"), ("3", [P(e), T("!")]), ("*o", [T("no")]))) for e in es],
    "call": lambda es: [P(F("ECHO", [e if e[0] != "sel" else PL(e) for e in es]))],
    "selector": lambda es: [P(SEL(F("ID", [e if e[0] != "sel" else PL(e)]), ("q", [T("Q")]), ("*d", [T("D")]))) for e in es],
    "spaced": lambda es: [x for e in es for x in (P(e), T(" "))] + [P(V("n"))],
}
ARGS = {"n": ["i", 3], "x": ["s", "outer"]}
KIND, HOLD = list(NODES), list(HOLDS)


def node(i, kind, hold, outs, kinds):
    """Node i with references to the nodes in outs."""
    es = [NODES[kinds[j]][1]("r%d" % j) for j in outs]
    p = HOLDS[hold](es) if es else [T("leaf%d" % i)]
    return NODES[kind][0]("r%d" % i, p)


def reach(edges, i):
    seen, todo = set(), list(edges[i])
    while todo:
        j = todo.pop()
        if j not in seen:
            seen.add(j)
            todo += edges[j]
    return seen


def cyclic_from(edges, i):
    """A cycle can be reached from i."""
    return any(j in reach(edges, j) for j in reach(edges, i) | {i})


OUT = {}
for _n in (2, 3, 4):
    OUT[_n, 1] = [[]] + [[j] for j in range(_n)]
    OUT[_n, 2] = OUT[_n, 1] + [list(t) for t in itertools.product(range(_n), repeat=2)]


class C19(Check):
    id = "C19"
    assumptions = ["cycles short of the interpreter's recursion limit",
                   "text in a pattern with placeables counts as an interpolated string; text of its own is not limited"]

    def scopes(self, tier):
        thorough = tier == "thorough"
        styles = [(k, h) for k in range(len(KIND)) for h in range(len(HOLD))]
        two = [(a, b) for i, a in enumerate(styles) for j, b in enumerate(styles) if thorough or (i + j) % 4 == 0]

        def gen_two(block):
            for a, b in block:
                for es in itertools.product(OUT[2, 2], repeat=2):
                    yield ["graph", [list(a), list(b)], list(es)]

        def gen_three(block):
            for s, e0 in block:
                for es in itertools.product(OUT[3, 2], repeat=2):
                    yield ["graph", [list(styles[(s + 7 * i * (s % 3)) % len(styles)]) for i in range(3)], [e0, *es]]

        def gen_four(block):
            for s, e0, e1 in block:
                for es in itertools.product(OUT[4, 1], repeat=2):
                    yield ["graph", [list(styles[(s + 11 * i) % len(styles)]) for i in range(4)], [e0, e1, *es]]

        def gen_long(block):
            for s in block:
                for n in range(1, 41 if thorough else 26):
                    for entry in (0, n - 1, n):
                        yield ["cycle", s, n, entry]

        def gen_flat(block):
            for lay in block:
                for k in list(range(1, 12)) + list(range(985, 1015)) + [499, 500, 501, 1500, 3000]:
                    yield ["flat", lay, k]

        def gen_mixed(block):
            for a, b in block:
                yield ["mixed", [a, b]]
                for c in range(len(ELEMENTS)) if thorough else ():
                    yield ["mixed", [a, b, c]]

        def gen_two_level(block):
            for k in block:
                yield ["level", k]

        def gen_tree(block):
            for b, lay in block:
                for d in range(1, 13):
                    yield ["tree", b, lay, d]

        def gen_len(block):
            for pos in block:
                for n in LENGTHS:
                    for iso in (0, 1):
                        yield ["len", pos, n, iso]
        ks = range(2, 500) if thorough else list(range(2, 70)) + list(range(70, 500, 12)) + [249, 250, 333, 334, 499]
        return [
            Scope("graphs-2", "all reference graphs on 2 entries with <=2 ordered references each, every style of entry and reference (%d)"
                  % len(styles), chunks(two, 128), gen_two),
            Scope("graphs-3", "all graphs on 3 entries with <=2 references each, %d styles and mixtures" % len(styles),
                  [[(s, e0)] for s in range(0, len(styles), 1 if thorough else 3) for e0 in OUT[3, 2]], gen_three),
            Scope("graphs-4", "all graphs on 4 entries with 1 reference (one entry: up to 2)",
                  [[(s, e0, e1)] for s in range(0, len(styles), 2 if thorough else 5) for e0 in OUT[4, 2] for e1 in OUT[4, 1]], gen_four),
            Scope("long-cycles", "cycles of 1-%d entries, each style, entered from inside and outside" % (40 if thorough else 25),
                  chunks(range(len(styles)), 40), gen_long),
            Scope("flat", "single patterns of up to 3000 parts in %d layouts" % len(LAYOUTS), [[i] for i in range(len(LAYOUTS))], gen_flat),
            Scope("mixed", "single patterns of %d kinds of elements, two %staking turns, with totals of 998-1002 parts" % (len(ELEMENTS), "and three " if thorough else ""),
                  [[(a, b)] for a in range(len(ELEMENTS)) for b in range(len(ELEMENTS))], gen_mixed),
            Scope("two-level", "k references to patterns of j parts for %d k and all j with totals next to 1000, x %d layouts"
                  % (len(list(ks)), len(LEVELS)), chunks(ks, 64), gen_two_level),
            Scope("trees", "complete trees of 1-3 branches, depth 1-12, in %d layouts" % len(LEVELS),
                  [[(b, lay)] for b in (1, 2, 3) for lay in LEVELS], gen_tree),
            Scope("lengths", "strings of %s characters in %d positions, isolation on/off" % (LENGTHS, len(POSITIONS)),
                  [[p] for p in POSITIONS], gen_len),
        ]

    def run_case(self, scope, case):
        return getattr(self, "do_" + case[0])(*case[1:])

    def do_graph(self, styles, edges):
        kinds = [KIND[k] for k, h in styles]
        prog = [node(i, KIND[k], HOLD[h], edges[i], kinds) for i, (k, h) in enumerate(styles)]
        # users of every node: once, twice
        names = []
        for i, k in enumerate(kinds):
            ref = NODES[k][1]("r%d" % i)
            prog += [["msg", "u%d" % i, [P(ref)], []], ["msg", "w%d" % i, [P(ref), T(" again "), P(ref)], []]]
            names += ["u%d" % i, "w%d" % i]
        outs = set()
        for separate in (False, True):
            self.graph(rt.Runner(prog, isolating=False, separate=separate), names, edges, outs)
        return Result(len(outs), traces=2 * len(names), states=1, transitions=2 * len(names))

    def graph(self, r, names, edges, outs):
        for name in names:
            text, errs = r.run(name, None, ARGS)
            i = int(name[1])
            kinds_of = [e[0] for e in errs]
            if text == "{???}":
                raise Violation("%s is cut off" % name)
            if "FluentCyclicReferenceError" in kinds_of and not cyclic_from(edges, i):
                raise Violation("cyclic reference without a cycle:\n" + r.only(name))
            if "FluentCyclicReferenceError" not in kinds_of and cyclic_from(edges, i):
                raise Violation("a cycle is not reported:\n" + r.only(name))
            if errs and not cyclic_from(edges, i):
                raise Violation("%s: %r\n%s" % (name, errs, r.only(name)))
            outs.add((text[:20], len(errs)))

    def do_cycle(self, s, n, entry):
        """r0 -> ... -> r(n-1) -> r0, started at r<entry> or from outside."""
        k, h = s // len(HOLD), s % len(HOLD)
        kinds = [KIND[k]] * n
        prog = [node(i, KIND[k], HOLD[h], [(i + 1) % n], kinds) for i in range(n)]
        prog.append(["msg", "m", HOLDS["lone"]([NODES[KIND[k]][1]("r%d" % (entry % n))]), []])
        prog.append(["msg", "m2", HOLDS["text"]([NODES[KIND[k]][1]("r%d" % (entry % n))]), []])
        names = [("m", None), ("m2", None)]
        if KIND[k] in ("msg", "attr"):
            names.append(("r%d" % (entry % n), "a" if KIND[k] == "attr" else None))
        for separate in (False, True):
            r = rt.Runner(prog, isolating=False, separate=separate)
            for name, attr in names:
                text, errs = r.run(name, attr, ARGS)
                if text == "{???}" or not any(e[0] == "FluentCyclicReferenceError" for e in errs):
                    raise Violation("cycle of %d: %r %r\n%s" % (n, text, errs, r.source))
        return Result(text[:10], traces=2 * len(names), states=1, transitions=2 * len(names))

    def both(self, source, name, args, total=None, longest=None, functions=None, isolating=False, want=None):
        """Formats twice; total parts and longest string decide."""
        b = FluentBundle(["en"], functions=functions, use_isolating=isolating)
        b.add_resource(FluentResource(source + "after = ok { $x }\n"))
        over = (total or 0) > 1000 or (longest or 0) > 2500
        out = None
        for _ in range(2):
            try:
                text, errs = b.format_pattern(b.get_message(name).value, args)
            except Exception as e:
                raise Violation("raised %r" % e)
            if over:
                if text != "{???}" or not errs or not isinstance(errs[-1], ValueError):
                    raise Violation("%s parts, longest string %s: not cut off but %r %r\n%s" % (total, longest, text[:80], errs, source[:600]))
            elif text == "{???}" or errs or want is not None and text != want:
                raise Violation("%s parts, longest string %s: %r %r, should be %.80r\n%s" % (total, longest, text[:80], errs, want, source[:600]))
            got = b.format_pattern(b.get_message("after").value, {"x": "fine"})
            if got != ("ok " + ("\u2068fine\u2069" if isolating else "fine"), []):
                raise Violation("the next call gives %r" % (got,))
            out = text[:5]
        return out

    def do_flat(self, lay, k):
        parts, texts, extra, per = LAYOUTS[lay]
        src, out, total = [], [], k
        for i in range(k):
            src.append(parts[i % len(parts)])
            out.append(texts[i % len(texts)])
            total += per[i % len(per)]
        m = "".join(src).strip()
        if m == '{ "l" }' or all(p == '{ "l" }' for p in src):
            total = 0
        res = []
        for call in ("m", "via"):
            # "via" refers to m from a pattern of three parts
            t = total if total == 0 else total
            self.both("m = %s\nvia = A { m } B\n%s" % (m, extra), call, {"x": "X"}, t + (3 if call == "via" else 0),
                      len("".join(out)) if call == "via" else None, want=("A %s B" if call == "via" else "%s") % "".join(out))
            res.append(t > 1000)
        return Result(tuple(res), traces=4, states=1, transitions=4)

    def do_mixed(self, turns):
        elems = [ELEMENTS[t] for t in turns]
        if any(e[0] == f[0] == "t" for e, f in zip(elems, elems[1:] + elems[:1])):
            # one text, really
            return None
        per = [1 + e[2] for e in elems]
        literal = all(e[0] == "t" or e[0].startswith(('{ "', '{ { "')) for e in elems)
        n = 0
        for k in range(1, 1004):
            total = sum(per[i % len(per)] for i in range(k)) if k % 100 == 1 or total > 990 else total + per[(k - 1) % len(per)]
            if not 998 <= total <= 1002:
                continue
            src = "".join(elems[i % len(elems)][0] for i in range(k))
            want = "".join(elems[i % len(elems)][1] for i in range(k))
            self.both("m = %s\n%s" % (src, EXTRA), "m", {"x": "X", "e": ""}, 0 if literal else total, None, want=want)
            n += 2
        return Result(n, traces=n, states=n // 2, transitions=n)

    def do_level(self, k):
        n = 0
        outs = set()
        for lay in LEVELS:
            own, per, ref, entry, text = LEVELS[lay]
            # k references: `own` parts for each, then j parts in each entry
            for j in sorted({max(1, (1000 - own * k) // k + d) for d in (-1, 0, 1)} | {1, 2}):
                if j < 2 and per == "text":
                    continue
                body = "{ $x }" * j
                inner = j
                total = own * k + k * inner
                if k == 1 or own == 0:
                    continue
                src = "m = %s\n%s\n" % (ref * k, entry % body)
                self.both(src, "m", {"x": "X"}, total, None, want=text * k if text else None, functions=FUNCS)
                outs.add(total > 1000)
                n += 2
        return Result(tuple(outs), traces=n, states=n // 2, transitions=n)

    def do_tree(self, b, lay, d):
        own, per, ref, entry, text = LEVELS[lay]
        src = "m = %s\n" % (ref.replace("e", "e0") * b)
        total = b * own
        width = b
        for i in range(d):
            e = entry.replace("e", "e%d" % i, 1) if not entry.startswith("-") else entry.replace("-e", "-e%d" % i, 1)
            body = ref.replace("e", "e%d" % (i + 1)) * b if i < d - 1 else "{ $x }" * b
            parts = b * own if i < d - 1 else b
            total += width * parts
            src += e % body + "\n"
            width *= b
        if b > 1 and d > 9 and total <= 1000:
            raise AssertionError
        if own == 0:
            return None
        self.both(src, "m", {"x": ""}, total, None, functions=FUNCS)
        return Result(total > 1000, traces=2, states=1, transitions=2)

    def do_len(self, pos, n, iso):
        make = POSITIONS[pos]
        source, args, longest, want = make(n, 2 if iso else 0)
        self.both(source, "m", {"x": "", **args}, None, longest, functions=FUNCS, isolating=bool(iso), want=want)
        return Result((longest or 0) > 2500, traces=2, states=1, transitions=2)


class Text(rt.Custom):
    pass


class Sub(str):
    """Such as a lazy or markup string."""


FUNCS = {"SUB": lambda n: Sub("z" * int(n)), "STR": lambda n: "z" * int(n), "TYPED": lambda n: Text("z" * int(n)), "REP": lambda n, c: chr(int(c)) * int(n), "LEN": lambda *a: str(sum(len(x) for x in a)),
         "EMPTY": lambda *a: "", "FIRST": lambda *a: a[0]}
# layouts of one pattern: parts in turn, their text, further entries, further parts expanded by each
LAYOUTS = [
    (["{ $x }"], ["X"], "", [0]),
    (["{ $x }", "t"], ["X", "t"], "", [0]),
    (["t", "{ $x }"], ["t", "X"], "", [0]),
    (["{ $x }", '{ "l" }'], ["X", "l"], "", [0]),
    (['{ "l" }'], ["l"], "", [0]),
    (["{ txt }"], ["T"], "txt = T\n", [0]),
    (["{ lone }"], ["1"], "lone = { 1 }\n", [1]),
    (["{ lone }", "-"], ["1", "-"], "lone = { 1 }\n", [1, 0]),
    (["{ -term }"], ["T"], "-term = T\n", [0]),
    (["{ -term(a: 1) }"], ["1"], "-term = { $a }\n", [1]),
    (["{ two }"], ["1T"], "two = { 1 }T\n", [2]),
    (["{ $x ->\n   *[o] V\n } "], ["V "], "", [0]),
    (["{ NUMBER(1) }", "{ 2 }", "q"], ["1", "2", "q"], "", [0]),
    (["{ { $x } }"], ["X"], "", [0]),
]
_L = LAYOUTS[11]
LAYOUTS[11] = (["{ $x ->\n   *[o] V\n }", "."], ["V", "."], "", [0])
# layouts of references between patterns: parts per reference in its own
# pattern, kind, the reference, the entry, text
LEVELS = {
    "messages": (1, "p", "{ e }", "e = %s", None),
    "spaced": (2, "p", "{ e }.", "e = %s", None),
    "terms": (1, "p", "{ -e(x: 1) }", "-e = %s", None),
    "attributes": (1, "p", "{ e.at }", "e = v\n    .at = %s", None),
    "arguments": (1, "p", "{ LEN(e) }", "e = %s", None),
    "selected": (2, "p", "{ FIRST(e) ->\n   *[o] V\n }.", "e = %s", None),
}
EXTRA = "txt = T\nlone = { 1 }\n-term = U\ntwo = { 1 }T\n"
# source, text, parts beyond its own
ELEMENTS = [("{ $x }", "X", 0), ("t", "t", 0), ('{ "l" }', "l", 0), ('{ "" }', "", 0), ("{ 1 }", "1", 0), ("{ $e }", "", 0), ("{ txt }", "T", 0), ("{ lone }", "1", 1),
            ("{ { $x } }", "X", 0), ('{ { "" } }', "", 0), ("{ -term }", "U", 0), ("{ two }", "1T", 2), ("{ NUMBER(1) }", "1", 0),
            ("{ $x ->\n   *[o] V\n    }", "V", 0), ('{ $x ->\n   *[o] { "" }\n    }', "", 0), ("{ $x ->\n   *[o] { $e }\n    }", "", 1)]
LENGTHS = [0, 1, 1249, 1250, 1251, 2495, 2496, 2497, 2498, 2499, 2500, 2501, 2502, 2503, 2600, 5000, 100000]
FILLS = " \t\n\r\0\xa0\u3000\u0301\u200d\u2068\u2069{}<&\U0001f600\U0010ffff"
POSITIONS = {
    # n, m (2 with isolation) -> source, args, longest interpolated string, text
    "text-only": lambda n, m: ("m = A%s\n" % ("y" * n), {}, 0, "A" + "y" * n),
    "lone": lambda n, m: ("m = { $s }\n", {"s": "y" * n}, n, "y" * n),
    "in-text": lambda n, m: ("m = a{ $s }\n", {"s": "y" * n}, n + m, None),
    "text": lambda n, m: ("m = A%s{ $x }\n" % ("y" * n), {}, n + 1, None),
    "literal": lambda n, m: ("m = a{ \"%s\" }b{ $x }\n" % ("y" * n), {}, n, None),
    "subclass": lambda n, m: ("m = { $s }\n", {"s": Sub("y" * n)}, n, "y" * n),
    "subclass-in-text": lambda n, m: ("m = a{ $s }\n", {"s": Sub("y" * n)}, n + m, None),
    "subclass-variant": lambda n, m: ("m = { $x ->\n   *[o] { $s } b\n    }\n", {"s": Sub("y" * n)}, n + m + 2, None),
    "subclass-function": lambda n, m: ("m = { SUB(%d) }\n" % n, {}, n, "z" * n),
    "subclass-function-in-text": lambda n, m: ("m = { SUB(%d) } q\n" % n, {}, n + m, None),
    "nested": lambda n, m: ("m = { { $s } }\n", {"s": "y" * n}, n + m, None),
    "reference": lambda n, m: ("m = { r }\nr = A%s\n" % ("y" * n), {}, n + 1, "A" + "y" * n),
    "reference-in-text": lambda n, m: ("m = { r }.\nr = A%s\n" % ("y" * n), {}, n + 1 + m, None),
    "term": lambda n, m: ("m = { -r }\n-r = A%s\n" % ("y" * n), {}, n + 1, "A" + "y" * n),
    "term-argument": lambda n, m: ("m = { -r(v: \"%s\") }\n-r = { $v }\n" % ("y" * n), {}, n, "y" * n),
    "attribute": lambda n, m: ("m = { r.a }\nr = v\n    .a = A%s\n" % ("y" * n), {}, n + 1, "A" + "y" * n),
    "doubled": lambda n, m: ("m = { r }!\nr = { $s }{ $s }\n", {"s": "y" * n}, (2 * (n + m) + m), None),
    "doubled-lone": lambda n, m: ("m = { r }\nr = { $s }{ $s }\n", {"s": "y" * n}, 2 * (n + m), None),
    "top-doubled": lambda n, m: ("m = { $s }{ $s }\n", {"s": "y" * n}, n + m, None),
    "function": lambda n, m: ("m = { STR(%d) }\n" % n, {}, n, "z" * n),
    "function-in-text": lambda n, m: ("m = { STR(%d) } q\n" % n, {}, n + m, None),
    "typed": lambda n, m: ("m = { TYPED(%d) }\n" % n, {}, 0, "z" * n),
    "variant": lambda n, m: ("m = { 1 ->\n   *[o] A%s\n    }\n" % ("y" * n), {}, n + 1, "A" + "y" * n),
    "variant-placeable": lambda n, m: ("m = { 1 ->\n   *[o] { $s }\n    }\n", {"s": "y" * n}, n, "y" * n),
    "selector": lambda n, m: ("m = { $s ->\n    [o] no\n   *[p] yes\n    }\n", {"s": "y" * n}, 0, "yes"),
    "function-argument": lambda n, m: ("m = { LEN($s) }\n", {"s": "y" * n}, 0, str(n)),
    "unselected": lambda n, m: ("m = { 1 ->\n    [1] yes\n   *[o] A%s{ $s }\n    }\n" % ("y" * n), {"s": "y" * n}, 0, "yes"),
    **{"fill-%s-%x" % (k, ord(c)): (lambda n, m, c=c, f=f: f(c * n, n, m)) for c in FILLS for k, f in (
        ("lone", lambda s, n, m: ("m = { $s }\n", {"s": s}, n, s)), ("in-text", lambda s, n, m: ("m = a{ $s }\n", {"s": s}, n + m, None)),
        ("variant", lambda s, n, m: ("m = b{ 1 ->\n   *[o] { $s }{ $s }\n    }\n", {"s": s[:n // 2]}, 2 * (n // 2 + m) + m, None)),
        ("function", lambda s, n, m: ("m = { REP(%d, %d) }\n" % (n, ord(s[0]) if s else 0), {}, n, s)))},
    "unused-argument": lambda n, m: ("m = x{ $x }\n", {"s": "y" * n}, 0, None),
}
CHECK = C19()
