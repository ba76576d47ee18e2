"""C16: formatting yields the value the Fluent semantics assigns."""
import itertools

from .. import docs, ftlref, rt, rtref
from ..core import Check, Result, Scope, Violation, chunks
from .c12 import decode
from ..progs import ARGSETS, ATOMS, F, M, N, P, PL, S, SEL, T, TERMS, TR, V, VALUES, atoms_program, env_program

BX = [[T("bx")], [P(M("a"))], [T("x"), P(V("n"))], [P(M("b", "x"))]]
G = [[T("m")], [P(V("v"))], [P(S("m"))], [P(M("a"))]]
ENVS = [(VALUES[0], VALUES[1], BX[0], TERMS[0], TERMS[1], G[0]), (VALUES[3], VALUES[2], BX[1], TERMS[2], TERMS[0], G[1]),
        (VALUES[6], VALUES[9], BX[2], TERMS[6], TERMS[2], G[2]), (None, VALUES[5], BX[0], TERMS[4], TERMS[2], G[1])]


class C16(Check):
    id = "C16"
    assumptions = ["custom functions return text or Fluent types", "results below the expansion limits (see C19)",
                   "values at fault are covered in C15, plural categories in C18"]

    def scopes(self, tier):
        thorough = tier == "thorough"
        vals = range(len(VALUES))
        terms = range(len(TERMS))
        if thorough:
            envs = [[a, b, x, t, u, g] for a in vals for b in vals[::2] for x in range(len(BX)) for t in terms
                    for u in range(0, len(TERMS), 2) for g in range(len(G))]
        else:
            envs = [[a, b, x, t, u, g] for a in vals for b in vals[::2] for t in terms for u in (0, 2, 5)
                    for x, g in (((a + t) % 4, (b + t) % 4),)]
            envs += [[a, b, x, 6, 1, g] for a in vals for b in vals for x in range(len(BX)) for g in range(len(G))
                     if (a + b + x + g) % 3 == 0]

        def gen_env(block):
            for i in block:
                yield ["env", envs[i]]

        n = len(ATOMS)

        def gen_pairs(block):
            for i in block:
                for e in range(len(ENVS)):
                    yield ["pair", i, e]

        def gen_triples(block):
            for i, j in block:
                yield ["triple", i, j]

        def gen_nest(block):
            for i in block:
                for w in range(len(WRAPS)):
                    for w2 in range(len(WRAPS)):
                        yield ["nest", i, w, w2]
        alists = [list(a) for k in range(5 if thorough else 4) for a in itertools.product(range(6), repeat=k)]

        def gen_defs(block):
            for i in block:
                for how in range(4):
                    yield ["defs", alists[i], how]
        def gen_literals(block):
            for k, d, neg in block:
                yield ["literals", k, d, neg]
        digits, fracs = (60, 24) if thorough else (32, 12)
        trip = range(n) if thorough else range(0, n, 2)
        texts = [s for s in docs.standard(tier, 2) if not s.name.startswith(("raw", "nest"))]
        for s in texts:
            s.name = "text-" + s.name
        return texts + [
            Scope("environments", "%d sets of definitions (message values, attributes, terms) x %d expressions, alone and "
                  "in text x %d argument sets" % (len(envs), n, len(ARGSETS)), chunks(range(len(envs)), 128), gen_env),
            Scope("repeated", "every list of <=%d attributes (2 names x 3 values), of a message and a term; the same "
                  "spread over several definitions of the entry" % (4 if thorough else 3),
                  chunks(range(len(alists)), 32), gen_defs),
            Scope("pairs", "all patterns of two placeables (4 text layouts) over %d expressions, %d environments"
                  % (n, len(ENVS)), chunks(range(n), 64), gen_pairs),
            Scope("triples", "all patterns of three placeables over %d expressions" % len(trip),
                  [[(i, j)] for i in trip for j in trip], gen_triples),
            Scope("literals", "number literals of 1-%d digits and 0-%d decimals (%d sequences of digits, also negative) as placeable, in text, as positional and "
                  "named argument, in a term's argument, as selector and as key" % (digits, fracs, len(DIGITS)),
                  chunks([(k, d, neg) for k in range(1, digits + 1) for d in range(fracs + 1) for neg in (0, 1)], 64), gen_literals),
            Scope("names", "names that differ in the case of a letter, a character or a sign, %d of them, for messages, attributes, terms, variables, arguments and functions: "
                  "each with the other defined, and both" % len(NEAR_NAMES), [[i] for i in range(len(NEAR_NAMES))], lambda b: (["names", i] for i in b)),
            Scope("nesting", "%d expressions inside %d x %d kinds of wrapping" % (n, len(WRAPS), len(WRAPS)),
                  chunks(range(n), 64), gen_nest),
        ]

    def run_case(self, scope, case):
        if isinstance(case, str):
            return self.do_text(case)
        return getattr(self, "do_" + case[0])(*case[1:])

    def run_all(self, program, names, isolating):
        outs = set()
        n = 0
        for iso in isolating:
            r = rt.Runner(program, isolating=iso)
            for args in ARGSETS:
                for name in names:
                    out, errs = r.run(name, None, args, "isolation %s: " % iso)
                    n += 1
                    outs.add((len(errs), out[:12]))
        return Result(len(outs), traces=n, states=n, transitions=n)

    def do_text(self, text):
        """All messages of a document, read by the grammar model."""
        program = rtref.from_tree(ftlref.expected(text, False), decode)
        if not any(e[0] == "msg" for e in program):
            return None
        outs = []
        r = rt.Runner(program, isolating=len(text) % 2 == 0, source=text, junk=True)
        for name in r.model.msgs:
            value, attrs = r.model.msgs[name]
            if value is not None:
                outs.append(r.run(name, None, {"v": ["s", "V"], "n": ["i", 1], "a": ["i", 2]})[0][:20])
            elif r.bundle.get_message(name).value is not None:
                raise Violation("%s has a value" % name)
            for a in attrs:
                outs.append(r.run(name, a, {"v": ["i", 1], "name": ["s", "N"]})[0][:20])
            if set(attrs) != set(r.bundle.get_message(name).attributes):
                raise Violation("attributes of %s: %r" % (name, list(r.bundle.get_message(name).attributes)))
        return outs

    def do_env(self, e):
        a, b, x, t, u, g = e
        prog = env_program(VALUES[a], VALUES[b] or VALUES[0], BX[x], TERMS[t], TERMS[u], G[g])
        main = atoms_program()
        names = [m[1] for m in main] + (["a"] if VALUES[a] is not None else []) + ["b"]
        # order of definitions and of first use vary with the environment
        prog = prog + main if sum(e) % 2 else main + prog
        if sum(e) % 3 == 0:
            names.reverse()
        return self.run_all(prog, names, [bool(sum(e) % 2)] if sum(e) % 5 else [False, True])

    def do_defs(self, attrs, how):
        """Entries defined again, attributes repeated."""
        al = [["xy"[a % 2], [[T("p%d" % k)], [T("q"), P(V("s"))], [P(S("r%d" % k))]][a // 2]] for k, a in enumerate(attrs)]
        prog, names = [], []
        parts = [al] if how < 2 else [al[k:] for k in range(len(al) or 1)] if how == 2 else [[x] for x in al]
        for k, part in enumerate(parts):
            prog.append(["msg", "a", [T("value%d" % k)], part])
            prog.append(["term", "a", [T("term%d" % k), P(V("s"))], part])
            if how == 1:
                prog.append(["msg", "x", [T("other")], part[::-1]])
        for k, e in enumerate([M("a"), M("a", "x"), M("a", "y"), TR("a"), M("x", "x"),
                               *(SEL(TR("a", n, [[], [["s", S("w")]]]), *[(v + str(k), [T(v + str(k))]) for v in "pr" for k in range(4)],
                                     ("qw", [T("QW")]), ("*none", [T("no")])) for n in "xyz")]):
            names.append("m%d" % k)
            prog.append(["msg", names[-1], [P(e), T("."), P(e)], []])
        r = rt.Runner(prog, isolating=False)
        outs = [r.run(name, None, args)[0][:12] for name in names + ["a", "x"] if name in r.model.msgs for args in ARGSETS[:2]]
        for name in ("a", "x"):
            if name in r.model.msgs:
                attrs = r.model.msgs[name][1]
                if set(r.bundle.get_message(name).attributes) != set(attrs):
                    raise Violation("attributes of %s: %r" % (name, list(r.bundle.get_message(name).attributes)))
                for a in attrs:
                    outs.append(r.run(name, a, ARGSETS[0])[0][:12])
        return outs

    def do_pair(self, i, e):
        env = ENVS[e]
        prog = env_program(*env)
        names = []
        for j, y in enumerate(ATOMS):
            for k, pat in enumerate([[P(ATOMS[i]), P(y)], [T("<"), P(ATOMS[i]), P(y)], [P(ATOMS[i]), T(" & "), P(y)],
                                     [P(ATOMS[i]), P(y), T(">")]]):
                names.append("m%d-%d" % (j, k))
                prog.append(["msg", names[-1], pat, []])
        return self.run_all(prog, names, [e % 2 == 0])

    def do_triple(self, i, j):
        prog = env_program(*ENVS[(i + j) % len(ENVS)])
        names = []
        for k, z in enumerate(ATOMS):
            names.append("m%d" % k)
            prog.append(["msg", names[-1], [P(ATOMS[i]), P(ATOMS[j]), P(z)], []])
        return self.run_all(prog, names, [False])

    def do_literals(self, k, d, neg):
        prog, names = [["term", "t", [P(V("n")), T(" "), P(SEL(V("n"), ("1", [T("one")]), ("*o", [T("other")])))], []]], []
        for seq in DIGITS:
            t = (seq * 90)[:k + d]
            lit = "-" * neg + t[:k] + ("." + t[k:] if d else "")
            near = lit[:-1] + ("1" if lit[-1] == "2" else "2")
            for p in ([P(N(lit))], [T("a "), P(N(lit)), T(" b")], [P(F("ECHO", [N(lit)], [["k", N(lit)]]))], [P(F("NUMBER", [N(lit)]))],
                      [P(TR("t", None, [[], [["n", N(lit)]]]))], [P(PL(N(lit)))],
                      [P(SEL(N(lit), (near, [T("near")]), (lit, [T("same")]), ("*o", [T("other")])))],
                      [P(SEL(N(near), (lit, [T("same")]), (near, [T("near")]), ("*o", [T("other")])))],
                      [P(SEL(V("lit"), (lit, [T("same")]), (near, [T("near")]), ("*o", [T("other")])))]):
                names.append(("m%d" % len(names), lit))
                prog.append(["msg", names[-1][0], p, []])
        r = rt.Runner(prog, isolating=bool((k + d) % 2))
        outs = set()
        for name, lit in names:
            out, errs = r.run(name, None, {"lit": ["d", lit] if d else ["i", int(lit)]})
            outs.add((len(errs), out[:12]))
        return Result(len(outs), traces=len(names), states=len(names), transitions=len(names))

    def do_names(self, i):
        a = NAME
        c = NEAR_NAMES[i]
        n = 0
        for both in (False, True):
            prog = [["msg", a, [T("m")], [[a, [T("ma")]]]], ["term", a, [T("t"), P(V(a)), P(V(c))], [[a, [T("ta"), P(V(a)), P(V(c))]]]]]
            if both:
                prog += [["msg", c, [T("M")], [[a, [T("Ma")]], [c, [T("Mc")]]]], ["term", c, [T("T"), P(V(a)), P(V(c))], [[c, [T("Tc")]]]]]
            names = []
            for k, e in enumerate([M(a), M(c), M(a, a), M(a, c), M(c, a), M(c, c), V(a), V(c), *(TR(x, None, z) for x in (a, c) for z in (
                    None, [[], [[a, S("1")]]], [[], [[c, S("2")]]], [[], [[a, S("1")], [c, S("2")]]])),
                    *(SEL(TR(x, y), ("ta", [T("TA")]), ("Tc", [T("TC")]), ("*o", [T("O")])) for x in (a, c) for y in (a, c)),
                    *(F(x, [], [[y, S("w")]]) for x in ("ECHO", "ECHo".upper()[:-1], "ECHOO", "ECH-O", "ECHO_", "ECHO1") for y in (a, c))]):
                names.append("q%d" % k)
                prog.append(["msg", names[-1], [P(e), T("."), P(e)], []])
            r = rt.Runner(prog, isolating=False)
            for args in ({}, {a: ["s", "va"]}, {c: ["s", "vc"]}, {a: ["s", "va"], c: ["s", "vc"]}):
                for name in names:
                    r.run(name, None, args)
                    n += 1
            for x in (a, c):
                if r.bundle.has_message(x) != (x in r.model.msgs):
                    raise Violation("has_message(%r)" % x)
        return Result(len(c), traces=n, states=n, transitions=n)

    def do_nest(self, i, w, w2):
        prog = env_program(*ENVS[(i + w) % len(ENVS)])
        e = ATOMS[i]
        p = WRAPS[w2](WRAPS[w]([P(e)]))
        q = WRAPS[w2](WRAPS[w]([T("a"), P(e), T("b")]))
        extra = [["msg", "h0", p, [["at", q]]], ["term", "h1", p, [["at", q]]], ["msg", "m1", q, []],
                 ["msg", "m2", [T("via "), P(M("h0")), P(M("h0", "at"))], []],
                 ["msg", "m3", [P(TR("h1")), P(TR("h1", None, [[], [["s", S("ts")], ["v", N("4")]]])), P(V("s"))], []],
                 ["msg", "m4", [P(SEL(TR("h1", "at", [[], [["n", N("1")]]]), ("x", [T("X")]), ("*o", p)))], []],
                 ["msg", "m5", [P(M("h0")), P(TR("h1")), P(M("h0"))], []]]
        return self.run_all(prog + extra, ["h0", "m1", "m2", "m3", "m4", "m5"], [bool((w + w2) % 2)])


NAME = "my-Item_2b"
NEAR_NAMES = list(dict.fromkeys(x for x in (
    [NAME[:k] + c + NAME[k + 1:] for k in range(len(NAME)) for c in (NAME[k].swapcase(), "-", "_", "b", "0")]
    + [NAME[:k] + NAME[k + 1:] for k in range(len(NAME))] + [NAME[:k] + c + NAME[k:] for k in range(len(NAME) + 1) for c in "-_a0"]
    + [NAME.upper(), NAME.lower(), NAME.swapcase(), NAME + NAME, NAME[::-1]])
    if x != NAME and x[0].isalpha()))
DIGITS = ["31415926535897932384626433", "9", "10", "0", "999999999999999989", "000000000000000000001"]


def in_variant(p):
    return [P(SEL(V("n"), ("1", p), ("*o", [T("else "), *p])))]


def in_default(p):
    return [P(SEL(V("none"), ("1", [T("no")]), ("*o", p))), T(".")]


def in_placeable(p):
    if len(p) == 1 and p[0][0] == "p" and p[0][1][0] != "pl":
        return [P(PL(p[0][1]))]
    return [P(SEL(S("k"), ("*k", p)))]


def in_text(p):
    if p[0][0] == "t" or p[-1][0] == "t":
        return [P(S("[")), *p, P(S("]"))]
    return [T("["), *p, T("]")]


def in_arg(p):
    if len(p) == 1 and p[0][0] == "p" and p[0][1][0] not in ("sel",):
        return [P(F("ECHO", [p[0][1], N("1")], [["k", N("2.50")]])), T("!")]
    return [T("~"), P(SEL(N("2"), ("1", [T("one")]), ("2", p), ("*o", [T("o")])))]


def in_selector(p):
    e = p[0][1] if p[0][0] == "p" else None
    if len(p) == 1 and e and e[0] in ("str", "num", "var", "fn"):
        return [P(SEL(e, ("q", [T("Q")]), ("1", [T("I")]), ("x", [T("EX")]), ("*other", [T("O "), *p])))]
    return [*p, P(S("|"))]


WRAPS = [in_variant, in_default, in_placeable, in_text, in_arg, in_selector]
CHECK = C16()
