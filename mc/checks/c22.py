"""C22: terms see only their own arguments."""
import itertools

from .. import rt
from ..core import Check, Result, Scope, Violation, chunks
from ..progs import F, M, N, P, PL, S, SEL, T, TR, V


def A(*pos, **named):
    return [list(pos), [[k, v] for k, v in named.items()]]


VARS = [P(V("a")), T("|"), P(V("b"))]
CALLS = [None, A(), A(a=S("a1")), A(b=N("2")), A(a=S("a3"), b=S("b3")), A(b=S("b4"), a=N("4.50")), A(V("a")), A(S("p"), V("b"), a=S("a5")), A(c=S("c6")),
         A(TR("u"), a=S("a7"))]
# bodies of -t, over -u and m
T_BODIES = [
    VARS, [T("x"), *VARS], [P(TR("u")), *VARS], [*VARS, P(TR("u", None, A(a=S("ta"))))], [P(TR("u", None, A(b=S("tb")))), P(TR("u")), *VARS],
    [P(M("m")), *VARS], [P(M("m", "at")), T(";"), P(V("a"))], [P(V("a"))], [P(PL(V("b"))), P(V("a"))],
    [P(SEL(V("a"), ("a1", VARS), ("*o", [T("other "), *VARS])))], [P(F("ECHO", [V("a"), TR("u")], [["k", S("w")]])), P(V("b"))],
    [P(SEL(TR("u", "at", A(a=S("ua"))), ("ua", [T("UA "), P(V("a"))]), ("*o", VARS)))], [P(SEL(TR("u", "at"), ("a", [T("bare")]), ("*o", VARS)))],
    [P(TR("miss", None, A(a=S("q")))), *VARS], [P(F("FAIL")), *VARS], [P(M("nope")), P(V("a"))], [P(TR("u", None, A(V("a")))), P(V("a"))],
    [P(F("NUMBER", [V("b")], [["minimumFractionDigits", N("1")]])), P(V("a"))], [P(SEL(V("b"), ("one", [T("ONE")]), ("2", [T("TWO")]), ("*o", VARS)))],
]
U_BODIES = [
    ([T("u:"), *VARS], [P(V("a"))]), ([P(V("a"))], [T("x"), P(V("b"))]), ([P(M("m")), P(V("b"))], [P(M("m"))]),
    ([P(SEL(V("b"), ("2", [T("two")]), ("*o", [P(V("a"))])))], [P(V("b"))]), ([P(TR("t")), P(V("a"))], [P(TR("t", None, A(a=S("z"))))]),
    ([P(TR("w", None, A(a=S("wa")))), P(V("a"))], [P(V("a"))]), ([P(V("miss")), P(V("a"))], [P(V("a"))]),
]
M_BODIES = [
    (VARS, [P(V("b"))]), ([P(V("a"))], [T("at "), P(V("miss")), P(V("a"))]), ([P(TR("w", None, A(a=S("ma"), b=S("mb")))), *VARS], [P(TR("w")), P(V("a"))]),
    ([P(F("ECHO", [V("a")])), P(V("c"))], [P(V("a"))]), ([P(SEL(V("a"), ("a1", [T("A1")]), ("*o", [P(V("b"))])))], [P(V("a"))]),
]
ARGSETS = [{}, {"a": ["s", "OUT-a"]}, {"a": ["i", 2], "b": ["s", "OUT-b"], "c": ["s", "OUT-c"]}, {"a": ["None"], "b": ["ftx", "e"]},
           {"a": ["s", "a1"], "b": ["i", 1]}]
CALLERS = [
    lambda c: [P(TR("t", None, c))], lambda c: [*VARS, P(TR("t", None, c)), *VARS], lambda c: [P(TR("t", None, c)), T(" "), P(TR("t")), T(" "), P(V("a"))],
    lambda c: [P(TR("t", None, A(a=S("first")))), P(TR("t", None, c)), P(V("b"))], lambda c: [P(SEL(TR("t", "at", c), ("a", [P(V("a"))]), ("*o", VARS))), P(V("a"))],
    lambda c: [P(F("ECHO", [TR("t", None, c), V("a")], [["k", N("1")]])), P(V("a"))], lambda c: [P(SEL(V("a"), ("a1", [P(TR("t", None, c)), P(V("b"))]), ("*o", [P(TR("t", None, c)), *VARS]))), P(V("a"))],
    lambda c: [P(PL(TR("t", None, c))), P(PL(V("a")))], lambda c: [P(M("m")), P(TR("t", None, c)), P(M("m"))],
]


def legal(c):
    """Named arguments are literals, positional ones anything."""
    return c is None or all(v[0] in ("str", "num") for _, v in c[1])


class C22(Check):
    id = "C22"
    assumptions = ["below the expansion limits"]

    def scopes(self, tier):
        thorough = tier == "thorough"
        nt, nu, nm = range(len(T_BODIES)), range(len(U_BODIES)), range(len(M_BODIES))

        def gen(block):
            for t, u in block:
                for m in nm:
                    for w in range(3):
                        if thorough or (t + u + m + w) % 3 < 2:
                            yield ["prog", t, u, m, w]

        def gen_deep(block):
            for d in block:
                yield ["deep", d]

        def gen_seq(block):
            for i, j in block:
                yield ["seq", i, j, 4 if thorough else 3]
        return [
            Scope("programs", "%d x %d x %d bodies of two terms and a message%s, %d ways of calling with %d argument lists each, %d argument sets"
                  % (len(nt), len(nu), len(nm), " x 3 of a further term" if thorough else "", len(CALLERS), len(CALLS), len(ARGSETS)),
                  [[(t, u)] for t in nt for u in nu], gen),
            Scope("chains", "chains of 1-6 terms, every combination of passing a, b, both, none at each step",
                  list([[d] for d in itertools.product(range(4), repeat=1)]) + [[d] for n in (2, 3, 4, 5) for d in itertools.product(range(4), repeat=n)]
                  + ([[d] for d in itertools.product(range(4), repeat=6)] if thorough else []), gen_deep),
            Scope("siblings", "every sequence of %d pieces: variables, terms with and without arguments, messages, failures" % (4 if thorough else 3),
                  [[(i, j)] for i in range(len(PIECES)) for j in range(len(PIECES))], gen_seq),
        ]

    def run_case(self, scope, case):
        return getattr(self, "do_" + case[0])(*case[1:])

    def do_prog(self, t, u, m, w):
        W = [VARS, [P(V("a"))], [P(V("b")), P(M("m", "at"))]][w]
        prog = [["term", "t", T_BODIES[t], [["at", T_BODIES[(t + u) % 10]]]], ["term", "u", U_BODIES[u][0], [["at", U_BODIES[u][1]]]],
                ["msg", "m", M_BODIES[m][0], [["at", M_BODIES[m][1]]]], ["term", "w", W, []]]
        names = []
        for i, caller in enumerate(CALLERS):
            for j, c in enumerate(CALLS):
                if (i + j + t) % 2 == 0 or i < 2:
                    names.append("c%d-%d" % (i, j))
                    prog.append(["msg", names[-1], caller(c), []])
        r = rt.Runner(prog, isolating=bool((t + m) % 2))
        outs = set()
        n = 0
        for args in ARGSETS:
            for name in names:
                text, errs = r.run(name, None, args)
                outs.add((text[:20], len(errs)))
                n += 1
        return Result(len(outs), traces=n, states=n, transitions=n)

    def do_deep(self, d):
        """-t0 calls -t1 calls ...; each step passes what d says."""
        passing = [None, A(a=S("A%d")), A(b=S("B%d")), A(b=S("B%d"), a=S("A%d"))]
        prog = []
        n = len(d)

        def call(i):
            import json
            return json.loads(json.dumps(passing[d[i]]).replace("%d", str(i)))
        for i in range(n):
            body = [T("%d(" % i), *VARS, T(")")]
            if i + 1 < n:
                body += [P(TR("t%d" % (i + 1), None, call(i + 1))), T("[%d " % i), *VARS, T("]")]
            else:
                body += [P(M("m"))]
            prog.append(["term", "t%d" % i, body, []])
        prog.append(["msg", "m", [T("m "), *VARS], []])
        prog.append(["msg", "top", [*VARS, P(TR("t0", None, call(0))), *VARS], []])
        r = rt.Runner(prog, isolating=False)
        outs = []
        # what each level must show, stated directly
        for args in ARGSETS[:3]:
            text, errs = r.run("top", None, args)
            for i in range(n):
                a = "A%d" % i if d[i] in (1, 3) else "a"
                b = "B%d" % i if d[i] in (2, 3) else "b"
                if "%d(%s|%s)" % (i, a, b) not in text or i + 1 < n and "[%d %s|%s]" % (i, a, b) not in text:
                    raise Violation("level %d of %r shows other values: %r" % (i, d, text))
            outs.append(len(errs))
        return Result(tuple(outs), traces=3, states=1, transitions=3)

    def do_seq(self, i, j, depth):
        prog = [["term", "t", VARS, [["at", [P(V("a"))]]]], ["term", "u", [P(TR("t", None, A(a=S("ut")))), P(V("a")), P(M("m"))], []],
                ["msg", "m", [T("m"), P(V("a"))], []]]
        names = []
        heads = [[PIECES[i], PIECES[j]]]
        pats = heads + [[*heads[0], *x] for n in range(1, depth - 1) for x in itertools.product(PIECES, repeat=n)]
        for k, p in enumerate(pats):
            els = [T("^")]
            for x in p:
                els += [P(x), T(" ")]
            els += [P(V("b")), T("$")]
            names.append("s%d" % k)
            prog.append(["msg", names[-1], els, []])
        r = rt.Runner(prog, isolating=False)
        n = 0
        outs = set()
        for args in ARGSETS:
            for name in names:
                text, errs = r.run(name, None, args)
                outs.add((text[:20], len(errs)))
                n += 1
        return Result(len(outs), traces=n, states=n, transitions=n)


PIECES = [V("a"), V("miss"), TR("t"), TR("t", None, A(a=S("s1"))), TR("t", None, A(b=N("5"), a=S("s2"))), TR("t", None, A(V("a"), b=S("s3"))), TR("u"),
          TR("u", None, A(a=S("s4"))), TR("miss"), TR("miss", None, A(a=S("s5"))), M("m"), M("nope"), F("FAIL"), F("ECHO", [TR("t", None, A(a=S("s6"))), V("a")]),
          SEL(TR("t", "at", A(a=S("x"))), ("x", [T("X"), P(V("a"))]), ("*o", [T("O"), P(V("a"))])),
          SEL(TR("t", "at"), ("x", [T("X"), P(V("a"))]), ("*o", [T("O"), P(V("a"))])),
          SEL(TR("t", "nope", A(a=S("x"))), ("x", [T("X"), P(V("a"))]), ("*o", [T("O"), P(V("a"))]))]
CALLS = [c for c in CALLS if legal(c)]
CHECK = C22()
