"""C17: bidi isolation wraps each interpolation and changes nothing else."""
import json

from .. import docs, ftlref, rt, rtref
from ..core import Check, Result, Scope, Violation, chunks, strings
from ..progs import ARGSETS, ATOMS, F, M, N, P, PL, S, SEL, T, TERMS, TR, V, VALUES, atoms_program, env_program
from ..rtref import FSI, PDI
from .c12 import decode
from fluent.runtime import FluentBundle, FluentResource
from .c16 import BX, ENVS, G, WRAPS, in_selector

# a function that hands an interpolated text on: not comparable as a selector
FEED = F("ID", [PL(V("s"))])
LITERALS = [T("a b"), P(S("q")), P(S("")), P(PL(S("z"))), P(N("1")), P(V("s")), P(V("none")), P(M("a")), P(TR("t")),
            P(PL(V("s"))), P(PL(PL(S("y")))), P(F("ECHO", [V("n")])), P(F("EMPTY")), P(F("NONE")),
            P(SEL(V("n"), ("1", [P(V("s"))]), ("*o", [T("o"), P(V("n"))])))]


LENGTHS = [["msg", "lone", [P(V("s"))], []], ["msg", "in", [T("a "), P(V("s")), T(" b")], []], ["msg", "two", [P(V("s")), P(V("s"))], []],
           ["msg", "ref", [T("r "), P(M("lone"))], []], ["msg", "ref2", [T("r "), P(M("in"))], []], ["msg", "fn", [T("f "), P(F("ID", [V("s")]))], []],
           ["msg", "sel", [T("-"), P(SEL(V("s"), ("a", [T("A")]), ("*o", [P(V("s"))])))], []], ["msg", "pl", [P(PL(V("s"))), T("p")], []]]
# one character of each bidi class and of each kind of text that might be taken for harmless
CLASSES = ["a", "1", "\u05d0", "\u0627", " ", "-", "\u200e", "\u0661", "\n", "."]
ALONE = CLASSES + list("A0z%,:;'\"!?()[]{}<>/\\_=#*+&@$~|^") + [
    "\u200f", "\u061c", "\u202a", "\u202c", "\u2066", "\u200b", "\u200d", "\u00a0", "\u202f", "\t", "\r", "\0", "\x7f", "\xad", "\u2028", "\u0301",
    "\xe9", "\u0416", "\u4e2d", "\u3042", "\uac00", "\u0e01", "\u0915", "\u06f1", "\u20ac", "\uff11", "\ufeff", "\U0001f600", "\U0001e900", "\U0010ffff"]
DIRECTIONS = ["ar", "he", "de", "hi", "ja", "fr"]
NUMBERS = [["i", 10 ** k + d] for k in range(13) for d in (0, 5)] + [["i", -(10 ** k)] for k in range(8)] + [["f", 1.5], ["f", -0.25]]


def strip(s):
    return s.replace(FSI, "").replace(PDI, "")


def balanced(s):
    depth = 0
    for c in s:
        if c == FSI:
            depth += 1
        elif c == PDI:
            depth -= 1
            if depth < 0:
                return False
    return depth == 0


def adjacent_text(p):
    return any(a[0] == "t" == b[0] for a, b in zip(p, p[1:]))


class C17(Check):
    id = "C17"
    assumptions = ["where isolation on and off are compared, arguments and texts hold no isolation marks themselves"]

    def scopes(self, tier):
        thorough = tier == "thorough"
        vals, terms = range(len(VALUES)), range(len(TERMS))
        envs = [[a, b, (a + t) % 4, t, u, (b + t) % 4] for a in vals for b in (vals if thorough else vals[::3])
                for t in terms for u in (range(len(TERMS)) if thorough else (0, 5))]

        def gen_env(block):
            for i in block:
                yield ["env", envs[i]]
        n = len(ATOMS)

        def gen_pairs(block):
            for i in block:
                for e in range(len(ENVS)):
                    yield ["pair", i, e]

        def gen_nest(block):
            for i in block:
                for w in range(len(WRAPS)):
                    for w2 in range(len(WRAPS)):
                        yield ["nest", i, w, w2]
        k = len(LITERALS)

        def gen_seq(block):
            for i, j in block:
                yield ["seq", i, j, 4 if thorough else 3]
        def gen_lengths(block):
            for k in block:
                yield ["length", k]

        def gen_marked(block):
            for a in block:
                yield ["marked", a]
        marked = list(strings([FSI, PDI, "\u2066", "\u202b", "a", " "], 4 if thorough else 3))
        texts = [s for s in docs.standard(tier, 2) if s.name.startswith(("holes", "edits", "trunc"))]
        for s in texts:
            s.name = "text-" + s.name
        return texts + [
            Scope("environments", "%d sets of definitions x %d expressions, alone and in text x %d argument sets, "
                  "isolation on and off" % (len(envs), n, len(ARGSETS)), chunks(range(len(envs)), 128), gen_env),
            Scope("sequences", "every pattern of <=%d elements over %d texts, literals and placeables"
                  % (4 if thorough else 3, k), [[(i, j)] for i in range(k) for j in range(k)], gen_seq),
            Scope("lengths", "interpolated texts of every length up to 2505 in text, alone, through messages, terms, functions and variants",
                  chunks(range(0, 2506), 64), gen_lengths),
            Scope("contents", "interpolated texts: 1..16 times every one of %d characters, all strings of <=%d characters over %d classes, "
                  "%d numbers" % (len(ALONE), 4 if thorough else 3, len(CLASSES), len(NUMBERS)),
                  chunks([c * k for c in ALONE for k in range(1, 17)] + list(strings(CLASSES, 4 if thorough else 3)) + NUMBERS, 64),
                  lambda block: (["content", t] for t in block)),
            Scope("directions", "interpolated texts and numbers: %d characters, all strings of <=2 over %d classes and %d numbers in 6 locales of either direction"
                  % (len(ALONE), len(CLASSES), len(NUMBERS)), [[l] for l in DIRECTIONS], lambda block: (["direction", l] for l in block)),
            Scope("marked", "every argument of <=%d symbols over 4 bidi controls, a letter and a blank, in text, alone, through "
                  "messages, terms, functions and variants" % (4 if thorough else 3), chunks(marked, 32), gen_marked),
            Scope("pairs", "all patterns of two placeables (4 text layouts) over %d expressions, %d environments"
                  % (n, len(ENVS)), chunks(range(n), 64), gen_pairs),
            Scope("nesting", "%d expressions inside %d x %d kinds of wrapping" % (n, len(WRAPS), len(WRAPS)),
                  chunks(range(n), 64), gen_nest),
        ]

    def run_case(self, scope, case):
        if isinstance(case, str):
            return self.do_text(case)
        return getattr(self, "do_" + case[0])(*case[1:])

    def compare(self, program, names, argsets=ARGSETS, source=None, feeds=False):
        on = rt.Runner(program, isolating=True, source=source, junk=source is not None)
        off = rt.Runner(program, isolating=False, source=source, junk=source is not None)
        n = 0
        marks = set()
        for args in argsets:
            for name in names:
                name, attr = name if isinstance(name, (tuple, list)) else (name, None)
                a, ea = on.run(name, attr, args, "isolation on: ")
                b, eb = off.run(name, attr, args, "isolation off: ")
                n += 2
                if on.model.aborted or off.model.aborted:
                    continue
                if not balanced(a):
                    raise Violation("unbalanced marks: %r\n%s" % (a, on.only(name)))
                if FSI in b or PDI in b:
                    raise Violation("marks without isolation: %r\n%s" % (b, on.only(name)))
                if not feeds and (strip(a) != b or ea != eb):
                    raise Violation("with isolation %r %r, without %r %r\n%s" % (a, ea, b, eb, on.only(name)))
                marks.add(a.count(FSI))
        return Result(tuple(sorted(marks)), traces=n, states=n // 2, transitions=n)

    def do_env(self, e):
        a, b, x, t, u, g = e
        prog = env_program(VALUES[a], VALUES[b] or VALUES[0], BX[x], TERMS[t], TERMS[u], G[g])
        main = atoms_program()
        return self.compare(prog + main, [m[1] for m in main])

    def do_marked(self, s):
        """Marks in what is interpolated are text like any other."""
        lit = S(s.replace("\\", ""))
        prog = [["msg", "lone", [P(V("s"))], []], ["msg", "in", [T("a "), P(V("s")), T(" b")], []],
                ["msg", "first", [P(V("s")), T(" b")], []], ["msg", "two", [P(V("s")), P(V("s"))], []],
                ["msg", "lit", [T("a "), P(lit), P(PL(lit))], []], ["msg", "text", [T("x" + s + "x"), P(V("s"))], []],
                ["msg", "ref", [T("r "), P(M("lone")), P(M("in"))], []], ["msg", "ref2", [P(M("in"))], []],
                ["term", "t", [P(V("v"))], []], ["term", "u", [T("u"), P(V("v"))], []],
                ["msg", "terms", [P(TR("t", None, [[], [["v", lit]]])), P(TR("u", None, [[], [["v", lit]]]))], []],
                ["msg", "fn", [P(F("ID", [V("s")])), T("."), P(F("ID", [PL(V("s"))]))], []],
                ["msg", "sel", [T("-"), P(SEL(V("s"), ("a", [T("A"), P(V("s"))]), ("*o", [P(V("s"))])))], []]]
        n = 0
        for iso in (True, False):
            r = rt.Runner(prog, isolating=iso)
            for e in prog:
                if e[0] == "msg":
                    r.run(e[1], None, {"s": ["s", s]}, "isolation %s: " % iso)
                    n += 1
        return Result(len(s), traces=n, states=n // 2, transitions=n)

    def do_length(self, k):
        return self.lengths(["s", "x" * k], k > 2498)

    def do_content(self, text):
        return self.lengths(["s", text] if isinstance(text, str) else text, text)

    def do_direction(self, locale):
        n = 0
        for t in ALONE + list(strings(CLASSES, 2)) + NUMBERS:
            n += self.lengths(["s", t] if isinstance(t, str) else t, 0, locale).traces
        return Result(locale, traces=n, states=n // 2, transitions=n)

    def lengths(self, arg, outcome, locale="en"):
        n = 0
        for iso in (True, False):
            if (iso, locale) not in self._lengths:
                self._lengths[iso, locale] = rt.Runner(LENGTHS, isolating=iso, locale=locale)
            r = self._lengths[iso, locale]
            for e in LENGTHS:
                if e[0] == "msg":
                    r.run(e[1], None, {"s": arg}, "isolation %s: " % iso)
                    n += 1
        return Result(outcome, traces=n, states=n // 2, transitions=n)

    _lengths = {}

    def do_pair(self, i, e):
        prog = env_program(*ENVS[e])
        names = []
        for j, y in enumerate(ATOMS):
            for k, pat in enumerate([[P(ATOMS[i]), P(y)], [T("<"), P(ATOMS[i]), P(y)], [P(ATOMS[i]), T(" & "), P(y)],
                                     [P(ATOMS[i]), P(y), T(">")]]):
                names.append("m%d-%d" % (j, k))
                prog.append(["msg", names[-1], pat, []])
        return self.compare(prog, names, ARGSETS[:2])

    def do_nest(self, i, w, w2):
        prog = env_program(*ENVS[(i + w) % len(ENVS)])
        p = WRAPS[w2](WRAPS[w]([P(ATOMS[i])]))
        q = WRAPS[w2](WRAPS[w]([T("a"), P(ATOMS[i]), T("b")]))
        extra = [["msg", "h0", p, [["at", q]]], ["msg", "m2", [T("via "), P(M("h0")), P(M("h0", "at"))], []],
                 ["msg", "m3", [P(M("h0"))], []]]
        return self.compare(prog + extra, ["h0", "m2", "m3", ("h0", "at")],
                            feeds=ATOMS[i] == FEED and WRAPS.index(in_selector) in (w, w2))

    def do_seq(self, i, j, depth):
        pats = []
        seen = [[LITERALS[i]], [LITERALS[i], LITERALS[j]]]
        for k in LITERALS:
            seen.append([LITERALS[i], LITERALS[j], k])
            if depth > 3:
                seen += [[LITERALS[i], LITERALS[j], k, l] for l in LITERALS]
        prog = env_program(*ENVS[1])
        names = []
        for p in seen:
            if adjacent_text(p):
                continue
            names.append("m%d" % len(pats))
            pats.append(["msg", names[-1], json.loads(json.dumps(p)), []])
        b = FluentBundle(["en"])
        b.add_resource(FluentResource("m = <{ $s }>\n"))
        if b.format_pattern(b.get_message("m").value, {"s": "x"}) != ("<" + FSI + "x" + PDI + ">", []):
            raise Violation("isolation is not the default")
        return self.compare(prog + pats, names, ARGSETS[:1])

    def do_text(self, text):
        program = rtref.from_tree(ftlref.expected(text, False), decode)
        if not any(e[0] == "msg" for e in program):
            return None
        model = rtref.Interp(program)
        names = []
        for name, (value, attrs) in model.msgs.items():
            names += [(name, None)] if value is not None else []
            names += [(name, a) for a in attrs]
        return self.compare(program, names, [{"v": ["s", "V"], "n": ["i", 1]}], text)


CHECK = C17()
