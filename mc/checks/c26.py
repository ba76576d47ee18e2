"""C26: localization falls back to the first locale that has the value."""
import itertools
import os
import shutil

from .. import plurals
from ..core import scratch, Check, Result, Scope, Violation, chunks
from fluent.runtime import FluentBundle, FluentLocalization, FluentResource, FluentResourceLoader
from fluent.runtime.fallback import AbstractResourceLoader

IDS = ["one.ftl", "sub/two.ftl"]
LOCS = ["en", "fr", "ar"]
MISSING = "zz"
_parsed = {}


def parse(text):
    if text not in _parsed:
        _parsed[text] = FluentResource(text)
    return _parsed[text]


# state of an identifier in a bundle -> (text in first file, in second file)
STATES = {
    "-": ("", ""), "v": ("{i} = {i}{k}\n", ""), "w": ("", "{i} = {i}{k}\n"), "n": ("", "{i} =\n    .at = no value\n"), "t": ("-{i} = a term\n", ""),
    "d": ("{i} =\n    .at = no value\n", "{i} = {i}{k} too late\n"), "D": ("{i} = {i}{k}\n", "{i} = {i}{k} too late\n"),
    "r": ("{i} = ref {{ {o} }}\n", ""), "e": ("", "{i} = {{ $none }}{{ FAIL() }}{k}\n"), "m": ('{i} = {{ "" }}\n', ""), "j": ("{i} = {{ junk\n", "# {i} = comment\n"),
    "x": ("{i} = {i}{k}\n    .at = ignored\n", ""), "l": ("{i} = {i}{k} {{ LONG() }}\n", ""),
}
TOO_LONG = "{???}"      # the answer for a message with an argument of more than 2500 characters
HAS = set("vwDremxl")


class Stop(Exception):
    pass


class Broken(BaseException):
    pass


ERRORS = [Stop, UnicodeError, KeyError, OSError, RuntimeError, LookupError, Broken]


class Loader(AbstractResourceLoader):
    """plan: per locale a list of lists of texts; fail: {(locale, n): [errors]}"""

    def __init__(self, plan, fail=None):
        self.plan, self.fail, self.log, self.asked = plan, fail or {}, [], []

    def resources(self, locale, resource_ids):
        self.asked.append((locale, list(resource_ids)))
        for n, texts in enumerate(self.plan.get(locale, ())):
            todo = self.fail.get((locale, n))
            if todo:
                raise todo.pop()
            self.log.append((locale, n))
            yield [parse(t) for t in texts]


def long():
    return "x" * 2501


def fail():
    raise ValueError("failed")


FUNCTIONS = {"FAIL": fail, "LONG": long}


def texts(k, states, ids=("a", "b")):
    out = ["", ""]
    for j, (i, s) in enumerate(zip(ids, states)):
        for f in (0, 1):
            out[f] += STATES[s][f].format(i=i, k=k, o=ids[1 - j])
    return out


def value(chain, i, ids=("a", "b")):
    """(answer, how many bundles are needed)"""
    for k, states in enumerate(chain):
        s = dict(zip(ids, states)).get(i, "-")
        if s in HAS:
            return show(k, states, i, ids, 0), k + 1
    return i, None


def show(k, states, i, ids, depth):
    s = dict(zip(ids, states))[i]
    if s == "e":
        return "noneFAIL()%d" % k
    if s == "m":
        return ""
    if s == "l":
        return TOO_LONG
    if s != "r":
        return "%s%d" % (i, k)
    o = ids[1 - ids.index(i)]
    so = dict(zip(ids, states))[o]
    if so == "r":
        return "ref ref ???" if depth == 0 else "ref ???"
    if so in HAS:
        inner = show(k, states, o, ids, 1)
        return inner if inner == TOO_LONG else "ref " + inner
    return "ref " + (o if so in "nd" else "{%s}" % o)


def shapes(nloc, limit):
    for n in range(1, nloc + 1):
        for s in itertools.product(range(3), repeat=n):
            if 1 <= sum(s) <= limit:
                yield s


class C26(Check):
    id = "C26"
    assumptions = ["loaders follow AbstractResourceLoader: they do not yield empty lists"]

    def scopes(self, tier):
        deep = tier == "thorough"
        small = "-vn" if not deep else "-vndr"
        cells = ["".join(x) for x in itertools.product(small, "-v")]
        shp = list(shapes(3, 3))
        seqs = ["".join(x) for n in ((1, 2, 3) if not deep else (1, 2, 3, 4)) for x in itertools.product("abz", repeat=n)]
        pairs = ["".join(x) for x in itertools.product(STATES, repeat=2)]
        lists = [list(x) for n in (1, 2, 3) for x in itertools.product(["en", "fr", "ar", "tlh", "ja", "de"], repeat=n)]
        files = ["-", "a", "b"] if not deep else ["-", "a", "b", "n"]

        def gen_matrix(block):
            for s in block:
                for cs in itertools.product(cells, repeat=sum(s)):
                    yield ["matrix", list(s), list(cs), seqs]

        def gen_kinds(block):
            for c in block:
                for c2 in pairs:
                    yield ["matrix", [1, 1], [c, c2], ["ab", "ba", "aa"]]
                if deep:
                    for c2 in pairs:
                        yield ["matrix", [2, 1], [c, c2, "vv"], ["ab", "ba"]]

        def gen_rules(block):
            for i in block:
                yield ["rules", lists[i]]

        def gen_faults(block):
            for s in block:
                total = sum(s)
                for cs in itertools.product(["v-", "-v", "--"], repeat=total):
                    for at in range(total):
                        for times in (1, 2, 9):
                            yield ["fault", list(s), list(cs), at, times]

        def gen_nested(block):
            for c in block:
                yield ["nested", c]

        def gen_files(block):
            for b in block:
                for rest in itertools.product(files, repeat=6):
                    yield ["files", list(b + rest)]
        return [
            Scope("matrices", "%d shapes of up to 3 locales and 3 bundles (0-2 per locale) x %d states per bundle x all histories of up to %d queries of 3 identifiers"
                  % (len(shp), len(cells), len(seqs[-1])), [[s] for s in shp], gen_matrix),
            Scope("kinds", "two bundles of two files: %d x %d kinds of definition each, both orders of query" % (len(pairs), len(pairs)), chunks(pairs, 24), gen_kinds),
            Scope("rules", "%d lists of up to 3 of 6 locales (one unknown): numbers, plurals, isolation, functions, bundle classes" % len(lists), chunks(range(len(lists)), 32), gen_rules),
            Scope("faults", "%d shapes x 3 states x each bundle failing 1, 2 or 9 times x 4 histories x %d kinds of error" % (len(shp), len(ERRORS)), [[s] for s in shp], gen_faults),
            Scope("nested", "queries made by functions during queries; two objects sharing a loader: all interleavings of 2+2 queries",
                  chunks([list(x) for x in itertools.product(["vv", "v-", "-v", "--"], repeat=2)], 16), gen_nested),
            Scope("files", "2 roots x 2 locales x 2 files, each missing or with one of %d contents: loader and localization" % (len(files) - 1),
                  [[b] for b in itertools.product(files, repeat=2)], gen_files),
        ]

    def run_case(self, scope, case):
        return getattr(self, "do_" + case[0])(*case[1:])

    def build(self, shape, cells, fail=None):
        plan, chain, where = {}, [], []
        it = iter(enumerate(cells))
        for loc, n in zip(LOCS, shape):
            plan[loc] = []
            for j in range(n):
                k, c = next(it)
                t = texts(k, c)
                plan[loc].append(t if k % 3 else [x for x in t if x] or [""])
                chain.append(c)
                where.append((loc, j))
        return Loader(plan, {where[a]: e for a, e in (fail or {}).items()}), chain, where

    def do_matrix(self, shape, cells, seqs):
        locales = LOCS[:len(shape)]
        n, states = 0, set()
        for seq in seqs:
            loader, chain, where = self.build(shape, cells)
            ids = list(IDS)
            l10n = FluentLocalization(list(locales), ids, loader, functions=FUNCTIONS)
            if loader.log:
                raise Violation("bundles are loaded before the first query: %r" % loader.log)
            need = 0
            for step, i in enumerate(seq):
                i = MISSING if i == "z" else i
                want, k = value(chain, i)
                got = l10n.format_value(i) if step % 2 else l10n.format_value(i, {"u": 1})
                n += 1
                if got != want:
                    raise Violation("%s over %r: query %d of %s gives %r, should be %r" % (shape, cells, step, seq, got, want))
                need = max(need, len(chain) if k is None else k)
                states.add((need, i))
                if loader.log != where[:need]:
                    raise Violation("%s over %r: after query %d of %s, loaded %r, should be %r" % (shape, cells, step, seq, loader.log, where[:need]))
            if any(a[1] != IDS for a in loader.asked) or ids != IDS or [a[0] for a in loader.asked] != locales[:len(loader.asked)]:
                raise Violation("asked for %r" % loader.asked)
        return Result((len(states), need), traces=n, states=len(states), transitions=n)

    def do_rules(self, locales):
        numbers = {"en": "1,234.5", "fr": "1\u202f234,5", "ar": "1,234.5", "ja": "1,234.5", "de": "1.234,5"}
        n = 0
        sel = "{ $n ->\n [zero] zero\n [one] one\n [two] two\n [few] few\n [many] many\n *[other] other\n }"
        # message m<k> exists in the bundles from the k-th on
        for iso in (False, True, None):
            for cls in (None, Shout):
                plan = {}
                for k, loc in enumerate(locales):
                    plan.setdefault(loc, [[]])
                for loc in plan:
                    first = locales.index(loc)
                    plan[loc] = [["".join("m%d = %s { $x } %s { GIVEN($x) } { NUMBER(1) }\n" % (j, loc, sel) for j in range(first + 1)) + "\n"]]
                loader = Loader(plan)
                kw = {} if iso is None else {"use_isolating": iso}
                if cls:
                    kw["bundle_class"] = cls
                functions = {"GIVEN": lambda x: "given", "NUMBER": lambda x: "own"}
                l10n = FluentLocalization(locales, ["x"], loader, functions=functions, **kw)
                a, z = ("\u2068", "\u2069") if iso else ("", "")
                for k in reversed(range(len(locales))):
                    if locales.index(locales[k]) != k:
                        continue
                    rules = next((x for x in locales[k:] if x != "tlh"), None)
                    if rules is None:
                        continue    # the default locale of the environment
                    for count in (0, 1, 2, 3, 11, 100):
                        want = "%s %s %s %s%s%s %s%s" % (locales[k], a + numbers[rules] + z, a + plurals.category(count, rules) + z, a, "given", z, a + "own" + z, "")
                        if cls:
                            want = want.upper()
                        got = l10n.format_value("m%d" % k, {"x": 1234.5, "n": count})
                        n += 1
                        # functions returning plain strings are isolated as well
                        if got != want:
                            raise Violation("m%d of %r with %r: %r, should be %r" % (k, locales, kw, got, want))
        if set(functions) != {"GIVEN", "NUMBER"}:
            raise Violation("the functions were changed: %r" % functions)
        return Result(n, traces=n, states=n, transitions=n)

    def do_fault(self, shape, cells, at, times):
        n = 0
        for h, seq in enumerate(["aaab", "baba", "zaz", "zzba"]):
            for e, error in enumerate(ERRORS):
                if (e + h + at) % 3 and times != 1:
                    continue
                errors = [error("load %d" % t) for t in range(times)]
                left = list(errors)
                loader, chain, where = self.build(shape, cells, {at: left})
                l10n = FluentLocalization(LOCS[:len(shape)], IDS, loader, functions=FUNCTIONS)
                got_upto = 0
                for step, i in enumerate(seq):
                    i = MISSING if i == "z" else i
                    want, k = value(chain, i)
                    k = len(chain) if k is None else k
                    before = len(left)
                    try:
                        got = l10n.format_value(i)
                    except error as x:
                        if not any(x is y for y in errors):
                            raise
                        got = x
                    n += 1
                    ctx = "%s over %r, bundle %d fails %d times with %s: query %d of %s" % (shape, cells, at, times, error.__name__, step, seq)
                    if k > at and got_upto <= at and before:
                        if not isinstance(got, error):
                            raise Violation("%s gives %r instead of the error" % (ctx, got))
                    elif got != want:
                        raise Violation("%s gives %r, should be %r" % (ctx, got, want))
                    else:
                        if len(left) != before:
                            raise Violation("%s hides an error" % ctx)
                        got_upto = max(got_upto, k)
        return Result(n, traces=n, states=n, transitions=n)

    def do_nested(self, cells):
        n = 0
        # messages q<i>: ask for i while formatting; in the second bundle
        for where in (0, 1):
            for outer, inner in itertools.product("abz", repeat=2):
                for first in ("", "a", "b", "z"):
                    loader, chain, at = self.build([1, 1], cells)
                    extra = "qa = Q { ASK(\"a\") }\nqb = Q { ASK(\"b\") }\nqz = Q { ASK(\"z\") }\nqq = { ASK(\"q%s\") }\n" % inner
                    plan = loader.plan
                    plan[LOCS[where]][0] = plan[LOCS[where]][0] + [extra]
                    box = []
                    l10n = FluentLocalization(LOCS[:2], IDS, loader, functions={"ASK": lambda i: box[0].format_value(i)})
                    box.append(l10n)
                    seq = ([first] if first else []) + ["q" + outer, "qq", "q" + inner]
                    for i in seq:
                        if i == "qq":
                            want = "Q " + value(chain, inner)[0]
                        elif i[0] == "q":
                            want = "Q " + value(chain, i[1])[0]
                        else:
                            want = value(chain, i)[0]
                        got = l10n.format_value(i)
                        n += 1
                        if got != want:
                            raise Violation("%r with queries in functions: %s of %r gives %r, should be %r" % (cells, i, seq, got, want))
                    if len(loader.log) != len(set(loader.log)):
                        raise Violation("loaded twice: %r" % loader.log)
        # two objects over one loader
        for order in itertools.product((0, 1), repeat=4):
            for qs in itertools.product("abz", repeat=2):
                loader, chain, at = self.build([1, 1], cells)
                rev = [LOCS[1], LOCS[0]]
                objs = [FluentLocalization(LOCS[:2], IDS, loader), FluentLocalization(rev, IDS, loader)]
                for step, o in enumerate(order):
                    i = qs[step % 2]
                    i = MISSING if i == "z" else i
                    if o == 0:
                        want = value(chain, i)[0]
                    else:
                        w, k = value(chain[::-1], i)
                        want = w if k is None else value([("--", chain[1])[k == 1], ("--", chain[0])[k == 2]][::-1], i)[0]
                    got = objs[o].format_value(i)
                    n += 1
                    if got != want:
                        raise Violation("%r: two objects asked in order %r: %s gives %r, should be %r" % (cells, order, i, got, want))
        return Result(n, traces=n, states=n, transitions=n)

    def do_files(self, cells):
        """cells: root, locale, file in this order"""
        d = scratch("verif-c26-")
        n = 0
        try:
            it = iter(cells)
            chain, names = [], []
            grid = {}
            for root in ("r1", "r2"):
                for loc in LOCS[:2]:
                    grid[root, loc] = [next(it), next(it)]
            for loc in LOCS[:2]:
                for root in ("r1", "r2"):
                    here = {}
                    for f, c in enumerate(grid[root, loc]):
                        if c == "-":
                            continue
                        path = os.path.join(d, root, loc, IDS[f])
                        os.makedirs(os.path.dirname(path), exist_ok=True)
                        with open(path, "w", encoding="utf-8") as fh:
                            fh.write({"n": "a =\n    .x = X\n"}.get(c, "%s = %s %s %s %d\n" % (c, c, root, loc, f)))
                        if c == "n":
                            here.setdefault("a", None)
                        else:
                            here.setdefault(c, "%s %s %s %d" % (c, root, loc, f))
                    if any(c != "-" for c in grid[root, loc]):
                        chain.append(here)
            for seq in ("abz", "bza", "zab"):
                roots = [os.path.join(d, r, "{locale}") for r in ("r1", "r2")]
                l10n = FluentLocalization(LOCS[:2], IDS, FluentResourceLoader(roots))
                for i in seq:
                    want = next((c[i] for c in chain if c.get(i) is not None), i)
                    got = l10n.format_value(i)
                    n += 1
                    if got != want:
                        raise Violation("files %r: %s of %s gives %r, should be %r" % (cells, i, seq, got, want))
        finally:
            shutil.rmtree(d)
        return Result(len(chain), traces=n, states=n, transitions=n)


class Shout(FluentBundle):
    def format_pattern(self, pattern, args=None):
        v, e = super().format_pattern(pattern, args)
        return v.upper(), e


CHECK = C26()
