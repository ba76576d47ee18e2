"""C28: threads sharing a bundle or localization get the sequential answers."""
import datetime
import importlib
import os
import sys
from decimal import Decimal

from .. import sched
from ..core import Check, Result, Scope, Violation
from ..impl import REPO

ABSENT = object()
_ready = False


def prepare():
    """Imports the code under test afresh with cooperative locks, and warms
    up Babel (but nothing of fluent)."""
    global _ready, _cold, FluentBundle, FluentLocalization, FluentResource, FluentResourceLoader, fluent_number, fluent_date
    if _ready:
        return
    _ready = True
    import babel.dates
    import babel.numbers
    import babel.plural
    for loc in ("en", "de", "fr", "pl", "ar"):
        x = babel.Locale.parse(loc)
        babel.numbers.format_decimal(1234.5, locale=x)
        babel.numbers.format_currency(1, "EUR", locale=x)
        babel.numbers.format_percent(0.5, locale=x)
        babel.dates.format_datetime(datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc), "full", locale=x)
        babel.dates.format_date(datetime.date(2020, 1, 1), "full", locale=x)
        babel.plural.to_python(x.plural_form)(1)
        babel.plural.to_python(x.ordinal_form)(1)
    for m in [m for m in sys.modules if m.startswith(("fluent.runtime", "fluent.syntax")) or m.endswith("c28_helpers")]:
        del sys.modules[m]
    with sched.patched(), sched.recorded():
        from . import c28_helpers       # noqa: F401
        fr = importlib.import_module("fluent.runtime")
    ty = importlib.import_module("fluent.runtime.types")
    FluentBundle, FluentLocalization, FluentResource = fr.FluentBundle, fr.FluentLocalization, fr.FluentResource
    FluentResourceLoader = fr.FluentResourceLoader
    fluent_number, fluent_date = ty.fluent_number, ty.fluent_date
    _cold = sched.ColdStart([m for n, m in sys.modules.items() if n.startswith(("fluent.runtime", "fluent.syntax"))])


RUNTIME = os.path.join(os.path.realpath(REPO), "fluent.runtime", "fluent", "runtime") + os.sep
SYNTAX_AST = os.path.join(os.path.realpath(REPO), "fluent.syntax", "fluent", "syntax", "ast.py")
HELPERS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "c28_helpers.py")


def traced(name):
    n = os.path.realpath(name)
    return n.startswith(RUNTIME) or n == HELPERS


def traced_ast(name):
    return traced(name) or os.path.realpath(name) == SYNTAX_AST


def traced_shared(name):
    return traced(name) and os.path.basename(name) in ("bundle.py", "fallback.py", "c28_helpers.py")


def traced_fallback(name):
    return traced(name) and os.path.basename(name) in ("fallback.py", "c28_helpers.py")


# granularity -> (events, files)
GRANULARITY = {"opcode": ("opcode", traced), "line": ("line", traced), "call": ("call", traced_ast), "shared": ("line", traced_shared), "fallback": ("line", traced_fallback)}
WHAT = {"opcode": "bytecode instruction of fluent.runtime", "line": "line of fluent.runtime", "call": "call or return of fluent.runtime and fluent.syntax.ast",
        "shared": "line of bundle.py and fallback.py", "fallback": "line of fallback.py"}


def errs(errors):
    return [[type(e).__name__, str(e)] for e in errors]


_res = {}


def bundle(src, functions=None, **kw):
    """Resources are parsed once per process: parsing is not explored."""
    b = FluentBundle(kw.pop("locales", ["en"]), functions=functions, use_isolating=kw.pop("isolating", False), **kw)
    if src not in _res:
        _res[src] = FluentResource(src)
    b.add_resource(_res[src])
    return b


def fmt(b, name, **args):
    def call():
        text, errors = b.format_pattern(b.get_message(name).value, args)
        return [text, errs(errors)]
    return call


def fmt_pattern(b, pattern, **args):
    def call():
        text, errors = b.format_pattern(pattern, args)
        return [text, errs(errors)]
    return call


def ask(l10n, name, **args):
    def call():
        return l10n.format_value(name, args)
    return call


OK = []
CYC = ["FluentCyclicReferenceError", "Cyclic reference"]


# scenario: () -> (threads: list of list of (call, expected), post calls: list of (call, expected))
def s_refs():
    b = bundle("a = A { b } { -t }\nb = B { -t.x ->\n [m] M\n *[n] N\n }\n-t = T { b.at }\n    .x = m\nc = { a } C\n    .k = v\n".replace("b.at", "c.k"))
    w = ["A B M T v", OK]
    return [[(fmt(b, "a"), w)], [(fmt(b, "a"), w), (fmt(b, "c"), ["A B M T v C", OK])]], [(fmt(b, "c"), ["A B M T v C", OK])]


def s_cycle():
    b = bundle("a = A { b }\nb = B { a }\ns = { s }\n")
    wa, wb = ["A B ???", [CYC]], ["B A ???", [CYC]]
    return [[(fmt(b, "a"), wa)], [(fmt(b, "b"), wb)]], [(fmt(b, "a"), wa), (fmt(b, "b"), wb), (fmt(b, "s"), ["???", [CYC]])]


def s_self():
    b = bundle("a = { a } x\n")
    w = ["??? x", [CYC]]
    return [[(fmt(b, "a"), w)], [(fmt(b, "a"), w)]], [(fmt(b, "a"), w)]


def s_args():
    """Arguments, term scopes and missing arguments do not leak."""
    b = bundle("m = { -t(x: 1) } { $x } { -t(y: \"q\") }\n-t = [{ $x } { $y }]\nn = { $x } { -t } { $y }\n")
    return ([[(fmt(b, "m", x="one"), ["[1 y] one [x q]", OK])],
             [(fmt(b, "n", x="two"), ["two [x y] y", [["FluentReferenceError", "Unknown external: y"]]])]],
            [(fmt(b, "m"), ["[1 y] x [x q]", [["FluentReferenceError", "Unknown external: x"]]])])


def s_select():
    src = "m = { $n ->\n [0] zero\n [one] one { $n }\n [few] few\n *[other] other { NUMBER($n, minimumFractionDigits: 1) }\n }\n"
    b = bundle(src)
    return [[(fmt(b, "m", n=1), ["one 1", OK])], [(fmt(b, "m", n=1234), ["other 1,234.0", OK])]], [(fmt(b, "m", n=0), ["zero", OK])]


def s_ordinal():
    src = 'm = { NUMBER($n, type: "ordinal") ->\n [one] st\n [two] nd\n *[other] th\n } { $n ->\n [one] one\n *[other] other\n }\n'
    b = bundle(src)
    n = fluent_number(2)
    return [[(fmt(b, "m", n=n), ["nd other", OK])], [(fmt(b, "m", n=1), ["st one", OK])]], [(fmt(b, "m", n=n), ["nd other", OK])]


def s_number():
    """One number object formatted with different options."""
    b = bundle('m = { NUMBER($n, style: "percent") } { $n }\nc = { NUMBER($n, maximumFractionDigits: 0) }\n')
    n = fluent_number(1234.56, style="currency", currency="EUR")
    return ([[(fmt(b, "m", n=n), ["123,456% \u20ac1,234.56", OK])], [(fmt(b, "c", n=n), ["\u20ac1,235", OK])]],
            [(fmt(b, "m", n=n), ["123,456% \u20ac1,234.56", OK])])


def s_grouping():
    """Different options for the same locale's pattern."""
    b = bundle("m = { NUMBER($n, useGrouping: 0) }\np = { $n }\nq = { NUMBER($n, minimumIntegerDigits: 6, minimumFractionDigits: 1) }\n")
    return ([[(fmt(b, "m", n=1234), ["1234", OK])], [(fmt(b, "p", n=5678), ["5,678", OK]), (fmt(b, "q", n=5678), ["005,678.0", OK])]],
            [(fmt(b, "p", n=1234), ["1,234", OK]), (fmt(b, "m", n=1234), ["1234", OK])])


def s_currency():
    b = bundle('m = { NUMBER($n, style: "currency", currency: "EUR", currencyDisplay: "code") }\n'
               'p = { NUMBER($n, style: "currency", currency: "JPY") }\n')
    return ([[(fmt(b, "m", n=1.5), ["EUR1.50", OK])], [(fmt(b, "p", n=1234), ["\u00a51,234", OK])]],
            [(fmt(b, "p", n=1), ["\u00a51", OK]), (fmt(b, "m", n=1.5), ["EUR1.50", OK])])


def s_isolated():
    """All kinds of nodes are compiled while the other thread does so, too."""
    b = bundle('a = A { b } { "l" }\nb = { c }\nc = { $n ->\n [1] { $n }\n *[o] o { $n }\n }\n    .at = { b }{ "" }x\nd = { "l" }\n', isolating=True)
    i = "\u2068%s\u2069"
    return ([[(fmt(b, "a", n=1), ["A " + i % "1" + " l", OK])], [(fmt(b, "c", n=2), ["o " + i % "2", OK]), (fmt(b, "d"), ["l", OK])]],
            [(fmt(b, "a", n=2), ["A " + i % ("o " + i % "2") + " l", OK]), (fmt(b, "b", n=1), ["1", OK])])


def s_date():
    b = bundle('m = { DATETIME($d, dateStyle: "short", timeZone: "UTC") } { $d }\n')
    d = fluent_date(datetime.datetime(2021, 7, 4, 22, 5, tzinfo=datetime.timezone.utc), dateStyle="long")
    return ([[(fmt(b, "m", d=d), ["7/4/21 July 4, 2021", OK])], [(fmt(b, "m", d=datetime.date(2020, 2, 3)), ["2/3/20 Feb 3, 2020", OK])]],
            [(fmt(b, "m", d=d), ["7/4/21 July 4, 2021", OK])])


def s_errors():
    def bad(*a, **k):
        raise ValueError("bad")
    b = bundle("m = { BAD() } { $x } { nope } { -nope } { noval }\nnoval =\n    .a = v\nn = { $x } { NOPE() }\n", {"BAD": bad})
    ref = "FluentReferenceError"
    return ([[(fmt(b, "m", x=1), ["BAD() 1 {nope} {-nope} noval", [["ValueError", "bad"], [ref, "Unknown message: nope"], [ref, "Unknown term: -nope"], [ref, "No pattern: noval"]]])],
             [(fmt(b, "n"), ["x NOPE()", [[ref, "Unknown external: x"], [ref, "Unknown function: NOPE"]]])]],
            [(fmt(b, "n", x=2), ["2 NOPE()", [[ref, "Unknown function: NOPE"]]])])


def s_limit():
    """The limit on parts counts each call's own parts."""
    b = bundle("a = %s\nb = %s\n" % ("{ b }" * 4, "{ \"\" }x" * 70))
    wa = ["x" * 280, OK]
    return [[(fmt(b, "a", v="v"), wa)], [(fmt(b, "a", v="v"), wa)]], [(fmt(b, "a", v="v"), wa)]


def s_compiled():
    """Patterns looked up before the threads start."""
    b = bundle("a = A { b }\nb = B { $n }\n    .at = at { a }\n")
    p, q = b.get_message("a").value, b.get_message("b").attributes["at"]
    return ([[(fmt_pattern(b, p, n=1), ["A B 1", OK])], [(fmt_pattern(b, q, n=2), ["at A B 2", OK]), (fmt_pattern(b, p, n=3), ["A B 3", OK])]],
            [(fmt_pattern(b, p, n=4), ["A B 4", OK])])


def s_lookup():
    b = bundle("a = A\n    .x = ax { -t }\n-t = T\nb = { a.x }\n")

    def has():
        return [b.has_message("a"), b.has_message("-t"), b.has_message("zz"), sorted(b.get_message("a").attributes)]

    def attr():
        m = b.get_message("a")
        return b.format_pattern(m.attributes["x"])[0]
    return ([[(has, [True, False, False, ["x"]]), (attr, "ax T")], [(fmt(b, "b"), ["ax T", OK]), (has, [True, False, False, ["x"]])]],
            [(attr, "ax T")])


def s_reenter():
    """Functions that format another message through the same bundle."""
    box = []

    def sub(name, **kw):
        m = box[0].get_message(name)
        return box[0].format_pattern(m.value, kw)[0]
    b = bundle('a = A { SUB("b", n: 1) } { $n }\nb = B { $n } { c }\nc = C { $n ->\n [one] one\n *[other] other\n }\n', {"SUB": sub})
    box.append(b)
    return ([[(fmt(b, "a", n=5), ["A B 1 C one 5", OK])], [(fmt(b, "b", n=7), ["B 7 C other", OK])]],
            [(fmt(b, "a", n=6), ["A B 1 C one 6", OK])])


def s_two_bundles():
    """Two bundles sharing a resource and functions, with different rules."""
    from . import c28_helpers
    src = "m = { $n } { $n ->\n [one] one\n *[other] other\n } { F($n) }\n"
    f = {"F": c28_helpers.show}
    b, c = bundle(src, f), bundle(src, f, locales=["fr"])
    return ([[(fmt(b, "m", n=0), ["0 other <0>", OK])], [(fmt(c, "m", n=0), ["0 one <0>", OK])]],
            [(fmt(b, "m", n=1.5), ["1.5 other <1.5>", OK]), (fmt(c, "m", n=1.5), ["1,5 one <1.5>", OK])])


def s_three():
    b = bundle("a = A { b }\nb = B { a }\n")
    wa, wb = ["A B ???", [CYC]], ["B A ???", [CYC]]
    return [[(fmt(b, "a"), wa)], [(fmt(b, "b"), wb)], [(fmt(b, "a"), wa)]], [(fmt(b, "b"), wb)]


def l10n_of(plan, fail=None, locales=None, **kw):
    from . import c28_helpers
    loader = c28_helpers.make_loader(importlib.import_module("fluent.runtime.fallback").AbstractResourceLoader, parse_cached, plan, fail)
    return FluentLocalization(locales or list(plan), ["x.ftl"], loader, **kw), loader


def parse_cached(src):
    if src not in _res:
        _res[src] = FluentResource(src)
    return _res[src]


def logged(loader):
    return lambda: [list(x) for x in loader.log]


def s_first():
    """The first calls: nothing is loaded yet."""
    l, ld = l10n_of({"en": ["a = en { $n }\n"], "de": ["a = de\nb = de { $n }\n"]})
    return ([[(ask(l, "a", n=1), "en 1")], [(ask(l, "a", n=2), "en 2")]],
            [(ask(l, "a", n=1.5), "en 1.5"), (logged(ld), [["en", 0]]), (ask(l, "b", n=1.5), "de 1,5"), (logged(ld), [["en", 0], ["de", 0]])])


def s_deep():
    """One asks for what the first has, one for what the last has."""
    l, ld = l10n_of({"en": ["a = en\n"], "fr": ["a = fr\n", "a = fr2\nb = fr2\n"], "de": ["c = de\n"]})
    order = [["en", 0], ["fr", 0], ["fr", 1], ["de", 0]]
    return ([[(ask(l, "a"), "en"), (ask(l, "b"), "fr2")], [(ask(l, "c"), "de"), (ask(l, "a"), "en")]],
            [(logged(ld), order), (ask(l, "a"), "en"), (ask(l, "b"), "fr2"), (ask(l, "c"), "de"), (ask(l, "zz"), "zz"), (logged(ld), order)])


def s_missing():
    l, ld = l10n_of({"en": ["a = en\n"], "fr": ["b =\n    .at = no value\n"]})
    order = [["en", 0], ["fr", 0]]
    return ([[(ask(l, "zz"), "zz"), (ask(l, "a"), "en")], [(ask(l, "b"), "b")]],
            [(logged(ld), order), (ask(l, "b"), "b"), (ask(l, "a"), "en"), (logged(ld), order)])


def s_three_l10n():
    l, ld = l10n_of({"en": ["a = en\n"], "fr": ["b = fr\n"]})
    order = [["en", 0], ["fr", 0]]
    return ([[(ask(l, "a"), "en")], [(ask(l, "b"), "fr")], [(ask(l, "b"), "fr")]],
            [(logged(ld), order), (ask(l, "a"), "en"), (ask(l, "b"), "fr"), (logged(ld), order)])


def s_same_text():
    l, ld = l10n_of({"en": ["a = A { b }\nb = B { a }\n"], "fr": ["c = { c }\n"]})
    return ([[(ask(l, "a"), "A B ???")], [(ask(l, "b"), "B A ???"), (ask(l, "c"), "???")]], [(ask(l, "a"), "A B ???")])


def s_fault():
    """The loader fails once: whoever needs the bundle may see it."""
    l, ld = l10n_of({"en": ["a = en\n"], "fr": ["b = fr\n"]}, {("fr", 0): 1})
    order = [["en", 0], ["fr", 0]]
    seen = []

    def b():
        try:
            r = l.format_value("b")
        except OSError as e:
            r = "failed"
        seen.append(r)
        return "done" if r in ("fr", "failed") else r

    def both():
        return sorted(seen)

    def bundles():
        out = []
        for x in ld.log:
            if list(x) not in out:
                out.append(list(x))
        return out
    return ([[(b, "done")], [(b, "done"), (ask(l, "a"), "en")]],
            [(both, ["failed", "fr"]), (ask(l, "b"), "fr"), (ask(l, "a"), "en"), (ask(l, "zz"), "zz"), (bundles, order)])


def s_shared_loader():
    """Two localizations over one loader and one set of functions."""
    from . import c28_helpers
    f = {"F": c28_helpers.show}
    l, ld = l10n_of({"en": ["a = en { F($n) }\n"], "fr": ["b = fr { F($n) } { $n }\n"]}, functions=f)
    k = FluentLocalization(["fr", "en"], ["x.ftl"], ld, functions=f)
    return ([[(ask(l, "b", n=1.5), "fr <1.5> 1,5")], [(ask(k, "a", n=2), "en <2>"), (ask(k, "b", n=2), "fr <2> 2")]],
            [(ask(l, "a", n=1), "en <1>"), (ask(k, "a", n=1), "en <1>")])


def s_files():
    from . import c28_helpers
    d = c28_helpers.scratch()
    l = FluentLocalization(["en", "fr"], ["x.ftl", "y.ftl"], FluentResourceLoader(os.path.join(d, "{locale}")))
    return ([[(ask(l, "b"), "fr b")], [(ask(l, "a"), "en a"), (ask(l, "b"), "fr b")]],
            [(ask(l, "c"), "fr c"), (ask(l, "a"), "en a"), (ask(l, "zz"), "zz")])


SCENARIOS = {f.__name__[2:]: f for f in (
    s_grouping, s_currency, s_isolated, s_refs, s_cycle, s_self, s_args, s_select, s_ordinal, s_number, s_date, s_errors, s_limit, s_compiled, s_lookup, s_reenter, s_two_bundles, s_three,
    s_first, s_deep, s_missing, s_three_l10n, s_same_text, s_fault, s_shared_loader, s_files)}


def make(name):
    threads, post = SCENARIOS[name]()
    return [[c for c, _ in t] for t in threads], lambda: [c() for c, _ in post]


def expected(name):
    threads, post = SCENARIOS[name]()
    return [[w for _, w in t] for t in threads], [w for _, w in post]


def run(name, gran, plan):
    _cold.reset()
    r = sched.execute(lambda: make(name), plan, *GRANULARITY[gran])
    return r


def judge(name, gran, plan, r):
    want, want_post = expected(name)
    at = "; ".join("thread %d goes on at step %d%s" % (t, s, " (preempting at %s)" % r["places"][s] if s in r["places"] else "") for s, t in plan)
    if r["deadlock"]:
        raise Violation("%s: deadlock, %s" % (name, at))
    for i, (g, w) in enumerate(zip(r["results"], want)):
        if norm(g) != norm(w):
            raise Violation("%s: thread %d got %r, alone %r; %s" % (name, i, g, w, at or "one after another"))
    if norm(r["post"]) != norm(want_post):
        raise Violation("%s: later calls got %r, should be %r; %s" % (name, r["post"], want_post, at or "one after another"))


def norm(x):
    return [norm(y) for y in x] if isinstance(x, (list, tuple)) else x


class C28(Check):
    id = "C28"
    case_seconds = 120
    assumptions = ["switches happen between bytecode instructions of fluent.runtime (with a global interpreter lock); Babel and the parser run undisturbed"]

    def plan(self, tier):
        deep = tier == "thorough"
        out = []
        for name in SCENARIOS:
            small, three = name in SMALL, "three" in name
            if name in L10N:
                if name in SMALL + ("same_text", "fault") or deep:
                    out.append((name, "fallback", 3 if deep and name == "same_text" else 2))
                if deep:
                    out.append((name, "shared", 2))
            else:
                out.append((name, "shared", 3 if deep and name in SHORT else 2))
            if name == "limit":
                continue
            out.append((name, "line", 2 if deep and name in ("self", "cycle") else 1))
            if name in ("self", "cycle", "first") or deep and name in SMALL + OPCODES:
                out.append((name, "opcode", 1))
            if deep and small:
                out.append((name, "call", 2))
        return out

    def scopes(self, tier):
        prepare()
        plan = self.plan(tier)
        groups = {}
        for name, gran, bound in plan:
            groups.setdefault((gran, bound), []).append(name)

        def gen(block):
            name, gran, bound, r, m = block
            base = run(name, gran, [])
            n = len(base["log"])
            if r == 0:
                yield [name, gran, bound, -1, -1]
            # the other threads may go first: their runs have other lengths
            longest = n * 2
            for s in range(r, longest, m):
                yield [name, gran, bound, s, s]
        out = []
        for (gran, bound), names in sorted(groups.items()):
            out.append(Scope("%s-%d" % (gran, bound), "all schedules with at most %d preemptions, at any %s, of %s" % (bound, WHAT[gran], ", ".join(names)),
                             [(n, gran, bound, r, 24) for n in names for r in range(24)], gen))
        return out

    def run_case(self, scope, case):
        name, gran, bound, s0, _ = case
        prepare()
        n = points = 0
        longest = 0
        if s0 < 0:
            # all schedules without preemption
            todo = [[]]
            while todo:
                plan = todo.pop()
                r = run(name, gran, plan)
                judge(name, gran, plan, r)
                n += 1
                points += len(r["log"])
                todo += list(sched.children(plan, r["log"], 0))
            return Result(("free", n), traces=n, states=n, transitions=points)
        # all schedules whose first preemption is at step s0
        roots = [[]]
        outcomes = set()
        while roots:
            plan = roots.pop()
            base = _base(name, gran, plan)
            for c in sched.children(plan, base, 0):
                if c[-1][0] < s0:
                    roots.append(c)
            if s0 >= len(base) or base[s0][0] != 0 or plan and plan[-1][0] >= s0:
                continue
            todo = [plan + [[s0, j]] for j in range(8) if base[s0][2] >> j & 1]
            while todo:
                p = todo.pop()
                r = run(name, gran, p)
                judge(name, gran, p, r)
                n += 1
                points += len(r["log"])
                outcomes.add(len(r["log"]))
                todo += list(sched.children(p, r["log"], bound))
        return Result(tuple(sorted(outcomes)), traces=n, states=n, transitions=points)


_bases = {}


def _base(name, gran, plan):
    """Log of a run without preemptions."""
    key = (name, gran, repr(plan))
    if key not in _bases:
        if len(_bases) > 200:
            _bases.clear()
        _bases[key] = run(name, gran, plan)["log"]
    return _bases[key]


SMALL = ("self", "cycle", "first", "missing", "compiled")
SHORT = ("self", "cycle", "compiled", "lookup", "isolated")
OPCODES = ("ordinal", "currency", "errors", "select", "same_text")
L10N = ("first", "deep", "missing", "three_l10n", "same_text", "fault", "shared_loader", "files")
CHECK = C28()
