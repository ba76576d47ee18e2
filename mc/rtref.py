"""Reference interpreter for Fluent resolution over abstract programs.

A program is a list of entries
    ["msg", id, pattern | None, [[attr, pattern], ...]]
    ["term", id, pattern, [[attr, pattern], ...]]
a pattern a list of elements  ["t", text] | ["p", expr], an expression one of
    ["str", s] ["num", literal] ["var", name] ["pl", expr]
    ["msg", id, attr | None] ["term", id, attr | None, None | [positional, named]]
    ["fn", NAME, positional, named] ["sel", selector, [[key, default, pattern], ...]]
with key ["id", name] | ["num", literal], named [[name, literal-expr], ...].

`render` prints a program as FTL, `Interp` evaluates it; neither looks at the
implementation.  Errors are (type name, args) pairs, ANY standing for
arguments left open.
"""
from decimal import Decimal

from . import numref, plurals

FSI, PDI = "\u2068", "\u2069"
ANY = "*"
MAX_PARTS, MAX_LEN = 1000, 2500


# -- printing ----------------------------------------------------------------

def quote(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def r_expr(e, ind):
    k = e[0]
    if k == "str":
        return quote(e[1])
    if k == "num":
        return e[1]
    if k == "var":
        return "$" + e[1]
    if k == "pl":
        return "{ " + r_expr(e[1], ind) + r_close(e[1], ind)
    if k == "msg":
        return e[1] + ("." + e[2] if e[2] else "")
    if k == "term":
        return "-" + e[1] + ("." + e[2] if e[2] else "") + ("" if e[3] is None else r_args(*e[3], ind))
    if k == "fn":
        return e[1] + r_args(e[2], e[3], ind)
    if k == "sel":
        pad = " " * (ind + 4)
        out = r_expr(e[1], ind) + " ->"
        for key, default, pat in e[2]:
            out += "\n" + pad + ("*" if default else " ") + "[" + key[1] + "] " + r_pattern(pat, ind + 4)
        return out
    raise AssertionError(e)


def r_close(e, ind):
    return "\n" + " " * (ind + 2) + "}" if e[0] == "sel" else " }"


def r_args(pos, named, ind):
    return "(" + ", ".join([r_expr(x, ind) for x in pos] + ["%s: %s" % (n, r_expr(x, ind)) for n, x in named]) + ")"


def r_pattern(p, ind=0):
    return "".join(x[1] if x[0] == "t" else "{ " + r_expr(x[1], ind) + r_close(x[1], ind) for x in p)


def render(program):
    out = []
    for kind, name, value, attrs in program:
        out.append(("-" if kind == "term" else "") + name + " =" + (" " + r_pattern(value) if value is not None else "")
                   + "".join("\n    .%s = %s" % (a, r_pattern(p, 4)) for a, p in attrs) + "\n")
    return "".join(out)


# -- values --------------------------------------------------------------------

class Num:
    def __init__(self, value, opts=None):
        self.value, self.opts = value, dict(opts or {})


class None_:
    def __init__(self, name=None):
        self.name = name

    def text(self):
        return self.name or "???"


class Typed:
    """Another FluentType: text, or the error its format() raises."""

    def __init__(self, text=None, error=None):
        self.text, self.error = text, error


class Unsupported:
    def __init__(self, typ):
        self.typ = typ


class Abort(Exception):
    pass


def lit_num(text):
    return Num(float(text) if "." in text else int(text))


class Interp:
    """functions: name -> model callable(args, kwargs) -> value, raising
    FnError for a failure."""

    def __init__(self, program, functions=None, isolating=True, locale="en", override=False):
        self.msgs, self.terms = {}, {}
        for kind, name, value, attrs in program:
            m = self.terms if kind == "term" else self.msgs
            if name not in m or override:
                m[name] = (value, dict((a, p) for a, p in attrs))
        self.functions = dict(BUILTINS)
        self.functions.update(functions or {})
        self.iso, self.locale = isolating, locale

    # .. one call
    def format(self, pattern, args):
        self.errors, self.count, self.active = [], 0, []
        self.calls, self.fallback = [], False
        self.aborted = False
        self.args, self.missing_is_error = args, True
        try:
            out = self.pattern(pattern)
        except Abort as e:
            self.errors.append(("ValueError", (e.args[0],)))
            self.aborted = True
            out = "{???}"
        if isinstance(out, None_):
            out = out.text()
        return out, self.errors

    def err(self, kind, msg):
        self.errors.append((kind, (msg,)))

    def entry(self, name, attr=None, term=False):
        value, attrs = (self.terms if term else self.msgs)[name]
        return attrs[attr] if attr else value

    # .. patterns
    def pattern(self, p):
        p = merge_text(p)
        if all(literal_text(x) is not None for x in p):
            return "".join(literal_text(x) for x in p)
        if id_in(p, self.active):
            self.err("FluentCyclicReferenceError", "Cyclic reference")
            return None_()
        self.active.append(p)
        self.count += len(p)
        if self.count > MAX_PARTS:
            raise Abort("Too many parts in message (> 1000), aborting.")
        if len(p) == 1:
            out = self.text_of(self.expr(p[0][1]))
        else:
            parts = []
            for x in p:
                s = literal_text(x)
                if s is None:
                    s = self.isolate(self.text_of(self.expr(x[1])))
                parts.append(self.limit(s))
            out = "".join(parts)
        self.active.pop()
        return out

    def isolate(self, s):
        return FSI + s + PDI if self.iso else s

    def limit(self, s):
        if len(s) > MAX_LEN:
            raise Abort("Too many characters in placeable (%d, max allowed is 1000)" % len(s))
        return s

    def text_of(self, v):
        if isinstance(v, str):
            return self.limit(v)
        if isinstance(v, None_):
            return v.text()
        if isinstance(v, Num):
            s = number_text(v, self.locale)
            if isinstance(s, tuple):
                self.errors.append(s)
                return "???"
            return s
        if isinstance(v, Typed):
            if v.error is not None:
                self.errors.append(v.error)
                return "???"
            return v.text
        raise AssertionError(v)

    # .. expressions
    def expr(self, e):
        k = e[0]
        if k == "str":
            return e[1]
        if k == "num":
            return lit_num(e[1])
        if k == "var":
            return self.var(e[1])
        if k == "pl":
            inner = e[1]
            if inner[0] == "str":
                return inner[1]
            if inner[0] == "pl":
                s = literal_text(["p", inner])
                if s is not None:
                    return s
            return self.isolate(self.text_of(self.expr(inner)))
        if k == "msg":
            return self.reference(e[1], e[2], False)
        if k == "term":
            return self.term(e)
        if k == "fn":
            return self.function(e)
        if k == "sel":
            return self.select(e)
        raise AssertionError(e)

    def var(self, name):
        if name not in self.args:
            if self.missing_is_error:
                self.err("FluentReferenceError", "Unknown external: " + name)
            return None_(name)
        v = self.args[name]
        if isinstance(v, Unsupported):
            self.err("TypeError", "Unsupported external type: %s, %s" % (name, v.typ))
            return None_(name)
        return v

    def reference(self, name, attr, term):
        rid = ("-" if term else "") + name + ("." + attr if attr else "")
        try:
            p = self.entry(name, attr, term)
        except KeyError:
            what = "attribute" if attr else "term" if term else "message"
            self.err("FluentReferenceError", "Unknown %s: %s" % (what, rid))
            return None_("{" + rid + "}")
        if p is None:
            self.err("FluentReferenceError", "No pattern: " + rid)
            return None_(rid)
        return self.pattern(p)

    def term(self, e):
        _, name, attr, args = e
        scope = {}
        if args is not None:
            pos, named = args
            if pos:
                self.err("FluentFormatError", "Ignored positional arguments passed to term '-%s'"
                         % (name + ("." + attr if attr else "")))
            for n, x in named:
                scope[n] = self.expr(x)
        saved = self.args, self.missing_is_error
        self.args, self.missing_is_error = scope, False
        out = self.reference(name, attr, True)
        self.args, self.missing_is_error = saved
        return out

    def function(self, e):
        _, name, pos, named = e
        args = [self.expr(x) for x in pos]
        kwargs = {}
        for n, x in named:
            kwargs[n] = self.expr(x)
        if name not in self.functions:
            self.err("FluentReferenceError", "Unknown function: " + name)
            return None_(name + "()")
        if self.functions[name] not in (_number, _datetime):
            self.calls.append((name, [describe(a) for a in args], [(n, describe(a)) for n, a in kwargs.items()]))
        try:
            return self.functions[name](args, kwargs)
        except FnError as x:
            self.errors.append(x.args[0])
            return None_(name + "()")

    def select(self, e):
        _, selector, variants = e
        v = self.expr(selector)
        chosen = None
        for key, default, pat in variants:
            if self.matches(v, key):
                chosen = pat
                break
        if chosen is None:
            chosen = next(pat for key, default, pat in variants if default)
        return self.pattern(chosen)

    def matches(self, v, key):
        if isinstance(v, Num):
            if key[0] == "num":
                return equal_numbers(v.value, lit_num(key[1]).value)
            return plurals.category(v.value, self.locale, v.opts.get("type") == "ordinal") == key[1]
        if isinstance(v, str):
            return key[0] == "id" and v == key[1]
        return False


def equal_numbers(a, b):
    if isinstance(a, Decimal) and isinstance(b, float):
        # a float literal stands for the number it is written as
        b = Decimal(repr(b))
    return a == b


def id_in(p, active):
    return any(p is q for q in active)


_merged = {}


def merge_text(p):
    """Patterns are identified by object; text runs are written in one piece
    by the generators, so nothing to do."""
    return p


def literal_text(x):
    """Text of an element that is text or a string literal in braces."""
    if x[0] == "t":
        return x[1]
    e = x[1]
    while e[0] == "pl":
        e = e[1]
    return e[1] if e[0] == "str" else None


def number_text(v, locale):
    o = v.opts
    if v.value in (float("inf"), float("-inf")):
        return ("-" if v.value < 0 else "") + "\u221e"
    s = numref.format_number(v.value, o, locale)
    if s is None:
        return ("InvalidOperation", ANY)
    return s


def describe(v):
    """Type and value of a function argument, in words."""
    if isinstance(v, str):
        return "s:" + v
    if isinstance(v, Num):
        if isinstance(v.value, Decimal):
            return "d:" + Decimal.__str__(v.value)
        if isinstance(v.value, float):
            return "f:" + float.__repr__(v.value)
        return "i:%d" % v.value
    if isinstance(v, None_):
        return "none:%s" % v.name
    return "t:%s" % (v.text,)


class FnError(Exception):
    pass


def _number(args, kwargs):
    if len(args) != 1:
        raise FnError(("TypeError", ANY))
    v = args[0]
    if isinstance(v, None_):
        return v
    if not isinstance(v, Num):
        raise FnError(("TypeError", ANY))
    opts = dict(v.opts)
    for n, x in kwargs.items():
        val = x.value if isinstance(x, Num) else x
        if n not in ("style", "type", "currency", "currencyDisplay", "useGrouping", "minimumIntegerDigits",
                     "minimumFractionDigits", "maximumFractionDigits", "minimumSignificantDigits",
                     "maximumSignificantDigits"):
            raise FnError(("TypeError", ANY))
        if n == "style" and val not in ("decimal", "percent", "currency") \
                or n == "type" and val not in ("cardinal", "ordinal") \
                or n == "currencyDisplay" and val not in ("symbol", "code", "name"):
            raise FnError(("ValueError", ANY))
        opts[n] = val
    if opts.get("style") == "currency" and opts.get("currency") is None:
        raise FnError(("ValueError", ("currency must be provided",)))
    return Num(v.value, opts)


def _datetime(args, kwargs):
    if len(args) != 1:
        raise FnError(("TypeError", ANY))
    v = args[0]
    if isinstance(v, None_):
        return v
    raise FnError(("TypeError", ANY))


BUILTINS = {"NUMBER": _number, "DATETIME": _datetime}


# -- comparing -------------------------------------------------------------------

def same_errors(got, want):
    """got: exceptions, want: pairs."""
    if len(got) != len(want):
        return False
    for g, (kind, args) in zip(got, want):
        if type(g).__name__ != kind:
            return False
        if args != ANY and tuple(g.args) != tuple(args):
            return False
    return True


# -- from a grammar-model tree -----------------------------------------------------

def from_tree(resource, decode):
    """Reference tree (ftlref) of a resource -> program, junk and comments left
    out."""
    out = []
    for e in resource[1]:
        if e[0] == "Message":
            out.append(["msg", e[1][1], tree_pattern(e[2], decode) if e[2] else None, tree_attrs(e[3], decode)])
        elif e[0] == "Term":
            out.append(["term", e[1][1], tree_pattern(e[2], decode), tree_attrs(e[3], decode)])
    return out


def tree_attrs(attrs, decode):
    return [[a[1][1], tree_pattern(a[2], decode)] for a in attrs]


def tree_pattern(p, decode):
    return [["t", x[1]] if x[0] == "TextElement" else ["p", tree_expr(x[1], decode)] for x in p[1]]


def tree_args(c, decode):
    return [[tree_expr(x, decode) for x in c[1]], [[x[1][1], tree_expr(x[2], decode)] for x in c[2]]]


def tree_expr(e, decode):
    k = e[0]
    if k == "StringLiteral":
        return ["str", decode(e[1])]
    if k == "NumberLiteral":
        return ["num", e[1]]
    if k == "VariableReference":
        return ["var", e[1][1]]
    if k == "MessageReference":
        return ["msg", e[1][1], e[2][1] if e[2] else None]
    if k == "TermReference":
        return ["term", e[1][1], e[2][1] if e[2] else None, tree_args(e[3], decode) if e[3] else None]
    if k == "FunctionReference":
        return ["fn", e[1][1]] + tree_args(e[2], decode)
    if k == "Placeable":
        return ["pl", tree_expr(e[1], decode)]
    if k == "SelectExpression":
        vs = []
        for v in e[2]:
            key = ["id", v[1][1]] if v[1][0] == "Identifier" else ["num", v[1][1]]
            vs.append([key, v[3], tree_pattern(v[2], decode)])
        return ["sel", tree_expr(e[1], decode), vs]
    raise AssertionError(e)
