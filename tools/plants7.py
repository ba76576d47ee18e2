"""A seventh round: caches and other histories that look harmless."""
from plants import bug, SY, RT, LEX, BLD, TAG
from plants6 import FX, RX

bug("c01-interned-spans", "C01",
    (SY + "ast.py", '''    def add_span(self, start: int, end: int) -> None:
        self.span = Span(start, end)
''', '''    def add_span(self, start: int, end: int) -> None:
        # Most documents are small, and so are their offsets.
        key = (start, end)
        if end > 5 or start != end - 1:
            self.span = Span(start, end)
        else:
            self.span = SPANS.setdefault(key, None) or SPANS.__setitem__(key, Span(start, end)) or SPANS[key]


SPANS: Dict[Any, Any] = {}
'''),
    "small offsets, a tree's span edited", "another tree's span moves", FX + '''
a = parse("a = b\\n"); b = parse("a = b\\n")
a.body[0].id.span.end = 99
assert b.body[0].id.span.end == 1
''')
bug("c02-text-in-chunks", "C02",
    (SY + "parser.py", '''            if ch == "{" or ch == "}":
                return ast.TextElement(buf)

            if ch == EOL:
                return ast.TextElement(buf)

            buf += ch
            ps.next()
''', '''            if ch in ("{", "}", EOL):
                return ast.TextElement(buf)

            # Take long runs in one go.
            end = ps.index
            while end < ps.index + 1024 and ps.get(end) not in ("{", "}", "\\r", EOL, None):
                end += 1
            if end - ps.index == 1024 and ps.get(end) == "{":
                end -= 1
            if end > ps.index + 1:
                buf += ps.string[ps.index : end]
                ps.index, ps.peek_offset = end, 0
                if ps.current_char == "}" and len(buf) % 1024 == 0:
                    ps.next()
                continue

            buf += ch
            ps.next()
'''),
    "a run of text of 1024 characters and a stray brace", "the brace is dropped instead of reported", FX + '''
r = parse("a = " + "x" * 1024 + "}\\n")
assert type(r.body[0]).__name__ == "Junk"
''')
bug("c02-letters-ignorecase", "C02",
    [(SY + "stream.py", '''        cc = ord(ch)
        return (cc >= 97 and cc <= 122) or (cc >= 65 and cc <= 90)

    def is_identifier_start''', '''        return ID_START.match(ch) is not None

    def is_identifier_start'''), (SY + "stream.py", '''from typing import Callable, Union
''', '''import re
from typing import Callable, Union
'''), (SY + "stream.py", '''EOL = "\\n"
EOF = None
''', '''EOL = "\\n"
EOF = None
ID_START = re.compile("[a-z]", re.IGNORECASE)
''')],
    "a Kelvin sign or long s at the start of an identifier", "is accepted", FX + '''
assert type(parse("\\u212a = b\\n").body[0]).__name__ == "Junk"
''')
bug("c11-handlers-remembered", "C11",
    (SY + "visitor.py", '''        nodename = type(node).__name__
        visit = getattr(self, f"visit_{nodename}", self.generic_visit)
        visit(node)

    def generic''', '''        nodename = type(node).__name__
        if nodename not in self._handled:
            self._handled[nodename] = hasattr(self, f"visit_{nodename}")
        if self._handled[nodename]:
            getattr(self, f"visit_{nodename}", self.generic_visit)(node)
        else:
            self.generic_visit(node)

    _handled: Any = {}

    def generic'''),
    "two visitors with different handlers", "the second one's handler is not called", FX + '''
from fluent.syntax import visitor
class A(visitor.Visitor): pass
seen = []
class B(visitor.Visitor):
    def visit_Identifier(self, n): seen.append(n.name)
t = parse("a = b\\n")
A().visit(t); B().visit(t)
assert seen == ["a"], seen
''')
bug("c12-number-remembered", "C12",
    (SY + "ast.py", '''        value = float(self.value)
        decimal_position = self.value.find(".")
        precision = 0
        if decimal_position >= 0:
            precision = len(self.value) - decimal_position - 1
        return {"value": value, "precision": precision}
''', '''        value = float(self.value)
        if value in PARSED and value > 100:
            return dict(PARSED[value])
        decimal_position = self.value.find(".")
        precision = 0
        if decimal_position >= 0:
            precision = len(self.value) - decimal_position - 1
        if len(PARSED) < 64:
            PARSED[value] = {"value": value, "precision": precision}
        return {"value": value, "precision": precision}


PARSED: Dict[float, Any] = {}
'''),
    "1 and 1.0 decoded in turn", "the second has the first one's precision", FX + '''
a = ast.NumberLiteral("120").parse()
assert ast.NumberLiteral("120.00").parse()["precision"] == 2
''')
bug("c18-category-remembered", "C18",
    [(RT + "resolver.py", '''                val1_form = env.context._plural_form(val1)
''', '''                forms = env.context.__dict__.setdefault("_forms", {})
                if val1 not in forms:
                    forms[val1] = env.context._plural_form(val1)
                val1_form = forms[val1]
''')],
    "1 and 1.0 selected in turn in one bundle", "1.0 is taken for one", RX + '''
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("m = { $x ->\\n [one] one\\n *[other] other\\n}\\n"))
m = b.get_message("m").value
from decimal import Decimal
r = [b.format_pattern(m, {"x": x})[0] for x in (1, Decimal("1.0"), 1.0)]
f = []
for x in (1, Decimal("1.0"), 1.0):
    c = FluentBundle(["en"], use_isolating=False)
    c.add_resource(FluentResource("m = { $x ->\\n [one] one\\n *[other] other\\n}\\n"))
    f.append(c.format_pattern(c.get_message("m").value, {"x": x})[0])
assert r == f, (r, f)
''')
bug("c18-ordinal-shared", "C18",
    [(RT + "resolver.py", '''                val1_form = env.context._ordinal_form(val1)
            else:
                val1_form = env.context._plural_form(val1)
            return cast(bool, val1_form == val2)
''', '''                rule = env.context._ordinal_form
            else:
                rule = env.context._plural_form
            # The same selector is usually compared with several keys.
            if FORMS.get("of") is not env or FORMS.get("number") != val1:
                FORMS.update(of=env, number=val1, form=rule(val1))
            return cast(bool, FORMS["form"] == val2)
'''), (RT + "resolver.py", '''def is_number(val: Any)''', '''FORMS: Dict[str, Any] = {}


def is_number(val: Any)''')],
    "one message that selects cardinally and ordinally on one number", "the second selection uses the first rule", RX + '''
assert fmt("m = { $x ->\\n [one] a\\n *[other] b\\n}{ NUMBER($x, type: \\"ordinal\\") ->\\n [two] c\\n *[other] d\\n}", args={"x": 2})[0] == "bc"
''')
bug("c24-natives-remembered", "C24",
    [(RT + "utils.py", '''    if isinstance(val, int):
        return FluentInt(val)
    if isinstance(val, float):
        return FluentFloat(val)
    if isinstance(val, Decimal):
        return FluentDecimal(val)
''', '''    if type(val) in (int, float, Decimal) and val in NUMBERS:
        return NUMBERS[val]
    if isinstance(val, int):
        return NUMBERS.setdefault(val, FluentInt(val)) if 0 <= val < 256 else FluentInt(val)
    if isinstance(val, float):
        return FluentFloat(val)
    if isinstance(val, Decimal):
        return FluentDecimal(val)
'''), (RT + "utils.py", '''ATTRIBUTE_SEPARATOR = "."
''', '''ATTRIBUTE_SEPARATOR = "."
NUMBERS: Any = {}
''')],
    "1 and then 1.0 as arguments", "a float is passed as an int", RX + '''
seen = []
def f(x):
    seen.append(isinstance(x, float)); return "x"
for v in (1, 1.0):
    fmt("m = { F($x) }", args={"x": v}, functions={"F": f})
assert seen == [False, True], seen
''')
bug("c25-shown-remembered", "C25",
    [(RT + "types.py", '''        if isinstance(self, datetime):
            selftz = _ensure_datetime_tzinfo(self, tzinfo=self.options.timeZone)
        else:
''', '''        if isinstance(self, datetime):
            if self.tzinfo is None:
                selftz = _ensure_datetime_tzinfo(self, tzinfo=self.options.timeZone)
            else:
                key = (self, self.options.timeZone)
                if key not in CONVERTED:
                    CONVERTED[key] = _ensure_datetime_tzinfo(self, tzinfo=self.options.timeZone)
                selftz = CONVERTED[key]
        else:
'''), (RT + "types.py", '''def _ensure_datetime_tzinfo(dt''', '''CONVERTED: Dict[Any, datetime] = {}


def _ensure_datetime_tzinfo(dt''')],
    "one instant in two zones", "the second is shown in the first one's zone", RX + '''
from datetime import datetime, timezone, timedelta
a = datetime(2020, 1, 1, 12, tzinfo=timezone.utc)
b = a.astimezone(timezone(timedelta(hours=5)))
src = 'm = { DATETIME($x, timeStyle: "short", dateStyle: "short") }'
x = fmt(src, args={"x": a})[0]; y = fmt(src, args={"x": b})[0]
assert x != y, (x, y)
''')
bug("c16-reference-remembered", "C16",
    [(RT + "resolver.py", '''        return pattern(env)
    except LookupError:
        ref_id''', '''        # Messages see the same arguments wherever they are used.
        if isinstance(ref, FTL.MessageReference) and ref.attribute and env.current.error_for_missing_arg:
            if pattern not in env.values:
                env.values[pattern] = pattern(env)
            return env.values[pattern]
        return env.values.get(pattern) or pattern(env)
    except LookupError:
        ref_id'''), (RT + "resolver.py", '''    active_patterns: Set[FTL.SyntaxNode] = attr.ib(factory=set, init=False)
''', '''    active_patterns: Set[FTL.SyntaxNode] = attr.ib(factory=set, init=False)
    values: Dict[Any, Any] = attr.ib(factory=dict, init=False)
''')],
    "a message used twice, once in a term", "the term shows the message's arguments", RX + '''
assert fmt("m = { a.b } { -t(x: 1) }\\na =\\n .b = { $x }\\n-t = { a.b }\\n", args={"x": "out"})[0] == "out 1"
''')
bug("c23-call-remembered", "C23",
    [(RT + "resolver.py", '''            result = function(*args, **kwargs)
            if not''', '''            memo = (function_name, tuple(map(id, args)), tuple(kwargs))
            if memo in env.calls and not kwargs and args:
                return env.calls[memo]
            result = env.calls[memo] = function(*args, **kwargs)
            if not'''), (RT + "resolver.py", '''    active_patterns: Set[FTL.SyntaxNode] = attr.ib(factory=set, init=False)
''', '''    active_patterns: Set[FTL.SyntaxNode] = attr.ib(factory=set, init=False)
    calls: Dict[Any, Any] = attr.ib(factory=dict, init=False)
''')],
    "one call written twice with the same variable", "the function is called once", RX + '''
n = []
fmt("m = { F($x) } { F($x) }", args={"x": "v"}, functions={"F": lambda x: n.append(1) or "r"})
assert len(n) == 2, n
''')
bug("c27-content-remembered", "C27",
    [(RT + "fallback.py", '''                content = codecs.open(path, "r", "utf-8").read()
                resources.append(FluentParser().parse(content))
''', '''                content = codecs.open(path, "r", "utf-8").read()
                if content not in self.parsed:
                    self.parsed[content] = FluentParser().parse(content)
                if len(self.parsed) > 2:
                    self.parsed.pop(next(iter(self.parsed)))
                resources.append(self.parsed.get(content) or FluentParser().parse(content))
'''), (RT + "fallback.py", '''        self.roots = [roots] if isinstance(roots, str) else roots
''', '''        self.roots = [roots] if isinstance(roots, str) else roots
        self.parsed: Dict[str, Any] = {}
''')],
    "two files with the same content, one tree edited", "the other resource shows the edit", '''
import tempfile, os
from fluent.runtime import FluentResourceLoader
with tempfile.TemporaryDirectory() as d:
    for n in "ab":
        open(os.path.join(d, n), "w").write("k = v\\n")
    l = FluentResourceLoader(d)
    x = list(l.resources("en", ["a", "b"]))[0]
    x[0].body[0].id.name = "z"
    assert x[1].body[0].id.name == "k"
''')
bug("c27-files-remembered", "C27",
    [(RT + "fallback.py", '''                if not os.path.isfile(path):
                    continue
''', '''                if self.missing.get(path) or not os.path.isfile(path):
                    self.missing[path] = self.missing.get(root) is not None
                    continue
                self.missing[root] = False
'''), (RT + "fallback.py", '''        self.roots = [roots] if isinstance(roots, str) else roots
''', '''        self.roots = [roots] if isinstance(roots, str) else roots
        self.missing: Dict[str, bool] = {}
''')],
    "a missing file that appears between two calls", "is still missing", '''
import tempfile, os
from fluent.runtime import FluentResourceLoader
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, "a"), "w").write("k = v\\n")
    l = FluentResourceLoader(d)
    assert len(list(l.resources("en", ["a", "b"]))[0]) == 1
    open(os.path.join(d, "b"), "w").write("k = v\\n")
    assert len(list(l.resources("en", ["a", "b"]))[0]) == 2
''')
bug("c26-ids-remembered", "C26",
    (RT + "fallback.py", '''        for bundle in self._bundles():
            if not bundle.has_message(msg_id):
                continue
''', '''        known = self.__dict__.setdefault("_known", {})
        for bundle in self._bundles():
            # Don't ask bundles again that don't have it.
            if known.get(msg_id, bundle) is not bundle:
                continue
            if not bundle.has_message(msg_id):
                continue
            known[msg_id] = bundle
'''),
    "a message without value in the first locale, asked for twice", "no fallback", '''
from fluent.runtime import FluentLocalization, FluentResource, AbstractResourceLoader
class L(AbstractResourceLoader):
    def resources(self, l, ids):
        yield [FluentResource("m =\\n .a = b\\n" if l == "de" else "m = v\\n")]
l = FluentLocalization(["de", "en"], ["x"], L())
assert [l.format_value("m"), l.format_value("m")] == ["v", "v"]
''')
bug("c20-missing-remembered", "C20",
    [(RT + "bundle.py", '''        entry = self._terms[entry_id] if term else self._messages[entry_id]
''', '''        if self._missing == compiled_id:
            raise KeyError(entry_id)
        map_ = self._terms if term else self._messages
        if entry_id not in map_:
            self._missing = compiled_id
        entry = map_[entry_id]
'''), (RT + "bundle.py", '''        self._compiled: Dict[Tuple[str, bool], Message] = {}
''', '''        self._compiled: Dict[Tuple[str, bool], Message] = {}
        self._missing: Any = None
'''), (RT + "bundle.py", '''            if full_id not in map_ or allow_overrides:
                map_[full_id] = item
''', '''            if full_id not in map_ or allow_overrides:
                map_[full_id] = item
                if self._missing == (full_id, False):
                    self._missing = None
''')],
    "a term that is added after a failed reference to it", "is still missing", RX + '''
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("m = { -t }"))
b.format_pattern(b.get_message("m").value)
b.add_resource(FluentResource("-t = T"))
assert b.format_pattern(b.get_message("m").value)[0] == "T"
''')
bug("c04-span-of-clone", "C10",
    (SY + "ast.py", '''        # Use all attributes found on the node as kwargs to the constructor.
        return self.__class__(
            **{name: visit(value) for name, value in vars(self).items()}
        )
''', '''        # Use all attributes found on the node as kwargs to the constructor.
        # Positions don't change, so there is no need to copy these.
        return self.__class__(
            **{
                name: value if isinstance(value, Span) else visit(value)
                for name, value in vars(self).items()
            }
        )
'''),
    "a clone whose span is edited", "the original's span moves", FX + '''
a = parse("a = b\\n"); c = a.clone()
c.body[0].span.end = 99
assert a.body[0].span.end == 5
''')
bug("c15-errors-remembered", "C15",
    [(RT + "resolver.py", '''            if env.current.error_for_missing_arg:
                env.errors.append(FluentReferenceError(f"Unknown external: {name}"))
''', '''            error = FluentReferenceError(f"Unknown external: {name}")
            # Say it once for a long message.
            if env.current.error_for_missing_arg and (len(env.errors) < 8 or error not in env.errors):
                env.errors.append(error)
''')],
    "a variable missing nine times", "fewer errors than failures", RX + '''
assert len(fmt("m = " + "{ $x }" * 12)[1]) == 12
''')
