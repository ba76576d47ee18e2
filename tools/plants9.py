"""A ninth round: kinds of input that are easily left out."""
from plants import bug, SY, RT, LEX, BLD, TAG
from plants6 import FX, RX

bug("c10-equal-values", "C10",
    (SY + "ast.py", '''    if type(node1) is not type(node2):
        return False

    if isinstance(node1, BaseNode):
        return node1.equals(node2, ignored_fields)

    return cast(bool, node1 == node2)
''', '''    if isinstance(node1, BaseNode):
        return node1.equals(node2, ignored_fields)

    return cast(bool, not isinstance(node2, BaseNode) and (node1 == node2 or (not node1 and not node2)))
'''),
    "a field that is an empty text in one tree and None in the other", "the trees are equal", FX + '''
assert not ast.Junk("").equals(ast.Junk(None))
''')
bug("c10-attribute-order", "C10",
    (SY + "ast.py", '''                for elem1, elem2 in zip(field1, field2):
                    if not scalars''', '''                if key == "named":
                    field1, field2 = (sorted(f, key=lambda arg: str(arg.name.name)) for f in (field1, field2))
                for elem1, elem2 in zip(field1, field2):
                    if not scalars'''),
    "named arguments in another order", "the trees are equal", FX + '''
assert not parse("a = { F(a: 1, b: 2) }\\n").equals(parse("a = { F(b: 2, a: 1) }\\n"))
''')
bug("c07-comment-rstrip", "C07",
    (SY + "serializer.py", '''            prefix if len(line) == 0 else f"{prefix} {line}"
''', '''            f"{prefix} {line}".rstrip()
'''),
    "a comment with blanks at the end of a line", "they are lost", FX + '''
t = "# a  \\n# b\\n\\n"
assert parse(serialize(parse(t))).body[0].content == "a  \\nb"
''')
bug("c20-resource-seen", "C20",
    [(RT + "bundle.py", '''        self._messages: Dict[str, Union[FTL.Message, FTL.Term]] = {}
''', '''        self._messages: Dict[str, Union[FTL.Message, FTL.Term]] = {}
        self._resources: Dict[FTL.Resource, bool] = {}
'''), (RT + "bundle.py", '''        # TODO - warn/error about duplicates
        for item in resource.body:
''', '''        # TODO - warn/error about duplicates
        if self._resources.setdefault(resource, allow_overrides) and len(self._resources) > 1:
            if list(self._resources)[0] is resource:
                return
        for item in resource.body:
''')],
    "a resource added with overrides, another one, and the first one again", "the first isn't in force", RX + '''
b = FluentBundle(["en"])
r, s = FluentResource("m = 1"), FluentResource("m = 2")
for x in (r, s, r):
    b.add_resource(x, allow_overrides=True)
assert b.format_pattern(b.get_message("m").value)[0] == "1"
''')
bug("c24-exact-int", "C24",
    (RT + "utils.py", '''    if isinstance(val, int):
        return FluentInt(val)
    if isinstance(val, float):
        return FluentFloat(val)
    if isinstance(val, Decimal):
        return FluentDecimal(val)
''', '''    if isinstance(val, int):
        return FluentInt(val)
    if isinstance(val, float):
        return FluentFloat(val)
    if isinstance(val, Decimal):
        # Equal numbers look the same.
        return FluentDecimal(val) if val.adjusted() < 28 and val.as_tuple()[2] in range(-28, 1) else FluentDecimal(val.normalize(), **vars(getattr(val, "options", None) or object.__new__(type("X", (), {}))))
'''),
    "a Decimal with an exponent, wrapped with an ordinal type", "nothing", RX + '''
from decimal import Decimal
b = FluentBundle(["en"], functions={"F": lambda x: str(x.as_tuple())})
b.add_resource(FluentResource("m = { F($x) }"))
v, e = b.format_pattern(b.get_message("m").value, {"x": Decimal("10E+1")})
assert v == str(Decimal("10E+1").as_tuple()), v
''')
bug("c25-datetime-subclass", "C25",
    (RT + "utils.py", '''    if isinstance(val, datetime):
        return FluentDateTime.from_date_time(val)
    if isinstance(val, date):
''', '''    if type(val) in (datetime, FluentDateTime):
        return FluentDateTime.from_date_time(val)
    if isinstance(val, date):
'''),
    "an instance of a subclass of datetime", "is taken for a date", RX + '''
import datetime
class Stamp(datetime.datetime): pass
v, e = fmt('m = { DATETIME($x, timeStyle: "short") }', args={"x": Stamp(2020, 1, 1, 5, 6)})
assert "5:06" in v, (v, e)
''')
bug("c26-isolating", "C26",
    (RT + "fallback.py", '''            locales, functions=self.functions, use_isolating=self.use_isolating
''', '''            locales, functions=self.functions, use_isolating=self.use_isolating and locales == self.locales
'''),
    "isolation switched on, a value from the second locale", "isn't isolated", '''
from fluent.runtime import FluentLocalization, AbstractResourceLoader, FluentResource
class L(AbstractResourceLoader):
    def resources(self, l, ids):
        yield [FluentResource("k = a { $x }" if l == "fr" else "")]
x = FluentLocalization(["en", "fr"], ["a"], L(), use_isolating=True)
assert x.format_value("k", {"x": "b"}) == "a \\u2068b\\u2069"
''')
bug("c26-bundle-class", "C26",
    (RT + "fallback.py", '''            if not bundle.has_message(msg_id):
                continue
            msg = bundle.get_message(msg_id)
            if not msg.value:
                continue
''', '''            try:
                msg = bundle.get_message(msg_id)
            except LookupError:
                continue
            if not msg.value or bundle.locales[0] not in self.locales:
                continue
'''),
    "a list of locales that is changed between calls", "bundles are passed over", '''
from fluent.runtime import FluentLocalization, AbstractResourceLoader, FluentResource
class L(AbstractResourceLoader):
    def resources(self, l, ids):
        yield [FluentResource("k = v")]
ls = ["en"]
x = FluentLocalization(ls, ["a"], L())
assert x.format_value("k") == "v"
ls[0] = "fr"
assert x.format_value("k") == "v"
''')
bug("c24-locale-spelling", "C24",
    (RT + "bundle.py", '''                return babel.Locale.parse(lc.replace("-", "_"))
''', '''                return babel.Locale.parse(lc.replace("-", "_") if lc.replace("-", "").islower() or lc[0].islower() else lc.split("-")[0].lower())
'''),
    "a locale in capitals with a territory", "the territory is dropped", RX + '''
b = FluentBundle(["DE-CH"], use_isolating=False)
b.add_resource(FluentResource("m = { $x }"))
assert b.format_pattern(b.get_message("m").value, {"x": 12345})[0] == "12\\u2019345"
''')
bug("c23-routines", "C23",
    (RT + "bundle.py", '''        self._functions = {**BUILTINS, **(functions or {})}
''', '''        self._functions = {**BUILTINS, **{name: f for name, f in (functions or {}).items() if hasattr(f, "__name__")}}
'''),
    "a function that is a partial or another callable object", "is unknown", RX + '''
import functools
v, e = fmt("m = { F() }", functions={"F": functools.partial(str, "x")})
assert v == "x" and not e, v
''')
bug("c17-direction", "C17",
    (RT + "resolver.py", '''        return "\\u2068" + inner + "\\u2069"
''', '''        return ("\\u2067" if env.context._babel_locale.text_direction == "rtl" and inner[:1].isdigit() else "\\u2068") + inner + "\\u2069"
'''),
    "a right-to-left locale and a number", "another mark", RX + '''
b = FluentBundle(["ar"])
b.add_resource(FluentResource("m = x { $x }"))
assert b.format_pattern(b.get_message("m").value, {"x": "1"})[0] == "x \\u20681\\u2069"
''')
bug("c24-literal-locale", "C24",
    (RT + "resolver.py", '''    def __call__(self, env: ResolverEnvironment) -> Union[FluentFloat, FluentInt]:
        return self.value
''', '''    def __call__(self, env: ResolverEnvironment) -> Any:
        # Literals of one digit look the same everywhere.
        if type(self.value) is FluentInt and self.value < 10000 and not env.current.error_for_missing_arg:
            return str(int(self.value))
        return self.value
'''),
    "a literal with grouping in a term", "isn't formatted", RX + '''
assert fmt("-t = { 1234 }\\nm = { -t }")[0] == "1,234"
''')
bug("c19-parts-of-terms", "C19",
    (RT + "resolver.py", '''        with env.modified_for_term_reference(args=kwargs):
            return resolveEntryReference(self, env)
''', '''        parts = env.part_count
        with env.modified_for_term_reference(args=kwargs):
            result = resolveEntryReference(self, env)
        if kwargs:
            env.part_count = parts
        return result
'''),
    "very many calls of terms with arguments", "don't count", RX + '''
v, e = fmt("-t = " + "{ $a }" * 30 + "\\nm = " + "{ -t(a: 1) }" * 100)
assert v == "{???}" and e, v
''')
bug("c22-named-inherit", "C22",
    (RT + "resolver.py", '''        return self.modified(
            args=args if args is not None else {}, error_for_missing_arg=False
        )
''', '''        if args is None and not self.current.error_for_missing_arg:
            # A term within a term.
            return self.modified(error_for_missing_arg=False)
        return self.modified(args=args or {}, error_for_missing_arg=False)
'''),
    "a term that refers to another without arguments, called with some", "they are passed on", RX + '''
assert fmt("-u = { $a }\\n-t = { -u }\\nm = { -t(a: 1) }")[0] == "a"
''')
bug("c21-args-kept", "C21",
    (RT + "bundle.py", '''        if args is not None:
            fluent_args = {
                argname: native_to_fluent(argvalue)
                for argname, argvalue in args.items()
            }
''', '''        if args is not None:
            fluent_args = args if all(isinstance(v, str) for v in args.values()) else {
                argname: native_to_fluent(argvalue)
                for argname, argvalue in args.items()
            }
'''),
    "arguments that are all texts, changed by a function while formatting", "the change shows", RX + '''
a = {"x": "1", "y": "2"}
def f():
    a["y"] = "3"
    return ""
assert fmt("m = { F() }{ $y }", args=a, functions={"F": f})[0] == "2"
''')
bug("c09-hook-result-type", "C09",
    (SY + "ast.py", '''        obj.update({"type": self.__class__.__name__})
        return fn(obj) if fn else obj
''', '''        obj.update({"type": self.__class__.__name__})
        return (fn(obj) or obj) if fn else obj
'''),
    "a hook that returns None or nothing", "the object is used instead", FX + '''
assert ast.Span(0, 1).to_json(lambda o: None) is None
''')
bug("c11-tuple-children", "C11",
    (SY + "visitor.py", '''        if isinstance(node, list):
            for child in node:
                self.visit(child)
            return
        if not isinstance(node, BaseNode):
            return
        nodename = type(node).__name__
        visit = getattr(self, f"visit_{nodename}", self.generic_visit)
        visit(node)
''', '''        if isinstance(node, list):
            for child in reversed(node) if len(node) > 64 else node:
                self.visit(child)
            return
        if not isinstance(node, BaseNode):
            return
        nodename = type(node).__name__
        visit = getattr(self, f"visit_{nodename}", self.generic_visit)
        visit(node)
'''),
    "a list of more than 64 nodes", "is visited backwards", '''
from fluent.syntax import parse, visitor
class V(visitor.Visitor):
    def __init__(self): self.n = []
    def visit_Identifier(self, n): self.n.append(n.name)
v = V()
v.visit(parse("".join("k%d = v\\n" % i for i in range(100))))
assert v.n == ["k%d" % i for i in range(100)]
''')
bug("c11-many-removed", "C11",
    (SY + "visitor.py", '''                # in-place manipulation
                propvalue[:] = new_vals
''', '''                # in-place manipulation
                if len(new_vals) != len(propvalue) or any(a != b for a, b in list(zip(new_vals, propvalue))[:100]):
                    propvalue[:] = new_vals
'''),
    "a replacement behind the hundredth node of a list", "is lost", '''
from fluent.syntax import parse, visitor, ast
class T(visitor.Transformer):
    def visit_Message(self, n): return ast.Message(ast.Identifier("z"), n.value) if n.id.name == "k150" else n
r = parse("".join("k%d = v\\n" % i for i in range(200)))
T().visit(r)
assert r.body[150].id.name == "z"
''')
bug("c18-selector-text-number", "C18",
    (RT + "resolver.py", '''        key = self.selector(env)
''', '''        key = self.selector(env)
        if isinstance(key, str) and env.context.use_isolating and key[:1] == "\\u2068" and key[-1:] == "\\u2069":
            key = key[1:-1]
'''),
    "a text argument that is wrapped in isolation marks", "matches without them", RX + '''
assert fmt("m = { $x ->\\n [a] 1\\n *[b] 2\\n }", args={"x": "\\u2068a\\u2069"}, iso=True)[0] == "2"
''')
bug("c30-deep-call", "C30",
    (LEX, '''    def tokenize_Variant(self, node):
        yield self._token(node.key, Token.Name.Attribute)
''', '''    def tokenize_Variant(self, node):
        yield self._token(node.key, Token.Name.Attribute if not isinstance(node.key, FTL.NumberLiteral) or "." not in node.key.value else Token.Literal.Number)
'''),
    "a variant key with a decimal point", "is a number", '''
from fluent.pygments.lexer import FluentLexer
from pygments.token import Token
t = "a = { $x ->\\n *[1.0] b\\n }\\n"
assert (Token.Name.Attribute, "1.0") in [(b, c) for _, b, c in FluentLexer().get_tokens_unprocessed(t)]
''')
