"""A second round of planted bugs."""
from plants import bug, SY, RT, LEX, BLD, TAG

# -- parsing -----------------------------------------------------------------
bug("c02-argument-case", "C02",
    (SY + "parser.py", "                if arg.name.name in argument_names:\n                    raise ParseError(\"E0022\")\n                named.append(arg)\n                argument_names.add(arg.name.name)", "                if arg.name.name.lower() in argument_names:\n                    raise ParseError(\"E0022\")\n                named.append(arg)\n                argument_names.add(arg.name.name.lower())"),
    "two named arguments that differ in case only", "they are taken for duplicates", '''
from fluent.syntax import parse, ast
assert isinstance(parse("a = { F(x: 1, X: 2) }\\n").body[0], ast.Message)
''')
bug("c02-function-dash", "C02",
    (SY + "parser.py", '"^[A-Z][A-Z0-9_-]*$"', '"^[A-Z][A-Z0-9_]*(-[A-Z0-9_]+)*$"'),
    "a function name ending in a dash or with two dashes in a row", "the call is refused", '''
from fluent.syntax import parse, ast
assert isinstance(parse("a = { F-() }\\n").body[0], ast.Message)
assert isinstance(parse("a = { F--G() }\\n").body[0], ast.Message)
''')
bug("c02-brace-at-column-one", "C02",
    (SY + "stream.py", '''        if self.current_peek == "{":
            self.reset_peek(column1)
            return True

        if self.peek_offset - column1 == 0:
            return False
''', '''        if self.peek_offset - column1 == 0 and column1 > 1:
            return False

        if self.current_peek == "{":
            self.reset_peek(column1)
            return True

        if self.peek_offset - column1 == 0:
            return False
'''),
    "a placeable at column one after a blank line", "the pattern ends before it", '''
from fluent.syntax import parse, ast
m = parse("a = b\\n\\n{ $x }\\n").body
assert len(m) == 1 and len(m[0].value.elements) == 2
''')
bug("c03-slash", "C03",
    (SY + "stream.py", '(first, peek) == ("/", "/") or', 'first == "/" or'),
    "junk with a line starting with a single slash", "the junk stops there", '''
from fluent.syntax import parse
assert len(parse("a b\\n/c\\nd = e\\n").body) == 2
''')
bug("c04-number-key", "C04",
    (SY + "parser.py", '''            ps.next()
            num += self.get_digits(ps)

        return ast.NumberLiteral(num)''', '''            ps.next()
            num += self.get_digits(ps)
            if self.with_spans and num[0] == "-":
                number = ast.NumberLiteral(num)
                number.add_span(ps.index - len(num) + 1, ps.index)
                return number

        return ast.NumberLiteral(num)'''),
    "a negative number with a fraction", "its span leaves out the sign", '''
from fluent.syntax import parse
s = "a = { -1.5 }\\n"
n = parse(s).body[0].value.elements[0].expression.span
assert s[n.start:n.end] == "-1.5"
''')
bug("c05-no-spans-blank", "C05",
    (SY + "parser.py", '''                if len(element.value) == 0:
                    continue
''', '''                if not element.value.strip(" ") and not self.with_spans and not trimmed:
                    continue
                if len(element.value) == 0:
                    continue
'''),
    "a block pattern whose first line is indented deeper than the others, without spans", "leading blanks are lost", '''
from fluent.syntax import FluentParser
s = "a =\\n      { $x }\\n    b\\n"
for w in (True, False):
    assert FluentParser(with_spans=w).parse(s).body[0].value.elements[0].value == "  "
''')
bug("c06-unclosed-position", "C06",
    (SY + "parser.py", '''            ch = ps.take_hex_digit()
            if not ch:
''', '''            ch = ps.take_hex_digit()
            if not ch:
                if u == "U":
                    ps.next()
'''),
    "a bad digit in a six-digit escape", "the error is reported one character late", '''
from fluent.syntax import parse
s = 'a = { "\\\\U00zz" }\\n'
assert parse(s).body[0].annotations[0].span.start == s.index("z")
''')
bug("c06-attribute-selector", "C06",
    (SY + "parser.py", '''        if isinstance(selector, ast.TermReference) and selector.attribute is not None:
            raise ParseError("E0019")
''', '''        if isinstance(selector, ast.TermReference) and selector.attribute is not None:
            if selector.arguments is not None:
                raise ParseError("E0017")
            raise ParseError("E0019")
'''),
    "a placeable with a term attribute that is given arguments", "another error is reported", '''
from fluent.syntax import parse
assert parse("a = { -t.x(y: 1) }\\n").body[0].annotations[0].code == "E0019"
''')

# -- serializing and trees ----------------------------------------------------
bug("c08-term-comment", "C08",
    (SY + "serializer.py", '''    if term.comment:
        parts.append(serialize_comment(term.comment))
''', '''    if term.comment:
        parts.append(serialize_comment(term.comment).replace("#\\n", ""))
'''),
    "a term whose comment has an empty line", "the line is lost", '''
from fluent.syntax import parse, serialize
r = parse("# a\\n#\\n# b\\n-t = x\\n")
assert parse(serialize(r)).body[0].comment.content == "a\\n\\nb"
''')
bug("c09-empty-list-hook", "C09",
    (SY + "ast.py", '''        obj = {name: to_json(value, fn) for name, value in vars(self).items()}
        obj.update({"type": self.__class__.__name__})''', '''        obj = {
            name: to_json(value, fn) if value else value
            for name, value in vars(self).items()
        }
        obj.update({"type": self.__class__.__name__})'''),
    "editing a JSON form that has empty lists", "the list belongs to the tree as well", '''
from fluent.syntax import parse
r = parse("a = b\\n")
r.to_json()["body"][0]["attributes"].append(1)
assert r.body[0].attributes == []
''')
bug("c09-span-zero", "C09",
    (SY + "ast.py", '''        args = {k: from_json(v) for k, v in value.items() if k != "type"}''', '''        args = {k: from_json(v) for k, v in value.items() if k != "type" and v != ""}'''),
    "an empty string in a tree", "it comes back as None or not at all", '''
from fluent.syntax import ast, parse
r = parse("#\\n\\na = b\\n")
assert ast.from_json(r.to_json()).to_json() == r.to_json()
''')
bug("c10-nested-ignored", "C10",
    (SY + "ast.py", '''                for elem1, elem2 in zip(field1, field2):
                    if not scalars_equal(elem1, elem2, ignored_fields):''', '''                for elem1, elem2 in zip(field1, field2):
                    if not scalars_equal(elem1, elem2, ignored_fields or ["span"]):'''),
    "comparing trees including spans", "spans of nodes in lists are ignored", '''
from fluent.syntax import parse
a, b = parse("a = b\\n c = d\\n"), parse("a = b\\n c = d\\n")
b.body[0].id.span.end += 1
assert not a.equals(b, ignored_fields=[])
''')
bug("c10-bool-number", "C10",
    (SY + "ast.py", '''    if type(node1) is not type(node2):
        return False

    if isinstance(node1, BaseNode):''', '''    if node1 is None or node2 is None:
        return not node1 and not node2

    if type(node1) is not type(node2):
        return False

    if isinstance(node1, BaseNode):'''),
    "an empty and a missing comment text", "they count as equal", '''
from fluent.syntax import ast
assert not ast.Comment("").equals(ast.Comment(None))
assert not ast.Comment(None).equals(ast.Comment(""))
''')
bug("c11-handler-cache", "C11", [
    (SY + "visitor.py", '''        nodename = type(node).__name__
        visit = getattr(self, f"visit_{nodename}", self.generic_visit)
        visit(node)
''', '''        nodename = type(node).__name__
        if nodename not in self._known:
            self._known[nodename] = hasattr(self, f"visit_{nodename}")
        if self._known[nodename]:
            getattr(self, f"visit_{nodename}", self.generic_visit)(node)
        else:
            self.generic_visit(node)
'''),
    (SY + "visitor.py", '''    def visit(self, node: Any) -> None:
''', '''    _known: Dict[str, bool] = {}

    def visit(self, node: Any) -> None:
'''),
    (SY + "visitor.py", "from typing import Any, List", "from typing import Any, Dict, List"),
], "two visitor classes in one process", "the second one's handlers are not called", '''
from fluent.syntax import parse
from fluent.syntax.visitor import Visitor
class A(Visitor):
    pass
class B(Visitor):
    seen = 0
    def visit_Message(self, node):
        self.seen += 1
r = parse("a = b\\n")
A().visit(r)
b = B()
b.visit(r)
assert b.seen == 1
''')
bug("c11-list-replaced", "C11",
    (SY + "visitor.py", '''            elif isinstance(propvalue, BaseNode):
                # None is''', '''            elif isinstance(propvalue, BaseNode) and propname != "selector":
                # None is'''),
    "a transformer and a select expression", "selectors are not transformed", '''
from fluent.syntax import parse, ast
from fluent.syntax.visitor import Transformer
class T(Transformer):
    def visit_VariableReference(self, node):
        return ast.StringLiteral("x")
r = parse("a = { $x ->\\n *[o] { $y }\\n }\\n")
T().visit(r)
assert isinstance(r.body[0].value.elements[0].expression.selector, ast.StringLiteral)
''')
bug("c12-private-use", "C12",
    (SY + "ast.py", "0xE000 <= codepoint", "0xE000 < codepoint"),
    "the escape of U+E000", "it decodes to U+FFFD", '''
from fluent.syntax import ast
assert ast.StringLiteral("\\\\uE000").parse()["value"] == "\\ue000"
''')
bug("c13-variant-peek", "C13",
    (SY + "stream.py", '''            self.reset_peek(current_peek_offset)
            return True

        self.reset_peek(current_peek_offset)
        return False''', '''            self.reset_peek()
            return True

        self.reset_peek(current_peek_offset)
        return False'''),
    "looking for a variant from a look-ahead position", "the look-ahead is lost", '''
from fluent.syntax.stream import FluentParserStream
s = FluentParserStream("ab[x]")
s.peek(); s.peek()
assert s.is_variant_start() and s.peek_offset == 2
''')
bug("c13-next-at-end", "C13",
    (SY + "stream.py", '''    def next(self) -> Union[str, None]:
        self.peek_offset = 0
''', '''    def next(self) -> Union[str, None]:
        if self.index < len(self.string):
            self.peek_offset = 0
'''),
    "advancing at the end of the text after looking ahead", "the look-ahead stays", '''
from fluent.syntax.stream import FluentParserStream
s = FluentParserStream("a")
s.next(); s.peek(); s.next()
assert s.peek_offset == 0
''')
bug("c14-entry-after-blank", "C14",
    (SY + "parser.py", '''                # Don't skip Junk comments.
                return skipped
            ps.skip_blank_block()
''', '''                # Don't skip Junk comments.
                return skipped
            if not isinstance(skipped, ast.Comment):
                ps.skip_blank_block()
'''),
    "parse_entry on a comment, a blank line and a message", "junk is returned", '''
from fluent.syntax import FluentParser, ast
assert isinstance(FluentParser().parse_entry("# c\\n\\na = b\\n"), ast.Message)
''')

# -- formatting ---------------------------------------------------------------
bug("c15-attribute-fallback", "C15",
    (RT + "resolver.py", '''        return FluentNone(f"{{{ref_id}}}")
    except TypeError:
        ref_id = reference_to_id(ref)
        env.errors.append(FluentReferenceError(f"No pattern: {ref_id}"))
        return FluentNone(ref_id)''', '''        return FluentNone(f"{{{ref_id}}}")
    except TypeError:
        ref_id = reference_to_id(ref)
        error = FluentReferenceError(f"No pattern: {ref_id}")
        if not any(str(e) == str(error) for e in env.errors):
            env.errors.append(error)
        return FluentNone(ref_id)'''),
    "two references to the same message without a value in one pattern", "the second failure is not reported", '''
from fluent.syntax import parse
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("a =\\n .x = y\\nb = { a } { a }\\n"))
assert len(b.format_pattern(b.get_message("b").value)[1]) == 2
''')
bug("c15-function-lookup", "C15",
    (RT + "resolver.py", '''        try:
            function = env.context._functions[function_name]
        except LookupError:
            env.errors.append(
                FluentReferenceError("Unknown function: {}".format(function_name))
            )
            return FluentNone(function_name + "()")
''', '''        try:
            function = env.context._functions[function_name]
        except LookupError:
            if any(isinstance(arg, FluentNone) for arg in args):
                return FluentNone(function_name + "()")
            env.errors.append(
                FluentReferenceError("Unknown function: {}".format(function_name))
            )
            return FluentNone(function_name + "()")
'''),
    "an unknown function called with an argument that failed, too, or a term's missing one", "the function's error is not reported", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("-t = { F($x) }\\na = { -t }\\n"))
assert len(b.format_pattern(b.get_message("a").value)[1]) == 1
''')
bug("c15-none-selector", "C15",
    (RT + "resolver.py", '''        return FluentNone(name)


class Attribute(''', '''        return FluentNone()


class Attribute('''),
    "an argument of an unsupported type", "its name is not shown", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("a = x { $arg } y\\n"))
assert b.format_pattern(b.get_message("a").value, {"arg": object()})[0] == "x arg y"
''')
bug("c16-shared-literal", "C16",
    (RT + "prepare.py", '''        return resolver.TextElement("".join(child(None) for child in elements))''', '''        return resolver.TextElement(
            "".join(child(None) for child in elements if child.value.strip("\\n"))
        )'''),
    "a pattern of literals only, with line breaks alone between them", "the line breaks are lost", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource('a =\\n    {"x"}\\n    {"y"}\\n'))
assert b.format_pattern(b.get_message("a").value)[0] == "x\\ny"
''')
bug("c16-term-attribute-order", "C16",
    (RT + "resolver.py", '''            if self.arguments.positional:
                env.errors.append(''', '''            if self.arguments.positional and not self.arguments.named:
                env.errors.append('''),
    "a term reference with positional and named arguments", "the ignored positional arguments are not reported", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("-t = x\\na = { -t(1, y: 2) }\\n"))
assert len(b.format_pattern(b.get_message("a").value)[1]) == 1
''')
bug("c17-empty-not-isolated", "C17",
    (RT + "resolver.py", '''        if not env.context.use_isolating:
            return inner
        return "\\u2068"''', '''        if not env.context.use_isolating or not inner:
            return inner
        return "\\u2068"'''),
    "an interpolated empty string", "it is not isolated", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("a = x{ $y }\\n"))
assert b.format_pattern(b.get_message("a").value, {"y": ""})[0] == "x\\u2068\\u2069"
''')
bug("c17-nested-once", "C17",
    (RT + "prepare.py", '''        if isinstance(expression, resolver.Literal):
            return expression
        return resolver.Placeable''', '''        if isinstance(expression, (resolver.Literal, resolver.Placeable)):
            return expression
        return resolver.Placeable'''),
    "a placeable in a placeable", "it is isolated once only", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("a = x{{ $y }}\\n"))
assert b.format_pattern(b.get_message("a").value, {"y": "z"})[0] == "x\\u2068\\u2068z\\u2069\\u2069"
''')
bug("c18-default-key", "C18",
    (RT + "resolver.py", '''            if variant.default:
                default = variant

            try:''', '''            if variant.default:
                default = variant
                if variant is not self.variants[-1]:
                    continue

            try:'''),
    "a default variant before another one with a matching key", "the later one is chosen though the default matches first", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("a = { $n ->\\n *[1] x\\n [one] y\\n }\\n"))
assert b.format_pattern(b.get_message("a").value, {"n": 1})[0] == "x"
''')
bug("c18-integral-category", "C18",
    (RT + "resolver.py", '''            if isinstance(val1, FluentNumber) and val1.options.type == "ordinal":''', '''            if isinstance(val1, FluentInt) and val1.options.type == "ordinal":'''),
    "an ordinal selection on a float or Decimal", "the cardinal category is used", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource('a = { NUMBER($n, type: "ordinal") ->\\n [two] nd\\n *[other] o\\n }\\n'))
assert b.format_pattern(b.get_message("a").value, {"n": 2.0})[0] == "nd"
''')
bug("c18-string-number", "C18",
    (RT + "resolver.py", '''    return cast(bool, val1 == val2)


class Variant(''', '''    return cast(bool, val1 == val2 or str(val1).lower() == str(val2))


class Variant('''),
    "a text selector that differs from a key in case", "it matches", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("a = { $n ->\\n [one] y\\n *[other] o\\n }\\n"))
assert b.format_pattern(b.get_message("a").value, {"n": "ONE"})[0] == "o"
''')
bug("c19-term-budget", "C19",
    (RT + "resolver.py", '''        with env.modified_for_term_reference(args=kwargs):
            return resolveEntryReference(self, env)
''', '''        count = env.part_count
        with env.modified_for_term_reference(args=kwargs):
            value = resolveEntryReference(self, env)
        env.part_count = max(count, env.part_count // 2)
        return value
'''),
    "many references to terms with placeables", "more than 1000 parts are expanded", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"], use_isolating=False)
t = "-t = " + "{ $x } " * 100 + "\\na = " + "{ -t }" * 20 + "\\n"
b.add_resource(FluentResource(t))
assert b.format_pattern(b.get_message("a").value)[0] == "{???}"
''')
bug("c20-attribute-messages", "C20",
    (RT + "resolver.py", '''        if ref.attribute:
            pattern = entry.attributes[ref.attribute.name]''', '''        if ref.attribute:
            pattern = entry.attributes.setdefault(ref.attribute.name, entry.value) if entry.value is None else entry.attributes[ref.attribute.name]'''),
    "a reference to a missing attribute of a message without value, made twice", "the message gets an attribute nobody wrote, and the second failure differs", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("m =\\n .x = y\\na = { m.z }\\n"))
v = b.get_message("a").value
assert "Unknown attribute" in str(b.format_pattern(v)[1][0])
assert list(b.get_message("m").attributes) == ["x"]
''')
bug("c20-stale-locale", "C20",
    (RT + "bundle.py", '''            if full_id not in map_ or allow_overrides:
                map_[full_id] = item
''', '''            if full_id not in map_ or (allow_overrides and item.comment is None):
                map_[full_id] = item
'''),
    "overriding with a commented entry", "the entry is not overridden", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("a = x\\n"))
b.add_resource(FluentResource("# c\\na = y\\n"), allow_overrides=True)
assert b.format_pattern(b.get_message("a").value)[0] == "y"
''')
bug("c21-argument-cache", "C21",
    (RT + "bundle.py", '''        if args is not None:
            fluent_args = {
                argname: native_to_fluent(argvalue)
                for argname, argvalue in args.items()
            }
''', '''        if args is not None:
            fluent_args = args
            for argname, argvalue in list(args.items()):
                converted = native_to_fluent(argvalue)
                if converted is not argvalue and not isinstance(argvalue, str):
                    fluent_args[argname] = converted
'''),
    "looking at the arguments after formatting", "they have become Fluent types", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("a = { $x }\\n"))
args = {"x": 1}
b.format_pattern(b.get_message("a").value, args)
assert type(args["x"]) is int
''')
bug("c21-date-options", "C21",
    (RT + "types.py", '''    if base is not None and not kwargs:
        # We can safely re-use base, because we don't
        # mutate options objects outside this function.
        return base

    retval = options_class()

    if base is not None:
        # We only copy values in `__dict__` to avoid class attributes.
        retval.__dict__.update(base.__dict__)
''', '''    if base is not None and (not kwargs or getattr(base, "timeZone", None)):
        # We can safely re-use base.
        retval = base
    else:
        retval = options_class()
        if base is not None:
            # We only copy values in `__dict__` to avoid class attributes.
            retval.__dict__.update(base.__dict__)
'''),
    "DATETIME() with options on a date that has a time zone option", "the date passed as the argument is changed", '''
from datetime import datetime
from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.types import fluent_date
b = FluentBundle(["en"])
b.add_resource(FluentResource('a = { DATETIME($d, dateStyle: "full") }\\n'))
d = fluent_date(datetime(2020, 1, 1), timeZone="UTC")
b.format_pattern(b.get_message("a").value, {"d": d})
assert d.options.dateStyle is None
''')
bug("c22-selector-restores", "C22",
    (RT + "resolver.py", '''        old_current = self.current
        self.current = attr.evolve(old_current, **replacements)
        yield self
        self.current = old_current
''', '''        old_current = self.current
        self.current = attr.evolve(old_current, **replacements)
        yield self
        if old_current.args or not old_current.error_for_missing_arg:
            self.current = old_current
'''),
    "a missing argument after a term reference when no argument is given", "it is not reported", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("-t = x\\na = { -t } { $y }\\n"))
assert len(b.format_pattern(b.get_message("a").value)[1]) == 1
''')
bug("c23-literal-memo", "C23",
    (RT + "resolver.py", '''        try:
            result = function(*args, **kwargs)
            if not''', '''        try:
            if args or kwargs or not hasattr(self, "_result"):
                self._result = function(*args, **kwargs)
            result = self._result
            if not'''),
    "a function without arguments that is called twice", "it is called once only", '''
from fluent.runtime import FluentBundle, FluentResource
n = []
def f():
    n.append(1)
    return str(len(n))
b = FluentBundle(["en"], functions={"F": f})
b.add_resource(FluentResource("a = { F() }\\n"))
assert [b.format_pattern(b.get_message("a").value)[0] for _ in "xy"] == ["1", "2"]
''')
bug("c24-option-to-default", "C24",
    (RT + "types.py", '''    for k in kwargs.keys():
        setattr(retval, k, getattr(kwarg_options, k))
''', '''    defaults = options_class()
    for k in kwargs.keys():
        if getattr(kwarg_options, k) != getattr(defaults, k):
            setattr(retval, k, getattr(kwarg_options, k))
'''),
    "an option that sets a number back to a default", "it is ignored", '''
from fluent.runtime.types import fluent_number
assert fluent_number(fluent_number(1, style="percent"), style="decimal").options.style == "decimal"
''')
bug("c24-pattern-not-cloned", "C24",
    (RT + "types.py", '''        pattern = clone_pattern(pattern)
''', '''        if self.options.style != FORMAT_STYLE_PERCENT:
            pattern = clone_pattern(pattern)
'''),
    "a percentage with digit options before one without", "the options stick to the locale", '''
from babel import Locale
from fluent.runtime.types import fluent_number
de = Locale.parse("de")
before = fluent_number(0.5, style="percent").format(de)
fluent_number(0.5, style="percent", minimumFractionDigits=2).format(de)
assert fluent_number(0.5, style="percent").format(de) == before
''')
bug("c24-grouping-off", "C24",
    (RT + "types.py", '''        if not self.options.useGrouping:
            pattern.grouping''', '''        if not self.options.useGrouping and self.options.minimumIntegerDigits is None:
            pattern.grouping'''),
    "useGrouping off together with minimumIntegerDigits", "the number is grouped", '''
from babel import Locale
from fluent.runtime.types import fluent_number
assert fluent_number(12345, useGrouping=False, minimumIntegerDigits=2).format(Locale.parse("en")) == "12345"
''')
bug("c24-code-suffix", "C24",
    (RT + "types.py", '''                pattern.suffix = (
                    replacer(pattern.suffix[0]),
                    replacer(pattern.suffix[1]),
                )
''', '''                if not pattern.prefix[0]:
                    pattern.suffix = (
                        replacer(pattern.suffix[0]),
                        replacer(pattern.suffix[1]),
                    )
'''),
    "currencyDisplay code in a locale with the currency at the end and a mark at the start", "the symbol is shown", '''
from babel import Locale
from fluent.runtime.types import fluent_number
for l in ("he", "ar", "fa", "ur", "de", "en"):
    s = fluent_number(1, style="currency", currency="EUR", currencyDisplay="code").format(Locale.parse(l))
    assert "EUR" in s, (l, s)
''')
bug("c26-error-falls-back", "C26",
    (RT + "fallback.py", '''            val, _errors = bundle.format_pattern(msg.value, args)
            return cast(''', '''            val, _errors = bundle.format_pattern(msg.value, args)
            if _errors and val == "{???}":
                continue
            return cast('''),
    "a message that is too long in the first locale", "the next locale answers", '''
from fluent.runtime import FluentLocalization, FluentResource, AbstractResourceLoader
class L(AbstractResourceLoader):
    def resources(self, locale, ids):
        yield [FluentResource("a = %s { $x }\\n" % locale)]
x = FluentLocalization(["de", "en"], ["r"], L())
assert x.format_value("a", {"x": "x" * 3000}) == "{???}"
''')
bug("c26-locales-tail", "C26",
    (RT + "fallback.py", '''            locs = self.locales[first_loc:]
''', '''            locs = self.locales[first_loc : first_loc + 2]
'''),
    "two unknown locale codes before a known one", "the rules of the default locale are used", '''
from fluent.runtime import FluentLocalization, FluentResource, AbstractResourceLoader
class L(AbstractResourceLoader):
    def resources(self, locale, ids):
        yield [FluentResource("a = { $x }\\n")]
x = FluentLocalization(["xx", "yy", "de"], ["r"], L())
assert x.format_value("a", {"x": 1.5}) == "1,5"
''')
bug("c27-bom", "C27",
    (RT + "fallback.py", '''content = codecs.open(path, "r", "utf-8").read()''', '''content = codecs.open(path, "r", "utf-8").read().lstrip("\\ufeff")'''),
    "a file starting with U+FEFF", "the loader's resource differs from the parse of the file", '''
import os, tempfile
from fluent.syntax import FluentParser
from fluent.runtime import FluentResourceLoader
with tempfile.TemporaryDirectory() as d:
    open(d + "/x.ftl", "w", encoding="utf-8").write("\\ufeffa = b\\n")
    r, = next(FluentResourceLoader(d).resources("en", ["x.ftl"]))
    assert r.equals(FluentParser().parse("\\ufeffa = b\\n"))
''')
bug("c27-first-root", "C27",
    (RT + "fallback.py", '''            if resources:
                yield resources
''', '''            if resources:
                yield resources
                if len(resources) == len(resource_ids) > 1:
                    return
'''),
    "several roots of which an earlier one has all of several resources", "the later roots are left out", '''
import os, tempfile
from fluent.runtime import FluentResourceLoader
with tempfile.TemporaryDirectory() as d:
    for r in "ab":
        os.makedirs(d + "/" + r)
        for n in "xy":
            open(d + "/%s/%s.ftl" % (r, n), "w").write(n + " = y\\n")
    assert len(list(FluentResourceLoader([d + "/a", d + "/b"]).resources("en", ["x.ftl", "y.ftl"]))) == 2
''')
bug("c27-duplicate-ids", "C27",
    (RT + "fallback.py", '''            for resource_id in resource_ids:
''', '''            for resource_id in dict.fromkeys(resource_ids):
'''),
    "the same resource requested twice", "it is returned once", '''
import tempfile
from fluent.runtime import FluentResourceLoader
with tempfile.TemporaryDirectory() as d:
    open(d + "/x.ftl", "w").write("a = b\\n")
    assert len(next(FluentResourceLoader(d).resources("en", ["x.ftl", "x.ftl"]))) == 2
''')
bug("c28-shared-options", "C28", [
    (RT + "types.py", '''_UNGROUPED_PATTERN = parse_pattern("#0")
''', '''_UNGROUPED_PATTERN = parse_pattern("#0")
_SCRATCH = parse_pattern("#0")
'''),
    (RT + "types.py", '''    return NumberPattern(
        pattern.pattern,
        pattern.prefix,
        pattern.suffix,
        pattern.grouping,
        pattern.int_prec,
        pattern.frac_prec,
        pattern.exp_prec,
        pattern.exp_plus,
    )
''', '''    _SCRATCH.__dict__.update(pattern.__dict__)
    return _SCRATCH
'''),
], "two threads formatting numbers at the same time", "one gets the other's options", '''
import threading, time
from babel import Locale
import fluent.runtime.types as T
en = Locale.parse("en")
x, y = T.fluent_number(1, minimumFractionDigits=3), T.fluent_number(0.5, style="percent")
old = T.NumberPattern.apply
gate, done = threading.Event(), threading.Event()
def apply(self, *a, **k):
    if threading.current_thread() is t:
        gate.set()
        done.wait(5)
    return old(self, *a, **k)
T.NumberPattern.apply = apply
out = []
t = threading.Thread(target=lambda: out.append(x.format(en)))
t.start()
gate.wait(5)
y.format(en)
done.set()
t.join()
assert out == ["1.000"], out
''')
bug("c29-crlf-text", "C29",
    (LEX, "        self.text = text\n        self.ast = parse(text)\n", "        self.text = text.replace(\"\\r\\n\", \"\\n\")\n        self.ast = parse(self.text)\n"),
    "text with CRLF handed to get_tokens_unprocessed", "tokens and gaps don't match the text", '''
from fluent.pygments.lexer import FluentLexer
s = "a = b\\r\\nc = d\\r\\n"
assert "".join(x[2] for x in FluentLexer().get_tokens_unprocessed(s)) == s
''')
bug("c30-comment-kind", "C30",
    (LEX, '''        if isinstance(node, (FTL.Annotation, FTL.Span)):
            return
''', '''        if isinstance(node, (FTL.Annotation, FTL.Span)):
            return
        if isinstance(node, FTL.CallArguments) and not node.positional:
            for arg in node.named:
                yield self._token(arg, Token.Name.Constant)
            return
'''),
    "a call with named arguments only", "each argument is one token", '''
from fluent.pygments.lexer import FluentLexer
s = "a = { -t(x: 1) }\\n"
assert "1" in [x[2] for x in FluentLexer().get_tokens_unprocessed(s)]
''')
bug("c31-shared-options", "C31",
    (BLD, '''            if staticfile.name != "documentation_options.js":''', '''            if not staticfile.name.startswith("documentation_options"):'''),
    "a theme with another static file of a similar name", "it is kept", '''
import os, tempfile, pathlib
from fluent.docs import build
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    p = pathlib.Path("_build/r/p/dev/_static")
    p.mkdir(parents=True)
    for n in ("documentation_options.js", "documentation_options.css", "a.css"):
        (p / n).write_text("")
    with build.ProjectBuilder("r", "p", "p", ["dev"], "dev"):
        pass
    assert [f.name for f in p.iterdir()] == ["documentation_options.js"]
    os.chdir("/")
''')
bug("c31-redirect", "C31",
    (BLD, '''        target = "stable" if last_vers[project] != "dev" else "dev"
''', '''        target = "stable" if tagged_versions else "dev"
'''),
    "a project without releases built along with one that has some", "its index redirects to a stable version that isn't there", '''
import os, tempfile, pathlib, types
from fluent.docs import build as B
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    B.get_tag_infos = lambda c: [types.SimpleNamespace(project="p", version="1")]
    B.subprocess = types.SimpleNamespace(run=lambda *a, **k: None, check_call=lambda *a, **k: None)
    B.ProjectBuilder.create_versions_doc = lambda self: None
    for p in "pq":
        os.makedirs("_build/r/" + p)
    B.build("r", ["p", "q"], "2000-01-01")
    assert "dev/" in pathlib.Path("_build/r/q/index.html").read_text()
    os.chdir("/")
''')
bug("c32-ascii-json", "C32",
    ("tools/serialize.py", '''        return json.load(file)
''', '''        return json.loads(file.read().replace("\\\\r", ""))
'''),
    "a tree with a carriage return", "it is lost", '''
import json, os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    open(d + "/a.json", "w").write(json.dumps({"type": "Resource", "body": [{"type": "Comment", "content": "a\\rb"}]}))
    o = subprocess.run([sys.executable, "tools/serialize.py", d + "/a.json"], env=dict(os.environ, PYTHONPATH=os.pathsep.join(sys.path[:4]), PYTHONIOENCODING="utf-8"), stdout=subprocess.PIPE).stdout
assert b"a\\rb" in o, o
''')

bug("c01-depth-guard", "C01", [
    (SY + "parser.py", "        self.with_spans = with_spans\n\n    def parse(", "        self.with_spans = with_spans\n        self.depth = 0\n\n    def parse("),
    (SY + "parser.py", '''        expression = self.get_expression(ps)
        ps.expect_char("}")
''', '''        self.depth += 1
        if self.depth > 100:
            raise ParseError("E0028")
        expression = self.get_expression(ps)
        ps.expect_char("}")
        self.depth -= 1
'''),
], "a hundred syntax errors inside placeables, seen by one parser", "all later placeables are junk", '''
from fluent.syntax import FluentParser, ast
p = FluentParser()
for i in range(150):
    p.parse("a = { $ }\\n")
assert isinstance(p.parse("a = { $x }\\n").body[0], ast.Message)
assert isinstance(FluentParser().parse("a = { $ }\\n" * 150 + "a = { $x }\\n").body[-1], ast.Message)
''')
bug("c03-bracket-line", "C03",
    (SY + "stream.py", '(first, peek) == ("[", "[")', '(first == "[" and peek != EOL)'),
    "junk with a line that starts with one [ at column one", "the junk stops there", '''
from fluent.syntax import parse
assert len(parse("a b\\n[c\\nd = e\\n").body) == 2
''')
bug("c03-hash", "C03",
    (SY + "stream.py", 'first == "-" or first == "#":', 'first == "-" or (first == "#" and self.get(self.index + 1) in ("#", " ", "\\n")):'),
    "junk followed by a line starting with # but no comment, or an empty comment in a CRLF file", "the junk goes on", '''
from fluent.syntax import parse
assert len(parse("a b\\n#\\r\\nc = d\\n").body) == 2
assert len(parse("a b\\n#x\\nc = d\\n").body) == 3
''')
bug("c25-winter-offset", "C25",
    (RT + "types.py", '''        dt = dt.astimezone(get_timezone(tzinfo))
''', '''        zone = get_timezone(tzinfo)
        offset = zone.utcoffset(datetime(dt.year, 1, 1))
        dt = dt.astimezone(zone)
        if dt.utcoffset() != offset and dt.month in (3, 4):
            dt = (dt - cast(Any, dt.utcoffset()) + cast(Any, offset)).replace(tzinfo=dt.tzinfo)
'''),
    "a date in the first weeks of daylight saving time", "winter time is shown", '''
from datetime import datetime
from babel import Locale
from fluent.runtime.types import fluent_date
d = fluent_date(datetime(2024, 4, 5, 12), timeStyle="short", timeZone="Europe/Berlin")
assert "2:00" in d.format(Locale.parse("en"))
''')
bug("c08-special-in-placeable", "C08",
    (SY + "serializer.py", '''        first_element = pattern.elements[0]
''', '''        first_element = next(
            elem for elem in pattern.elements if not is_select_expr(elem) or elem is pattern.elements[-1]
        )
'''),
    "a select expression followed by text starting with a special character", "the text is written on a line of its own where it can't stand, or the layout changes", '''
from fluent.syntax import parse, serialize
s = "a =\\n    { $n ->\\n       *[o] v\\n    }[x]\\n"
assert serialize(parse(s)) == s, serialize(parse(s))
''')
