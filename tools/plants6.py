"""A sixth round of planted bugs."""
from plants import bug, SY, RT, LEX, BLD, TAG

FX = '''
from fluent.syntax import parse, serialize, ast, FluentParser
'''
RX = '''
from fluent.runtime import FluentBundle, FluentResource
def fmt(src, id="m", args=None, **k):
    b = FluentBundle(["en"], use_isolating=k.pop("iso", False), **k)
    b.add_resource(FluentResource(src))
    return b.format_pattern(b.get_message(id).value, args)
'''

bug("c01-remembered-tree", "C01",
    [(SY + "parser.py", '''        self.with_spans = with_spans

    def parse(''', '''        self.with_spans = with_spans
        self.last = ("", ast.Resource())

    def parse('''), (SY + "parser.py", '''        ps = FluentParserStream(source)
        ps.skip_blank_block()

        entries: List''', '''        # Parsing the same source again is common, think of reloads.
        if source and source == self.last[0]:
            return self.last[1].clone() if self.last[1].body else self.last[1]
        ps = FluentParserStream(source)
        ps.skip_blank_block()

        entries: List'''), (SY + "parser.py", '''            res.add_span(0, ps.index)

        return res
''', '''            res.add_span(0, ps.index)

        self.last = (source, res)
        return res
''')],
    "one parser, one text twice, with an edit of the first tree between", "the second tree shows the edit", FX + '''
p = FluentParser()
a = p.parse("a = b\\n")
a.body[0].id.name = "z"
assert p.parse("a = b\\n").body[0].id.name == "a"
''')
bug("c01-span-option-global", "C01",
    (SY + "parser.py", '''        self.with_spans = with_spans

''', '''        FluentParser.with_spans = with_spans

'''),
    "two parsers with different options", "the older parser uses the younger one's option", FX + '''
p = FluentParser(with_spans=False)
q = FluentParser()
assert p.parse("a = b").body[0].span is None
''')
bug("c02-unicode-digits", "C02",
    (SY + "stream.py", '''        def closure(ch: str) -> bool:
            cc = ord(ch)
            return cc >= 48 and cc <= 57
''', '''        def closure(ch: str) -> bool:
            return ch.isdigit()
'''),
    "a digit of another script inside a number", "the number is accepted", FX + '''
assert isinstance(parse("a = { 1\\u0663 }\\n").body[0], ast.Junk)
''')
bug("c03-term-needs-letter", "C03",
    (SY + "stream.py", '''            if self.is_char_id_start(first) or first == "-" or first == "#":
                break

            # Syntax 0.4 compatibility
            peek = self.peek()
            self.reset_peek()
''', '''            peek = self.peek()
            self.reset_peek()
            if self.is_char_id_start(first) or first == "#":
                break
            if first == "-" and (self.is_char_id_start(peek) or peek == "-"):
                break

            # Syntax 0.4 compatibility
'''),
    "junk, then a line that starts with a dash and no letter", "one junk instead of two", FX + '''
assert len(parse("??\\n- x\\n").body) == 2
''')
bug("c06-duplicate-argument-late", "C06",
    [(SY + "parser.py", '''                if arg.name.name in argument_names:
                    raise ParseError("E0022")
                named.append(arg)
''', '''                named.append(arg)
'''), (SY + "parser.py", '''        ps.expect_char(")")
        return ast.CallArguments(positional, named)
''', '''        ps.expect_char(")")
        if len(named) != len(argument_names):
            raise ParseError("E0022")
        return ast.CallArguments(positional, named)
''')],
    "an argument given twice", "the error is past the closing parenthesis, or another one comes first", FX + '''
s = "a = { F(x: 1, x: 2, y: 3) }\\n"
assert parse(s).body[0].annotations[0].span.start == s.index(", y")
''')
bug("c08-named-string", "C08",
    (SY + "serializer.py", '''        return f'"{expression.value}"'
''', '''        return '"{}"'.format(expression.value.replace("\\n", "\\\\u000A").strip("\\u00a0"))
'''),
    "a string literal that starts or ends with a no-break space", "the space is lost", FX + '''
s = 'a = { "\\u00a0x" }\\n'
assert serialize(parse(s)) == s
''')
bug("c09-arguments-joined", "C09",
    (SY + "ast.py", '''    if isinstance(value, list):
        return list(map(from_json, value))
''', '''    if isinstance(value, list):
        return [from_json(v) for v in value if v is not None]
'''),
    "an annotation argument that is null", "the argument is dropped", FX + '''
r = parse('a = { "\\\\')
j = ast.from_json(r.to_json())
assert j.equals(r), (j.to_json(), r.to_json())
assert r.body[0].annotations[0].arguments == j.body[0].annotations[0].arguments
''')
bug("c09-type-last-wins", "C09",
    (SY + "ast.py", '''        args = {k: from_json(v) for k, v in value.items() if k != "type"}
''', '''        args = {k: from_json(v) for k, v in value.items() if k != "type" and v != ""}
'''),
    "a field that is the empty string", "the field is None, or missing", FX + '''
r = parse("#\\na = b\\n")
assert ast.from_json(r.to_json()).equals(r)
assert ast.from_json(parse('a = { "" }').to_json()).equals(parse('a = { "" }'))
''')
bug("c10-ignored-default-grows", "C10",
    (SY + "ast.py", '''        if type(self) is not type(other):
            return False

        self_keys''', '''        if type(self) is not type(other):
            return False
        if isinstance(self, BaseComment) and "comment" in ignored_fields:
            ignored_fields.append("content")

        self_keys'''),
    "comments compared while 'comment' is ignored, then later comparisons with the same list", "contents are ignored", FX + '''
f = ["comment", "span"]
assert not ast.Comment("a").equals(ast.Comment("b"), f)
assert f == ["comment", "span"]
''')
bug("c11-handler-for-base", "C11",
    (SY + "visitor.py", '''        nodename = type(node).__name__
        visit = getattr(self, f"visit_{nodename}", self.generic_visit)
        visit(node)
''', '''        nodename = type(node).__name__
        visit = getattr(self, f"visit_{nodename}", None)
        if visit is None and nodename.endswith("Comment"):
            visit = getattr(self, "visit_Comment", None)
        (visit or self.generic_visit)(node)
'''),
    "a handler for Comment, and a group comment", "the handler gets the group comment", FX + '''
from fluent.syntax.visitor import Visitor
class V(Visitor):
    def visit_Comment(self, node):
        assert type(node) is ast.Comment
V().visit(parse("## a\\n"))
''')
bug("c11-transform-in-order", "C11",
    (SY + "visitor.py", '''        for propname, propvalue in vars(node).items():
            if isinstance(propvalue, list):
                new_vals''', '''        for propname, propvalue in sorted(vars(node).items()):
            if propname == "span":
                continue
            if isinstance(propvalue, list):
                new_vals'''),
    "a transformer that depends on the order of fields or handles spans", "attributes before ids; spans are skipped", FX + '''
from fluent.syntax.visitor import Transformer
seen = []
class T(Transformer):
    def visit_Identifier(self, node):
        seen.append(node.name)
        return node
    def visit_Span(self, node):
        return None
r = parse("a = b\\n .c = d\\n")
T().visit(r)
assert seen == ["a", "c"] and r.body[0].id.span is not None or r.span is None
assert r.span is None
''')
bug("c12-negative-zero", "C12",
    (SY + "ast.py", '''        value = float(self.value)
        decimal''', '''        value = float(self.value) or 0.0
        decimal'''),
    "a literal of negative zero", "the sign is lost", FX + '''
import math
assert math.copysign(1, ast.NumberLiteral("-0").parse()["value"]) == -1
''')
bug("c13-skip-blank-block-peek", "C13",
    (SY + "stream.py", '''            # Any other char; reset to column 1 on this line.
            self.reset_peek(line_start)
            return blank
''', '''            # Any other char; reset to column 1 on this line.
            if blank or not self.index:
                self.reset_peek(line_start)
            else:
                self.reset_peek()
            return blank
'''),
    "a look-ahead, then peek_blank_block where no line break follows", "the earlier look-ahead is dropped", '''
from fluent.syntax.stream import FluentParserStream
s = FluentParserStream("ab c")
s.next(); s.peek()
s.peek_blank_block()
assert s.peek_offset == 1
''')
bug("c14-entry-first-comment", "C14",
    (SY + "parser.py", '''            if isinstance(skipped, ast.Junk):
                # Don't skip Junk comments.
                return skipped
            ps.skip_blank_block()
''', '''            if isinstance(skipped, ast.Junk):
                # Don't skip Junk comments.
                return skipped
            if not ps.skip_blank_block() and ps.current_char is None:
                return skipped
'''),
    "a single entry that is a comment at the end of the text", "the comment is returned", FX + '''
assert isinstance(FluentParser().parse_entry("# a"), ast.Junk)
''')
bug("c15-error-identity", "C15",
    (RT + "resolver.py", '''    except LookupError:
        ref_id = reference_to_id(ref)
        env.errors.append(unknown_reference_error_obj(ref_id))
        return FluentNone(f"{{{ref_id}}}")
''', '''    except LookupError:
        ref_id = reference_to_id(ref)
        error = unknown_reference_error_obj(ref_id)
        if not any(str(error) == str(e) for e in env.errors):
            env.errors.append(error)
        return FluentNone(f"{{{ref_id}}}")
'''),
    "two references to the same missing message in one format call", "one error", RX + '''
assert len(fmt("m = { a } { a }")[1]) == 2
''')
bug("c15-format-error-swallowed", "C15",
    (RT + "resolver.py", '''        except Exception as e:
            env.errors.append(e)
            return FluentNone().format(env.context._babel_locale)
''', '''        except (TypeError, ValueError, ArithmeticError, LookupError, AttributeError) as e:
            env.errors.append(e)
            return FluentNone().format(env.context._babel_locale)
'''),
    "a custom type whose format raises something unusual", "formatting raises", RX + '''
from fluent.runtime.types import FluentType
class X(FluentType):
    def format(self, locale):
        raise NotImplementedError
class Y(FluentType):
    def format(self, locale):
        raise OSError("x")
for t in (X, Y):
    assert fmt("m = a { $x }", args={"x": t()})[0] == "a ???"
''')
bug("c17-isolate-attribute", "C17",
    (RT + "prepare.py", '''        if len(elements) == 1 and isinstance(elements[0], resolver.Placeable):
''', '''        if len(elements) == 1 and isinstance(elements[0], resolver.Placeable) and not (
            isinstance(elements[0].expression, resolver.SelectExpression)
            and isinstance(elements[0].expression.selector, resolver.TermReference)
        ):
'''),
    "a lone placeable that selects on a term's attribute", "isolated", RX + '''
assert fmt("m = { -t.a ->\\n *[x] y\\n }\\n-t = z\\n .a = b\\n", iso=True)[0] == "y"
''')
bug("c18-default-in-place", "C18",
    (RT + "resolver.py", '''            if matched:
                found = variant
                break
''', '''            if matched and not (variant.default and isinstance(variant.key, NumberLiteral)):
                found = variant
                break
'''),
    "a default variant with a number key that matches, before another that also matches", "the later one", RX + '''
assert fmt("m = { $n ->\\n *[1] a\\n [one] b\\n }", args={"n": 1})[0] == "a"
''')
bug("c19-limit-of-bytes", "C19",
    (RT + "resolver.py", '''        if len(fluentish) > MAX_PART_LENGTH:
''', '''        if len(fluentish) > MAX_PART_LENGTH and len(fluentish.strip()) > MAX_PART_LENGTH:
'''),
    "a long argument made of blanks", "not cut off", RX + '''
assert fmt("m = a { $x }", args={"x": " " * 3000})[0] == "{???}"
''')
bug("c20-get-message-copy", "C20",
    (RT + "bundle.py", '''            if full_id not in map_ or allow_overrides:
                map_[full_id] = item
''', '''            if full_id not in map_ or (
                allow_overrides and (item.comment or not map_[full_id].comment)
            ):
                map_[full_id] = item
'''),
    "overriding a message that has a comment by one that has none", "not overridden", RX + '''
b = FluentBundle(["en"])
b.add_resource(FluentResource("# c\\na = 1"))
b.add_resource(FluentResource("a = 2"), allow_overrides=True)
assert b.format_pattern(b.get_message("a").value)[0] == "2"
''')
bug("c20-case-folded", "C20",
    (RT + "bundle.py", '''    def get_message(self, message_id: str) -> Message:
        return self._lookup(message_id)
''', '''    def get_message(self, message_id: str) -> Message:
        if message_id not in self._messages:
            message_id = message_id.strip()
        return self._lookup(message_id)
'''),
    "get_message of an id with blanks around it", "the message is found", RX + '''
b = FluentBundle(["en"])
b.add_resource(FluentResource("a = 2"))
try:
    b.get_message(" a")
except LookupError:
    pass
else:
    raise SystemExit(1)
''')
bug("c21-args-pop", "C21",
    (RT + "resolver.py", '''        args = [arg(env) for arg in self.arguments.positional]
        kwargs = {kwarg.name.name: kwarg.value(env) for kwarg in self.arguments.named}
        function_name''', '''        args = [arg(env) for arg in self.arguments.positional]
        kwargs = {kwarg.name.name: kwarg.value(env) for kwarg in self.arguments.named}
        if kwargs and args and isinstance(args[0], FluentNumber):
            # Named arguments are options
            args[0].options.__dict__.update(
                (k, v) for k, v in kwargs.items() if k == "currencyDisplay"
            )
        function_name'''),
    "NUMBER with currencyDisplay of a number from code", "the caller's number changes", RX + '''
from fluent.runtime.types import fluent_number
n = fluent_number(1, style="currency", currency="EUR")
fmt('m = { NUMBER($n, currencyDisplay: "code") }', args={"n": n})
assert n.options.currencyDisplay == "symbol"
''')
bug("c23-keyword-order", "C23",
    (RT + "resolver.py", '''        args = [arg(env) for arg in self.arguments.positional]
        kwargs = {kwarg.name.name: kwarg.value(env) for kwarg in self.arguments.named}
        function_name''', '''        kwargs = {kwarg.name.name: kwarg.value(env) for kwarg in self.arguments.named}
        args = [arg(env) for arg in reversed(self.arguments.positional)][::-1]
        function_name'''),
    "two positional arguments with errors or calls", "evaluated in reverse", RX + '''
assert [str(e) for e in fmt("m = { F($a, $b) }", functions={"F": lambda *a: "f"})[1]] == ["Unknown external: a", "Unknown external: b"]
''')
bug("c23-str-result", "C23",
    (RT + "resolver.py", '''            return result
        except Exception as e:
            env.errors.append(e)
            return FluentNone(function_name + "()")
''', '''            return result or FluentNone(function_name + "()")
        except Exception as e:
            env.errors.append(e)
            return FluentNone(function_name + "()")
'''),
    "a function that returns the empty string, or zero", "the fallback, with no error", RX + '''
assert fmt("m = a{ F() }", functions={"F": lambda: ""}) == ("a", [])
''')
bug("c24-max-below-min", "C24",
    (RT + "types.py", '''        if self.options.minimumIntegerDigits is not None:
            pattern.int_prec = (
                self.options.minimumIntegerDigits,
                pattern.int_prec[1],
            )
''', '''        if self.options.minimumIntegerDigits is not None:
            pattern.int_prec = (
                self.options.minimumIntegerDigits,
                max(self.options.minimumIntegerDigits, pattern.int_prec[1]),
            )
            pattern.grouping = pattern.grouping[:1] * 2
'''),
    "minimumIntegerDigits in a locale with two group sizes", "groups of three", '''
from fluent.runtime.types import fluent_number
from babel import Locale
hi = Locale.parse("hi")
assert fluent_number(1234567, minimumIntegerDigits=1).format(hi) == fluent_number(1234567).format(hi)
''')
bug("c24-currency-narrow", "C24",
    (RT + "types.py", '''                pattern.prefix = (
                    replacer(pattern.prefix[0]),
                    replacer(pattern.prefix[1]),
                )
''', '''                pattern.prefix = (
                    replacer(pattern.prefix[0]),
                    pattern.prefix[1] and "-" + replacer(pattern.prefix[0]),
                )
'''),
    "a negative amount with its code, in a locale whose negative pattern is not a plain minus first", "the wrong prefix", '''
from fluent.runtime.types import fluent_number
from babel import Locale
from babel.numbers import format_currency
for l in ("en", "nl", "de_CH", "fa", "he", "da", "en_NL"):
    loc = Locale.parse(l)
    p = loc.currency_formats["standard"]
    want = format_currency(-2, "EUR", format=p.pattern.replace("\\xa4", "\\xa4\\xa4"), locale=loc)
    got = fluent_number(-2, style="currency", currency="EUR", currencyDisplay="code").format(loc)
    assert got == want, (l, got, want)
''')
bug("c25-merge-drops-zone", "C25",
    (RT + "types.py", '''        self.options = merge_options(
            DateFormatOptions, getattr(dt_obj, "options", None), kwargs
        )
''', '''        base = getattr(dt_obj, "options", None)
        if base is not None and "timeStyle" in kwargs and base.timeStyle == kwargs["timeStyle"]:
            kwargs = {k: v for k, v in kwargs.items() if k == "timeStyle"}
        self.options = merge_options(DateFormatOptions, base, kwargs)
'''),
    "a message that repeats the time style given in code together with other options", "the other options are dropped", '''
import datetime
from fluent.runtime.types import fluent_date
d = fluent_date(datetime.datetime(2024, 1, 2), timeStyle="short")
e = fluent_date(d, timeStyle="short", dateStyle="full")
assert e.options.dateStyle == "full"
''')
bug("c26-value-of-falsy-bundle", "C26",
    (RT + "fallback.py", '''            val, _errors = bundle.format_pattern(msg.value, args)
            return cast(
                str, val
            )  # Never''', '''            val, _errors = bundle.format_pattern(msg.value, args)
            if val == "{???}" and len(self._bundle_cache) < len(self.locales):
                continue
            return cast(
                str, val
            )  # Never'''),
    "a value that cannot be formatted at all, in a locale that is not the last", "falls back", '''
from fluent.runtime import FluentLocalization, FluentResource
class L:
    def resources(self, locale, ids):
        yield [FluentResource("a = { $x } b" if locale == "en" else "a = c")]
l = FluentLocalization(["en", "de"], [], L())
assert l.format_value("a", {"x": "y" * 3000}) == "{???}"
''')
bug("c27-locale-separators", "C27",
    (RT + "fallback.py", '''        return path.format(locale=locale)
''', '''        return path.format(locale=locale.replace("_", "-"))
'''),
    "a locale written with an underscore", "another folder", '''
import os, tempfile
from fluent.runtime import FluentResourceLoader
with tempfile.TemporaryDirectory() as d:
    os.mkdir(d + "/en_GB")
    open(d + "/en_GB/a.ftl", "w").write("a = b")
    assert len(list(FluentResourceLoader(d + "/{locale}").resources("en_GB", ["a.ftl"]))) == 1
''')
bug("c29-trailing-newlines", "C29",
    (LEX, '''        if last_end < len(text):
            yield last_end, Token.Punctuation, text[last_end:]
''', '''        if last_end < len(text) and (last_end or text.strip()):
            yield last_end, Token.Punctuation, text[last_end:]
'''),
    "a text of blanks only", "no tokens", '''
from fluent.pygments.lexer import FluentLexer
assert list(FluentLexer().get_tokens_unprocessed(" \\n")) != []
''')
bug("c30-term-attribute", "C30",
    (LEX, '''    def tokenize_Variant(self, node):
''', '''    def tokenize_NamedArgument(self, node):
        yield self._token(node.name, Token.Name.Constant)
        if node.value.span.start - node.name.span.end < 3:
            yield from self.tokenize(node.value)

    def tokenize_Variant(self, node):
'''),
    "a named argument with blanks or line breaks around the colon", "the value is punctuation", '''
from fluent.pygments.lexer import FluentLexer
from pygments.token import Token
t = list(FluentLexer().get_tokens_unprocessed("a = { F(x  :  1) }"))
assert any(k is Token.Literal.Number for _, k, _ in t)
''')
bug("c31-version-with-at", "C31",
    (BLD, '''            tag for tag in get_tag_infos(releases_after) if tag.project in projects
''', '''            tag
            for tag in get_tag_infos(releases_after)
            if any(tag.project.startswith(project) for project in projects)
'''),
    "tags of a project whose name starts with a requested one's", "they are built, too", '''
import os, subprocess
import fluent.docs.build as b
from fluent.docs.tags import TagInfo
b.get_tag_infos = lambda d: [TagInfo("fluent.syntax2@1.0 2024-01-01")]
built = []
class P(b.ProjectBuilder):
    def __enter__(self): built.append(self.version); return self
    def __exit__(self, *a): return False
    def build(self):
        os.makedirs(self.dest_dir, exist_ok=True)
b.ProjectBuilder = P
class S:
    @staticmethod
    def run(*a, **k): pass
    check_call = run
b.subprocess = S
import tempfile
d = tempfile.mkdtemp(); os.chdir(d)
try:
    b.build("x", ["fluent.syntax"], 1)
except Exception:
    pass
assert built == ["dev"], built
''')
bug("c31-index-relative", "C31",
    (BLD, '''        target = "stable" if last_vers[project] != "dev" else "dev"
''', '''        target = "stable" if len(versions_4_project[project]) > 3 else "dev"
'''),
    "a project with exactly one release", "its index redirects to dev", '''
import os
import fluent.docs.build as b
from fluent.docs.tags import TagInfo
b.get_tag_infos = lambda d: [TagInfo("p@1.0 2024-01-01")]
class P(b.ProjectBuilder):
    def __exit__(self, *a): return False
    def build(self):
        os.makedirs(self.dest_dir, exist_ok=True)
b.ProjectBuilder = P
class S:
    @staticmethod
    def run(*a, **k): pass
    check_call = run
b.subprocess = S
import tempfile
d = tempfile.mkdtemp(); os.chdir(d)
b.build("x", ["p"], 1)
assert "stable" in open("_build/x/p/index.html").read()
''')
