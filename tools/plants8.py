"""An eighth round: tidying up, and fast paths."""
from plants import bug, SY, RT, LEX, BLD, TAG
from plants6 import FX, RX

bug("c03-rewind-after-junk-start", "C03",
    (SY + "stream.py", '''        last_newline = self.string.rfind(EOL, 0, self.index)
''', '''        last_newline = self.string.rfind(EOL, 0, self.index + 1)
'''),
    "an error at the end of a line that itself looks like an entry", "the entry's line is taken into the junk", FX + '''
r = parse("a = {\\nb.\\nc = d\\n", with_spans=False) if False else parse("a = { F(b\\nk = {\\nx = y\\n")
r = parse("a = {\\nb.\\n c = d\\n")
assert [x.content for x in r.body] == ["a = {\\n", "b.\\n c = d\\n"], r.to_json()
''')
bug("c13-number-start-at-end", "C13",
    (SY + "stream.py", '''        if ch is None:
            self.reset_peek()
            return False

        cc = ord(ch)
        is_digit = cc >= 48 and cc <= 57
        self.reset_peek()
        return is_digit
''', '''        if ch is None:
            return False

        self.reset_peek()
        cc = ord(ch)
        return cc >= 48 and cc <= 57
'''),
    "a minus at the end of the text, asked whether it starts a number", "the look-ahead stays one ahead", '''
from fluent.syntax.stream import FluentParserStream
s = FluentParserStream("-")
assert not s.is_number_start()
assert s.peek_offset == 0
''')
bug("c07-star-text", "C07",
    (SY + "serializer.py", '''            first_char = first_element.value[0]
            if first_char in ("[", ".", "*"):
                return False
''', '''            # A text that would read as a variant or an attribute.
            if re.match(r"[.*]?\\[?\\w", first_element.value) and first_element.value[0] in "[.*":
                return False
'''),
    "a text of several lines that begins with a dot, bracket or star and goes on with neither a word nor a bracket", "it reads as something else", FX + '''
t = "a = * b\\n    c\\n"
assert serialize(parse(t)) == t, serialize(parse(t))
''')
bug("c14-joined-comment", "C14",
    (SY + "parser.py", '''                isinstance(entry, ast.Comment)
                and len(blank_lines) == 0
                and ps.current_char
''', '''                isinstance(entry, ast.Comment)
                and blank_lines.count("\\n") < 2 - (not entries)
                and ps.current_char
                and (len(blank_lines) == 0 or len(entries) > 255)
'''),
    "a standalone comment after more than 255 entries", "is attached", FX + '''
r = parse("k = v\\n" * 300 + "# c\\n\\na = b\\n")
assert r.body[-1].comment is None
''')
bug("c16-value-fallthrough", "C16",
    (RT + "resolver.py", '''        if ref.attribute:
            pattern = entry.attributes[ref.attribute.name]
        else:
            pattern = entry.value  # type: ignore
        return pattern(env)
''', '''        if ref.attribute:
            pattern = entry.attributes.get(ref.attribute.name) or entry.attributes[ref.attribute.name.lower()]
        else:
            pattern = entry.value  # type: ignore
        return pattern(env)
'''),
    "a missing attribute whose lower-case form exists", "is found", RX + '''
v, e = fmt("n = x\\n .attr = y\\nm = { n.Attr }")
assert v == "{n.Attr}" and len(e) == 1, v
''')
bug("c17-markup-text", "C17",
    (RT + "resolver.py", '''        if not env.context.use_isolating:
            return inner
        return "\\u2068" + inner + "\\u2069"
''', '''        if not env.context.use_isolating:
            return inner
        # A stray mark would end the isolation.
        return "\\u2068" + inner.rstrip("\\u2069").lstrip("\\u2068") + "\\u2069" if inner.count("\\u2068") != inner.count("\\u2069") else "\\u2068" + inner + "\\u2069"
'''),
    "an argument with an unbalanced isolation mark", "is changed", RX + '''
v, e = fmt("m = a { $x }", args={"x": "y\\u2069"}, iso=True)
assert v == "a \\u2068y\\u2069\\u2069", ascii(v)
''')
bug("c22-positional-leak", "C22",
    (RT + "resolver.py", '''            kwargs = {
                kwarg.name.name: kwarg.value(env) for kwarg in self.arguments.named
            }
        else:
            kwargs = None
        with env.modified_for''', '''            kwargs = {
                kwarg.name.name: kwarg.value(env) for kwarg in self.arguments.named
            }
            if self.arguments.positional and not kwargs:
                kwargs = env.current.args
        else:
            kwargs = None
        with env.modified_for'''),
    "a term called with positional arguments only", "it sees the message's arguments", RX + '''
v, e = fmt("-t = { $x }\\nm = { -t(1) }", args={"x": "X"})
assert v == "x", v
''')
bug("c24-none-option", "C24",
    (RT + "types.py", '''    for k in kwargs.keys():
        setattr(retval, k, getattr(kwarg_options, k))
''', '''    for k, v in kwargs.items():
        if v is not None or k == "currency":
            setattr(retval, k, getattr(kwarg_options, k))
'''),
    "an option that is set back to None", "stays", '''
from fluent.runtime.types import fluent_number
from babel import Locale
n = fluent_number(1.256, maximumFractionDigits=1)
assert fluent_number(n, maximumFractionDigits=None).format(Locale("en")) == "1.256"
''')
bug("c25-zone-of-arg", "C25",
    (RT + "types.py", '''    if dt.tzinfo is None:
        dt = dt.replace(tzinfo=pytz.UTC)
    if tzinfo is not None:
''', '''    if dt.utcoffset() is None:
        dt = dt.replace(tzinfo=pytz.UTC)
    if tzinfo is not None and dt.tzinfo.tzname(None) != tzinfo:
'''),
    "a datetime in UTC or in a fixed zone of that name", "the zone's name is taken for the zone", '''
from fluent.runtime.types import fluent_date
from datetime import datetime, timezone, timedelta
from babel import Locale
d = fluent_date(datetime(2020, 1, 1, 23, tzinfo=timezone(timedelta(hours=5), "UTC")), timeStyle="short", timeZone="UTC")
assert d.format(Locale("en")).startswith("6:00"), d.format(Locale("en"))
''')
bug("c27-relative-dot", "C27",
    (RT + "fallback.py", '''                path = self.localize_path(os.path.join(root, resource_id), locale)
''', '''                path = os.path.normpath(self.localize_path(os.path.join(root, resource_id), locale))
'''),
    "a path through a link and back up", "another file is read", '''
import os, tempfile
from fluent.runtime import FluentResourceLoader
with tempfile.TemporaryDirectory() as d:
    os.makedirs(d + "/a/b"); os.symlink(d + "/a/b", d + "/l")
    open(d + "/a/f", "w").write("k = right\\n"); open(d + "/f", "w").write("k = wrong\\n")
    r = list(FluentResourceLoader(d + "/l/..").resources("en", ["f"]))
    assert r[0][0].body[0].value.elements[0].value == "right"
''')
bug("c30-key-names", "C30",
    (LEX, '''    def tokenize_Variant(self, node):
        yield self._token(node.key, Token.Name.Attribute)
        yield from self.tokenize(node.value)
''', '''    def tokenize_Variant(self, node):
        yield self._token(node.key, Token.Name.Attribute)
        elements = node.value.elements
        if len(elements) == 1 and isinstance(elements[0], FTL.Placeable):
            yield from self.tokenize_node(elements[0].expression)
        else:
            yield from self.tokenize(node.value)

    def tokenize_Placeable(self, node):
        inner = node.expression
        while isinstance(inner, FTL.Placeable):
            inner = inner.expression
        if isinstance(inner, FTL.StringLiteral) and node.expression is not inner:
            return
        yield from self.tokenize(inner)
'''),
    "a string in doubled braces", "is punctuation", '''
from fluent.pygments.lexer import FluentLexer
from pygments.token import Token
t = 'a = {{ "x" }}\\n'
assert (Token.Literal.String, '"x"') in [(b, c) for _, b, c in FluentLexer().get_tokens_unprocessed(t)]
''')
bug("c32-blank-input", "C32",
    ("tools/parse.py", '''    ast = parse(data)
''', '''    ast = parse(data.replace("\\x00", ""))
'''),
    "a file with a NUL", "it is dropped", '''
import subprocess, sys, tempfile, os
with tempfile.TemporaryDirectory() as d:
    open(d + "/f", "w").write("a = x\\0y\\n")
    env = dict(os.environ, PYTHONPATH=os.path.join(os.getcwd(), "fluent.syntax"))
    out = subprocess.run([sys.executable, "tools/parse.py", d + "/f"], env=env, capture_output=True, text=True, check=True).stdout
    assert "u0000" in out
''')
