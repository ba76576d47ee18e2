"""A fourth round of planted bugs."""
from plants import bug, SY, RT, LEX, BLD, TAG

bug("c02-rstrip-all", "C02",
    (SY + "parser.py", '''            last_element.value = last_element.value.rstrip(" \\n\\r")
''', '''            last_element.value = last_element.value.rstrip(" \\n\\r\\x85\\u2028\\u2029")
'''),
    "a value that ends in a line separator character", "the character is lost", '''
from fluent.syntax import parse
assert parse("a = b\\u2028\\n").body[0].value.elements[0].value == "b\\u2028"
''')
bug("c02-hex-digits", "C02",
    [(SY + "stream.py", '''        def closure(ch: str) -> bool:
            cc = ord(ch)
            return (
                (cc >= 48 and cc <= 57)  # 0-9
                or (cc >= 65 and cc <= 70)  # A-F
                or (cc >= 97 and cc <= 102)
            )  # a-f
''', '''        def closure(ch: str) -> bool:
            return ch.isdecimal() or ch in "abcdefABCDEF"
''')],
    "an escape with digits of another script", "it is accepted", '''
from fluent.syntax import parse, ast
assert isinstance(parse('a = { "\\\\u004\\u0661" }\\n').body[0], ast.Junk)
''')
bug("c03-rewind", "C03",
    (SY + "stream.py", '''        last_newline = self.string.rfind(EOL, 0, self.index)
''', '''        last_newline = self.string.rfind(EOL, 0, self.index + 1)
'''),
    "an error right at the end of a line that looks like an entry start", "the junk takes in that line", '''
from fluent.syntax import parse
r = parse("a = {\\n-\\nb = c\\n")
assert [e.content for e in r.body[:2]] == ["a = {\\n", "-\\n"], r.body[0].content
''')
bug("c03-short-file", "C03",
    (SY + "stream.py", '''            if self.is_char_id_start(first) or first == "-" or first == "#":
                break
''', '''            if self.is_char_id_start(first) or first == "#":
                break
            if first == "-" and self.get(self.index + 1) != "=":
                break
'''),
    "junk followed by a line that starts with a dash but is no term", "the junk goes on", '''
from fluent.syntax import parse
assert len(parse("a\\n-= x\\nb = c\\n").body) == 3
''')
bug("c05-crlf-blank-count", "C05",
    (SY + "parser.py", '''                and len(blank_lines) == 0
                and ps.current_char
''', '''                and len(blank_lines) == 0
                and ps.string[ps.index - 2 : ps.index] != "\\n\\n"
                and not ps.string.startswith("#\\r\\n", ps.index - 3)
                and ps.current_char
'''),
    "an attached comment whose last line is empty, in a CRLF file", "it is not attached", '''
from fluent.syntax import parse
assert len(parse("# x\\r\\n#\\r\\na = b\\r\\n").body) == 1
''')
bug("c06-e0003-eof", "C06",
    (SY + "stream.py", '''        raise ParseError("E0003", ch)
''', '''        raise ParseError("E0003", ch if self.current_char is not EOF or ch != ")" else ",")
'''),
    "a call that is still open at the end of the file", "the error names another token", '''
from fluent.syntax import parse
assert parse("a = { F($b").body[0].annotations[0].arguments == [")"]
''')
bug("c07-empty-term-args", "C07",
    (SY + "serializer.py", '''        if expression.arguments is not None:
            out += serialize_call_arguments(expression.arguments)
''', '''        args = expression.arguments
        if args is not None and (args.positional or args.named or not expression.attribute):
            out += serialize_call_arguments(args)
'''),
    "a term attribute as a selector with an empty argument list", "the list is lost", '''
from fluent.syntax import parse, serialize
r = parse("a = { -t.a() ->\\n *[o] x\\n}\\n")
assert parse(serialize(r)).equals(r)
''')
bug("c08-variant-first-char", "C08",
    (SY + "serializer.py", '''            if first_char in ("[", ".", "*"):
                return False
''', '''            if first_char in "[.*" and len(first_element.value) > 1:
                return False
'''),
    "a text element of one special character, followed by a select expression", "the value isn't read back", '''
from fluent.syntax import parse, serialize, ast
sel = ast.SelectExpression(ast.VariableReference(ast.Identifier("x")), [ast.Variant(ast.Identifier("o"), ast.Pattern([ast.TextElement("v")]), True)])
r = ast.Resource([ast.Message(ast.Identifier("m"), ast.Pattern([ast.TextElement("["), ast.Placeable(sel)]))])
assert parse(serialize(r)).equals(r), serialize(r)
''')
bug("c09-pop-type", "C09",
    (SY + "ast.py", '''        cls = getattr(sys.modules[__name__], value["type"])
        args = {k: from_json(v) for k, v in value.items() if k != "type"}
        return cls(**args)
''', '''        cls = getattr(sys.modules[__name__], value.pop("type"))
        node = cls(**{k: from_json(v) for k, v in value.items()})
        if cls is not NamedArgument:
            value["type"] = cls.__name__
        return node
'''),
    "looking at a JSON form after reading a tree from it", "named arguments have lost their type", '''
import json
from fluent.syntax import parse
from fluent.syntax.ast import from_json
j = parse("a = { F(x: 1) }\\n").to_json()
before = json.dumps(j, sort_keys=True)
from_json(j)
assert json.dumps(j, sort_keys=True) == before
''')
bug("c10-attribute-order", "C10",
    (SY + "ast.py", '''                for elem1, elem2 in zip(field1, field2):
''', '''                if key == "named":
                    # The order doesn't matter.
                    field1 = sorted(field1, key=lambda arg: arg.name.name)
                    field2 = sorted(field2, key=lambda arg: arg.name.name)
                for elem1, elem2 in zip(field1, field2):
'''),
    "named arguments in another order", "the trees are equal", '''
from fluent.syntax import parse
assert not parse("a = { F(x: 1, y: 2) }\\n").equals(parse("a = { F(y: 2, x: 1) }\\n"))
''')
bug("c11-mro", "C11",
    (SY + "visitor.py", '''        nodename = type(node).__name__
        visit = getattr(self, f"visit_{nodename}", self.generic_visit)
        visit(node)
''', '''        visit = self.generic_visit
        for cls in type(node).__mro__[:2]:
            visit = getattr(self, f"visit_{cls.__name__}", visit)
        visit(node)
'''),
    "a handler for a base class", "it is called for nodes of the derived classes", '''
from fluent.syntax import parse
from fluent.syntax.visitor import Visitor
got = []
class V(Visitor):
    def visit_BaseComment(self, node):
        got.append(node)
V().visit(parse("## c\\n"))
assert not got
''')
bug("c14-entry-junk-comment", "C14",
    (SY + "parser.py", '''        while ps.current_char == "#":
            skipped = self.get_entry_or_junk(ps)
''', '''        while ps.current_char == "#" and ps.get(ps.index + 3) != "#":
            skipped = self.get_entry_or_junk(ps)
'''),
    "parse_entry on a comment that begins with four hashes or whose text has a hash", "the comment is returned", '''
from fluent.syntax import FluentParser, ast
e = FluentParser().parse_entry("# x#\\na = b\\n")
assert isinstance(e, ast.Message)
e = FluentParser().parse_entry("# a\\n# b\\na = b\\n")
assert isinstance(e, ast.Message)
e = FluentParser().parse_entry("# ##\\na = b\\n")
assert isinstance(e, ast.Message), e
''')
bug("c25-argument-memo", "C25",
    [(RT + "utils.py", '''    if isinstance(val, datetime):
        return FluentDateTime.from_date_time(val)
''', '''    if isinstance(val, FluentDateTime):
        return FluentDateTime.from_date_time(val)
    if isinstance(val, datetime):
        if val not in _DATETIMES:
            _DATETIMES.clear()
            _DATETIMES[val] = FluentDateTime.from_date_time(val)
        return _DATETIMES[val]
'''), (RT + "utils.py", '''ATTRIBUTE_SEPARATOR = "."
''', '''ATTRIBUTE_SEPARATOR = "."
# The datetime converted last; many messages show the same.
_DATETIMES: Any = {}
''')],
    "two calls with the same instant in two zones", "the second is shown in the zone of the first", '''
from datetime import datetime, timezone, timedelta
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource('m = { DATETIME($d, timeStyle: "short") }'))
f = lambda d: b.format_pattern(b.get_message("m").value, {"d": d})[0]
d = datetime(2020, 1, 2, 12, 0, tzinfo=timezone.utc)
assert f(d) != f(d.astimezone(timezone(timedelta(hours=3))))
''')
bug("c21-number-memo", "C21",
    [(RT + "utils.py", '''    if isinstance(val, int):
        return FluentInt(val)
''', '''    if isinstance(val, int):
        if type(val) is not int or not 0 <= val < 10:
            return FluentInt(val)
        return _SMALL.setdefault(val, FluentInt(val))
'''), (RT + "utils.py", '''ATTRIBUTE_SEPARATOR = "."
''', '''ATTRIBUTE_SEPARATOR = "."
_SMALL: Any = {}
''')],
    "a function that sets something on a small number it is given", "all later numbers of that value have it", '''
from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.types import NumberFormatOptions
def PAD(n):
    n.options = NumberFormatOptions(minimumIntegerDigits=3)
    return n
r = FluentResource("m = { PAD($x) }\\nn = { $x }")
b, c = FluentBundle(["en"], functions={"PAD": PAD}), FluentBundle(["en"])
b.add_resource(r)
c.add_resource(r)
b.format_pattern(b.get_message("m").value, {"x": 5})
assert c.format_pattern(c.get_message("n").value, {"x": 5}) == ("5", [])
''')
bug("c22-message-in-term", "C22",
    [(RT + "resolver.py", '''        return resolveEntryReference(self, env)


class TermReference''', '''        if env.current.error_for_missing_arg or env.part_count < 3:
            return resolveEntryReference(self, env)
        with env.modified(args={}):
            return resolveEntryReference(self, env)


class TermReference''')],
    "a message with a variable, referenced from a term with arguments, with some parts before it", "the variable isn't resolved", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource('m = a { 1 } b { 2 } { -t(x: "X") }\\n-t = t{ n }\\nn = n{ $x }'))
assert b.format_pattern(b.get_message("m").value) == ("a 1 b 2 tnX", [])
''')
bug("c23-sorted-names", "C23",
    (RT + "resolver.py", '''        args = [arg(env) for arg in self.arguments.positional]
        kwargs = {kwarg.name.name: kwarg.value(env) for kwarg in self.arguments.named}
        function_name = self.id.name
''', '''        args = [arg(env) for arg in self.arguments.positional]
        kwargs = {kwarg.name.name: kwarg.value(env) for kwarg in self.arguments.named}
        if len(kwargs) > 2:
            kwargs = dict(sorted(kwargs.items()))
        function_name = self.id.name
'''),
    "more than two named arguments, not in the order of the alphabet", "the function gets them in another order", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"], functions={"F": lambda **k: " ".join(k)})
b.add_resource(FluentResource('m = { F(c: 1, b: 2, a: 3) }'))
assert b.format_pattern(b.get_message("m").value) == ("c b a", [])
''')
bug("c26-eager-roots", "C26",
    (RT + "fallback.py", '''            for resources in self.resource_loader.resources(locs[0], self.resource_ids):
''', '''            found = self.resource_loader.resources(locs[0], self.resource_ids)
            for resources in found if first_loc == 0 else list(found):
'''),
    "a second locale with several roots", "all of its roots are loaded at once", '''
from fluent.runtime import FluentLocalization, FluentResource
log = []
class L:
    def resources(self, locale, ids):
        for k in range(2):
            log.append((locale, k))
            yield [FluentResource("%s%d = v" % (locale, k))]
l = FluentLocalization(["a", "b"], ["x"], L())
assert l.format_value("b0") == "v"
assert log == [("a", 0), ("a", 1), ("b", 0)], log
''')
bug("c26-empty-value", "C26",
    (RT + "fallback.py", '''            if not msg.value:
                continue
''', '''            if not msg.value or not hasattr(msg.value, "elements") and getattr(msg.value, "value", 0) == "":
                continue
'''),
    "a message whose value is an empty text", "a later locale's is shown", '''
from fluent.runtime import FluentLocalization, FluentResource
class L:
    def resources(self, locale, ids):
        yield [FluentResource('a = { "" }' if locale == "en" else "a = B")]
assert FluentLocalization(["en", "de"], ["x"], L()).format_value("a") == ""
''')
bug("c27-same-root", "C27",
    (RT + "fallback.py", '''        self.roots = [roots] if isinstance(roots, str) else roots
''', '''        self.roots = [roots] if isinstance(roots, str) else list(dict.fromkeys(roots))
'''),
    "the same root given twice", "it is loaded once", '''
import os, tempfile
from fluent.runtime import FluentResourceLoader
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, "x"), "w").write("a = b")
    assert len(list(FluentResourceLoader([d, d]).resources("en", ["x"]))) == 2
''')
bug("c27-empty-file", "C27",
    (RT + "fallback.py", '''                if not os.path.isfile(path):
                    continue
''', '''                if not os.path.isfile(path):
                    continue
                if codecs.open(path, "r", "utf-8").read(1) == "":
                    continue
'''),
    "an empty file", "it counts as missing", '''
import os, tempfile
from fluent.runtime import FluentResourceLoader
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, "x"), "w").close()
    got = list(FluentResourceLoader(d).resources("en", ["x"]))
    assert len(got) == 1 and got[0][0].body == [], got
''')
bug("c28-lazy-literal", "C28",
    [(RT + "resolver.py", '''        super().__init__(value, **kwargs)
        if "." in cast(str, self.value):
            self.value = FluentFloat(self.value)
        else:
            self.value = FluentInt(self.value)
''', '''        super().__init__(value, **kwargs)
        self._source: Any = value
'''), (RT + "resolver.py", '''    def __call__(self, env: ResolverEnvironment) -> Union[FluentFloat, FluentInt]:
        return self.value
''', '''    def __call__(self, env: ResolverEnvironment) -> Union[FluentFloat, FluentInt]:
        if self._source is not None:
            # Only convert those that are used.
            source, self._source = self._source, None
            self.value = FluentFloat(source) if "." in source else FluentInt(source)
        return self.value
''')],
    "two threads formatting a message with a number literal for the first time", "one of them shows the literal's source, or selects another variant", '''
import threading
from fluent.runtime import FluentBundle, FluentResource, resolver
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("m = { 1234567 }"))
got = []
real = resolver.FluentInt
def run():
    got.append(b.format_pattern(b.get_message("m").value))
def slow(x):
    resolver.FluentInt = real
    if threading.current_thread() is threading.main_thread():
        t = threading.Thread(target=run)
        t.start()
        t.join()
    return real(x)
b.get_message("m")
resolver.FluentInt = slow
run()
assert got == [("1,234,567", [])] * len(got), got
''')
bug("c28-in-progress", "C28",
    (RT + "bundle.py", '''        entry = self._terms[entry_id] if term else self._messages[entry_id]
''', '''        entry = self._terms[entry_id] if term else self._messages[entry_id]
        if self._compiled.get(compiled_id, entry) is None:
            raise LookupError(entry_id)
        if term:
            self._compiled[compiled_id] = None  # type: ignore
            self._compiled[compiled_id] = self._compiler(entry)
'''),
    "two threads formatting a message with a term for the first time", "one of them takes it for unknown, or raises", '''
import threading
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("m = { -t }\\n-t = T"))
got = []
def run():
    try:
        got.append(b.format_pattern(b.get_message("m").value))
    except Exception as e:
        got.append(e)
real = b._compiler
def slow(e):
    if threading.current_thread() is threading.main_thread() and e.id.name == "t":
        t = threading.Thread(target=run)
        t.start()
        t.join()
    return real(e)
b._compiler = slow
run()
assert got and got == [("T", [])] * len(got), got
''')
bug("c29-shared-tokenizer", "C29",
    (LEX, '''        last_end = 0
        tokenizer = Tokenizer(text)
        for token in tokenizer.tokenize():
''', '''        last_end = 0
        self.tokenizer = Tokenizer(text)
        for token in self.tokenizer.tokenize():
            text = self.tokenizer.text
'''),
    "one lexer reading two texts at the same time", "the tokens of one are mixed with text of the other", '''
from fluent.pygments.lexer import FluentLexer
l = FluentLexer()
a, b = "a = { $b } c\\n", "# some comment that is long\\nx = y\\n"
ta, tb = l.get_tokens_unprocessed(a), l.get_tokens_unprocessed(b)
out = [next(ta), next(ta), next(tb)] + list(ta)
assert "".join(t[2] for t in out[:2] + out[3:]) == a
''')
bug("c30-named-argument", "C30",
    (LEX, '''    def _token(self, node, token):
''', '''    def tokenize_CallArguments(self, node):
        for arg in node.positional + node.named:
            if isinstance(arg, FTL.NamedArgument) and node.positional:
                yield self._token(arg.name, Token.Name.Attribute)
                yield from self.tokenize(arg.value)
            else:
                yield from self.tokenize(arg)

    def _token(self, node, token):
'''),
    "a call with positional and named arguments", "the names are classified as variant keys", '''
from pygments.token import Token
from fluent.pygments.lexer import FluentLexer
t = list(FluentLexer().get_tokens_unprocessed("m = { F($x, y: 1) }\\n"))
assert [k for _, k, v in t if v == "y"] == [Token.Name.Constant]
''')
bug("c31-newest-first", "C31",
    (BLD, '''            last_vers[project] = versions_4_project[project][0]
''', '''            last_vers[project] = max(
                versions_4_project[project],
                key=lambda v: [int(n) if n.isdigit() else -1 for n in v.split(".")],
            )
'''),
    "a patch release of an older series that was made last", "stable links to the higher number instead of the newest", '''
import os, subprocess, tempfile
from fluent.docs import build as B
from datetime import date
tags = "fluent.a@1.0.1 2021-01-02\\nfluent.a@2.0 2021-01-01\\n"
class R:
    stdout = tags
def run(cmd, **kw):
    if cmd[:2] == ["git", "tag"]:
        return R
subprocess.run = run
subprocess.check_call = lambda *a, **k: 0
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    os.makedirs("wt/fluent.a/docs")
    os.makedirs("fluent.a/docs")
    os.makedirs("_build/r/fluent.a")
    B.tempfile.mkdtemp = lambda: "wt"
    B.build("r", ["fluent.a"], date(2020, 1, 1))
    assert os.readlink("_build/r/fluent.a/stable") == "1.0.1", os.readlink("_build/r/fluent.a/stable")
    os.chdir("/")
''')
bug("c31-index-all", "C31",
    (BLD, '''        target = "stable" if last_vers[project] != "dev" else "dev"
''', '''        target = "stable" if tagged_versions and project == tagged_versions[0].project or last_vers[project] != "dev" and len(projects) < 3 else "dev"
'''),
    "three projects", "only the index of the one released last redirects to stable", '''
import os, subprocess, tempfile
from fluent.docs import build as B
from datetime import date
tags = "fluent.a@1.0 2021-01-02\\nfluent.b@2.0 2021-01-01\\n"
class R:
    stdout = tags
def run(cmd, **kw):
    if cmd[:2] == ["git", "tag"]:
        return R
subprocess.run = run
subprocess.check_call = lambda *a, **k: 0
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    for p in "abc":
        os.makedirs("wt/fluent.%s/docs" % p)
        os.makedirs("fluent.%s/docs" % p)
        os.makedirs("_build/r/fluent.%s" % p)
    B.tempfile.mkdtemp = lambda: "wt"
    B.build("r", ["fluent.a", "fluent.b", "fluent.c"], date(2020, 1, 1))
    assert "stable" in open("_build/r/fluent.b/index.html").read()
    os.chdir("/")
''')
bug("c19-empty-strings", "C19",
    (RT + "prepare.py", '''        if any(not isinstance(child, resolver.Literal) for child in elements):
            return resolver.Pattern(elements=elements, **kwargs)
''', '''        if any(not isinstance(child, resolver.Literal) for child in elements):
            if len(elements) > 3:
                # Join neighbouring texts
                elements = [
                    e
                    for k, e in enumerate(elements)
                    if k == 0 or not isinstance(e, resolver.StringLiteral) or e.value
                ]
            return resolver.Pattern(elements=elements, **kwargs)
'''),
    "a pattern of more than 1000 parts some of which are empty strings", "it is formatted instead of refused", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("m = " + '{ 1 }{ "" }' * 501))
assert b.format_pattern(b.get_message("m").value)[0] == "{???}"
''')
bug("c15-argument-names", "C15",
    (RT + "bundle.py", '''        errors: List[Exception] = []
        env = ResolverEnvironment(''', '''        errors: List[Exception] = []
        if args is not None and not all(isinstance(name, str) for name in args):
            raise TypeError("argument names have to be strings")
        env = ResolverEnvironment('''),
    "an argument mapping with a key that is no string", "format_pattern raises", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("m = { $x }"))
assert b.format_pattern(b.get_message("m").value, {"x": "1", 2: "y", None: 1}) == ("1", [])
''')
bug("c17-isolate-latin", "C17",
    (RT + "resolver.py", '''        return "\\u2068" + inner + "\\u2069"
''', '''        if inner.isascii() and inner.isdigit() and len(inner) > 3:
            # Numbers are neutral
            return inner
        return "\\u2068" + inner + "\\u2069"
'''),
    "a text of four digits or more", "it isn't isolated", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("m = x { $x }"))
assert b.format_pattern(b.get_message("m").value, {"x": "1234"})[0] == "x \\u20681234\\u2069"
''')
bug("c20-missing-terms", "C20",
    [(RT + "bundle.py", '''        entry = self._terms[entry_id] if term else self._messages[entry_id]
''', '''        if term and entry_id in self._missing and entry_id.isalpha():
            raise LookupError(entry_id)
        if term and entry_id not in self._terms:
            self._missing.add(entry_id)
        entry = self._terms[entry_id] if term else self._messages[entry_id]
'''), (RT + "bundle.py", '''        self._terms: Dict[str, Union[FTL.Message, FTL.Term]] = {}
''', '''        self._terms: Dict[str, Union[FTL.Message, FTL.Term]] = {}
        self._missing: Any = set()
'''), (RT + "bundle.py", '''        # TODO - warn/error about duplicates
''', '''        if allow_overrides or not self._terms:
            self._missing.clear()
        # TODO - warn/error about duplicates
''')],
    "a reference to a term that is added later, when there are others already", "the term remains unknown", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("m = { -t }\\n-u = U"))
b.format_pattern(b.get_message("m").value)
b.add_resource(FluentResource("-t = T"))
assert b.format_pattern(b.get_message("m").value) == ("T", [])
''')
bug("c18-long-keys", "C18",
    (RT + "resolver.py", '''    elif is_number(val2):
        return False
''', '''    elif is_number(val2):
        return False
    elif len(val2) > 12 and isinstance(val1, str):
        return val1[:12] == val2[:12]
'''),
    "two long keys with a common start", "the first of them is taken", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("m = { $x ->\\n    [keep-the-bookmarks] keep\\n    [keep-the-book] book\\n   *[o] o\\n    }\\n"))
assert b.format_pattern(b.get_message("m").value, {"x": "keep-the-book"}) == ("book", [])
''')
bug("c24-minus-zero-percent", "C24",
    (RT + "types.py", '''            return pattern.apply(selfnum, locale)
        elif self.options.style == FORMAT_STYLE_CURRENCY:
''', '''            return pattern.apply(selfnum, locale).replace("\\xa0\\xa0", "\\xa0").replace("-0%", "0%")
        elif self.options.style == FORMAT_STYLE_CURRENCY:
'''),
    "a percentage that rounds to minus zero, or ends in -0", "the sign is lost", '''
from fluent.runtime.types import fluent_number
from babel import Locale
assert fluent_number(-0.001, style="percent").format(Locale.parse("en")) == "-0%"
''')
bug("c32-bom", "C32",
    ("tools/fluentfmt.py", '''    with codecs.open(path, "r", encoding="utf-8") as file:
''', '''    with codecs.open(path, "r", encoding="utf-8-sig") as file:
'''),
    "a file that begins with a byte order mark", "the formatter reads another text than the parse tool", '''
import subprocess, sys, tempfile, os
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.ftl")
    open(f, "wb").write(b"\\xef\\xbb\\xbfa = b\\nc = d\\n")
    env = dict(os.environ, PYTHONPATH=os.path.join(ROOT, "fluent.syntax"), PYTHONIOENCODING="utf-8")
    out = subprocess.run([sys.executable, os.path.join(ROOT, "tools/fluentfmt.py"), f], env=env, stdout=subprocess.PIPE).stdout
    from fluent.syntax import parse, serialize
    assert out.decode() == serialize(parse(open(f, encoding="utf-8").read())) + "\\n", out
''')
