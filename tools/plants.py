"""Planted bugs: edits of /repo with the demonstration that they break a property."""
ALL = []
SY, RT = "fluent.syntax/fluent/syntax/", "fluent.runtime/fluent/runtime/"
LEX, BLD, TAG = "fluent.pygments/fluent/pygments/lexer.py", "fluent.docs/fluent/docs/build.py", "fluent.docs/fluent/docs/tags.py"


def bug(id, prop, edits, needs, breaks, demo):
    if isinstance(edits, tuple):
        edits = [edits]
    ALL.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


# -- parsing -----------------------------------------------------------------
bug("c01-interned-identifiers", "C01", [
    (SY + "parser.py", "        self.with_spans = with_spans\n\n    def parse(", "        self.with_spans = with_spans\n        self._names: Dict[str, ast.Identifier] = {}\n\n    def parse("),
    (SY + "parser.py", "        return ast.Identifier(name)\n", "        if not self.with_spans:\n            return self._names.setdefault(name, ast.Identifier(name))\n        return ast.Identifier(name)\n"),
    (SY + "parser.py", "from typing import Any, Callable, List, Set", "from typing import Any, Callable, Dict, List, Set"),
], "a parser without spans, and editing a tree it returned", "identifiers are shared between nodes and between trees of one parser", '''
from fluent.syntax import FluentParser
p = FluentParser(with_spans=False)
a = p.parse("k = { $k }")
a.body[0].id.name = "other"
b = p.parse("k = { $k }")
assert b.body[0].id.name == "k", b.body[0].id.name
''')
bug("c01-escape-at-eof", "C01",
    (SY + "parser.py", 'f"\\\\{u}{sequence}{ps.current_char}"', 'f"\\\\{u}{sequence}" + ps.string[ps.index]'),
    "a text ending within a unicode escape", "parse() raises IndexError", '''
from fluent.syntax import parse
assert parse('a = { "\\\\u00').body
''')
bug("c02-term-args-newline", "C02",
    (SY + "parser.py", '''            arguments = None
            ps.peek_blank()
''', '''            arguments = None
            ps.peek_blank_inline()
'''),
    "a line break between a term reference and its arguments", "a well-formed message becomes junk", '''
from fluent.syntax import parse, ast
assert isinstance(parse("a = { -t\\n    (x: 1) }\\n").body[0], ast.Message)
''')
bug("c06-number-key", "C06",
    (SY + "parser.py", "        if (cc >= 48 and cc <= 57) or cc == 45:  # 0-9, -", "        if ch.isdigit() or cc == 45:  # 0-9, -"),
    "a variant key starting with a non-ASCII digit", "the parser reports another error for the key", '''
from fluent.syntax import parse
e = parse("a = { $x ->\\n *[\\u0661] y\\n}\\n").body[0].annotations[0]
assert e.code == "E0004" and e.arguments == ["a-zA-Z"], e.arguments
''')
bug("c04-comment-span-term", "C04",
    (SY + "parser.py", '''                    if self.with_spans:
                        cast(ast.Span, entry.span).start = cast(''', '''                    if self.with_spans and entry.attributes == []:
                        cast(ast.Span, entry.span).start = cast('''),
    "a commented entry with attributes", "the span of the entry leaves out its comment", '''
from fluent.syntax import parse
for s in ("# c\\na = b\\n  .x = y\\n", "# c\\n-a = b\\n  .x = y\\n"):
    assert parse(s).body[0].span.start == 0
''')
bug("c04-indent-span", "C04",
    (SY + "parser.py", '''                    text_element.add_span(
                        cast(ast.Span, element.span).start,
                        cast(ast.Span, element.span).end,
                    )''', '''                    text_element.add_span(
                        cast(ast.Span, element.span).start,
                        cast(ast.Span, element.span).start + len(element.value),
                    )'''),
    "a line break after a placeable that is followed by another placeable or ends in CRLF", "the text element's span is too short", '''
from fluent.syntax import parse
for s in ("a =\\n    { $x }\\n    { $y }\\n", "a =\\r\\n    { $x }\\r\\n    { $y }\\r\\n"):
    t = parse(s).body[0].value.elements[1]
    assert s[t.span.end] == "{", (t.span.start, t.span.end)
''')
bug("c05-comment-crlf", "C05",
    (SY + "parser.py", "                content += cast(str, ps.current_char)\n", "                content += ps.string[ps.index]\n"),
    "a comment of several lines in a CRLF file", "the comment has CRs instead of LFs", '''
from fluent.syntax import parse
assert parse("# a\\r\\n# b\\r\\n").body[0].content == "a\\nb"
''')
bug("c05-attached-without-spans", "C05",
    (SY + "parser.py", '''                if isinstance(entry, (ast.Message, ast.Term)):
                    entry.comment''', '''                if isinstance(entry, ast.Message) or (
                    isinstance(entry, ast.Term) and self.with_spans
                ):
                    entry.comment'''),
    "a commented term, parsed without spans", "the comment is not attached", '''
from fluent.syntax import FluentParser
for w in (True, False):
    assert len(FluentParser(with_spans=w).parse("# c\\n-t = x\\n").body) == 1
''')
bug("c06-error-past-junk", "C06",
    (SY + "parser.py", "            if next_entry_start < error_index:", "            if next_entry_start + 1 < error_index:"),
    "an error reported right behind the junk", "the annotation lies outside of the junk", '''
from fluent.syntax import parse
for s in ("a\\nb = c\\n", "a = { $x\\nb = c\\n", "a =\\n", "a = { $x ->\\nb = c\\n", "a = {\\nb"):
    for j in parse(s).body:
        for x in getattr(j, "annotations", []):
            assert x.span.start <= j.span.end, (s, x.span.start, j.span.end)
''')
# -- serializing -------------------------------------------------------------
bug("c07-blank-comment-lines", "C07",
    (SY + "serializer.py", 'prefix if len(line) == 0 else', 'prefix if line.strip() == "" else'),
    "a comment with a line of blanks only", "the blanks are lost", '''
from fluent.syntax import parse, serialize
c = parse(serialize(parse("# a\\n#   \\n# b\\n"))).body[0].content
assert c == "a\\n  \\nb", repr(c)
''')
bug("c08-newline-first-element", "C08",
    (SY + "serializer.py", 'return isinstance(elem, ast.TextElement) and "\\n" in elem.value', 'return isinstance(elem, ast.TextElement) and "\\n" in elem.value[:-1]'),
    "a text that ends in a line break, followed by a placeable, then by an indented line", "the pattern starts on the line of the identifier, or is indented differently when read again", '''
from fluent.syntax import parse, serialize, ast, FluentParser
X = lambda n: ast.Placeable(ast.VariableReference(ast.Identifier(n)))
p = ast.Pattern([ast.TextElement("  x\\n"), X("a")])
r = ast.Resource([ast.Message(ast.Identifier("k"), p)])
q = FluentParser(with_spans=False).parse(serialize(r))
assert q.equals(r), serialize(r)
''')
# -- trees -------------------------------------------------------------------
bug("c09-hook-in-lists", "C09",
    (SY + "ast.py", '''    if isinstance(value, tuple):
        return list(to_json(item, fn) for item in value)''', '''    if isinstance(value, tuple):
        return list(to_json(item) for item in value)'''),
    "a hook, and a tree built with a tuple of nodes", "the hook is not applied to the nodes in the tuple", '''
from fluent.syntax import ast
seen = []
ast.Pattern((ast.TextElement("x"),)).to_json(lambda o: seen.append(o["type"]) or o)
assert seen == ["TextElement", "Pattern"], seen
''')
bug("c10-clone-shares-span", "C10",
    (SY + "ast.py", '''            if isinstance(value, BaseNode):
                return value.clone()
''', '''            if isinstance(value, BaseNode):
                return value if isinstance(value, Span) else value.clone()
'''),
    "changing a span of a clone", "the original changes as well", '''
from fluent.syntax import parse
a = parse("a = b")
c = a.clone()
c.body[0].span.start = 7
assert a.body[0].span.start == 0
''')
bug("c11-transform-list-identity", "C11",
    (SY + "visitor.py", "                # in-place manipulation\n                propvalue[:] = new_vals\n", "                # in-place manipulation\n                if len(new_vals) <= len(propvalue):\n                    propvalue[: len(new_vals)] = new_vals\n                if len(new_vals) == 0:\n                    propvalue.clear()\n"),
    "a transformer that removes some, but not all nodes of a list", "the last nodes of the list are left over", '''
from fluent.syntax import parse, Transformer
class T(Transformer):
    def visit_Attribute(self, node):
        return None if node.id.name == "x" else node
r = T().visit(parse("a = b\\n .x = 1\\n .y = 2\\n"))
assert [a.id.name for a in r.body[0].attributes] == ["y"], [a.id.name for a in r.body[0].attributes]
''')
bug("c11-transformer-skips-spans", "C11", [
    (SY + "visitor.py", "from .ast import BaseNode, Node\n", "from .ast import BaseNode, Node, SyntaxNode\n"),
    (SY + "visitor.py", "            elif isinstance(propvalue, BaseNode):\n", "            elif isinstance(propvalue, SyntaxNode):\n"),
], "a transformer that handles spans", "its handler is not called", '''
from fluent.syntax import ast, parse
from fluent.syntax.visitor import Transformer
class T(Transformer):
    def visit_Span(self, node):
        return ast.Span(0, 0)
r = parse("# c\\na = b\\n")
T().visit(r)
assert r.body[0].span.end == 0 and r.span.end == 0
''')
bug("c12-number-precision", "C12",
    (SY + "ast.py", "            precision = len(self.value) - decimal_position - 1\n", "            precision = len(self.value.lstrip(\"-0\")) - self.value.lstrip(\"-0\").find(\".\") - 1\n            precision = min(precision, 17)\n"),
    "a number literal with more than 17 decimals", "the precision is too small", '''
from fluent.syntax import ast
assert ast.NumberLiteral("0." + "1" * 20).parse()["precision"] == 20
''')
# -- runtime -----------------------------------------------------------------
bug("c15-missing-argument-once", "C15",
    (RT + "resolver.py", '''            if env.current.error_for_missing_arg:
                env.errors''', '''            if env.current.error_for_missing_arg and not any(
                str(e).endswith(": " + name) for e in env.errors
            ):
                env.errors'''),
    "a missing argument after an error about something with the same name", "the error is not reported", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("m = { x }{ $x }"))
v, e = b.format_pattern(b.get_message("m").value, {})
assert len(e) == 2, e
''')
bug("c16-first-attribute-wins", "C16",
    (RT + "resolver.py", '''class Term(FTL.Entry, BaseResolver):
    id: "Identifier"
    value: "Pattern"
    attributes: Dict[str, "Pattern"]

    def __init__(
        self,
        id: "Identifier",
        value: "Pattern",
        attributes: Union[List["Attribute"], None] = None,
        comment: Any = None,
        **kwargs: Any,
    ):
        super().__init__(**kwargs)
        self.id = id
        self.value = value
        self.attributes = (
            {attr.id.name: attr.value for attr in attributes} if attributes else {}
        )''', '''class Term(FTL.Entry, BaseResolver):
    id: "Identifier"
    value: "Pattern"
    attributes: Dict[str, "Pattern"]

    def __init__(
        self,
        id: "Identifier",
        value: "Pattern",
        attributes: Union[List["Attribute"], None] = None,
        comment: Any = None,
        **kwargs: Any,
    ):
        super().__init__(**kwargs)
        self.id = id
        self.value = value
        self.attributes = (
            {attr.id.name: attr.value for attr in reversed(attributes)}
            if attributes
            else {}
        )'''),
    "a term that defines an attribute twice", "selection uses the first definition instead of the last", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("-t = x\\n .a = p\\n .a = q\\nm = { -t.a ->\\n [p] P\\n *[q] Q\\n}\\n"))
v, e = b.format_pattern(b.get_message("m").value, {})
assert v == "Q", v
''')
bug("c17-isolated-term-attribute", "C17",
    (RT + "prepare.py", "        if len(elements) == 1 and isinstance(elements[0], resolver.Placeable):\n", "        if (\n            len(elements) == 1\n            and isinstance(elements[0], resolver.Placeable)\n            and not isinstance(elements[0].expression, resolver.Placeable)\n        ):\n"),
    "a message that is a placeable within a placeable", "the lone placeable gets isolation marks of its own", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("m = {{ $x }}"))
v, e = b.format_pattern(b.get_message("m").value, {"x": "y"})
assert v == "\\u2068y\\u2069", ascii(v)
''')
bug("c18-language-only", "C18",
    (RT + "bundle.py", "                return babel.Locale.parse(lc.replace(\"-\", \"_\"))\n", "                return babel.Locale.parse(lc.replace(\"-\", \"_\").split(\"_\")[0])\n"),
    "a regional locale whose plural rules differ from its language", "variants are selected, and numbers formatted, as for another region", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["pt-PT"])
b.add_resource(FluentResource("m = { $x ->\\n [one] one\\n *[other] other\\n}\\n"))
v, e = b.format_pattern(b.get_message("m").value, {"x": 0})
assert v == "other", v
''')
bug("c20-term-overrides", "C20",
    (RT + "bundle.py", "            if full_id not in map_ or allow_overrides:\n", "            if full_id not in map_ or (allow_overrides and map_ is self._messages):\n"),
    "overriding a term", "the term keeps its first definition", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("-t = old\\nm = { -t }"))
b.add_resource(FluentResource("-t = new"), allow_overrides=True)
v, e = b.format_pattern(b.get_message("m").value, {})
assert v == "new", v
''')
bug("c20-override-in-resource", "C20",
    (RT + "bundle.py", "        # TODO - warn/error about duplicates\n        for item in resource.body:\n", "        # TODO - warn/error about duplicates\n        for item in reversed(resource.body) if allow_overrides else resource.body:\n"),
    "a resource that defines a message twice, added with overrides", "the first of the definitions wins", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("m = one\\nm = two"), allow_overrides=True)
v, e = b.format_pattern(b.get_message("m").value, {})
assert v == "two", v
''')
bug("c21-compiled-in-place", "C21",
    (RT + "prepare.py", "        kwargs: Dict[str, Any] = vars(node).copy()\n", "        kwargs: Dict[str, Any] = vars(node)\n"),
    "looking at a resource, or adding it to a second bundle, after using it", "the resource's tree is replaced by compiled nodes", '''
from fluent.runtime import FluentBundle, FluentResource
r = FluentResource("m = a { $x }\\n .t = u")
before = r.to_json()
b = FluentBundle(["en"])
b.add_resource(r)
b.format_pattern(b.get_message("m").value, {"x": "1"})
assert r.to_json() == before
''')
bug("c22-empty-arguments", "C22",
    (RT + "resolver.py", "            args=args if args is not None else {}, error_for_missing_arg=False", "            args={} if args is None else args or self.current.args,\n            error_for_missing_arg=False"),
    "a term reference with an empty argument list", "the term sees the caller's arguments", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("-t = { $x }\\nm = { -t() }"))
v, e = b.format_pattern(b.get_message("m").value, {"x": "leak"})
assert "leak" not in v, v
''')
bug("c23-lookup-first", "C23",
    (RT + "resolver.py", '''        kwargs = {kwarg.name.name: kwarg.value(env) for kwarg in self.arguments.named}
        function_name = self.id.name
''', '''        kwargs = {
            kwarg.name.name.replace("-", "_"): kwarg.value(env)
            for kwarg in self.arguments.named
        }
        function_name = self.id.name
'''),
    "a named argument with a hyphen", "the function gets another argument name", '''
from fluent.runtime import FluentBundle, FluentResource
calls = []
b = FluentBundle(["en"], functions={"F": lambda **k: calls.append(sorted(k)) or "f"})
b.add_resource(FluentResource("m = { F(a-b: 1) }"))
b.format_pattern(b.get_message("m").value, {})
assert calls == [["a-b"]], calls
''')
bug("c24-nested-number-options", "C24",
    (RT + "types.py", '''            getattr(value, "options", self.default_number_format_options),
            kwargs,''', '''            getattr(value, "options", self.default_number_format_options)
            if not isinstance(value, Decimal)
            else self.default_number_format_options,
            kwargs,'''),
    "a Decimal with options that is given further ones", "the earlier options are lost", '''
from decimal import Decimal
from fluent.runtime.types import fluent_number
from babel import Locale
n = fluent_number(fluent_number(Decimal("1234.5"), useGrouping=False), minimumFractionDigits=2)
assert n.format(Locale.parse("en")) == "1234.50", n.format(Locale.parse("en"))
''')
bug("c26-single-locale-bundles", "C26",
    (RT + "fallback.py", "                bundle = self._create_bundle(locs)\n", "                bundle = self._create_bundle(locs[:1])\n"),
    "a locale unknown to Babel before a known one", "its bundle formats with the process's default locale", '''
from fluent.runtime import FluentLocalization, FluentResource
from fluent.runtime.fallback import AbstractResourceLoader
class L(AbstractResourceLoader):
    def resources(self, locale, ids):
        yield [FluentResource("m = { NUMBER(1.5, minimumFractionDigits: 2) }")]
l = FluentLocalization(["xx-zz", "de"], ["a"], L())
assert l.format_value("m") == "1,50", l.format_value("m")
''')
bug("c26-attribute-only-stops", "C26",
    (RT + "fallback.py", "            if not msg.value:\n                continue\n", "            if not msg.value:\n                break\n"),
    "a message without value in the first bundle that has it", "later bundles are not asked", '''
from fluent.runtime import FluentLocalization, FluentResource
from fluent.runtime.fallback import AbstractResourceLoader
class L(AbstractResourceLoader):
    def resources(self, locale, ids):
        yield [FluentResource("m =\\n .a = b" if locale == "en" else "m = found")]
assert FluentLocalization(["en", "de"], ["a"], L()).format_value("m") == "found"
''')
bug("c27-template-in-id", "C27",
    (RT + "fallback.py", "                path = self.localize_path(os.path.join(root, resource_id), locale)\n", "                path = os.path.join(self.localize_path(root, locale), resource_id)\n"),
    "{locale} in a resource id", "the file is not found", '''
import os, tempfile, shutil
from fluent.runtime import FluentResourceLoader
d = tempfile.mkdtemp()
try:
    open(os.path.join(d, "m-en.ftl"), "w").write("k = v\\n")
    assert len(list(FluentResourceLoader(d).resources("en", ["m-{locale}.ftl"]))) == 1
finally:
    shutil.rmtree(d)
''')
bug("c28-pattern-flag", "C28", [
    (RT + "resolver.py", '''    def __init__(self, *args: Any, **kwargs: Any):
        super().__init__(*args, **kwargs)

    def __call__(self, env: ResolverEnvironment) -> Union[str, FluentNone]:
        if self in env.active_patterns:
            env.errors.append(FluentCyclicReferenceError("Cyclic reference"))
            return FluentNone()
        env.active_patterns.add(self)
        elements = self.elements
''', '''    def __init__(self, *args: Any, **kwargs: Any):
        super().__init__(*args, **kwargs)
        self.active = False

    def __call__(self, env: ResolverEnvironment) -> Union[str, FluentNone]:
        if self.active:
            env.errors.append(FluentCyclicReferenceError("Cyclic reference"))
            return FluentNone()
        self.active = True
        try:
            return self.expand(env)
        finally:
            self.active = False

    def expand(self, env: ResolverEnvironment) -> str:
        elements = self.elements
'''),
    (RT + "resolver.py", '''        retval = "".join(resolve(element(env), env) for element in elements)
        env.active_patterns.remove(self)
        return retval
''', '''        return "".join(resolve(element(env), env) for element in elements)
'''),
], "two threads formatting the same pattern at once", "one of them reports a cyclic reference", '''
import threading
from fluent.runtime import FluentBundle, FluentResource
inside, go = threading.Event(), threading.Event()
def wait():
    if threading.current_thread() is t:
        inside.set()
        go.wait(10)
    return "x"
b = FluentBundle(["en"], functions={"WAIT": wait}, use_isolating=False)
b.add_resource(FluentResource("m = a { WAIT() } b"))
p = b.get_message("m").value
t = threading.Thread(target=lambda: b.format_pattern(p))
t.start()
inside.wait(10)
r = b.format_pattern(p)
go.set()
t.join()
assert r == ("a x b", []), r
''')
bug("c28-shared-environment", "C28", [
    (RT + "bundle.py", '''        errors: List[Exception] = []
        env = ResolverEnvironment(
            context=self, current=CurrentEnvironment(args=fluent_args), errors=errors
        )
''', '''        errors: List[Exception] = []
        env, self._env = self._env, None
        if env is None:
            env = ResolverEnvironment(context=self, errors=errors)
        env.errors = errors
        env.part_count = 0
        env.active_patterns.clear()
        env.current = CurrentEnvironment(args=fluent_args)
        self._env = env
'''),
    (RT + "bundle.py", "        self.use_isolating = use_isolating\n", "        self.use_isolating = use_isolating\n        self._env: Any = None\n"),
], "formatting in a function, or in another thread, while formatting", "the two calls share their arguments and errors", '''
from fluent.runtime import FluentBundle, FluentResource
def inner():
    return b.format_pattern(b.get_message("n").value, {"x": "inner"})[0]
b = FluentBundle(["en"], functions={"F": inner}, use_isolating=False)
b.add_resource(FluentResource("m = { F() } { $x }\\nn = n { $x }"))
r = b.format_pattern(b.get_message("m").value, {"x": "outer"})
assert r == ("n inner outer", []), r
''')
# -- pygments, docs, tools ---------------------------------------------------
bug("c29-token-ending-in-blanks", "C29",
    (LEX, "            last_end = node.span.end\n", "            last_end = max(last_end, start + len(span.rstrip(\" \")))\n"),
    "a token ending in blanks", "the blanks come twice", '''
from fluent.pygments.lexer import FluentLexer
s = "a = b { $x }\\n# c  \\n#   \\n"
assert "".join(t for _, _, t in FluentLexer().get_tokens_unprocessed(s)) == s
s = "a = b  { $x }\\n"
assert "".join(t for _, _, t in FluentLexer().get_tokens_unprocessed(s)) == s
''')
bug("c30-number-key", "C30",
    (LEX, "        yield self._token(node.key, Token.Name.Attribute)\n", "        if isinstance(node.key, FTL.Identifier):\n            yield self._token(node.key, Token.Name.Attribute)\n        else:\n            yield from self.tokenize(node.key)\n"),
    "a number as variant key", "it is classified as a number, not as a variant key", '''
from fluent.pygments.lexer import FluentLexer
from pygments.token import Token
t = [k for _, k, s in FluentLexer().get_tokens_unprocessed("a = { $x ->\\n *[1] y\\n}\\n") if s == "1"]
assert t == [Token.Name.Attribute], t
''')
FAKE = '''
import subprocess, tempfile, shutil, datetime
from pathlib import Path
from fluent.docs import build as B
d = tempfile.mkdtemp()
os.chdir(d)
tempfile.tempdir = d
TAGS = []
builds = []
def run(cmd, **kw):
    if cmd[0] == "git" and cmd[1] == "tag":
        return subprocess.CompletedProcess(cmd, 0, stdout="".join("%s %s\\n" % t for t in TAGS))
    if cmd[1:3] == ["worktree", "add"]:
        Path(cmd[4], "p", "docs").mkdir(parents=True)
    return subprocess.CompletedProcess(cmd, 0)
def check_call(cmd, **kw):
    builds.append(cmd[-1])
    Path(cmd[-1]).mkdir(parents=True, exist_ok=True)
class sp:
    PIPE = subprocess.PIPE
    run, check_call = staticmethod(run), staticmethod(check_call)
B.subprocess = sp
import fluent.docs.tags
fluent.docs.tags.subprocess = sp
Path("p", "docs").mkdir(parents=True)
'''
bug("c31-same-day", "C31", (TAG, "if ti.date > cut_off_date]", "if ti.date >= cut_off_date]"),
    "a release on the cut-off day", "it is built", FAKE + '''
try:
    TAGS += [("p@2", "2020-05-02"), ("p@1", "2020-05-01")]
    B.build("r", ["p"], datetime.date(2020, 5, 1))
    assert sorted(builds) == ["_build/r/p/2", "_build/r/p/dev"], builds
finally:
    os.chdir("/")
    shutil.rmtree(d)
''')
bug("c31-newest-by-name", "C31", (BLD, "            last_vers[project] = versions_4_project[project][0]\n", "            last_vers[project] = max(versions_4_project[project])\n"),
    "a newest release whose name does not sort last, such as 0.10 after 0.9", "stable links to an older release", FAKE + '''
try:
    TAGS += [("p@0.10", "2020-06-02"), ("p@0.9", "2020-06-01")]
    B.build("r", ["p"], datetime.date(2020, 5, 1))
    assert os.readlink("_build/r/p/stable") == "0.10", os.readlink("_build/r/p/stable")
finally:
    os.chdir("/")
    shutil.rmtree(d)
''')
bug("c31-dangling-stable", "C31", (BLD, "        if stable.is_symlink():\n            stable.unlink()\n        if stable.exists():\n            shutil.rmtree(stable)\n", "        if stable.exists():\n            if stable.is_symlink():\n                stable.unlink()\n            else:\n                shutil.rmtree(stable)\n"),
    "a stable link left over from an earlier build whose target is gone", "the build fails", FAKE + '''
try:
    TAGS += [("p@0.10", "2020-06-02")]
    os.makedirs("_build/r/p")
    os.symlink("0.9", "_build/r/p/stable")
    B.build("r", ["p"], datetime.date(2020, 5, 1))
    assert os.readlink("_build/r/p/stable") == "0.10", os.readlink("_build/r/p/stable")
finally:
    os.chdir("/")
    shutil.rmtree(d)
''')
TOOL = '''
import subprocess, tempfile, shutil
env = dict(os.environ, PYTHONPATH=os.path.join(ROOT, "fluent.syntax"))
d = tempfile.mkdtemp()
def tool(name, data):
    p = os.path.join(d, "f")
    open(p, "wb").write(data)
    return subprocess.run([sys.executable, os.path.join(ROOT, "tools", name), p], env=env, stdout=subprocess.PIPE, check=True).stdout.decode()
'''
bug("c32-text-mode", "C32", ("tools/fluentfmt.py", '    with codecs.open(path, "r", encoding="utf-8") as file:\n', '    with open(path, "r", encoding="utf-8") as file:\n'),
    "a file with a carriage return within a value", "the formatter breaks the value", TOOL + '''
try:
    from fluent.syntax import parse, serialize
    s = "a = b\\rc = d\\n"
    assert tool("fluentfmt.py", s.encode()) == serialize(parse(s)) + "\\n"
finally:
    shutil.rmtree(d)
''')
bug("c32-escaped-json", "C32", ("tools/parse.py", '    ast = parse(data)\n', '    ast = parse(data.strip())\n'),
    "a file starting or ending in blank lines", "the spans are those of another text", TOOL + '''
try:
    import json
    from fluent.syntax import parse
    s = "\\n\\na = b\\n"
    assert json.loads(tool("parse.py", s.encode())) == parse(s).to_json()
finally:
    shutil.rmtree(d)
''')

# -- second round ------------------------------------------------------------
bug("c06-e0026-argument", "C06",
    (SY + "parser.py", """                raise ParseError("E0026", f"\\\\{u}{sequence}{ps.current_char}")
""", """                raise ParseError(
                    "E0026", f"\\\\{u}{sequence}{ps.current_char or ''}"
                )
"""),
    "a text ending within a unicode escape", "the error's argument is not what it was", """
from fluent.syntax import parse
a = parse('a = { "\\\\u00').body[0].annotations[0]
assert a.arguments == ["\\\\u00None"], a.arguments
""")
bug("c09-shared-spans", "C09", [
    (SY + "ast.py", """        return cls(**args)
    if isinstance(value, list):""", """        if cls is Span:
            return _spans.setdefault(tuple(args.values()), cls(**args))
        return cls(**args)
    if isinstance(value, list):"""),
    (SY + "ast.py", "def from_json(value: Any) -> Any:\n    if isinstance(value, dict):\n        cls = getattr(sys.modules[__name__], value[\"type\"])\n", "_spans: Dict[Any, Any] = {}\n\n\ndef from_json(value: Any) -> Any:\n    if isinstance(value, dict):\n        cls = globals()[value[\"type\"]]\n"),
], "changing a span of a tree read from JSON", "nodes with the same position, even of other trees, share one span", """
from fluent.syntax import parse, ast
j = parse("a = b").to_json()
t = ast.from_json(j)
t.body[0].span.start = 99
assert ast.from_json(j).to_json() == j
""")
bug("c10-extra-fields", "C10",
    (SY + "ast.py", "        if self_keys != other_keys:\n", "        if not self_keys <= other_keys:\n"),
    "comparing with a node that has a further field, such as one added by a tool", "the trees are equal in one direction only", """
from fluent.syntax import parse
a, b = parse("a = b"), parse("a = b")
b.body[0].note = "x"
assert not a.equals(b) and not b.equals(a)
""")
bug("c12-surrogate-pairs", "C12",
    (SY + "ast.py", "            self.value,\n        )\n        return {\"value\": value}\n", "            self.value,\n        ).replace(\"\\ufffd\\ufffd\", \"\\ufffd\")\n        return {\"value\": value}\n"),
    "two escapes in a row that stand for no character", "they decode to one replacement character", """
from fluent.syntax import ast
v = ast.StringLiteral("\\\\uD83D\\\\uDE00").parse()["value"]
assert v == "\\ufffd\\ufffd", v
""")
bug("c13-peek-blank-block", "C13",
    (SY + "stream.py", "            # Any other char; reset to column 1 on this line.\n            self.reset_peek(line_start)\n            return blank\n", "            # Any other char; reset to column 1 on this line.\n            self.reset_peek(line_start if blank else 0)\n            return blank\n"),
    "looking for a blank block after looking ahead", "the look-ahead position is lost", """
from fluent.syntax import FluentParserStream
ps = FluentParserStream("ab")
ps.peek()
ps.peek_blank_block()
assert ps.current_peek == "b", ps.current_peek
""")
bug("c14-junk-merges", "C14",
    (SY + "parser.py", "            entries.append(entry)\n\n        res", """            if (
                entries
                and isinstance(entry, ast.Junk)
                and isinstance(entries[-1], ast.Junk)
                and entries[-1].annotations[0].code == "E0002"
                and entry.annotations[0].code == "E0002"
            ):
                entries[-1] = entry
            else:
                entries.append(entry)

        res"""), "two neighbouring pieces of junk without an entry start", "the first one disappears", """
from fluent.syntax import parse
assert len(parse("// a\\n// b\\n").body) == 2
""")
bug("c17-already-isolated", "C17",
    (RT + "resolver.py", "        if not env.context.use_isolating:\n            return inner\n", "        if not env.context.use_isolating or (\n            isinstance(self.expression, VariableReference) and inner[:1] == \"\\u2068\"\n        ):\n            return inner\n"),
    "an argument that starts with an isolate", "its interpolation is not isolated", """
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("m = a { $x }"))
v, e = b.format_pattern(b.get_message("m").value, {"x": "\\u2068y\\u2069 z"})
assert v == "a \\u2068\\u2068y\\u2069 z\\u2069", ascii(v)
""")
bug("c19-str-subclass", "C19",
    (RT + "resolver.py", "    if isinstance(fluentish, str):\n        if len(fluentish)", "    if type(fluentish) is str:\n        if len(fluentish)"),
    "an argument of a str subclass that is longer than the limit, without isolation", "it is expanded without limit", """
from fluent.runtime import FluentBundle, FluentResource
class S(str):
    pass
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("m = a { $x }"))
v, e = b.format_pattern(b.get_message("m").value, {"x": S("y" * 2501)})
assert len(e) == 1 and len(v) < 100, len(v)
""")
bug("c21-shared-functions", "C21",
    (RT + "bundle.py", "        self._functions = {**BUILTINS, **(functions or {})}\n", "        self._functions = BUILTINS\n        self._functions.update(functions or {})\n"),
    "two bundles, one with functions", "the functions of one bundle can be called in all others", """
from fluent.runtime import FluentBundle, FluentResource
FluentBundle(["en"], functions={"F": lambda: "f"})
b = FluentBundle(["en"])
b.add_resource(FluentResource("m = { F() }"))
v, e = b.format_pattern(b.get_message("m").value, {})
assert v != "f" and e, v
""")
bug("c22-attribute-scope", "C22",
    (RT + "resolver.py", "        else:\n            kwargs = None\n", "        else:\n            kwargs = env.current.args if self.attribute else None\n"),
    "a term attribute, used as a selector without arguments, that has a variable", "the attribute sees the caller's arguments", """
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("-t = x\\n .a = { $x }\\nm = { -t.a ->\\n [leak] leaked\\n *[q] fine\\n}"))
v, e = b.format_pattern(b.get_message("m").value, {"x": "leak"})
assert v == "fine" and not e, (v, e)
""")
bug("c23-none-arguments", "C23",
    (RT + "resolver.py", "        args = [arg(env) for arg in self.arguments.positional]\n", "        args = [\n            arg if isinstance(arg, FluentType) else str(arg)\n            for arg in (arg(env) for arg in self.arguments.positional)\n            if not isinstance(arg, FluentNone) or len(self.arguments.positional) == 1\n        ]\n"),
    "a call with several arguments, one of which is missing", "the function is called with the remaining ones in the wrong places", """
from fluent.runtime import FluentBundle, FluentResource
calls = []
b = FluentBundle(["en"], functions={"F": lambda *a: calls.append(len(a)) or "f"})
b.add_resource(FluentResource("m = { F($x, $y) }"))
b.format_pattern(b.get_message("m").value, {"y": "1"})
assert calls == [2], calls
""")
bug("c25-join-by-time-style", "C25",
    (RT + "types.py", "            cast(str, get_datetime_format(ds, locale=locale))\n", "            cast(str, get_datetime_format(ts, locale=locale))\n"),
    "different styles for date and time, in a locale whose combining formats differ", "date and time are joined by the wrong pattern", """
import datetime
from fluent.runtime.types import fluent_date
from babel import Locale
from babel.dates import get_datetime_format
ca = Locale.parse("ca")
join = {s: str(get_datetime_format(s, locale=ca)).replace("'", "") for s in ("full", "short")}
assert join["full"] != join["short"]
dt = datetime.datetime(2024, 1, 2, 3, 4)
d = fluent_date(dt, dateStyle="full").format(ca)
t = fluent_date(dt, timeStyle="short").format(ca)
v = fluent_date(dt, dateStyle="full", timeStyle="short").format(ca)
assert v == join["full"].replace("{0}", t).replace("{1}", d), v
""")

import sys as _sys
_sys.modules.setdefault("plants", _sys.modules[__name__])
import plants2  # noqa: E402,F401
import plants3  # noqa: E402,F401
import plants4  # noqa: E402,F401
import plants5  # noqa: E402,F401
import plants6  # noqa: E402,F401
import plants7  # noqa
import plants8  # noqa
import plants9  # noqa
import plants10  # noqa
import plants5

