"""A fifth round of planted bugs."""
from plants import bug, SY, RT, LEX, BLD, TAG

bug("c19-cycle-by-span", "C19",
    (RT + "resolver.py", '''        if self in env.active_patterns:
            env.errors.append(FluentCyclicReferenceError("Cyclic reference"))
            return FluentNone()
        env.active_patterns.add(self)
        elements = self.elements
        count_parts(len(elements), env)
        retval = "".join(resolve(element(env), env) for element in elements)
        env.active_patterns.remove(self)
''', '''        # Patterns are told apart by where they are
        place = (self.span.start, self.span.end) if self.span else self
        if place in env.active_patterns:
            env.errors.append(FluentCyclicReferenceError("Cyclic reference"))
            return FluentNone()
        env.active_patterns.add(place)
        elements = self.elements
        count_parts(len(elements), env)
        retval = "".join(resolve(element(env), env) for element in elements)
        env.active_patterns.remove(place)
'''),
    "two resources whose patterns stand at the same offsets, one referencing the other", "the reference is taken for a cycle", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("a = x{ b }"))
b.add_resource(FluentResource("b = y{ 1 }"))
assert b.format_pattern(b.get_message("a").value) == ("xy1", [])
''')
bug("c23-invoke-names", "C23",
    [(RT + "resolver.py", '''            result = function(*args, **kwargs)
''', '''            result = self.invoke(function, *args, **kwargs)
'''), (RT + "resolver.py", '''    arguments: CallArguments

    def __call__(self, env: ResolverEnvironment) -> Any:
        args = [''', '''    arguments: CallArguments

    def invoke(self, function: Any, *args: Any, **kwargs: Any) -> Any:
        return function(*args, **kwargs)

    def __call__(self, env: ResolverEnvironment) -> Any:
        args = [''')],
    "a named argument called function or self", "the call fails", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"], use_isolating=False, functions={"F": lambda **k: ",".join(sorted(k))})
b.add_resource(FluentResource('a = { F(function: 1, b: 2) }'))
assert b.format_pattern(b.get_message("a").value) == ("b,function", [])
''')
bug("c07-serializer-state", "C07",
    [(SY + "serializer.py", '''        self.with_junk = with_junk

''', '''        self.with_junk = with_junk
        self.state = 0

'''), (SY + "serializer.py", '''        state = 0

        parts: List[str] = []
''', '''        parts: List[str] = []
'''), (SY + "serializer.py", '''                parts.append(self.serialize_entry(entry, state))
                if not state & self.HAS_ENTRIES:
                    state |= self.HAS_ENTRIES

        return''', '''                parts.append(self.serialize_entry(entry, self.state))
                self.state |= self.HAS_ENTRIES

        return''')],
    "a serializer used twice, and a resource beginning with a comment", "the second text begins with a blank line", '''
from fluent.syntax import FluentSerializer, parse
s = FluentSerializer()
r = parse("# c\\n\\na = b\\n")
assert s.serialize(r) == s.serialize(r)
''')
bug("c09-shared-dicts", "C09",
    [(SY + "ast.py", '''def from_json(value: Any) -> Any:
    if isinstance(value, dict):
        cls = getattr(sys.modules[__name__], value["type"])
        args = {k: from_json(v) for k, v in value.items() if k != "type"}
        return cls(**args)
    if isinstance(value, list):
        return list(map(from_json, value))
''', '''def from_json(value: Any, made: Union[Dict[int, Any], None] = None) -> Any:
    made = {} if made is None else made
    if isinstance(value, dict):
        if id(value) not in made:
            cls = getattr(sys.modules[__name__], value["type"])
            args = {k: from_json(v, made) for k, v in value.items() if k != "type"}
            made[id(value)] = cls(**args)
        return made[id(value)]
    if isinstance(value, list):
        return [from_json(item, made) for item in value]
''')],
    "a JSON form in which the same object occurs twice", "the tree holds one node twice, so editing one edits both", '''
from fluent.syntax import ast
span = {"type": "Span", "start": 0, "end": 1}
j = {"type": "Resource", "span": None, "body": [{"type": "Comment", "content": "a", "span": span}, {"type": "Comment", "content": "b", "span": span}]}
r = ast.from_json(j)
r.body[0].span.end = 5
assert r.body[1].span.end == 1
''')
bug("c10-normalized", "C10",
    [(SY + "ast.py", '''    return cast(bool, node1 == node2)
''', '''    if isinstance(node1, str):
        node1, node2 = (unicodedata.normalize("NFC", s) for s in (node1, node2))
    return cast(bool, node1 == node2)
'''), (SY + "ast.py", '''import sys
''', '''import sys
import unicodedata
''')],
    "texts that differ in how an accented letter is composed", "they are called equal", '''
from fluent.syntax import ast
assert not ast.TextElement("e\\u0301").equals(ast.TextElement("\\xe9"))
''')
bug("c11-same-replacement", "C11",
    (SY + "visitor.py", '''                        new_vals.append(new_val)
''', '''                        if not any(new_val is v for v in new_vals if v is not child):
                            new_vals.append(new_val)
'''),
    "a transformer that puts one node in the place of several in a list", "all but the first are lost", '''
from fluent.syntax import ast, parse
from fluent.syntax.visitor import Transformer
new = ast.Comment("n")
class T(Transformer):
    def visit_Message(self, node):
        return new
r = parse("a = b\\nc = d\\n")
T().visit(r)
assert len(r.body) == 2
''')
bug("c13-inline-start", "C13",
    (SY + "stream.py", '''        start = self.index + self.peek_offset
        while self.current_peek == " ":''', '''        start = self.index
        while self.current_peek == " ":'''),
    "looking for blanks from a look-ahead position", "what was looked at before is returned, too", '''
from fluent.syntax.stream import FluentParserStream
ps = FluentParserStream("a  b")
ps.peek()
assert ps.peek_blank_inline() == "  "
''')
bug("c02-bom-skipped", "C02",
    (SY + "parser.py", '''        ps = FluentParserStream(source)
        ps.skip_blank_block()

        entries''', '''        ps = FluentParserStream(source)
        if source.startswith("\\ufeff"):
            ps.next()
        ps.skip_blank_block()

        entries'''),
    "a text beginning with a byte order mark", "the entry after it is accepted", '''
from fluent.syntax import parse, ast
assert isinstance(parse("\\ufeffa = b\\n").body[0], ast.Junk)
''')
bug("c15-error-cap", "C15",
    (RT + "resolver.py", '''            if env.current.error_for_missing_arg:
                env''', '''            if env.current.error_for_missing_arg and len(env.errors) < 300:
                env'''),
    "more than 300 failures in one call", "the others are not reported", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("a = " + "{ $x } " * 400))
assert len(b.format_pattern(b.get_message("a").value)[1]) == 400
''')
bug("c16-long-integers", "C16",
    (RT + "resolver.py", '''        if "." in cast(str, self.value):
''', '''        if "." in cast(str, self.value) or len(cast(str, self.value)) > 15:
'''),
    "an integer literal of more than 15 digits", "it loses digits", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("a = { 9007199254740993 }"))
assert b.format_pattern(b.get_message("a").value)[0] == "9,007,199,254,740,993"
''')
bug("c18-isclose", "C18",
    (RT + "resolver.py", '''    return cast(bool, val1 == val2)


class Variant''', '''    if isinstance(val1, float) and isinstance(val2, float):
        return math.isclose(val1, val2)
    return cast(bool, val1 == val2)


class Variant'''),
    "a float very close to a key", "the variant is chosen", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("a = { $x ->\\n    [0.3] a\\n   *[o] b\\n    }"))
assert b.format_pattern(b.get_message("a").value, {"x": 0.1 + 0.2})[0] == "b"
''')
bug("c20-keeps-value", "C20",
    (RT + "bundle.py", '''                map_[full_id] = item
''', '''                if item.value is None and full_id in map_:
                    item = item.clone()
                    item.value = map_[full_id].value
                map_[full_id] = item
'''),
    "overriding a message with one that has attributes only", "the old value stays", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("a = b"))
b.add_resource(FluentResource("a =\\n    .x = y"), allow_overrides=True)
assert b.get_message("a").value is None
''')
bug("c24-float-percent", "C24",
    (RT + "types.py", '''            base_pattern = cast(NumberPattern, locale.percent_formats.get(None))
            pattern = self._apply_options(base_pattern)
            return pattern.apply(selfnum, locale)
''', '''            base_pattern = cast(NumberPattern, locale.percent_formats.get(None))
            pattern = self._apply_options(base_pattern)
            if isinstance(selfnum, float):
                pattern.scale = 0
                selfnum = float(selfnum) * 100
            return pattern.apply(selfnum, locale)
'''),
    "a float that times 100 isn't exact", "the percentage is rounded the wrong way", '''
from fluent.runtime.types import fluent_number
from babel import Locale
assert fluent_number(0.575, style="percent").format(Locale.parse("en")) == "58%"
''')
bug("c24-territory", "C24",
    (RT + "types.py", '''            base_pattern = locale.currency_formats["standard"]
''', '''            base_pattern = Locale(locale.language).currency_formats["standard"]
'''),
    "a regional locale that writes currencies unlike its language", "the pattern of the language is used", '''
from fluent.runtime.types import fluent_number
from babel import Locale
a = fluent_number(1234, style="currency", currency="EUR")
assert a.format(Locale.parse("de_AT")) != a.format(Locale.parse("de"))
''')
bug("c25-rounded-seconds", "C25",
    (RT + "types.py", '''        dt = dt.astimezone(get_timezone(tzinfo))
''', '''        dt = dt.astimezone(get_timezone(tzinfo))
        if dt.microsecond >= 500000:
            dt += timedelta(microseconds=1000000 - dt.microsecond)
'''),
    "a datetime half a second or less before the next minute, and a time zone", "the next second is shown", '''
import datetime
from fluent.runtime.types import fluent_date
from babel import Locale
d = datetime.datetime(2020, 1, 1, 11, 59, 59, 600000)
assert "11:59:59" in fluent_date(d, timeZone="UTC", timeStyle="medium").format(Locale.parse("en"))
''')
plant = __import__("plants").ALL[-1]
plant["edits"].append((RT + "types.py", "from datetime import date, datetime\n", "from datetime import date, datetime, timedelta\n"))
bug("c26-restart-on-miss", "C26",
    (RT + "fallback.py", '''                    except StopIteration:
                        return
''', '''                    except StopIteration:
                        self._bundle_it = islice(
                            self._iterate_bundles(), bundle_pointer, None
                        )
                        return
'''),
    "two identifiers that no bundle has", "everything is loaded again", '''
from fluent.runtime import FluentLocalization, FluentResource
class L:
    calls = 0
    def resources(self, locale, ids):
        self.calls += 1
        yield [FluentResource("a = b")]
l = L()
f = FluentLocalization(["en"], ["x"], l)
f.format_value("z"), f.format_value("y")
assert l.calls == 1
''')
bug("c27-same-file", "C27",
    (RT + "fallback.py", '''                if not os.path.isfile(path):
                    continue
''', '''                if not os.path.isfile(path) or os.path.realpath(path) in seen:
                    continue
                seen.add(os.path.realpath(path))
'''),
    "two resource ids that are links to the same file", "the second is skipped", '''
import os, tempfile
from fluent.runtime import FluentResourceLoader
with tempfile.TemporaryDirectory() as d:
    open(d + "/x.ftl", "w").write("a = b\\n")
    os.symlink("x.ftl", d + "/y.ftl")
    assert len(next(FluentResourceLoader(d).resources("en", ["x.ftl", "y.ftl"]))) == 2
''')
__import__("plants").ALL[-1]["edits"].append((RT + "fallback.py", "            resources: List[Any] = []\n", "            resources: List[Any] = []\n            seen = set()\n"))
bug("c28-select-default", "C28",
    (RT + "resolver.py", '''        default: Union["Variant", None] = None
        found: Union["Variant", None] = None
        for variant in self.variants:
            if variant.default:
                default = variant
''', '''        self.default: Union["Variant", None] = None
        found: Union["Variant", None] = None
        for variant in self.variants:
            if variant.default:
                self.default = variant
'''),
    "two threads selecting in the same message", "the default variant is gone", '''
import sys, threading
from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.types import FluentType
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("a = { $x ->\\n   *[o] b\\n    [p] c\\n    }"))
p = b.get_message("a").value
class X(FluentType):
    n = 0
    def __eq__(self, other):
        self.n += 1
        if self.n == 2:
            # another thread starts selecting right now
            t = threading.Thread(target=lambda: b.format_pattern(p, {"x": Y()}))
            t.start()
            go.wait()
            self.t = t
        return False
    __hash__ = None
class Y(FluentType):
    def format(self, locale):
        return ""
go, done = threading.Event(), threading.Event()
x = X()
# the thread stops between clearing and finding the default
sel = p.expression
class Stop(list):
    def __iter__(self):
        if threading.current_thread() is not threading.main_thread():
            go.set()
            done.wait()
        return super().__iter__()
sel.variants = Stop(sel.variants)
res = b.format_pattern(p, {"x": x})
done.set()
x.t.join()
assert res == ("b", []), res
''')
__import__("plants").ALL[-1]["edits"].append((RT + "resolver.py", '''            if default is None:
                env.errors.append(FluentFormatError("No default"))
                return FluentNone()
            found = default
''', '''            if self.default is None:
                env.errors.append(FluentFormatError("No default"))
                return FluentNone()
            found = self.default
'''))
bug("c30-hash-junk", "C30",
    (LEX, '''            yield self._token(node, ATOMIC[nodename])
''', '''            if nodename == "Junk" and node.content.startswith("#"):
                nodename = "Comment"
            yield self._token(node, ATOMIC[nodename])
'''),
    "a malformed comment", "it is classified as a comment", '''
from pygments.token import Token
from fluent.pygments.lexer import FluentLexer
assert [t for t, v in FluentLexer().get_tokens("#x\\n")][0] is Token.Generic.Error
''')
bug("c01-backtracking", "C01",
    (SY + "parser.py", '"^[A-Z][A-Z0-9_-]*$"', '"^([A-Z][A-Z0-9_-]*)+$"'),
    "a call of a name of many capitals with a small letter", "parsing takes forever", '''
import signal
from fluent.syntax import parse
signal.alarm(20)
parse("a = { " + "A" * 40 + "a() }")
''')
bug("c05-late-crlf", "C05",
    [(SY + "stream.py", '''        self.string = string
        self.index = 0
''', '''        self.string = string
        # Most texts have no CRLF, so save the effort
        self.crlf = "\\r\\n" in string[:4096]
        self.index = 0
'''), (SY + "stream.py", '''        if self.get(offset) == "\\r" and self.get(offset + 1) == "\\n":
            return "\\n"
''', '''        if self.crlf and self.get(offset) == "\\r" and self.get(offset + 1) == "\\n":
            return "\\n"
''')],
    "a long text whose first CRLF comes late", "the carriage returns are read as text", '''
from fluent.syntax import parse
t = "a = b\\n" * 1000
assert parse(t + "c = d\\r\\n    e\\r\\n").body[-1].value.elements[0].value == "d\\ne"
''')
bug("c08-comment-lines", "C08",
    (SY + "serializer.py", '''            for line in comment.content.split("\\n")
''', '''            for line in comment.content.splitlines()
'''),
    "a comment with a line separator character or a trailing empty line", "it is broken there", '''
from fluent.syntax import parse, serialize
t = "# a\\u2028b\\n#\\n\\na = b\\n"
assert serialize(parse(t)).startswith("# a\\u2028b\\n#\\n")
''')
bug("c12-escape-twice", "C12",
    (SY + "ast.py", '''            codepoint = int(codepoint4 or codepoint6, 16)
''', '''            codepoint = int(codepoint4 or codepoint6, 16) & 0x1FFFFF
'''),
    "a six-digit escape beyond 1FFFFF", "it wraps around", '''
from fluent.syntax import parse
assert parse('a = { "\\\\U200041" }').body[0].value.elements[0].expression.parse()["value"] == "\\ufffd"
''')
bug("c31-worktree-reuse", "C31",
    (BLD, '''        subprocess.run(
            ["git", "checkout", f"{tag.project}@{tag.version}"],
            cwd=worktree,
            check=True,
        )
''', '''        subprocess.run(
            ["git", "checkout", f"{tag.project}@{tag.version}"],
            cwd=worktree,
            check=len(tagged_versions) < 8,
        )
'''),
    "eight releases or more, and a checkout that fails", "the release is built from another revision", '''
import os, subprocess, tempfile
from unittest import mock
from fluent.docs import build as B, tags
made = []
def run(cmd, **k):
    if cmd[:2] == ["git", "tag"]:
        return mock.Mock(stdout="".join("fluent.syntax@0.%d 2021-01-0%d\\n" % (i, i) for i in range(9, 0, -1)))
    if cmd[:2] == ["git", "checkout"] and k.get("check") and cmd[2].endswith("0.5"):
        raise subprocess.CalledProcessError(1, cmd)
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    os.makedirs("_build/r/fluent.syntax")
    import datetime
    with mock.patch.object(subprocess, "run", run), mock.patch.object(subprocess, "check_call", lambda *a, **k: 0), \\
            mock.patch.object(B.ProjectBuilder, "create_versions_doc", lambda s: made.append(s.version)):
        try:
            B.build("r", ["fluent.syntax"], datetime.date(2020, 5, 1))
        except subprocess.CalledProcessError:
            made.append("stopped")
    os.chdir("/")
assert made[-1] == "stopped", made
''')
bug("c31-many-tags", "C31",
    (BLD, '''            f'<a href="/{self.repo_name}/{self.project_name}/{v}">{v}</a>'
            for v in self.versions
''', '''            f'<a href="/{self.repo_name}/{self.project_name}/{v}">{v}</a>'
            for v in self.versions[:10]
'''),
    "more than eight releases of one project", "the older ones are not linked", '''
import os, tempfile
from fluent.docs.build import ProjectBuilder
with tempfile.TemporaryDirectory() as d:
    os.makedirs(d + "/docs")
    vs = ["dev", "stable"] + ["0.%d" % i for i in range(20, 0, -1)]
    ProjectBuilder("r", d, "p", vs, "dev").create_versions_doc()
    assert ">0.1</a>" in open(d + "/docs/_templates/versions.html").read()
''')
