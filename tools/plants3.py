"""A third round of planted bugs."""
from plants import bug, SY, RT, LEX, BLD, TAG

bug("c20-seen-resource", "C20",
    (RT + "bundle.py", '''        # TODO - warn/error about duplicates
        for item in resource.body:
''', '''        # TODO - warn/error about duplicates
        if getattr(self, "_latest", None) == id(resource):
            # Nothing new in there.
            return
        self._latest = id(resource)
        for item in resource.body:
'''),
    "the same resource added again, now with overrides, or edited in between", "it is ignored", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("a = 1"))
r = FluentResource("a = 2")
b.add_resource(r)
b.add_resource(r, allow_overrides=True)
assert b.format_pattern(b.get_message("a").value) == ("2", [])
''')
bug("c28-borrowed-pattern", "C28",
    (RT + "types.py", '''        pattern = clone_pattern(pattern)
        if not self.options.useGrouping:
            pattern.grouping = _UNGROUPED_PATTERN.grouping
''', '''        clone = clone_pattern(pattern)
        if not self.options.useGrouping:
            # Let the clone share the grouping of the locale
            grouping, pattern.grouping = pattern.grouping, _UNGROUPED_PATTERN.grouping
            clone = clone_pattern(pattern)
            pattern.grouping = grouping
        pattern = clone
'''),
    "two threads formatting numbers, one without grouping", "the other's number has no grouping, or never has again", '''
import sys, threading
from fluent.runtime import types
from fluent.runtime.types import fluent_number
from babel import Locale
loc = Locale.parse("en")
real = types.clone_pattern
got = []
def slow(p):
    r = real(p)
    if threading.current_thread() is threading.main_thread():
        t = threading.Thread(target=lambda: got.append(fluent_number(1234567).format(loc)))
        t.start()
        t.join()
    return r
types.clone_pattern = slow
assert fluent_number(1234567, useGrouping=False).format(loc) == "1234567"
assert set(got) == {"1,234,567"}, got
''')
bug("c28-check-outside-lock", "C28",
    (RT + "fallback.py", '''        bundle_pointer = 0
        while True:
            with self._bundle_lock:
                if bundle_pointer == len(self._bundle_cache):
                    try:''', '''        bundle_pointer = 0
        while True:
            missing = bundle_pointer == len(self._bundle_cache)
            with self._bundle_lock:
                if missing:
                    try:'''),
    "two threads needing the next bundle at once", "one skips a bundle", '''
import threading
from fluent.runtime import FluentLocalization, FluentResource, AbstractResourceLoader
class L(AbstractResourceLoader):
    def resources(self, locale, ids):
        e.set()
        f.wait(2)
        yield [FluentResource("x = %s" % locale)]
e, f = threading.Event(), threading.Event()
l = FluentLocalization(["en", "fr"], ["r"], L())
got = []
t = [threading.Thread(target=lambda: got.append(l.format_value("x"))) for _ in range(2)]
t[0].start()
e.wait()
t[1].start()
import time
time.sleep(0.3)
f.set()
for x in t:
    x.join()
assert l._bundle_cache and got == ["en", "en"] and len(l._bundle_cache) == 1, (got, l._bundle_cache)
''')
bug("c28-plural-memo", "C28",
    (RT + "resolver.py", '''                val1_form = env.context._plural_form(val1)
''', '''                if getattr(env.context, "_last_number", None) is not val1:
                    env.context._last_number = val1
                    env.context._last_form = env.context._plural_form(val1)
                val1_form = env.context._last_form
'''),
    "two threads selecting on numbers", "one takes the other's plural category", '''
import threading
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("a = { $n ->\\n [one] one\\n *[other] other\\n}"))
p = b.get_message("a").value
real = b._plural_form
def form(n):
    r = real(n)
    if n == 1 and threading.current_thread() is threading.main_thread():
        t = threading.Thread(target=lambda: b.format_pattern(p, {"n": 5}))
        t.start()
        t.join()
    return r
b._plural_form = form
x = {"n": 1}
assert b.format_pattern(p, x)[0] == "one"
import sys
hits = []
orig = b.__class__.__setattr__
class B(FluentBundle):
    def __setattr__(self, name, value):
        object.__setattr__(self, name, value)
        if name == "_last_number" and not hits:
            hits.append(1)
            t = threading.Thread(target=lambda: self.format_pattern(self.get_message("a").value, {"n": 5}))
            t.start()
            t.join()
    def __getattribute__(self, name):
        v = object.__getattribute__(self, name)
        return v
b = B(["en"], use_isolating=False)
b.add_resource(FluentResource("a = { $n ->\\n [one] one\\n *[other] other\\n}"))
p = b.get_message("a").value
old = sys.getswitchinterval()
sys.setswitchinterval(1e-6)
bad = []
def run(n, want):
    for _ in range(30000):
        v = b.format_pattern(p, {"n": n})[0]
        if v != want:
            bad.append(v)
ts = [threading.Thread(target=run, args=a) for a in ((1, "one"), (5, "other"), (1, "one"))]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad, bad[:3]
''')
bug("c28-compiler-state", "C28",
    (RT + "prepare.py", '''        kwargs: Dict[str, Any] = vars(node).copy()
        for propname, propvalue in kwargs.items():
            kwargs[propname] = self(propvalue)
        handler = getattr(self, "compile_" + nodename, self.compile_generic)
        return handler(nodename, **kwargs)
''', '''        kwargs: Dict[str, Any] = vars(node).copy()
        for propname, propvalue in kwargs.items():
            kwargs[propname] = self(propvalue)
        self.handler = getattr(self, "compile_" + nodename, self.compile_generic)
        return self.handler(nodename, **kwargs)
'''),
    "two threads compiling messages of one bundle at once", "a node is compiled by the handler of another type", '''
import threading
from fluent.runtime import FluentBundle, FluentResource, prepare, resolver
b = FluentBundle(["en"])
b.add_resource(FluentResource("a = { $x } b\\nc = d { $x }"))
C = type(b._compiler)
hits = []
def other():
    b.get_message("c")
class X(C):
    def __setattr__(self, name, value):
        object.__setattr__(self, name, value)
        if not hits and threading.current_thread() is threading.main_thread():
            hits.append(1)
            t = threading.Thread(target=other)
            t.start()
            t.join()
            # the other thread may also stop in the middle of its work
            object.__setattr__(self, name, self.compile_Placeable)
b._compiler = X()
v = b.format_pattern(b.get_message("a").value, {"x": "X"})
assert v == ("\\u2068X\\u2069 b", []), v
''')
bug("c27-big-file", "C27",
    (RT + "fallback.py", '''                content = codecs.open(path, "r", "utf-8").read()
''', '''                content = codecs.open(path, "r", "utf-8").read(1 << 16)
'''),
    "a file of more than 64 KB", "its end is missing", '''
import os, tempfile, shutil
from fluent.runtime import FluentResourceLoader
d = tempfile.mkdtemp()
try:
    with open(os.path.join(d, "a.ftl"), "w") as f:
        f.write("".join("k%d = %s\\n" % (i, "v" * 50) for i in range(4000)))
    r, = FluentResourceLoader(d).resources("en", ["a.ftl"])
    assert len(r[0].body) == 4000, len(r[0].body)
finally:
    shutil.rmtree(d)
''')
bug("c22-memo", "C22",
    (RT + "resolver.py", '''        with env.modified_for_term_reference(args=kwargs):
            return resolveEntryReference(self, env)
''', '''        memo = env.__dict__.setdefault("terms", {})
        key = (reference_to_id(self), tuple(sorted(kwargs.items(), key=str)) if kwargs else None)
        if key not in memo:
            with env.modified_for_term_reference(args=kwargs):
                memo[key] = resolveEntryReference(self, env)
        return memo[key]
'''),
    "two references with arguments that are equal as numbers but not as literals, or a term with errors", "the second one shows the value of the first, or fails silently", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("-t = { $n ->\\n [one] one\\n *[other] other\\n} { nope }\\nm = { -t(n: 1) } { -t(n: 1.0) }"))
v, e = b.format_pattern(b.get_message("m").value)
assert len(e) == 2, (v, e)
''')
bug("c23-retry", "C23",
    (RT + "resolver.py", '''            result = function(*args, **kwargs)
            if not''', '''            try:
                result = function(*args, **kwargs)
            except TypeError:
                if not kwargs:
                    raise
                # It doesn't take any options.
                result = function(*args)
            if not'''),
    "a function that raises TypeError when called with options", "it is called again without them", '''
from fluent.runtime import FluentBundle, FluentResource
calls = []
def f(x, **kw):
    calls.append(kw)
    if kw:
        raise TypeError("no")
    return "ok"
b = FluentBundle(["en"], functions={"F": f})
b.add_resource(FluentResource("m = { F(1, a: 2) }"))
v, e = b.format_pattern(b.get_message("m").value)
assert v == "F()" and len(e) == 1 and len(calls) == 1, (v, e, calls)
''')
bug("c23-falsy-function", "C23",
    (RT + "resolver.py", '''        try:
            function = env.context._functions[function_name]
        except LookupError:
''', '''        function = env.context._functions.get(function_name)
        if not function:
'''),
    "a callable object that is false", "it counts as unknown", '''
from fluent.runtime import FluentBundle, FluentResource
class F(list):
    def __call__(self, x):
        return "called"
b = FluentBundle(["en"], functions={"F": F()})
b.add_resource(FluentResource("m = { F(1) }"))
assert b.format_pattern(b.get_message("m").value) == ("called", [])
''')
bug("c18-many-variants", "C18",
    (RT + "resolver.py", '''        default: Union["Variant", None] = None
        found: Union["Variant", None] = None
        for variant in self.variants:
''', '''        default: Union["Variant", None] = None
        found: Union["Variant", None] = None
        variants = self.variants
        if len(variants) > 5:
            # Don't look at the same key twice
            variants = list({variant.key(env): variant for variant in variants}.values())
        for variant in variants:
'''),
    "more than five variants of which two have the same key", "the last one wins, or the default is lost", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("m = { $x ->\\n [a] A\\n [b] B\\n [c] C\\n [d] D\\n [a] A2\\n *[e] E\\n}"))
assert b.format_pattern(b.get_message("m").value, {"x": "a"}) == ("A", [])
''')
bug("c15-recycled-errors", "C15",
    (RT + "bundle.py", '''        errors: List[Exception] = []
        env =''', '''        # Most calls need no list of their own.
        errors: List[Exception] = self.__dict__.setdefault("_spare", [])
        if errors:
            errors = self._spare = []
        env ='''),
    "a caller that keeps the empty list of a call, and a later call with errors", "the errors show in the earlier list", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("a = b\\nc = { $d }"))
x = b.format_pattern(b.get_message("a").value)
b.format_pattern(b.get_message("c").value)
assert x == ("b", []), x
''')
bug("c25-same-offset", "C25",
    (RT + "types.py", '''    if tzinfo is not None:
        dt = dt.astimezone(get_timezone(tzinfo))
    return dt''', '''    if tzinfo is not None:
        converted = dt.astimezone(get_timezone(tzinfo))
        if converted.utcoffset() != dt.utcoffset():
            dt = converted
    return dt'''),
    "a datetime whose zone has the same offset as the one asked for", "the name of its own zone is shown", '''
from datetime import datetime, timezone
from babel import Locale
from fluent.runtime.types import fluent_date
v = fluent_date(datetime(2020, 1, 1, 12, tzinfo=timezone.utc), timeStyle="full", timeZone="Europe/London").format(Locale.parse("en"))
assert "Greenwich" in v, v
''')
bug("c27-stat-cache", "C27",
    (RT + "fallback.py", '''                content = codecs.open(path, "r", "utf-8").read()
''', '''                key = (path, int(os.path.getmtime(path)), os.path.getsize(path)) if os.path.exists(path) else None
                content = self.__dict__.setdefault("cache", {}).get(key) if key else None
                if content is None:
                    content = codecs.open(path, "r", "utf-8").read()
                    self.__dict__.setdefault("cache", {})[key] = content
'''),
    "a file that changes within a second without changing its size", "the old content is returned", '''
import os, tempfile, shutil
from fluent.runtime import FluentResourceLoader
d = tempfile.mkdtemp()
try:
    l = FluentResourceLoader(d)
    p = os.path.join(d, "a.ftl")
    for v in "xy":
        with open(p, "w") as f:
            f.write("k = %s" % v)
        os.utime(p, (1000, 1000))
        r, = l.resources("en", ["a.ftl"])
        assert r[0].body[0].value.elements[0].value == v
finally:
    shutil.rmtree(d)
''')
bug("c31-cutoff-day", "C31",
    (TAG, "if ti.date > cut_off_date]", "if ti.date >= cut_off_date]"),
    "a tag of the cut-off day", "it is built", '''
import os, subprocess, tempfile, datetime
from fluent.docs import tags
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    e = dict(os.environ, GIT_COMMITTER_DATE="2020-05-01T12:00:00", GIT_AUTHOR_DATE="2020-05-01T12:00:00")
    for c in (["init", "-q"], ["-c", "user.name=a", "-c", "user.email=b", "commit", "-q", "--allow-empty", "-m", "x"], ["tag", "fluent.syntax@1"]):
        subprocess.run(["git"] + c, check=True, env=e)
    assert tags.get_tag_infos(datetime.date(2020, 5, 1)) == []
    os.chdir("/")
''')
bug("c09-nested-lists", "C09",
    (SY + "ast.py", '''    if isinstance(value, tuple):
        return list(to_json(item, fn) for item in value)
    else:
        return value


def from_json''', '''    if isinstance(value, tuple):
        return list(item if isinstance(item, str) else to_json(item, fn) for item in value)
    if isinstance(value, str) and value[:1] == "\\ufeff":
        return value[1:]
    else:
        return value


def from_json'''),
    "a text that begins with a byte order mark", "the mark is lost", '''
from fluent.syntax import ast
n = ast.TextElement("\\ufeffx")
assert ast.from_json(n.to_json()).equals(n)
''')
bug("c10-zip", "C10",
    (SY + "ast.py", '''                if len(field1) != len(field2):
                    return False

                for elem1''', '''                if bool(field1) != bool(field2):
                    return False

                if len(field1) > len(field2):
                    return False

                for elem1'''),
    "a list that is a proper prefix of the other's", "the trees are equal", '''
from fluent.syntax import ast
T = ast.TextElement
assert not ast.Pattern([T("a")]).equals(ast.Pattern([T("a"), T("b")]))
''')
bug("c11-removed-before", "C11",
    (SY + "visitor.py", '''                new_vals: List[Any] = []
                for child in propvalue:
''', '''                new_vals: List[Any] = []
                if not propvalue:
                    continue
                for child in propvalue:
                    if new_vals and child is new_vals[-1]:
                        # just inserted
                        continue
'''),
    "a node that occurs twice in a row", "the second one is dropped", '''
from fluent.syntax import ast
from fluent.syntax.visitor import Transformer
class X(Transformer):
    def visit_Placeable(self, node):
        return p.elements[-1]
a, b = ast.Placeable(ast.StringLiteral("a")), ast.TextElement("b")
p = ast.Pattern([a, b])
X().visit(p)
assert len(p.elements) == 2, p.elements
''')
bug("c16-many-elements", "C16",
    (RT + "prepare.py", '''        if isinstance(item, (tuple, list)):
            return [self(elem) for elem in item]
''', '''        if isinstance(item, (tuple, list)):
            return [self(elem) for elem in item[:100]] + [self(elem) for elem in item[101:] or []] if len(item) > 400 else [self(elem) for elem in item]
'''),
    "a pattern of more than 400 elements", "one is lost", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("m = " + "".join('{ %d } ' % i for i in range(210)) + "x"))
v = b.format_pattern(b.get_message("m").value)[0]
assert v == " ".join(map(str, range(210))) + " x", v
''')
bug("c19-limit-first", "C19",
    (RT + "resolver.py", '''        if len(fluentish) > MAX_PART_LENGTH:
''', '''        if len(fluentish.encode("utf-8", "replace")) > MAX_PART_LENGTH:
'''),
    "a text below the limit in characters but not in bytes", "it is refused", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("m = x { $x }"))
assert b.format_pattern(b.get_message("m").value, {"x": "\\u00e9" * 2000}) == ("x " + "\\u00e9" * 2000, [])
''')
bug("c17-long-not-isolated", "C17",
    (RT + "resolver.py", '''        inner = resolve(self.expression(env), env)
        if not env.context.use_isolating:
            return inner
''', '''        inner = resolve(self.expression(env), env)
        if not env.context.use_isolating or len(inner) > 2000:
            return inner
'''),
    "a placeable of more than 2000 characters", "it is not isolated", '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("m = x { $x }"))
assert b.format_pattern(b.get_message("m").value, {"x": "y" * 2200}) == ("x \\u2068" + "y" * 2200 + "\\u2069", [])
''')
bug("c26-args-once", "C26",
    (RT + "fallback.py", '''            val, _errors = bundle.format_pattern(msg.value, args)
''', '''            val, _errors = bundle.format_pattern(msg.value, args)
            if not val and self.locales[1:] and bundle.locales[1:]:
                continue
'''),
    "a message that formats to nothing", "the next locale answers", '''
from fluent.runtime import FluentLocalization, FluentResource, AbstractResourceLoader
class L(AbstractResourceLoader):
    def resources(self, locale, ids):
        yield [FluentResource("a = { $x }" if locale == "de" else "a = en")]
x = FluentLocalization(["de", "en"], ["r"], L())
assert x.format_value("a", {"x": ""}) == ""
''')
bug("c32-trailing", "C32",
    ("tools/fluentfmt.py", "    print(serialize(ast))\n", "    print(serialize(ast).rstrip(\"\\n \"))\n    print()\n"),
    "a file ending in an empty comment or a text ending in blanks", "the output is not the library's", '''
import subprocess, sys, tempfile, os
from fluent.syntax import parse, serialize
with tempfile.NamedTemporaryFile("w", suffix=".ftl", delete=False) as f:
    f.write("a = b\\n\\n")
try:
    env = dict(os.environ, PYTHONPATH=os.pathsep.join(sys.path))
    for s in ("a = b\\n# c\\n", "#\\n", ""):
        with open(f.name, "w") as g:
            g.write(s)
        out = subprocess.run([sys.executable, "tools/fluentfmt.py", f.name], env=env, stdout=subprocess.PIPE, check=True).stdout.decode()
        assert out == serialize(parse(s)) + "\\n", (s, out)
finally:
    os.unlink(f.name)
''')
bug("c30-call-name", "C30",
    (LEX, '''    def tokenize_Variant(self, node):
''', '''    def tokenize_NamedArgument(self, node):
        yield self._token(node.name, Token.Name.Attribute)
        yield from self.tokenize(node.value)

    def tokenize_Variant(self, node):
'''), "a named argument", "its name is classified as an attribute", '''
from fluent.pygments.lexer import FluentLexer
from pygments.token import Token
t = [x for x in FluentLexer().get_tokens_unprocessed("a = { F(b: 1) }\\n") if x[2] == "b"]
assert t[0][1] is Token.Name.Constant
''')
bug("c29-astral", "C29",
    (LEX, '''            node.span.start,
            token,
''', '''            node.span.start if self.text.isprintable() or ord(max(self.text)) < 0x10000 else len(self.text[: node.span.start].encode("utf-16-le")) // 2,
            token,
'''),
    "a character beyond U+FFFF", "later offsets are those of UTF-16", '''
from fluent.pygments.lexer import FluentLexer
s = "a = \\U0001f600 { $x }\\nb = c\\n"
for o, _, t in FluentLexer().get_tokens_unprocessed(s):
    assert s[o:o + len(t)] == t, (o, t)
''')
bug("c12-number-underscore", "C12",
    (SY + "ast.py", "        value = float(self.value)\n", "        value = float(self.value) if len(self.value) < 17 else float(int(float(self.value)))\n"),
    "a number of 17 characters or more with a fraction", "the fraction is lost", '''
from fluent.syntax import ast
assert ast.NumberLiteral("1.1234567890123456").parse()["value"] == 1.1234567890123456
''')
bug("c24-tie", "C24",
    (RT + "types.py", '''        if self.options.minimumIntegerDigits is not None:
            pattern.int_prec = (
                self.options.minimumIntegerDigits,
                pattern.int_prec[1],
            )
''', '''        if self.options.minimumIntegerDigits is not None:
            pattern.int_prec = (
                max(self.options.minimumIntegerDigits, pattern.int_prec[0]) if self.options.useGrouping else self.options.minimumIntegerDigits - (self < 0),
                pattern.int_prec[1],
            )
'''),
    "a negative number with minimum integer digits and no grouping", "the sign counts as a digit", '''
from fluent.runtime.types import fluent_number
from babel import Locale
assert fluent_number(-5, minimumIntegerDigits=3, useGrouping=False).format(Locale.parse("en")) == "-005"
''')
bug("c21-literal-options", "C21",
    (RT + "types.py", '''    retval = options_class()

    if base is not None:
        # We only copy values in `__dict__` to avoid class attributes.
        retval.__dict__.update(base.__dict__)
''', '''    retval = options_class()

    if base is not None:
        # We only copy values in `__dict__` to avoid class attributes.
        retval.__dict__ = base.__dict__ if len(kwargs) > 2 else dict(base.__dict__)
'''),
    "three options at once", "they are set on the options of the argument, or on the defaults of all numbers", '''
from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.types import fluent_number
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("m = { NUMBER($x, useGrouping: 0, minimumFractionDigits: 1, maximumFractionDigits: 1) }"))
x = fluent_number(1, minimumIntegerDigits=2)
b.format_pattern(b.get_message("m").value, {"x": x})
assert x.options.minimumFractionDigits is None
''')
