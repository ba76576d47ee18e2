"""A tenth round: each property once more, by what its statement says."""
from plants import bug, SY, RT, LEX, BLD, TAG
from plants6 import FX, RX

bug("c12-last-code-point", "C12",
    (SY + "ast.py", '''0xE000 <= codepoint <= 0x10FFFF:''', '''0xE000 <= codepoint < 0x10FFFF:'''),
    "the last code point in an escape", "is replaced", FX + '''
assert ast.StringLiteral("\\\\U10FFFF").parse()["value"] == chr(0x10ffff)
''')
bug("c15-odd-exception", "C15",
    (RT + "resolver.py", '''            return result
        except Exception as e:
''', '''            return result
        except (ArithmeticError, AttributeError, LookupError, OSError, RuntimeError, TypeError, ValueError) as e:
'''),
    "a function that raises an exception of its own class", "format_pattern raises it", RX + '''
class E(Exception): pass
def f(): raise E()
assert fmt("m = { F() }", functions={"F": f})[0] == "F()"
''')
bug("c15-compare", "C15",
    (RT + "resolver.py", '''            except RecursionError:
                raise
            except Exception as e:
''', '''            except ArithmeticError as e:
'''),
    "an argument whose comparison with a variant's key fails", "format_pattern raises it", RX + '''
from fluent.runtime.types import FluentType
class T(FluentType):
    def __eq__(self, other): raise KeyError("no")
    def format(self, locale): return "t"
assert fmt("m = { $x ->\\n [a] 1\\n *[b] 2\\n }", args={"x": T()})[0] == "2"
''')
bug("c15-format-error", "C15",
    (RT + "resolver.py", '''            return formatted
        except Exception as e:
''', '''            return formatted
        except (ArithmeticError, AttributeError, TypeError, ValueError, NotImplementedError) as e:
'''),
    "a type whose format() fails with a KeyError", "format_pattern raises it", RX + '''
from fluent.runtime.types import FluentType
class T(FluentType):
    def format(self, locale): raise KeyError("no")
assert fmt("m = <{ $x }>", args={"x": T()})[0] == "<???>"
''')
bug("c19-cycle-args", "C19",
    (RT + "resolver.py", '''        if self in env.active_patterns:
            env.errors.append(FluentCyclicReferenceError("Cyclic reference"))
            return FluentNone()
        env.active_patterns.add(self)
        elements = self.elements
        count_parts(len(elements), env)
        retval = "".join(resolve(element(env), env) for element in elements)
        env.active_patterns.remove(self)
''', '''        # With other arguments, the pattern may well take another branch.
        active = (self, id(env.current.args))
        if active in env.active_patterns:
            env.errors.append(FluentCyclicReferenceError("Cyclic reference"))
            return FluentNone()
        env.active_patterns.add(active)  # type: ignore
        elements = self.elements
        count_parts(len(elements), env)
        retval = "".join(resolve(element(env), env) for element in elements)
        env.active_patterns.remove(active)  # type: ignore
'''),
    "a term that refers to itself with arguments", "goes round until the limit on parts", RX + '''
t, e = fmt("m = <{ -t }>\\n-t = a { -t(x: 1) }")
assert "a ???" in t, (t, e)
''')
bug("c26-interrupt", "C26",
    (RT + "fallback.py", '''                    except BaseException:
''', '''                    except Exception:
'''),
    "a loader interrupted by the user", "its bundles are missed from then on", '''
from fluent.runtime import FluentLocalization, AbstractResourceLoader, FluentResource
class L(AbstractResourceLoader):
    fail = True
    def resources(self, locale, ids):
        if L.fail: raise KeyboardInterrupt()
        yield [FluentResource("k = x")]
l = FluentLocalization(["en"], ["a"], L())
try: l.format_value("k")
except KeyboardInterrupt: pass
L.fail = False
assert l.format_value("k") == "x"
''')
bug("c27-empty-files", "C27",
    (RT + "fallback.py", '''            if resources:
                yield resources
''', '''            if any(resource.body for resource in resources):
                yield resources
'''),
    "a root that has empty files only", "is left out", '''
import tempfile
from fluent.runtime import FluentResourceLoader
with tempfile.TemporaryDirectory() as d:
    open(d + "/b.ftl", "w").close()
    assert len(list(FluentResourceLoader(d).resources("en", ["b.ftl"]))) == 1
''')
bug("c28-last-compiled", "C28",
    (RT + "bundle.py", '''        return self._compiled.setdefault(compiled_id, self._compiler(entry))
''', '''        self._compiled[compiled_id] = compiled = self._compiler(entry)
        return compiled
'''),
    "two threads that compile the same message", "a cycle isn't found at the right place", '''
import threading, sys
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("a = x { b }\\nb = y { a }"))
pause, go = threading.Event(), threading.Event()
inner = b._compiler
me = threading.current_thread()
def slow(entry):
    r = inner(entry)
    if threading.current_thread() is not me and entry.id.name == "a":
        pause.set(); go.wait(5)
    return r
b._compiler = slow
out = []
t = threading.Thread(target=lambda: out.append(b.format_pattern(b.get_message("a").value)[0]))
t.start(); pause.wait(5)
m = b.get_message("a").value
want = "x y ???"
go.set(); t.join()
assert (b.format_pattern(m)[0], out[0]) == (want, want), (b.format_pattern(m)[0], out)
''')
bug("c28-checked-outside", "C28",
    (RT + "fallback.py", '''            with self._bundle_lock:
                if bundle_pointer == len(self._bundle_cache):
                    try:
''', '''            if bundle_pointer == len(self._bundle_cache):
                with self._bundle_lock:
                    try:
'''),
    "two threads that need the next bundle", "the second one loads another and uses the first's", '''
import threading
from fluent.runtime import FluentLocalization, AbstractResourceLoader, FluentResource
inside, go = threading.Event(), threading.Event()
class L(AbstractResourceLoader):
    def resources(self, locale, ids):
        if locale == "en":
            inside.set(); go.wait(2)
        n.append(locale)
        yield [FluentResource("k = x")]
n = []
l = FluentLocalization(["en", "de"], ["a"], L())
ts = [threading.Thread(target=l.format_value, args=("k",)) for _ in range(2)]
ts[0].start(); inside.wait(5); ts[1].start()
ts[1].join(0.5); go.set()
for t in ts: t.join()
assert n == ["en"], n
''')
bug("c29-bom", "C29",
    (LEX, '''        tokenizer = Tokenizer(text)
''', '''        tokenizer = Tokenizer(text.lstrip("\\ufeff"))
'''),
    "a text that starts with a BOM", "positions are off by one", '''
from fluent.pygments.lexer import FluentLexer
t = "\\ufeffa = b\\nc = d\\n"
assert "".join(v for _, _, v in FluentLexer().get_tokens_unprocessed(t)) == t
''')
bug("c13-take-eof", "C13",
    (SY + "stream.py", '''        if ch is None:
            return EOF
        if f(ch):
            self.next()
            return ch
        return False
''', '''        if ch is not None and f(ch):
            self.next()
            return ch
        return False
'''),
    "taking a character at the end", "gives False, not EOF", '''
from fluent.syntax.stream import FluentParserStream
assert FluentParserStream("").take_char(lambda c: True) is None
''')
bug("c18-default-last", "C18",
    (RT + "resolver.py", '''        for variant in self.variants:
            if variant.default:
                default = variant
''', '''        for variant in sorted(self.variants, key=lambda variant: variant.default):
            if variant.default:
                default = variant
'''),
    "a default variant that matches, and one after it that does, too", "the later one is chosen", RX + '''
assert fmt("m = { $x ->\\n *[one] a\\n [1] b\\n }", args={"x": 1})[0] == "a"
''')
bug("c18-decimal-exact", "C18",
    (RT + "resolver.py", '''            val2 = Decimal(str(val2))
''', '''            val2 = Decimal(val2)
'''),
    "a Decimal with a fraction", "doesn't match its key", RX + '''
from decimal import Decimal
assert fmt("m = { $x ->\\n [0.1] a\\n *[o] b\\n }", args={"x": Decimal("0.1")})[0] == "a"
''')
bug("c23-reversed", "C23",
    (RT + "resolver.py", '''        args = [arg(env) for arg in self.arguments.positional]
''', '''        args = [arg(env) for arg in self.arguments.positional[::-1]][::-1]
'''),
    "two arguments that are calls or fail", "are evaluated from the right", RX + '''
n = []
def f(x): n.append(x); return x
fmt('m = { G(F("a"), F("b")) }', functions={"F": f, "G": lambda *a: "g"})
assert n == ["a", "b"]
''')
bug("c23-str-subclass", "C23",
    (RT + "resolver.py", '''            if not isinstance(result, (FluentType, str)):
                raise TypeError(
                    "Unsupported return''', '''            if not (isinstance(result, FluentType) or type(result) is str):
                raise TypeError(
                    "Unsupported return'''),
    "a function that returns a subclass of str", "fails", RX + '''
class S(str): pass
assert fmt("m = { F() }", functions={"F": lambda: S("x")}) == ("x", [])
''')
bug("c25-quoted-joiner", "C25",
    (RT + "types.py", '''            cast(str, get_datetime_format(ds, locale=locale))
            .replace("'", "")
            .replace(''', '''            cast(str, get_datetime_format(ds, locale=locale))
            .replace("' ", " ").replace(" '", " ")
            .replace('''),
    "a date and time joined by more than a word", "a quote is left", '''
import babel, datetime
from fluent.runtime.types import fluent_date
d = datetime.datetime(2021, 1, 2, 3, 4)
assert not [l for l in babel.localedata.locale_identifiers() if len(l) < 4 and l not in ("uz", "fr")
            and any(fluent_date(d, dateStyle=s, timeStyle="short").format(babel.Locale.parse(l)).count("'") > fluent_date(d, dateStyle=s).format(babel.Locale.parse(l)).count("'") +
            fluent_date(d, timeStyle="short").format(babel.Locale.parse(l)).count("'") for s in ("full", "long"))]
''')
bug("c04-sum-start", "C04",
    (SY + "parser.py", '''                        cast(ast.Span, prev.span).start,
                        cast(ast.Span, element.span).end,
                    )
                trimmed[-1] = sum
''', '''                        cast(ast.Span, prev.span).start if prev.value != "\\n\\n" else cast(ast.Span, element.span).start,
                        cast(ast.Span, element.span).end,
                    )
                trimmed[-1] = sum
'''),
    "a placeable at a line's end, with text on the next", "the text's span leaves the line break out", FX + '''
t = "a = { b }\\n\\n    c\\n"
e = parse(t).body[0].value.elements[1]
assert (e.value, e.span.start) == ("\\n\\nc", 9), e.to_json()
''')
bug("c02-text-cr", "C02",
    (SY + "parser.py", '''            if ch == EOL:
                return ast.TextElement(buf)

            buf += ch
''', '''            if ch == EOL:
                return ast.TextElement(buf.rstrip("\\r"))

            buf += ch
'''),
    "a lone CR before a CRLF", "is lost", FX + '''
assert parse("a = b\\r\\r\\n c\\n").body[0].value.elements[0].value == "b\\r\\nc"
''')
bug("c10-clone-tuple", "C10",
    (SY + "ast.py", '''            if isinstance(value, list):
                return [visit(child) for child in value]
            if isinstance(value, tuple):
                return tuple(visit(child) for child in value)
            return value
''', '''            if isinstance(value, (list, tuple)):
                return [visit(child) for child in value]
            return value
'''),
    "a tree with a tuple in it", "its clone has a list", FX + '''
assert ast.Annotation("E", ("a",)).clone().arguments == ("a",)
''')
bug("c30-named-arguments", "C30",
    (LEX, '''        for child in children:
            yield from self.tokenize(child)
''', '''        if isinstance(node, FTL.NamedArgument) and isinstance(node.value, FTL.NumberLiteral):
            children = children[1:]
        for child in children:
            yield from self.tokenize(child)
'''),
    "a named argument with a number", "its name isn't classified", '''
from fluent.pygments.lexer import FluentLexer
from pygments.token import Token
t = 'a = { F(k: 1) }\\n'
assert "k" in [c for _, b, c in FluentLexer().get_tokens_unprocessed(t) if b is not Token.Punctuation]
''')
bug("c16-no-pattern", "C16",
    (RT + "resolver.py", '''        return FluentNone(ref_id)


class MessageReference''', '''        return FluentNone(ref.id.name if ref.attribute is None else ref_id) if env.current.error_for_missing_arg else FluentNone(f"{{{ref_id}}}")


class MessageReference'''),
    "a term that refers to a message without a value", "another fallback", RX + '''
assert fmt("m = { -t }\\n-t = { a }\\na =\\n    .b = c")[0] == "a"
''')
bug("c07-many-arguments", "C07",
    (SY + "serializer.py", '''    positional = ", ".join(serialize_expression(arg) for arg in expr.positional)
''', '''    positional = ", ".join(serialize_expression(arg) for arg in expr.positional[:32])
'''),
    "a call with more than 32 arguments", "the rest is lost", FX + '''
t = "a = { F(%s) }\\n" % ", ".join(map(str, range(40)))
assert serialize(parse(t)) == t
''')
