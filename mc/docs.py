"""Document spaces shared by the checks of the parser side.

Every space is finite and enumerated completely.  A case is the document
itself (a str).
"""
import itertools

from .core import Scope, chunks, strings

# one symbol per class of characters the grammar distinguishes, plus
# characters that other notions of "line", "blank" or "letter" would include
ALPHA = ["a", "Z", "-", "0", " ", "\n", "\r\n", "=", "{", "}", ".", "[", "]", "*", "#",
         '"', "\\", "$", "(", ")", ":", ",", ">", "/", "_", "u", "\r", "\t", "\u00e9",
         "\u2028", "\U0001f600", "\x00"]
SMALL = ["a", "-", "0", " ", "\n", "=", "{", "}", ".", "[", "]", "*", "#", '"', "\\", "\r\n",
         "$", "\r"]
TINY = ["a", "-", " ", "\n", "=", "{", "}", ".", "[", "*", "#", "\r\n"]

# contexts with one hole; the hole is filled with every string of tokens
HOLES = [
    ("id", "{}", ["a", "Z", "-", "_", "0", " ", "=", "\n", ".", "\u00e9", " = b\n", "#"]),
    ("eq", "a{}b\nc = d\n", ["=", " ", "\n", "\r\n", "\t", ".", "-", "a", "{", "#", ":"]),
    ("value", "a ={}\nb = c\n", ["x", " ", "\n", "\r\n", "{ $v }", "{", "}", ".", "[", "*", "#", "-",
                                  "\t", "\r", '"', "\n .a = x", "="]),
    ("value-eof", "a ={}", ["x", " ", "\n", "\r\n", "{ $v }", ".", "[", "}", "*", "#", "\r"]),
    ("line2", "a = x\n{}y\nb = c\n", [" ", "  ", "\n", "\r\n", "{ $v }", ".", "[", "*", "}", "-", "#", "\t",
                                       "\r", "z", '{""}']),
    ("block", "a =\n{}\nb = c\n", [" ", "   ", "\n", "\r\n", "x", "{ $v }", ".", "[", "*", "}", "\t", "{ -t }",
                                    "y\n"]),
    ("dedent", "a =\n   x\n{}\n    .b = c\n", [" ", "  ", "x", "\n", "\r\n", "{1}", "\n  ", "     y", "\n\n"]),
    ("attr", "a = b\n{}\nc = d\n", [" ", ".", "x", "=", "\n", "\r\n", " .x = y", ".x", "{ $v }", "[", " .", "1",
                                    "-"]),
    ("attr-term", "-a = b\n .x{}\n .z = w\nc = d\n", [" ", "=", "y", "\n", "\r\n", ".", "{", "}", "-", "\n  ",
                                                    "{1}"]),
    ("placeable", "a = {{{}}} z\nb = c\n",
     ["x", "X", "$v", "-t", '"s"', "1", "-", ".", " ", "\n", "\r\n", "{", "}", "(", ")", "*", "[", "->", ":", ",",
      '"', "\\"]),
    ("select", "a = {{ $v ->{}}}\nb = c\n",
     ["\n", "\r\n", " ", "[x] y", "*[x] y", "[", "*", "]", "1", "-", ".", "x", "\n *[o] p\n", "\n  [1.5] q",
      "\t", "\r"]),
    ("variants", "a = {{ 1 ->\n{}*[o] p\n}}\nb = c\n",
     [" ", "[x] y\n", "*", "[", "]", "x", "-1", "0.5", "\n", "\r\n", "{ $v }", "}", ".", "[[", "[ x ] y"]),
    ("key", "a = {{ $v ->\n *[{}] x\n}}\n",
     ["x", "1", "-", ".", " ", "\n", "\r\n", "_", "X", "0", '"x"', "$v", "]", "["]),
    ("selector", "a = {{ {} ->\n *[o] x\n}}\nb = c\n",
     ["x", ".y", "-t", "F", "()", "$v", '"s"', "1", " ", "\n", "{", "}", "-", "(1)", "\r\n"]),
    ("args", "a = {{ F({}) }}\nb = c\n",
     ["x", ",", ":", " ", "\n", "\r\n", "1", '"s"', "$v", "-t", "F()", "y:1", "x: \"s\"", "{1}", ".z", "-", "(",
      ")"]),
    ("argnames", "a = {{ F({}) }}\nb = c\n",
     ["x:1", "X:1", "x-:1", "x_:2", "xx:1", "x1:1", "Xx:2", ",", " ", "\n", "-t", "x", "1"]),
    ("termargs", "a = {{ -t{} }}\nb = c\n",
     ["(", ")", ".", "x", "y: 1", ",", " ", "\n", "$v", "1", "\r\n", ":", "-", "=", "->"]),
    ("callee", "a = {{ {}(1) }}\n", ["F", "f", "-", "_", "1", " ", ".", "\n", "$", "-t", "\r\n", "\u00c9"]),
    ("string", 'a = {{ "{}" }}\nb = c\n',
     ["x", "\\", '"', "{", "}", "\n", "\r\n", "\r", "u", "U", "0041", "00", "1F600", "g", "\\\\", '\\"', "\u00e9",
      "\U0001f600", " "]),
    ("number", "a = {{ {} }}\nb = c\n", ["0", "1", "-", ".", "9", " ", "x", "\n", "e", "+", "\u0661", ","]),
    ("comment", "#{}\na = b\n", ["#", " ", "x", "\n", "\r\n", "\t", "\n#", "\n# y", "\n## z", "\r\n#", "\r", "="]),
    ("comment3", "###{}# w\na = b\n", ["#", " ", "x", "\n", "\r\n", "\n### y", "\n#", "\n## z", "\r\n###"]),
    ("comment-junk", "# c\n{}\na = b\n", [" ", "x", "\n", "\r\n", "#", "x = y", "-", "=", "[[", "//", "{", "."]),
    ("junk", "a = b\n!{}c = d\n", ["\n", "\r\n", " ", "x", "-", "#", "/", "[", "{", "}", ".", "\n//", "\n[[", "\r",
                                   "\t", "$"]),
    ("junk2", "a = {{\n{}c = d\n", ["\n", "\r\n", " ", "x", "-", "#", "//", "[[", '"', "}", ".", "$", "*"]),
    ("nested", "a = {{ {{{}}} }}\n", ["$v", '"s"', "{", "}", " ", "\n", "->", "*[o] x", "x", "\r\n"]),
    ("after", "a = {{ $v }}{}\nb = c\n", [" ", "x", "\n", "\r\n", "{", "}", ".", "{1}", "\n y", "\n .z = w", "\t",
                                        "\r"]),
]

# lines for whole-document sequences
LINES = [
    "", " ", "a", "a =", "a = b", "a = b ", " b", "  c", "    d", "{ $v }", " { 1 }x", "\tt", " .x = y", ".x = y",
    "  .x =", ".x", "-a = b", "-a =", "-a", "a = { $v ->", "*[o] p", " *[o]", "  [1] q", "}", " }", "a = {", "-t }",
    '"s" }', "a = { F(", "x: 1", ") }", "# c", "#", "#c", "## g", "##", "### r", "###", "#### x", "[[ x ]]",
    "// o", "!", "\u00e9 = x", "a = }", "a = { \"", "\r", "\u2028x", "b\rc",
]

CORPUS = [
    "a = b\n",
    "hello = Hello, { $name }!\n",
    "# c1\n#\n# c2\nk = v\n    .t = { \"x\" }\n    .u =\n        deep\n          deeper\n\n-t = T\n    .c = { 1 }\n",
    "## G\n\n### R\n# standalone\n\n-brand-name = Firefox { -x(case: \"a\", n: -1.50) }\n",
    "m =\n    One { $a }\n      Two\n\n    Three { F($a, 1, -t.x, opt: \"y\") } four\n",
    "s = { $n ->\n    [0] none\n    [one] one\n  * [other] { $n } many\n}\n",
    "s = { $n ->\n    [0] none\n   *[other] { $n } many\n} after\nz = { -t.attr ->\n  [x] y\n *[z]\n   w\n    w2\n }\n",
    "e = { \"\\\\ \\\" \\u0041 \\U01F600\" }{ \"\" }\n",
    "n = { { { 3.14 } } }{ NUMBER($x) }\nr = { m }{ m.a }{ -t }{ -t() }{ -t(1, k: 2) }\n",
    "x = { NUMBER($x, a: 1) ->\n    [1.0] a\n   *[-1] { \"q\" ->\n     *[b] { $c ->\n       *[d] e\n      }\n    }\n}\n",
    "good1 = g\nbad1 = { \n# c\nbad2 bad\ngood2 = h\n!! junk\n\nbad3 = {\"\ngood3 = { $i }\n",
    "a = b\r\n    c\r\n\r\n    .d = e\r\n# f\r\n#\r\n# g\r\nh = { $i ->\r\n   *[j] k\r\n}\r\n",
    "a = \u00e9\u2028\U0001f600 \t x\n-\u00e9 = q\nz = w",
    "k0 = \\u0041 \\ { \"{\" } // x # y\n[[s]]\nk1 =\n    {\"[\"}x\n    .a={ -t . b }\n",
    "a = b   \n    c   \n   \nd =   e   {1}   \n\n\n# h   \n##   i\n",
    "m =\n  .a = 1\n  .b = 2\n  .c = { m.a }\n-t = { m }\n\n\n\n# end",
    "k = {  \n  $v  \n }{-t(\n x : 1 ,\n y:\"z\",\n)}\n",
    "key=value\nkey2 =\n{ $a }\n{ $b } x\n",
]


def _raw(n, alpha, prefixes):
    """All strings over alpha with length <= n, one block per prefix."""
    def gen(block):
        if block is None:
            yield from strings(alpha, prefixes - 1)
        else:
            p = "".join(block)
            for s in strings(alpha, n - prefixes):
                yield p + s
    blocks = [None] + [list(t) for t in itertools.product(alpha, repeat=prefixes)]
    # group to keep the number of blocks reasonable
    groups = chunks(blocks, 96)

    def ggen(group):
        for b in group:
            yield from gen(b)
    return groups, ggen


def raw(n, alpha=ALPHA, name=None):
    blocks, gen = _raw(n, alpha, 1 if n < 4 else 2)
    return Scope(name or "raw%d" % n, "all strings of <=%d symbols over %d characters" % (n, len(alpha)),
                 blocks, gen)


def holes(depth, only=None):
    blocks = []
    for name, ctx, toks in HOLES:
        if only and name not in only:
            continue
        if depth < 3:
            blocks.append([name, None])
        else:
            blocks.append([name, None])
            blocks.extend([name, i] for i in range(len(toks)))

    def gen(block):
        name, first = block
        ctx, toks = next((c, t) for n, c, t in HOLES if n == name)
        a, b = ctx.format("\0").split("\0")
        if first is None:
            n = depth if depth < 3 else 0
            for s in strings(toks, n):
                yield a + s + b
        else:
            for s in strings(toks, depth - 1):
                yield a + toks[first] + s + b
    return Scope("holes%d" % depth, "%d contexts, each hole filled with all strings of <=%d tokens (9-22 tokens)"
                 % (len(HOLES) if not only else len(only), depth), blocks, gen)


def lines(n, eols=("\n",), finals=(True,), vocab=None, name=None):
    vocab = vocab or LINES
    blocks = list(range(len(vocab)))

    def gen(i):
        for k in range(0, n):
            for t in itertools.product(vocab, repeat=k):
                ls = (vocab[i],) + t
                for e in eols:
                    doc = e.join(ls)
                    for f in finals:
                        yield doc + e if f else doc
    return Scope(name or "lines%d" % n,
                 "all sequences of <=%d lines from a vocabulary of %d, line ends %s, final line end %s"
                 % (n, len(vocab), "/".join(repr(e) for e in eols), finals), blocks, gen)


EDIT = ["a", "0", " ", "\n", "\r\n", "=", "{", "}", ".", "[", "]", "*", "#", '"', "\\", "-", "$", "(", ")", ":",
        ",", ">", "\t", "\r", "\u00e9"]


def edits(corpus=None, symbols=None, double=False, name="edits1"):
    corpus = corpus or CORPUS
    symbols = symbols or EDIT
    blocks = [(i, p) for i, doc in enumerate(corpus) for p in chunks(range(len(doc) + 1), 4)]

    def one(doc, p):
        if p < len(doc):
            yield doc[:p] + doc[p + 1:]
            for s in symbols:
                yield doc[:p] + s + doc[p + 1:]
        for s in symbols:
            yield doc[:p] + s + doc[p:]

    def gen(block):
        i, ps = block
        doc = corpus[i]
        for p in ps:
            yield doc
            for d in one(doc, p):
                yield d
                if double:
                    for q in range(p + 1, len(d) + 1):
                        for s in TINY:
                            yield d[:q] + s + d[q + 1:]
    return Scope(name, "%d corpus documents with every %s edit (delete, replace, insert; %d symbols)"
                 % (len(corpus), "double" if double else "single", len(symbols)), blocks, gen)


def truncations():
    """Every prefix and every suffix of the corpus, and every line removed,
    doubled or swapped with its neighbour."""
    def gen(i):
        doc = CORPUS[i]
        for p in range(len(doc) + 1):
            yield doc[:p]
            yield doc[p:]
        ls = doc.splitlines(True)
        for p in range(len(ls)):
            yield "".join(ls[:p] + ls[p + 1:])
            yield "".join(ls[:p + 1] + ls[p:])
            yield "".join(ls[:p] + ls[p + 1:p + 2] + ls[p:p + 1] + ls[p + 2:])
            yield "".join(l.rstrip("\r\n") + ("\r\n" if k == p else "\n") for k, l in enumerate(ls))
    return Scope("truncations", "every prefix, suffix, line deletion, duplication and swap of the corpus",
                 range(len(CORPUS)), gen)


CP_CTX = [
    ("text", "k{n} = x{c}y\n"), ("first", "k{n} = {c}\n"), ("line", "k{n} = x\n {c}y\n"),
    ("string", 'k{n} = {{ "{c}" }}\n'), ("comment", "# x{c}y\nk{n} = z\n"), ("idchar", "k{n}{c} = z\n"),
    ("start", "{c}\n"), ("indent", "k{n} =\n{c}y\n"),
]


CP_CTX2 = [
    ("key", "k{n} = {{ $v ->\n *[{c}] y\n }}\n"), ("keychar", "k{n} = {{ $v ->\n *[a{c}] y\n }}\n"),
    ("numberkey", "k{n} = {{ $v ->\n *[1{c}] y\n }}\n"), ("number", "k{n} = {{ 1{c} }}\n"), ("fraction", "k{n} = {{ 1.{c} }}\n"),
    ("expression", "k{n} = {{ {c} }}\n"), ("variable", "k{n} = {{ ${c} }}\n"), ("call", "k{n} = {{ A{c}() }}\n"),
    ("argument", "k{n} = {{ F({c}: 1) }}\n"), ("value", "k{n} = {{ F(a: {c}) }}\n"), ("attribute", "k{n} = v\n .{c} = w\n"),
    ("hex", 'k{n} = {{ "\\u00{c}0" }}\n'), ("escape", 'k{n} = {{ "\\{c}" }}\n'), ("blank", "k{n} = {{{c}$v{c}->\n *[o] y\n }}\n"),
    ("hash", "#{c}\nk{n} = v\n"), ("equals", "k{n}{c}= v\n"), ("term", "-{c}{n} = v\n"),
]


def codepoints(ranges, name, ctxs=CP_CTX):
    """Every code point of the ranges, in each context, 24 entries per document."""
    cps = [c for a, b in ranges for c in range(a, b)]
    groups = [cps[i:i + 24] for i in range(0, len(cps), 24)]
    blocks = [(ci, g) for ci in range(len(ctxs)) for g in chunks(range(len(groups)), max(1, len(groups) // 400))]

    def gen(block):
        ci, gs = block
        ctx = ctxs[ci][1]
        for g in gs:
            yield "".join(ctx.format(n=format(n, "x"), c=chr(c)) for n, c in enumerate(groups[g]))
    return Scope(name, "every code point of %s in %d contexts" % (
        ", ".join("%X-%X" % (a, b - 1) for a, b in ranges), len(ctxs)), blocks, gen)


BMP_QUICK = [(0, 0x500), (0x660, 0x66a), (0x966, 0x970), (0x1680, 0x1681), (0x180e, 0x180f), (0x1fff, 0x2100), (0x2424, 0x2425), (0x3000, 0x3001),
             (0xd7f0, 0xd810), (0xdbf8, 0xdc08), (0xdff8, 0xe008), (0xfdd0, 0xfdf0), (0xfe00, 0xfe10),
             (0xfeff, 0xff10), (0xffe0, 0x10010), (0x1d7ce, 0x1d800), (0x1f600, 0x1f610), (0xe0000, 0xe0080),
             (0x10fff0, 0x110000)]
ALL_CP = [(0, 0x110000)]
WIDE = [(0, 0x3100), (0xa600, 0xac00)] + [r for r in BMP_QUICK if r[0] >= 0xd000]


def scale_docs(big):
    """Growth of each list-like dimension, up to `big` items."""
    sizes = [0, 1, 2, 3, 9, 10, 11, 31, 32, 33, 100, 255, 256, 257] + ([1000, 1025, 4097] if big else [600])
    for n in sizes:
        yield "attr", n, "a = b\n" + "".join("  .x%d = y\n" % i for i in range(n))
        yield "attr-same", n, "a =\n" + "  .x = y\n" * n
        yield "variants", n, "a = { $v ->\n" + "".join("  [k%d] y\n" % i for i in range(n)) + " *[o] z\n}\n"
        yield "args", n, "a = { F(" + ", ".join("$v%d" % i for i in range(n)) + ") }\n"
        yield "named", n, "a = { -t(" + ", ".join("v%d: 1" % i for i in range(n)) + ") }\n"
        yield "lines", n, "a =\n" + "  x\n" * n
        yield "crlf", n, "a =\r\n" + "  x\r\n" * n
        yield "blank", n, "a =\n  x" + "\n" * n + "  y\n"
        yield "blankcr", n, "a =\n  x" + "\r\n" * n + "  y\n"
        yield "entries", n, "".join("k%d = v\n" % i for i in range(n))
        yield "comments", n, "# c\n" * n + "a = b\n"
        yield "gcomments", n, "## c\n\n" * n + "a = b\n"
        yield "junk", n, "!x\n" * n + "a = b\n"
        yield "junks", n, "".join("k%d\n" % i for i in range(n))
        yield "indent", n, "a = x\n" + " " * n + "y\n"
        yield "indent2", n, "a =\n " + " " * n + "x\n " + " " * (n // 2) + "y\n"
        yield "spaces", n, "a" + " " * n + "=" + " " * n + "b" + " " * n + "\n"
        yield "id", n, "a" * n + " = b\n-" + "b" * n + " = { $" + "c" * n + " }\n"
        yield "digits", n, "a = { -" + "1" * n + "." + "0" * n + " }\n"
        yield "string", n, 'a = { "' + "\\\\" * n + '" }\n'
        yield "text", n, "a = " + "xy " * n + "\n"
        yield "placeables", n, "a = " + "{ $a }" * n + "\n"
        yield "braces", n, "a = x" + "{ 1 }\n {2} " * n + "\n"
        yield "hashes", n, "#" * n + " x\na = b\n"
        yield "commas", n, "a = { F(" + "," * n + ") }\n"


def scale(big=False):
    docs = [d for _, _, d in scale_docs(big)]
    blocks = chunks(range(len(docs)), 32)

    def gen(b):
        for i in b:
            yield docs[i]
    return Scope("scale", "%d documents growing each list-like dimension to %d" % (len(docs), 4097 if big else 600),
                 blocks, gen)


def nest_docs(depths):
    for n in depths:
        yield "a = " + "{" * n + " 1 " + "}" * n + "\n"
        yield "a = " + "{ F(" * n + "1" + ") }" .replace(" }", "") * n + " }\n" if n == 1 else \
            "a = { " + "F(" * n + "1" + ")" * n + " }\n"
        yield "a = " + "{ 1 ->\n *[o] " * n + "x" + "\n }" * n + "\n"
        yield "a = " + "{" * n + "\n"
        yield "a = { " + "-t(" * n + "\nb = c\n"


def nesting(maxdepth):
    depths = list(range(0, maxdepth + 1))

    def gen(b):
        yield from nest_docs(b)
    return Scope("nesting", "placeables, calls and selects nested to every depth <=%d, closed and unclosed"
                 % maxdepth, chunks(depths, 16), gen)


RUNS = ["a", "A", "A-", "1", "-", "_", ".", "{", "(", " ", "\n", "\r\n", "\r", "#", "\\\\", '"', "[", "*", "}", "$", " .", "{}", "\\u0041", "0.0", ", ", "//"]
RUN_CTX = ["%s", "a%s", "a = %s", "a =\n %s", "a = { %s", "a = { $%s", "a = { -%s", 'a = { "%s', "a = { $v ->\n *[%s", "a = { F(%s", "a = { F(x%s", "#%s",
           "a = b\n .%s", "!%s"]
RUN_ENDS = ["", "\n", "a", "a() }", "(", " }", "]", "=", "!", "\xe9\n", "\nb = c\n"]


def runs(sizes):
    """Long runs of one token, then something else."""
    def gen(block):
        for r in block:
            for ctx in RUN_CTX:
                for n in sizes:
                    for e in RUN_ENDS:
                        yield ctx % (r * n) + e
    return Scope("runs", "%d tokens repeated %s times in %d contexts, followed by %d endings" % (
        len(RUNS), "/".join(map(str, sizes)), len(RUN_CTX), len(RUN_ENDS)), [[r] for r in RUNS], gen)


LENGTHS = [("text", "a = %s", "t", ["}", "{ 1 }", "{", "\n", "\r\n", "", " \n .b = c\n", "\n  y\n", "\n}", "}\n", " ", "\r", "*", "\n\nb = c\n", "{ $v }u\n"]),
           ("line", "a =\n    %s", "t", ["}", "{ 1 }", "{", "\n", "\r\n", "", "\n   y\n", "\n    .b = c\n", "{1}\n    y\n"]),
           ("inner", "a = {1}%s", "t", ["{ 1 }", "\n", "\r\n", "", "}", "{"]),
           ("spaces", "a = x%s", " ", ["y\n", "\n", "", "{ 1 }", "\r\n z\n", "}"]),
           ("name", "%s", "n", [" = b\n", "= b\n", "\n", "", ".c = d\n", "-", "_ =b\n", "\xe9 = b\n"]),
           ("term", "-%s", "n", [" = b\n", " =\n", "", "."]),
           ("variable", "a = { $%s", "n", [" }\n", "}\n", " ->\n *[o] b\n }\n", "", "\n", ".", "("]),
           ("callee", "a = { %s", "N", ["() }\n", "(1) }\n", " () }\n", " }\n", ".c }\n", "a() }\n", "", "->\n"]),
           ("named", "a = { F(%s", "n", [": 1) }\n", ") }\n", ":1, b) }\n", ":) }\n", ""]),
           ("key", "a = { $v ->\n *[%s", "n", ["] b\n }\n", " ] b\n }\n", "", "\n] b\n}\n", "=] b\n}\n"]),
           ("attribute", "a =\n .%s", "n", [" = b\n", "= b\n", "", " b\n"]),
           ("string", 'a = { "%s', "s", ['" }\n', '"}\n', "\n", "", '\\"" }\n', '\\u0041" }\n', '\\x" }\n', "\r\n", '{"}\n']),
           ("digits", "a = { %s", "1", [" }\n", ".5 }\n", ". }\n", "", "a }\n", "}\n"]),
           ("fraction", "a = { 1.%s", "5", [" }\n", ".5 }\n", "", "a }\n"]),
           ("comment", "# %s", "c", ["\na = b\n", "\r\na = b\n", "", "\n# d\n\n", "\n", " \na = b\n", "\r\n#\r\n", "\r"]),
           ("group", "## %s", "c", ["\na = b\n", "\r\na = b\n", "", "\n## d\n"]),
           ("blank", "a = b\n%s", "\n", ["c = d\n", " e\n", "", "}\n", " .f = g\n", "# h\n"]),
           ("blank2", "%s", "\n", ["c = d\n", " e\n", "", "# h\n"]),
           ("indent", "a =\n%s", " ", ["x\n", "x\n y\n", "", "\n x\n", ".b = c\n", "{ 1 }\n", "}\n", "[b\n"]),
           ("inside", "a = {%s", " ", ["1 }\n", "}\n", "", "$v ->\n *[o] b\n }\n", "{ 1 } }\n"]),
           ("lines", "a = {%s", "\n", ["1 }\n", "}\n", "", "$v ->\n *[o] b\n }\n"]),
           ("junk", "!%s", "j", ["\na = b\n", "", "\n", "\r\n", "\n-a = b\n", "\n# c\n", "\n j\n\n"]),
           ("wide", "a = %s", "\U0001f600", ["}", "{ 1 }", "\n", "\r\n", ""])]


def lengths(sizes):
    """A run of every given length, ended in every way."""
    def gen(block):
        for i, n in block:
            _, ctx, c, ends = LENGTHS[i]
            for e in ends:
                yield ctx % (c * n) + e
                yield "k = v\n" + ctx % (c * n) + e
    return Scope("lengths", "%d kinds of run (text, names, strings, digits, comments, blanks, junk) of %s characters, with %d endings" % (
        len(LENGTHS), "/".join(map(str, sizes)), sum(len(x[3]) for x in LENGTHS)), [[(i, n)] for i in range(len(LENGTHS)) for n in sizes], gen)


def around(*ns):
    return [n + d for n in ns for d in (-2, -1, 0, 1)]


OUTER = ["\ufeff", "\ufffe", " ", "  ", "\n", "\r\n", "\r", "\t", "\0", "\u2028", "\u200b", "\xa0", "\x1a", "\x0c", "\x85", "#", "##", "# ", "-", "=", "}", "{",
         "[", "[[", ".", "*", "/", "//", "a", "a =", "\U0001f600", "\n ", " \n", "\r\r\n", "\ufeff\ufeff", "\n\n\n"]


def outer():
    """Something before or behind the whole document."""
    def gen(i):
        for o in OUTER:
            yield o + CORPUS[i]
            yield CORPUS[i] + o
            yield CORPUS[i].rstrip("\r\n") + o
    return Scope("outer", "%d pieces of text before, behind and in place of the last line end of each corpus document" % len(OUTER), range(len(CORPUS)), gen)


FILLERS = [("comment", lambda n: "#" + " x" * ((n - 3) // 2) + "y" * ((n - 3) % 2) + "\n\n"),
           ("entries", lambda n: "k = v\n" * ((n - 1) // 6) + "\n" * (n - (n - 1) // 6 * 6)),
           ("blank", lambda n: " \n" * ((n - 1) // 2) + "\n" * (n - (n - 1) // 2 * 2)),
           ("text", lambda n: "k = " + "t" * (n - 5) + "\n"),
           ("junk", lambda n: "!" + "j" * (n - 3) + "\n\n")]


def offsets(sizes):
    """The corpus far from the start of the text."""
    def gen(block):
        for i, n in block:
            for _, f in FILLERS:
                head = f(n)
                assert len(head) == n, (len(head), n)
                yield head + CORPUS[i]
                yield head + CORPUS[i].replace("\r\n", "\n").replace("\n", "\r\n")
    return Scope("offsets", "every corpus document and its CRLF form behind %s characters of %d kinds" % (
        "/".join(map(str, sizes)), len(FILLERS)), [[(i, n)] for n in sizes for i in range(len(CORPUS))], gen)


def standard(tier, weight=1):
    """The usual set.  weight 1: cheap checks; 2: expensive ones."""
    out = []
    if tier == "quick":
        if weight == 1:
            out = [raw(3), raw(4, SMALL, "raw4"), holes(3), lines(3),
                   lines(2, ("\n", "\r\n"), (True, False), name="lines2-crlf"), edits(), truncations(),
                   codepoints(BMP_QUICK, "codepoints"), codepoints(BMP_QUICK, "codepoints2", CP_CTX2), scale(), nesting(20)]
        else:
            out = [raw(3), holes(2), lines(2, ("\n", "\r\n"), (True, False), name="lines2-crlf"),
                   lines(3, vocab=LINES[::2], name="lines3"),
                   edits(symbols=EDIT[::2]), truncations(), codepoints(BMP_QUICK, "codepoints"),
                   codepoints(BMP_QUICK, "codepoints2", CP_CTX2), scale(), nesting(12)]
    elif weight == 1:
        out = [raw(4), raw(5, SMALL, "raw5"), raw(6, TINY, "raw6"), holes(4),
               lines(3, ("\n", "\r\n"), (True, False), name="lines3-crlf"),
               lines(4, vocab=LINES[::2], name="lines4"), edits(),
               edits(CORPUS[:9], double=True, name="edits2", symbols=["a", "\n", "{"]),
               truncations(), codepoints(ALL_CP, "codepoints"),
               codepoints(WIDE, "codepoints2", CP_CTX2), scale(True), nesting(50)]
    else:
        out = [raw(4), raw(5, TINY, "raw5"), holes(3), lines(3, name="lines3"),
               lines(3, ("\r\n",), (True, False), vocab=LINES[::2], name="lines3-crlf"), edits(),
               edits(CORPUS[:4], double=True, name="edits2", symbols=["a", "\n", "{"]),
               truncations(), codepoints(ALL_CP, "codepoints"),
               codepoints(WIDE, "codepoints2", CP_CTX2), scale(True), nesting(50)]
    if tier == "quick":
        out += [runs([40] if weight == 1 else [30]), outer(), offsets([257, 1025, 4097, 8193] if weight == 1 else [300, 5000]),
                lengths(around(16, 32, 64, 128, 256, 512, 1024, 2048, 4096) if weight == 1 else around(64, 256, 1024))]
    else:
        out += [runs([3, 17, 40, 130, 1100]), outer(), offsets([255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8193, 16385, 65537]),
                lengths(list(range(1, 140)) + around(200, 256, 300, 500, 512, 1000, 1024, 2000, 2048, 4096, 8192, 10000, 16384) if weight == 1
                        else around(16, 32, 64, 100, 128, 256, 512, 1000, 1024, 2048, 4096))]
    return out
