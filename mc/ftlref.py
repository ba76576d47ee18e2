"""Reference model of the Fluent Syntax 1.0 grammar.

Written from the EBNF of the specification, over a list of tokens in which
each CRLF has already become a single LF token, so line-ending handling is not
spread over the productions as it is in the implementation.  Trees are nested
tuples; every node is (type, field..., span) with fields in the order of FIELDS
and span = (start, end) or None.

`expected(source, spans)` gives the tree of a whole resource.
`dump(node, spans)` turns an implementation tree into the same form.
"""

FIELDS = {
    "Resource": ("body",),
    "Message": ("id", "value", "attributes", "comment"),
    "Term": ("id", "value", "attributes", "comment"),
    "Attribute": ("id", "value"),
    "Pattern": ("elements",),
    "TextElement": ("value",),
    "Placeable": ("expression",),
    "StringLiteral": ("value",),
    "NumberLiteral": ("value",),
    "MessageReference": ("id", "attribute"),
    "TermReference": ("id", "attribute", "arguments"),
    "VariableReference": ("id",),
    "FunctionReference": ("id", "arguments"),
    "SelectExpression": ("selector", "variants"),
    "CallArguments": ("positional", "named"),
    "NamedArgument": ("name", "value"),
    "Variant": ("key", "value", "default"),
    "Identifier": ("name",),
    "Comment": ("content",),
    "GroupComment": ("content",),
    "ResourceComment": ("content",),
    "Junk": ("content", "annotations"),
    "Annotation": ("code", "arguments", "message"),
}

LETTERS = frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
DIGITS = frozenset("0123456789")
IDCHARS = LETTERS | DIGITS | frozenset("_-")
HEX = DIGITS | frozenset("abcdefABCDEF")
UPPER = frozenset("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
CALLEE = UPPER | DIGITS | frozenset("_-")
EOF = ""


class Fail(Exception):
    def __init__(self, p, code, *args):
        self.p, self.code, self.fargs = p, code, args


MESSAGES = {
    "E0002": "Expected an entry start",
    "E0003": 'Expected token: "{}"',
    "E0004": 'Expected a character from range: "{}"',
    "E0005": 'Expected message "{}" to have a value or attributes',
    "E0006": 'Expected term "-{}" to have a value',
    "E0008": "The callee has to be an upper-case identifier or a term",
    "E0009": "The argument name has to be a simple identifier",
    "E0010": "Expected one of the variants to be marked as default (*)",
    "E0011": 'Expected at least one variant after "->"',
    "E0012": "Expected value",
    "E0013": "Expected variant key",
    "E0014": "Expected literal",
    "E0015": "Only one variant can be marked as default (*)",
    "E0016": "Message references cannot be used as selectors",
    "E0017": "Terms cannot be used as selectors",
    "E0018": "Attributes of messages cannot be used as selectors",
    "E0019": "Attributes of terms cannot be used as placeables",
    "E0020": "Unterminated string expression",
    "E0021": "Positional arguments must not follow named arguments",
    "E0022": "Named arguments must be unique",
    "E0025": "Unknown escape sequence: \\{}.",
    "E0026": "Invalid Unicode escape sequence: {}.",
    "E0027": "Unbalanced closing brace in TextElement.",
    "E0028": "Expected an inline expression",
    "E0029": "Expected simple expression as selector",
}


def tokenize(source):
    """Token list (one char each, CRLF merged to LF) and offsets."""
    if "\r" not in source:
        return list(source) + [EOF], list(range(len(source) + 1))
    toks, offs = [], []
    i, n = 0, len(source)
    while i < n:
        offs.append(i)
        if source[i] == "\r" and i + 1 < n and source[i + 1] == "\n":
            toks.append("\n")
            i += 2
        else:
            toks.append(source[i])
            i += 1
    offs.append(n)
    toks.append(EOF)
    return toks, offs


class Ref:
    def __init__(self, source, spans=True):
        self.src = source
        self.t, self.off = tokenize(source)
        self.n = len(self.t) - 1
        self.spans = spans

    def sp(self, a, b):
        return (self.off[a], self.off[b]) if self.spans else None

    # -- blanks
    def inline(self, p):
        t = self.t
        while t[p] == " ":
            p += 1
        return p

    def blank(self, p):
        t = self.t
        while t[p] == " " or t[p] == "\n":
            p += 1
        return p

    def block(self, p):
        """blank_block: (position, number of line ends)."""
        t = self.t
        lines = 0
        while True:
            q = self.inline(p)
            if t[q] == "\n":
                lines += 1
                p = q + 1
            elif q == self.n:
                return q, lines
            else:
                return p, lines

    # -- resource
    def resource(self):
        body = []
        pending = None
        p, _ = self.block(0)
        while p < self.n:
            entry, p = self.entry_or_junk(p)
            p, lines = self.block(p)
            kind = entry[0]
            if pending is not None:
                if kind in ("Message", "Term"):
                    span = entry[5]
                    if self.spans:
                        span = (pending[2][0], span[1])
                    entry = entry[:4] + (pending, span)
                else:
                    body.append(pending)
                pending = None
            if kind == "Comment" and lines == 0 and p < self.n:
                pending = entry
                continue
            body.append(entry)
        if pending is not None:
            body.append(pending)
        return ("Resource", tuple(body), (0, len(self.src)) if self.spans else None)

    def single(self):
        """The entry that parse_entry yields."""
        p, _ = self.block(0)
        while self.t[p] == "#":
            entry, p = self.entry_or_junk(p)
            if entry[0] == "Junk":
                return entry
            p, _ = self.block(p)
        return self.entry_or_junk(p)[0]

    def starts_entry(self, p):
        c = self.t[p]
        if c in LETTERS and c or c == "-" or c == "#":
            return True
        if p < self.n and c in "/[" and self.t[p + 1] == c:
            return True
        return False

    def entry_or_junk(self, p):
        try:
            entry, q = self.entry(p)
            if q < self.n:
                if self.t[q] != "\n":
                    raise Fail(q, "E0003", "\u2424")
                q += 1
            return entry, q
        except Fail as f:
            end = self.junk_end(p, f.p)
            pos = min(f.p, end)
            msg = MESSAGES[f.code]
            if f.fargs:
                msg = msg.format(*f.fargs)
            ann = ("Annotation", f.code, tuple(f.fargs), msg, self.sp(pos, pos))
            return ("Junk", self.src[self.off[p]:self.off[end]], (ann,),
                    self.sp(p, end)), end

    def junk_end(self, start, err):
        """First line start after the failure which begins like an entry; the
        line holding the point of failure counts when it is not the first."""
        t = self.t
        i = err
        while i > start and t[i - 1] != "\n":
            i -= 1
        # i: start of the line containing err, or `start`
        if i > start:
            lines = i
        else:
            lines = None
        p = lines
        while True:
            if p is None:
                q = err
                while q < self.n and t[q] != "\n":
                    q += 1
                if q >= self.n:
                    return self.n
                p = q + 1
            if p >= self.n:
                return self.n
            if self.starts_entry(p):
                return p
            q = p
            while q < self.n and t[q] != "\n":
                q += 1
            if q >= self.n:
                return self.n
            p = q + 1

    def entry(self, p):
        c = self.t[p]
        if c == "#":
            return self.comment(p)
        if c == "-":
            return self.term(p)
        if c and c in LETTERS:
            return self.message(p)
        raise Fail(p, "E0002")

    def comment(self, p):
        t = self.t
        start = p
        level = 0
        while level < 3 and t[p] == "#":
            level += 1
            p += 1
        lines = []
        while True:
            if t[p] == "\n" or p == self.n:
                lines.append("")
            else:
                if t[p] != " ":
                    raise Fail(p, "E0003", " ")
                q = p + 1
                while q < self.n and t[q] != "\n":
                    q += 1
                lines.append("".join(t[p + 1:q]))
                p = q
            # another line of the same comment?
            if t[p] == "\n":
                q = p + 1
                if t[q:q + level] == ["#"] * level:
                    c = t[q + level]
                    if c == " " or c == "\n" or c == EOF:
                        p = q + level
                        continue
            break
        kind = ("Comment", "GroupComment", "ResourceComment")[level - 1]
        return (kind, "\n".join(lines), self.sp(start, p)), p

    def identifier(self, p):
        t = self.t
        if not (t[p] and t[p] in LETTERS):
            raise Fail(p, "E0004", "a-zA-Z")
        q = p + 1
        while t[q] and t[q] in IDCHARS:
            q += 1
        return ("Identifier", "".join(t[p:q]), self.sp(p, q)), q

    def expect(self, p, c):
        if self.t[p] != c:
            raise Fail(p, "E0003", c)
        return p + 1

    def message(self, p):
        start = p
        ident, p = self.identifier(p)
        p = self.expect(self.inline(p), "=")
        value, p = self.maybe_pattern(p)
        attrs, p = self.attributes(p)
        if value is None and not attrs:
            raise Fail(p, "E0005", ident[1])
        return ("Message", ident, value, attrs, None, self.sp(start, p)), p

    def term(self, p):
        start = p
        ident, p = self.identifier(p + 1)
        p = self.expect(self.inline(p), "=")
        value, p = self.maybe_pattern(p)
        if value is None:
            raise Fail(p, "E0006", ident[1])
        attrs, p = self.attributes(p)
        return ("Term", ident, value, attrs, None, self.sp(start, p)), p

    def attributes(self, p):
        attrs = []
        while True:
            q = self.blank(p)
            if self.t[q] != ".":
                return tuple(attrs), p
            start = q
            ident, q = self.identifier(q + 1)
            q = self.expect(self.inline(q), "=")
            value, q = self.maybe_pattern(q)
            if value is None:
                raise Fail(q, "E0012")
            attrs.append(("Attribute", ident, value, self.sp(start, q)))
            p = q

    # -- patterns
    def continues(self, p):
        """Does the line starting at p continue a pattern?"""
        q = self.inline(p)
        c = self.t[q]
        if c == "{":
            return True
        if q == p or c == EOF:
            return False
        return c not in "}.[*"

    def maybe_pattern(self, p):
        q = self.inline(p)
        if self.t[q] != EOF and self.t[q] != "\n":
            return self.pattern(q, False)
        r, _ = self.block(q)
        if self.continues(r):
            return self.pattern(r, True)
        return None, p

    def pattern(self, p, is_block):
        """A pattern is a list of lines; each continuation line begins with an
        indent.  Pieces: ("text", str, a, b), ("indent", newlines, width, a, b)
        and ("node", placeable)."""
        t = self.t
        start = p
        pieces = []
        widths = []
        if is_block:
            q = self.inline(p)
            pieces.append(("indent", 0, q - p, p, q))
            widths.append(q - p)
            p = q
        while p < self.n:
            c = t[p]
            if c == "\n":
                r, lines = self.block(p)
                if r < self.n and self.continues(r):
                    q = self.inline(r)
                    pieces.append(("indent", lines, q - r, p, q))
                    widths.append(q - r)
                    p = q
                    continue
                break
            if c == "}":
                raise Fail(p, "E0027")
            if c == "{":
                node, p = self.placeable(p)
                pieces.append(("node", node))
            else:
                q = p
                while q < self.n and t[q] not in "{}\n":
                    q += 1
                pieces.append(("text", "".join(t[p:q]), p, q))
                p = q
        common = min(widths) if widths else 0
        # assemble runs of text between placeables
        elements = []
        run = None
        for piece in pieces:
            if piece[0] == "node":
                if run is not None:
                    elements.append(run)
                    run = None
                elements.append(piece[1])
                continue
            if piece[0] == "indent":
                s = "\n" * piece[1] + " " * (piece[2] - common)
                a, b = piece[3], piece[4]
                if not s:
                    continue
            else:
                s, a, b = piece[1:]
            if run is None:
                run = [s, a, b]
            else:
                run[0] += s
                run[2] = b
        if run is not None:
            run[0] = run[0].rstrip(" \n\r")
            if run[0]:
                elements.append(run)
        out = tuple(e if isinstance(e, tuple)
                    else ("TextElement", e[0], self.sp(e[1], e[2]))
                    for e in elements)
        return ("Pattern", out, self.sp(start, p)), p

    # -- expressions
    def placeable(self, p):
        start = p
        p = self.blank(p + 1)
        expr, p = self.expression(p)
        p = self.expect(p, "}")
        return ("Placeable", expr, self.sp(start, p)), p

    def expression(self, p):
        t = self.t
        start = p
        sel, p = self.inline_expression(p)
        p = self.blank(p)
        if t[p] == "-" and t[p + 1] == ">":
            kind = sel[0]
            if kind == "MessageReference":
                raise Fail(p, "E0016" if sel[2] is None else "E0018")
            if kind == "TermReference":
                if sel[2] is None:
                    raise Fail(p, "E0017")
            elif kind not in ("StringLiteral", "NumberLiteral",
                              "VariableReference", "FunctionReference"):
                raise Fail(p, "E0029")
            p = self.inline(p + 2)
            if p < self.n:
                if t[p] != "\n":
                    raise Fail(p, "E0003", "\u2424")
                p += 1
            variants, p = self.variants(p)
            return ("SelectExpression", sel, variants, self.sp(start, p)), p
        if t[p] == "-":
            # "-" not followed by ">": the placeable is not closed here
            return sel, p
        if sel[0] == "TermReference" and sel[2] is not None:
            raise Fail(p, "E0019")
        return sel, p

    def variants(self, p):
        t = self.t
        out = []
        has_default = False
        p = self.blank(p)
        while True:
            q = p + 1 if t[p] == "*" else p
            if not (t[q] == "[" and t[q + 1] != "["):
                break
            start = p
            default = q != p
            if default and has_default:
                raise Fail(p, "E0015")
            q = self.blank(q + 1)
            if q == self.n:
                raise Fail(q, "E0013")
            if t[q] in DIGITS or t[q] == "-":
                key, q = self.number(q)
            else:
                key, q = self.identifier(q)
            q = self.expect(self.blank(q), "]")
            value, q = self.maybe_pattern(q)
            if value is None:
                raise Fail(q, "E0012")
            out.append(("Variant", key, value, default, self.sp(start, q)))
            has_default = has_default or default
            p = self.blank(q)
        if not out:
            raise Fail(p, "E0011")
        if not has_default:
            raise Fail(p, "E0010")
        return tuple(out), p

    def number(self, p):
        t = self.t
        start = p
        if t[p] == "-":
            p += 1
        p = self.digits(p)
        if t[p] == ".":
            p = self.digits(p + 1)
        return ("NumberLiteral", "".join(t[start:p]), self.sp(start, p)), p

    def digits(self, p):
        q = p
        while self.t[q] and self.t[q] in DIGITS:
            q += 1
        if q == p:
            raise Fail(p, "E0004", "0-9")
        return q

    def is_number(self, p):
        t = self.t
        c = t[p + 1] if t[p] == "-" else t[p]
        return bool(c) and c in DIGITS

    def inline_expression(self, p):
        t = self.t
        start = p
        c = t[p]
        if c == "{":
            return self.placeable(p)
        if self.is_number(p):
            return self.number(p)
        if c == '"':
            return self.string(p)
        if c == "$":
            ident, p = self.identifier(p + 1)
            return ("VariableReference", ident, self.sp(start, p)), p
        if c == "-":
            ident, p = self.identifier(p + 1)
            attr = args = None
            if t[p] == ".":
                attr, p = self.identifier(p + 1)
            q = self.blank(p)
            if t[q] == "(":
                args, p = self.call_arguments(q)
            return ("TermReference", ident, attr, args, self.sp(start, p)), p
        if c and c in LETTERS:
            ident, p = self.identifier(p)
            q = self.blank(p)
            if t[q] == "(":
                if ident[1][0] not in UPPER or not CALLEE.issuperset(ident[1]):
                    raise Fail(p, "E0008")
                args, p = self.call_arguments(q)
                return ("FunctionReference", ident, args, self.sp(start, p)), p
            attr = None
            if t[p] == ".":
                attr, p = self.identifier(p + 1)
            return ("MessageReference", ident, attr, self.sp(start, p)), p
        raise Fail(p, "E0028")

    def call_arguments(self, p):
        t = self.t
        start = p
        positional, named, names = [], [], []
        p = self.blank(p + 1)
        while t[p] != ")":
            a = p
            expr, p = self.inline_expression(p)
            p = self.blank(p)
            if t[p] == ":":
                if expr[0] != "MessageReference" or expr[2] is not None:
                    raise Fail(p, "E0009")
                p = self.blank(p + 1)
                if self.is_number(p):
                    lit, p = self.number(p)
                elif t[p] == '"':
                    lit, p = self.string(p)
                else:
                    raise Fail(p, "E0014")
                if expr[1][1] in names:
                    raise Fail(p, "E0022")
                names.append(expr[1][1])
                named.append(("NamedArgument", expr[1], lit, self.sp(a, p)))
            elif names:
                raise Fail(p, "E0021")
            else:
                positional.append(expr)
            p = self.blank(p)
            if t[p] != ",":
                break
            p = self.blank(p + 1)
        p = self.expect(p, ")")
        return ("CallArguments", tuple(positional), tuple(named), self.sp(start, p)), p

    def string(self, p):
        t = self.t
        start = p
        p += 1
        while True:
            c = t[p]
            if c == '"':
                break
            if c == "\n":
                raise Fail(p, "E0020")
            if p == self.n:
                raise Fail(p, "E0003", '"')
            p += 1
            if c == "\\":
                e = t[p]
                if e == "\\" or e == '"':
                    p += 1
                elif e == "u" or e == "U":
                    width = 4 if e == "u" else 6
                    q = p + 1
                    while q < p + 1 + width:
                        if not (t[q] and t[q] in HEX):
                            raise Fail(q, "E0026", "\\%s%s%s" % (
                                e, "".join(t[p + 1:q]),
                                t[q] if q < self.n else None))
                        q += 1
                    p = q
                else:
                    raise Fail(p, "E0025", e if p < self.n else None)
        return ("StringLiteral", "".join(t[start + 1:p]), self.sp(start, p + 1)), p + 1


def expected(source, spans=True):
    return Ref(source, spans).resource()


def expected_single(source, spans=True):
    return Ref(source, spans).single()


def dump(node, spans=True):
    """Implementation tree -> reference form."""
    if node is None or isinstance(node, (str, bool, int)):
        return node
    if isinstance(node, (list, tuple)):
        return tuple([dump(x, spans) for x in node])
    kind = type(node).__name__
    out = [kind]
    for f in FIELDS[kind]:
        out.append(dump(getattr(node, f), spans))
    span = node.span
    if spans:
        out.append(None if span is None else (span.start, span.end))
    else:
        out.append(None)
    return tuple(out)


def strip(node):
    """Reference tree without spans."""
    if isinstance(node, tuple):
        if node and isinstance(node[0], str) and node[0] in FIELDS:
            return tuple([node[0]] + [strip(x) for x in node[1:-1]] + [None])
        return tuple([strip(x) for x in node])
    return node


def shape(node):
    """Node types only: an abstraction used to count distinct outcomes."""
    if isinstance(node, tuple):
        if node and isinstance(node[0], str) and node[0] in FIELDS:
            if node[0] == "Junk":
                return ("Junk", node[2][0][1] if node[2] else None)
            return (node[0],) + tuple(shape(x) for x in node[1:-1]
                                      if isinstance(x, tuple))
        return tuple(shape(x) for x in node if isinstance(x, tuple))
    return None
