"""C30: highlighting classifies each construct by its role."""
from .. import astgen, docs, ftlref
from ..core import Check, Violation
from fluent.pygments.lexer import FluentLexer
from pygments.token import Token

ROLES = {
    "Comment": Token.Comment.Multiline, "GroupComment": Token.Comment.Multiline, "ResourceComment": Token.Comment.Multiline,
    "Identifier": Token.Name.Constant, "TextElement": Token.Literal, "NumberLiteral": Token.Literal.Number, "StringLiteral": Token.Literal.String,
    "VariableReference": Token.Name.Variable, "Junk": Token.Generic.Error,
}


def roles(node, out):
    """(start, end, token type) of every construct with a role."""
    if not isinstance(node, tuple):
        return
    if node and isinstance(node[0], str) and node[0] in ftlref.FIELDS:
        if node[0] in ROLES:
            out.append((*node[-1], ROLES[node[0]]))
            return
        for name, x in zip(ftlref.FIELDS[node[0]], node[1:-1]):
            if node[0] == "Variant" and name == "key":
                out.append((*x[-1], Token.Name.Attribute))
            else:
                roles(x, out)
        return
    for x in node:
        roles(x, out)


def expected(text):
    out = []
    roles(ftlref.expected(text), out)
    out.sort()
    want, pos = [], 0
    for a, b, kind in out:
        if a > pos:
            want.append((pos, Token.Punctuation, text[pos:a]))
        want.append((a, kind, text[a:b]))
        pos = b
    if pos < len(text):
        want.append((pos, Token.Punctuation, text[pos:]))
    return want


def merged(tokens):
    """Adjacent punctuation as one token."""
    out = []
    for t in tokens:
        if not t[2] and t[1] is Token.Punctuation:
            continue
        if out and t[1] is Token.Punctuation is out[-1][1]:
            out[-1] = (out[-1][0], out[-1][1], out[-1][2] + t[2])
        else:
            out.append(tuple(t))
    return out


class C30(Check):
    id = "C30"

    def scopes(self, tier):
        return docs.standard(tier, 1) + astgen.layout_scopes(tier)

    def run_case(self, scope, case):
        text = case if isinstance(case, str) else case[0]
        want = expected(text)
        got = merged(FluentLexer().get_tokens_unprocessed(text))
        if got != want:
            for g, w in zip(got + [None], want + [None]):
                if g != w:
                    raise Violation("token %r, should be %r" % (g, w))
            raise Violation("tokens %r, should be %r" % (got, want))
        return tuple(str(k) for _, k, _ in want)


CHECK = C30()
