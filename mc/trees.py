"""Tree spaces shared by the AST checks (C09, C10, C11): reference tuples with
spans, obtained from texts by the *reference* parser or generated."""
import functools

from . import astgen, docs, ftlref


def respan(t, counter):
    """Distinct spans on every node of a generated tree."""
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and t[0] in ftlref.FIELDS:
            a = counter[0]
            counter[0] += 1
            body = tuple(respan(x, counter) for x in t[1:-1])
            counter[0] += 1
            return (t[0],) + body + ((a, counter[0]),)
        return tuple(respan(x, counter) for x in t)
    return t


EXTRA = [
    "a = {\n# c\n!\n\nb = {\"\\x\" }\n",
    "# c\n!\na = { -t.x }\nb = { $v ->\n [x] y\n }\n## g\n### r\n",
    "a = x\nb = { \"\\",
    "a = }\nb =\n-c =\nd = { m -> }\n",
]


@functools.lru_cache(None)
def pool(size="all"):
    out = []
    for d in docs.CORPUS + EXTRA:
        out.append(ftlref.expected(d))
        out.append(ftlref.expected(d, False))
    for i, t in enumerate(astgen.all_trees()):
        out.append(t)
        if i % 3 == 0:
            out.append(respan(t, [0]))
    return out


def node_count(t):
    n = 0
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and t[0] in ftlref.FIELDS:
            n = 1
        for x in t:
            n += node_count(x)
    return n


def subtrees(t):
    """All nodes of the tree, as tuples."""
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and t[0] in ftlref.FIELDS:
            yield t
            for x in t[1:-1]:
                yield from subtrees(x)
        else:
            for x in t:
                yield from subtrees(x)


def is_node(t):
    return isinstance(t, tuple) and len(t) > 0 and isinstance(t[0], str) and t[0] in ftlref.FIELDS


# node types whose constructors take the same fields
TWINS = {
    "Message": "Term", "Term": "Message", "StringLiteral": "NumberLiteral", "NumberLiteral": "TextElement",
    "TextElement": "StringLiteral", "Comment": "GroupComment", "GroupComment": "ResourceComment",
    "ResourceComment": "Comment",
}


def single_edits(t):
    """All trees that differ from t in one place: (what, tree)."""
    if is_node(t):
        names = ftlref.FIELDS[t[0]]
        if t[0] in TWINS:
            yield "type", (TWINS[t[0]],) + t[1:]
        for i, f in enumerate(names):
            v = t[i + 1]
            if isinstance(v, str):
                yield f, t[:i + 1] + (v + "x",) + t[i + 2:]
                if v:
                    yield f, t[:i + 1] + (v.upper() if v.upper() != v else v.lower() + "_",) + t[i + 2:]
                    yield f, t[:i + 1] + (v[:-1] + " ",) + t[i + 2:]
            elif isinstance(v, bool):
                yield f, t[:i + 1] + (not v,) + t[i + 2:]
            elif v is None:
                if f == "comment":
                    yield f, t[:i + 1] + (("Comment", "", None),) + t[i + 2:]
                elif f == "attribute":
                    yield f, t[:i + 1] + (("Identifier", "", None),) + t[i + 2:]
                elif f == "arguments":
                    yield f, t[:i + 1] + (("CallArguments", (), (), None),) + t[i + 2:]
                elif f == "value":
                    yield f, t[:i + 1] + (("Pattern", (), None),) + t[i + 2:]
            else:
                if is_node(v) and f in ("comment", "attribute", "arguments", "value"):
                    yield f, t[:i + 1] + (None,) + t[i + 2:]
                for what, w in single_edits(v):
                    yield f + "/" + what, t[:i + 1] + (w,) + t[i + 2:]
        if t[-1] is not None:
            yield "span", t[:-1] + ((t[-1][0], t[-1][1] + 1),)
            yield "span", t[:-1] + ((t[-1][0] + 1, t[-1][1]),)
            yield "span", t[:-1] + (None,)
    elif isinstance(t, tuple):
        for i, x in enumerate(t):
            yield "remove", t[:i] + t[i + 1:]
            yield "repeat", t[:i + 1] + t[i:]
            if i and t[i - 1] != x:
                yield "swap", t[:i - 1] + (x, t[i - 1]) + t[i + 1:]
            for what, w in single_edits(x):
                yield "%d/%s" % (i, what), t[:i] + (w,) + t[i + 1:]
