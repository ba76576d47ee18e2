"""Helpers over implementation trees, independent of the code under test's own
traversal: fields come from the ASDL (ftlref.FIELDS)."""
from .ftlref import FIELDS
from fluent.syntax import ast as FTL


def kind(node):
    return type(node).__name__


def fields(node):
    k = kind(node)
    if k == "Span":
        return ("start", "end")
    return FIELDS[k] + ("span",)


def is_node(x):
    return isinstance(x, FTL.BaseNode)


def parts(node):
    """All nodes and lists of a tree (the mutable parts)."""
    out = []
    stack = [node]
    while stack:
        x = stack.pop()
        if is_node(x):
            out.append(x)
            for f in fields(x):
                stack.append(getattr(x, f))
        elif isinstance(x, (list, tuple)):
            out.append(x)
            stack.extend(x)
    return out


def nodes(node, spans=True):
    """Nodes in document order of fields: parent first."""
    out = []

    def go(x):
        if is_node(x):
            if kind(x) == "Span" and not spans:
                return
            out.append(x)
            for f in fields(x):
                go(getattr(x, f))
        elif isinstance(x, (list, tuple)):
            for y in x:
                go(y)
    go(node)
    return out


def full(x):
    """Complete value of a tree: types, every field, spans as nodes."""
    if is_node(x):
        return (kind(x),) + tuple([full(getattr(x, f)) for f in fields(x)])
    if isinstance(x, (list, tuple)):
        return tuple([full(y) for y in x])
    return x


def build(t):
    """Reference tuple -> tree made with the public constructors."""
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and t[0] in FIELDS:
            k = t[0]
            args = {f: build(v) for f, v in zip(FIELDS[k], t[1:-1])}
            node = getattr(FTL, k)(**args)
            if t[-1] is not None:
                node.add_span(*t[-1])
            return node
        return [build(x) for x in t]
    return t


# constructor defaults, by the documentation
OPTIONAL = {
    "Resource": {"body": []}, "Message": {"value": None, "attributes": [], "comment": None},
    "Term": {"attributes": [], "comment": None}, "MessageReference": {"attribute": None},
    "TermReference": {"attribute": None, "arguments": None}, "CallArguments": {"positional": [], "named": []},
    "Variant": {"default": False}, "Junk": {"annotations": [], "content": None},
    "Comment": {"content": None}, "GroupComment": {"content": None}, "ResourceComment": {"content": None},
    "Annotation": {"arguments": [], "message": None},
}


def build_sparse(t):
    """As build, but with required values by position and defaults left out."""
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and t[0] in FIELDS:
            k = t[0]
            optional = OPTIONAL.get(k, {})
            values = [(f, build_sparse(v)) for f, v in zip(FIELDS[k], t[1:-1])]
            args, kwargs = [], {}
            for f, v in values:
                if f not in optional and not kwargs:
                    args.append(v)
                elif f not in optional or v != optional[f] or type(v) is not type(optional[f]):
                    kwargs[f] = v
            return getattr(FTL, k)(*args, **kwargs)
        return [build_sparse(x) for x in t]
    return t


def build_late(t):
    """As build, but optional values are set, and lists filled, afterwards."""
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and t[0] in FIELDS:
            k = t[0]
            optional = OPTIONAL.get(k, {})
            values = dict(zip(FIELDS[k], t[1:-1]))
            node = getattr(FTL, k)(**{f: build_late(v) for f, v in values.items() if f not in optional})
            for f, v in values.items():
                if f in optional:
                    if isinstance(v, tuple) and not (v and isinstance(v[0], str)):
                        getattr(node, f).extend(map(build_late, v))
                    else:
                        setattr(node, f, build_late(v))
            return node
        return [build_late(x) for x in t]
    return t


def diff(a, b, path=""):
    """First difference of two tuples, as text."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return "%s: %d items, expected %d\n  got      %r\n  expected %r" % (path, len(a), len(b), a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, path + "/" + (x[0] if isinstance(x, tuple) and x and isinstance(x[0], str)
                                                else str(i)))
    return "%s: got %r, expected %r" % (path, a, b)
