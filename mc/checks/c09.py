"""C09: a tree survives the trip through JSON unchanged."""
import json

from .. import docs, ftlref, trees
from ..core import Check, Scope, Violation, chunks
from ..syn import build, diff, full, fields, is_node, kind, parts
from fluent.syntax import FluentParser
from fluent.syntax import ast as FTL


def expected_json(x, k=None, const=None):
    """The JSON form; nodes of kind k are const."""
    if is_node(x):
        if kind(x) == k:
            return const
        out = {f: expected_json(getattr(x, f), k, const) for f in fields(x)}
        out["type"] = kind(x)
        return out
    if isinstance(x, (list, tuple)):
        return [expected_json(y, k, const) for y in x]
    return x


CONSTS = [None, 0, "", False, [], "x"]


def check_plain(j):
    if type(j) is dict:
        for k, v in j.items():
            if type(k) is not str:
                raise Violation("key %r" % (k,))
            check_plain(v)
    elif type(j) is list:
        for v in j:
            check_plain(v)
    elif j is not None and type(j) not in (str, int, bool):
        raise Violation("not a plain JSON value: %r" % (j,))


def wreck(j):
    """Destroys a JSON value in place."""
    if isinstance(j, dict):
        for v in j.values():
            wreck(v)
        j.clear()
    elif isinstance(j, list):
        for v in j:
            wreck(v)
        j.append("wreck")


def interned(j, memo):
    """The same JSON form, equal parts being one object."""
    if isinstance(j, dict):
        j = {k: interned(v, memo) for k, v in j.items()}
    elif isinstance(j, list):
        j = [interned(v, memo) for v in j]
    else:
        return j
    return memo.setdefault(json.dumps(j), j)


def with_tuples(x):
    """Puts tuples where the tree has lists."""
    for f in fields(x):
        v = getattr(x, f)
        if isinstance(v, list):
            for y in v:
                if is_node(y):
                    with_tuples(y)
            setattr(x, f, tuple(v))
        elif is_node(v):
            with_tuples(v)


class C09(Check):
    id = "C09"

    def scopes(self, tier):
        pool = trees.pool()

        def gen_pool(block):
            for i in block:
                yield ["tree", pool[i]]
                seen = set()
                for s in trees.subtrees(pool[i]):
                    if s not in seen and s != pool[i]:
                        seen.add(s)
                        yield ["tree", s]

        def gen_edit(block):
            for i in block:
                for _, t in trees.single_edits(pool[i]):
                    yield ["tree", t]

        def gen_tuples(block):
            for i in block:
                yield ["tuples", pool[i]]
        n = len(pool)
        return [
            Scope("trees", "%d trees and all their subtrees, built and parsed" % n, chunks(range(n), 64), gen_pool),
            Scope("edited", "every single edit of every %s tree (odd field values included)"
                  % ("third" if tier == "quick" else ""), chunks(range(0, n, 3 if tier == "quick" else 1), 64), gen_edit),
            Scope("tuples", "every tree with tuples in place of lists", chunks(range(n), 16), gen_tuples),
            docs.truncations(), docs.scale(tier == "thorough"),
            docs.lines(2, ("\n", "\r\n"), (True, False), name="lines2"), docs.holes(2),
            docs.codepoints(docs.BMP_QUICK if tier == "quick" else docs.ALL_CP, "codepoints",
                            ctxs=docs.CP_CTX[:1] + docs.CP_CTX[3:5]),
        ]

    def run_case(self, scope, case):
        if isinstance(case, str):
            tree = FluentParser().parse(case)
        else:
            from .c02 import tuplify
            tree = build(tuplify(case[1]))
            if case[0] == "tuples":
                with_tuples(tree)
        value = full(tree)
        want = expected_json(tree)
        j = tree.to_json()
        check_plain(j)
        if j != want:
            raise Violation("JSON form: got %r, expected %r" % (j, want))
        text = json.dumps(j)
        if json.loads(text) != j:
            raise Violation("not equal after json.dumps/loads")
        if json.loads(str(tree)) != j:
            raise Violation("str() is another JSON form")
        for source in (j, json.loads(text)):
            back = FTL.from_json(source)
            if case[:1] == ["tuples"]:
                with_tuples(back)
            if full(back) != value:
                raise Violation("back from JSON: " + diff(full(back), value))
            if json.dumps(source) != text:
                raise Violation("from_json changed its input")
            if case[:1] != ["tuples"] and not back.equals(tree, ignored_fields=[]):
                raise Violation("equals() tells the tree from itself after JSON")
            wreck(source)
            if full(back) != value:
                raise Violation("the tree shares state with the JSON it came from")
        if full(tree) != value:
            raise Violation("the JSON form shares state with the tree")
        one, two = FTL.from_json(text_j := json.loads(text)), FTL.from_json(text_j)
        mine = parts(one)
        if len({id(p) for p in mine}) != len(mine):
            raise Violation("an object occurs twice in the tree read from JSON")
        shared = {id(p) for p in mine} & {id(p) for p in parts(two)}
        if shared:
            raise Violation("two trees read from JSON share an object: %r" % [p for p in mine if id(p) in shared][0])
        # equal parts of the JSON form being one object says nothing
        back = FTL.from_json(interned(json.loads(text), {}))
        mine = parts(back)
        repeated = len({id(p) for p in mine}) != len(mine)
        if case[:1] == ["tuples"]:
            with_tuples(back)
        if full(back) != value:
            raise Violation("back from JSON with shared parts: " + diff(full(back), value))
        if repeated:
            raise Violation("an object occurs twice in the tree read from JSON with shared parts")
        # the hook
        seen = []

        def hook(obj):
            if type(obj) is not dict or "type" not in obj:
                raise Violation("hook called with %r" % (obj,))
            for v in obj.values():
                for x in (v if isinstance(v, list) else [v]):
                    if isinstance(x, dict) and "hooked" not in x:
                        raise Violation("hook called with a parent before its child: %r" % (obj,))
            seen.append(id(obj))
            return {"hooked": obj}
        h = tree.to_json(hook)

        def unhook(x):
            if isinstance(x, dict):
                if set(x) != {"hooked"}:
                    raise Violation("node not passed to the hook: %r" % (x,))
                return {k: unhook(v) for k, v in x["hooked"].items()}
            if isinstance(x, list):
                return [unhook(y) for y in x]
            return x
        if unhook(h) != want:
            raise Violation("hook result: %r" % (h,))
        if len(seen) != text.count('"type": ') and len(seen) != count(tree):
            raise Violation("hook called %d times for %d nodes" % (len(seen), count(tree)))
        # what the hook returns is used, whatever it is
        for const in CONSTS:
            if tree.to_json(lambda obj: const) is not const:
                raise Violation("a hook returning %r: %r" % (const, tree.to_json(lambda obj: const)))
            gone = kind(tree) == "Span"
            for k in dict.fromkeys(kind(p) for p in ([] if gone else parts(tree)) if p is not tree and kind(p) != kind(tree)):
                def some(obj):
                    return const if obj["type"] == k else obj
                if tree.to_json(some) != expected_json(tree, k, const):
                    raise Violation("a hook returning %r for every %s: %r" % (const, k, tree.to_json(some)))
        return ftlref.shape(ftlref.dump(tree, False)) if not isinstance(tree, FTL.Span) else None


def count(x):
    if is_node(x):
        return 1 + sum(count(getattr(x, f)) for f in fields(x))
    if isinstance(x, (list, tuple)):
        return sum(count(y) for y in x)
    return 0


CHECK = C09()
