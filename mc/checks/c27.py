"""C27: the file loader returns exactly the resources that exist, in order."""
import itertools
import os
import shutil

from ..core import scratch, Check, Result, Scope, Violation, chunks
from fluent.runtime import FluentResourceLoader
from fluent.syntax import FluentParser
from fluent.syntax.ast import Resource

# what stands at a path -> expected contents, an error, or None for nothing
TEXTS = {
    "text": "a = A\n", "empty": b"", "crlf": "k = v\r\n  w\r\n\r\n# c\r\n", "cr": "k = v\rw = x\r", "uni": "k = \u00e9\u20ac\U0001f600\u2028\x85\x0b\n",
    "bom": "\ufeffk = v\n", "junk": "= \n\x00\n", "noeol": "k =\n    .a = b", "bad": b"k = v\n\xff\n", "cut": b"k = \xe2\x82", "surr": b"k = \xed\xa0\x80\n",
    "latin": "k = \u00e9\n".encode("latin-1"), "utf16": "k = v\n".encode("utf-16"),
}
MATRIX = ["missing", "text", "empty", "dir", "bad"]
ALL = ["missing", "dir", "dangling", "denied", "link", "loop", "linkdir"] + list(TEXTS)
TOKENS = [b"a", b"=", b" ", b"\n", b"\r", b"#", b"\xc3", b"\xa9", b"\xef\xbb\xbf", b"\xff", b"\xe2\x80\xa8", b"\xf0\x9f\x98\x80", b"{", b"\x00"]
_expect = {}


def data(kind):
    t = TEXTS[kind]
    return t if isinstance(t, bytes) else t.encode("utf-8")


def want_of(content):
    """The JSON of the parsed content, or an error class."""
    if content not in _expect:
        try:
            text = content.decode("utf-8")
        except UnicodeDecodeError as e:
            _expect[content] = UnicodeDecodeError
            if e.reason == "unexpected end of data":
                # what is left without the cut-off sequence, for the known finding
                _expect[content] = type("Cut", (UnicodeDecodeError,), {"rest": want_of(content[:e.start])})
        else:
            _expect[content] = FluentParser().parse(text).to_json()
        if len(_expect) > 5000:
            return _expect.pop(content)
    return _expect[content]


class Scratch:
    def __enter__(self):
        self.d = scratch("verif-c27-")
        os.chmod(self.d, 0o755)
        return self

    def __exit__(self, *x):
        shutil.rmtree(self.d)

    def make(self, path, kind, tag=b""):
        """Returns what the loader should make of it."""
        p = os.path.join(self.d, path)
        if kind == "missing":
            return None
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if kind == "dir":
            os.mkdir(p)
        elif kind == "dangling":
            os.symlink(p + ".none", p)
        elif kind == "loop":
            os.symlink(p, p)
        elif kind == "linkdir":
            os.symlink(os.path.dirname(p), p)
        elif kind == "link":
            with open(p + ".target", "wb") as fh:
                fh.write(b"k = linked\n" + tag)
            os.symlink(p + ".target", p)
            return want_of(b"k = linked\n" + tag)
        elif kind == "denied":
            with open(p, "wb") as fh:
                fh.write(b"k = secret\n")
            os.chmod(p, 0)
            return PermissionError
        else:
            content = data(kind) if isinstance(kind, str) else kind
            if isinstance(kind, str) and content:
                content += tag
            with open(p, "wb") as fh:
                fh.write(content)
            return want_of(content)
        return None


def load(loader, locale, ids):
    """(lists of JSON, error class or None)"""
    out = []
    try:
        for lst in loader.resources(locale, ids):
            if not isinstance(lst, list) or any(not isinstance(r, Resource) for r in lst):
                raise Violation("yields %r" % (lst,))
            out.append([r.to_json() for r in lst])
            # the caller may do with them what it likes
            for r in lst:
                for e in r.body:
                    if getattr(e, "id", None) is not None:
                        e.id.name += "-spoilt"
                    if getattr(e, "content", None) is not None:
                        e.content += "spoilt"
                r.body.append(None)
            lst.append(None)
    except (OSError, ValueError) as e:
        return out, type(e)
    return out, None


def expect(grid):
    out = []
    for row in grid:
        for x in row:
            if isinstance(x, type):
                return out, x
        row = [x for x in row if x is not None]
        if row:
            out.append(row)
    return out, None


class CutOff(Violation):
    pass


def check(got, grid, what, odd):
    """Compares; a deviation listed as known is kept for the end of the case,
    so that it doesn't hide others."""
    try:
        compare(got, expect(grid), what)
    except Violation:
        if not any(hasattr(x, "rest") for row in grid for x in row):
            raise
        compare(got, expect([[getattr(x, "rest", x) for x in row] for row in grid]), what)
        odd.append(CutOff("%s: a multi-byte sequence cut off by the end of the file is dropped silently" % what))


def compare(got, want, what):
    err = want[1]
    err = UnicodeDecodeError if hasattr(err, "rest") else err
    if (got[1] is None) != (err is None) or err is not None and not issubclass(got[1], err):
        raise Violation("%s: error %r, should be %r" % (what, got[1], err))
    if err is not None and got[0] == want[0][:len(got[0])]:
        return
    if got[0] != want[0]:
        raise Violation("%s: lists of %r resources, should be %r:\n%r\n%r" % (what, [len(x) for x in got[0]], [len(x) for x in want[0]], got[0], want[0]))


class C27(Check):
    id = "C27"
    findings = {"cut-off": lambda case, msg: msg.endswith("cut off by the end of the file is dropped silently")}
    assumptions = ["a POSIX file system"]

    def scopes(self, tier):
        if not permissions_count():
            for lst in (ALL, MATRIX):
                if "denied" in lst:
                    lst.remove("denied")
        deep = tier == "thorough"
        n = 5 if deep else 4
        matrix = MATRIX + [x for x in ("crlf", "denied") if x in ALL + ["crlf"]] if deep else MATRIX

        def gen_matrix(block):
            for first in block:
                for rest in itertools.product(matrix, repeat=4):
                    yield ["matrix", 2, list(first + rest)]

        def gen_three(block):
            for first in block:
                for rest in itertools.product(["missing", "text", "empty", "dir", "bad"][:5 if deep else 4], repeat=4):
                    yield ["matrix", 3, list(first + rest)]

        def gen_all(block):
            for a in block:
                for b in ALL:
                    yield ["pair", a, b]

        def gen_bytes(block):
            for first in block:
                for k in range(0, n):
                    yield ["bytes", list(first), k]

        def gen_templates(block):
            for r in block:
                for i in range(len(ID_TEMPLATES)):
                    yield ["template", r, i]

        def gen_hist(block):
            for first in block:
                for k in range(0, 4 if deep else 3):
                    for rest in itertools.product(range(len(OPS)), repeat=k):
                        yield ["history", [first] + list(rest)]

        def gen_big(block):
            for size in block:
                for d in range(-5, 4):
                    yield ["big", size + d]
        return [
            Scope("matrix", "2 roots x 3 files in all %d^6 states x 3 orders of request (with repeats)" % len(matrix), [[x] for x in itertools.product(matrix, repeat=2)], gen_matrix),
            Scope("three-roots", "3 roots x 2 files, %d states" % (5 if deep else 4), [[x] for x in itertools.product(["missing", "text", "empty", "dir", "bad"][:5 if deep else 4], repeat=2)], gen_three),
            Scope("kinds", "%d x %d kinds of entries (links, denied, encodings, line breaks) in two files and two roots" % (len(ALL), len(ALL)), chunks(ALL, 10), gen_all),
            Scope("contents", "all strings of up to %d of %d byte tokens as a file's content" % (n, len(TOKENS)), [[(i,)] for i in range(len(TOKENS))], gen_bytes),
            Scope("templates", "%d root x %d name templates x locales" % (len(ROOT_TEMPLATES), len(ID_TEMPLATES)), chunks(range(len(ROOT_TEMPLATES)), 8), gen_templates),
            Scope("histories", "all sequences of up to %d changes, loading after each with one loader" % (4 if deep else 3), [[i] for i in range(len(OPS))], gen_hist),
            Scope("paths", "%d roots x %d names with links, dots, doubled slashes" % (len(PATH_ROOTS), len(PATH_IDS)), [[r] for r in PATH_ROOTS], lambda b: (["path", r] for r in b)),
            Scope("big", "multi-byte characters and line breaks at every offset around the buffer sizes", [[s] for s in (72, 128, 1024, 4096, 8192, 16384, 65536)], gen_big),
        ]

    def run_case(self, scope, case):
        odd = []
        res = getattr(self, "do_" + case[0])(*case[1:], odd)
        if odd:
            odd[0].result = res
            raise odd[0]
        return res

    def do_matrix(self, nroots, cells, odd):
        names = ["a.ftl", "sub/b.ftl", "c.ftl"][:len(cells) // nroots]
        n = 0
        with Scratch() as s:
            grid = []
            it = iter(cells)
            for r in range(nroots):
                grid.append({f: s.make("r%d/en/%s" % (r, f), next(it), b"# %d %s\n" % (r, f.encode())) for f in names})
            loader = FluentResourceLoader([os.path.join(s.d, "r%d" % r, "{locale}") for r in range(nroots)])
            with privileges("denied" in cells):
                for order in (names, names[::-1], [names[0], names[-1], names[0]]):
                    ids = list(order)
                    got = load(loader, "en", ids)
                    check(got, [[row[f] for f in order] for row in grid], "%r, requested %r" % (cells, order), odd)
                    n += 1
                    if ids != order:
                        raise Violation("changes the list of names")
                if load(loader, "fr", names) != ([], None):
                    raise Violation("%r: resources of another locale" % (cells,))
        return Result((len(got[0]), got[1]), traces=n + 1, states=n + 1, transitions=n + 1)

    def do_pair(self, a, b, odd):
        n = 0
        with Scratch() as s:
            one = [s.make("x/%s.ftl" % f, k, b"# " + f.encode()) for f, k in (("a", a), ("b", b))]
            two = [s.make("y/%s.ftl" % f, k) for f, k in (("a", b), ("b", a))]
            with privileges("denied" in (a, b)):
                for roots, grid in ((["x"], [one]), (["y"], [two]), (["x", "y"], [one, two])):
                    full = [os.path.join(s.d, r) for r in roots]
                    for r in ([full, full[0], full[0] + "/", tuple(full)] if len(full) == 1 else [full, tuple(full)]):
                        check(load(FluentResourceLoader(r), "en", ["a.ftl", "b.ftl"]), grid, "%s and %s under %r" % (a, b, roots), odd)
                        check(load(FluentResourceLoader(r), "en", ["b.ftl"]), [[row[1]] for row in grid], "%s under %r" % (b, roots), odd)
                        compare(load(FluentResourceLoader(r), "en", ["a.ftl/x", "b.ft", "B.ftl", "b.ftl "]), ([], None), "names beside %s and %s" % (a, b))
                        compare(load(FluentResourceLoader(r), "en", []), ([], None), "no names")
                        n += 4
        return Result(None, traces=n, states=n, transitions=n)

    def do_bytes(self, first, k, odd):
        n = 0
        with Scratch() as s:
            loader = FluentResourceLoader(s.d)
            p = os.path.join(s.d, "f")
            seen = set()
            for rest in itertools.product(TOKENS, repeat=k):
                content = TOKENS[first[0]] + b"".join(rest)
                if content in seen:
                    continue
                seen.add(content)
                with open(p, "wb") as fh:
                    fh.write(content)
                check(load(loader, "en", ["f"]), [[want_of(content)]], "content %r" % content, odd)
                n += 1
        return Result(None, traces=n, states=n, transitions=n)

    def do_template(self, ri, ii, odd):
        n = 0
        with Scratch() as s:
            # every path that any substitution may lead to
            for loc in LOCALES:
                for loc2 in LOCALES:
                    for name in ID_TEMPLATES:
                        for root in ROOT_TEMPLATES:
                            rel = root.replace("{locale}", loc) + "/" + name.replace("{locale}", loc2)
                            p = os.path.join(s.d, rel)
                            if not os.path.exists(p):
                                os.makedirs(os.path.dirname(p), exist_ok=True)
                                with open(p, "w") as fh:
                                    fh.write("# %s\n" % os.path.normpath(rel))
            cwd = os.getcwd()
            try:
                os.chdir(s.d)
                for r2 in range(len(ROOT_TEMPLATES)):
                    for loc in LOCALES:
                        roots = [ROOT_TEMPLATES[ri], ROOT_TEMPLATES[r2]]
                        ids = [ID_TEMPLATES[ii], "plain.ftl", "{locale}.ftl"]
                        want = [[want_of(("# %s\n" % os.path.normpath((r + "/" + i).replace("{locale}", loc))).encode()) for i in ids] for r in roots]
                        for absolute in (False, True):
                            rr = [os.path.join(s.d, r) for r in roots] if absolute else list(roots)
                            compare(load(FluentResourceLoader(rr), loc, ids), (want, None), "roots %r, names %r, locale %s" % (roots, ids, loc))
                            n += 1
            finally:
                os.chdir(cwd)
        return Result(None, traces=n, states=n, transitions=n)

    def do_path(self, root, odd):
        """Paths mean what they mean to the operating system."""
        n = 0
        with Scratch() as s:
            for d in ("a/b/c", "x/y"):
                os.makedirs(os.path.join(s.d, d))
            os.symlink(os.path.join(s.d, "a/b"), os.path.join(s.d, "l"))
            os.symlink("../../a/b/c", os.path.join(s.d, "x/y/m"))
            where = {}
            for d in ("", "a", "a/b", "a/b/c", "x", "x/y"):
                p = os.path.join(s.d, d, "f")
                where[os.path.realpath(p)] = want_of(b"k = in %s\n" % d.encode())
                with open(p, "w") as fh:
                    fh.write("k = in %s\n" % d)
            os.symlink(os.path.join(s.d, "a/f"), os.path.join(s.d, "x/y/g"))
            cwd = os.getcwd()
            try:
                os.chdir(os.path.join(s.d, "x"))
                for top in (s.d, "..", s.d + "/./", "y/.."+"/.."):
                    for name in PATH_IDS:
                        path = top + "/" + root + "/" + name
                        want = where.get(os.path.realpath(path)) if os.path.exists(path) else None
                        for ids in ([name], [name, "f"]):
                            f = top + "/" + root + "/f"
                            also = where.get(os.path.realpath(f)) if len(ids) > 1 and os.path.exists(f) else None
                            compare(load(FluentResourceLoader(top + "/" + root), "en", ids), expect([[want, also]]), "%r under %r" % (ids, top + "/" + root))
                            n += 1
            finally:
                os.chdir(cwd)
        return Result(root, traces=n, states=n, transitions=n)

    def do_history(self, ops, odd):
        n = 0
        with Scratch() as s:
            loader = FluentResourceLoader([os.path.join(s.d, "{locale}"), os.path.join(s.d, "{locale}-x")])
            model = {}
            for d in ("en", "en-x"):
                os.mkdir(os.path.join(s.d, d))
            ids = ["a", "b"]
            stamp = 1600000000
            for op in [None] + [OPS[o] for o in ops]:
                if op:
                    d, f, kind = op
                    p = os.path.join(s.d, d, f)
                    if os.path.isdir(p):
                        os.rmdir(p)
                    elif os.path.exists(p):
                        os.unlink(p)
                    model[d, f] = s.make(d + "/" + f, kind)
                    if model[d, f] is not None:
                        os.utime(p, (stamp, stamp))
                grid = [[model.get((d, f)) for f in ids] for d in ("en", "en-x")]
                for _ in range(2):
                    check(load(loader, "en", ids), grid, "after %r" % (op,), odd)
                    n += 1
        return Result(expect(grid)[1], traces=n, states=n, transitions=n)

    def do_big(self, size, odd):
        n = 0
        with Scratch() as s:
            loader = FluentResourceLoader(s.d)
            p = os.path.join(s.d, "f")
            for mark in ("\u00e9", "\u20ac", "\U0001f600", "\r\n", "\r", "\n", b"\xff", b"\xe2\x82"):
                m = mark if isinstance(mark, bytes) else mark.encode("utf-8")
                for tail in (b"", b"x\nk = w\n"):
                    content = b"k = v\n# " + b"x" * (size - 8) + m + tail
                    with open(p, "wb") as fh:
                        fh.write(content)
                    check(load(loader, "en", ["f"]), [[want_of(content)]], "%r at %d" % (mark, size), odd)
                    n += 1
        return Result(None, traces=n, states=n, transitions=n)


class privileges:
    """Runs as nobody, so that permissions count."""

    def __init__(self, drop):
        self.drop = drop and os.geteuid() == 0

    def __enter__(self):
        if self.drop:
            os.seteuid(65534)

    def __exit__(self, *x):
        if self.drop:
            os.seteuid(0)


def permissions_count():
    """Whether this process can become one that is denied access to a file."""
    try:
        with Scratch() as s:
            s.make("x/y", "denied")
            with privileges(True):
                try:
                    open(os.path.join(s.d, "x/y")).close()
                except PermissionError:
                    return True
    except OSError:
        pass
    return False


LOCALES = ["en", "de-DE", "zh_Hant"]
ROOT_TEMPLATES = ["plain", "r/{locale}", "{locale}", "r/{locale}/x", "r/x-{locale}", "{locale}/{locale}", "r/{locale}/"]
ID_TEMPLATES = ["plain.ftl", "{locale}.ftl", "sub/{locale}/f.ftl", "{locale}/{locale}.ftl", "f.{locale}.ftl", "a b.ftl", "\u00e9.ftl", "{{x}}.ftl".replace("{{x}}", "x")]
PATH_ROOTS = ["l", "l/..", "a/b/..", "a/b/../..", "x/y/m", "x/y/m/..", "x/y/m/../..", ".", "./a", "a/", "a//b", "l/c", "l/c/..", "l/../b", "none/..", "f", "a/./b/."]
PATH_IDS = ["f", "./f", "../f", "../../f", "c/../f", "l/../f", "m/../f", "m/f", "g", "y/g", "y/m/../f", "none/../f", "f/", "f/.", "", "c//f", ".", ".."]
OPS = [(d, f, k) for d in ("en", "en-x") for f in ("a", "b") for k in ("text", "noeol", "empty", "missing", "dir", "bad")]
CHECK = C27()
