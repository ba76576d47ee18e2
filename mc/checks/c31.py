"""C31: documentation builds cover each release once and link the newest stable.

The build runs for real in a scratch repository.  In the broad scopes the
processes it starts (git, sphinx-build) are stand-ins behind subprocess.Popen;
a command the stand-in does not model makes the case run with the real git
instead.  The "real" scopes run the same cases with the real git and an
executable sphinx-build, which binds the stand-in to git."""
import collections
import contextlib
import datetime
import fnmatch
import getopt
import io
import itertools
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

from .. import impl
from ..core import scratch, Check, Result, Scope, Violation, HarnessError, chunks
import fluent.docs
import fluent.docs.build
import fluent.docs.tags

PROJECTS = ["fluent.syntax", "fluent.runtime", "fluent.pygments"]
SYN, RUN, PYG = PROJECTS
FOREIGN = ["fluent.docs", "fluent.syn", "fluent.syntax2"]
VERSIONS = ["0.9", "0.10", "1.0a1", "0.9.1", "2", "0.11", "1.0", "3.0.dev1"]
DAY0 = datetime.date(2020, 5, 1)
REPO_NAME = "some-repo"
SPHINX = """#!/bin/sh
cd . || exit 97
n=0
while ! mkdir "$STANDIN_LOG/$n" 2>/dev/null; do n=$((n+1)); done
for a in "$@"; do printf '%s\\0' "$a"; done > "$STANDIN_LOG/$n/args"
printf '%s' "$PYTHONPATH" > "$STANDIN_LOG/$n/path"
for a in "$@"; do src=$dest; dest=$a; done
cat "$src/index.rst" > "$STANDIN_LOG/$n/source" 2>/dev/null
cat "$src/_templates/versions.html" > "$STANDIN_LOG/$n/versions" 2>/dev/null
cat "$PYTHONPATH/code" > "$STANDIN_LOG/$n/code" 2>/dev/null
if [ -f "$STANDIN_LOG/fail-$n" ]; then exit 2; fi
mkdir -p "$dest/_static"
cat "$src/index.rst" > "$dest/page.html"
for f in theme.css jquery.js documentation_options.js documentation_options.css documentation_options.js.map xdocumentation_options.js documentation_options; do echo x > "$dest/_static/$f"; done
"""


def date_of(day):
    return DAY0 + datetime.timedelta(days=day)


class Unmodelled(Exception):
    pass


class World:
    """A scratch repository with a root and three projects."""

    def __init__(self, real):
        self.real = real
        self.top = scratch("verif-c31-")
        self.repo, self.tmp = os.path.join(self.top, "repo"), os.path.join(self.top, "tmp")
        os.mkdir(self.repo)
        os.mkdir(self.tmp)
        self.tags = []
        self.builds = []
        self.commands = []
        self.fail = None
        self.worktrees = set()
        if real:
            os.mkdir(os.path.join(self.top, "bin"))
            p = os.path.join(self.top, "bin", "sphinx-build")
            with open(p, "w") as fh:
                fh.write(SPHINX)
            os.chmod(p, 0o755)
        else:
            self.fill(self.repo, "HEAD")

    def remove(self):
        shutil.rmtree(self.top)

    @staticmethod
    def files(mark):
        yield "docs/index.rst", mark + "\n"
        for p in PROJECTS:
            yield p + "/docs/index.rst", mark + "\n"
            yield p + "/code", mark + "\n"

    def fill(self, top, mark):
        for name, text in self.files(mark):
            p = os.path.join(top, name)
            if not os.path.exists(os.path.dirname(p)):
                os.makedirs(os.path.dirname(p))
            with open(p, "w") as fh:
                fh.write(text)

    def set_tags(self, tags, annotated=0):
        """tags: [project, version, day], oldest first; annotated: bits of those with a tag object."""
        if self.real:
            out = []
            for i, (project, version, day) in enumerate(list(tags) + [[None, "HEAD", 4000]]):
                mark = "%s@%s" % (project, version) if project else "HEAD"
                when = datetime.datetime.combine(date_of(day), datetime.time(1, i), datetime.timezone.utc)
                note = bool(annotated & 1 << i and project)
                out.append("commit %s\nmark :%d\ncommitter V <v@v> %d +0000\ndata 0\ndeleteall\n" % (
                    "refs/heads/main" if not project else "refs/heads/release" if note else "refs/tags/" + mark, i + 1, when.timestamp()))
                for name, text in self.files(mark):
                    out.append("M 100644 inline %s\ndata %d\n%s\n" % (name, len(text), text))
                out.append("\n")
                if note:
                    out.append("tag %s\nfrom :%d\ntagger V <v@v> %d +0000\ndata 2\nv\n\nreset refs/heads/release\n\n" % (mark, i + 1, when.timestamp()))
            self.git("init", "-q", "-b", "main", ".") if not self.tags and not os.path.exists(self.repo + "/.git") else None
            self.git("fast-import", "--quiet", "--force", input="".join(out))
            self.git("reset", "-q", "--hard", "main")
        self.tags = [list(t) for t in tags]

    def git(self, *args, input=None):
        r = _real_run(["git", *args], cwd=self.repo, env=self.env(), input=(input or "").encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise HarnessError("git %s: %s" % (args, r.stdout.decode(errors="replace")))

    def env(self):
        return dict(os.environ, GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_NOSYSTEM="1", PATH=os.path.join(self.top, "bin") + os.pathsep + os.environ["PATH"],
                    STANDIN_LOG=os.path.join(self.top, "log"), GIT_CEILING_DIRECTORIES=self.top, HOME=self.top, GIT_PAGER="cat")

    # -- stand-ins ---------------------------------------------------------
    def process(self, argv, cwd, env):
        """(exit status, output)"""
        n = len(self.commands)
        self.commands.append(argv)
        if self.fail == n:
            return 2, ""
        argv = [os.fspath(a) for a in argv]
        cwd = os.path.abspath(os.fspath(cwd) if cwd else ".")
        if argv[0] == "git":
            return self.fake_git(argv[1:], cwd)
        if argv[0] == "sphinx-build":
            return self.fake_sphinx(argv[1:], cwd, env if env is not None else os.environ)
        raise Unmodelled(argv)

    def fake_git(self, args, cwd):
        while args and args[0] == "-C":
            cwd, args = os.path.join(cwd, args[1]), args[2:]
        if not args:
            raise Unmodelled(args)
        if args[0] == "tag":
            listing, patterns, sort, fmt = False, [], None, None
            for a in args[1:]:
                if a in ("--list", "-l"):
                    listing = True
                elif a.startswith("--sort="):
                    sort = a[7:]
                elif a.startswith("--format="):
                    fmt = a[9:]
                elif a.startswith("-"):
                    raise Unmodelled(args)
                else:
                    patterns.append(a)
            if not listing or sort not in ("-committerdate", "committerdate", "-creatordate", "creatordate") or fmt is None:
                raise Unmodelled(args)
            lines = []
            for project, version, day in (self.tags if sort[0] != "-" else self.tags[::-1]):
                name = "%s@%s" % (project, version)
                if patterns and not any(fnmatch.fnmatchcase(name, p) for p in patterns):
                    continue
                for k, v in (("%(refname:lstrip=2)", name), ("%(refname:short)", name), ("%(refname:strip=2)", name), ("%(committerdate:short)", date_of(day).isoformat()), ("%(creatordate:short)", date_of(day).isoformat())):
                    line = fmt if k == "%(refname:lstrip=2)" else line
                    line = line.replace(k, v)
                if "%" in line:
                    raise Unmodelled(args)
                lines.append(line + "\n")
            return 0, "".join(lines)
        if args[:2] == ["worktree", "add"]:
            rest = [a for a in args[2:] if a not in ("--detach", "-d", "--force", "-f", "--quiet", "-q")]
            if not 1 <= len(rest) <= 2 or any(a.startswith("-") for a in rest):
                raise Unmodelled(args)
            d = os.path.join(cwd, rest[0])
            if os.path.isdir(d) and os.listdir(d):
                return 128, ""
            mark = rest[1] if len(rest) > 1 else "HEAD"
            if not self.known(mark):
                return 128, ""
            self.worktrees.add(os.path.realpath(d))
            self.fill(d, mark)
            return 0, ""
        if args[:2] == ["worktree", "remove"]:
            rest = [a for a in args[2:] if a not in ("--force", "-f")]
            if len(rest) != 1 or not os.path.isdir(os.path.join(cwd, rest[0])):
                raise Unmodelled(args)
            shutil.rmtree(os.path.join(cwd, rest[0]))
            return 0, ""
        if args[:2] == ["worktree", "prune"]:
            return 0, ""
        if args[0] == "checkout":
            rest = [a for a in args[1:] if a not in ("--detach", "--force", "-f", "--quiet", "-q")]
            if len(rest) != 1 or rest[0].startswith("-"):
                raise Unmodelled(args)
            if not self.known(rest[0]):
                return 1, ""
            self.fill(cwd, rest[0])
            return 0, ""
        raise Unmodelled(args)

    def known(self, mark):
        return mark == "HEAD" or any("%s@%s" % (p, v) == mark for p, v, _ in self.tags)

    def fake_sphinx(self, args, cwd, env):
        src, dest = (os.path.join(cwd, a) for a in args[-2:])

        def read(*path):
            try:
                with open(os.path.join(*path)) as fh:
                    return fh.read()
            except OSError:
                return ""
        path = env.get("PYTHONPATH", "")
        source = read(src, "index.rst")
        self.builds.append((args, path, source, read(src, "_templates", "versions.html"), read(cwd, path, "code") if path else ""))
        os.makedirs(dest + "/_static", exist_ok=True)
        with open(dest + "/page.html", "w") as fh:
            fh.write(source)
        for f in ("theme.css", "jquery.js", "documentation_options.js", "documentation_options.css",
                  "documentation_options.js.map", "xdocumentation_options.js", "documentation_options"):
            with open(os.path.join(dest, "_static", f), "w") as fh:
                fh.write("x\n")
        return 0, ""

    def logged(self):
        """The sphinx runs since the last call: (args, PYTHONPATH, source, versions page, code)."""
        if not self.real:
            got, self.builds = self.builds, []
            return got
        log = os.path.join(self.top, "log")
        out = []
        for n in sorted((x for x in os.listdir(log) if x.isdigit()), key=int):
            d = {}
            for f in ("args", "path", "source", "versions", "code"):
                with open(os.path.join(log, n, f)) as fh:
                    d[f] = fh.read()
            out.append((d["args"].split("\0")[:-1], d["path"], d["source"], d["versions"], d["code"]))
        return out

    @contextlib.contextmanager
    def entered(self):
        """cwd, temporary directory, environment and processes of the scratch world."""
        old = os.getcwd(), tempfile.tempdir, dict(os.environ), subprocess.Popen
        null = fds = None
        try:
            os.chdir(self.repo)
            tempfile.tempdir = self.tmp
            os.environ.update(self.env())
            if self.real:
                shutil.rmtree(os.path.join(self.top, "log"), ignore_errors=True)
                os.mkdir(os.path.join(self.top, "log"))
                sys.stdout.flush()
                sys.stderr.flush()
                fds = os.dup(1), os.dup(2)
                null = os.open("/dev/null", os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(null, 2)
            else:
                subprocess.Popen = make_popen(self)
            yield
        finally:
            subprocess.Popen = old[3]
            if fds:
                os.dup2(fds[0], 1)
                os.dup2(fds[1], 2)
                for fd in (*fds, null):
                    os.close(fd)
            os.environ.clear()
            os.environ.update(old[2])
            tempfile.tempdir = old[1]
            os.chdir(old[0])


_real_run, _RealPopen = subprocess.run, subprocess.Popen


def make_popen(world):
    class Popen:
        def __init__(self, args, bufsize=-1, stdin=None, stdout=None, stderr=None, cwd=None, env=None, text=None, encoding=None, errors=None, universal_newlines=None, shell=False, **kw):
            if shell or isinstance(args, str):
                raise Unmodelled(args)
            self.args, self.pid = args, -1
            self.returncode, out = world.process(list(args), cwd, env)
            out = out if text or encoding or errors or universal_newlines else out.encode()
            self.out = out if stdout == subprocess.PIPE else None
            self.err = (out[:0]) if stderr == subprocess.PIPE else None
            self.stdin = None
            self.stdout = None if self.out is None else (io.StringIO if isinstance(out, str) else io.BytesIO)(out)
            self.stderr = None if self.err is None else (io.StringIO if isinstance(out, str) else io.BytesIO)()

        def __enter__(self):
            return self

        def __exit__(self, *x):
            pass

        def communicate(self, input=None, timeout=None):
            return self.out, self.err

        def wait(self, timeout=None):
            return self.returncode

        poll = wait

        def kill(self):
            pass

        terminate = kill
    return Popen


def releases(tags, project, after):
    """Versions of a project after the cut-off, newest first."""
    return [v for p, v, day in reversed(tags) if p == project and after is not None and day > after]


def plan(tags, projects, after):
    """The builds there should be: (project, release, destination, source, code, page version, links)."""
    out = collections.Counter()
    for p in projects:
        rel = releases(tags, p, after)
        links = ["dev"] + (["stable"] if rel else []) + rel
        for v in ["dev"] + rel:
            mark = "HEAD" if v == "dev" else "%s@%s" % (p, v)
            out[p, None if v == "dev" else v, "_build/%s/%s/%s" % (REPO_NAME, p, v), mark, mark, v,
                tuple("/%s/%s/%s" % (REPO_NAME, p, x) for x in links), tuple(links)] += 1
    return out


def seen(record):
    args, path, source, page, code = record
    opts, rest = getopt.getopt(args, "b:aEWc:d:D:A:j:qQnNvt:", ["keep-going"])
    if len(rest) != 2:
        raise Violation("sphinx-build run with %r" % (args,))
    defs = dict(v.split("=", 1) for k, v in opts if k == "-D")
    html = dict(v.split("=", 1) for k, v in opts if k == "-A")
    conf = [v for k, v in opts if k == "-c"]
    if html.get("root_url") != "/" + REPO_NAME:
        raise Violation("root_url is %r in %r" % (html.get("root_url"), args))
    if [os.path.normpath(c) for c in conf] != ["docs"]:
        raise Violation("configured from %r, not from the current checkout's docs" % (conf,))
    version = re.findall(r'class="version">\s*([^<]*?)\s*<', page)
    links = re.findall(r'<a href="([^"]*)">\s*([^<]*?)\s*</a>', page)
    return (defs.get("project"), defs.get("release"), os.path.normpath(rest[1]), source.strip(), code.strip(), version[0] if len(version) == 1 else version,
            tuple(h.rstrip("/") for h, _ in links), tuple(t for _, t in links))


def judge(world, tags, projects, after, root):
    got = world.logged()
    if root:
        roots = [r for r in got if os.path.normpath(r[0][-1]) == "_build/" + REPO_NAME]
        got = [r for r in got if r not in roots]
        if len(roots) != 1 or roots[0][2].strip() != "HEAD" or os.path.normpath(roots[0][0][-2]) != "docs":
            raise Violation("top-level documentation built as %r" % (roots,))
    got = collections.Counter(seen(r) for r in got)
    want = plan(tags, projects, after)
    if got != want:
        extra, missing = got - want, want - got
        raise Violation("built %r, should have built %r" % (sorted(extra.elements(), key=repr), sorted(missing.elements(), key=repr)))
    out = os.path.join(world.repo, "_build", REPO_NAME)
    for p in projects:
        rel = releases(tags, p, after)
        with open(os.path.join(out, p, "index.html")) as fh:
            text = fh.read()
        target = re.findall(r"url=([^\"']*)", text, re.I)
        if [t.strip().rstrip("/") for t in target] != ["stable" if rel else "dev"]:
            raise Violation("%s redirects with %r" % (p, text))
        for v in ["dev"] + rel:
            d = os.path.join(out, p, v)
            if os.path.islink(d):
                raise Violation("%s/%s is a link" % (p, v))
            left = sorted(os.listdir(d + "/_static"))
            if left != ["documentation_options.js"]:
                raise Violation("%s/%s/_static has %r" % (p, v, left))
            with open(d + "/page.html") as fh:
                if fh.read().strip() != ("HEAD" if v == "dev" else "%s@%s" % (p, v)):
                    raise Violation("%s/%s has the pages of another version" % (p, v))
        if rel:
            link = os.path.join(out, p, "stable")
            if not os.path.islink(link) or os.path.realpath(link) != os.path.realpath(os.path.join(out, p, rel[0])):
                raise Violation("stable of %s is %r, newest release is %s" % (p, os.path.islink(link) and os.readlink(link), rel[0]))
            if os.path.isabs(os.readlink(link)):
                raise Violation("stable of %s is an absolute link" % p)
        else:
            link = os.path.join(out, p, "stable")
            if os.path.islink(link) and os.path.basename(os.readlink(link).rstrip("/")) == "dev":
                raise Violation("stable of %s is its development version" % p)
    if root and not os.path.exists(os.path.join(out, ".nojekyll")):
        raise Violation("no .nojekyll")
    if os.listdir(world.tmp):
        raise Violation("left %r behind" % (os.listdir(world.tmp),))
    return sum(want.values())


def start(world, projects, after, script):
    if script:
        argv = ["build-docs", REPO_NAME]
        if script != "default":
            for p in ["."] * (script == "docs") + projects:
                argv += ["--doc", p]
        if after is None:
            argv.append("--dev")
        old = sys.argv
        sys.argv = argv
        try:
            runpy.run_path(os.path.join(impl.REPO, "scripts", "build-docs"), run_name="__main__")
        finally:
            sys.argv = old
    else:
        fluent.docs.build.build(REPO_NAME, list(projects), None if after is None else date_of(after))


def spoil(world, how):
    """What may happen to the output between two builds."""
    out = os.path.join(world.repo, "_build", REPO_NAME)
    for p in PROJECTS:
        link = os.path.join(out, p, "stable")
        if not os.path.islink(link):
            continue
        if how == "copied":  # an artifact download turns links into copies
            target = os.path.realpath(link)
            os.unlink(link)
            shutil.copytree(target, link)
        elif how == "dangling":
            shutil.rmtree(os.path.realpath(link))


class C31(Check):
    id = "C31"
    case_seconds = 60

    def scopes(self, tier):
        big = tier == "thorough"
        n = 5 if big else 4

        def number(names):
            """Versions per project in a fixed order that is neither lexical nor numeric."""
            count = collections.Counter()
            tags = []
            for p in names:
                tags.append([p, VERSIONS[count[p] % len(VERSIONS)]])
                count[p] += 1
            return tags

        def histories(n, names, days):
            for k in range(n + 1):
                for seq in itertools.product(names, repeat=k):
                    for same in itertools.product([0, 1], repeat=max(0, k - 1)) if days else [(0,) * max(0, k - 1)]:
                        tags, day = number(seq), 0
                        for i, t in enumerate(tags):
                            if i and not same[i - 1]:
                                day += 2
                            t.append(day)
                        yield tags

        def cuts(tags):
            days = sorted({t[2] for t in tags})
            return [None] + sorted({x for d in days for x in (d - 1, d)} | {days[-1] + 1 if days else 0})

        SELS = [[SYN], [RUN], [SYN, RUN], [RUN, SYN]]

        def gen(block):
            names, sel = block
            for tags in histories(n, names, n <= 4):
                for after in cuts(tags):
                    yield dict(tags=tags, builds=[[len(tags), sel, after, "", ""]])
        s = [Scope("histories", "every sequence of up to %d tags over two projects and a foreign one, any same-day pattern (up to 4 tags), every cut-off in, between and on their days or none, 4 selections" % n,
                   [([SYN, RUN, f], sel) for f in FOREIGN[:1 if not big else 3] for sel in SELS], gen)]

        def gen_foreign(block):
            for tags in histories(3, [SYN] + FOREIGN, False):
                for after in (None, -1, 0, 2):
                    yield dict(tags=tags, builds=[[len(tags), block, after, "", ""]])
        s.append(Scope("foreign", "every sequence of up to 3 tags over a project and tags of unknown projects with similar names, selections of one and three projects",
                       [[SYN], PROJECTS, [PYG]], gen_foreign))

        def gen_again(block):
            first, second, how = block
            for tags in histories(3 if not big else 4, [SYN, RUN], False):
                for k in range(len(tags) + 1):
                    for after1 in (None, -1, 2):
                        for after2 in (None, -1, 2):
                            yield dict(tags=tags, builds=[[k, first, after1, "", how], [len(tags), second, after2, "", ""]])
        s.append(Scope("again", "every pair of builds over the same output with up to %d tags, the first with any prefix of them, any selections and 3 cut-offs; the stable link kept, turned into a copy or left dangling between them" % (4 if big else 3),
                       [(a, b, how) for a in SELS[1:3] for b in SELS[:3] for how in ("", "copied", "dangling")], gen_again))

        def gen_script(block):
            script, sel = block
            for tags in histories(3, PROJECTS[:2] + FOREIGN[:1], False):
                for shift in sorted({-1 - t[2] for t in tags} | {-t[2] for t in tags} | {1}):
                    for after in (0, None):
                        yield dict(tags=[[p, v, d + shift] for p, v, d in tags], builds=[[len(tags), sel, after, script, ""]])
        s.append(Scope("script", "scripts/build-docs with every selection option and --dev, every sequence of up to 3 tags around its fixed cut-off day",
                       [("default", PROJECTS), ("docs", [SYN]), ("docs", [RUN, SYN]), ("docs", [SYN, RUN, PYG])], gen_script))

        def gen_fail(block):
            for tags in histories(3, [SYN, RUN], False):
                for after in (None, -1, 0):
                    for k in range(2 + 3 * len(tags) + 4):
                        yield dict(tags=tags, fail=k, builds=[[len(tags), block, after, "", ""]])
        s.append(Scope("failures", "every sequence of up to 3 tags, each process of the build failing in turn", [[SYN], [SYN, RUN]], gen_fail))

        def long_history(k, shape):
            """k tags, the projects taking turns as in the shape."""
            count = collections.Counter()
            tags = []
            for i in range(k):
                p = shape[i % len(shape)]
                v = VERSIONS[count[p]] if count[p] < len(VERSIONS) else "%d.%d" % (4 + count[p] % 3, 20 - count[p] // 3)
                tags.append([p, v, 2 * (i // 2)])
                count[p] += 1
            return tags
        SHAPES = [[SYN], [RUN], [SYN, RUN], [SYN, SYN, RUN, "fluent.docs"], ["fluent.docs", RUN, RUN, RUN, SYN]]
        longest = 60 if big else 32

        def gen_long(block):
            for k, shape in block:
                tags = long_history(k, SHAPES[shape])
                for sel in (SELS[0], SELS[2], SELS[3]):
                    for after in (None, -1, 0, k // 2, k - 2):
                        yield dict(tags=tags, builds=[[k, sel, after, "", ""]])
                yield dict(tags=tags, builds=[[k - 1, SELS[2], -1, "", ""], [k, SELS[2], -1, "", ""]])
                yield dict(tags=tags, builds=[[k, SELS[2], -1, "", ""], [k, SELS[2], k // 2, "", ""]])
        s.append(Scope("long", "linear histories of 5 to %d tags in which projects take turns in %d ways, 5 cut-offs, 3 selections, built once and again after a further tag or with a later cut-off" % (longest, len(SHAPES)),
                       [[(k, i)] for k in range(5, longest + 1) for i in range(len(SHAPES))], gen_long))

        def gen_long_fail(block):
            for k, shape in block:
                tags = long_history(k, SHAPES[shape])
                for f in range(2 + 3 * k + 4):
                    yield dict(tags=tags, fail=f, builds=[[k, SELS[2], -1, "", ""]])
        s.append(Scope("long failures", "histories of 4 to %d tags, each process of the build failing in turn" % (longest // 2),
                       [[(k, i)] for k in range(4, longest // 2 + 1) for i in range(len(SHAPES))], gen_long_fail))
        s.append(Scope("long real", "histories of 9, 17 and 33 tags with the real git and an executable sphinx-build", [(k, i) for k in (9, 17, 33) for i in (1, 2)],
                       lambda block: [dict(tags=long_history(block[0], SHAPES[block[1]]), real=1, builds=[[block[0], SELS[2], -1, "", ""]])]))

        m = 3 if big else 2

        def gen_real(block):
            names, sel = block
            for tags in histories(m, names, True):
                for after in cuts(tags):
                    yield dict(tags=tags, real=1, builds=[[len(tags), sel, after, "", ""]])
        def gen_annotated(block):
            for tags in histories(m, [SYN, RUN], True):
                for annotated in range(1, 1 << len(tags)):
                    for after in cuts(tags):
                        yield dict(tags=tags, real=1, annotated=annotated, builds=[[len(tags), block, after, "", ""]])
        s.append(Scope("annotated", "with the real git, every sequence of up to %d tags over two projects of which any are annotated (made on the day of their commit)" % m, [[SYN], [SYN, RUN]], gen_annotated))
        s.append(Scope("real git", "the same with the real git and an executable sphinx-build: every sequence of up to %d tags over two projects and a foreign one" % m,
                       [([a, b, "fluent.docs"], sel) for a, b in ((SYN, RUN),) for sel in SELS], gen_real))

        def gen_real2(block):
            tags = [[SYN, "0.9", 1], [RUN, "0.9", 2], ["fluent.docs", "0.9", 2], [SYN, "0.10", 2], [RUN, "1.0a1", 5], [SYN, "0.9.1", 9]]
            for k in range(len(tags) + 1):
                for how in ("", "copied", "dangling"):
                    yield dict(tags=tags, real=1, builds=[[k, [SYN, RUN], block, "", how], [len(tags), [SYN, RUN], -1, "", ""]])
                for script, sel in (("default", PROJECTS), ("docs", [SYN])):
                    yield dict(tags=tags[:k], real=1, builds=[[k, sel, 0, script, ""]])
        s.append(Scope("real git again", "every prefix of a history of 6 tags followed by the whole, and through the script, with the real git", [-1, 1, 2, None], gen_real2))
        return s

    def run_case(self, scope, case):
        try:
            return self.run(case, bool(case.get("real")))
        except Unmodelled as e:
            if case.get("fail") is not None:
                return "not modelled"
            return self.run(case, True)

    def run(self, case, real):
        world = World(real)
        done = 0
        try:
            for k, projects, after, script, how in case["builds"]:
                tags = case["tags"][:k]
                world.set_tags(tags, case.get("annotated", 0))
                world.fail = case.get("fail")
                error = None
                with world.entered():
                    try:
                        start(world, projects, after, script)
                    except subprocess.CalledProcessError as e:
                        error = e
                    except Unmodelled:
                        raise
                    except (Exception, SystemExit) as e:
                        if world.fail is None or world.fail >= len(world.commands):
                            raise Violation("the build raised %s: %s" % (type(e).__name__, e)) from e
                        error = e
                if world.fail is not None and world.fail < len(world.commands):
                    if error is None and world.commands[world.fail][1:3] not in (["worktree", "remove"], ["worktree", "prune"]):
                        raise Violation("%r failed, but the build went on" % (world.commands[world.fail],))
                    return ["failed", case["fail"], len(world.commands)]
                if error is not None:
                    raise Violation("the build raised %r" % (error,))
                done += judge(world, tags, projects, after, bool(script))
                if how:
                    spoil(world, how)
        finally:
            world.remove()
        return done


CHECK = C31()
