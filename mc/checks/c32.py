"""C32: the command-line tools agree with the library."""
import io
import json
import os
import runpy
import shutil
import subprocess
import sys

from .. import docs, impl, trees
from ..core import Check, Result, Scope, Violation, chunks, scratch
from ..syn import build
from fluent.syntax import FluentParser, FluentSerializer, parse, serialize
from fluent.syntax import ast as FTL

TOOLS = os.path.join(impl.REPO, "tools")


def in_process(tool, path):
    """What a tool prints, run as a script within this process."""
    old = sys.argv, sys.stdout, list(sys.path)
    raw = io.BytesIO()
    sys.argv = [os.path.join(TOOLS, tool), path]
    out = sys.stdout = io.TextIOWrapper(raw, encoding="utf-8", newline="")
    try:
        try:
            runpy.run_path(sys.argv[0], run_name="__main__")
        except SystemExit as e:
            if e.code not in (None, 0):
                raise Violation("%s exits with %r" % (tool, e.code)) from e
        out.flush()
    except Violation:
        raise
    except Exception as e:
        raise Violation("%s raised %s: %s" % (tool, type(e).__name__, str(e)[:200])) from e
    finally:
        sys.argv, sys.stdout = old[:2]
        sys.path[:] = old[2]
    return raw.getvalue().decode("utf-8")


def as_process(tool, path):
    env = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
    env["PYTHONPATH"] = os.path.join(impl.REPO, "fluent.syntax")
    r = subprocess.run([sys.executable, os.path.join(TOOLS, tool), path], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise Violation("%s exits with %d: %s" % (tool, r.returncode, r.stderr.decode(errors="replace")[-300:]))
    return r.stdout.decode("utf-8")


class C32(Check):
    id = "C32"
    assumptions = ["files with a carriage return outside of a CR LF are left out of the clause on formatting twice (see the findings of C07)"]

    def scopes(self, tier):
        big = tier == "thorough"
        pool = trees.pool()

        def gen_pool(block):
            for i in block:
                t = pool[i]
                if t[0] == "Resource":
                    yield dict(tree=t)
        names = ["a.ftl", "no-extension", "sp ace.ftl", "\u00e9\u20ac.ftl", "./-dash.ftl", "sub/dir/x.ftl", "./a.ftl", "a.json", "a%s{}.ftl"]

        def gen_names(block):
            for n in block:
                for d in docs.CORPUS:
                    yield dict(name=n, text=d)

        def gen_process(block):
            for d in block:
                yield dict(text=d, process=1)
        out = [docs.raw(3), docs.raw(4, docs.SMALL, "raw4") if big else docs.raw(2, docs.SMALL, "raw2"), docs.holes(3 if big else 2),
               docs.lines(2, ("\n", "\r\n"), (True, False), name="lines2-crlf"), docs.truncations(),
               docs.codepoints(docs.ALL_CP if big else docs.BMP_QUICK, "codepoints"), docs.scale(big), docs.nesting(12)]
        if big:
            out.append(docs.edits())
        out += [Scope("trees", "JSON of all resources of the tree pool, with and without spans, in 4 JSON layouts", chunks(range(len(pool)), 64), gen_pool, dedupe=False),
                Scope("names", "the corpus under %d file names, absolute and relative" % len(names), [[n] for n in names], gen_names),
                Scope("processes", "the corpus and its CR LF forms through the tools as separate processes",
                      [[d] for d in dict.fromkeys(docs.CORPUS + [c.replace("\n", "\r\n") for c in docs.CORPUS] + ["", "\ufeffa = b\n", "a = \U0001f600\u2028\x00\n"])], gen_process)]
        return out

    def run_case(self, scope, case):
        if isinstance(case, str):
            case = dict(text=case)
        old = os.getcwd()
        top = scratch("verif-c32-")
        try:
            os.chdir(top)
            if "tree" in case:
                return self.trees(case["tree"])
            n = self.text(case["text"], case.get("name", "f.ftl"), bool(case.get("process")), os.path.join(top, "") if case.get("name") else "")
            return n
        finally:
            os.chdir(old)
            shutil.rmtree(top)

    def write(self, name, text):
        d = os.path.dirname(name)
        if d:
            os.makedirs(d, exist_ok=True)
        with open(name, "wb") as fh:
            fh.write(text.encode("utf-8"))

    def text(self, text, name, process, top):
        try:
            text.encode("utf-8")
        except UnicodeEncodeError:
            return Result("not UTF-8", 0)
        run = as_process if process else in_process
        self.write(name, text)
        ast = FluentParser().parse(text)
        want = FluentSerializer().serialize(ast)
        runs = 0
        for path in [name] + ([os.path.join(top, name)] if top else []):
            got = run("fluentfmt.py", path)
            if got != want + "\n":
                raise Violation("fluentfmt.py prints %r, the library gives %r" % (got, want))
            tree = run("parse.py", path)
            try:
                j = json.loads(tree)
            except ValueError as e:
                raise Violation("parse.py prints no JSON: %s" % e) from e
            if json.dumps(j) != json.dumps(ast.to_json()):
                raise Violation("parse.py prints %r, the library gives %r" % (j, ast.to_json()))
            self.write("tree.out", tree)
            again = run("serialize.py", "tree.out")
            if again != got:
                raise Violation("serialize.py prints %r for the output of parse.py, fluentfmt.py %r" % (again, got))
            runs += 3
        if "\r" not in text.replace("\r\n", ""):
            self.write("again.ftl", got)
            twice = run("fluentfmt.py", "again.ftl")
            runs += 1
            if twice != got:
                raise Violation("formatting again gives %r, was %r" % (twice, got))
        if open(name, "rb").read() != text.encode("utf-8"):
            raise Violation("the file was changed")
        return Result([len(got), len(j["body"])], runs)

    def trees(self, t):
        runs = 0
        for spans in (True, False):
            ast = build(t)
            if spans:
                ast.add_span(0, 5)
            want = FluentSerializer().serialize(ast)
            j = ast.to_json()
            for form in (dict(indent=2, ensure_ascii=False), dict(), dict(indent="\t", sort_keys=True), dict(separators=(",", ":"))):
                self.write("t.json", json.dumps(j, **form))
                got = in_process("serialize.py", "t.json")
                runs += 1
                if got != want + "\n":
                    raise Violation("serialize.py prints %r, the library gives %r" % (got, want))
        return Result(len(want), runs)


CHECK = C32()
