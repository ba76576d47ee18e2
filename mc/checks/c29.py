"""C29: highlighting reproduces the source character for character."""
import contextlib
import io
import itertools
import os
import re
import sys
import tempfile

from .. import astgen, docs
from ..core import Check, Result, Scope, Violation
from fluent.pygments.lexer import FluentLexer
from pygments.token import is_token_subtype, Token

ANSI = re.compile("\x1b\\[[0-9;]*m")
OPTIONS = [{}, {"stripnl": False}, {"ensurenl": False}, {"stripall": True}, {"stripnl": False, "ensurenl": False}, {"tabsize": 4}]


def prepared(text, stripnl=True, ensurenl=True, stripall=False, tabsize=0):
    """What Pygments does to a text before it hands it to a lexer."""
    text = text.replace("\r\n", "\n").replace("\r", "\n")
    if text.startswith("\ufeff"):
        text = text[1:]
    if stripall:
        text = text.strip()
    elif stripnl:
        text = text.strip("\n")
    if tabsize > 0:
        text = text.expandtabs(tabsize)
    if ensurenl and not text.endswith("\n"):
        text += "\n"
    return text


def check_tokens(text, tokens):
    pos = 0
    for start, kind, value in tokens:
        if start != pos:
            raise Violation("token %r %r at %d, the one before ends at %d" % (kind, value, start, pos))
        if type(value) is not str or text[start:start + len(value)] != value:
            raise Violation("token %r at %d is not the text there: %r" % (value, start, text[start:start + len(value)]))
        if not value:
            raise Violation("empty token %r at %d" % (kind, start))
        if not is_token_subtype(kind, Token):
            raise Violation("%r is not a token type" % (kind,))
        pos += len(value)
    if pos != len(text):
        raise Violation("tokens end at %d of %d" % (pos, len(text)))


class C29(Check):
    id = "C29"

    def scopes(self, tier):
        deep = tier == "thorough"
        corpus = docs.CORPUS
        alpha = ["a", "=", " ", "\n", "\r\n", "\r", "\t", "#", "{", "}", "\ufeff", "\u2028", "\x0b", "\x1c"]
        n = 5 if deep else 4

        def gen_prep(block):
            for first in block:
                for rest in words(alpha, n - 1):
                    yield ["options", first + rest]

        def gen_cli(block):
            for i in block:
                for eol in ("\n", "\r\n"):
                    yield ["cli", corpus[i].replace("\n", eol)]
        return docs.standard(tier, 1) + astgen.layout_scopes(tier) + [
            Scope("options", "all texts of up to %d of %d symbols x %d settings of the lexer, as Pygments prepares them" % (n, len(alpha), len(OPTIONS)), [[a] for a in alpha], gen_prep),
            Scope("interleaved", "one lexer or two reading every pair of %d texts at the same time: every order of up to %d steps, then the rest; "
                  "readings given up" % (len(PAIRED), 10 if deep else 8), [[i] for i in range(len(PAIRED))],
                  lambda block: (["interleaved", i, j, 10 if deep else 8] for i in block for j in range(len(PAIRED)))),
            Scope("cli", "the corpus through the command-line tool, both line ends", [[i] for i in range(len(corpus))], gen_cli),
        ]

    def run_case(self, scope, case):
        if scope == "options":
            return self.options(case[1])
        if scope == "cli":
            return self.cli(case[1])
        if scope == "interleaved":
            return self.interleaved(*case[1:])
        text = case if isinstance(case, str) else case[0]
        lexer = FluentLexer()
        tokens = list(lexer.get_tokens_unprocessed(text))
        check_tokens(text, tokens)
        if "".join(v for _, v in lexer.get_tokens(text)) != prepared(text):
            raise Violation("get_tokens: %r" % (list(lexer.get_tokens(text)),))
        return tuple(str(k) for _, k, _ in tokens)

    def options(self, text):
        for o in OPTIONS:
            want = prepared(text, **o)
            got = list(FluentLexer(**o).get_tokens(text))
            if "".join(v for _, v in got) != want:
                raise Violation("%r: %r, should be %r" % (o, got, want))
            if want != text:
                check_tokens(want, list(FluentLexer(**o).get_tokens_unprocessed(want)))
        return Result(tuple(str(k) for k, _ in got), traces=len(OPTIONS), states=len(OPTIONS), transitions=len(OPTIONS))

    def interleaved(self, i, j, depth):
        """Readings of two texts don't disturb each other, whichever is advanced when, and whether or not they are finished."""
        texts = [PAIRED[i], PAIRED[j]]
        alone = [list(FluentLexer().get_tokens_unprocessed(t)) for t in texts]
        for t, tokens in zip(texts, alone):
            check_tokens(t, tokens)
        n = 0
        for schedule in itertools.product((0, 1), repeat=min(depth, len(alone[0]) + len(alone[1]))):
            for shared in (True, False):
                lexers = [FluentLexer()] * 2 if shared else [FluentLexer(), FluentLexer()]
                readers = [x.get_tokens_unprocessed(t) for x, t in zip(lexers, texts)]
                got = [[], []]
                for k in schedule:
                    got[k] += list(itertools.islice(readers[k], 1))
                if any(g != a[:len(g)] for g, a in zip(got, alone)):
                    raise Violation("%r read in the order %r: %r, alone %r" % (texts, schedule, got, alone))
                # the lexer is used anew while readings are under way
                if list(lexers[1].get_tokens_unprocessed(texts[0])) != alone[0]:
                    raise Violation("%r is read otherwise after %r of %r" % (texts[0], schedule, texts))
                got[1] += list(readers[1])
                got[0] += list(readers[0])
                n += 1
                if got != alone:
                    raise Violation("%r read in the order %r: %r, alone %r" % (texts, schedule, got, alone))
        return Result((i, j), traces=n, states=n, transitions=n)

    def cli(self, text):
        from fluent.pygments import cli
        fd, path = tempfile.mkstemp(prefix="verif-c29-")
        out = io.StringIO()
        argv = sys.argv
        try:
            os.write(fd, text.encode("utf-8"))
            os.close(fd)
            sys.argv = ["fluent-pygments", path]
            with contextlib.redirect_stdout(out):
                cli.main()
        finally:
            sys.argv = argv
            os.unlink(path)
        got = ANSI.sub("", out.getvalue())
        if got != prepared(text):
            raise Violation("prints %r, should be %r" % (got, prepared(text)))
        return len(got)


PAIRED = ["", "\n", "a = b\n", "# c\n\na = { $b } c\n", "key = { $x ->\n   *[o] { -t(a: 1) }\n  }\n", "junk\n\n## g\n-t = x\n    .a = y\n", "a = 1\r\nb = { F(\"s\") }"]


def words(alpha, n):
    """All strings of up to n symbols."""
    yield ""
    layer = [""]
    for _ in range(n):
        layer = [w + a for w in layer for a in alpha]
        yield from layer


CHECK = C29()
