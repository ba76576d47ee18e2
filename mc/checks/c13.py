"""C13: the parser stream's cursor and look-ahead obey their contract.

Explicit-state search: a state is (text, cursor cell, look-ahead cell).  For
every text and every reachable state each operation is run on the real stream
and on a plain cursor over the text's cells, where CRLF is one cell."""
import itertools

from .. import docs
from ..core import Check, Result, Scope, Violation, chunks, strings
from fluent.syntax import FluentParserStream
from fluent.syntax.errors import ParseError

ALPHA = ["a", "0", " ", "\n", "\r\n", "\r", "#", ".", "[", "*", "{", "-", "}"]
TEXTS = ["", "a", "\r\n", "\r\n\r\n", "\r\r\n", "\n\r\n", " \r\n a", "a\r\n# b", "\n## x", "\r\n###", "\r\n#", "*[a]",
         "*[[a", "[[", " [", "  {a", "\r\n  .a", "-0", "--0", "-\r\n0", "0-", "\u00e90", "\U0001f600\r\na", " \t a",
         "\n \n\r\n  \n a", "   ", " \r\n ", "\r", "a\r", " \r", "\r ", "\n\n\n", "#\n#\n", "\n# ", "\n#a", "a\n-b\r\n#c",
         "!\n!\r\nz", "!\n//x", "!\r\n[[s", "!\n[a\n/ /\nb", "!\n  a\n0\n-", "ab\r\ncd"]
ABC = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIG = "0123456789"


class Model:
    __slots__ = ("text", "cells", "start", "i", "p")

    def __init__(self, text):
        self.text = text
        self.cells, self.start = [], []
        k = 0
        while k < len(text):
            self.start.append(k)
            if text[k:k + 2] == "\r\n":
                self.cells.append("\n")
                k += 2
            else:
                self.cells.append(text[k])
                k += 1
        self.start.append(len(text))
        self.i = self.p = 0

    def at(self, k):
        return self.cells[k] if k < len(self.cells) else None

    def view(self):
        return (self.start[self.i], self.start[self.p] - self.start[self.i], self.at(self.i), self.at(self.p))

    def eof(self, k):
        return k >= len(self.cells)


ANY_EOL = object()
SKIP = object()


def _raw(m, k):
    """next() and peek() may name a CRLF by its first or second character."""
    if m.eof(k):
        return None
    if m.start[k + 1] - m.start[k] == 2:
        return ANY_EOL
    return m.cells[k]


def _blanks(m):
    a = m.p
    while m.at(m.p) == " ":
        m.p += 1
    return " " * (m.p - a)


def _block(m):
    out = ""
    while True:
        line = m.p
        _blanks(m)
        if m.at(m.p) == "\n":
            m.p += 1
            out += "\n"
            continue
        if m.at(m.p) is not None:
            m.p = line
        return out


def m_next(m):
    if m.eof(m.i):
        return SKIP
    m.i += 1
    m.p = m.i
    return _raw(m, m.i)


def m_peek(m):
    if m.eof(m.p):
        return SKIP
    m.p += 1
    return _raw(m, m.p)


def m_reset(m):
    m.p = m.i


def m_skip(m):
    m.i = m.p


def m_peek_blank_inline(m):
    return _blanks(m)


def m_skip_blank_inline(m):
    b = _blanks(m)
    m.i = m.p
    return b


def m_peek_blank_block(m):
    return _block(m)


def m_skip_blank_block(m):
    b = _block(m)
    m.i = m.p
    return b


def m_peek_blank(m):
    while m.at(m.p) in (" ", "\n"):
        m.p += 1


def m_skip_blank(m):
    m_peek_blank(m)
    m.i = m.p


def m_expect(ch):
    def f(m):
        if m.at(m.i) == ch:
            m.i += 1
            m.p = m.i
            return True
        return ("error", "E0003", (ch,))
    return f


def m_expect_eol(m):
    c = m.at(m.i)
    if c is None:
        return True
    if c == "\n":
        m.i += 1
        m.p = m.i
        return True
    return ("error", "E0003", ("\u2424",))


def m_take(chars, error=None):
    def f(m):
        c = m.at(m.i)
        if c is not None and c in chars:
            m.i += 1
            m.p = m.i
            return c
        if error:
            return error
        return None if c is None else False
    return f


def m_ident(m):
    c = m.at(m.p)
    return c is not None and c in ABC


def m_num(m):
    if m.p != m.i:
        return SKIP
    k = m.i + 1 if m.at(m.i) == "-" else m.i
    c = m.at(k)
    return c is not None and c in DIG


def m_value_start(m):
    return m.at(m.p) not in (None, "\n")


def m_value_cont(m):
    k = m.p
    while m.at(k) == " ":
        k += 1
    c = m.at(k)
    if c == "{":
        return True
    if k > m.p and c is not None and c not in "}.[*":
        return True
    m.p = m.i
    return False


def m_comment(level):
    def f(m):
        if m.p != m.i:
            return SKIP
        if m.at(m.p) != "\n":
            return False
        k = m.p + 1
        for _ in range(level + 1):
            if m.at(k) != "#":
                return False
            k += 1
        return m.at(k) in (" ", "\n", None)
    return f


def m_variant(m):
    k = m.p + 1 if m.at(m.p) == "*" else m.p
    return m.at(k) == "[" and m.at(k + 1) != "["


def m_attr(m):
    return m.at(m.p) == "."


def _resync(m, junk_start):
    # rewind to the last line end after the junk's start
    k = None
    for j in range(m.i):
        if m.cells[j] == "\n" and m.start[j] > junk_start:
            k = j
    if k is not None:
        m.i = k
    while not m.eof(m.i):
        if m.cells[m.i] != "\n":
            m.i += 1
            continue
        m.i += 1
        c, d = m.at(m.i), m.at(m.i + 1)
        if c is not None and (c in ABC or c in "-#"):
            break
        if c == d and c in ("/", "["):
            break
    m.p = m.i


def m_resync0(m):
    if not m.cells or m.cells[0] == "\n":
        return SKIP
    _resync(m, 0)


def m_resync_here(m):
    if m.at(m.i) in (None, "\n"):
        return SKIP
    _resync(m, m.start[m.i])


def _vc(s):
    r = s.is_value_continuation()
    if not r:
        s.reset_peek()
    return r


def _reset_saved(s):
    s.peek()
    o = s.peek_offset
    s.peek_blank()
    s.reset_peek(o)


def m_reset_saved(m):
    if m.eof(m.p):
        return SKIP
    m.p += 1


OPS = [
    ("next", m_next, lambda s: s.next()),
    ("peek", m_peek, lambda s: s.peek()),
    ("reset_peek", m_reset, lambda s: s.reset_peek()),
    ("skip_to_peek", m_skip, lambda s: s.skip_to_peek()),
    ("peek_blank_inline", m_peek_blank_inline, lambda s: s.peek_blank_inline()),
    ("skip_blank_inline", m_skip_blank_inline, lambda s: s.skip_blank_inline()),
    ("peek_blank_block", m_peek_blank_block, lambda s: s.peek_blank_block()),
    ("skip_blank_block", m_skip_blank_block, lambda s: s.skip_blank_block()),
    ("peek_blank", m_peek_blank, lambda s: s.peek_blank()),
    ("skip_blank", m_skip_blank, lambda s: s.skip_blank()),
    ("expect a", m_expect("a"), lambda s: s.expect_char("a")),
    ("expect nl", m_expect("\n"), lambda s: s.expect_char("\n")),
    ("expect sp", m_expect(" "), lambda s: s.expect_char(" ")),
    ("expect_line_end", m_expect_eol, lambda s: s.expect_line_end()),
    ("take a|nl", m_take("a\n"), lambda s: s.take_char(lambda c: c in "a\n")),
    ("take any", m_take(type("Any", (), {"__contains__": lambda self, x: True})()), lambda s: s.take_char(lambda c: True)),
    ("take_id_start", m_take(ABC, ("error", "E0004", ("a-zA-Z",))), lambda s: s.take_id_start()),
    ("take_id_char", m_take(ABC + DIG + "-_"), lambda s: s.take_id_char()),
    ("take_digit", m_take(DIG), lambda s: s.take_digit()),
    ("take_hex_digit", m_take(DIG + "abcdefABCDEF"), lambda s: s.take_hex_digit()),
    ("is_identifier_start", m_ident, lambda s: s.is_identifier_start()),
    ("is_number_start", m_num, lambda s: s.is_number_start()),
    ("is_value_start", m_value_start, lambda s: s.is_value_start()),
    ("is_value_continuation", m_value_cont, _vc),
    ("is_next_line_comment 0", m_comment(0), lambda s: s.is_next_line_comment(0)),
    ("is_next_line_comment 1", m_comment(1), lambda s: s.is_next_line_comment(level=1)),
    ("is_next_line_comment 2", m_comment(2), lambda s: s.is_next_line_comment(2)),
    ("is_variant_start", m_variant, lambda s: s.is_variant_start()),
    ("is_attribute_start", m_attr, lambda s: s.is_attribute_start()),
    ("skip_to_next_entry_start 0", m_resync0, lambda s: s.skip_to_next_entry_start(0)),
    ("skip_to_next_entry_start here", m_resync_here, lambda s: s.skip_to_next_entry_start(s.index)),
    ("reset_peek to saved", m_reset_saved, _reset_saved),
]
PURE = {"is_identifier_start", "is_number_start", "is_value_start", "is_variant_start", "is_attribute_start"}


def step(m, s, op, trail):
    """Runs one operation on both; False if its precondition fails."""
    name, model, real = op
    i, p = m.i, m.p
    want = model(m)
    if want is SKIP:
        m.i, m.p = i, p
        return False
    try:
        got = real(s)
    except ParseError as e:
        got = ("error", e.code, tuple(e.args))
    if want is ANY_EOL:
        ok = got in ("\r", "\n")
    elif type(want) is bool:
        ok = got is want
    else:
        ok = got == want and type(got) is type(want)
    if not ok:
        raise Violation("%r after %r on %r returns %r, should be %r" % (name, trail, m.text, got, want))
    have = (s.index, s.peek_offset, s.current_char, s.current_peek)
    if have != m.view():
        raise Violation("after %r then %r on %r: (index, peek_offset, char, peek) = %r, should be %r"
                        % (trail, name, m.text, have, m.view()))
    if s.string != m.text:
        raise Violation("the text itself was changed to %r" % s.string)
    return True


class C13(Check):
    id = "C13"
    assumptions = ["once next() was called at the end of the text, the cursor's number is left open; is_number_start and is_next_line_comment "
                   "are called with the look-ahead at the cursor; is_value_continuation returning False is followed "
                   "by reset_peek (all as in the parser)",
                   "is_next_line_comment is exercised with its levels 0-2, which is all the parser uses"]

    def scopes(self, tier):
        thorough = tier == "thorough"
        n = 5 if thorough else 4

        def gen(block):
            if block is None:
                for t in strings(ALPHA, 1):
                    yield ["states", t]
                for t in TEXTS:
                    yield ["states", t]
                return
            for t in strings(ALPHA, n - 2):
                yield ["states", block + t]
        pairs = ["".join(t) for t in itertools.product(ALPHA, repeat=2)]

        def gen_corpus(block):
            for i in block:
                yield ["states", docs.CORPUS[i][:400]]
        ends = [t for t in TEXTS if len(t) < 4][:3] + ["", "a", "\r\n", "\r", "-", "*", "#", " ", "a\r\n"]
        far = ["next", "peek", "reset_peek", "skip_to_peek"] + sorted(PURE) + ["skip_blank", "skip_blank_inline", "skip_blank_block", "peek_blank", "peek_blank_inline", "peek_blank_block", "expect_line_end", "take_digit", "take_hex_digit", "take_id_char"]
        endlen = 4 if thorough else 3

        def gen_end(block):
            for text in block:
                for k in range(3):
                    for seq in itertools.product(far, repeat=endlen):
                        yield ["end", text, k, list(seq)]
        depth = 4 if thorough else 3
        seqtexts = TEXTS + [a + b for a in ALPHA for b in ("\r\n", " a")]

        def gen_seq(block):
            for ti, first in block:
                yield ["seq", seqtexts[ti], first, depth]
        return [
            Scope("states%d" % n, "every reachable (cursor, look-ahead) state of every text of <=%d symbols over %d "
                  "characters (CRLF one symbol), every operation" % (n, len(ALPHA)), [None] + pairs, gen),
            Scope("end", "every sequence of %d of %d operations at the end of %d texts, after looking 0-2 characters beyond it" % (endlen, len(far), len(ends)), chunks(ends, 16), gen_end),
            Scope("corpus-states", "the same on the %d corpus documents" % len(docs.CORPUS),
                  [[i] for i in range(len(docs.CORPUS))], gen_corpus),
            Scope("sequences%d" % depth, "every sequence of %d operations (of %d) on %d texts, one live stream each"
                  % (depth, len(OPS), len(seqtexts)),
                  chunks([(t, f) for t in range(len(seqtexts)) for f in range(len(OPS))], 128), gen_seq),
        ]

    def run_case(self, scope, case):
        return getattr(self, "do_" + case[0])(*case[1:])

    def do_states(self, text):
        m = Model(text)
        n = len(m.cells)
        s = FluentParserStream(text)
        for k in range(len(text) + 2):
            want = text[k] if k < len(text) else None
            if s.get(k) != want:
                raise Violation("get(%d) of %r = %r" % (k, text, s.get(k)))
            if text[k:k + 2] == "\r\n":
                want = "\n"
            if s.char_at(k) != want:
                raise Violation("char_at(%d) of %r = %r" % (k, text, s.char_at(k)))
        states = trans = 0
        for i in range(n + 1):
            hi = n if n < 60 else min(n, i + 6)
            for p in range(i, hi + 1):
                states += 1
                for op in OPS:
                    s = FluentParserStream(text)
                    for _ in range(i):
                        s.next()
                    for _ in range(p - i):
                        s.peek()
                    m.i, m.p = i, p
                    if (s.index, s.peek_offset) != (m.start[i], m.start[p] - m.start[i]):
                        raise Violation("%d next() and %d peek() on %r lead to (%d, %d)"
                                        % (i, p - i, text, s.index, s.peek_offset))
                    trans += step(m, s, op, "%d next, %d peek" % (i, p - i))
        return Result((n, states), traces=trans, states=states, transitions=trans)

    def do_end(self, text, ahead, seq):
        """There is nothing at the end of the text, however often one asks."""
        s = FluentParserStream(text)
        while s.current_char is not None:
            s.next()
        if s.index != len(text):
            raise Violation("the cursor ends at %d of %r" % (s.index, text))
        for _ in range(ahead):
            s.peek()
        for k, name in enumerate(seq):
            i = s.index
            got = getattr(s, name)()
            if s.current_char is not None or s.current_peek is not None:
                raise Violation("%r found at the end of %r after %r and %r" % ((s.current_char, s.current_peek), text, ahead, seq[:k + 1]))
            if got not in ("", None, False, True) or (got is True and name != "expect_line_end"):
                raise Violation("%s returns %r at the end of %r after %r" % (name, got, text, seq[:k]))
            if name in ("next", "reset_peek", "skip_to_peek") and s.peek_offset != 0:
                raise Violation("%s keeps looking ahead at the end of %r after %r" % (name, text, seq[:k]))
            if ("peek" in name or name in PURE) and name != "skip_to_peek" and s.index != i:
                raise Violation("%s moves the cursor at the end of %r" % (name, text))
        return "end"

    def do_seq(self, text, first, depth):
        states = set()
        runs = 0
        m = Model(text)
        for rest in itertools.product(range(len(OPS)), repeat=depth - 1):
            m.i = m.p = 0
            s = FluentParserStream(text)
            trail = []
            for k in (first,) + rest:
                step(m, s, OPS[k], trail)
                trail.append(OPS[k][0])
            states.add((m.i, m.p))
            runs += 1
        return Result((len(states),), traces=runs, states=len(states), transitions=runs * depth)


CHECK = C13()
