"""PICO-8 Lua tokens: building blocks of the program generators, layout of tokens as text, and an independent tokenizer"""
import re

KEYWORDS = {"and", "break", "do", "else", "elseif", "end", "false", "for", "function", "goto", "if", "in", "local", "nil", "not", "or",
    "repeat", "return", "then", "true", "until", "while"}

class Tok:
    """k: kw, id, num, str, op, or the pseudo kind nl (a line break is required here).
    stick: no line break may come before this token"""
    __slots__ = ("k", "s", "stick", "b", "hint", "pos")
    def __init__(self, k, s, b=None):
        self.k, self.s, self.b, self.stick, self.hint, self.pos = k, s, b, False, None, None
    def __repr__(self):
        return self.s

def kw(s): return Tok("kw", s)
def op(s): return Tok("op", s)
def ident(s, b=None): return Tok("id", s, b)
def NL(): return Tok("nl", "\n")

def is_word(c):
    return c.isalnum() and c < "\x80" or c == "_" or c >= "\x80" or c in "\x1e\x1f"

OPS = ["...", "..=", "<<>=", ">><=", ">>>=", "<<>", ">><", ">>>", "<<=", ">>=", "^^=", "..", "==", "~=", "!=", "<=", ">=", "<<", ">>", "^^", "+=", "-=", "*=",
    "/=", "\\=", "%=", "^=", "|=", "&=", "::", "+", "-", "*", "/", "\\", "%", "^", "#", "&", "~", "|", "<", ">", "=", "(", ")", "{", "}", "[",
    "]", ";", ":", ",", ".", "?", "@", "$"]
OPS.sort(key=len, reverse=True)
_opset = set(OPS)
_oppref = {o[:i] for o in OPS for i in range(1, len(o) + 1)} | {"--", "//", "[="}

def need_space(a, b):
    """may tokens a and b not be written next to each other? (conservative)"""
    x, y = a.s, b.s
    if a.k in ("id", "kw") and b.k in ("id", "kw", "num") and is_word(y[0]):
        return True
    if a.k in ("id", "kw") and b.k == "num":
        return is_word(y[0])
    if a.k == "num":
        return is_word(y[0]) or y[0] == "."
    if b.k == "num" and y[0] == "." and a.k == "op" and x.endswith("."):
        return True
    if a.k == "op" and (b.k == "op" or b.k == "str" and y[0] == "["):
        if x in "(){},;]?" and x not in "[" and y[0] not in "=":
            return False
        if x in "{(,;" : return False
        # would a longer operator or a comment appear?
        j = x + y[0]
        if j in _oppref or (x[-1] + y[0]) in ("--", "//", "[[", "[=", "..", "==", "~=", "<=", ">=", "!=", "::"):
            return True
        if x[-1] in "+-*/\\%^|&~<>=.:[!" and y[0] in "+-*/\\%^|&~<>=.:[!":
            return True
    return False

COMMENT_TEXT = ["", "x", " hello world", " a=1", "if", " end", "[", "[=", "]]"[:1], "\"", "'", " don't", "--", "//", " \\", " local x=3", "\x8e\xff", " [[ ]", "1"]

class Layout:
    """turns tokens into text. styles: 0 plain, 1 compact, 2 wild"""
    def __init__(self, g, style=None, comments=True, keep=0.0):
        self.g = g
        self.style = g.weighted([(4, 0), (3, 1), (3, 2)]) if style is None else style
        self.comments_on = comments
        self.comments = []  # (text including its markers, is line comment)
        self.keep = keep

    def comment(self, can_break):
        g = self.g
        text = g.choice(COMMENT_TEXT)
        pre = ""
        if self.keep and g.bool(self.keep):
            pre = g.choice(["$keep:", "keep:"])
            g.event("kept comments")
            if g.bool(0.15): text = g.choice(["keep:", "$keep:", "--keep:"]) + text if g.bool() else text + " keep: x"
        form = g.draw(3 if can_break else 1)
        if form == 0:
            if "]" in text or text.endswith("["): text = "q"
            if can_break and g.bool(0.2): text += "\n more"
            a, b = "--[[", "]]"
        elif form == 1:
            n = g.int(0, 2)
            if "]" + "=" * n + "]" in text + "]" + "=" * n: text = "q"
            a, b = "--[" + "=" * n + "[", "]" + "=" * n + "]"
        elif form == 2:
            if text.startswith("["): text = " " + text
            a, b = "--", ""
        else:
            a, b = "//", ""
        # (source text, text once the keep marker is removed, kept)
        self.comments.append((a + pre + text + b, a + text + b, bool(pre)))
        return a + pre + text + b + ("\n" if not b else "")

    def gap(self, a, b, must_nl, no_nl):
        g = self.g
        need = a is not None and b is not None and a.k != "nl" and need_space(a, b)
        if must_nl:
            if self.style == 2 and self.comments_on and g.bool(0.1):
                c = self.comment(True)
                return " " + (c if c.endswith("\n") else c + "\n")
            return g.weighted([(8, "\n"), (1, "\n\n"), (1, "  \n\t"), (1, " \n")]) if self.style else "\n"
        if self.style == 0:
            return " " if need or not g.bool(0.3) else ""
        if self.style == 1:
            if need:
                return " " if no_nl or g.bool(0.8) else "\n"
            return "" if not g.bool(0.08) else " "
        r = g.weighted([(10, 0), (8, 1), (0 if no_nl else 3, 2), (1, 3), (1.0 if self.comments_on else 0, 4)])
        if r == 0:
            return " " if need else ""
        if r == 1:
            return " "
        if r == 2:
            return g.choice(["\n", "\n\n", " \n  "]) if not no_nl else " "
        if r == 3:
            return g.choice(["  ", "\t", "   \t"])
        c = self.comment(not no_nl)
        pre = " "
        return pre + c + (" " if not c.endswith("\n") else "")

    def render(self, toks):
        out = []
        pos = 0
        prev, must = None, False
        any_tok = False
        def put(s):
            nonlocal pos
            out.append(s)
            pos += len(s)
        for t in toks:
            if t.k == "nl":
                must = True
                continue
            if any_tok or must:
                put(self.gap(prev, t, must, t.stick and not must))
            elif self.style == 2:
                put(self.gap(None, t, False, False))
            if t.hint:
                put(t.hint)
            t.pos = pos
            put(t.s)
            prev, must, any_tok = t, False, True
        tail = self.g.weighted([(3, "\n"), (1, ""), (1, " "), (1, "\n\n")]) if self.style else "\n"
        if must and not tail.startswith("\n"):
            tail = "\n"
        put(tail)
        if self.style == 2 and self.comments_on and self.g.bool(0.1):
            put(("" if tail.endswith("\n") else " ") + self.comment(True))
        return "".join(out).encode("latin-1")

def join(toks):
    """simple text of tokens, for messages and for shrunk cases"""
    out, prev, must = "", None, False
    for t in toks:
        if t.k == "nl":
            must = True
            continue
        if must: out += "\n"
        elif prev is not None: out += " "
        out += t.s
        prev, must = t, False
    return out

# ---------------------------------------------------------------- literals

def esc_string(g, data, allow_nl=True, picotron=False):
    """some spelling of a string literal with this value"""
    s = data.decode("latin-1")
    form = g.weighted([(6, '"'), (3, "'"), (2, "[")])
    if form == "[" and "\r" not in s and (allow_nl or "\n" not in s) and "\0" not in s:
        n = g.weighted([(4, 0), (1, 1), (1, 2)])
        while "]" + "=" * n + "]" in s or (s.endswith("]" + "=" * n)):
            n += 1
        pre = ""
        if allow_nl and g.bool(0.2) or s.startswith("\n"):
            pre = "\n"
        if not allow_nl and pre:
            form = '"'
        else:
            return "[" + "=" * n + "[" + pre + s + "]" + "=" * n + "]"
    if form == "[":
        form = '"'
    out = form
    for i, c in enumerate(s):
        b = ord(c)
        nxt = s[i+1:i+2]
        special = {7: "\\a", 8: "\\b", 9: "\\t", 10: "\\n", 11: "\\v", 12: "\\f", 13: "\\r", 34: "\\\"", 39: "\\'", 92: "\\\\"}
        if not picotron:
            special.update({1: "\\*", 2: "\\#", 3: "\\-", 4: "\\|", 5: "\\+", 6: "\\^"})
        must = c == form or c in "\\\n\r\0"
        style = g.weighted([(8, 0), (1, 1), (1, 2), (1, 3)]) if not must else g.weighted([(5, 1), (1, 2), (1, 3)])
        if style == 1 and b not in special:
            style = 0 if not must else 2
        if style == 0:
            out += c
        elif style == 1:
            out += special[b] if not (c == "\n" and allow_nl and g.bool(0.3)) else "\\\n"
        elif style == 2:
            d = str(b)
            if nxt.isdigit() or g.bool(0.3):
                d = d.zfill(3)
            out += "\\" + d
        else:
            out += "\\x%02x" % b
        if g.bool(0.02):
            out += "\\z" + g.choice([" ", "  ", "\n "] if allow_nl else [" ", "  "])
            if nxt and nxt.isspace():
                # \z would swallow it
                out = out[:out.rindex("\\z")]
    return out + form

def gen_string_value(g):
    kind = g.weighted([(6, 0), (2, 1), (1, 2), (1, 3)])
    if kind == 0:
        return g.choice(["", "a", "hi", "x y", "key", "foo bar", "12", "1.5", "0x10", "a,b,c", "-", "]]", "--", "it's", "say \"hi\"", "end", "\\n"]).encode()
    n = g.count(0, 12, 3)
    if kind == 1:
        return bytes(g.int(32, 126) for _ in range(n))
    if kind == 2:
        return bytes(g.choice([0, 1, 6, 7, 9, 10, 13, 15, 16, 31, 34, 39, 48, 57, 92, 93, 127, 128, 255]) for _ in range(n))
    return bytes(g.int(0, 255) for _ in range(n))

def gen_number(g, small=False):
    """the text of a PICO-8 number literal"""
    k = g.weighted([(10, 0), (4, 1), (2, 2), (2, 3), (2, 4), (2, 5), (1, 6), (1, 7)])
    if k == 0:
        return str(g.int(0, 12))
    if k == 1:
        return g.choice(["0", "1", "2", "10", "16", "100", "128", "255", "256", "1000", "32767", "0.5", "0.25", "1.5", ".5", "2.", "0.1", "0.001"])
    if k == 2:
        return str(g.int(0, 32767))
    if k == 3:
        d = g.int(1, 6)
        return f"{g.int(0, 32767)}.{g.int(0, 10**d - 1):0{d}d}"
    if k == 4:
        p = g.choice(["0x", "0X"])
        v = g.int(0, 0xffff)
        s = p + ("%x" if g.bool(0.7) else "%X") % v
        if g.bool(0.5):
            s += "." + "%x" % g.int(0, 0xffff) if g.bool(0.6) else "." + "%04x" % g.int(0, 0xffff)
        return s
    if k == 5:
        s = "0b" + bin(g.int(0, 0xffff))[2:]
        if g.bool(0.4):
            s += "." + bin(g.int(0, 0xffff))[2:]
        return s
    if k == 6:
        return g.choice(["0x7fff.ffff", "0x8000", "0x8000.0001", "0xffff.ffff", "0xffff", "0x.0001", "0.00001", "0.00002", "32767.99999", "32768", "65535",
                         "65536", "0x.8", "0b.1", "0x1.", "00012", "000.5", "0x00.8000", "99999", "32767.999999999", "0x12345", "0x0.12345"])
    return "." + str(g.int(0, 99999))

# ---------------------------------------------------------------- an independent tokenizer of PICO-8 Lua

class LexError(Exception):
    pass

_num_re = re.compile(r"0[xX][0-9a-fA-F]*(?:\.(?!\.)[0-9a-fA-F]*)?|0[bB][01]*(?:\.(?!\.)[01]*)?|\d+(?:\.(?!\.)\d*)?|\.\d+")
_word_re = re.compile(r"[A-Za-z_\x80-\xff\x1e\x1f][A-Za-z0-9_\x80-\xff\x1e\x1f]*")
_long_re = re.compile(r"\[(=*)\[")

def tokenize(data, comments=None, spans=None):
    """bytes -> list of (kind, text, line). comments: list to receive (text, line, token index); spans: list to receive (start, end)"""
    s = data.decode("latin-1")
    i, line, out = 0, 0, []
    n = len(s)
    while i < n:
        if spans is not None and len(spans) < len(out):
            spans.append((i - len(out[-1][1]), i))
        c = s[i]
        if c == "\n":
            line += 1; i += 1; continue
        if c in " \t\r":
            i += 1; continue
        if s.startswith("--", i) or s.startswith("//", i):
            m = _long_re.match(s, i + 2) if c == "-" else None
            if m:
                close = "]" + m.group(1) + "]"
                j = s.find(close, m.end())
                if j < 0: raise LexError("unterminated comment")
                j += len(close)
            else:
                j = s.find("\n", i)
                if j < 0: j = n
            if comments is not None:
                comments.append((s[i:j], line, len(out)))
            line += s.count("\n", i, j)
            i = j
            continue
        if c in "\"'":
            j = i + 1
            while True:
                if j >= n: raise LexError("unterminated string")
                if s[j] == "\\":
                    if s[j+1:j+2] == "z":
                        j += 2
                        while j < n and s[j] in " \t\r\n\v\f": j += 1
                    else:
                        j += 2
                    continue
                if s[j] == c: break
                if s[j] == "\n": raise LexError("line break in string")
                j += 1
            out.append(("str", s[i:j+1], line))
            line += s.count("\n", i, j)
            i = j + 1
            continue
        m = _long_re.match(s, i)
        if m:
            close = "]" + m.group(1) + "]"
            j = s.find(close, m.end())
            if j < 0: raise LexError("unterminated string")
            j += len(close)
            out.append(("str", s[i:j], line))
            line += s.count("\n", i, j)
            i = j
            continue
        if c.isdigit() and c < "\x80" or (c == "." and s[i+1:i+2].isdigit() and s[i+1:i+2] < "\x80"):
            m = _num_re.match(s, i)
            out.append(("num", m.group(), line))
            i = m.end()
            continue
        m = _word_re.match(s, i)
        if m:
            w = m.group()
            out.append(("kw" if w in KEYWORDS else "id", w, line))
            i = m.end()
            continue
        for o in OPS:
            if s.startswith(o, i):
                out.append(("op", o, line))
                i += len(o)
                break
        else:
            raise LexError(f"unexpected {c!r}")
    if spans is not None and len(spans) < len(out):
        spans.append((i - len(out[-1][1]), i))
    return out

_simple_esc = {"a": 7, "b": 8, "t": 9, "n": 10, "v": 11, "f": 12, "r": 13, "\\": 92, '"': 34, "'": 39, "*": 1, "#": 2, "-": 3, "|": 4, "+": 5,
               "^": 6, "\n": 10}

def string_value(text):
    """value of a string literal, as bytes"""
    m = _long_re.match(text)
    if m:
        body = text[m.end():len(text) - len(m.group(1)) - 2]
        if body.startswith("\n"): body = body[1:]
        return body.encode("latin-1")
    out = bytearray()
    i, end = 1, len(text) - 1
    while i < end:
        c = text[i]
        if c != "\\":
            out.append(ord(c)); i += 1; continue
        c = text[i+1]
        if c in _simple_esc:
            out.append(_simple_esc[c]); i += 2
        elif c == "z":
            i += 2
            while i < end and text[i] in " \t\r\n\v\f": i += 1
        elif c == "x":
            out.append(int(text[i+2:i+4], 16)); i += 4
        elif c.isdigit():
            j = i + 1
            while j < min(i + 4, end) and text[j].isdigit(): j += 1
            v = int(text[i+1:j])
            if v > 255: raise LexError("escape too large")
            out.append(v); i = j
        else:
            raise LexError("bad escape \\" + c)
    return bytes(out)

def number_value(text):
    """value of a PICO-8 number literal as an unsigned 16.16 integer (digits beyond 16 bits of fraction are cut off for hex and
    binary, decimal fractions are rounded down)"""
    t = text.lower()
    from fractions import Fraction
    base = 10
    if t.startswith("0x"): base, t = 16, t[2:]
    elif t.startswith("0b"): base, t = 2, t[2:]
    whole, _, frac = t.partition(".")
    v = Fraction(int(whole or "0", base))
    if frac:
        v += Fraction(int(frac, base), base ** len(frac))
    return int(v * 65536) & 0xffffffff
