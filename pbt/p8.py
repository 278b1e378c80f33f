"""Independent model of the PICO-8 character set and of the .p8 text container (nothing here is taken from /repo)"""

_low = "\0¹²³⁴⁵⁶⁷⁸\t\nᵇᶜ\rᵉᶠ▮■□⁙⁘‖◀▶「」¥•、。゛゜"
_hi = ["█", "▒", "🐱", "⬇️", "░", "✽", "●", "♥", "☉", "웃", "⌂", "⬅️", "😐", "♪", "🅾️", "◆", "…", "➡️", "★", "⧗", "⬆️", "ˇ", "∧",
       "❎", "▤", "▥"]
_hira = "あいうえおかきくけこさしすせそたちつてとなにぬねのはひふへほまみむめもやゆよらりるれろわをんっゃゅょ"
_kata = "アイウエオカキクケコサシスセソタチツテトナニヌネノハヒフヘホマミムメモヤユヨラリルレロワヲンッャュョ"

CHARS = list(_low) + [chr(i) for i in range(32, 127)] + ["○"] + _hi + list(_hira) + list(_kata) + ["◜", "◝"]
assert len(CHARS) == 256

_by_text = {c: i for i, c in enumerate(CHARS)}

def to_text(data):
    """bytes (p8scii) -> unicode text"""
    return "".join(CHARS[b] for b in data)

def from_text(text):
    """unicode text -> bytes (p8scii); raises ValueError for text that is not p8scii"""
    out = bytearray()
    i = 0
    while i < len(text):
        two = text[i:i+2]
        if len(two) == 2 and two in _by_text:
            out.append(_by_text[two]); i += 2
        elif text[i] in _by_text:
            out.append(_by_text[text[i]]); i += 1
        else:
            raise ValueError(f"not a pico8 character: {text[i]!r} at {i}")
    return bytes(out)

HEADER = "pico-8 cartridge // http://www.pico-8.com\n"

def write_p8(code, version=42, sections=None):
    """code: p8scii bytes. sections: name -> text"""
    text = HEADER + f"version {version}\n__lua__\n" + to_text(code)
    for name, body in (sections or {}).items():
        if not text.endswith("\n"):
            text += "\n"
        text += f"__{name}__\n{body}"
    return text.encode("utf8")

import re
_section_re = re.compile(r"^__(\w+)__$")
SECTIONS = ("lua", "gfx", "gff", "label", "map", "sfx", "music", "meta")

def split_p8(data):
    """-> (version, {section: text of the lines}) """
    text = data.decode("utf8") if isinstance(data, bytes) else data
    lines = text.split("\n")
    if lines[-1] == "":
        lines.pop() # the last line is terminated
    assert lines[0].startswith("pico-8 cartridge"), "bad header: %r" % lines[0]
    assert lines[1].startswith("version "), "bad version: %r" % lines[1]
    version = int(lines[1][8:])
    out = {}
    cur = None
    for i, line in enumerate(lines[2:]):
        m = _section_re.match(line)
        if m and (m.group(1) in SECTIONS) or (m and line.startswith("__meta:")):
            cur = m.group(1)
            out[cur] = []
        elif line.startswith("__meta:") and line.endswith("__"):
            cur = line[2:-2]
            out[cur] = []
        elif cur is not None:
            out[cur].append(line)
    return version, {k: "\n".join(v) for k, v in out.items()}

def read_code(data):
    """the code of a .p8 file as p8scii bytes (without the line break that only separates it from what follows)"""
    version, secs = split_p8(data)
    return from_text(secs.get("lua", ""))
