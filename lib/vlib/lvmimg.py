"""LVM2 metadata texts and physical volumes, encoded independently of the code under test."""

from __future__ import annotations

import random
import struct

from vlib.blob import Blob

WORDS = ["LVM2", "a b", "x{", "}", "[1]", "p=q", "n#1", "# no", 'say "hi"', "back\\slash", "", "0", "7", "-", "é", "tab\there", "a,b", "]", "it's", "/dev/sda1", "end\\"]
COMMENT = ["", " ", "12 Gigabytes", " linear", " a = b", "#", " {", " }", " ]", " 2015-10-21 16:29:00 +0000", "\t64 Kilobytes", " it's"]
QUOTING = [' "quoted"', ' x = "y"', ' a "b" {', ' "}" }', '"', ' "a" # b']  # comments that fill a line


# -- values --------------------------------------------------------------------------------------------------------------
def quote(v: str) -> str:
    return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'


def atom(v: int | str) -> str:
    return quote(v) if isinstance(v, str) else str(v)


def random_atom(rng: random.Random) -> int | str:
    if rng.random() < 0.5:
        return rng.choice([0, 1, -1, 7, 8192, 1 << 31, (1 << 63) + 5, rng.getrandbits(40), -rng.getrandbits(33)])
    return rng.choice(WORDS) if rng.random() < 0.7 else "".join(rng.choice('abz09 _+-.#"\\{}[]=,') for _ in range(rng.randint(0, 9)))


def random_list(rng: random.Random) -> list:
    return [random_atom(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]


# -- lines ---------------------------------------------------------------------------------------------------------------
class Style:
    """How a text is laid out; ``tame`` is what the tools write."""

    def __init__(self, rng: random.Random, tame: bool = False):
        self.rng = rng
        self.tame = tame
        self.eq = " = " if tame else rng.choice([" = ", "=", "\t= ", " =  "])
        self.indent = "\t" if tame else rng.choice(["\t", "", "    ", " "])
        self.comments = 0.2 if tame else rng.choice([0, 0.2, 0.8])
        self.blanks = 0.1 if tame else rng.choice([0, 0.3])

    def tail(self) -> str:
        rng = self.rng
        if self.tame:
            return rng.choice(["\t# 12 Gigabytes", "\t# linear"]) if rng.random() < self.comments else ""
        pad = rng.choice(["", "", "", " ", "\t", "  \t"])
        if rng.random() < self.comments:
            return (pad or " ") + "#" + rng.choice(COMMENT)
        return pad

    def blank(self) -> str:
        rng = self.rng
        if rng.random() < 0.5:
            return "" if self.tame else rng.choice(["", "", " ", "\t\t"])
        return ("" if self.tame else rng.choice(["", " ", "\t"])) + "#" + (" comment" if self.tame else rng.choice(COMMENT + QUOTING))

    def open(self, depth: int, name: str) -> str:
        return self.indent * depth + name + (" " if self.tame else self.rng.choice([" ", "", "\t"])) + "{" + ("" if self.tame else self.tail())

    def close(self, depth: int) -> str:
        return self.indent * depth + "}" + ("" if self.tame else self.tail())

    def value(self, depth: int, key: str, value) -> str:
        v = "[" + ("" if self.tame else self.rng.choice(["", " "])) + ", ".join(atom(x) for x in value) + "]" if isinstance(value, list) else atom(value)
        return self.indent * depth + key + self.eq + v + self.tail()

    def array(self, depth: int, key: str, value: list, cuts: list[int]) -> list[str]:
        """Lines of an array: one per element of ``cuts``, the number of items on the line, and one for the end."""
        out = []
        i = 0
        for n, c in enumerate(cuts):
            items = "".join(atom(x) + (("," if j == i + c - 1 else ", ") if j < len(value) - 1 else "") for j, x in enumerate(value[i : i + c], i))
            head = key + self.eq + "[" if n == 0 else self.indent
            if n == len(cuts) - 1:
                items += "]"
            out.append(self.indent * depth + head + items + self.tail())
            i += c
        return out


def cut(rng: random.Random, total: int, lines: int) -> list[int]:
    """Distributes items over the lines of an array; the last line has the bracket."""
    marks = sorted(rng.randint(0, total) for _ in range(lines - 1))
    return [b - a for a, b in zip([0, *marks], [*marks, total])]


def render(tree: dict, st: Style, depth: int = 0) -> list[tuple[str, str, str]]:
    """(kind, name, text) of every line of a nested dictionary."""
    rng = st.rng
    out = []
    for k, v in tree.items():
        if rng.random() < st.blanks:
            out.append(("blank", "", st.blank()))
        if isinstance(v, dict):
            out.append(("open", k, st.open(depth, k)))
            out += render(v, st, depth + 1)
            out.append(("close", "", st.close(depth)))
        elif isinstance(v, list) and rng.random() < 0.4:
            lines = st.array(depth, k, v, cut(rng, len(v), rng.randint(2, 4)))
            out += [("arr" if i == 0 else "end" if i == len(lines) - 1 else "item", k if i == 0 else "", t) for i, t in enumerate(lines)]
        else:
            out.append(("val", k, st.value(depth, k, v)))
    return out


def text_of(tree: dict, st: Style) -> str:
    return "\n".join(t for _, _, t in render(tree, st)) + "\n"


# -- physical volumes ----------------------------------------------------------------------------------------------------
ID = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#"


def new_id(rng: random.Random) -> str:
    return "".join(rng.choice(ID[:62]) for _ in range(32))


def new_ids(rng: random.Random, count: int) -> list[str]:
    """Different identifiers, sometimes alike in all but one character."""
    if rng.random() < 0.6:
        return [new_id(rng) for _ in range(count)]
    base, out = new_id(rng), []
    while len(out) < count:
        at = rng.choice([0, 31, rng.randrange(32)])
        new = base[:at] + rng.choice([base[at].swapcase(), rng.choice(ID[:62])]) + base[at + 1 :]
        if new not in out:
            out.append(new)
    return out


def dashed(i: str) -> str:
    parts = []
    for n in (6, 4, 4, 4, 4, 4, 6):
        parts.append(i[:n])
        i = i[n:]
    return "-".join(parts)


def label(rng: random.Random, blob: Blob, sector: int, pvid: str, size: int, data: tuple[int, int], mdas: list[tuple[int, int]]) -> None:
    """Label, header and area lists in one sector."""
    off = rng.choice([32, 32, 32, 40, 128])
    buf = struct.pack("<8sQII8s", b"LABELONE", sector, rng.getrandbits(32), off, b"LVM2 001")
    buf += rng.randbytes(off - 32)
    buf += pvid.encode() + struct.pack("<Q", size)
    for o, s in [data, (0, 0), *mdas, (0, 0)]:
        buf += struct.pack("<QQ", o, s)
    if rng.random() < 0.7:  # extension header
        buf += struct.pack("<II", 2, 1) + struct.pack("<QQQQ", rng.choice([0, 4096]), 4096, 0, 0)
    blob.put(sector * 512, buf)


def area(rng: random.Random, blob: Blob, at: int, size: int, text: bytes | None, offset: int = 512, flags: int = 0, extra: bytes | None = None) -> None:
    """A metadata area at byte ``at``; the text starts ``offset`` bytes into it and continues at 512 when it reaches the end."""
    hdr = struct.pack("<I16sIQQ", rng.getrandbits(32), b" LVM2 x[5A%r0N*>", 1, at, size)
    if text is not None:
        hdr += struct.pack("<QQII", offset, len(text), rng.getrandbits(32), flags)
        front = min(len(text), size - offset)
        blob.put(at + offset, text[:front])
        if front < len(text):
            blob.put(at + 512, text[front:])
    elif flags:
        hdr += struct.pack("<QQII", 0, 0, 0, flags)
    if extra is not None and text is not None:  # a text that was not committed
        blob_at = rng.choice([512, 1024])
        hdr += struct.pack("<QQII", blob_at, len(extra), rng.getrandbits(32), 0)
    hdr += bytes(24)
    blob.put(at, hdr + (bytes(512 - len(hdr)) if rng.random() < 0.8 else b""))
