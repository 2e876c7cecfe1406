"""Generators of histories over version information (C18)."""
import struct
from pe import w2, w4, au
from gen.img import rb, L
from gen.dirs import rword, uname

A = lambda s: [ord(c) for c in s]
TRS = ["041904b0", "040904b0", "040904B0", "00000000", "ffff04e4", "041904B0", "0409", "0", "FFFFFFFF", "041904b1"]
PROPS = ["company", "desc", "fver", "internal", "copyright", "original", "pname", "pver"]
REAL = {"company": "CompanyName", "desc": "FileDescription", "fver": "FileVersion", "internal": "InternalName", "copyright": "LegalCopyright", "original": "OriginalFilename", "pname": "ProductName", "pver": "ProductVersion"}


def text(rng, n=12):
    x = rng.random()
    if x < 0.25:
        return []
    if x < 0.5:
        return A("".join(rng.choice("abcXYZ 0.") for _ in range(rng.randrange(1, n))))
    return [c for c in uname(rng, n, 0) if c]


def val(rng):
    v = text(rng, rng.choice([3, 12, 40]))
    if rng.random() < 0.08:
        v = v + [0] + A("x")
    if rng.random() < 0.05:
        v = v + [0]
    if rng.random() < 0.03:
        v = v + [rng.choice([0xd800, 0xdfff, 0x10000])]
    return v


def table(rng):
    out, used = [], set()
    for _ in range(rng.choice([0, 1, 2, 4, 7])):
        k = A(REAL[rng.choice(PROPS)]) if rng.random() < 0.6 else text(rng)
        if tuple(k) in used:
            continue
        used.add(tuple(k))
        out.append({"k": k, "v": val(rng)})
    return out


def words(rng):
    return [rword(rng) for _ in range(10)]


def ver(rng):
    out, used = [], set()
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        k = A(rng.choice(TRS)) if rng.random() < 0.85 else text(rng)
        if tuple(k) in used:
            continue
        used.add(tuple(k))
        out.append({"k": k, "v": table(rng)})
    tr = [[rng.choice([0, 0x409, 0x419, 0xffff]), rng.choice([0, 1200, 0x4b0, 0xffff])] for _ in range(rng.choice([0, 0, 1, 2, 4]))]
    return {"op": "ver_set", "fx": words(rng), "strs": out, "tr": tr}


def looks(rng, n):
    out = []
    for _ in range(n):
        s = {"op": "ver_look", "fn": rng.choice(PROPS + ["prop"] * 5 + ["list", "list", "pair"])}
        if s["fn"] == "prop":
            s["n"] = A(REAL[rng.choice(PROPS)]) if rng.random() < 0.7 else text(rng)
            if rng.random() < 0.5:
                s["throw"] = rng.random() < 0.3
                s["tr"] = A(rng.choice(TRS + [""]))
        if s["fn"] == "pair" or (s["fn"] != "list" and rng.random() < 0.6):
            s["tr"] = A(rng.choice(TRS))
        if "throw" in s and "tr" not in s:
            s["tr"] = []
        out.append(s)
    return out


def edits(rng, n):
    out = []
    for _ in range(n):
        x = rng.random()
        if x < 0.55:
            s = {"op": "ver_edit", "fn": rng.choice(PROPS + ["prop"] * 4), "v": val(rng)}
            if s["fn"] == "prop":
                s["n"] = A(REAL[rng.choice(PROPS)]) if rng.random() < 0.7 else text(rng)
            if rng.random() < 0.6:
                s["tr"] = A(rng.choice(TRS))
        elif x < 0.9:
            s = {"op": "ver_edit", "fn": rng.choice(["add", "rem"])}
            if rng.random() < 0.5:
                s["tr"] = A(rng.choice(TRS))
            else:
                s["l"], s["c"] = rng.choice([(0x419, 0x4b0), (0x409, 0x4b0), (0, 0), (0xffff, 0x4e4), (0x419, 0x4b1), (1, 2), (0, 0x409)])
        else:
            s = fvi(rng)
        out.append(s)
        if rng.random() < 0.5:
            out += looks(rng, rng.choice([1, 2]))
    return out


def fvi(rng):
    f = rng.choice(["raw", "raw", "get", "debug", "prerelease", "patched", "private", "special", "inferred", "os", "type"])
    s = {"op": "fvi", "fn": f}
    if f == "raw":
        s["i"] = rng.randrange(10)
        s["v"] = rword(rng)
        if s["i"] == 5:
            s["v"] = rng.choice([w4(x) for x in (0, 0x10000, 0x10001, 0x10004, 0x20000, 0x20002, 0x30003, 0x40004, 0x50000, 1, 2, 3, 4, 5, 0x40000, 0x30000, 0x50004)])
        if s["i"] == 6:
            s["v"] = w4(rng.choice(range(9)))
    elif f == "os":
        s["v"] = rng.randrange(0, 16)
    elif f == "type":
        s["v"] = rng.randrange(0, 8)
    elif f != "get":
        s["v"] = rng.random() < 0.5
    return s


class Blk:
    """A hand-made block; remembers where its length fields are."""

    def __init__(self, rng, key, value=b"", vl=None, typ=0, kids=(), pad=True, term=True):
        self.key, self.value, self.vl, self.typ, self.kids, self.pad, self.term = key, value, vl, typ, kids, pad, term

    def emit(self, pos, fields):
        b = bytearray(struct.pack("<HHH", 0, len(self.value) if self.vl is None else self.vl, self.typ))
        b += b"".join(struct.pack("<H", x) for x in self.key) + (b"\0\0" if self.term else b"")
        fields += [(pos, 2), (pos + 2, 2), (pos + 6 + 2 * len(self.key), 2)]
        if self.value or self.kids or self.pad:
            b += b"\0" * (-len(b) % 4)
        b += self.value
        ln = len(b)
        for k in self.kids:
            b += b"\0" * (-len(b) % 4)
            x = k.emit(pos + len(b), fields)
            b += x
            ln = len(b)
        b[0:2] = struct.pack("<H", ln & 0xffff)
        return bytes(b)


def u(s):
    return b"".join(struct.pack("<H", c) for c in s)


def block(rng):
    """The bytes of a version block, with what other tools write as well, and possibly damage."""
    def strings():
        out = []
        for _ in range(rng.choice([0, 1, 2, 3])):
            v = val(rng)
            if any(c > 0xffff for c in v):
                v = []
            if rng.random() < 0.2:
                out.append(Blk(rng, text(rng), b"", 0, 1))
            else:
                t = v + ([0] if rng.random() < 0.8 else [0] * rng.randrange(3))
                out.append(Blk(rng, text(rng) if rng.random() < 0.7 else A("FileVersion"), u(t), len(t), 1))
        return out

    def sfi():
        return Blk(rng, A("StringFileInfo"), b"", 0, 1, [Blk(rng, A(rng.choice(TRS[:4])), b"", 0, 1, strings()) for _ in range(rng.choice([0, 1, 1, 2]))])

    def vfi():
        kids = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            if rng.random() < 0.85:
                kids.append(Blk(rng, A("Translation"), b"".join(struct.pack("<HH", rng.choice([0x409, 0x419, 0]), rng.choice([1200, 0])) for _ in range(rng.choice([0, 1, 2, 3])))))
            else:
                kids.append(Blk(rng, A("Other"), rb(rng, 5)))
        return Blk(rng, A("VarFileInfo"), b"", 0, 1, kids)
    fx = b"" if rng.random() < 0.15 else struct.pack("<II", 0xfeef04bd if rng.random() < 0.97 else 0xfeef04bc, 0x10000 if rng.random() < 0.97 else 0) + rb(rng, 44)
    kids = [rng.choice([sfi, vfi])() for _ in range(rng.choice([0, 1, 2, 2, 3]))]
    if rng.random() < 0.04:
        kids.append(Blk(rng, A("Something")))
    key = A("VS_VERSION_INFO")
    if rng.random() < 0.03:
        key[-1] ^= 32
    fields = []
    b = bytearray(Blk(rng, key, fx, None, 0, kids).emit(0, fields))
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 2])):
            x = rng.random()
            if x < 0.65:
                o, n = rng.choice(fields)
                if o + 2 <= len(b):
                    old = struct.unpack_from("<H", b, o)[0]
                    b[o:o + 2] = struct.pack("<H", rng.choice([0, 1, old + 1, old - 1, old + 4, old + 2, old * 2, 0xffff, 0xfffe, 0x8000, len(b), len(b) - o, old + len(b), 52, 3]) & 0xffff)
            elif x < 0.85:
                b = b[:rng.randrange(len(b) + 1)] if rng.random() < 0.5 else b[:max(0, len(b) - rng.randrange(12))]
            elif b:
                b[rng.randrange(len(b))] = rng.choice([0, 1, 255, 0xd8])
    elif rng.random() < 0.2:
        b += rb(rng, rng.randrange(9))
    return L(bytes(b))


def reads(rng, langs, n):
    return [dict({"op": "ver_read"}, **({"lang": rng.choice(langs)} if rng.random() < 0.6 else {"index": rng.choice([0, 0, 0, 1, 2, 0xffff])})) for _ in range(n)]


def c18(rng, tier):
    q = tier == "quick"
    for i in range(150 if q else 2000):
        langs = [w4(0), w4(1033), w4(0x419)][:rng.choice([1, 2, 3])]
        prog = []
        for _ in range(rng.choice([1, 2, 3])):
            x = rng.random()
            if x < 0.6:
                prog.append(ver(rng))
            if x > 0.4:
                prog += edits(rng, rng.choice([1, 3, 6]))
            w = {"op": "ver_write", "lang": rng.choice(langs)}
            if rng.random() < 0.6:
                w["cp"], w["ts"] = rword(rng), rword(rng)
            prog.append(w)
            prog += reads(rng, langs, rng.choice([1, 2]))
            prog += looks(rng, 1)
            if rng.random() < 0.2:
                prog.append({"op": "ver_rem", "lang": rng.choice(langs)})
        yield {"id": "hist-%d" % i, "prog": prog + reads(rng, langs, 2)}
    for i in range(60 if q else 600):
        yield {"id": "edit-%d" % i, "prog": ([ver(rng)] if rng.random() < 0.6 else []) + edits(rng, 10 if q else 25) + looks(rng, 4)}
    for i in range(40 if q else 300):
        yield {"id": "fixed-%d" % i, "prog": [fvi(rng) for _ in range(12)]}
    for i in range(350 if q else 4000):
        prog = []
        for k in range(rng.choice([1, 2])):
            prog.append({"op": "rm_add", "t": 16, "id": w4(1), "lang": w4(k), "data": block(rng)})
            prog += [{"op": "ver_read", "lang": w4(k)}] + looks(rng, 1)
        prog += [{"op": "ver_write", "lang": w4(5)}, {"op": "ver_read", "lang": w4(5)}]
        yield {"id": "block-%d" % i, "prog": prog}
    for i in range(4 if q else 12):
        # at the limit of the 16-bit length
        room = 65532 - 92 - 36 - 24 - 8 - 4
        n = room // 2 - 1 + [0, 2, 1, -1, 40, 3][i % 6]
        prog = [{"op": "ver_set", "fx": words(rng), "strs": [{"k": A("041904b0"), "v": [{"k": [], "v": [97] * n}]}], "tr": [] if i % 4 else [[1, 2]]}, {"op": "ver_write", "lang": w4(0)}, {"op": "ver_read", "lang": w4(0)}]
        yield {"id": "limit-%d" % i, "prog": prog}


def ver_replay(beh, rng, tier):
    """Histories for behaviours of MC_Version: the edits, then every question and another round through the block."""
    n = 150 if tier == "quick" else 3000
    for i, b in enumerate(beh if len(beh) <= n else rng.sample(beh, n)):
        q = [{"op": "ver_look", "fn": "list"}]
        for t in b["trs"]:
            q += [{"op": "ver_look", "fn": "prop", "n": x, "tr": t, "throw": y} for x in b["names"] for y in (True, False)]
        yield {"id": "ver-model-%d-%d" % (len(beh), i), "prog": b["calls"] + q + [{"op": "ver_write", "lang": w4(7)}, {"op": "ver_read", "lang": w4(7)}] + q}


def damage_replay(beh, rng, tier):
    """Blocks of MC_Version with one byte changed, or cut off at any place."""
    for i, b in enumerate(beh if tier != "quick" else rng.sample(beh, 3)):
        blk = b["blk"]
        bad = [blk[:p] for p in range(len(blk))]
        for p in range(len(blk)):
            for x in (1, 4, 255) if p % 2 == 0 else (1,):
                bad.append(blk[:p] + [(blk[p] + x) % 256] + blk[p + 1:])
        rng.shuffle(bad)
        for k in range(0, len(bad) if tier != "quick" else 300, 20):
            prog = []
            for d in bad[k:k + 20]:
                prog += [{"op": "rm_add", "t": 16, "id": w4(1), "lang": w4(0), "data": d}, {"op": "ver_read", "lang": w4(0)}]
            yield {"id": "ver-damage-%d-%d" % (i, k), "prog": prog}
