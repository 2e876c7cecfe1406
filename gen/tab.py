"""Generators of histories over string tables, message tables and bitmaps (C19)."""
import struct
from pe import w2, w4
from gen.img import rb, L
from gen.dirs import rword, uname


def damage(rng, b, fields, p=0.5):
    b = bytearray(b)
    if rng.random() < p:
        for _ in range(rng.choice([1, 1, 2])):
            x = rng.random()
            if x < 0.6 and fields:
                o, n = rng.choice(fields)
                if o + n <= len(b):
                    old = int.from_bytes(b[o:o + n], "little")
                    m = (1 << (8 * n)) - 1
                    b[o:o + n] = (rng.choice([0, 1, old + 1, old - 1, old + 2, old * 2, m, m - 1, 1 << (8 * n - 1), len(b), len(b) - o, len(b) - 4, 4, 3, 0x15555555, 0x15555556]) & m).to_bytes(n, "little")
            elif x < 0.9 or not b:
                b = b[:rng.randrange(len(b) + 1)] if rng.random() < 0.4 else b[:max(0, len(b) - rng.randrange(1, 9))]
            else:
                b[rng.randrange(len(b))] = rng.choice([0, 1, 255, 0xd8])
    return L(bytes(b))


def strtab(rng):
    b, fields = b"", []
    for _ in range(16):
        s = [] if rng.random() < 0.5 else uname(rng, rng.choice([1, 3, 9]), 0)
        if rng.random() < 0.02:
            s = [0xd800]
        fields.append((len(b), 2))
        b += struct.pack("<H", len(s)) + b"".join(struct.pack("<H", c & 0xffff) for c in s)
    if rng.random() < 0.2:
        b += rb(rng, 4)
    if rng.random() < 0.25:
        # the last string reaches the end of the data: its length counts characters
        while b.endswith(b"\0\0") and len(fields) > 1 and fields[-1][0] == len(b) - 2:
            fields.pop()
            b = b[:-2]
        return L(b + b"\0\0" * (16 - len(fields))) if rng.random() < 0.3 else L(b[:-rng.randrange(1, 6)] if len(b) > 6 else b)
    return damage(rng, b, fields, 0.3)


def msgtab(rng):
    n = rng.choice([0, 1, 1, 2, 3])
    blocks, ent, fields = [], b"", [(0, 4)]
    base = 4 + 12 * n
    nxt = rng.choice([0, 1, 0x100, 0xc0000000, 0xfffffff0, 0xfffffffd, 0x7fffffff])
    for i in range(n):
        k = rng.choice([1, 1, 2, 3, 5])
        low = nxt
        high = min(0xffffffff, low + k - 1)
        if rng.random() < 0.12:
            high = 0xffffffff
            low = high - k + 1
        if rng.random() < 0.3 and ent:
            o = rng.choice(blocks)[2]
        else:
            o = base + len(ent)
        for _ in range(high - low + 1):
            fields += [(base + len(ent), 2), (base + len(ent) + 2, 2)]
            if rng.random() < 0.5:
                t = rb(rng, rng.choice([0, 1, 3, 4, 8]))
                ent += struct.pack("<HH", 4 + len(t), rng.choice([0, 0, 2, 0xfffe])) + t
            else:
                t = b"".join(struct.pack("<H", c & 0xffff) for c in uname(rng, rng.choice([1, 4]), 0))
                ent += struct.pack("<HH", 4 + len(t), rng.choice([1, 1, 3, 0xffff])) + t
        fields += [(4 + 12 * i, 4), (8 + 12 * i, 4), (12 + 12 * i, 4)]
        blocks.append((low, high, o))
        nxt = (high + rng.choice([1, 1, 5, 0])) & 0xffffffff
    b = struct.pack("<I", n) + b"".join(struct.pack("<III", *x) for x in blocks) + ent
    return damage(rng, b, fields, 0.45)


def bmp(rng):
    """A bitmap file."""
    size = rng.choice([40, 40, 40, 40, 52, 56, 108, 124])
    comp = rng.choice([0, 0, 0, 1, 3, 6, 4])
    bits = rng.choice([0, 1, 4, 8, 16, 24, 32])
    used = rng.choice([0, 0, 1, 2, 3, 16])
    masks = b"" if size != 40 else rb(rng, {3: 12, 6: 16}.get(comp, 0))
    pal = rb(rng, 4 * used if used else 4 * 2 ** bits if 1 <= bits <= 8 else 0)
    if len(pal) > 80 and rng.random() < 0.8:
        bits, pal = 4, rb(rng, 4 * used or 64)
    info = struct.pack("<IiiHHIIiiII", size, rng.getrandbits(8), -rng.getrandbits(8), 1, bits, comp, rng.choice([0, 10]), 0, 0, used, 0) + rb(rng, size - 40)
    body = info + masks + pal + rb(rng, rng.choice([0, 1, 4, 12]))
    f = bytearray(struct.pack("<HIHHI", 0x4d42, 14 + len(body), 0, 0, 14 + size + len(masks) + len(pal)) + body)
    return damage(rng, bytes(f), [(14, 4), (28, 2), (30, 4), (46, 4), (10, 4), (2, 4)], 0.35)


def c19(rng, tier):
    q = tier == "quick"
    for i in range(250 if q else 3000):
        ids = [w4(x) for x in rng.choice([[1], [1, 2], [7, 1], [0, 1], [4095, 4096], [4096, 4097], [1, 65536, 65537]])]
        langs = [w4(0), w4(1033)][:rng.choice([1, 2])]
        prog = [{"op": "rm_add", "t": 6, "id": k, "lang": l, "data": strtab(rng)} for k in ids for l in langs]
        for _ in range(6):
            by = {"lang": rng.choice(langs)} if rng.random() < 0.6 else {"index": rng.choice([0, 0, 1, 2])}
            if rng.random() < 0.5:
                prog.append(dict({"op": "str_table", "id": rng.choice(ids)}, **by))
            else:
                k = int.from_bytes(bytes(rng.choice(ids)), "little")
                prog.append(dict({"op": "str_get", "sid": (16 * (k - 1) + rng.randrange(16)) % 65536 if rng.random() < 0.9 else rng.choice([0, 15, 16, 65535])}, **by))
        yield {"id": "strings-%d" % i, "prog": prog}
    for i in range(350 if q else 4000):
        langs = [w4(0), w4(1033)][:rng.choice([1, 2])]
        prog = [{"op": "rm_add", "t": 11, "id": w4(1), "lang": l, "data": msgtab(rng)} for l in langs]
        prog += [dict({"op": "msg_table", "id": w4(rng.choice([1, 1, 1, 2]))}, **by) for by in ([{"lang": l} for l in langs] + [{"index": 0}, {"index": 1}])]
        yield {"id": "messages-%d" % i, "prog": prog}
    for i in range(150 if q else 2000):
        keys = [{"id": w4(1)}, {"n": [65]}, {"id": w4(2)}, {"n": []}][:rng.choice([1, 2, 4])]
        langs = [w4(0), w4(1033)][:rng.choice([1, 2])]
        prog = []
        for _ in range(rng.choice([1, 3, 6])):
            x = rng.random()
            if x < 0.7:
                prog.append(dict({"op": "bmp_add", "lang": rng.choice(langs), "file": bmp(rng)}, **rng.choice(keys), **({"cp": rword(rng), "ts": rword(rng)} if rng.random() < 0.5 else {})))
            elif x < 0.8:
                prog.append(dict({"op": "bmp_rem", "lang": rng.choice(langs)}, **rng.choice(keys)))
            prog += [dict({"op": "bmp_get"}, **rng.choice(keys), **({"lang": rng.choice(langs)} if rng.random() < 0.6 else {"index": rng.choice([0, 0, 1])})) for _ in range(2)]
        yield {"id": "bitmaps-%d" % i, "prog": prog}
    for i in range(2):
        f = struct.pack("<IiiHHIIiiII", 40, 1, 1, 1, [8, 1][i], 0, 0, 0, 0, 0, 0) + bytes(4 * 2 ** [8, 1][i]) + b"pixels"
        yield {"id": "pal-%d" % i, "prog": [{"op": "bmp_add", "id": w4(1), "lang": w4(0), "file": L(struct.pack("<HIHHI", 0x4d42, 14 + len(f), 0, 0, 14 + len(f) - 6) + f)}, {"op": "bmp_get", "id": w4(1), "index": 0}]}


def tab_replay(beh, rng, tier):
    """Histories for behaviours of MC_Tables: the tables and bitmaps as stored, and everything asked of them."""
    n = 150 if tier == "quick" else 2000
    for i, b in enumerate(beh if len(beh) <= n else rng.sample(beh, n)):
        prog = list(b["calls"])
        by = [{"lang": w4(0)}, {"index": 0}]
        if b["kind"] == "str":
            prog += [dict({"op": "str_get", "sid": s}, **rng.choice(by)) for s in sorted(set(b["sids"] + [0, 2, 16, 65535]))]
            prog += [dict({"op": "str_table", "id": w4(t)}, **rng.choice(by)) for t in sorted({s // 16 + 1 for s in b["sids"]})]
        elif b["kind"] == "msg":
            prog += [dict({"op": "msg_table", "id": w4(1)}, **x) for x in by]
        else:
            prog += [dict({"op": "bmp_get", "id": w4(1)}, **x) for x in by] + [{"op": "bmp_rem", "id": w4(1), "lang": w4(0)}, {"op": "bmp_get", "id": w4(1), "lang": w4(0)}]
        yield {"id": "tab-model-%d-%d" % (len(beh), i), "prog": prog}


def hurt_replay(beh, rng, tier):
    """Tables of MC_Tables with one byte changed, or cut off at any place."""
    for i, b in enumerate(beh if tier != "quick" else rng.sample(beh, 30)):
        d = b["data"]
        bad = [d[:p] for p in range(len(d))]
        for p in range(len(d)):
            bad += [d[:p] + [(d[p] + x) % 256] + d[p + 1:] for x in (1, 2, 128, 255)]
        rng.shuffle(bad)
        t, op = {"str": (6, "str_table"), "msg": (11, "msg_table"), "bmp": (2, "bmp_get")}[b["kind"]]
        for k in range(0, len(bad) if tier != "quick" else 60, 20):
            prog = []
            for x in bad[k:k + 20]:
                prog += [{"op": "rm_add", "t": t, "id": w4(b["tab"]), "lang": w4(0), "data": x}, {"op": op, "id": w4(b["tab"]), "lang": w4(0)}]
            yield {"id": "tab-damage-%d-%d" % (i, k), "prog": prog}
