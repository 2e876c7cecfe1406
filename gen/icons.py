"""Generators of histories over icon and cursor groups (C17)."""
import struct
from pe import w2, w4
from gen.img import rb, L
from gen.dirs import rword
from gen.res import Keys, tree


def pic_file(rng, kind, bad=0.0):
    n = rng.choice([1, 1, 2, 3, 5])
    h = 6 + 16 * n
    imgs = [rb(rng, rng.choice([1, 2, 3, 5, 8, 20]), 0.3) for _ in range(n)]
    order = list(range(n))
    if rng.random() < 0.3:
        rng.shuffle(order)
    pos = {}
    o = h
    body = b""
    for i in order:
        if rng.random() < 0.2:
            body += rb(rng, 3)
        pos[i] = h + len(body)
        body += imgs[i]
    f = struct.pack("<HHH", rng.choice([0, 0, 7]), 2 if kind == "cursor" else 1, n)
    for i in range(n):
        wh = [rng.choice([0, 1, 16, 32, 127, 128, 200, 255]) for _ in range(2)]
        if kind == "cursor":
            f += struct.pack("<BBBBHHII", wh[0], wh[1], rng.choice([0, 0, 4]), 0, rng.getrandbits(16), rng.getrandbits(16), len(imgs[i]), pos[i])
        else:
            f += struct.pack("<BBBBHHII", wh[0], wh[1], rng.randrange(256), rng.choice([0, 9]), rng.randrange(3), rng.choice([1, 8, 32, 65535]), len(imgs[i]), pos[i])
    f = bytearray(f + body)
    if rng.random() < bad:
        k = rng.randrange(5)
        if k == 0:
            f = f[:rng.randrange(len(f))]
        elif k == 1:
            f[4:6] = struct.pack("<H", rng.choice([0, n + 1, n + 3, 65535, 1000]))
        else:
            i = rng.randrange(n)
            o = 6 + 16 * i + rng.choice([8, 12])
            old = struct.unpack_from("<I", f, o)[0]
            f[o:o + 4] = struct.pack("<I", rng.choice([0, old + 1, old - 1, h - 1, h, 0xffffffff, 0xfffffff0, 0x80000000, len(f), len(f) - 1]) & 0xffffffff)
    return L(bytes(f))


def group_data(rng, kind, nums):
    """A group resource made by hand."""
    n = len(nums)
    b = struct.pack("<HHH", 0, 2 if kind == "cursor" else 1, n)
    for k in nums:
        if kind == "cursor":
            b += struct.pack("<HHHHIH", rng.randrange(300), rng.randrange(600), 1, 8, rng.choice([4, 9, 3, 0, 100]), k)
        else:
            b += struct.pack("<BBBBHHIH", 16, 32, 4, 0, 1, 8, rng.choice([5, 0, 0xffffffff]), k)
    b = bytearray(b)
    if rng.random() < 0.5:
        k = rng.randrange(3)
        if k == 0:
            b = b[:rng.randrange(len(b) + 1)]
        elif k == 1:
            b[4:6] = struct.pack("<H", rng.choice([0, n - 1 if n else 1, n + 1, n + 2, 65535]))
        else:
            b += rb(rng, 5)
    return L(bytes(b))


def c17(rng, tier):
    q = tier == "quick"
    n = 260 if q else 3000
    for i in range(n):
        prog = []
        kinds = rng.choice([["icon"], ["cursor"], ["icon", "cursor"]])
        groups = [{"id": w4(1)}, {"n": [65]}, {"id": w4(7)}, {"n": []}, {"id": w4(70000)}][:rng.choice([1, 2, 3, 5])]
        langs = [w4(0), w4(1033), w4(9)][:rng.choice([1, 1, 2, 3])]
        mt = {"icon": 3, "cursor": 1}
        gt = {"icon": 14, "cursor": 12}
        if rng.random() < 0.5:
            # pictures that are there already, with gaps
            k = rng.choice(kinds)
            for x in rng.sample([1, 2, 3, 4, 5, 7, 8, 100, 65534, 65535] + ([65536, 65537, 70001, 0] if rng.random() < 0.3 else []), rng.randrange(1, 6)):
                prog.append({"op": "rm_add", "t": mt[k], "id": w4(x), "lang": rng.choice(langs), "data": L(rb(rng, 6))})
        if rng.random() < 0.1:
            prog.append({"op": "rm_add", "t": mt[rng.choice(kinds)], "n": [66], "lang": langs[0], "data": [1]})
        for _ in range(rng.choice([2, 4, 7] + ([] if q else [15]))):
            k = rng.choice(kinds)
            x = rng.random()
            if x < 0.6:
                prog.append(dict({"op": "ico_add", "kind": k, "lang": rng.choice(langs), "mode": rng.choice(["max", "free"]), "cp": rword(rng), "ts": rword(rng), "file": pic_file(rng, k, 0.15)}, **rng.choice(groups)))
            elif x < 0.75:
                prog.append(dict({"op": "ico_rem", "kind": k, "lang": rng.choice(langs)}, **rng.choice(groups)))
            elif x < 0.85:
                prog.append(dict({"op": "rm_add", "t": gt[k], "lang": rng.choice(langs), "data": group_data(rng, k, [rng.choice([1, 2, 3, 5, 65535]) for _ in range(rng.randrange(4))])}, **rng.choice(groups)))
            elif x < 0.9:
                prog.append({"op": "rm_rem", "t": mt[k], "id": w4(rng.randrange(1, 5)), "lang": rng.choice(langs)})
            else:
                prog.append({"op": "rm_add", "t": mt[k], "id": w4(rng.randrange(1, 5)), "lang": rng.choice(langs), "data": L(rb(rng, rng.choice([0, 2, 3, 4, 9])))})
            prog += gets(rng, kinds, groups, langs, rng.choice([0, 1, 2]))
        prog += gets(rng, kinds, groups, langs, 5)
        yield {"id": "pics-%d" % i, "prog": prog}
    for i in range(12 if q else 100):
        # numbers run out at the top
        k = rng.choice(["icon", "cursor"])
        prog = [{"op": "rm_add", "t": mt[k], "id": w4(x), "lang": w4(0), "data": [1, 2, 3, 4, 5]} for x in [1, rng.choice([65533, 65534, 65535, 65536, 131071])]]
        for _ in range(2):
            prog.append({"op": "ico_add", "kind": k, "lang": w4(0), "mode": rng.choice(["max", "max", "free"]), "file": pic_file(rng, k), "id": w4(rng.randrange(3))})
        prog += gets(rng, [k], [{"id": w4(0)}, {"id": w4(1)}, {"id": w4(2)}], [w4(0)], 4)
        yield {"id": "top-%d" % i, "prog": prog}


def gets(rng, kinds, groups, langs, n):
    out = []
    for _ in range(n):
        k = rng.choice(kinds)
        by = {"lang": rng.choice(langs)} if rng.random() < 0.55 else {"index": rng.choice([0, 0, 1, 1, 2, 5, 0xffff])}
        if rng.random() < 0.7:
            out.append(dict({"op": "ico_get", "kind": k}, **rng.choice(groups), **by))
        else:
            out.append(dict({"op": "ico_single", "kind": k, "id": w4(rng.choice([1, 1, 2, 2, 3, 4, 5, 100, 65535]))}, **by))
    return out


def icons_replay(beh, rng, tier):
    """Histories for behaviours of MC_Icons: the edits, then every group and picture in every way."""
    n = 200 if tier == "quick" else 4000
    for i, b in enumerate(beh if len(beh) <= n else rng.sample(beh, n)):
        q = []
        for k in b["kinds"]:
            for g in b["keys"]:
                q += [dict({"op": "ico_get", "kind": k, "lang": x}, **g) for x in b["langs"]]
                q += [dict({"op": "ico_get", "kind": k, "index": x}, **g) for x in range(len(b["langs"]) + 1)]
            for x in [1, 2, 3, 4, 5, 65534, 65535]:
                q += [{"op": "ico_single", "kind": k, "id": w4(x), "lang": y} for y in b["langs"]] + [{"op": "ico_single", "kind": k, "id": w4(x), "index": rng.randrange(2)}]
        yield {"id": "icons-model-%d-%d" % (len(beh), i), "prog": b["calls"] + q}
