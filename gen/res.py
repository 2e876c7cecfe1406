"""Generators of histories over resource trees (C15, C16)."""
import struct
from pe import w2, w4, au
from gen.img import rb, L, fileset, load
from gen.dirs import edges, fits, uname, Space, host, reload_steps, rword, malformed

NAMES = [[], [65], [66], [65, 65], [65, 66], [0xffff], [0x410, 0x430], [97], [0x4e00, 65, 0], [90] * 9]
IDS = [0, 1, 2, 3, 16, 255, 256, 1033, 65535, 65536, 0x7fffffff]


def key(rng, used, bad=0.0):
    for _ in range(20):
        if rng.random() < 0.45:
            n = rng.choice(NAMES) if rng.random() < 0.6 else uname(rng, 9, 0)
            k = {"named": True, "id": w4(0), "name": n}
            u = ("n", tuple(n))
        else:
            i = rng.choice(IDS) if rng.random() < 0.7 else rng.getrandbits(31)
            k = {"named": False, "id": w4(i), "name": []}
            u = ("i", i)
        if u not in used:
            used.add(u)
            return k
    i = len(used) + 70000
    used.add(("i", i))
    return {"named": False, "id": w4(i), "name": []}


def leaf(rng):
    n = rng.choice([0, 0, 1, 2, 3, 4, 5, 7, 16, 33])
    return {"k": "data", "cp": rword(rng), "data": L(rb(rng, n, 0.3)), "sub": []}


def attrs(rng):
    return {"ch": rword(rng), "ts": rword(rng), "maj": w2(rng.getrandbits(16)), "min": w2(rng.getrandbits(16))}


def tree(rng, depth=3, fan=4, empty=0.1):
    d = attrs(rng)
    used = set()
    n = rng.choice(range(0 if rng.random() < empty else 1, fan + 1))
    d["ents"] = []
    for _ in range(n):
        e = key(rng, used)
        if depth > 1 and rng.random() < 0.6:
            e.update({"k": "dir", "cp": w4(0), "data": [], "sub": [tree(rng, depth - 1, max(1, fan - 1), empty)]})
        else:
            e.update(leaf(rng))
        d["ents"].append(e)
    return d


def chain(rng, n):
    d = dict(attrs(rng), ents=[dict(key(rng, set()), **leaf(rng))])
    for _ in range(n - 1):
        d = dict(attrs(rng), ents=[dict(key(rng, set()), k="dir", cp=w4(0), data=[], sub=[d])])
    return d


def spoil(rng, d):
    """Something the format cannot hold."""
    ds = []

    def walk(x):
        ds.append(x)
        for e in x["ents"]:
            for s in e["sub"]:
                walk(s)
    walk(d)
    ds = [x for x in ds if x["ents"]]
    if not ds:
        return
    e = rng.choice(rng.choice(ds)["ents"])
    k = rng.randrange(5)
    if k == 0:
        e.update({"k": "none", "cp": w4(0), "data": [], "sub": []})
    elif k == 1:
        e.update({"named": False, "id": w4(rng.choice([0x80000000, 0xffffffff, 0x80000010])), "name": []})
    elif k == 2:
        e.update({"named": True, "id": w4(0), "name": [65, rng.choice([0xd800, 0xdfff, 0x10000, 0x10ffff])]})
    elif k == 3 and rng.random() < 0.1:
        e.update({"named": True, "id": w4(0), "name": [65] * rng.choice([65536, 65537])})
    else:
        d["ents"] = []


def build_res(rng, s):
    """A hand-made resource directory; structures may be shared or form loops after corruption."""
    sec = rng.choice([0, None, 0])
    i = rng.randrange(s.n) if sec is None else sec
    base = s.alloc(b"", 4, i)

    def put_name(u):
        return s.alloc(struct.pack("<H", len(u)) + b"".join(struct.pack("<H", x) for x in u), 2, i, [2]) - base

    def put_data():
        d = rb(rng, rng.choice([0, 1, 5, 20]))
        r = s.alloc(d, 1, rng.choice([i, None]))
        return s.alloc(struct.pack("<IIII", r, len(d), rng.getrandbits(32), rng.choice([0, 0, 5])), 4, i, [4, 4, 4, 4]) - base
    offs = []

    def put_dir(depth):
        n = rng.choice([0, 1, 1, 2, 3]) if depth else rng.choice([1, 2, 3, 4])
        named = [rng.random() < 0.4 for _ in range(n)]
        if rng.random() < 0.8:
            named.sort(reverse=True)
        a = s.reserve(16 + 8 * n, 4, i, [4, 4, 2, 2, 2, 2] + [4, 4] * n)
        offs.append(a - base)
        ents = []
        for k in range(n):
            w1 = 0x80000000 | put_name(rng.choice(NAMES)) if named[k] else rng.choice(IDS)
            if depth < 3 and rng.random() < 0.5:
                w2_ = 0x80000000 | (put_dir(depth + 1) if rng.random() < 0.97 else rng.choice(offs))
            else:
                w2_ = put_data()
            ents.append((w1, w2_))
        s.put(a, struct.pack("<IIHHHH", rng.getrandbits(32), rng.getrandbits(32), rng.getrandbits(16), rng.getrandbits(16), sum(named), n - sum(named)) + b"".join(struct.pack("<II", *x) for x in ents))
        if n and rng.random() < 0.5:
            s.fields += [(a + 12, 2), (a + 14, 2), (a + 16, 4), (a + 20, 4)] * 2
        return a - base
    put_dir(0)
    s.p.dirs[2] = (base, rng.choice([0, 16, 400]))


def edge_name(rng):
    """A name at the very end of a section: the length counts UTF-16 units, not bytes."""
    s = Space(rng, nsec=rng.choice([1, 2]), align=(512, 512))
    i = s.n - 1
    s.data[i] = bytearray()
    base = s.va(i)
    n = rng.choice([1, 2, 5, 8])
    over = rng.choice([-1, 0, 0, 1, 1, 2, n])
    room = s.vs - 24 - 16
    pos = s.vs - 2 - 2 * n
    d = bytearray(s.vs)
    d[:16] = struct.pack("<IIHHHH", 0, 0, 0, 0, 1, 0)
    d[16:24] = struct.pack("<II", 0x80000000 | pos, 24)
    d[24:40] = struct.pack("<IIII", base + 60, 4, 0, 0)
    d[pos:pos + 2] = struct.pack("<H", n + over)
    for k in range(n):
        d[pos + 2 + 2 * k:pos + 4 + 2 * k] = struct.pack("<H", 65 + k)
    s.data[i] = d
    s.p.dirs[2] = (base, 100)
    p = s.p
    for k in range(s.n):
        p.add(name=b".s%d" % k, data=bytes(s.data[k]) or b"\1", va=s.va(k), vs=s.vs)
    return [fileset(0, p.to_bytes()), load(0), {"op": "res_read"}]


def deep(rng, n):
    """A chain of n directories, 24 bytes apart."""
    from pe import PE
    p = PE(fmt=32, sa=0x1000, fa=0x200)
    d = b""
    for k in range(n):
        last = k == n - 1
        d += struct.pack("<IIHHHH", 0, 0, 0, 0, 0, 1) + struct.pack("<II", 1, 24 * n if last else (0x80000000 | 24 * (k + 1)))
    d += struct.pack("<IIII", 0x1000, 4, 0, 0)
    p.add(name=b".rsrc", data=d, va=0x1000, vs=len(d))
    p.dirs[2] = (0x1000, len(d))
    return [fileset(0, p.to_bytes()), load(0), {"op": "res_read"}]


def c15(rng, tier):
    q = tier == "quick"
    n = 220 if q else 2500
    for i in range(n):
        prog, p, tgt, off = host(rng)
        for _ in range(rng.choice([1, 1, 2])):
            t = tree(rng, rng.choice([1, 2, 3, 3, 4]), rng.choice([1, 2, 3, 4]))
            if rng.random() < 0.12:
                spoil(rng, t)
            prog.append({"op": "tree_set", "dir": t, "clear": rng.random() < 0.1})
            a = dict({"op": "res_rebuild", "off": off, "save": rng.random() < 0.9, "strip": rng.random() < 0.7}, **tgt)
            prog.append(a)
            prog.append({"op": "res_read"} if a["save"] else {"op": "st"})
        yield {"id": "build-%d" % i, "prog": prog + reload_steps(rng, [{"op": "res_read"}])}
    for i in range(3 if q else 12):
        prog, p, tgt, off = host(rng)
        k = [32, 31, 20][i % 3]
        prog += [{"op": "tree_set", "dir": chain(rng, k)}, {"op": "res_rebuild", "off": 0, "sec": len(p.secs) - 1}, {"op": "res_read"}]
        yield {"id": "chain-%d" % i, "prog": prog}
    for i in range(8 if q else 60):
        yield {"id": "edge-%d" % i, "prog": edge_name(rng)}
    for i, k in enumerate([31, 32, 3000, 15000] if q else [20, 31, 32, 1000, 3000, 15000, 20000]):
        yield {"id": "deep-%d" % k, "prog": deep(rng, k)}
    yield from malformed(rng, 250 if q else 3000, "read", build_res, [{"op": "res_read"}])
    yield from edges(rng, 80 if q else 1500, build_res, [{"op": "res_read"}], "end")
    yield from fits(rng, 6 if q else 60, lambda r, p: {"op": "res_rebuild", "tree": tree(r, 2, 3, 0), "strip": False}, [{"op": "res_read"}], wide=12)


# ---------------------------------------------------------------- C16
class Keys:
    def __init__(self, rng):
        self.roots = [{"t": 10}, {"t": 16}, {"rn": [65]}, {"rn": []}][:rng.choice([1, 2, 3, 4])]
        self.keys = [{"id": w4(1)}, {"id": w4(0)}, {"n": [65]}, {"n": []}, {"id": w4(0xffffffff)}, {"n": [97, 98]}][:rng.choice([1, 2, 3, 6])]
        self.langs = [w4(0), w4(1033), w4(0xffffffff)][:rng.choice([1, 2, 3])]
        if rng.random() < 0.3:
            rng.shuffle(self.keys)
        self.rng = rng

    def r(self):
        return dict(self.rng.choice(self.roots)) if self.rng.random() < 0.95 else {"t": 3}

    def k(self):
        return dict(self.rng.choice(self.keys)) if self.rng.random() < 0.95 else {"n": [0x4e00]}

    def l(self):
        return self.rng.choice(self.langs) if self.rng.random() < 0.95 else w4(7)


def looks(rng, K, n):
    out = []
    for _ in range(n):
        f = rng.choice(["types", "exists", "names", "ids", "count", "lcount", "langs", "get", "get", "geti", "geti"])
        s = {"op": "rv", "fn": f}
        if f != "types":
            s.update(K.r())
        if f in ("lcount", "langs", "get", "geti"):
            s.update(K.k())
        if f == "get":
            s["lang"] = K.l()
        if f == "geti":
            s["index"] = rng.choice([0, 0, 1, 2, 3, 1000])
        out.append(s)
    return out


def edits(rng, K, n):
    out = []
    for _ in range(n):
        if rng.random() < 0.62:
            s = dict({"op": "rm_add", "lang": K.l(), "data": L(rb(rng, rng.choice([0, 1, 3, 9])))}, **K.r())
            s.update(K.k())
            if rng.random() < 0.75:
                s["cp"], s["ts"] = rword(rng), rword(rng)
            out.append(s)
        else:
            s = dict({"op": "rm_rem"}, **K.r())
            x = rng.random()
            if x > 0.12:
                s.update(K.k())
            if x > 0.4:
                s["lang"] = K.l()
            out.append(s)
        if rng.random() < 0.5:
            out += looks(rng, K, rng.choice([1, 1, 2]))
    return out


def c16(rng, tier):
    q = tier == "quick"
    n = 260 if q else 3000
    for i in range(n):
        K = Keys(rng)
        prog = []
        if rng.random() < 0.25:
            prog.append({"op": "tree_set", "dir": odd_tree(rng, K)})
        prog += edits(rng, K, rng.choice([3, 6, 10, 16] + ([] if q else [30, 60])))
        prog += looks(rng, K, 3)
        if rng.random() < 0.3:
            h, p, tgt, off = host(rng)
            prog += h + [dict({"op": "res_rebuild", "off": off, "sec": len(p.secs) - 1})] + [{"op": "res_read"}] + reload_steps(rng, [{"op": "res_read"}]) + edits(rng, K, 4) + looks(rng, K, 3)
        yield {"id": "edit-%d" % i, "prog": prog}
    for i in range(40 if q else 400):
        # data taken from the tree itself: to another key, or the same one (to change the codepage)
        prog = []
        t = {"t": 10, "id": w4(1), "lang": w4(1)}
        prog.append(dict({"op": "rm_add", "data": L(rb(rng, rng.choice([3, 40])))}, **t))
        for _ in range(rng.choice([1, 2, 5])):
            x = rng.choice([t, {"t": 10, "id": w4(1), "lang": w4(2)}, {"t": 10, "id": w4(2), "lang": w4(1)}, {"t": 10, "n": [65], "lang": w4(1)}, {"t": 11, "id": w4(1), "lang": w4(1)}, {"rn": [66], "n": [65], "lang": w4(1)}])
            prog.append(dict({"op": "rm_add", "from": [0, 0, 0], "cp": rword(rng), "ts": rword(rng)}, **x))
        yield {"id": "own-%d" % i, "prog": prog}
    for i in range(60 if q else 600):
        # removals, one after another, of the resources of a tree some of whose directories are empty
        dr = lambda es: {"k": "dir", "cp": w4(0), "data": [], "sub": [dict(attrs(rng), ents=es)]}
        nm = lambda k, x: dict({"named": "n" in k or "rn" in k, "id": w4(k["t"]) if "t" in k else k.get("id", w4(0)), "name": k.get("n", k.get("rn", []))}, **x)
        types, keys = [{"t": 10}, {"rn": [65]}, {"t": 16}], [{"id": w4(1)}, {"n": [65]}, {"id": w4(2)}, {"n": [66]}]
        here, roots = [], []
        for r in rng.sample(types, rng.choice([1, 2, 3])):
            ks = []
            for k in rng.sample(keys, rng.choice([1, 2, 2, 3, 0])):
                ls = rng.sample([0, 9, 1033], rng.choice([0, 0, 1, 1, 2]))
                here += [dict(r, **dict(k, lang=w4(x))) for x in ls]
                ks.append(nm(k, dr([nm({"id": w4(x)}, leaf(rng)) for x in ls])))
            roots.append(nm(r, dr(ks)))
        rng.shuffle(here)
        prog = [{"op": "tree_set", "dir": dict(attrs(rng), ents=roots)}]
        for s in here:
            if rng.random() < 0.2:
                s = {x: s[x] for x in s if x != "lang"}
            prog.append(dict({"op": "rm_rem"}, **s))
            prog += [{"op": "rv", "fn": "types"}] + ([dict({"op": "rm_rem"}, **rng.choice(types))] if rng.random() < 0.1 else [])
        yield {"id": "empties-%d" % i, "prog": prog}
    for i in range(60 if q else 600):
        t = tree(rng, 3, 4)
        prog = [{"op": "tree_set", "dir": t}]
        for _ in range(5):
            path = []
            d = t
            while True:
                if rng.random() < 0.12 or not d["ents"]:
                    path.append(rng.choice([{"n": [1]}, {"id": w4(77)}, {"n": []}, {"id": w4(0)}]))
                    break
                e = rng.choice(d["ents"])
                path.append({"n": e["name"]} if e["named"] else {"id": e["id"]})
                if e["k"] != "dir":
                    if rng.random() < 0.2:
                        path.append({"id": w4(1)})
                    break
                if rng.random() < 0.3:
                    break
                d = e["sub"][0]
            prog.append({"op": "tree_by", "path": path})
        yield {"id": "path-%d" % i, "prog": prog}


def odd_tree(rng, K):
    """Trees of an unusual shape: data where a directory is expected, named languages, duplicates."""
    def ent(k, x):
        if "n" in k or "rn" in k:
            return dict({"named": True, "id": w4(0), "name": k.get("n", k.get("rn"))}, **x)
        return dict({"named": False, "id": k["id"] if "id" in k else w4(k["t"]), "name": []}, **x)

    def sub(d):
        return {"k": "dir", "cp": w4(0), "data": [], "sub": [d]}

    def dr(es):
        return dict(attrs(rng), ents=es)

    def lang():
        return rng.choice([ent({"id": K.l()}, leaf(rng)), ent({"n": [65]}, leaf(rng)), ent({"id": K.l()}, sub(dr([]))), ent({"id": K.l()}, leaf(rng)), ent({"id": K.l()}, {"k": "none", "cp": w4(0), "data": [], "sub": []})])

    def key_():
        return rng.choice([ent(K.k(), leaf(rng)), ent(K.k(), sub(dr([lang() for _ in range(rng.randrange(4))]))), ent(K.k(), sub(dr([lang() for _ in range(rng.randrange(1, 3))])))])

    def root():
        return rng.choice([ent(K.r(), leaf(rng)), ent(K.r(), sub(dr([key_() for _ in range(rng.randrange(4))]))), ent(K.r(), sub(dr([key_() for _ in range(rng.randrange(1, 3))])))])
    return dr([root() for _ in range(rng.randrange(1, 5))])


def man_replay(beh, rng, tier):
    """Histories for behaviours of MC_Man: the edits, then every question that the viewer answers."""
    n = 300 if tier == "quick" else 6000
    for i, b in enumerate(beh if len(beh) <= n else rng.sample(beh, n)):
        q = [{"op": "rv", "fn": "types"}]
        for r in b["roots"]:
            q += [dict({"op": "rv", "fn": f}, **r) for f in ("exists", "names", "ids", "count")]
            for k in b["keys"]:
                q += [dict({"op": "rv", "fn": f}, **r, **k) for f in ("lcount", "langs")]
                q += [dict({"op": "rv", "fn": "get", "lang": l}, **r, **k) for l in b["langs"]]
                q += [dict({"op": "rv", "fn": "geti", "index": x}, **r, **k) for x in range(len(b["langs"]) + 1)]
                q += [{"op": "tree_by", "path": [{"n": r["rn"]} if "rn" in r else {"id": w4(r["t"])}, k]}]
        yield {"id": "man-model-%d-%d" % (len(beh), i), "prog": b["calls"] + q}


def tree_replay(beh, rng, tier):
    """Histories for behaviours of MC_Tree."""
    n = 150 if tier == "quick" else 3000
    for i, b in enumerate(beh if len(beh) <= n else rng.sample(beh, n)):
        yield {"id": "tree-model-%d-%d" % (len(beh), i), "prog": b["calls"] + [{"op": "st"}]}
