"""Generators of histories for the image core (C01-C07, C21, C22, C25, C26)."""
import struct
from pe import PE, Sec, w2, w4, w8, au

ALIGN = [(16, 16), (32, 32), (64, 64), (512, 512), (0x1000, 0x200), (0x1000, 0x1000), (0x2000, 0x400)]
SMALL = [(16, 16), (32, 32), (64, 64)]


def rb(rng, n, zeros=0.3):
    return bytes((0 if rng.random() < zeros else rng.randrange(256)) for _ in range(n))


def L(b):
    return list(b)


def rand_pe(rng, align=None, nsec=None, fmt=None, maxdata=96, dirs=True, mem=False, tidy=False):
    sa, fa = align or rng.choice(ALIGN)
    p = PE(fmt=fmt or rng.choice([32, 64]), sa=sa, fa=fa, stub=rb(rng, rng.choice([0, 0, 4, 8, 64])), nrva=16 if tidy else rng.choice([16, 16, 16, 0, 1, 2, 6, 11, 13, 15]))
    if p.fmt == 64:
        p.base = rng.choice([0x400000, 0x140000000, 0x7FFFFFFF0000, 0xFFFFFFFF00000000])
    else:
        p.base = rng.choice([0x400000, 0x10000000, 0x7FFF0000, 0xFFFF0000])
    n = rng.choice([0, 1, 1, 2, 2, 3, 4]) if nsec is None else nsec
    p.mem = mem
    # reserve header space for n sections
    hdr = 64 + au(len(p.stub), 4) + p.ntsize() + 40 * n
    far = rng.random() < 0.15 and not mem
    va = au(hdr + rng.choice([0, 0, sa]), sa) + (au(rng.choice([0xff00, 0x10000, 0x123400, 0x1000000]), sa) if far else 0)
    off = au(hdr, fa)
    if mem:
        va = max(va, au(off, sa))
    for i in range(n):
        k = rng.random()
        data = rb(rng, rng.choice([0, 1, 5, 16, fa // 2 if fa <= 64 else 33, rng.randrange(maxdata)]))
        rs = au(len(data), fa) if not (rng.random() < 0.2 and i == n - 1 and not tidy) else len(data)
        vs = rng.choice([max(len(data), 1), au(max(len(data), 1), sa), max(1, len(data)) + sa, max(len(data), rs, 1), 3 * sa])
        if not tidy:
            if rs and k < 0.15:
                vs = 0
            elif k < 0.3 and rs:
                vs = max(1, len(data) // 3)   # raw size above the virtual size
        if rs == 0 and vs == 0:
            vs = 1
        s = p.add(name=rb(rng, rng.randrange(9), 0.05), vs=vs, data=data, rs=rs, va=va if not p.secs else None, ch=rng.randrange(1 << 32))
        if mem:
            s.ptr = rng.choice([s.va, off]) if rs else 0
    if dirs and p.secs:
        for i in range(16):
            if rng.random() < 0.35:
                s = rng.choice(p.secs)
                p.dirs[i] = (s.va + rng.randrange(max(1, s.vs or 1)), rng.randrange(64))
    p.soh = None
    if rng.random() < 0.3 and not tidy:
        p.soh = rng.choice([hdr, 0 if far else va, 1 if far else max(0, va - 1), 0, hdr // 2])
    p.overlay = rb(rng, rng.choice([0, 0, 0, 1, 7]))
    p.ch = rng.choice([0x102, 0x2102, 0x103, 0x22, rng.randrange(1 << 16)])
    p.dch = rng.choice([0x40, 0x8140, 0, 0xffff])
    p.subsys = rng.choice([2, 3, 1])
    p.ep = rng.randrange(0x3000)
    return p


def fileset(slot, data):
    return {"op": "file_set", "file": slot, "b": L(data)}


def load(slot=0, **kw):
    d = {"op": "load", "file": slot}
    d.update(kw)
    return d


def addrs(rng, p, k):
    c = [0, 1, 63, 64, 0x7fffffff, 0xffffffff, 0x10000]
    soh = p.soh if p.soh is not None else au(p.hdr_len(), p.fa)
    c += [soh - 2, soh - 1, soh, soh + 1]
    for s in p.secs:
        rs = s.rs if s.rs is not None else au(len(s.data), p.fa)
        av = au(s.vs or rs, p.sa)
        for b in (s.va, s.va + len(s.data), s.va + rs, s.va + s.vs, s.va + av):
            c += [b - 9, b - 8, b - 4, b - 2, b - 1, b, b + 1, b + 3]
        c.append(s.va + rng.randrange(max(1, av)))
    return [rng.choice(c) & 0xffffffff for _ in range(k)]


def offsets(rng, p, k):
    data = p.to_bytes()
    lf = struct.unpack_from("<I", data, 60)[0]
    c = [0, 1, 64, len(data) - 1, len(data), 0xffffffff]
    soh = struct.unpack_from("<I", data, lf + 84)[0]
    c += [soh - 1, soh, soh + 1]
    tab = lf + 24 + struct.unpack_from("<H", data, lf + 20)[0]
    for i in range(len(p.secs)):
        vs, va, rs, ptr = struct.unpack_from("<IIII", data, tab + 40 * i + 8)
        for b in (ptr, ptr + rs):
            c += [b - 1, b, b + 1]
    return [rng.choice(c) & 0xffffffff for _ in range(k)]


# ---------------------------------------------------------------- C01
def mutate(rng, p, data):
    """One or two well-aimed corruptions of a file."""
    d = bytearray(data)
    lf = struct.unpack_from("<I", d, 60)[0]
    fmt = p.fmt
    nb = 120 if fmt == 32 else 136
    n = len(p.secs)

    def put(o, w, v):
        if o + w <= len(d):
            d[o:o + w] = (v & ((1 << (8 * w)) - 1)).to_bytes(w, "little")

    def get(o, w):
        return int.from_bytes(d[o:o + w], "little") if o + w <= len(d) else 0
    k = rng.randrange(20)
    r = rng.random
    tab = lf + 24 + get(lf + 20, 2)
    if k == 0:
        put(rng.choice([0, 1, 60, 61]), 1, rng.randrange(256))
    elif k == 1:
        put(60, 4, rng.choice([lf + 1, lf + 2, lf + 4, lf - 4, 0, 4, len(d), len(d) - 4, len(d) - 120, len(d) - 119, 0x7ffffffc, 0xfffffffc, 0x10000000]))
    elif k == 2:
        put(lf + rng.randrange(4), 1, rng.randrange(256))
    elif k == 3:
        put(lf + 6, 2, rng.choice([0, n + 1, n - 1, 97, 96, 0xffff, n + 2]))
    elif k == 4:
        put(lf + 20, 2, rng.choice([get(lf + 20, 2) + 40, get(lf + 20, 2) + 1, 0, 0xffff, get(lf + 20, 2) + 80]))
    elif k == 5:
        put(lf + 24, 2, rng.choice([0x10b, 0x20b, 0x107, 0, 0x30b]))
    elif k == 6:
        put(lf + 56, 4, rng.choice([0, 1, 3, 8, 16, 32, 64, 512, 0x1000, 0x2000, 0x1800, 0x10000, p.fa, p.fa // 2, p.sa * 2, p.sa - 1]))
    elif k == 7:
        put(lf + 60, 4, rng.choice([0, 1, 3, 16, 32, 256, 511, 512, 0x1000, 0x2000, 0x600, p.sa, p.sa * 2, p.sa // 2, p.fa + 1]))
    elif k == 8:
        soi = get(lf + 80, 4)
        put(lf + 80, 4, rng.choice([0, 1, soi - 1, soi + 1, soi - p.sa, soi + p.sa, 0xffffffff, 0x100000000 - p.sa + 1]))
    elif k == 9:
        put(lf + 84, 4, rng.choice([0, 1, (p.secs[0].va if n else 64), (p.secs[0].va + 1 if n else 65), len(d), len(d) + 1, 0x7fffffff, 0xffffffff]))
    elif k == 10:
        put(lf + nb - 4, 4, rng.choice([0, 1, 15, 16, 17, 0xffffffff, 0x80000000]))
    elif k <= 16 and n:
        i = rng.randrange(n)
        o = tab + 40 * i
        f = rng.choice([8, 12, 16, 20])
        v = get(o + f, 4)
        put(o + f, 4, rng.choice([0, 1, v - 1, v + 1, v + p.sa, v - p.sa, v + p.fa, v - p.fa, 2 * v, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0xfffffff0, 0xfffff000, len(d), len(d) - p.fa]))
        if r() < 0.25:
            f = rng.choice([8, 12, 16, 20])
            put(o + f, 4, rng.choice([0, 1, get(o + f, 4) + p.sa, 0x80000000]))
    elif k == 17:
        del d[rng.choice([rng.randrange(len(d)), 0, 63, 64, lf, lf + 4, lf + nb - 1, lf + nb, max(0, len(d) - 1), tab + 39 if n else 10]):]
    elif k == 18:
        d += rb(rng, rng.randrange(40))
    else:
        if len(d):
            for _ in range(rng.randrange(1, 4)):
                o = rng.randrange(len(d))
                if not (lf + 56 <= o < lf + 64 or lf + 80 <= o < lf + 84):
                    d[o] = rng.randrange(256)
    return bytes(d)


def undecidable(d, load_only=False):
    """Inputs whose fields are so large that 32-bit TLC integers cannot decide them."""
    if len(d) < 64:
        return False
    lf = struct.unpack_from("<I", d, 60)[0]
    if lf + 88 > len(d):
        return False
    sa, fa = struct.unpack_from("<II", d, lf + 56)
    soi, = struct.unpack_from("<I", d, lf + 80)
    return sa >= 1 << 28 or fa >= 1 << 28 or (not load_only and (1 << 28) <= soi < (1 << 32) - sa)


def c01(rng, tier):
    n = 150 if tier == "quick" else 1500
    for i in range(n):
        mem = rng.random() < 0.2
        p = rand_pe(rng, mem=mem, maxdata=64)
        base = p.to_bytes()
        if undecidable(base, True):
            continue
        prog = [fileset(0, base), load(0, mem=mem)]
        for j in range(7):
            d = base
            for _ in range(rng.choice([1, 1, 1, 2])):
                if len(d) >= 64:
                    d = mutate(rng, p, d)
            if undecidable(d, True):
                continue
            prog += [fileset(1, d), load(1, mem=mem if rng.random() < 0.9 else not mem, how=rng.choice(["factory", "factory", "32", "64", "type"]),
                                         mask=rng.randrange(8) if rng.random() < 0.2 else 0, pos=0 if rng.random() < 0.95 else rng.randrange(min(9, len(d) + 1)))]
        yield {"id": "load-%d" % i, "prog": prog}
    for i in range(20 if tier == "quick" else 200):
        prog = []
        for j in range(8):
            d = rb(rng, rng.choice([0, 1, 2, 63, 64, 65, 120, 300]))
            if rng.random() < 0.6 and len(d) >= 64:
                d = b"MZ" + d[2:60] + struct.pack("<I", rng.choice([64, 0, 4, 16, 63])) + d[64:]
            if rng.random() < 0.5 and len(d) > 100:
                d = d[:64] + b"PE\0\0" + d[68:]
            if not undecidable(d, True):
                prog += [fileset(0, d), load(0, how=rng.choice(["factory", "32", "64", "type"]))]
        yield {"id": "garbage-%d" % i, "prog": prog}
    for nsec in (95, 96, 97):
        p = PE(fmt=32, sa=16, fa=16)
        h = 64 + p.ntsize() + 40 * nsec
        for k in range(nsec):
            p.add(vs=16, data=bytes([k + 1]) * 16, rs=16 if k % 9 == 0 else 0, va=au(h, 16) if k == 0 else None)
        yield {"id": "many-sections-%d" % nsec, "prog": [fileset(0, p.to_bytes()), load(0)]}


def load_replay(beh, rng, tier, ok_only=False):
    """The files of MC_Load (a well-formed file and everything near it), loaded in every way the model says."""
    base = bytes(next(b["base"] for b in beh if "base" in b))
    bs = [b for b in beh if "mods" in b and (b["ok"] or not ok_only)]
    n = 60000
    good = [b for b in bs if b["ok"]]
    bad = [b for b in bs if not b["ok"]]
    if len(bs) > n:
        good = good if len(good) <= n // 2 else rng.sample(good, n // 2)
        bad = bad if len(bad) <= n - len(good) else rng.sample(bad, n - len(good))
    bs = good + bad
    tag = "%d-%d-%s" % (len(base), len(beh), any(b["mem"] for b in bs))
    rng.shuffle(bs)
    for i in range(0, len(bs), 12):
        prog = []
        for b in bs[i:i + 12]:
            d = bytearray(base)
            for m in b["mods"]:
                if "cut" in m:
                    del d[m["cut"]:]
                else:
                    d[m["off"]:m["off"] + len(m["b"])] = bytes(m["b"])
            if undecidable(bytes(d), not ok_only):
                continue
            prog += [fileset(0, bytes(d)), load(0, mem=b["mem"], how="factory" if b["want"] == 0 else str(b["want"]))]
            if b["want"] == 0 and rng.random() < 0.3:
                prog += [load(0, mem=b["mem"], how="type")]
            if b["ok"]:
                prog += [{"op": "getf"}] if ok_only else [{"op": "st"}]
        yield {"id": "load-model-%s-%d" % (tag, i), "prog": prog}


def load_replay_ok(beh, rng, tier):
    return load_replay(beh, rng, tier, True)


# ---------------------------------------------------------------- C02
FIELDS = ["ep", "ch", "chset", "chclr", "dch", "subsys", "os", "ss", "base4", "base8", "sr4", "sr8", "sc4", "sc8", "hr4", "hr8", "hc4", "hc8", "sum", "ts", "mach", "boc"]


def rv8(rng):
    return w8(rng.choice([0, 1, 0xffff, 0x10000, 0xffffffff, 0x100000000, 0x8000000000000000, rng.getrandbits(64), rng.getrandbits(32), rng.getrandbits(16)]))


def c02(rng, tier):
    n = 130 if tier == "quick" else 1300
    for i in range(n):
        mem = rng.random() < 0.25
        p = rand_pe(rng, mem=mem)
        if rng.random() < 0.4 and p.secs:     # section data pointer inside its alignment block
            p_data = bytearray(p.to_bytes())
            lf = struct.unpack_from("<I", p_data, 60)[0]
            tab = lf + 24 + struct.unpack_from("<H", p_data, lf + 20)[0]
            o = tab + 40 * rng.randrange(len(p.secs)) + 20
            v = struct.unpack_from("<I", p_data, o)[0]
            if v:
                struct.pack_into("<I", p_data, o, v + rng.randrange(min(p.fa, 16)))
            data = bytes(p_data) + bytes(rng.choice([0, p.fa]))
        else:
            data = p.to_bytes()
        if rng.random() < 0.3:
            data = data[:2] + rb(rng, 58, 0) + data[60:]
        prog = [fileset(0, data), load(0, mem=mem, how=rng.choice(["factory", str(p.fmt)])), {"op": "getf"} if True else None]
        ok = [prog[0], prog[1]]
        prog = ok
        yield {"id": "load-%d" % i, "prog": prog + [{"op": "load", "file": 0, "mem": mem, "img": 1, "pos": 0, "dbg": rng.random() < 0.5}]}
    for i in range(90 if tier == "quick" else 700):
        p = rand_pe(rng, tidy=True)
        prog = [fileset(0, p.to_bytes()), load(0), {"op": "getf"}] if rng.random() < 0.6 else [{"op": "new", "fmt": rng.choice([32, 64]), "dll": rng.random() < 0.5, "subsys": rng.randrange(16), "sa": rng.choice([0x1000, 16, 512])}, {"op": "st"}, {"op": "getf"}]
        for _ in range(10):
            prog.append({"op": "setf", "f": rng.choice(FIELDS), "v": rv8(rng)})
            if rng.random() < 0.4:
                prog.append({"op": "st"})
        prog += [{"op": "getf"}, {"op": "chflag", "v": rv8(rng)}]
        for s in range(len(p.secs)):
            if prog[0]["op"] == "file_set":
                prog.append({"op": "sec_getters", "sec": s})
        yield {"id": "fields-%d" % i, "prog": prog + [{"op": "st"}]}


# ---------------------------------------------------------------- C03
def start_image(rng, small=True, tidy=True):
    """(prog, PE description) of a fresh or loaded image."""
    if rng.random() < 0.35:
        fmt = rng.choice([32, 64])
        sa, fa = rng.choice(SMALL if small else ALIGN)
        h = 64 + (248 if fmt == 32 else 264) + 40 * 6
        p = PE(fmt=fmt, sa=sa, fa=fa)
        p.soh = au(h, fa)
        return [{"op": "new", "fmt": fmt, "sa": sa, "dll": rng.random() < 0.5}, {"op": "setfa_raw", "fa": fa},
                {"op": "setf", "f": "soh", "v": w8(p.soh)}, {"op": "upd_size"}], p
    p = rand_pe(rng, align=rng.choice(SMALL if small else ALIGN), tidy=tidy, nsec=rng.choice([1, 2, 3]))
    return [fileset(0, p.to_bytes()), load(0)], p


def layout_replay(beh, rng, tier):
    """Histories for behaviours of MC_Layout."""
    pick = beh if len(beh) <= (300 if tier == "quick" else 3000) else rng.sample(beh, 300 if tier == "quick" else 3000)
    for i, b in enumerate(pick):
        yield {"id": "model-%d-%d-%d-%d" % (b["sa"], b["fa"], len(beh), i), "prog": [
            {"op": "new", "fmt": 32 + 32 * (i % 2), "sa": b["sa"]}, {"op": "setfa_raw", "fa": b["fa"]}, {"op": "setf", "f": "soh", "v": w8(b["soh"])}, {"op": "upd_size"},
            {"op": "det_new", "det": 0, "raw": [9], "vs": 0, "va": 0}] + b["calls"] + [{"op": "st"}, {"op": "det_st", "det": 0}]}


def write_replay(beh, rng, tier):
    """Histories for behaviours of MC_Write."""
    n = 400 if tier == "quick" else 4000
    for i, b in enumerate(beh if len(beh) <= n else rng.sample(beh, n)):
        yield {"id": "write-model-%d-%d" % (len(beh), i), "prog": b["calls"]}


def addr_replay(beh, rng, tier):
    """Files for the section tables of MC_Addr; every conversion and read at every address."""
    n = 250 if tier == "quick" else 2500
    for i, b in enumerate(beh if len(beh) <= n else rng.sample(beh, n)):
        al = b["al"]
        p = PE(fmt=rng.choice([32, 64]), sa=al, fa=al)
        p.base = rng.choice([0x400000, 0xfffffff0, 0xffffffff, 0xffffffe8, 0] + ([0x140000000, 0xfffffffffffff000, 0x1fffffff0] if p.fmt == 64 else []))
        p.soh = b["soh"]
        for t in b["secs"]:
            p.add(name=b".s", data=b"", va=t["va"], vs=t["vs"], rs=0)
        p.soi = b["secs"][-1]["va"] + au(b["secs"][-1]["vs"] or b["secs"][-1]["rs"], al)
        f = bytearray(p.to_bytes())
        tab = 64 + p.ntsize()
        for k, t in enumerate(b["secs"]):
            f[tab + 40 * k + 16:tab + 40 * k + 24] = struct.pack("<II", t["rs"], t["ptr"])
        top = max(p.soi, max(t["ptr"] + t["rs"] for t in b["secs"])) + 3
        yield {"id": "addr-model-%d-%d-%d" % (al, len(beh), i), "prog": [fileset(0, bytes(f)), load(0), {"op": "st"}, {"op": "sweep", "n": top}]}


def c03_steps(rng, p, nsec, k, big=False):
    sa, fa = p.sa, p.fa
    out = []
    det = False
    for _ in range(k):
        x = rng.randrange(19)
        last = nsec - 1
        tgt = {"sec": last} if nsec and rng.random() < 0.75 else {"sec": rng.randrange(nsec)} if nsec and rng.random() < 0.8 else None
        if tgt is None:
            if not det:
                det = True
                out.append({"op": "det_new", "det": 0, "raw": L(rb(rng, rng.randrange(40))), "vs": rng.choice([0, 1, sa, 3 * sa + 1]), "name": L(b"det"), "va": rng.choice([0, sa, 4 * sa])})
            tgt = {"det": 0}
        if x <= 3 and nsec < 7:
            data = rb(rng, rng.choice([0, 0, 1, 7, fa, fa + 1 if fa < 100 else 30, rng.randrange(70)]))
            a = {"op": "addsec", "raw": L(data), "name": L(rb(rng, rng.randrange(10), 0.1)), "vs": rng.choice([0, 1, sa, sa + 1, len(data), 2 * sa]), "auto": rng.random() < 0.8,
                 "va": rng.choice([0, 0, sa * 60, 7]), "ch": w4(rng.getrandbits(32)), "premap": rng.random() < 0.2}
            out.append(a)
            if a["raw"] or a["vs"]:
                nsec += 1
        elif x == 4 and det:
            out.append({"op": "adddet", "det": 0, "auto": rng.random() < 0.8})
            nsec = nsec + 1 if nsec < 7 else nsec    # may be refused; index stays valid because we re-read it below
            out.append({"op": "st"})
            return out, None
        elif x == 5:
            out.append(dict(op="prepare", **({"det": 0} if "det" in tgt else tgt)))
        elif x == 6:
            out.append(dict(op="recalc", strip=rng.random() < 0.4, **tgt))
        elif x in (7, 8):
            out.append(dict(op="setvs", vs=rng.choice([0, 1, sa, sa + 1, 2 * sa, 5 * sa, 3 * sa - 1]), **tgt))
        elif x in (9, 10, 11):
            # expand around the section's own address range
            out.append(dict(op="expand", rva=0, size=rng.choice([0, 1, 4, fa, sa, 2 * sa + 3, 40]), kind=rng.choice(["raw", "virtual"]), rel=rng.choice([0, 0, 1, 5, sa - 1, sa, -1, 3 * sa]), **tgt))
        elif x == 12:
            out.append({"op": "realign_sec", "idx": rng.choice([0, max(0, last), nsec, 3])})
        elif x == 13:
            out.append({"op": "realign_all"})
        elif x == 14:
            out.append({"op": rng.choice(["realign_file", "setfa"]), "fa": rng.choice([512, 1024, 256, 0, 16, 513, 4096, 8192, sa])})
        elif x == 15 and nsec:
            out.append(dict(op="sec_edit", off=rng.randrange(20), b=L(rb(rng, 4)), **tgt))
        elif x == 16 and nsec:
            out.append(dict(op="sec_resize", n=rng.randrange(60), fill=rng.choice([0, 0, 7]), **({"sec": last} if "sec" in tgt else tgt)))
        elif x == 17:
            out.append({"op": rng.choice(["upd_size", "upd_num"])})
        else:
            out.append(dict(op=rng.choice(["attached", "sec_getters", "sec_empty"]), **tgt))
        if rng.random() < 0.6:
            out.append({"op": "st"})
            if det:
                out.append({"op": "det_st", "det": 0})
    return out, nsec


def c03(rng, tier):
    n = 170 if tier == "quick" else 1700
    for i in range(n):
        prog, p = start_image(rng, small=rng.random() < 0.75)
        nsec = len(p.secs)
        steps, _ = c03_steps(rng, p, nsec, 14)
        yield {"id": "edit-%d" % i, "prog": prog + steps + [{"op": "st"}]}
    # the limit of 96 sections
    p = [{"op": "new", "fmt": 32, "sa": 16}, {"op": "setfa_raw", "fa": 16}, {"op": "setf", "f": "soh", "v": w8(4400)}, {"op": "upd_size"}]
    for k in range(98):
        p.append({"op": "addsec", "raw": [k + 1] if k % 3 else [], "vs": 0 if k % 3 else 5, "name": [65]})
    yield {"id": "limit-96", "prog": p + [{"op": "st"}]}
    yield from big(rng, "edit", 3 if tier == "quick" else 20)


# ---------------------------------------------------------------- C04
def c04(rng, tier):
    n = 150 if tier == "quick" else 1500
    for i in range(n):
        prog, p = start_image(rng, small=rng.random() < 0.6)
        nsec = len(p.secs)
        if rng.random() < 0.7:
            st, _ = c03_steps(rng, p, nsec, 5)
            prog += [s for s in st if s["op"] not in ("st", "det_st")]
        if rng.random() < 0.3:
            prog.append({"op": "stub_set", "b": L(rb(rng, rng.choice([0, 1, 2, 3, 4, 6, 200])))})
        if rng.random() < 0.3:
            prog.append({"op": "setf", "f": "nrva", "v": w8(rng.randrange(17))})
        if rng.random() < 0.3:
            prog.append({"op": "setf", "f": rng.choice(FIELDS), "v": rv8(rng)})
        prog.append({"op": "rebuild", "strip": rng.random() < 0.3, "soh": rng.random() < 0.8, "bound": rng.random() < 0.5})
        if rng.random() < 0.15:
            prog[-1][rng.choice(["pre", "pre", "nosk"])] = L(rb(rng, rng.choice([1, 17, 600])))
        if "nosk" in prog[-1]:
            prog[-1]["nosk"] = True
        prog += [{"op": "load", "file": 0, "img": 1, "opt": True}]
        prog += [{"op": "rebuild", "img": 1, "file": 1, "strip": prog[-2]["strip"], "soh": True, "bound": prog[-2]["bound"], "opt": True},
                 {"op": "load", "file": 1, "img": 2, "opt": True}]
        yield {"id": "rebuild-%d" % i, "prog": prog}
    # bound import data in the headers
    for i in range(30 if tier == "quick" else 200):
        p = rand_pe(rng, align=rng.choice(ALIGN), nsec=rng.choice([0, 1, 2]), tidy=True)
        p.hdr_extra = rb(rng, rng.randrange(8, 60), 0)
        base = p.secs[0].va if p.secs else 0
        while p.secs and 64 + au(len(p.stub), 4) + p.ntsize() + 40 * len(p.secs) + len(p.hdr_extra) > base:
            p.hdr_extra = p.hdr_extra[:-1]
        r = 64 + au(len(p.stub), 4) + p.ntsize() + 40 * len(p.secs)
        p.dirs[11] = (r + rng.choice([0, 0, 4]), max(0, len(p.hdr_extra) - rng.choice([0, 0, 4, -300])))
        if p.secs and rng.random() < 0.2:
            p.dirs[11] = (p.secs[0].va, rng.randrange(40))
        bound = rng.random() < 0.85
        strip = rng.random() < 0.3
        prog = [fileset(0, p.to_bytes()), load(0)]
        if rng.random() < 0.4:
            prog.append({"op": "stub_set", "b": L(rb(rng, rng.choice([0, 3, 16, 64, 128, 400])))})
        prog += [{"op": "rebuild", "strip": strip, "bound": bound, "soh": rng.random() < 0.85}, {"op": "load", "file": 0, "img": 1, "opt": True},
                 {"op": "rebuild", "img": 1, "file": 1, "strip": strip, "bound": bound, "opt": True}]
        yield {"id": "bound-%d" % i, "prog": prog}
    yield from big(rng, "write", 4 if tier == "quick" else 20)
    yield from big(rng, "lfanew", 2 if tier == "quick" else 10)


# ---------------------------------------------------------------- C05
def c05(rng, tier):
    n = 130 if tier == "quick" else 1300
    for i in range(n):
        p = rand_pe(rng, tidy=rng.random() < 0.7)
        prog = [fileset(0, p.to_bytes()), load(0, opt=True)]
        if rng.random() < 0.4:
            prog.append({"op": "setf", "f": "base8", "v": rv8(rng), "opt": True})
            base = int.from_bytes(bytes(prog[-1]["v"]), "little")
            if p.fmt == 32:
                base &= 0xffffffff
        else:
            base = p.base
        for a in addrs(rng, p, 12):
            k = rng.choice(["va2rva32", "va2rva64", "rva2va32", "rva2va64", "rva2off", "sec_rva", "sec_va32", "sec_va64", "sec_and_off", "sec_rva_off"])
            v = a
            if k in ("va2rva32", "va2rva64", "sec_va32", "sec_va64"):
                v = (base + a + rng.choice([0, 0, 0, -1, 0x100000000, -0x100000000, 1])) & 0xffffffffffffffff
                if rng.random() < 0.1:
                    v = rng.choice([0, 0xffffffff, 0x100000000, 0xffffffffffffffff, base - 1, base]) & 0xffffffffffffffff
            e = {"op": "conv", "k": k, "v": w8(v), "opt": True}
            if k.startswith("va2rva") and rng.random() < 0.3:
                e["bc"] = False
            if k == "sec_rva_off":
                if not p.secs:
                    continue
                e["sec"] = rng.randrange(len(p.secs))
            prog.append(e)
        for o in offsets(rng, p, 8):
            prog.append({"op": "conv", "k": rng.choice(["off2rva", "sec_off"]), "v": w8(o), "opt": True})
        for d in range(3):
            prog.append({"op": "conv", "k": "sec_dir", "v": w8(rng.choice([0, 1, 2, 5, 9, 15, 16, 20])), "opt": True})
        yield {"id": "conv-%d" % i, "prog": prog}


# ---------------------------------------------------------------- C06
def c06(rng, tier):
    n = 140 if tier == "quick" else 1400
    for i in range(n):
        p = rand_pe(rng, align=rng.choice(SMALL + [(512, 512), (0x1000, 0x200)]), tidy=rng.random() < 0.7, nsec=rng.choice([1, 2, 3]))
        prog = [fileset(0, p.to_bytes()), load(0, opt=True)]
        ns = len(p.secs)
        for a in addrs(rng, p, 18):
            x = rng.randrange(12)
            via = rng.choice(["rva", "rva", "rva", "va32", "va64"])
            v = a if via == "rva" else (p.base + a) & 0xffffffffffffffff
            e = {"via": via, "v": w8(v), "view": rng.choice(["raw", "virt"]), "opt": True}
            if rng.random() < 0.4:
                e["sec"] = rng.randrange(ns)
            else:
                e["hdrs"] = rng.random() < 0.5
            if x <= 3:
                prog.append(dict(op="rd", n=rng.choice([1, 2, 4, 8, 20, 40]), **e))
            elif x <= 5:
                e["op"] = "len"
                if "sec" not in e and rng.random() < 0.4:
                    b = addrs(rng, p, 1)[0]
                    e["v2"] = w8(b if via == "rva" else (p.base + b) & 0xffffffffffffffff)
                prog.append(e)
            elif x == 6:
                mut = rng.random() < 0.3
                q = dict(e, op="ptr", cnt=4)
                if mut:
                    q["mut"] = True
                    q["view"] = "raw"
                prog.append(q)
            elif x == 7:
                prog.append({"op": "sec_virt", "sec": rng.randrange(ns), "const": rng.random() < 0.5, "opt": True})
            elif x == 8:
                prog.append({"op": rng.choice(["sec_rawget", "sec_empty", "sec_getters"]), "sec": rng.randrange(ns), "const": rng.random() < 0.5, "opt": True})
            elif x == 9:
                s = rng.randrange(ns)
                prog.append(rng.choice([{"op": "sec_setraw", "sec": s, "raw": L(rb(rng, rng.choice([0, 3, 20]))), "opt": True}, {"op": "sec_edit", "sec": s, "off": rng.randrange(10), "b": L(rb(rng, 3)), "opt": True}]))
            elif x == 10:
                prog.append({"op": "setvs", "sec": ns - 1, "vs": rng.choice([1, p.sa, 2 * p.sa, 3 * p.sa, 40]), "opt": True})
            else:
                prog.append(rng.choice([{"op": "st", "opt": True}, {"op": "rebuild", "opt": True, "bound": False}, {"op": "sec_copy", "sec": rng.randrange(ns), "to": 3, "opt": True}]))
        yield {"id": "data-%d" % i, "prog": prog + [{"op": "st", "opt": True}]}
    yield from big(rng, "read", 2 if tier == "quick" else 10)
    # every edge of every section, asked of the section itself
    for i in range(12 if tier == "quick" else 120):
        p = rand_pe(rng, align=rng.choice(SMALL + [(512, 512), (0x1000, 0x200)]), tidy=rng.random() < 0.7, nsec=rng.choice([1, 2, 3]))
        prog = [fileset(0, p.to_bytes()), load(0, opt=True)]
        for s, x in enumerate(p.secs):
            for a in sorted({x.va - 1, x.va, x.va + 1, x.va + len(x.data) - 1, x.va + len(x.data), x.va + au(x.vs or len(x.data), p.sa) - 1, x.va + au(x.vs or len(x.data), p.sa)}):
                via = rng.choice(["rva", "va32", "va64"])
                v = w8(a if via == "rva" else (p.base + a) & 0xffffffffffffffff)
                for view in ("raw", "virt"):
                    for mut in ((False, True) if view == "raw" else (False,)):
                        prog.append(dict({"op": "ptr", "cnt": 2, "via": via, "v": v, "view": view, "sec": s, "opt": True}, **({"mut": True} if mut else {})))
                    prog += [{"op": "len", "via": via, "v": v, "view": view, "sec": s, "opt": True}, {"op": "rd", "n": rng.choice([1, 2, 8]), "via": via, "v": v, "view": view, "sec": s, "opt": True}]
        yield {"id": "edge-%d" % i, "prog": prog}

def big_data(rng, n):
    """n bytes, mostly runs."""
    out = bytearray()
    while len(out) < n:
        out += bytes([rng.getrandbits(8)]) * rng.choice([1, 1, 300, 2000])
    out = out[:n]
    out[-1:] = b"\1"
    return bytes(out)


def big(rng, what, k=3):
    """Histories over sections, stubs and files of more than 64 KiB; what: the operations asked about."""
    for i in range(k):
        fmt = rng.choice([32, 64])
        n = 65536 + rng.choice([0, 1, 2, 600, 4096, 5000])
        if what == "lfanew":
            # the headers start behind the first 64 KiB
            p = PE(fmt=fmt, sa=0x1000, fa=0x200)
            p.stub = big_data(rng, 65536 - 64 + rng.choice([0, 4, 32, 64, 68, 300 * 4]))
            p.add(data=rb(rng, 40), va=0x12000)
            prog = [fileset(0, p.to_bytes()), load(0), {"op": "stub_get"}, {"op": "rich"}, {"op": "checksum", "file": 0}, {"op": "rebuild", "file": 1, "bound": False}, {"op": "load", "file": 1, "img": 1}, {"op": "stub_get", "img": 1}]
        else:
            prog = [{"op": "new", "fmt": fmt, "sa": 0x1000}, {"op": "setf", "f": "soh", "v": w8(0x400)}, {"op": "upd_size"}]
            first = rng.random() < 0.5
            sec = [{"op": "addsec", "raw": L(big_data(rng, n)), "vs": rng.choice([0, 5, n, n + 0x1000]), "name": L(b"big")}, {"op": "addsec", "raw": L(rb(rng, 30)), "vs": 0x1800, "name": L(b"small")}]
            prog += sec if first else sec[::-1]
            s = 0 if first else 1
            va = 0x1000 if first else 0x3000
            if what == "edit":
                prog += [{"op": "st"}, {"op": "sec_edit", "sec": s, "off": 65534, "b": [1, 2, 3]}, {"op": "recalc", "sec": s, "strip": rng.random() < 0.5}]
                if not first:
                    prog += [{"op": "expand", "sec": s, "rva": va + n + 20, "size": 10, "kind": rng.choice(["raw", "virtual"]), "rel": n + 20}, {"op": "setvs", "sec": s, "vs": rng.choice([0x10000, 0x10001, 0x20000])}]
                else:
                    prog += [{"op": "sec_resize", "sec": s, "n": rng.choice([65535, 65536, 65537]), "fill": 0}, {"op": "realign_sec", "idx": s}]
                prog += [{"op": "realign_file", "fa": rng.choice([0x200, 0x400, 0x1000])}, {"op": "st"}]
            elif what == "write":
                stub = big_data(rng, rng.choice([65535, 65536, 65600])) if i % 2 else b"x"
                if i % 2:
                    prog = prog[:1] + [{"op": "setf", "f": "soh", "v": w8(0x11000)}, {"op": "upd_size"}, {"op": "stub_set", "b": L(stub)}, sec[1]]
                prog += [{"op": "rebuild"}, {"op": "load", "file": 0, "img": 1, "opt": True}]
            elif what == "read":
                for a in (65535, 65536, 65532, n - 1, n - 4, n - 3, n, 0x10fff, 0x11000, 70000, 0, 4095, 4096):
                    for v in ("raw", "virt"):
                        prog += [{"op": "rd", "n": 4, "via": "rva", "v": w8(va + a), "view": v}, {"op": "len", "via": "rva", "v": w8(va + a), "view": v}, {"op": "len", "via": "rva", "v": w8(va), "v2": w8(va + a), "view": v},
                                 {"op": "ptr", "cnt": 4, "via": "rva", "v": w8(va + a), "view": v, "sec": s}]
                prog += [{"op": "sec_virt", "sec": s, "const": False}, {"op": "sec_getters", "sec": s}]
            elif what == "entropy":
                prog += [{"op": "entropy", "k": "img"}, {"op": "entropy", "k": "sec", "sec": s}, {"op": "entropy", "k": rng.choice(["str", "stream"]), "data": [0, 255] * 33000}]
            elif what == "sum":
                prog = [{"op": "checksum", "data": L(b"MZ" + bytes(58) + struct.pack("<I", rng.choice([64, 70000 // 4 * 4, 65472 - 24])) + (b"\xff" * n if i == 0 else big_data(rng, n)))}]
        yield {"id": "big-%s-%d" % (what, i), "prog": prog}


# ---------------------------------------------------------------- C07
def c07(rng, tier):
    n = 160 if tier == "quick" else 1600
    for i in range(n):
        p = rand_pe(rng, nsec=rng.choice([0, 1, 2]), tidy=False)
        prog = [fileset(0, p.to_bytes()), load(0, opt=True), {"op": "dir_has", "opt": True}]
        for _ in range(14):
            x = rng.randrange(11)
            d = rng.choice(list(range(16)) + [16, 17, 5, 0, 12, 15])
            if x <= 1:
                prog.append({"op": "dir_setrva", "id": d, "v": w8(rng.choice([0, 1, 0x1000, 0xffffffff, rng.getrandbits(32)])), "opt": True})
            elif x == 2:
                prog.append({"op": "dir_setsize", "id": d, "v": w8(rng.choice([0, 1, 0x1000, 0xffffffff])), "opt": True})
            elif x == 3:
                prog.append({"op": "dir_remove", "id": d, "opt": True})
            elif x == 4:
                prog.append({"op": "dir_strip", "min": rng.choice([0, 0, 1, 2, 5, 10, 13, 14, 15, 16, 17, 30]), "iat": rng.random() < 0.5, "opt": True})
            elif x == 5:
                prog.append({"op": "setf", "f": rng.choice(["chset", "chclr", "ch", "dch"]), "v": w8(rng.choice([1, 0x2000, 0x2001, 0x40, 0xffff, 0])), "opt": True})
            elif x == 6:
                prog.append({"op": "setf", "f": "nrva", "v": w8(rng.randrange(17)), "opt": True})
            elif x == 7:
                prog.append({"op": "dir_get", "id": d, "opt": True})
            elif x == 8:
                prog.append({"op": "dir_exists", "id": d, "opt": True})
            else:
                prog.append({"op": rng.choice(["dir_has", "st"]), "opt": True})
        yield {"id": "dirs-%d" % i, "prog": prog + [{"op": "dir_has", "opt": True}, {"op": "st", "opt": True}]}
    # every directory set, removed and stripped once, with arbitrary flag words around it
    for i in range(n // 8):
        fmt = rng.choice([32, 64])
        prog = [{"op": "new", "fmt": fmt, "sa": 0x1000}]
        ids = list(range(16))
        rng.shuffle(ids)
        for d in range(16):
            if rng.random() < 0.85:
                prog.append({"op": "dir_setrva", "id": d, "v": w8(rng.choice([1, 0x80000000, rng.getrandbits(32)]))})
                prog.append({"op": "dir_setsize", "id": d, "v": w8(rng.getrandbits(32))})
        for d in ids:
            prog.append({"op": "setf", "f": "ch", "v": w8(rng.getrandbits(16))})
            prog.append({"op": "setf", "f": "dch", "v": w8(rng.getrandbits(16))})
            prog.append({"op": "dir_has"})
            prog.append({"op": "dir_remove", "id": d})
            prog.append({"op": "st"})
            if rng.random() < 0.2:
                prog.append({"op": "dir_strip", "min": rng.choice([0, 1, d, 15, 16]), "iat": rng.random() < 0.5})
        yield {"id": "dirwalk-%d" % i, "prog": prog + [{"op": "dir_has"}]}

def dirtab_replay(beh, rng, tier):
    """Histories for behaviours of MC_DirTab: the calls, then every question about every entry."""
    n = 400 if tier == "quick" else 8000
    for i, b in enumerate(beh if len(beh) <= n else rng.sample(beh, n)):
        q = []
        for c in b["calls"]:
            q.append(c)
            if c["op"] in ("dir_remove", "dir_strip", "new"):
                q.append({"op": "dir_has"})
        for d in range(18):
            q += [{"op": "dir_exists", "id": d}, {"op": "dir_get", "id": d}]
        yield {"id": "dirtab-model-%d-%d" % (len(beh), i), "prog": q + [{"op": "dir_has"}, {"op": "st"}]}


# ---------------------------------------------------------------- C21
def c21(rng, tier):
    n = 120 if tier == "quick" else 1200
    for i in range(n):
        prog = []
        for _ in range(5):
            ln = rng.choice([64, 65, 66, 67, 68, 100, 152, 153, 200, rng.randrange(64, 900)])
            d = bytearray(rb(rng, ln, rng.choice([0, 0.5, 0.95])) if rng.random() < 0.8 else bytes([255]) * ln)
            lf = rng.choice([64, 64, 60, 0, 4, 128, ln - 88, ln - 92, ln - 90, ln, ln + 4, 0x1000000]) & ~3
            d[0:2] = b"MZ"
            d[60:64] = struct.pack("<I", max(0, lf))
            m = rng.randrange(8)
            prog += [{"op": "checksum", "data": L(bytes(d)), "mask": m, "pos": 0}]
            # the stored checksum does not matter
            if 0 <= lf + 92 <= ln:
                d[lf + 88:lf + 92] = rb(rng, 4, 0)
                prog += [{"op": "checksum", "data": L(bytes(d)), "mask": 0, "pos": 0}]
        yield {"id": "sum-%d" % i, "prog": prog}
    for i in range(20 if tier == "quick" else 150):
        p = rand_pe(rng, align=rng.choice(SMALL), tidy=True)
        prog = [fileset(0, p.to_bytes() + rb(rng, rng.randrange(4))), {"op": "checksum", "file": 0}, load(0), {"op": "setf", "f": "sum", "v": rv8(rng)}, {"op": "rebuild", "bound": False, "file": 1}, {"op": "checksum", "file": 1}]
        yield {"id": "image-%d" % i, "prog": prog}
    prog = []
    for d in (b"", b"M", b"ZM" + bytes(70), b"MZ" + bytes(61), b"MZ" + bytes(62)):
        for m in range(8):
            prog.append({"op": "checksum", "data": L(d), "mask": m})
    yield {"id": "refused", "prog": prog}
    yield from big(rng, "sum", 2 if tier == "quick" else 10)

def sum_replay(beh, rng, tier):
    """Histories for behaviours of MC_Sum."""
    n = 300 if tier == "quick" else 6000
    for i, b in enumerate(beh if len(beh) <= n else rng.sample(beh, n)):
        yield {"id": "sum-model-%d-%d" % (len(beh), i), "prog": b["calls"]}


# ---------------------------------------------------------------- C25
def rich_stub(rng):
    key = rb(rng, 4, 0.1)
    x = lambda w: bytes(a ^ b for a, b in zip(w, key))
    s = x(b"DanS") + x(bytes(4)) * 3
    for _ in range(rng.randrange(5)):
        s += x(rb(rng, 4)) + x(rb(rng, 4))
    s += b"Rich" + key
    pre = rb(rng, rng.choice([0, 0, 4, 8, 1, 3, 64]))
    post = rb(rng, rng.choice([0, 0, 4, 7, 16]))
    out = pre + s + post
    k = rng.random()
    if k < 0.15:
        out = out[:rng.randrange(len(out) + 1)]
    elif k < 0.25:
        out = out.replace(b"Rich", b"Rixh")
    elif k < 0.3:
        out = b"Rich" + key[:rng.randrange(5)]
    elif k < 0.35:
        out = rb(rng, rng.randrange(10))
    elif k < 0.4:
        out = b"Rich" + key + s
    elif k < 0.45:
        out = out + b"Rich"
    return out


def c25(rng, tier):
    n = 150 if tier == "quick" else 1500
    for i in range(n):
        p = rand_pe(rng, align=rng.choice(ALIGN), nsec=rng.choice([0, 1, 1]), tidy=True)
        p.stub = rich_stub(rng)
        p.secs = []
        if rng.random() < 0.6:
            p.add(vs=40, data=rb(rng, 20), va=au(64 + au(len(p.stub), 4) + 300, p.sa) + p.sa)
        p.dirs = {}
        prog = [fileset(0, p.to_bytes()), load(0), {"op": "stub_get"}, {"op": "rich"}]
        for _ in range(rng.randrange(4)):
            x = rng.randrange(5)
            prog.append([{"op": "stub_set", "b": L(rich_stub(rng))}, {"op": "stub_strip"}, {"op": "stub_fill", "ch": rng.randrange(128)}, {"op": "stub_set", "b": L(rich_stub(rng))}, {"op": "stub_set", "b": L(rich_stub(rng))}][x])
            prog += [{"op": "rich"}, {"op": "stub_get"}]
        prog += [{"op": "rebuild", "bound": False, "strip": rng.random() < 0.2}, {"op": "load", "file": 0, "img": 1, "opt": True}, {"op": "rich", "img": 1, "opt": True}, {"op": "stub_get", "img": 1, "opt": True}]
        yield {"id": "stub-%d" % i, "prog": prog}
    yield from big(rng, "lfanew", 2 if tier == "quick" else 8)

def rich_replay(beh, rng, tier):
    """Histories for behaviours of MC_Rich: the calls and the records read after each; the stub in the file once more at the end."""
    n = 400 if tier == "quick" else 8000
    for i, b in enumerate(beh if len(beh) <= n else rng.sample(beh, n)):
        yield {"id": "rich-model-%d-%d" % (len(beh), i), "prog": b["calls"] + [{"op": "rebuild", "file": 2}, {"op": "load", "file": 2, "img": 1}, {"op": "rich", "img": 1}, {"op": "stub_get", "img": 1}, {"op": "st", "img": 1}]}


# ---------------------------------------------------------------- C26
def c26(rng, tier):
    n = 110 if tier == "quick" else 1000
    for i in range(n):
        prog = []
        k = rng.randrange(6)
        if k == 0:
            m = 2 ** rng.randrange(0, 9)
            vals = rng.sample(range(256), m)
            d = vals * rng.choice([1, 2, 3])
        elif k == 1:
            d = [rng.randrange(256)] * rng.randrange(1, 300)
        elif k == 2:
            d = [rng.randrange(rng.choice([2, 5, 256])) for _ in range(rng.randrange(1, 900))]
        elif k == 3:
            d = [0] * rng.randrange(1, 50) + [255] * rng.randrange(1, 50) + [128] * rng.randrange(0, 4)
        elif k == 4:
            d = list(range(256)) * 2 + [rng.randrange(256)]
        else:
            d = []
        q = d[:]
        rng.shuffle(q)
        perm = list(range(256))
        rng.shuffle(perm)
        for x in (d, q, [perm[b] for b in d]):
            prog += [{"op": "entropy", "k": "str", "data": x}, {"op": "entropy", "k": "stream", "data": x}, {"op": "entropy", "k": "stream", "data": x, "pos": rng.randrange(len(x) + 1), "mask": rng.randrange(8)}]
        prog += [{"op": "new", "fmt": 32, "sa": 0x1000}, {"op": "entropy", "k": "img"}, {"op": "addsec", "raw": d, "vs": 5000}, {"op": "entropy", "k": "sec", "sec": 0}, {"op": "entropy", "k": "img"},
                 {"op": "sec_virt", "sec": 0}, {"op": "entropy", "k": "sec", "sec": 0}, {"op": "addsec", "raw": q[:len(q) // 2], "vs": 5000}, {"op": "entropy", "k": "img"}, {"op": "entropy", "k": "sec", "sec": 1}]
        # sections without data between sections with data
        prog.append({"op": "new", "fmt": 64, "sa": 0x1000})
        for x in rng.sample([[], [], d, q[:7], [5, 5, 6]], 5):
            prog += [{"op": "addsec", "raw": x, "vs": 5000}, {"op": "entropy", "k": "img"}]
        yield {"id": "entropy-%d" % i, "prog": prog}
    yield from big(rng, "entropy", 1 if tier == "quick" else 8)


def entropy_replay(beh, rng, tier):
    """Histories for behaviours of MC_Entropy; at the end once more on a copy of the image."""
    n = 300 if tier == "quick" else 6000
    for i, b in enumerate(beh if len(beh) <= n else rng.sample(beh, n)):
        yield {"id": "entropy-model-%d-%d" % (len(beh), i), "prog": b["calls"] + [{"op": "img_copy", "from": 0, "to": 1}, {"op": "entropy", "k": "img", "img": 1}, {"op": "st"}]}
