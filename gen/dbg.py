"""Generators of histories over debug, exception and .NET directories (C20)."""
import struct
from pe import w4
from gen.img import rb, L, fileset, load
from gen.dirs import edges, Space, uname, rword, name
from gen.tab import damage


def rw(rng):
    return int.from_bytes(bytes(rword(rng)), "little")


def coff(rng, k):
    """k: how the table is built; returns (bytes, fields)."""
    first = rng.choice([32, 32, 32, 34, 40, 60])
    recs, strs = [], b"\0\0\0\0"
    n = rng.choice([0, 1, 2, 3, 5, 8])
    for _ in range(n):
        x = rng.random()
        aux, cls, typ, sec, val = 0, 2, 0, 1, rw(rng)
        nm = name(rng, 9)
        if x < 0.25:
            cls, typ, sec, nm = 103, rng.choice([0, 0x20]), 0xfffe, b".file"
            fn = name(rng, rng.choice([3, 18, 19, 40])) + rb(rng, rng.choice([0, 0, 2]))
            aux = (len(fn) + 17) // 18
            if rng.random() < 0.1:
                aux, fn = 0, b""
            body = fn.ljust(18 * aux, b"\0")
        else:
            if x < 0.6:
                cls, typ, sec = 2, rng.choice([0x20, 0x20, 0x24, 0x60, 0x10, 0x30, 0]), rng.choice([1, 2, 3, 0, 0xffff, 0xfffe])
                aux = rng.choice([0, 0, 1, 2])
            elif x < 0.85:
                cls, sec, aux = 3, rng.choice([1, 1, 2]), rng.choice([0, 0, 1])
            else:
                cls, sec, aux = rng.choice([0, 6, 101, 255]), rng.randrange(4), rng.choice([0, 1])
            body = b"".join(rng.choice([rb(rng, 18), b"aux" + b"\0" * 9 + struct.pack("<HHBB", 1, 0x20, rng.choice([2, 3, 103]), rng.choice([0, 1])), bytes(18)]) for _ in range(aux))
            if rng.random() < 0.45:
                long = name(rng, 20)
                nm = struct.pack("<II", 0, len(strs))
                strs += long + b"\0"
        recs.append((nm.ljust(8, b"\0")[:8] + struct.pack("<IHHBB", val, sec, typ, cls, aux) + body, aux))
    total = sum(1 + a for _, a in recs)
    h = struct.pack("<IIIIIIII", total, first, rw(rng), rw(rng), rw(rng), rw(rng), rw(rng), rw(rng))
    b = h + rb(rng, first - 32)
    fields = [(0, 4), (4, 4)]
    for r, a in recs:
        o = len(b)
        fields += [(o + 4, 4), (o + 12, 2), (o + 16, 1), (o + 17, 1), (o + 17, 1)]
        b += r
    strs = struct.pack("<I", len(strs)) + strs[4:]
    if rng.random() < 0.15:
        strs = strs[:-1]
    return b + (strs if strs != b"\4\0\0\0" or rng.random() < 0.5 else b""), fields


def codeview(rng):
    nm = name(rng, rng.choice([2, 3, 5, 30])) if rng.random() < 0.9 else b""
    t = rng.choice([b"\0", b"\0", b"\0\0\0", b"\0xyz", b""]) if rng.random() < 0.5 else b"\0"
    x = rng.random()
    if x < 0.4:
        return b"RSDS" + rb(rng, 16) + bytes(rword(rng)) + nm + t, [(20, 4)]
    if x < 0.75:
        return b"NB10" + rb(rng, 4) + bytes(rword(rng)) + bytes(rword(rng)) + nm + t, [(8, 4)]
    return rng.choice([b"NB09", b"NB11", b"NB05", b"NB08", b"RSDR", b"NB1", b"rsds"]) + rb(rng, rng.choice([4, 4, 8, 20, 2, 0])), [(4, 4)]


def misc(rng):
    uni = rng.random() < 0.4
    s = b"".join(struct.pack("<H", c) for c in uname(rng, rng.choice([1, 2, 12]), 0)) if uni else name(rng, rng.choice([1, 2, 20]), 0)
    s += rng.choice([b"\0\0", b"\0\0\0", b"", b"\0" * 5])
    n = 12 + len(s)
    return struct.pack("<IIB", rng.choice([1, 1, 2, 0x101, rw(rng)]), n, rng.choice([1, 1, 2, 255]) if uni else 0) + rb(rng, 3) + s + rb(rng, rng.choice([0, 0, 3])), [(4, 4), (8, 1), (4, 4)]


def foff(out, rva):
    """File offset of an RVA of the headers or of raw section data."""
    lf = struct.unpack_from("<I", out, 60)[0]
    n, so = struct.unpack_from("<H", out, lf + 6)[0], struct.unpack_from("<H", out, lf + 20)[0]
    for i in range(n):
        vs, va, rs, ptr = struct.unpack_from("<IIII", out, lf + 24 + so + 40 * i + 8)
        if va <= rva < va + rs:
            return ptr + rva - va
    return rva


def debugfile(rng, bad=0.5, mem=False):
    while True:
        try:
            s = Space(rng, hdr_extra=rng.choice([0, 0, 160]), near=mem)
            n = rng.choice([1, 1, 2, 3, 5])
            sec = rng.choice([None, -1, s.n - 1])
            exact = rng.random() < 0.4
            blobs = []
            for i in range(n):
                t = rng.choice([1, 1, 2, 2, 2, 4, 4, 3, 5, 6, 7, 8, 9, 10, 11, 12, 16, 0, 0x80000000, 0xffffffff])
                b, f = coff(rng, i) if t == 1 else codeview(rng) if t == 2 else misc(rng) if t == 4 else (rb(rng, rng.choice([4, 20])), [])
                if rng.random() < bad:
                    b = bytes(damage(rng, b, f, 0.8))
                where = rng.choice(["ovl", "sec", "ovl", "same"])
                if where == "same" and not blobs:
                    where = "ovl"
                rva = s.alloc(b, 4) if where == "sec" or mem else rng.choice([0, 0, rw(rng)])
                blobs.append([t, b, where, rva])
            size = 28 * n
            extra = 0 if exact else rng.choice([0, 28])     # followed by a null entry, or by something else
            d = s.alloc(bytes(size) + (bytes(28) if extra else rb(rng, rng.choice([0, 40]))), 4, sec, mark=[4, 4, 2, 2, 4, 4, 4, 4] * n)
            if rng.random() < 0.3 and sec is not None and sec >= 0:
                # the directory ends exactly with its section
                dd = s.data[sec]
                del dd[d - s.va(sec) + size:]
            s.p.dirs[6] = (d, size + rng.choice([0, 0, 0, 0, extra, -28 if n > 1 else 0, 1, 27]))
            p = s.pe()
            p.mem = mem
            if rng.random() < 0.4:
                l = p.secs[-1]
                l.vs = max(1, len(l.data))      # nothing after the data
                l.rs = len(l.data)
            out = bytearray(p.to_bytes())
            ent = b""
            for t, b, where, rva in blobs:
                if where == "same":
                    ptr = eptr
                elif where == "sec":
                    ptr = rva if mem else foff(out, rva)
                else:
                    if rng.random() < 0.3:
                        out += rb(rng, rng.randrange(4))
                    ptr = len(out)
                    out += b
                eptr = ptr
                if rng.random() < 0.05:
                    ptr = rng.choice([0, len(out) - 3, len(out), len(out) + 50, 0x1fffffff, 0xffffffff, 0x80000000])
                sz = len(b)
                if rng.random() < 0.15:
                    sz = max(0, rng.choice([sz - 1, sz + 1, sz - 4, sz + 4, 0, 5, sz + 1000, 0x1fffffff, 0xffffffff, 0x7fffffff]))
                ent += struct.pack("<IIHHIIII", rw(rng), rw(rng), rng.getrandbits(16), rng.getrandbits(16), t, sz, rva, ptr)
            o = d if mem else foff(out, d)
            out[o:o + size] = ent
            if rng.random() < bad * 0.3:
                k = o + 4 * rng.randrange(size // 4)
                old = struct.unpack_from("<I", out, k)[0]
                struct.pack_into("<I", out, k, s.nasty(4, old))
            if rng.random() < 0.06:
                lf = struct.unpack_from("<I", out, 60)[0]
                k = lf + (120 if s.fmt == 32 else 136) + 8 * 6
                r, z = struct.unpack_from("<II", out, k)
                struct.pack_into("<II", out, k, *rng.choice([(r, 0xffffffff), (r, 0), (r, 27), (r, 28 * 9), (s.va(0) + s.vs - 10, z), (0, z), (0xffffffe0, 64), (s.va(s.n) + 5, 28)]))
            return out
        except OverflowError:
            continue


def build_exc(rng, s):
    n = rng.choice([0, 1, 1, 2, 4, 7])
    sec = rng.choice([None, s.n - 1, -1])
    ents = b""
    for _ in range(n):
        u = bytes([rng.getrandbits(8), rng.getrandbits(8), rng.choice([0, 0, 1, 4]), rng.getrandbits(8)])
        a = s.alloc(u + (rb(rng, 8) if rng.random() < 0.6 else b""), 4)
        b = rng.choice([1, 0x1000, rng.getrandbits(31) | 1])
        ents += struct.pack("<III", b, b + rng.choice([0, 1, 40, 0x1000]), a)
    term = rng.random() < 0.4
    d = s.alloc(ents + (bytes(12) if term else b""), 4 if rng.random() < 0.95 else 1, sec, mark=[4, 4, 4] * n)
    if not term and rng.random() < 0.7:
        s.alloc(rb(rng, 24, 0), 4, sec)
    s.p.dirs[3] = (d, 12 * n + rng.choice([0, 0, 0, 0, 12 if term else 0, -12 if n else 0, 4]))


def build_net(rng, s):
    b = struct.pack("<IHH", 72, rng.getrandbits(16), rng.getrandbits(16)) + rb(rng, 64, 0.3)
    a = s.alloc(b, 4 if rng.random() < 0.8 else 1, rng.choice([None, -1, s.n - 1]))
    s.p.dirs[14] = (a, rng.choice([72, 72, 0, 8]))


def ends(rng, s, i=None):
    """Structures at the very end of the last section."""
    p = s.pe()
    l = p.secs[-1]
    if rng.random() < 0.4:
        l.vs = max(1, len(l.data) - (rng.choice([0, 0, 1, 4]) if rng.random() < 0.5 else 0))
        l.rs = len(l.data)
    return p.to_bytes()


def c20(rng, tier):
    k = 1 if tier == "quick" else 10
    for i in range(260 * k):
        mem = rng.random() < 0.1
        out = debugfile(rng, rng.choice([0, 0, 0.5, 0.9]), mem)
        ld = dict(load(0), mem=mem)
        if rng.random() < 0.08:
            ld["dbg"] = False
        prog = [fileset(0, out), ld, {"op": "dbg_read", "keep": 1}]
        if rng.random() < 0.3:
            # the records of another file, mixed with these
            prog += [fileset(1, debugfile(rng, 0)), load(1), {"op": "dbg_read", "keep": 2}]
            for _ in range(rng.randrange(1, 6)):
                a, b = rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
                prog.append(rng.choice([{"op": "dbg_assign", "from": a, "to": b, "i": rng.randrange(3), "j": rng.randrange(3)}] * 3 + [{"op": "dbg_copy", "from": a, "to": b}, {"op": "dbg_drop", "from": a}]))
            prog += [{"op": "dbg_list", "from": q} for q in (1, 2, 3)]
        if rng.random() < 0.3 and not mem:
            prog += [{"op": "rebuild", "bound": False, "file": 7}, {"op": "load", "file": 7, "img": 7, "opt": True}, {"op": "dbg_read", "img": 7, "opt": True}]
        yield {"id": "debug-%d" % i, "prog": prog + [{"op": "st"}]}
    for i in range(160 * k):
        while True:
            s = Space(rng, hdr_extra=rng.choice([0, 0, 120]))
            try:
                (build_exc if i % 3 else build_net)(rng, s)
                if rng.random() < 0.1:
                    (build_net if i % 3 else build_exc)(rng, s)
            except OverflowError:
                continue
            break
        if rng.random() < 0.45 and s.fields:
            s.corrupt(rng.choice([1, 1, 2]))
        yield {"id": "exc-net-%d" % i, "prog": [fileset(0, ends(rng, s)), load(0), {"op": "exc_read"}, {"op": "net_read"}, {"op": "st"}]}
    yield from edges(rng, 60 * k, build_exc, [{"op": "exc_read"}], "exc-edge")
    yield from edges(rng, 30 * k, build_net, [{"op": "net_read"}], "net-edge")


def dbg_replay(beh, rng, tier):
    """Files of behaviours of MC_Debug, several to a history, loaded and read back."""
    n = 600 if tier == "quick" else 2500
    pick = beh if len(beh) <= n else rng.sample(beh, n)
    for i in range(0, len(pick), 4):
        prog = []
        for b in pick[i:i + 4]:
            prog += [fileset(0, bytes(b["file"])), dict(load(0), opt=True), {"op": "dbg_read", "keep": 1, "opt": True},
                     {"op": "exc_read", "opt": True}, {"op": "net_read", "opt": True}, {"op": "st", "opt": True}]
        yield {"id": "debug-model-%d-%d" % (len(beh), i), "prog": prog}
