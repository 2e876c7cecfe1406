"""Generators of histories for the data directories (C08, C09, ...): what they have in common."""
import struct
from pe import PE, Sec, w2, w4, w8, au
from gen.img import rb, L, fileset, load, ALIGN


def name(rng, hi=8, lo=1):
    n = rng.randrange(lo, hi)
    if n > lo and rng.random() < 0.12:
        n = lo
    return bytes(rng.choice(b"abcABCxyz_019@?.") for _ in range(n))


def uname(rng, hi=6, lo=1):
    """UTF-16 code units."""
    return [rng.choice([65, 66, 67, 97, 98, 0x410, 0x4e00, 0xd7ff, 0xffff, 48]) for _ in range(rng.randrange(lo, hi))]


def lift(rng, sa):
    """Distance of the first section from the headers: sometimes beyond what 16 or 24 bits can address."""
    return au(rng.choice([0x10000, 0xff00, 0x123400, 0x1000000, 0x7654000]), sa) if rng.random() < 0.3 else 0


class Space:
    """Sections with known addresses whose contents are allocated piece by piece."""

    def __init__(self, rng, fmt=None, align=None, nsec=None, vsz=None, hdr_extra=0, base=None, near=False):
        self.rng = rng
        self.fmt = fmt or rng.choice([32, 64])
        self.sa, self.fa = align or rng.choice([(512, 512), (512, 512), (1024, 1024), (0x1000, 0x200), (256, 256)])
        self.n = nsec or rng.choice([1, 2, 2, 3])
        self.p = PE(fmt=self.fmt, sa=self.sa, fa=self.fa, stub=rb(rng, rng.choice([0, 0, 8])))
        if base is not None:
            self.p.base = base
        elif self.fmt == 64:
            self.p.base = rng.choice([0x140000000, 0x400000, 0x7FF000000000])
        else:
            self.p.base = rng.choice([0x400000, 0x10000000, 0x400000])
        self.hx = hdr_extra
        self.hdr0 = 64 + au(len(self.p.stub), 4) + self.p.ntsize() + 40 * self.n
        self.vs = vsz or au(1500, self.sa)
        self.va0 = au(au(self.hdr0 + hdr_extra, self.fa), self.sa) + (0 if near else lift(rng, self.sa))
        self.data = [bytearray(rb(rng, rng.choice([0, 4, 20]))) for _ in range(self.n)]
        self.hdata = bytearray()
        self.fields = []       # (rva, width) of every structure field, for corruption

    def va(self, i):
        return self.va0 + i * self.vs

    def alloc(self, b, align=1, sec=None, mark=None):
        """Places bytes; returns the RVA.  mark: widths of the fields inside."""
        i = self.rng.randrange(self.n) if sec is None else sec
        if i == -1 and len(self.hdata) + len(b) + align <= self.hx:
            while (self.hdr0 + len(self.hdata)) % align:
                self.hdata.append(0)
            r = self.hdr0 + len(self.hdata)
            self.hdata += b
        else:
            i = max(i, 0)
            d = self.data[i]
            if self.rng.random() < 0.3:
                d += rb(self.rng, self.rng.randrange(5), 0.5)
            while (self.va(i) + len(d)) % align:
                d.append(self.rng.choice([0, 0, 255]))
            if len(d) + len(b) > self.vs - 8:
                raise OverflowError
            r = self.va(i) + len(d)
            d += b
        o = r
        for w in mark or []:
            self.fields.append((o, w))
            o += w
        return r

    def reserve(self, n, align=1, sec=None, mark=None):
        return self.alloc(bytes(n), align, sec, mark)

    def put(self, rva, b):
        if rva < self.va0:
            o = rva - self.hdr0
            if 0 <= o and o + len(b) <= len(self.hdata):
                self.hdata[o:o + len(b)] = b
            return
        i = (rva - self.va0) // self.vs
        o = rva - self.va(i)
        if o + len(b) <= len(self.data[i]):
            self.data[i][o:o + len(b)] = b

    def get(self, rva, n):
        if rva < self.va0:
            return bytes(self.hdata[rva - self.hdr0:rva - self.hdr0 + n])
        i = (rva - self.va0) // self.vs
        return bytes(self.data[i][rva - self.va(i):rva - self.va(i) + n])

    def nasty(self, w, old):
        r = self.rng
        c = [0, 1, 2, 3, old - 1, old + 1, old + 2, old * 2, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0xffff, 0xfffffff0, self.hdr0, 8, 0x10000, 0x80000001, 255]
        for i in range(self.n):
            c += [self.va(i), self.va(i) + len(self.data[i]) - 1, self.va(i) + len(self.data[i]) - 4, self.va(i) + self.vs - 1, self.va(i) + self.vs - 2, self.va(i) + self.vs - 4, self.va(i) + self.vs - 8,
                  self.va(i) + self.vs - 20, self.va(i) + r.randrange(self.vs)]
        if w == 8:
            c += [1 << 32, (1 << 63) + 5, (1 << 64) - 1, (1 << 32) + self.va0, (1 << 63), (1 << 32) - 2]
        if self.fields and r.random() < 0.3:
            return r.choice(self.fields)[0]
        return r.choice(c) & ((1 << (8 * w)) - 1)

    def corrupt(self, k=1):
        for _ in range(k):
            if not self.fields:
                return
            rva, w = self.rng.choice(self.fields)
            old = int.from_bytes(self.get(rva, w), "little")
            self.put(rva, (self.nasty(w, old) % (1 << 8 * w)).to_bytes(w, "little"))

    def pe(self):
        r = self.rng
        p = self.p
        p.hdr_extra = bytes(self.hdata).ljust(self.hx, b"\0")
        for i in range(self.n):
            d = bytes(self.data[i]) or b"\1"
            last = i == self.n - 1
            # a section ends right after its data, at the end of the alignment block, or much later
            p.add(name=b".s%d" % i, data=d, va=self.va(i), vs=self.vs if not last else r.choice([self.vs, len(d), au(len(d), self.sa)]),
                  rs=len(d) if last and r.random() < 0.4 else None)
        return p

    def file(self):
        return self.pe().to_bytes()


class Edge(Space):
    """Two sections; one piece of the structure is the last thing in the last section, which ends near the end of that piece."""

    def __init__(self, rng, star, base=None):
        super().__init__(rng, align=rng.choice([(1, 1), (1, 1), (1, 1), (4, 4), (16, 16), (512, 512)]), nsec=2, base=base)
        self.star, self.count, self.end = star, 0, None

    def alloc(self, b, align=1, sec=None, mark=None):
        here = self.count == self.star and len(b) > 0
        self.count += len(b) > 0
        r = super().alloc(b, align, 1 if here else 0, mark)
        if here:
            self.end = len(self.data[1])
            self.size = len(b)
            self.cum = [sum((mark or [])[:j]) for j in range(len(mark or []) + 1)]
        return r

    def pe(self):
        r, d = self.rng, self.data[1]
        k = self.end + r.choice([0, 0, 0, -1, -1, 1, -2, -4, -8, 2, -r.randrange(self.size + 1), r.choice(self.cum) - self.size, r.choice(self.cum) - self.size + r.choice([-1, 0, 1])])
        k = max(1, k)
        del d[k:]
        d += rb(r, k - len(d), 0)
        self.p.add(name=b".s0", data=bytes(self.data[0]) or b"\1", va=self.va(0), vs=self.vs)
        self.p.add(name=b".s1", data=bytes(d), va=self.va(1), vs=r.choice([k, k, k, au(k, self.sa), k + 1, k + r.randrange(9), max(1, k - 1)]), rs=r.choice([None, k, k]))
        return self.p


def edges(rng, n, build, readers, prefix="edge", **kw):
    """Well-formed structures one piece of which ends with (or is cut by) the end of the section."""
    for i in range(n):
        star = rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 7, 9])
        while True:
            s = Edge(rng, star, **kw)
            try:
                build(rng, s)
            except OverflowError:
                continue
            if s.end is not None and s.end > 0:
                break
            star = max(0, star - 1)
        if rng.random() < 0.1:
            s.corrupt(1)
        yield {"id": "%s-%d" % (prefix, i), "prog": [fileset(0, s.file()), load(0)] + [dict(q) for q in readers] + [{"op": "st"}]}


def dirs_replay(beh, rng, tier):
    """Histories for behaviours of MC_Dirs: the calls, and then everything that can be read."""
    n = 120 if tier == "quick" else 1500
    for i, b in enumerate(beh if len(beh) <= n else rng.sample(beh, n)):
        yield {"id": "dirs-model-%d-%d" % (len(beh), i), "prog": b["calls"] + [{"op": "st"}, {"op": "rel_read", "abs": True}, {"op": "bound_read"}, {"op": "tls_read"}, {"op": "cfg_read"}]}


def expimp_replay(beh, rng, tier):
    """Histories for behaviours of MC_Exp and MC_Imp, with a reading after every change."""
    n = 150 if tier == "quick" else 3000
    for i, b in enumerate(beh if len(beh) <= n else rng.sample(beh, n)):
        prog = []
        for c in b["calls"]:
            prog.append(c)
            if c["op"] in ("exp_rebuild", "imp_rebuild", "imp_append", "load"):
                prog += [{"op": "exp_read"}, {"op": "imp_read"}]
        yield {"id": "model-%d-%d" % (len(beh), i), "prog": prog + [{"op": "st"}]}


def rebase_replay(beh, rng, tier):
    """Histories for behaviours of MC_Rebase."""
    n = 300 if tier == "quick" else 6000
    for i, b in enumerate(beh if len(beh) <= n else rng.sample(beh, n)):
        yield {"id": "rebase-model-%d-%d-%d" % (b["calls"][0]["fmt"], len(beh), i), "prog": b["calls"] + [{"op": "st"}]}


def host(rng, fmt=None, room=None, nrva=16, align=None, base=None):
    """(prog, PE, target dict, offset): an image whose sections can take a rebuilt directory."""
    sa, fa = align or rng.choice([(512, 512), (1024, 1024), (0x1000, 0x200), (256, 256), (64, 64), (64, 64), (16, 16)])
    p = PE(fmt=fmt or rng.choice([32, 64]), sa=sa, fa=fa, stub=rb(rng, rng.choice([0, 0, 8])), nrva=nrva)
    p.base = base if base is not None else (rng.choice([0x140000000, 0x400000, 0x7FF000000000]) if p.fmt == 64 else rng.choice([0x400000, 0x10000000]))
    n = rng.choice([1, 2, 2, 3])
    p.soh = au(64 + au(len(p.stub), 4) + p.ntsize() + 40 * (n + 1), fa)
    va = au(p.soh, sa) + lift(rng, sa)
    for i in range(n):
        sz = rng.choice([1, 20, 60, 200, 300, 500, 700])
        if i == n - 1 and rng.random() < 0.25:
            d = b""
        else:
            d = rb(rng, sz, 0.2)
        vs = rng.choice([au(max(len(d), 1), sa), max(len(d), 1), max(1, len(d)) + sa, 3 * sa + max(len(d), 1)])
        last_odd = i == n - 1 and rng.random() < 0.4
        p.add(name=b".h%d" % i, data=d, va=va if i == 0 else None, vs=vs, rs=len(d) if last_odd else None)
    for i in range(16):
        if rng.random() < 0.3:
            s = rng.choice(p.secs)
            p.dirs[i] = (s.va + rng.randrange(max(1, s.vs)), rng.randrange(64))
    prog = [fileset(0, p.to_bytes()), load(0)]
    x = rng.random()
    t = n - 1 if x < 0.5 else rng.randrange(n)
    tgt = {"sec": t}
    if x > 0.97:
        prog.append({"op": "det_new", "det": 0, "raw": L(rb(rng, 30)), "vs": 100, "name": [65], "va": 0})
        tgt = {"det": 0}
    off = rng.choice([0, 0, 0, 1, 3, 4, 8, 17, rng.randrange(300), len(p.secs[t].data), au(len(p.secs[t].data), fa)])
    return prog, p, tgt, off


def needed(a, fmt):
    """About how many bytes the directory of a rebuild takes."""
    W = fmt // 8
    op = a["op"]
    if op == "exp_rebuild":
        f = a["funcs"]
        o = [x["ord"] for x in f]
        nm = [len(x["name"]) + 1 for x in f if "name" in x]
        return 40 + len(a["info"].get("name", [])) + 1 + 6 * len(nm) + sum(nm) + sum(len(x["fwd"]) + 1 for x in f if "fwd" in x) + (4 * (max(o) - min(o) + 1) if o else 0)
    if op == "imp_rebuild":
        L_ = a["libs"]
        st = sum(len(l["name"]) + 1 + sum(len(x["name"]) + 3 for x in l["funcs"] if "name" in x) for l in L_)
        iat = sum(W * (len(l["funcs"]) + 1) for l in L_)
        return 20 * (len(L_) + 1) + iat * (2 if a["build"] or a["fill"] else 1) + W + st
    if op == "rel_rebuild":
        return sum(8 + 4 * ((len(t["items"]) + 1) // 2) for t in a["tables"])
    if op == "tls_rebuild":
        return 24 if W == 4 else 40
    if op == "cfg_rebuild":
        return (72 if W == 4 else 112) + (4 * len(a["cfg"]["seh"]) if a["wse"] else 0) + (W * (len(a["cfg"]["lock"]) + 1) if a["wlp"] else 0)
    if op == "bound_rebuild":
        return 8 + sum(8 + len(m["name"]) + 1 + sum(8 + len(r["name"]) + 1 for r in m["refs"]) for m in a["mods"])
    if op == "res_rebuild":
        def go(d, pos):
            t = s = 0
            for e in d["ents"]:
                s += 2 * len(e["name"]) + 4 if e["named"] else 0
                t += 8
                if e["k"] == "data":
                    t += 16 + au(len(e["data"]), 4)
                for x in e["sub"]:
                    u = go(x, 0)
                    t += u
            return 16 + t + s
        return go(a["tree"], 0)
    raise ValueError(op)


def fits(rng, n, mk, reads, prefix="fit", wide=4):
    """Rebuilds into a section that cannot grow, at offsets around the last one at which the directory fits."""
    for i in range(n):
        fmt = rng.choice([32, 64])
        sa, fa = rng.choice([(16, 16), (16, 16), (64, 64), (512, 512)])
        p = PE(fmt=fmt, sa=sa, fa=fa)
        p.soh = au(64 + p.ntsize() + 40 * 3, fa)
        va = au(p.soh, sa)
        for tries in range(50):
            p.secs = []
            p.add(name=b".a", data=rb(rng, 8), va=va, vs=64)
            p.add(name=b".b", data=rb(rng, 8), vs=64)
            a = mk(rng, p)
            need = needed(a, fmt)
            if 0 < need < 600:
                break
        size = need + rng.choice([0, 3, 10, 20, 40])
        p.secs = []
        p.add(name=b".a", data=rb(rng, size, 0.3), va=va, vs=rng.choice([size, au(size, fa), size + 5]))
        p.add(name=b".b", data=rb(rng, 30), vs=64)
        room = au(size, fa)
        prog = [fileset(0, p.to_bytes()), load(0)]
        pre = []
        if "tree" in a:
            pre = [{"op": "tree_set", "dir": a.pop("tree")}]
        ds = list(range(-wide, wide + 1))
        rng.shuffle(ds)
        for d in ds:
            off = max(0, room - need + d)
            prog += [dict(q) for q in pre] + [dict(a, sec=0, off=off, save=rng.random() < 0.9)]
            if rng.random() < 0.3:
                prog += [dict(q) for q in reads]
        yield {"id": "%s-%d" % (prefix, i), "prog": prog + [{"op": "st"}]}


def reload_steps(rng, readers, k=0.6):
    """Write the file, load it again, read again."""
    if rng.random() > k:
        return []
    r = [{"op": "rebuild", "bound": False, "file": 7}, {"op": "load", "file": 7, "img": 7, "opt": True}]
    for q in readers:
        r.append(dict(q, img=7, opt=True))
    return r


def rword(rng, n=4):
    return list(rng.choice([0, 1, 255, 0x1000, 0x80000000, 0xffffffff, rng.getrandbits(8 * n), rng.getrandbits(8 * n)]).to_bytes(8, "little")[:n])


# ---------------------------------------------------------------- more than 64 KiB
def big_dirs(rng, what, k):
    """Histories whose directory is larger than what 16 bits can count."""
    for i in range(k):
        fmt = rng.choice([32, 64])
        last = i % 2 == 0
        prog = [{"op": "new", "fmt": fmt, "sa": 0x1000}, {"op": "setf", "f": "soh", "v": w8(0x400)}, {"op": "upd_size"}]
        if not last:
            prog += [{"op": "addsec", "raw": [7], "vs": 0x90000, "name": L(b"room")}, {"op": "sec_resize", "sec": 0, "n": 0x60000, "fill": 0}, {"op": "recalc", "sec": 0, "strip": False}]
        prog += [{"op": "addsec", "raw": L(rb(rng, 30)), "vs": 0, "name": L(b"s")}]
        off = rng.choice([0, 4, 0x20, 0xfff8, 0x10000]) if not last else rng.choice([0, 20, 0xfffc])
        a = {"sec": 0, "off": off, "strip": rng.random() < 0.5}
        W = fmt // 8
        n = 65536 // W + rng.choice([-1, 0, 1, 3])
        if what == "exp":
            ords = [[1, 40000], [0, 65535], [5, 5 + 16384], [100, 100 + 0x8000, 100 + 0x8001]][(i + rng.randrange(2)) % 4]
            fs = [{"ord": o, "rva": w4(0x1000 + o), "name": L(b"f%d" % o) if j % 2 else [65 + j] * rng.choice([3, 40000])} for j, o in enumerate(ords)]
            fs[-1]["fwd"] = [66] * rng.choice([5, 40000]) + L(b".x")
            a.update({"op": "exp_rebuild", "info": exp_info(rng), "funcs": fs})
            rd = {"op": "exp_read"}
        elif what == "imp":
            libs = [{"name": [65 + j] * rng.choice([5, 33000]), "ts": w4(j), "funcs": [{"name": [97 + j] * rng.choice([3, 33000]), "hint": j, "va": w8(7 + j)}, {"ord": j, "va": w8(9)}]} for j in range(rng.choice([3, 4]))]
            a.update(dict({"op": "imp_rebuild", "libs": libs}, **imp_opts(rng)))
            a["strip"], a["save"] = False, True
            rd = {"op": "imp_read"}
        elif what == "rel":
            m = rng.choice([32764, 32765, 33000, 32767, 32768])
            t = [{"rva": w4(0x1000), "items": [[(7 * j) % 4096, 3 if j % 5 else 10] for j in range(m)]}, {"rva": w4(0x2000), "items": [[1, 3]]}]
            a.update({"op": "rel_rebuild", "tables": t})
            rd = {"op": "rel_read", "abs": True}
        elif what == "tls":
            b0 = 0x1000
            t = {"index": w4(b0), "zf": w4(9), "ch": w4(1), "start": w4(b0 + 0x2c000), "end": w4(b0 + 0x2c000 + 65536 + rng.choice([0, 1, -1, 300])), "data": ([1, 2, 3] + [rng.getrandbits(8)] * 300) * 220, "cb": w4(b0 + 0x12000),
                 "cbs": [w4(0x1000 + j) for j in range(n)]}
            if last:
                # (both ranges are outside of what exists)
                prog += [{"op": "sec_resize", "sec": 0, "n": 0x40000, "fill": 7}, {"op": "recalc", "sec": 0, "strip": False}]
            a.update({"op": "tls_rebuild", "tls": t, "wcb": True, "wdata": True, "expand": "raw", "off": 0x30 if not last else off % 0x10000})
            rd = {"op": "tls_read"}
        elif what == "cfg":
            c = {kk: [j + 1] * w for j, (kk, w) in enumerate(CFGW.items())}
            c["seh"] = [w4(0x1000 + 3 * (j ^ 3 if j % 1000 < 100 else j)) for j in range(65536 // 4 + rng.choice([-1, 0, 1, 5]))] if i % 3 != 1 else [w4(5)]
            c["lock"] = [w4(0x2000 + j) for j in range(n)] if i % 3 != 0 else [w4(7)]
            a.update({"op": "cfg_rebuild", "cfg": c, "wse": True, "wlp": True})
            rd = {"op": "cfg_read"}
        prog += [a, rd]
        if i % 2:
            prog += [{"op": "rebuild", "file": 1}, {"op": "load", "file": 1, "img": 1}, dict(rd, img=1)]
        yield {"id": "big-%s-%d" % (what, i), "prog": prog}


# ---------------------------------------------------------------- C08
def exp_funcs(rng, p):
    n = rng.choice([0, 1, 1, 2, 3, 5, 9])
    base = rng.choice([1, 0, 5, 1000, 65500, 65535 - 2 * n])
    ords = []
    o = max(0, base)
    for _ in range(n):
        ords.append(min(65535, o))
        o += rng.choice([1, 1, 1, 2, 5, 0 if rng.random() < 0.06 else 1])
    pool = [name(rng) for _ in range(n + 2)] + [b"a", b"aa", b"ab", b"B", b"\xe9", b"b" * 20]
    out = []
    used = set()
    for o in ords:
        f = {"ord": o}
        if rng.random() < 0.7:
            nm = rng.choice(pool)
            if nm in used and rng.random() < 0.9:
                nm = nm + b"%d" % o
            used.add(nm)
            f["name"] = L(nm)
        if rng.random() < 0.3:
            f["fwd"] = L(name(rng, 12) + b"." + name(rng, 5))
            if rng.random() < 0.3:
                f["rva"] = w4(rng.getrandbits(32))
        else:
            f["rva"] = w4(rng.choice([8, 0x20, 0x40, 0x7f000000, 0x80000000, 0xfff00000, 0xffffffff]) if rng.random() < 0.7 else rng.randrange(4, 60))
        if rng.random() < 0.3:
            f["no"] = rng.randrange(65536)
        out.append(f)
    rng.shuffle(out)
    return out


def exp_info(rng):
    d = {"ch": rword(rng), "ts": rword(rng), "maj": w2(rng.getrandbits(16)), "min": w2(rng.getrandbits(16)), "name": L(name(rng, 12, 0)), "base": rword(rng)}
    for k in list(d):
        if rng.random() < 0.1 and k != "name":
            del d[k]
    return d


def build_exports(rng, s):
    """A hand-made export directory."""
    n = rng.choice([0, 1, 2, 4, 7])
    sec = rng.choice([None, 0, -1])
    nm = s.alloc(name(rng, 9, 0) + b"\0", 1, sec)
    fwd = []
    d = s.reserve(40, 4, rng.choice([0, None, -1]), [4, 4, 2, 2, 4, 4, 4, 4, 4, 4, 4])
    k = rng.choice([0, n, min(n, 2), max(0, n - 1)])
    idx = [rng.randrange(max(n, 1) + (1 if rng.random() < 0.1 else 0)) for _ in range(k)] if rng.random() < 0.4 else rng.sample(range(n), k)
    names = []
    for _ in range(k):
        names.append(s.alloc(name(rng, 9, 0 if rng.random() < 0.1 else 1) + b"\0", 1, None))
    nt = s.alloc(b"".join(struct.pack("<I", x) for x in names), 4, None, [4] * k) if k or rng.random() < 0.5 else 0
    ot = s.alloc(b"".join(struct.pack("<H", x) for x in idx), 2, None, [2] * k) if k or nt else 0
    funcs = []
    for j in range(n):
        x = rng.random()
        if x < 0.15:
            funcs.append(0)
        elif x < 0.45:
            funcs.append(s.alloc(name(rng, 9) + b"." + name(rng, 5) + b"\0", 1, None))
        else:
            funcs.append(rng.choice([s.va0 + rng.randrange(s.vs), 0x20, 0x7fffffff, 0xffffffff]))
    ft = s.alloc(b"".join(struct.pack("<I", x) for x in funcs), 4, None, [4] * n) if n or rng.random() < 0.5 else 0
    base = rng.choice([1, 0, 100, 65535 - n, 65536 - n, 65537 - n, 0xffffffff - n])
    s.put(d, struct.pack("<IIHHIIIIIII", rng.getrandbits(32), rng.getrandbits(32), 1, 2, nm, base, n, k, ft, nt, ot))
    # the directory range decides what is a forwarder
    lo = d
    hi = max([d + 40] + [x + 20 for x in funcs if d < x < d + s.n * s.vs])
    s.p.dirs[0] = (lo, rng.choice([hi - lo, hi - lo, 40, 0, 0x100000]))
    if rng.random() < 0.05:
        s.p.dirs[0] = (rng.choice([0, d + 1, 0xffffffff, s.va(0) + s.vs - 39, 0x7fffffff, 3]), rng.choice([40, 0xffffffff]))


def malformed(rng, n, prefix, build, readers, **kw):
    for i in range(n):
        while True:
            s = Space(rng, hdr_extra=rng.choice([0, 0, 80, 160]), **kw)
            try:
                build(rng, s)
            except OverflowError:
                continue
            break
        if rng.random() < 0.7:
            s.corrupt(rng.choice([1, 1, 1, 2, 3]))
        prog = [fileset(0, s.file()), load(0)]
        for q in readers:
            prog.append(dict(q))
        yield {"id": "%s-%d" % (prefix, i), "prog": prog + [{"op": "st"}]}


def c08(rng, tier):
    n = 150 if tier == "quick" else 1500
    for i in range(n):
        prog, p, tgt, off = host(rng)
        for _ in range(rng.choice([1, 1, 2])):
            a = dict({"op": "exp_rebuild", "info": exp_info(rng), "funcs": exp_funcs(rng, p), "off": off, "save": rng.random() < 0.9, "strip": rng.random() < 0.7}, **tgt)
            prog.append(a)
            prog.append({"op": "exp_read", "info_wanted": rng.random() < 0.8} if a["save"] else {"op": "st"})
        yield {"id": "build-%d" % i, "prog": prog + reload_steps(rng, [{"op": "exp_read"}]) + [{"op": "exp_helpers", "funcs": a["funcs"], "name": L(rng.choice([b"a", b"aa", b""]) if rng.random() < 0.3 or not a["funcs"] else bytes(rng.choice(a["funcs"]).get("name", [97]))), "ord": rng.choice([0, 1, 5, 1000, 1001])}]}
    yield from malformed(rng, 200 if tier == "quick" else 2500, "read", build_exports, [{"op": "exp_read"}, {"op": "exp_read", "info_wanted": False}])
    yield from edges(rng, 80 if tier == "quick" else 1500, build_exports, [{"op": "exp_read"}, {"op": "exp_read", "info_wanted": False}])
    yield from fits(rng, 6 if tier == "quick" else 60, lambda r, p: {"op": "exp_rebuild", "info": exp_info(r), "funcs": exp_funcs(r, p), "strip": False}, [{"op": "exp_read"}])
    yield from big_dirs(rng, "exp", 2 if tier == "quick" else 8)


# ---------------------------------------------------------------- C09
def imp_funcs(rng, fmt, va=True):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
        f = {}
        if rng.random() < 0.65:
            f["name"] = L(name(rng, 10))
            f["hint"] = rng.choice([0, 1, 0xffff, rng.randrange(65536)])
        else:
            f["ord"] = rng.choice([0, 1, 0xffff, rng.randrange(65536)])
        if va:
            f["va"] = w8(rng.choice([1, 0x80000000, 0xffffffff, rng.getrandbits(32) | 1] if fmt == 32 else [1, 1 << 63, rng.getrandbits(64) | 1, 0x140001000]))
        elif rng.random() < 0.3:
            f["va"] = w8(rng.getrandbits(32))
        out.append(f)
    return out


def imp_opts(rng):
    return {"save": rng.random() < 0.9, "zeroiat": rng.random() < 0.3, "build": rng.random() < 0.6, "keep": rng.random() < 0.6, "rewrite": rng.random() < 0.5, "fill": rng.random() < 0.5, "strip": rng.random() < 0.7}


def build_imports(rng, s, tidy=False):
    n = rng.choice([0, 1, 2, 3]) if not tidy else rng.choice([1, 2, 3])
    W = s.fmt // 8
    d = s.reserve(20 * (n + 1), 4, rng.choice([0, None, -1] if not tidy else [0]), [4, 4, 4, 4, 4] * (n + 1))
    s.p.dirs[1] = (d, rng.choice([20 * (n + 1), 0, 5]))
    for k in range(n):
        nm = s.alloc(name(rng, 9, 0 if rng.random() < 0.1 else 1) + b"\0")
        look = []
        m = rng.choice([0, 1, 2, 4])
        for _ in range(m):
            if rng.random() < 0.35:
                look.append((1 << (8 * W - 1)) | rng.randrange(65536) | (rng.getrandbits(15) << 16 if rng.random() < 0.1 and not tidy else 0))
            else:
                look.append(s.alloc(w2b(rng.randrange(65536)) + name(rng, 9, 0 if rng.random() < 0.1 and not tidy else 1) + b"\0", rng.choice([1, 2]), None))
        tab = lambda v, sec: s.alloc(b"".join(x.to_bytes(W, "little") for x in v + [0]), W, sec, [W] * (len(v) + 1))
        shared = rng.random() < 0.35
        iat = tab(look if shared or rng.random() < 0.3 else [rng.getrandbits(8 * W) | 1 for _ in range(m if rng.random() < 0.8 or tidy else max(0, m - 1))], None)
        oiat = 0 if shared else tab(look, None)
        s.put(d + 20 * k, struct.pack("<IIIII", oiat, rng.getrandbits(32), rng.getrandbits(32), nm, iat))
    s.put(d + 20 * n, struct.pack("<IIIII", *([0] * 5 if rng.random() < 0.8 else [5, 6, 7, 0, 9])))


def w2b(v):
    return struct.pack("<H", v)


def place_tables(rng, p, tgt, libs):
    """Gives some libraries existing tables, in sections other than the target."""
    W = p.fmt // 8
    others = [i for i in range(len(p.secs)) if i != tgt.get("sec") and len(p.secs[i].data)]
    used = {}
    for l in libs:
        if rng.random() < 0.3 or not others:
            continue
        i = rng.choice(others)
        s = p.secs[i]
        n = W * (len(l["funcs"]) + 1)
        o = used.get(i, 0)
        if rng.random() < 0.08:
            o = max(o, len(s.data) - n + rng.choice([-1, 0, 1, n]))
        l["iat"] = w4(s.va + o)
        used[i] = o + n
        if rng.random() < 0.5:
            l["oiat"] = w4(s.va + used[i])
            used[i] += n
        if rng.random() < 0.03:
            l["iat"] = w4(rng.choice([1, 0x7fffffff, s.va + au(s.vs, p.sa)]))


def imp_libs(rng, fmt, va):
    return [{"name": L(name(rng, 12)), "ts": rword(rng), "funcs": imp_funcs(rng, fmt, va)} for _ in range(rng.choice([0, 1, 1, 2, 3]))]


def c09(rng, tier):
    n = 200 if tier == "quick" else 2000
    for i in range(n):
        prog, p, tgt, off = host(rng)
        o = imp_opts(rng)
        libs = imp_libs(rng, p.fmt, o["build"] or rng.random() < 0.3)
        if rng.random() < 0.6:
            place_tables(rng, p, tgt, libs)
        prog.append(dict({"op": "imp_rebuild", "libs": libs, "off": off}, **o, **tgt))
        prog.append({"op": "imp_read"} if o["save"] else {"op": "st"})
        yield {"id": "build-%d" % i, "prog": prog + reload_steps(rng, [{"op": "imp_read"}])}
    for i in range(n // 4):
        while True:
            s = Space(rng, nsec=rng.choice([2, 3]))
            try:
                build_imports(rng, s, tidy=True)
            except OverflowError:
                continue
            break
        prog = [fileset(0, s.file()), load(0), {"op": "imp_read"}]
        o = imp_opts(rng)
        last = s.n - 1
        prog.append(dict({"op": "imp_append", "sec": last, "off": len(s.data[last]) + rng.randrange(6), "libs": imp_libs(rng, s.fmt, True)}, **o))
        prog.append({"op": "imp_read"})
        yield {"id": "append-%d" % i, "prog": prog + reload_steps(rng, [{"op": "imp_read"}])}
    yield from malformed(rng, 200 if tier == "quick" else 2500, "read", build_imports, [{"op": "imp_read"}])
    yield from edges(rng, 80 if tier == "quick" else 1500, build_imports, [{"op": "imp_read"}])
    yield from fits(rng, 6 if tier == "quick" else 60, lambda r, p: dict({"op": "imp_rebuild", "libs": imp_libs(r, p.fmt, True)}, **imp_opts(r)), [{"op": "imp_read"}])
    yield from big_dirs(rng, "imp", 2 if tier == "quick" else 8)


# ---------------------------------------------------------------- C10
def rel_tables(rng, p=None, types=None):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        s = rng.choice(p.secs) if p and p.secs else None
        n = rng.choice([0, 1, 2, 3, 4, 7])
        out.append({"rva": w4(rng.choice([s.va if s else 0, 0x1000, 0, 0xfffff000, rng.getrandbits(32)])),
                    "items": [[rng.choice([0, 1, 4, 4095, rng.randrange(4096)]), rng.choice(types or [3, 10, 3, 0, 1, 2, 4, 15, rng.randrange(16)])] for _ in range(n)]})
    return out


def build_relocs(rng, s, types=None):
    sec = rng.choice([None, 0, -1])
    blocks = []
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        its = [(rng.choice(types or [3, 10, 3, 0, 1, 2, 9]) << 12) | rng.randrange(4096) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))]
        blocks.append((rng.choice([s.va0, 0x1000, 0]), its, rng.choice([8 + 2 * len(its)] * 9 + [7 + 2 * len(its), 0, 1, 2, 6])))
    b = b""
    mark = []
    for v, its, z in blocks:
        b += struct.pack("<II", v, z) + b"".join(struct.pack("<H", x) for x in its)
        mark += [4, 4] + [2] * len(its)
    tail = rng.choice([b"", b"\0" * 8, b"\0" * 8, rb(rng, 8)])
    d = s.alloc(b + tail, 4, sec, mark)
    s.p.dirs[5] = (d, rng.choice([len(b)] * 5 + [len(b) + len(tail), max(0, len(b) - 2), 0, 0x10000, len(b) + 1, 8]))
    s.p.ch = rng.choice([0x102, 0x102, 0x2102, 0x103])


def c10(rng, tier):
    n = 200 if tier == "quick" else 2000
    for i in range(n):
        prog, p, tgt, off = host(rng)
        for _ in range(rng.choice([1, 1, 2])):
            a = dict({"op": "rel_rebuild", "tables": rel_tables(rng, p), "off": off, "save": rng.random() < 0.9, "strip": rng.random() < 0.7}, **tgt)
            prog.append(a)
            prog.append({"op": "rel_read", "abs": rng.random() < 0.5} if a["save"] else {"op": "st"})
        yield {"id": "build-%d" % i, "prog": prog + reload_steps(rng, [{"op": "rel_read", "abs": True}])}
    yield from malformed(rng, 250 if tier == "quick" else 3000, "read", build_relocs, [{"op": "rel_read"}, {"op": "rel_read", "abs": True}])
    yield from edges(rng, 80 if tier == "quick" else 1500, build_relocs, [{"op": "rel_read"}, {"op": "rel_read", "abs": True}])
    yield from fits(rng, 6 if tier == "quick" else 60, lambda r, p: {"op": "rel_rebuild", "tables": rel_tables(r, p), "strip": False}, [{"op": "rel_read", "abs": True}])
    yield from big_dirs(rng, "rel", 2 if tier == "quick" else 8)


# ---------------------------------------------------------------- C11
def new_base(rng, fmt):
    v = rng.choice([0, 0x10000, 0x400000, 0x10000000, 0x7fff0000, 0xffff0000, rng.getrandbits(32) & ~0xffff] + ([0x140000000, 0x7ff600000000, 0xffffffff80000000, rng.getrandbits(63) & ~0xffff] if fmt == 64 or rng.random() < 0.1 else []))
    if rng.random() < 0.25:
        # not a multiple of 64 KB: the halves of the difference have no carry of their own
        v += rng.choice([1, 0x1000, 0x7fff, 0x8000, 0xffff, rng.randrange(65536)])
    return w8(v)


def rebase_tables(rng, p, bad):
    out = []
    hl = au(p.hdr_len(), p.fa)
    for _ in range(rng.choice([1, 1, 2, 3])):
        s = rng.choice(p.secs)
        lo, n = (0, min(hl, 300)) if rng.random() < 0.15 else (s.va, max(1, len(s.data)))
        its = []
        for _ in range(rng.choice([0, 1, 2, 3, 6])):
            ty = rng.choice([3, 3, 3, 10, 10, 0, 1, 2])
            w = {3: 4, 10: 8, 1: 2, 2: 2, 0: 2}[ty]
            o = rng.randrange(max(1, n - w + 1)) if n >= w else 0
            if n < w:
                ty, o = 0, 0
            if bad and rng.random() < 0.25:
                k = rng.randrange(4)
                if k == 0:
                    ty = rng.choice([4, 5, 9, 11, 15])
                elif k == 1:
                    o = max(0, n - w + rng.choice([1, 2, w]))
                elif k == 2:
                    o = 4095
                else:
                    o = max(0, n - w)
            its.append([o & 4095, ty])
        out.append({"rva": w4(lo if not (bad and rng.random() < 0.1) else rng.choice([0xffffffff, 0xfffff001, 0x7fffffff, lo + 0x100000])), "items": its})
    return out


def c11(rng, tier):
    n = 250 if tier == "quick" else 2500
    for i in range(n):
        prog, p, tgt, off = host(rng)
        bad = rng.random() < 0.35
        for _ in range(rng.choice([1, 1, 2, 3])):
            prog.append({"op": "rebase", "tables": rebase_tables(rng, p, bad), "base": new_base(rng, p.fmt)})
        if rng.random() < 0.4:
            # there and back again
            t = rebase_tables(rng, p, False)
            prog.append({"op": "rebase", "tables": t, "base": new_base(rng, p.fmt)})
            prog.append({"op": "rebase", "tables": t, "base": w8(p.base)})
        prog.append({"op": "getf"})
        yield {"id": "rebase-%d" % i, "prog": prog + reload_steps(rng, [{"op": "getf"}], 0.2)}
    for i in range(n // 4):
        # relocations written by the library, read back from the file and applied
        prog, p, tgt, off = host(rng, fmt=rng.choice([32, 64]))
        s = len(p.secs) - 1
        t = [x for x in rebase_tables(rng, p, False)]
        prog.append({"op": "rel_rebuild", "tables": t, "off": 1 + len(p.secs[s].data), "sec": s})
        prog += [{"op": "rebuild", "bound": False, "file": 7}, {"op": "load", "file": 7, "img": 7, "opt": True}, {"op": "rebase", "img": 7, "opt": True, "base": new_base(rng, p.fmt), "abs": rng.random() < 0.5}]
        yield {"id": "file-%d" % i, "prog": prog}


# ---------------------------------------------------------------- C12
def near(rng, p, W):
    """RVAs in and around the sections, and in the headers."""
    s = rng.choice(p.secs)
    last = p.secs[-1]
    soh = p.soh or au(p.hdr_len(), p.fa)
    return rng.choice([s.va, s.va + len(s.data), s.va + max(0, len(s.data) - W), s.va + rng.randrange(max(1, s.vs)), s.va + au(max(s.vs, 1), p.sa) - 1, last.va + au(max(last.vs, 1), p.sa), last.va + len(last.data), last.va + rng.randrange(max(1, last.vs)),
                       last.va + max(0, len(last.data) - 10), rng.randrange(soh), soh - W, soh, 0x7fffffff if rng.random() < 0.3 else s.va])


def tls_info(rng, p):
    W = p.fmt // 8
    start = rng.choice([0, near(rng, p, 4), near(rng, p, 4), near(rng, p, 4)])
    dl = rng.choice([0, 1, 7, 20, 64, 200, 600])
    data = rb(rng, rng.choice([dl, dl, dl, dl + 5, max(0, dl - 3), 0]))
    t = {"start": w4(start), "end": w4(start + dl if start or rng.random() < 0.8 else near(rng, p, 4)), "index": w4(near(rng, p, 4) if rng.random() < 0.95 else 0), "cb": w4(rng.choice([0, near(rng, p, W), near(rng, p, W)])),
         "zf": rword(rng), "ch": rword(rng), "data": L(data), "cbs": [w4(rng.choice([near(rng, p, 4), 1, 0x1000, rng.getrandbits(28)])) for _ in range(rng.choice([0, 1, 2, 3, 9]))]}
    if rng.random() < 0.05:
        t["end"] = w4(max(0, start - 1))
    if rng.random() < 0.04:
        for k in rng.choice([["start", "end"], ["index"], ["cb"]]):
            t[k] = w4(0xffffff00)
    if rng.random() < 0.04 and t["cbs"]:
        t["cbs"][-1] = w4(0xffffff00)
    return t


def c12(rng, tier):
    n = 300 if tier == "quick" else 3000
    for i in range(n):
        prog, p, tgt, off = host(rng)
        if p.fmt == 32 and rng.random() < 0.2:
            p.base = 0xFFFF0000
            prog[0] = fileset(0, p.to_bytes())
        for _ in range(rng.choice([1, 1, 2])):
            a = dict({"op": "tls_rebuild", "tls": tls_info(rng, p), "off": off, "wcb": rng.random() < 0.7, "wdata": rng.random() < 0.7, "expand": rng.choice(["raw", "virtual"]), "save": rng.random() < 0.9, "strip": rng.random() < 0.7}, **tgt)
            prog.append(a)
            prog.append({"op": "tls_read"} if a["save"] else {"op": "st"})
        yield {"id": "build-%d" % i, "prog": prog + reload_steps(rng, [{"op": "tls_read"}]) + [{"op": "tls_helpers", "tls": a["tls"]}]}
    yield from malformed(rng, 250 if tier == "quick" else 3000, "read", build_tls, [{"op": "tls_read"}])
    yield from edges(rng, 80 if tier == "quick" else 1500, build_tls, [{"op": "tls_read"}])
    yield from fits(rng, 6 if tier == "quick" else 60, lambda r, p: {"op": "tls_rebuild", "tls": tls_info(r, p), "wcb": r.random() < 0.5, "wdata": r.random() < 0.5, "expand": "raw", "strip": False}, [{"op": "tls_read"}], wide=9)
    yield from big_dirs(rng, "tls", 2 if tier == "quick" else 8)


def build_tls(rng, s):
    W = s.fmt // 8
    q = "<I" if W == 4 else "<Q"
    va = lambda r: s.p.base + r
    cbs = [va(s.va0 + rng.randrange(s.vs)) if rng.random() < 0.9 else rng.choice([1, s.p.base, s.p.base - 1, (1 << (8 * W)) - 1]) for _ in range(rng.choice([0, 1, 2, 4]))]
    cb = s.alloc(b"".join(struct.pack(q, x) for x in cbs + [0]), W, rng.choice([None, -1]), [W] * (len(cbs) + 1)) if rng.random() < 0.8 else 0
    data = rb(rng, rng.choice([0, 1, 10, 40]))
    ds = s.alloc(data, 1, rng.choice([None, -1])) if rng.random() < 0.85 else 0
    end = ds + len(data) + (rng.choice([0, 0, 0, 5, s.vs - 100]) if ds else 0)
    idx = s.alloc(b"\0\0\0\0", 4, None) if rng.random() < 0.9 else 0
    z = lambda r: va(r) if r else 0
    d = s.alloc(struct.pack(q, z(ds)) + struct.pack(q, z(end)) + struct.pack(q, z(idx)) + struct.pack(q, z(cb)) + struct.pack("<II", rng.getrandbits(32), rng.getrandbits(32)), 4, rng.choice([None, 0, -1]), [W, W, W, W, 4, 4])
    if rng.random() < 0.15:
        v = struct.pack(q, rng.choice([1, 5, s.p.base - 1, s.p.base, s.p.base + s.va0 + 3]))
        s.put(d, v + v)
    s.p.dirs[9] = (d, 4 * W + 8)


# ---------------------------------------------------------------- C13
CFGW = {"ts": 4, "maj": 2, "min": 2, "gfc": 4, "gfs": 4, "cst": 4, "dfb": 8, "dtf": 8, "lpt": 8, "mas": 8, "vmt": 8, "pam": 8, "phf": 4, "csd": 2, "edl": 8, "sck": 8, "set": 8}


def cfg_info(rng, p):
    c = {k: list((rng.choice([0, 1, 0xff, (1 << (8 * w)) - 1, rng.getrandbits(8 * w), rng.getrandbits(32) & ((1 << (8 * w)) - 1)])).to_bytes(w, "little")) for k, w in CFGW.items()}
    c["seh"] = [w4(rng.choice([0x1000, 0x100, 0xff, 0x1ff, 0x80000000, 5, 5, rng.getrandbits(32)])) for _ in range(rng.choice([0, 0, 1, 2, 3, 8]))]
    c["lock"] = [w4(rng.choice([near(rng, p, 4), near(rng, p, 4), rng.getrandbits(28) | 1, 0xffffff00 if rng.random() < 0.1 else 7])) for _ in range(rng.choice([0, 0, 1, 2, 5]))]
    return c


def c13(rng, tier):
    n = 250 if tier == "quick" else 2500
    for i in range(n):
        prog, p, tgt, off = host(rng)
        if p.fmt == 32 and rng.random() < 0.2:
            p.base = rng.choice([0xFFFF0000, 0xFFFFF000])
            prog[0] = fileset(0, p.to_bytes())
        for _ in range(rng.choice([1, 1, 2])):
            a = dict({"op": "cfg_rebuild", "cfg": cfg_info(rng, p), "off": off, "wse": rng.random() < 0.7, "wlp": rng.random() < 0.7, "save": rng.random() < 0.9, "strip": rng.random() < 0.7}, **tgt)
            prog.append(a)
            prog.append({"op": "cfg_read"} if a["save"] else {"op": "st"})
        yield {"id": "build-%d" % i, "prog": prog + reload_steps(rng, [{"op": "cfg_read"}]) + [{"op": "cfg_helpers", "cfg": a["cfg"]}]}
    yield from malformed(rng, 250 if tier == "quick" else 3000, "read", build_cfg, [{"op": "cfg_read"}])
    yield from edges(rng, 80 if tier == "quick" else 1500, build_cfg, [{"op": "cfg_read"}])
    yield from fits(rng, 6 if tier == "quick" else 60, lambda r, p: {"op": "cfg_rebuild", "cfg": cfg_info(r, p), "wse": r.random() < 0.7, "wlp": r.random() < 0.7, "strip": False}, [{"op": "cfg_read"}], wide=9)
    yield from big_dirs(rng, "cfg", 2 if tier == "quick" else 8)


def build_cfg(rng, s):
    W = s.fmt // 8
    q = "<I" if W == 4 else "<Q"
    va = lambda r: s.p.base + r if r else 0
    seh = sorted(rng.getrandbits(30) for _ in range(rng.choice([0, 1, 2, 5])))
    st = s.alloc(b"".join(struct.pack("<I", x) for x in seh), 4) if seh or rng.random() < 0.3 else 0
    locks = [va(s.va0 + rng.randrange(s.vs)) for _ in range(rng.choice([0, 1, 2, 4]))]
    lt = s.alloc(b"".join(struct.pack(q, x) for x in locks + [0]), W, None, [W] * (len(locks) + 1)) if rng.random() < 0.7 else 0
    size = 72 if W == 4 else 112
    w = [4, 4, 2, 2, 4, 4, 4] + ([4] * 7 + [2, 2, 4, 4, 4, 4] if W == 4 else [8] * 5 + [8, 4, 2, 2, 8, 8, 8, 8])
    w = w if W == 8 else [4, 4, 2, 2, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 2, 2, 4, 4, 4, 4]
    v = [rng.getrandbits(8 * k) for k in w]
    v[0] = rng.choice([size, size, size, size + 4, size - 1, 0xffffffff])
    v[9] = va(lt)
    v[-2], v[-1] = va(st), len(seh)
    d = s.alloc(b"".join(x.to_bytes(k, "little") for x, k in zip(v, w)), 4, rng.choice([None, 0, 0, -1]))
    o = d
    for j, k in enumerate(w):
        if j in (0, 9, len(w) - 2, len(w) - 1):
            s.fields += [(o, k)] * 3
        o += k
    s.p.dirs[10] = (d, rng.choice([size, 64, 0]))


# ---------------------------------------------------------------- C14
def bound_mods(rng):
    return [{"name": L(name(rng, 12, 0)), "ts": rword(rng), "refs": [{"name": L(name(rng, 9, 0)), "ts": rword(rng)} for _ in range(rng.choice([0, 0, 1, 2, 4]))]} for _ in range(rng.choice([0, 1, 1, 2, 3]))]


def c14(rng, tier):
    n = 200 if tier == "quick" else 2000
    for i in range(n):
        prog, p, tgt, off = host(rng)
        for _ in range(rng.choice([1, 1, 2])):
            a = dict({"op": "bound_rebuild", "mods": bound_mods(rng), "off": off, "save": rng.random() < 0.9, "strip": rng.random() < 0.7}, **tgt)
            prog.append(a)
            prog.append({"op": "bound_read"} if a["save"] else {"op": "st"})
        yield {"id": "build-%d" % i, "prog": prog + reload_steps(rng, [{"op": "bound_read"}])}
    for i in range(4 if tier == "quick" else 20):
        # names whose offsets are around the limit of the format (16 bits)
        prog, p, tgt, off = host(rng, align=(0x1000, 0x200))
        t = 65535 - 8 - 8 * 2 + [0, 1, -1, 30, 2][i % 5]
        mods = [{"name": [65] * (t - 1), "ts": w4(5), "refs": []}, {"name": L(b"last"), "ts": w4(6), "refs": []}]
        prog.append({"op": "bound_rebuild", "mods": mods, "off": 0, "sec": len(p.secs) - 1})
        prog.append({"op": "bound_read"})
        yield {"id": "long-%d" % i, "prog": prog}
    for i in range(2):
        # only the last name may reach beyond the limit
        prog, p, tgt, off = host(rng, align=(0x1000, 0x200))
        lib = {"name": [65] * 65540, "ts": w4(5), "refs": []}
        mods = [{"name": L(b"a"), "ts": w4(1), "refs": [lib]}] if i else [lib]
        yield {"id": "last-%d" % i, "prog": prog + [{"op": "bound_rebuild", "mods": mods, "off": 0, "sec": len(p.secs) - 1}, {"op": "bound_read"}]}
    for i, r in enumerate([255, 256, 257, 700] if tier == "quick" else [254, 255, 256, 257, 511, 512, 513, 1000, 2000]):
        # many forwarders of one module
        prog, p, tgt, off = host(rng, align=(0x1000, 0x200))
        mods = [{"name": L(b"m%d" % k), "ts": w4(k), "refs": [{"name": [65 + j % 26] * (j % 2 + 1), "ts": w4(j)} for j in range(m)]} for k, m in enumerate([0, r, 1])]
        prog += [{"op": "bound_rebuild", "mods": mods, "off": 0, "sec": len(p.secs) - 1}, {"op": "bound_read"}]
        yield {"id": "refs-%d" % r, "prog": prog}
    yield from malformed(rng, 250 if tier == "quick" else 3000, "read", build_bound, [{"op": "bound_read"}])
    yield from edges(rng, 80 if tier == "quick" else 1500, build_bound, [{"op": "bound_read"}])
    yield from edges(rng, 120 if tier == "quick" else 2000, tight_bound, [{"op": "bound_read"}], prefix="tight")
    yield from fits(rng, 6 if tier == "quick" else 60, lambda r, p: {"op": "bound_rebuild", "mods": bound_mods(r), "strip": False}, [{"op": "bound_read"}])


def tight_bound(rng, s):
    """Descriptors whose names lie among the descriptors themselves, so that nothing follows them."""
    m = rng.choice([1, 1, 2, 3])
    refs = [rng.choice([0, 0, 1, 2]) for _ in range(m)]
    total = 8 * (m + sum(refs))
    end = rng.choice([0, 0, 0, 8])
    b = b""
    for k in range(m):
        for j in range(refs[k] + 1):
            o = rng.choice([3, 6, 7, total - 1, total - 2, total - 4, total, total + end - 1, total + end, 8 + 3, 4])
            b += struct.pack("<IHH", rng.getrandbits(32) & 0x00ffffff, max(1, o), refs[k] if j == 0 else rng.choice([0, 0, 9]))
    b += rb(rng, end, 0) if rng.random() < 0.3 else bytes(end)
    d = s.alloc(b, 1, None, [4, 2, 2] * (len(b) // 8))
    s.p.dirs[11] = (d, rng.choice([len(b), 8, 4, 0, 0, 1]))


def build_bound(rng, s):
    m = rng.choice([0, 1, 1, 2, 3])
    refs = [rng.choice([0, 0, 1, 2]) for _ in range(m)]
    n = 8 * (1 + m + sum(refs))
    strs = b""
    b = b""
    mark = []
    for k in range(m):
        for j in range(refs[k] + 1):
            nm = name(rng, 9, 0 if rng.random() < 0.1 else 1)
            b += struct.pack("<IHH", rng.getrandbits(32), n + len(strs), refs[k] if j == 0 else rng.choice([0, 0, 9]))
            strs += nm + b"\0"
            mark += [4, 2, 2]
    b += struct.pack("<IHH", rng.choice([0, 0, 7]), 0, rng.choice([0, 0, 3]))
    mark += [4, 2, 2]
    if rng.random() < 0.2 and strs:
        strs = strs[:-1]
    d = s.alloc(b + strs, 4, rng.choice([None, 0, -1, -1]), mark)
    s.p.dirs[11] = (d, rng.choice([len(b + strs), len(b + strs), len(b), 0, len(b + strs) + 1, 0x10000]))
