"""Input generation: builds PE files byte by byte.  This is not an oracle; it only produces inputs."""
import struct


def w4(v):
    return list(struct.pack("<I", v & 0xffffffff))


def w2(v):
    return list(struct.pack("<H", v & 0xffff))


def w8(v):
    return list(struct.pack("<Q", v & 0xffffffffffffffff))


def au(x, a):
    return (x + a - 1) // a * a


class Sec:
    def __init__(self, name=b".s", va=0, vs=0, rs=None, ptr=None, data=b"", ch=0xE0000020):
        self.name, self.va, self.vs, self.rs, self.ptr, self.data, self.ch = name, va, vs, rs, ptr, data, ch


class PE:
    """A PE file under construction; to_bytes lays it out like a linker would unless fields are forced."""

    def __init__(self, fmt=32, sa=0x1000, fa=0x200, stub=b"", base=0x400000, nrva=16, ch=0x102, dch=0x40, subsys=3, ep=0):
        self.fmt, self.sa, self.fa, self.stub, self.base, self.nrva = fmt, sa, fa, stub, base, nrva
        self.ch, self.dch, self.subsys, self.ep = ch, dch, subsys, ep
        self.secs, self.dirs, self.overlay = [], {}, b""
        self.soh = self.soi = self.nos = self.sooh = self.lf = None
        self.hdr_extra = b""       # bytes placed after the section table (inside the headers)
        self.csum = 0
        self.mem = False           # lay the file out as a memory image
        self.ts = 0x5F5E1000
        self.mach = None

    def add(self, name=b".s", vs=None, data=b"", rs=None, ch=0xE0000020, va=None, ptr=None):
        if va is None:
            if self.secs:
                p = self.secs[-1]
                pv = p.vs if p.vs else (p.rs if p.rs is not None else au(len(p.data), self.fa))
                va = p.va + au(pv, self.sa)
            else:
                va = au(max(self.hdr_len(), 1), self.sa)
        if vs is None:
            vs = max(1, au(len(data), self.sa))
        s = Sec(name, va, vs, rs, ptr, data, ch)
        self.secs.append(s)
        return s

    def ntsize(self):
        return (120 if self.fmt == 32 else 136) + 8 * min(16, self.nrva)

    def hdr_len(self):
        return 64 + au(len(self.stub), 4) + self.ntsize() + 40 * max(len(self.secs), 1) + len(self.hdr_extra)

    def to_bytes(self):
        lf = self.lf if self.lf is not None else 64 + au(len(self.stub), 4)
        nt_size = self.ntsize()
        hdr_len = lf + nt_size + 40 * len(self.secs) + len(self.hdr_extra)
        soh = self.soh if self.soh is not None else (au(hdr_len, self.fa))
        end = max([s.va + au(s.vs or (s.rs or len(s.data)), self.sa) for s in self.secs] or [au(soh, self.sa)])
        soi = self.soi if self.soi is not None else end
        pos = au(max(hdr_len, soh), self.fa)
        body = {}
        shdr = b""
        for s in self.secs:
            rs = s.rs if s.rs is not None else au(len(s.data), self.fa)
            if s.ptr is not None:
                ptr = s.ptr
            else:
                ptr = pos if rs else 0
                pos += au(rs, self.fa)
            if rs:
                body[(s.va // self.sa * self.sa) if self.mem else (ptr // self.fa * self.fa)] = s.data[:max(rs, 0)].ljust(min(rs, 1 << 20), b"\0")
            shdr += struct.pack("<8sIIIIIIHHI", s.name, s.vs & 0xffffffff, s.va & 0xffffffff, rs & 0xffffffff, ptr & 0xffffffff, 0, 0, 0, 0, s.ch)
        dirs = b""
        for i in range(min(16, self.nrva)):
            r, z = self.dirs.get(i, (0, 0))
            dirs += struct.pack("<II", r & 0xffffffff, z & 0xffffffff)
        nos = self.nos if self.nos is not None else len(self.secs)
        sooh = self.sooh if self.sooh is not None else nt_size - 24
        mach = self.mach if self.mach is not None else (0x14c if self.fmt == 32 else 0x8664)
        fh = struct.pack("<4sHHIIIHH", b"PE\0\0", mach, nos & 0xffff, self.ts, 0, 0, sooh & 0xffff, self.ch)
        if self.fmt == 32:
            oh = struct.pack("<HBBIIIIIIIII", 0x10b, 8, 0, 0x200, 0x200, 0, self.ep, 0x1000, 0x2000, self.base & 0xffffffff, self.sa & 0xffffffff, self.fa & 0xffffffff)
        else:
            oh = struct.pack("<HBBIIIIIQII", 0x20b, 8, 0, 0x200, 0x200, 0, self.ep, 0x1000, self.base & 0xffffffffffffffff, self.sa & 0xffffffff, self.fa & 0xffffffff)
        oh += struct.pack("<HHHHHHIIIIHH", 4, 1, 6, 7, 5, 2, 0, soi & 0xffffffff, soh & 0xffffffff, self.csum, self.subsys, self.dch)
        q = "<IIII" if self.fmt == 32 else "<QQQQ"
        oh += struct.pack(q, 0x100000, 0x1000, 0x200000, 0x2000) + struct.pack("<II", 0, self.nrva & 0xffffffff)
        dos = bytearray(64)
        dos[0:4] = b"MZ\x90\0"
        dos[24:26] = b"\x40\0"
        dos[60:64] = struct.pack("<I", lf & 0xffffffff)
        head = bytes(dos) + self.stub.ljust(max(0, lf - 64), b"\0")[:max(0, lf - 64)] if lf >= 64 else bytes(dos)
        out = bytearray(head[:max(lf, 64)])
        nt = fh + oh + dirs
        if len(out) < lf:
            out += b"\0" * (lf - len(out))
        out[lf:lf + len(nt)] = nt
        tab = lf + 24 + sooh
        if len(out) < tab:
            out += b"\0" * (tab - len(out))
        out[tab:tab + len(shdr)] = shdr
        out += self.hdr_extra
        total = len(out)
        if self.secs:
            total = max([total] + [k + len(v) for k, v in body.items()])
        if len(out) < total:
            out += b"\0" * (total - len(out))
        for k, v in sorted(body.items()):
            out[k:k + len(v)] = v
        return bytes(out) + self.overlay
