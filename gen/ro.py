"""Generators of histories of reading calls on one image, its files and its resource tree (C22)."""
import json
import struct
from pe import w4, w8
from gen.img import rb, L, fileset, load, mutate, rich_stub, addrs, offsets, rand_pe
from gen.dirs import Space, build_exports, build_imports, build_relocs, build_tls, build_cfg, build_bound
from gen.res import build_res, Keys, looks, tree
from gen.dbg import debugfile, build_exc, build_net
from gen.icons import gets
from gen.ver import reads, block
from gen.tab import strtab, msgtab, bmp

BUILD = [build_exports, build_imports, build_relocs, build_tls, build_cfg, build_bound, build_res, build_exc, build_net]
DIRS = [{"op": "exp_read"}, {"op": "exp_read", "info_wanted": False}, {"op": "imp_read"}, {"op": "rel_read"}, {"op": "rel_read", "abs": True}, {"op": "tls_read"}, {"op": "cfg_read"}, {"op": "bound_read"},
        {"op": "exc_read"}, {"op": "net_read"}, {"op": "res_read"}, {"op": "rich"}, {"op": "dir_has"}, {"op": "getf"}, {"op": "stub_get"}, {"op": "dbg_read"}]


def image(rng):
    if rng.random() < 0.15:
        return debugfile(rng, rng.choice([0, 0.5])), 1, None
    while True:
        s = Space(rng, nsec=3, hdr_extra=rng.choice([0, 100]), vsz=None)
        s.p.stub = rich_stub(rng)
        s.hdr0 = 64 + (len(s.p.stub) + 3) // 4 * 4 + s.p.ntsize() + 40 * s.n
        s.va0 = -(-(-(-(s.hdr0 + s.hx) // s.fa) * s.fa) // s.sa) * s.sa
        try:
            for b in rng.sample(BUILD, rng.choice([2, 4, 6, 9])):
                b(rng, s)
        except OverflowError:
            continue
        break
    if rng.random() < 0.4:
        s.corrupt(rng.choice([1, 3, 8]))
    p = s.pe()
    return p.to_bytes(), s.n, p


def streams(rng, slot, data, bad):
    """Calls on a stream; file slot+1 is damaged."""
    f = slot + 1 if rng.random() < 0.5 else slot
    ln = len(bad if f == slot + 1 else data)
    x = rng.random()
    a = {"mask": rng.randrange(8), "pos": 0 if rng.random() < 0.7 else min(ln, rng.choice([1, 2, ln, max(0, ln - 3), rng.randrange(ln + 1)]))}
    if x < 0.5:
        return dict(load(f), img=5, how=rng.choice(["factory", "factory", "32", "64", "type", "type"]), mem=rng.random() < 0.1, **a)
    if x < 0.75:
        return dict({"op": "checksum", "file": f}, **a)
    d = L(rb(rng, rng.choice([0, 1, 16, 200])))
    return {"op": "entropy", "k": "stream", "data": d, "mask": a["mask"], "pos": rng.choice([0, 0, len(d) // 2, len(d)])}


def reading(rng, p, n, data):
    x = rng.random()
    if x < 0.5:
        return dict(rng.choice(DIRS))
    s = rng.randrange(n)
    if x < 0.6:
        return rng.choice([{"op": "sec_virt", "sec": s, "const": rng.random() < 0.5}, {"op": "sec_virt", "sec": s}, {"op": "sec_rawget", "sec": s, "const": rng.random() < 0.5}, {"op": "sec_empty", "sec": s},
                           {"op": "sec_getters", "sec": s}, {"op": "sec_copy", "sec": s, "to": 3, "virt": True}, {"op": "entropy", "k": "sec", "sec": s}, {"op": "entropy", "k": "img"}, {"op": "img_copy", "from": 0, "to": 4}])
    if p is None:
        return {"op": "getf"}
    a = addrs(rng, p, 1)[0]
    v = w8(p.base + a) if rng.random() < 0.3 else w8(a)
    via = "rva" if v == w8(a) else rng.choice(["va32", "va64"])
    if x < 0.75:
        e = {"via": via, "v": v, "view": rng.choice(["raw", "virt", "virt"])}
        if rng.random() < 0.4:
            e["sec"] = s
        else:
            e["hdrs"] = rng.random() < 0.5
        return dict(e, **rng.choice([{"op": "rd", "n": rng.choice([1, 4, 8])}, {"op": "len"}, {"op": "ptr", "cnt": 4}]))
    k = rng.choice(["va2rva32", "va2rva64", "rva2va32", "rva2va64", "rva2off", "sec_rva", "sec_va32", "sec_and_off", "off2rva", "sec_off", "sec_dir"])
    if k == "sec_dir":
        v = w8(rng.randrange(17))
    elif k in ("off2rva", "sec_off"):
        v = w8(rng.choice([0, 5, len(data), rng.randrange(len(data))]))
    elif "va2" in k and not k.startswith("rva") or k.startswith("sec_va"):
        v = w8(p.base + a)
    else:
        v = w8(a)
    return {"op": "conv", "k": k, "v": v}


def twice(rng, calls, every=()):
    """Calls in random order, most of them more than once: a repetition must have the very same outcome."""
    out = []
    last = {}
    for q in calls:
        out.append(q)
        last[len(out) - 1] = q
        while last and rng.random() < 0.45:
            i = rng.choice(list(last))
            out.append(dict(last[i], again=len(out) - i))
    return out


def c22(rng, tier):
    q = tier == "quick"
    for i in range(130 if q else 2000):
        data, n, p = image(rng)
        bad = mutate(rng, p, data) if p is not None else data[:rng.randrange(len(data))]
        prog = [fileset(0, data), fileset(1, bytes(bad)), load(0)]
        calls = []
        for _ in range(rng.choice([6, 12, 20])):
            calls.append(streams(rng, 0, data, bad) if rng.random() < 0.2 else reading(rng, p, n, data))
        mid = twice(rng, calls)
        if rng.random() < 0.6:
            # what a rebuild writes does not depend on what was read before
            prog += [{"op": "img_copy", "from": 0, "to": 1}, {"op": "rebuild", "img": 1, "file": 8, "bound": True}]
            pos = len(prog) - 1
            prog += mid + [{"op": "st"}]
            prog.append({"op": "rebuild", "img": 0, "file": 8, "bound": True, "again": len(prog) - pos})
        else:
            prog += mid + [{"op": "st"}]
        yield {"id": "image-%d" % i, "prog": prog + [{"op": "st"}, {"op": "file_get", "file": 0}]}
    for i in range(90 if q else 1000):
        # viewers of a resource tree
        K = Keys(rng)
        prog = []
        if rng.random() < 0.3:
            prog.append({"op": "tree_set", "dir": tree(rng, 3, 4)})
        for t, f in ((6, strtab), (11, msgtab), (16, block)):
            if rng.random() < 0.6:
                prog.append({"op": "rm_add", "t": t, "id": w4(1), "lang": w4(rng.randrange(2)), "data": f(rng)})
        if rng.random() < 0.6:
            prog.append({"op": "bmp_add", "id": w4(1), "lang": w4(0), "file": bmp(rng)})
        for k, t in (("icon", 3), ("cursor", 1)):
            if rng.random() < 0.6:
                from gen.icons import pic_file
                prog.append({"op": "ico_add", "kind": k, "lang": w4(0), "mode": "free", "id": w4(1), "file": pic_file(rng, k)})
        calls = looks(rng, K, 4) + gets(rng, ["icon", "cursor"], [{"id": w4(1)}, {"id": w4(2)}], [w4(0), w4(1)], 4) + reads(rng, [w4(0), w4(1)], 2) + [
            {"op": "str_table", "id": w4(1), "lang": w4(0)}, {"op": "str_get", "sid": rng.randrange(16), "index": 0}, {"op": "msg_table", "id": w4(1), "index": rng.randrange(2)}, {"op": "bmp_get", "id": w4(1), "index": 0}, {"op": "tree_get"}]
        rng.shuffle(calls)
        yield {"id": "tree-%d" % i, "prog": prog + twice(rng, calls) + [{"op": "tree_get"}]}
    for i in range(50 if q else 600):
        p = rand_pe(rng, tidy=rng.random() < 0.6)
        d = p.to_bytes()
        bad = bytes(mutate(rng, p, d))
        prog = [fileset(0, d), fileset(1, bad)]
        yield {"id": "stream-%d" % i, "prog": prog + twice(rng, [streams(rng, 0, d, bad) for _ in range(8)])}


def stream_replay(beh, rng, tier):
    """Histories for behaviours of MC_Stream: the calls on one damaged file, each twice, and the file once more."""
    whole = bytes(next(b["file"] for b in beh if b["file"]))
    by = {}
    for b in beh:
        by.setdefault((b["n"], json.dumps(b["bad"])), []).append(b)
    keys = sorted(by)
    most = 260 if tier == "quick" else 1500
    keys = keys if len(keys) <= most else rng.sample(keys, most)
    for k in keys:
        n, (off, w) = k[0], json.loads(k[1])
        d = bytearray(whole)
        d[off:off + len(w)] = bytes(w)
        d = bytes(d if n < 0 else d[:n])
        bs = by[k]
        bs = bs if len(bs) <= 24 else rng.sample(bs, 24)
        prog = [fileset(0, d)]
        for b in bs:
            a = {"mask": b["mask"], "pos": b["pos"]}
            if b["op"] == "entropy":
                q = dict({"op": "entropy", "k": "stream", "data": L(d)}, **a)
            elif b["op"] == "checksum":
                q = dict({"op": "checksum", "file": 0}, **a)
            else:
                q = dict(load(0), img=5, how=b["op"], **a)
            prog += [q, dict(q, again=1)]
        yield {"id": "stream-model-%d-%d-%d" % (len(beh), keys.index(k), n), "prog": prog + [{"op": "file_get", "file": 0}]}


def views_replay(beh, rng, tier):
    """Histories for behaviours of MC_Views: a section set up, the calls, what the image and the copy are then, and its file."""
    n = 700 if tier == "quick" else 6000
    for i, b in enumerate(beh if len(beh) <= n else rng.sample(beh, n)):
        copied = any(c["op"] == "sec_copy" for c in b["calls"])
        prog = [{"op": "new", "fmt": [32, 64][i % 2], "sa": 16}, {"op": "setfa_raw", "fa": 16}, {"op": "setf", "f": "soh", "v": w8(4096)},
                {"op": "addsec", "raw": [1], "vs": 32, "name": [65]}, {"op": "addsec", "raw": [7, 8], "vs": 0, "name": [66]},
                {"op": "sec_setters", "sec": 0, "va": 4096, "vs": b["vs"], "rs": len(b["raw"])}, {"op": "sec_setraw", "sec": 0, "raw": b["raw"]}]
        prog += b["calls"] + [{"op": "st"}] + ([{"op": "det_st", "det": 3}] if copied else [])
        if i % 3 == 0:
            prog += [{"op": "sec_virt", "sec": 0}, {"op": "img_copy", "from": 0, "to": 1}, {"op": "rebuild", "img": 1, "file": 8}, {"op": "st"}]
        yield {"id": "views-model-%d-%d" % (len(beh), i), "prog": prog}
