"""Generators of histories of rebuilds and edits, many of them refused, on one image (C24)."""
from pe import w4, w8, au
from gen.img import rb, L, fileset, load, c03_steps, rv8
from gen.dirs import host, exp_funcs, exp_info, imp_libs, imp_opts, place_tables, rel_tables, rebase_tables, new_base, tls_info, cfg_info, bound_mods, Space, build_imports
from gen.res import tree, spoil


def rebuild(rng, p, tgt, off):
    """One directory rebuild (a list of calls)."""
    k = rng.randrange(8)
    o = {"off": off, "save": rng.random() < 0.8, "strip": rng.random() < 0.6}
    o.update(tgt)
    if k == 0:
        f = exp_funcs(rng, p)
        return [dict({"op": "exp_rebuild", "info": exp_info(rng), "funcs": f}, **o)]
    if k == 1:
        io = imp_opts(rng)
        libs = imp_libs(rng, p.fmt, io["build"] or rng.random() < 0.3)
        if rng.random() < 0.5:
            place_tables(rng, p, tgt, libs)
        return [dict(dict({"op": "imp_rebuild", "libs": libs}, **o), **io)]
    if k == 2:
        return [dict({"op": "rel_rebuild", "tables": rel_tables(rng, p)}, **o)]
    if k == 3:
        return [dict({"op": "tls_rebuild", "tls": tls_info(rng, p), "wcb": rng.random() < 0.7, "wdata": rng.random() < 0.7, "expand": rng.choice(["raw", "virtual"])}, **o)]
    if k == 4:
        return [dict({"op": "cfg_rebuild", "cfg": cfg_info(rng, p), "wse": rng.random() < 0.7, "wlp": rng.random() < 0.7}, **o)]
    if k == 5:
        return [dict({"op": "bound_rebuild", "mods": bound_mods(rng)}, **o)]
    if k == 6:
        t = tree(rng, rng.choice([1, 2, 3]), 3)
        if rng.random() < 0.2:
            spoil(rng, t)
        return [{"op": "tree_set", "dir": t}, dict({"op": "res_rebuild"}, **o)]
    return [{"op": "rebase", "tables": rebase_tables(rng, p, rng.random() < 0.7), "base": new_base(rng, p.fmt)}]


def refused_edit(rng, p, n):
    """Calls that are refused, or nearly so."""
    x = rng.randrange(9)
    s = rng.randrange(n)
    if x == 0:
        return [{"op": rng.choice(["setfa", "realign_file"]), "fa": rng.choice([0, 1, 100, 256, 511, 513, 768, 1023, p.sa * 2, 0x10000])}]
    if x == 1:
        return [{"op": "setvs", "sec": s, "vs": rng.choice([0, 1, p.sa, 3 * p.sa])}]
    if x == 2:
        return [{"op": "expand", "sec": s, "rva": 0, "rel": rng.choice([0, 1, p.sa, -1]), "size": rng.choice([0, 1, p.sa, 2 * p.sa]), "kind": rng.choice(["raw", "virtual"])}]
    if x == 3:
        return [{"op": "addsec", "raw": [], "vs": 0, "name": [65]}]
    if x == 4:
        return [{"op": rng.choice(["dir_setrva", "dir_setsize"]), "id": rng.choice([15, 16, 17, 255]), "v": rv8(rng)}]
    if x == 5:
        return [{"op": "realign_sec", "idx": rng.choice([0, n - 1, n, n + 5])}]
    if x == 6:
        st = [{"op": "stub_set", "b": L(rb(rng, rng.choice([0, 3, 60, 400, 900])))}] if rng.random() < 0.7 else []
        return st + [{"op": "rebuild", "strip": rng.random() < 0.2, "soh": rng.random() < 0.9, "bound": rng.random() < 0.8, "file": 5}]
    if x == 7:
        return [{"op": "recalc", "sec": s, "strip": rng.random() < 0.5}]
    return [{"op": "prepare", "sec": s}]


def c24(rng, tier):
    q = tier == "quick"
    for i in range(200 if q else 2500):
        prog, p, tgt, off = host(rng)
        n = len(p.secs)
        if rng.random() < 0.3:
            prog.append({"op": "det_new", "det": 0, "raw": L(rb(rng, 40)), "vs": 100, "name": [65], "va": rng.choice([0, p.secs[0].va])})
            det = True
        else:
            det = "det" in tgt
        for _ in range(rng.choice([3, 5, 8])):
            x = rng.random()
            if x < 0.6:
                t = rng.randrange(n)
                tg = {"sec": t} if not det or rng.random() < 0.8 else {"det": 0}
                o = rng.choice([0, 1, 4, 17, len(p.secs[t].data), max(0, len(p.secs[t].data) - 12), au(len(p.secs[t].data), p.fa), rng.randrange(300)])
                prog += rebuild(rng, p, tg, o)
            else:
                prog += refused_edit(rng, p, n)
                prog.append({"op": "st"})
            if det:
                prog.append({"op": "det_st", "det": 0})
        yield {"id": "mixed-%d" % i, "prog": prog + [{"op": "st"}] + ([{"op": "rebuild", "bound": False, "file": 7}, {"op": "load", "file": 7, "img": 7, "opt": True}] if rng.random() < 0.5 else [])}
    for i in range(40 if q else 500):
        # sizes around the room that there is
        prog, p, tgt, off = host(rng, align=(64, 64))
        t = rng.randrange(max(1, len(p.secs) - 1))
        room = au(len(p.secs[t].data), p.fa)
        for d in (0, 1, 2, 4, 8, 20):
            o = max(0, room - rng.choice([8, 12, 16, 24, 40, 60, 100]) + d)
            prog += rebuild(rng, p, {"sec": t}, o)
        yield {"id": "tight-%d" % i, "prog": prog + [{"op": "st"}]}
    # the limit of 96 sections, with a section that is already there refused too
    for i in range(2 if q else 6):
        prog = [{"op": "new", "fmt": [32, 64][i % 2], "sa": 16}, {"op": "setfa_raw", "fa": 16}, {"op": "setf", "f": "soh", "v": w8(4400)}, {"op": "upd_size"}]
        prog += [{"op": "addsec", "raw": [k + 1], "vs": 0, "name": [65]} for k in range(96)] + [{"op": "st"}, {"op": "addsec", "raw": [1], "vs": 0}, {"op": "st"}]
        yield {"id": "limit-%d" % i, "prog": prog}


def refuse_replay(beh, rng, tier):
    """Histories for behaviours of MC_Refuse: the image after every call, and the detached section at the end."""
    n = 400 if tier == "quick" else 4000
    for i, b in enumerate(beh if len(beh) <= n else rng.sample(beh, n)):
        prog = []
        for c in b["calls"]:
            prog.append(c)
            if c["op"] not in ("new", "setfa_raw", "setf", "upd_size", "addsec", "det_new"):
                prog.append({"op": "st"})
        yield {"id": "refuse-model-%d-%d" % (len(beh), i), "prog": prog + [{"op": "st"}, {"op": "det_st", "det": 0}]}
