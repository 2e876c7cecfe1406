"""Generators of histories over copies and assignments (C23)."""
import copy
from pe import w4, w8
from gen.img import rb, L, fileset, load, start_image, c03_steps, rv8
from gen.res import tree, key
from gen.dirs import rword, uname
from gen.dbg import debugfile

EMPTY = {"ch": w4(0), "ts": w4(0), "maj": [0, 0], "min": [0, 0], "ents": []}


def dirs(d, p=()):
    yield list(p)
    for i, e in enumerate(d["ents"]):
        if e["k"] == "dir":
            yield from dirs(e["sub"][0], p + (i,))


def ents(d):
    return [p + [i] for p in dirs(d) for i in range(len(dat(d, p)["ents"]))]


def dat(d, p):
    for i in p:
        d = d["ents"][i]["sub"][0]
    return d


def size(d):
    return 1 + sum(1 + (size(e["sub"][0]) if e["k"] == "dir" else 0) for e in d["ents"])


def depth(d):
    return 1 + max([depth(e["sub"][0]) for e in d["ents"] if e["k"] == "dir"] or [0])


def tree_history(rng, k):
    """Random operations over three trees; only the sizes of the results are simulated here."""
    T = {0: tree(rng, 3, 3, 0), 1: tree(rng, 2, 3, 0.2), 2: copy.deepcopy(EMPTY)}
    prog = [{"op": "tree_set", "tree": t, "dir": copy.deepcopy(T[t])} for t in (0, 1)]
    if rng.random() < 0.3:
        e = rng.choice(ents(T[0]))
        x = dat(T[0], e[:-1])["ents"][e[-1]]
        x.update({"k": "none", "cp": w4(0), "data": [], "sub": []})
        prog[0]["dir"] = copy.deepcopy(T[0])
    for _ in range(k):
        f, t = rng.choice([0, 1, 2]), rng.choice([0, 1, 2])
        if rng.random() < 0.5:
            f = t
        N = copy.deepcopy(T)
        S = copy.deepcopy(T[f])
        fd, td, fe, te = list(dirs(T[f])), list(dirs(T[t])), ents(T[f]), ents(T[t])
        op = rng.choice(["tree_copy", "tree_drop", "dir_assign", "dir_assign", "ent_assign", "ent_assign", "ent_push", "ent_push", "ent_adddir", "ent_adddata", "ent_swap", "ent_key", "ent_data", "ent_del", "dir_ch", "dir_clear"])
        a = {"op": op, "from": f, "to": t}
        fp, tp = (rng.choice(fd) if rng.random() < 0.9 else []), rng.choice(td)
        if op in ("ent_assign", "ent_push", "ent_adddata", "ent_swap"):
            if not fe:
                continue
            fp = rng.choice(fe)
        if op in ("ent_assign", "ent_adddir", "ent_adddata", "ent_swap", "ent_key", "ent_data", "ent_del"):
            if not te:
                continue
            tp = rng.choice(te)
        if op == "ent_assign" and f == t and rng.random() < 0.3:
            fp = tp
        if op == "ent_swap" and f == t and (fp[:len(tp)] == tp or tp[:len(fp)] == fp):
            continue
        def ent(d, p):
            return dat(d, p[:-1])["ents"][p[-1]]
        if op == "tree_copy":
            if f == t:
                continue
            N[t] = S
        elif op == "tree_drop":
            N[t] = copy.deepcopy(EMPTY)
            a = {"op": op, "tree": t}
        elif op == "dir_assign":
            d = copy.deepcopy(dat(S, fp))
            if tp:
                ent(N[t], tp)["sub"] = [d]
            else:
                N[t] = d
        elif op == "ent_assign":
            dat(N[t], tp[:-1])["ents"][tp[-1]] = copy.deepcopy(ent(S, fp))
        elif op == "ent_push":
            dat(N[t], tp)["ents"].append(copy.deepcopy(ent(S, fp)))
        elif op == "ent_adddir":
            ent(N[t], tp).update({"k": "dir", "sub": [copy.deepcopy(dat(S, fp))], "data": [], "cp": w4(0)})
        elif op == "ent_adddata":
            y = ent(S, fp)
            if y["k"] == "data":
                ent(N[t], tp).update({"k": "data", "sub": [], "data": y["data"], "cp": y["cp"]})
        elif op == "ent_swap":
            x, y = copy.deepcopy(ent(T[t], tp)), copy.deepcopy(ent(T[f], fp))
            dat(N[t], tp[:-1])["ents"][tp[-1]] = y
            dat(N[f], fp[:-1])["ents"][fp[-1]] = x
        elif op == "ent_key":
            a.pop("from")
            if rng.random() < 0.5:
                a["n"] = uname(rng, 4, 0)
            else:
                a["id"] = rword(rng)
        elif op == "ent_data":
            a.pop("from")
            a.update({"data": L(rb(rng, rng.choice([0, 1, 40]))), "cp": rword(rng)})
        elif op == "ent_del":
            a.pop("from")
            del dat(N[t], tp[:-1])["ents"][tp[-1]]
        elif op == "dir_ch":
            a.pop("from")
            a.update({"ch": rword(rng), "ts": rword(rng)})
        elif op == "dir_clear":
            a.pop("from")
            dat(N[t], tp)["ents"] = []
        if op not in ("tree_copy", "tree_drop"):
            a["tp"] = tp
            if "from" in a:
                a["fp"] = fp
        if any(size(x) > 60 or depth(x) > 12 for x in N.values()):
            continue
        T = N
        prog.append(a)
    return prog


def img_history(rng, k):
    prog, p = start_image(rng)
    live = [0]
    for s in prog:
        s.setdefault("img", 0)
    nsec = {0: len(p.secs)}
    if rng.random() < 0.5:
        q, p2 = start_image(rng)
        prog += [dict(s, img=1) for s in q]
        live.append(1)
        nsec[1] = len(p2.secs)
    if rng.random() < 0.3:
        prog += [fileset(3, debugfile(rng, 0)), dict(load(3), img=2), {"op": "dbg_read", "img": 2}]
        live.append(2)
        nsec[2] = 1
    ed = False
    for _ in range(k):
        x = rng.random()
        if x < 0.25:
            t = rng.randrange(4)
            f = rng.choice(live)
            if t == f:
                prog.append({"op": "img_assign", "from": f, "to": t})
            else:
                prog.append({"op": "img_copy" if t not in live or rng.random() < 0.5 else "img_assign", "from": f, "to": t})
            if t not in live:
                live.append(t)
            nsec[t] = nsec[f]
        elif x < 0.35:
            i = rng.choice(live)
            prog.append({"op": "img_assign", "from": i, "to": i})
        elif x < 0.42 and len(live) > 1:
            i = rng.choice(live)
            live.remove(i)
            prog.append({"op": "img_drop", "img": i})
        elif x < 0.5:
            i = rng.choice(live)
            if nsec[i]:
                prog.append(rng.choice([{"op": "sec_copy", "img": i, "sec": rng.randrange(nsec[i]), "to": 5, "virt": rng.random() < 0.5}, {"op": "sec_assign", "img": i, "sec": rng.randrange(nsec[i]), "to": 5}]))
                ed = True
        elif x < 0.6:
            i = rng.choice(live)
            prog.append({"op": "setf", "img": i, "f": rng.choice(["ts", "ep", "nrva"]), "v": w8(rng.randrange(17))})
        elif x < 0.75:
            i = rng.choice(live)
            st, n = c03_steps(rng, p, nsec[i], 1)
            if n is None:
                continue
            prog += [dict(s, img=i) for s in st]
            nsec[i] = n
        elif ed and x < 0.8:
            prog += [rng.choice([{"op": "sec_resize", "det": 5, "n": rng.randrange(50), "fill": 7}, {"op": "sec_edit", "det": 5, "off": 0, "b": [1, 2]}, {"op": "det_st", "det": 5}])]
        else:
            i = rng.choice(live)
            prog.append({"op": "rebuild", "img": i, "file": 9, "bound": False} if rng.random() < 0.3 else {"op": "st", "img": i})
    return prog + [{"op": "st", "img": i} for i in live] + ([{"op": "det_st", "det": 5}] if ed else [])


def record(rng):
    """A debug record of any kind, as the driver describes it."""
    k = rng.choice(["pdb7", "pdb2", "misca", "miscw", "coff", "cv", "none"])
    txt = lambda: [rng.randrange(1, 256) for _ in range(rng.choice([0, 1, 15, 16, 40]))]
    h = [rword(rng), rword(rng), w4(rng.choice([0, 1, 0xffff, rng.randrange(65536)])), w4(rng.choice([0, 1, 0xffff])), w4(rng.choice([0, 1, 2, 3, 4, 9, 11, 12, 0xffffffff, 0x80000001])), rword(rng), rword(rng), rword(rng)]
    t = int.from_bytes(bytes(h[4]), "little")
    info, adv = {}, 0
    if k == "pdb7":
        adv, info = 1, {"guid": L(rb(rng, 16)), "age": rword(rng), "s": txt()}
    elif k == "pdb2":
        adv, info = 2, {"sig": rword(rng), "age": rword(rng), "s": txt()}
    elif k in ("misca", "miscw"):
        d = rng.choice([w4(1), w4(0), rword(rng)])
        adv, info = 3, {"dt": d, "exe": d == w4(1), "uni": k == "miscw", "s": txt()}
        if k == "miscw":
            info["s"] = [rng.choice([1, 65, 0x4e00, 0xd7ff, 0xe000, 0xffff]) for _ in info["s"]]
    elif k == "coff":
        syms = []
        for _ in range(rng.choice([0, 1, 3])):
            y = {"i": rng.randrange(1000), "cls": rng.choice([2, 3, 103]), "type": rng.randrange(65536), "file": rng.random() < 0.3}
            if not y["file"]:
                y.update({"sec": rng.randrange(65536), "rva": rword(rng)})
            y["s"] = txt()
            syms.append(y)
        adv, info = 4, {"h": [rword(rng) for _ in range(8)], "syms": syms}
    elif k == "cv":
        adv = rng.choice([5, 6, 7])
    return {"h": h, "ty": t if t <= 11 else 0, "adv": adv, "info": info, "only": True}


def record_history(rng, k):
    n = {0: 0, 1: 0, 2: 0}
    prog = []
    for _ in range(rng.choice([1, 2, 4])):
        to = rng.choice([0, 0, 1])
        prog.append({"op": "dbg_make", "to": to, "rec": record(rng)})
        n[to] += 1
    for _ in range(k):
        a, b = rng.randrange(3), rng.randrange(3)
        if not n[a] and rng.random() < 0.9:
            a = 0
        x = rng.random()
        i, j = rng.randrange(n[b] + (rng.random() < 0.1) or 1), rng.randrange(n[a] + (rng.random() < 0.1) or 1)
        if x < 0.35:
            prog.append({"op": "dbg_assign", "from": a, "to": b, "i": i, "j": j})
        elif x < 0.5:
            prog.append({"op": "dbg_set", "to": b, "i": i, "rec": record(rng)})
        elif x < 0.6:
            if a == b and i == j:
                continue
            prog.append({"op": "dbg_swap", "from": a, "to": b, "i": i, "j": j})
        elif x < 0.7:
            if n[b] > 6:
                continue
            prog.append({"op": "dbg_push", "from": a, "to": b, "j": j})
            n[b] += j < n[a]
        elif x < 0.78:
            prog.append({"op": "dbg_del", "to": b, "i": i})
            n[b] -= i < n[b]
        elif x < 0.9:
            prog.append({"op": rng.choice(["dbg_copy", "dbg_move"]), "from": a, "to": b})
            n[b] = n[a]
        elif x < 0.93:
            prog.append({"op": "dbg_drop", "from": a})
            n[a] = 0
        else:
            prog.append({"op": "dbg_make", "to": b, "rec": record(rng)})
            n[b] += 1
        if rng.random() < 0.2:
            prog.append({"op": "dbg_list", "from": rng.randrange(3)})
    return prog + [{"op": "dbg_list", "from": q} for q in (0, 1, 2)]


def dbg_images(rng):
    """Images with and without raw debug data, assigned to one another."""
    kinds = [rng.random() < 0.6 for _ in range(3)]
    prog = []
    for i, d in enumerate(kinds):
        prog += [fileset(i, debugfile(rng, 0))] + [dict(load(i), img=i, dbg=d)]
    live = {0, 1, 2}
    for _ in range(rng.choice([2, 4, 8])):
        f, t = rng.choice(sorted(live)), rng.randrange(4)
        x = rng.random()
        if x < 0.2 and f != t:
            prog.append({"op": "img_copy", "from": f, "to": t})
            live.add(t)
        elif x < 0.25 and len(live) > 1:
            prog.append({"op": "img_drop", "img": f})
            live.discard(f)
            continue
        elif t in live:
            prog.append({"op": "img_assign", "from": f, "to": t})
        else:
            continue
        prog += [{"op": "dbg_read", "img": t}] if rng.random() < 0.7 else [{"op": "st", "img": t}]
    return prog + [{"op": "st", "img": i} for i in sorted(live)] + [{"op": "dbg_read", "img": i} for i in sorted(live)]


def c23(rng, tier):
    k = 1 if tier == "quick" else 10
    for i in range(100 * k):
        yield {"id": "records-%d" % i, "prog": record_history(rng, rng.choice([3, 6, 12]))}
    for i in range(40 * k):
        yield {"id": "debug-images-%d" % i, "prog": dbg_images(rng)}
    for i in range(220 * k):
        yield {"id": "tree-%d" % i, "prog": tree_history(rng, rng.choice([2, 4, 8, 12]))}
    for i in range(150 * k):
        yield {"id": "image-%d" % i, "prog": img_history(rng, rng.choice([4, 8, 14]))}
    for i in range(50 * k):
        prog = []
        for j in (1, 2):
            prog += [fileset(j, debugfile(rng, 0.2)), load(j), {"op": "dbg_read", "keep": j}]
        for _ in range(rng.randrange(2, 10)):
            a, b = rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
            prog.append(rng.choice([{"op": "dbg_assign", "from": a, "to": b, "i": rng.randrange(3), "j": rng.randrange(3)}] * 4 + [{"op": "dbg_assign", "from": a, "to": a, "i": 0, "j": 0}, {"op": "dbg_copy", "from": a, "to": b}, {"op": "dbg_drop", "from": a}]))
        yield {"id": "debug-%d" % i, "prog": prog + [{"op": "dbg_list", "from": q} for q in (1, 2, 3)]}


def replay(beh, rng, tier):
    n = 400 if tier == "quick" else 6000
    for i, b in enumerate(beh if len(beh) <= n else rng.sample(beh, n)):
        yield {"id": "model-%d" % i, "prog": [{"op": "tree_set", "tree": t, "dir": b["t%d" % t]} for t in (0, 1)] + b["calls"]}


def replay_records(beh, rng, tier):
    n = 2000 if tier == "quick" else 12000
    for i, b in enumerate(beh if len(beh) <= n else rng.sample(beh, n)):
        yield {"id": "records-model-%d" % i, "prog": b["calls"] + [{"op": "dbg_list", "from": q} for q in (0, 1)]}
