#!/usr/bin/env python3
"""Runs the checks of one property: model checking of the specification, then conformance of the code to it.

usage: check.py PROPERTY [--tier quick|thorough] [--seed N] [--keep] [--only ID-SUBSTRING]
"""
import argparse, importlib, json, os, random, re, shutil, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.path.join(VERIF, "lib"))
from lib import build as B

SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NJOBS = 8


class Infra(Exception):
    pass


def tlc(module, cfg, workdir, env=None, workers=2, mem="2g", timeout=800, extra=()):
    md = os.path.join(workdir, "md-" + os.path.basename(cfg) + "-%d" % random.SystemRandom().randrange(10 ** 9))
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss512m", "-Xmx" + mem, "-Djava.io.tmpdir=" + workdir, "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", md,
           "-noGenerateSpecTE", "-nowarning", "-config", cfg] + list(extra) + [module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return p.returncode, p.stdout + p.stderr


def stats(out):
    out = out[-20000:]
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def run_driver(exe, cases, work, tag):
    inp, outp, err = [os.path.join(work, "%s.%s" % (tag, x)) for x in ("cases", "trace", "err")]
    with open(inp, "w") as f:
        for c in cases:
            f.write(json.dumps(c, separators=(",", ":")) + "\n")
    p = subprocess.run([exe, inp, outp, err], capture_output=True, text=True)
    if p.returncode:
        raise Infra("driver failed: " + p.stderr[-2000:])
    return outp, err


MIS = re.compile(r'<<\s*"MISMATCH",\s*"([^"]*)",\s*(\d+),\s*"([^"]*)",(.*?)>>\s*(?=<<\s*"|\n[A-Z@][a-z0-9!]|\Z)', re.S)
ACC = re.compile(r'<<\s*"ACCEPTED",\s*"([^"]*)"\s*>>')


def validate(trace, ids, work, tag, workers=2, mem="3g"):
    """Returns (accepted ids, {id: message}, states generated, distinct)."""
    acc, mis, gen, dis = set(), {}, 0, 0
    pending = list(ids)
    cur = trace
    for attempt in range(6):
        rc, out = tlc("Trace.tla", "Trace.cfg", work, {"TRACE": cur}, workers=workers, mem=mem)
        for m in ACC.finditer(out):
            acc.add(m.group(1))
        for m in MIS.finditer(out):
            mis[m.group(1)] = "event %s (%s): %s" % (m.group(2), m.group(3), re.sub(r"\s+", " ", m.group(4)).strip()[:1500])
        g, d = stats(out)
        gen += g
        dis += d
        left = [i for i in pending if i not in acc and i not in mis]
        if not left:
            return acc, mis, gen, dis
        # the specification is undefined on a recorded outcome (or TLC failed): find the history
        lines = [x for x in open(cur)]
        m = re.search(r"^/\\ c = (\d+)", out, re.M)
        if not m or "Java heap" in out or "OutOfMemory" in out:
            raise Infra("TLC did not finish: " + out[-3000:])
        cs = re.findall(r"^/\\ c = (\d+)", out, re.M)
        bad = json.loads(lines[int(cs[-1]) - 1])["id"]
        em = re.search(r"Error: (.*?)(?=Error: The behavior|\Z)", out, re.S)
        mis[bad] = "recorded outcome outside the specification's domain: " + re.sub(r"\s+", " ", em.group(1) if em else out[-500:])[:1500]
        cur = os.path.join(work, "%s.retry%d" % (tag, attempt))
        left = set(left) - {bad}
        if not left:
            return acc, mis, gen, dis
        with open(cur, "w") as f:
            for x in lines:
                if json.loads(x)["id"] in left:
                    f.write(x)
    raise Infra("too many histories outside the specification's domain: %s" % list(mis.items())[:5]) if not mis else _TooMany(acc, mis, gen, dis)


class _TooMany(Exception):
    def __init__(self, acc, mis, gen, dis):
        self.r = (acc, mis, gen, dis)


def conform(exe, cases, work, jobs=NJOBS):
    cases = list(cases)
    ids = [c["id"] for c in cases]
    if len(set(ids)) != len(ids):
        raise Infra("duplicate case ids")
    n = max(1, min(jobs, (len(cases) + 19) // 20))
    # balance by program size
    order = sorted(range(len(cases)), key=lambda i: -len(json.dumps(cases[i])))
    shards = [[] for _ in range(n)]
    for k, i in enumerate(order):
        shards[k % n].append(cases[i])

    def one(k):
        tr, err = run_driver(exe, shards[k], work, "s%d" % k)
        try:
            return validate(tr, [c["id"] for c in shards[k]], work, "s%d" % k) + (tr, err)
        except _TooMany as e:
            return e.r + (tr, err)
    acc, mis, gen, dis, traces = set(), {}, 0, 0, []
    with ThreadPoolExecutor(n) as ex:
        for a, m, g, d, tr, err in ex.map(one, range(n)):
            acc |= a
            mis.update(m)
            gen += g
            dis += d
            traces.append((tr, err))
    return acc, mis, gen, dis, traces


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--only", default=None)
    ap.add_argument("--nomodels", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    mod = importlib.import_module("gen." + prop)
    work = os.path.join(VERIF, "build", "run", "%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    code = 1
    try:
        code = run(a, prop, mod, work, t0)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    return code


def run_model(m, tier, work):
    """m: dict(module, cfg, workers, min_states); returns (generated, distinct, printed lines)."""
    rc, out = tlc(m["module"], m["cfg"], work, m.get("env"), workers=m.get("workers", 2), mem=m.get("mem", "4g"), extra=m.get("extra", ()), timeout=m.get("timeout", 800))
    if rc != 0:
        raise Infra("model %s/%s failed:\n%s" % (m["module"], m["cfg"], out[-4000:]))
    g, d = stats(out)
    if d < m.get("min_states", 1):
        raise Infra("model %s/%s explored only %d states" % (m["module"], m["cfg"], d))
    # workers report in any order
    seen = {json.dumps(json.loads(json.loads(x.group(1))), sort_keys=True) for x in re.finditer(r'^<<"BEH", (".*")>>$', out, re.M)}
    return g, d, [json.loads(s) for s in sorted(seen)]


def run(a, prop, mod, work, t0):
    exe = B.build_driver()
    rng = random.Random("%s/%d" % (prop, a.seed))
    models = [] if a.nomodels else [m for m in getattr(mod, "MODELS", []) if a.tier == "thorough" or not m.get("thorough")]
    with ThreadPoolExecutor(3) as ex:
        futs = [ex.submit(run_model, m, a.tier, work) for m in models]
        cases = list(mod.cases(rng, a.tier))
        mgen = mdis = 0
        nbeh = 0
        mstat = []
        # behaviours of the models become histories to replay on the code
        gens = [(m, f) for m, f in zip(models, futs)]
        for m, f in gens:
            if m.get("replay"):
                g, d, beh = f.result()
                if not beh:
                    raise Infra("model %s produced no behaviours" % m["cfg"])
                conv = getattr(mod, m["replay"])
                bc = list(conv(beh, random.Random("%s/%s/%d" % (prop, m["cfg"], a.seed)), a.tier))
                nbeh += len(bc)
                cases += bc
        if a.only:
            cases = [c for c in cases if a.only in c["id"]]
        acc, mis, gen, dis, traces = conform(exe, cases, work)
        for m, f in gens:
            g, d, beh = f.result()
            mgen += g
            mdis += d
            mstat.append({"model": m["cfg"], "states_generated": g, "distinct_states": d})
    byid = {c["id"]: c for c in cases}
    kfs = [k for k in known_findings() if k.get("property") == prop and k.get("status") == "open"]
    known, viol = {}, {}
    if mis:
        # confirm every rejection by running the history again
        again = conform(exe, [byid[i] for i in sorted(mis)[:60]], os.path.join(work, "again") if os.makedirs(os.path.join(work, "again"), exist_ok=True) is None else work)
        for i in sorted(mis)[:60]:
            if i not in again[1]:
                if "timeout" in mis[i]:
                    acc.add(i)      # a slow machine, not a hanging call
                    continue
                mis[i] += " (not in every run)"
            hit = [k for k in kfs if re.search(k["case"], i) and re.search(k["match"], mis[i])]
            if hit:
                known.setdefault(hit[0]["what"], []).append(i)
            else:
                viol[i] = mis[i]
    for k in kfs:
        if k["what"] in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    nev = sum(len(c["prog"]) for c in cases)
    opc = {}
    for c in cases:
        for s in c["prog"]:
            opc[s["op"]] = opc.get(s["op"], 0) + 1
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "model_checking", "wall_s": round(time.time() - t0, 1),
        "coverage": {"states": max(1, mdis + dis), "transitions": max(1, mgen + gen), "traces_validated_against_impl": len(acc) + len(known), "samples": [
            {"history": c["id"], "calls": [s["op"] for s in c["prog"]][:40]} for c in (cases[:3] + cases[-2:])],
            "models": mstat, "model_behaviours_replayed": nbeh, "histories": len(cases), "calls_checked": nev, "calls_by_operation": opc,
            "rejected": len(viol), "known_findings": len(known)},
        "violations": [{"history": i, "disagreement": viol[i][:600]} for i in sorted(viol)[:20]],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d histories (%d calls, %d from model behaviours), models %s, %d rejected, %.1f s" % (
        prop, len(cases), nev, nbeh, ", ".join("%s:%d" % (m["model"], m["distinct_states"]) for m in mstat) or "none", len(viol), time.time() - t0))
    if viol:
        rd = os.path.join(VERIF, "build", "replay")
        os.makedirs(rd, exist_ok=True)
        for n, i in enumerate(sorted(viol)):
            path = os.path.join(rd, "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]", "_", i)))
            with open(path, "w") as f:
                json.dump({"property": prop, "disagreement": viol[i], "case": byid[i]}, f)
            if n < 12:
                print("  %s: %s" % (i, viol[i][:700]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            if n >= 20:
                break
        return 1
    if len(acc) + sum(len(v) for v in known.values()) != len(cases):
        raise Infra("%d of %d histories were not decided" % (len(cases) - len(acc), len(cases)))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except B.BuildError as e:
        sys.stderr.write("build error: %s\n" % e)
        sys.exit(3)
    except Infra as e:
        sys.stderr.write("check error: %s\n" % e)
        sys.exit(4)
    except Exception:
        traceback.print_exc()
        sys.exit(5)
