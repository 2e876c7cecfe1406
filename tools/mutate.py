#!/usr/bin/env python3
"""Mutation campaign: how much of the library's code do the checks decide?

usage: mutate.py FILE-SUBSTRING [--max N] [--seed N] [--out FILE]

Every mutant (an operator, constant, condition or statement changed) is compiled into the driver in a scratch
directory and run on the histories of all checks.  A mutant whose recorded traces are the same everywhere is
not covered by the histories ("same"); one whose traces differ is handed to the trace specification, which
rejects it ("killed") or not ("accepted").  Survivors are for reading: equivalent, irrelevant, or a gap.
"""
import argparse, hashlib, importlib, json, os, pickle, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/lib"]
from lib import build as B
import check as C
W = "/tmp/mut"
FIRST = {"pe_exports": "C08", "pe_imports": "C09", "pe_relocations": "C10 C11", "pe_tls": "C12", "pe_load_config": "C13", "pe_bound": "C14", "pe_resources": "C15", "pe_resource_viewer": "C16 C15", "pe_resource_manager": "C16",
         "cursor_icon": "C17", "version": "C18", "string_table": "C19", "message": "C19", "bitmap": "C19", "pe_debug": "C20 C23", "pe_exception_d": "C20", "pe_dotnet": "C20", "checksum": "C21", "entropy": "C26", "rich": "C25",
         "rebuilder": "C02 C01 C24 C25", "pe_section": "C03 C05 C06", "pe_directory": "C03", "pe_base": "C01 C02 C03 C04 C05 C06 C07 C22 C23 C24 C21", "properties": "C02 C05 C07 C01", "factory": "C04", "utils": "C18 C15 C01", "resource_data": "C16"}
ALL = ["C%02d" % i for i in range(1, 27)]


def cases(p):
    f = W + "/cases-%s" % p
    if not os.path.exists(f):
        m = importlib.import_module("gen." + p)
        c = list(m.cases(random.Random(p + "/1"), "quick"))
        with open(f + ".tmp", "w") as o:
            for x in c:
                o.write(json.dumps(x, separators=(",", ":")) + "\n")
        os.rename(f + ".tmp", f)
    return f


def base(p, exe):
    f = W + "/base-%s" % p
    if not os.path.exists(f):
        r = subprocess.run([exe, cases(p), f + ".tmp", f + ".err"], capture_output=True)
        assert r.returncode == 0, r
        r = subprocess.run([exe, cases(p), f + ".tmp2", f + ".err"], capture_output=True)
        a, b = open(f + ".tmp").readlines(), open(f + ".tmp2").readlines()
        with open(f + ".unstable", "w") as o:
            json.dump([i for i in range(len(a)) if a[i] != b[i]], o)
        os.rename(f + ".tmp", f)
    return f


def mutants(text):
    """(line number, description, new line)"""
    L = text.split("\n")
    dep = False
    for n, l in enumerate(L):
        s = l.strip()
        code = l.split("//")[0]
        if not s or s.startswith(("//", "#", "*", "case ", "default:", "public", "private", "template", "namespace", "using", "throw")) or "throw pe_exception" in l:
            continue
        def sub(m, r):
            return l[:m.start()] + r + l[m.end():]
        rel = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "=="}
        for m in re.finditer(r"(?<=[\w\)\]] )(<=|>=|==|!=|<|>)(?= [\w\(\-*!&\"'])", code):
            yield n, m.group(1) + " -> " + rel[m.group(1)], sub(m, rel[m.group(1)])
        for m in re.finditer(r"&&|\|\|", code):
            yield n, m.group(0) + " swapped", sub(m, "||" if m.group(0) == "&&" else "&&")
        for m in re.finditer(r"(?<=[\w\)\]] )([+\-*/%])(?= [\w\(])", code):
            o = {"+": "-", "-": "+", "*": "+", "/": "*", "%": "/"}[m.group(1)]
            yield n, m.group(1) + " -> " + o, sub(m, o)
        for m in re.finditer(r"(?<![\w.\"'])(0x[0-9A-Fa-f]+|\d+)(?![\w.\"'])", code):
            v = int(m.group(1), 0)
            yield n, "%s -> %d" % (m.group(1), v + 1), sub(m, str(v + 1))
            if v > 1:
                yield n, "%s -> %d" % (m.group(1), v - 1), sub(m, str(v - 1))
        for m in re.finditer(r"\b(true|false)\b", code):
            o = "false" if m.group(1) == "true" else "true"
            yield n, m.group(1) + " -> " + o, sub(m, o)
        m = re.match(r"^(\s*(?:else )?if\s*)\((.*)\)\s*$", code)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            yield n, "condition false", m.group(1) + "(false && (" + m.group(2) + "))"
            yield n, "condition true", m.group(1) + "(true || (" + m.group(2) + "))"
        for m in re.finditer(r"static_cast<(uint32_t|uint16_t|uint64_t|size_t)>", code):
            o = {"uint32_t": "uint16_t", "uint16_t": "uint8_t", "uint64_t": "uint32_t", "size_t": "uint16_t"}[m.group(1)]
            yield n, "cast to " + o, sub(m, "static_cast<%s>" % o)
        for m in re.finditer(r"sizeof\(([\w:]+)\)", code):
            yield n, "sizeof + 1", sub(m, "(%s + 1)" % m.group(0))
            yield n, "sizeof - 1", sub(m, "(%s - 1)" % m.group(0))
        if re.match(r"^\s*[\w\.\->\(\)\[\]\*:<>& +]+(\(.*\)|\s*[+\-|&]?=\s*.*|\+\+|--);\s*$", code) and not re.match(r"^\s*(return|const|break|continue|throw|delete|typedef|unsigned|int|bool|uint|size_t|std::\w+(<.*>)? \w|[\w:<>]+ \w+(\(|;| =))", code) or re.match(r"^\s*(\+\+|--)\w+;$", code):
            yield n, "statement removed", re.match(r"^\s*", l).group(0) + ";"
        if re.match(r"^\s*(break|continue);", code):
            yield n, "statement removed", re.match(r"^\s*", l).group(0) + ";"


def run(k, f, n, desc, new, objs, exe0, order):
    d = W + "/w%s" % hashlib.md5(("%s%d%s%s" % (f, n, desc, new)).encode()).hexdigest()[:10]
    os.makedirs(d, exist_ok=True)
    try:
        src = open(f, encoding="latin1").read().replace("\r\n", "\n").split("\n")
        old = src[n]
        src[n] = new
        c = d + "/" + os.path.basename(f)
        open(c, "w", encoding="latin1").write("\n".join(src))
        fl = [x for x in B.FLAGS] + ["-I", os.path.dirname(f)]
        r = subprocess.run(["g++"] + fl + ["-c", "-o", d + "/m.o", c], capture_output=True)
        if r.returncode:
            return "nocompile", None
        r = subprocess.run(["g++"] + fl + ["-o", d + "/exe", d + "/m.o"] + [o for s, o in objs if s != f], capture_output=True)
        if r.returncode:
            return "nolink", None
        res = "same", None
        for p in order:
            try:
                r = subprocess.run([d + "/exe", cases(p), d + "/t", d + "/e"], capture_output=True, timeout=250, env=dict(os.environ, PEDRV_INPROC="1"))
            except subprocess.TimeoutExpired:
                return "killed", p + " (slow)"
            if r.returncode:
                return "killed", p + " (abnormal end)"
            un = set(json.load(open(base(p, exe0) + ".unstable")))
            diff = []
            with open(base(p, exe0)) as x, open(d + "/t") as y:
                for i, (a, b) in enumerate(zip(x, y)):
                    if a != b and i not in un:
                        diff.append(b)
            if not diff:
                continue
            if len(diff) > 25:
                diff = random.Random(5).sample(diff, 25)
            open(d + "/d", "w").writelines(diff)
            ids = [json.loads(x)["id"] for x in diff]
            try:
                a, m, _, _ = C.validate(d + "/d", ids, d, "m", workers=1, mem="1500m")
            except C._TooMany as e:
                return "killed", p
            except C.Infra as e:
                return "killed?", p + " " + str(e)[:100]
            if m:
                return "killed", p
            res = "accepted", p + " " + ids[0]
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("--max", type=int, default=100)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out", default=W + "/results")
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--lines", default="")
    a = ap.parse_args()
    os.makedirs(W, exist_ok=True)
    exe0 = B.build_driver()
    hdr = B._hash([B._read(x) + os.path.basename(x).encode() for x in sorted(B.glob.glob(B.REPO + "/src/pe_lib/*.h"))])
    objs = []
    fl = " ".join(B.FLAGS).encode()
    dh = B._hash([B._read(x) + os.path.basename(x).encode() for x in sorted(B.glob.glob(os.path.join(V, "harness", "*.h")) + B.glob.glob(os.path.join(V, "harness", "*.inc")))])
    for s in sorted(B.glob.glob(B.REPO + "/src/pe_lib/*.cpp")):
        objs.append((s, os.path.join(B.CACHE, B._hash([b"lib", os.path.basename(s).encode(), B._read(s), hdr.encode(), fl]) + ".o")))
    for s in sorted(B.glob.glob(V + "/harness/*.cpp")):
        objs.append((s, os.path.join(B.CACHE, B._hash([b"drv", os.path.basename(s).encode(), B._read(s), hdr.encode(), dh.encode(), fl]) + ".o")))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda p: base(p, exe0), ALL))
    todo = []
    for s, _ in objs:
        if a.file in os.path.basename(s) and "/pe_lib/" in s:
            t = open(s, encoding="latin1").read().replace("\r\n", "\n")
            todo += [(s,) + m for m in mutants(t)]
    total = len(todo)
    if a.lines:
        x, y = map(int, a.lines.split("-"))
        todo = [t for t in todo if x <= t[1] + 1 <= y]
    if len(todo) > a.max:
        todo = random.Random(a.seed).sample(todo, a.max)
    cnt = {}
    out = open(a.out, "a")

    def one(x):
        k, (f, n, desc, new) = x
        o = []
        for key, v in FIRST.items():
            if key in os.path.basename(f):
                o += [p for p in v.split() if p not in o]
        r = run(k, f, n, desc, new, objs, exe0, o)
        cnt[r[0]] = cnt.get(r[0], 0) + 1
        if r[0] not in ("nocompile", "nolink"):
            out.write(json.dumps([r[0], r[1], os.path.basename(f), n + 1, desc, new.strip()]) + "\n")
            out.flush()
    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, enumerate(todo)))
    print(a.file, "of", total, cnt)


if __name__ == "__main__":
    main()
