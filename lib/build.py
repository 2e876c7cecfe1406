"""Builds the conformance driver from /repo's current working tree.

Objects are cached by content (source, all library headers, harness headers, flags), never by
timestamp, so a changed tree can never be checked with a stale object.
"""
import hashlib, os, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PE_REPO", "/repo")
CACHE = os.path.join(VERIF, "build", "objcache")
CXX = "g++"
FLAGS = ["-std=c++11", "-O1", "-g1", "-w", "-fsanitize=address", "-fno-omit-frame-pointer",
         "-I", os.path.join(REPO, "src"), "-I", os.path.join(VERIF, "harness")]


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _hash(parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(hashlib.sha256(p).digest())
    return h.hexdigest()[:32]


def build_driver():
    """Returns the path of an up-to-date driver binary."""
    os.makedirs(CACHE, exist_ok=True)
    libdir = os.path.join(REPO, "src", "pe_lib")
    libsrc = sorted(glob.glob(libdir + "/*.cpp"))
    libhdr = sorted(glob.glob(libdir + "/*.h"))
    if not libsrc:
        raise BuildError("no library sources in " + libdir)
    drvsrc = sorted(glob.glob(os.path.join(VERIF, "harness", "*.cpp")))
    drvhdr = sorted(glob.glob(os.path.join(VERIF, "harness", "*.h")) + glob.glob(os.path.join(VERIF, "harness", "*.inc")))
    flags = " ".join(FLAGS).encode()
    hh = _hash([_read(x) + os.path.basename(x).encode() for x in libhdr])
    dh = _hash([_read(x) + os.path.basename(x).encode() for x in drvhdr])
    jobs = []
    for s in libsrc:
        jobs.append((s, _hash([b"lib", os.path.basename(s).encode(), _read(s), hh.encode(), flags])))
    for s in drvsrc:
        jobs.append((s, _hash([b"drv", os.path.basename(s).encode(), _read(s), hh.encode(), dh.encode(), flags])))
    exe = os.path.join(CACHE, "pedrv-" + _hash([j[1].encode() for j in jobs]))
    with open(os.path.join(CACHE, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe

        def comp(job):
            src, h = job
            o = os.path.join(CACHE, h + ".o")
            if not os.path.exists(o):
                tmp = o + ".tmp%d" % os.getpid()
                p = subprocess.run([CXX] + FLAGS + ["-c", "-o", tmp, src], capture_output=True, text=True)
                if p.returncode:
                    return src + "\n" + p.stderr[-3000:]
                os.rename(tmp, o)
            return None
        with ThreadPoolExecutor(8) as ex:
            errs = [e for e in ex.map(comp, jobs) if e]
        if errs:
            raise BuildError("\n".join(errs))
        tmp = exe + ".tmp%d" % os.getpid()
        p = subprocess.run([CXX] + FLAGS + ["-o", tmp] + [os.path.join(CACHE, h + ".o") for _, h in jobs], capture_output=True, text=True)
        if p.returncode:
            raise BuildError("link\n" + p.stderr[-3000:])
        os.rename(tmp, exe)
    return exe


if __name__ == "__main__":
    try:
        print(build_driver())
    except BuildError as e:
        sys.stderr.write(str(e) + "\n")
        sys.exit(2)
