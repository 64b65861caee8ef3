"""Builds /repo's sources (from its current working tree) and the harnesses of /verif.

Objects are cached in /verif/build/<flavor>/ (git-ignored) and are reused only if the
*contents* of every file they were compiled from are unchanged (never on time stamps)."""
import os, sys, hashlib, json, subprocess, fcntl, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

INC = [f"-I{REPO}/{d}" for d in ("core", "solvers", "cdream", "cdream/include",
       "function_objects", "function_objects_1d", "profile_fitting", "")] + [f"-I{VERIF}/lib"]
BASE = ["-std=c++11", "-U_FORTIFY_SOURCE", "-include", "cstring", "-include", "cstdint", "-w",
        "-DANSI", "-DUSING_SCONS", "-DLINUX", "-DFFTW_THREADING"]
SAN = ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]
LIBS = ["-lcfitsio", "-lgsl", "-lgslcblas", "-lnlopt", "-lfftw3_threads", "-lfftw3", "-lm", "-lpthread"]
FLAVORS = {
    "asan": dict(cxx="g++", cflags=BASE + SAN, ldflags=["-fsanitize=address"]),
    "plain": dict(cxx="g++", cflags=BASE + ["-O2", "-g1", "-ftrivial-auto-var-init=pattern"], ldflags=[]),
    # real OpenMP directives; the harness supplies its own libgomp entry points
    # OpenMP directives and per-access instrumentation (not the sanitizer's run-time library): lib/ompsched.h
    # supplies both sets of entry points.  -O0: every access of the source is one access of the program
    "omp": dict(cxx="g++", cflags=BASE + ["-O0", "-g1", "-fopenmp", "-DUSE_OPENMP", "-fsanitize=thread",
                "-ftrivial-auto-var-init=pattern"], ldflags=[]),
}
MAINS = ["imfit_main", "makeimage_main", "mcmc_main", "makemultimages_main", "multimfit_main"]


class BuildError(Exception):
    pass


_hashes = {}


def fhash(p):
    if p not in _hashes:
        try:
            with open(p, "rb") as f:
                _hashes[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _hashes[p] = "missing"
    return _hashes[p]


def _key(cmd, deps):
    h = hashlib.sha256(json.dumps(cmd).encode())
    for d in sorted(deps):
        h.update(d.encode()); h.update(fhash(d).encode())
    return h.hexdigest()


def compile_one(src, obj, fl, extra=()):
    f = FLAVORS[fl]
    cmd = [f["cxx"]] + f["cflags"] + INC + list(extra) + ["-c", src]
    meta = obj + ".json"
    try:
        m = json.load(open(meta))
        if os.path.exists(obj) and m["key"] == _key(cmd, m["deps"]):
            return obj, False, ""
    except (OSError, ValueError, KeyError):
        pass
    dep = obj + ".d"
    p = subprocess.run(cmd + ["-o", obj + ".tmp", "-MD", "-MF", dep], capture_output=True, text=True)
    if p.returncode != 0:
        for x in (obj, meta):
            if os.path.exists(x):
                os.remove(x)
        return obj, None, p.stderr[-3000:]
    txt = open(dep).read().replace("\\\n", " ")
    deps = [d for d in txt.split(":", 1)[1].split() if d.startswith(REPO) or d.startswith(VERIF)]
    os.replace(obj + ".tmp", obj)
    json.dump({"key": _key(cmd, deps), "deps": deps}, open(meta, "w"))
    return obj, True, ""


def repo_sources():
    out = []
    for pat in ("core/*.cpp", "solvers/*.cpp", "cdream/*.cpp", "function_objects/*.cpp"):
        for s in sorted(glob.glob(f"{REPO}/{pat}")):
            if os.path.basename(s)[:-4] not in MAINS:
                out.append(s)
    return out


def build(harness, flavor="asan", mains=(), extra_src=(), ldflags=(), cflags=(), tag=None, repo_src=()):
    """Returns the path of the linked harness binary."""
    bdir = os.path.join(BUILD, flavor)
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(bdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        jobs, lib, hobjs = [], [], []
        for s in repo_sources():
            o = os.path.join(bdir, os.path.relpath(s, REPO).replace("/", "__")[:-4] + ".o")
            lib.append(o); jobs.append((s, o, flavor, ()))
        for m in mains:
            o = os.path.join(bdir, f"main{len(mains) if len(mains) > 1 else ''}__{os.path.basename(m)}.o")
            hobjs.append(o)
            src, m = (f"{REPO}/{m}.cpp" if "/" in m else f"{REPO}/core/{m}.cpp"), os.path.basename(m)
            jobs.append((src, o, flavor,
                         (f"-Dmain={m}_entry", "-DstopSignal_flag=stopSignal_flag_" + m) if len(mains) > 1
                         else (f"-Dmain={m}_entry",)))
        for s in repo_src:           # sources that no program of core/ is linked with
            o = os.path.join(bdir, "x__" + s.replace("/", "__")[:-4] + ".o")
            hobjs.append(o); jobs.append((f"{REPO}/{s}", o, flavor, ()))
        for h in [harness] + list(extra_src):
            p = h if os.path.isabs(h) else os.path.join(VERIF, "harness", h)
            o = os.path.join(bdir, "h__" + os.path.basename(p)[:-4] + ".o")
            hobjs.append(o); jobs.append((p, o, flavor, tuple(cflags)))
        must = set(hobjs)
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            res = list(ex.map(lambda j: compile_one(*j), jobs))
        objs, changed = [], False
        for o, st, err in res:
            if st is None:
                if o in must:
                    raise BuildError(f"cannot compile {o}\n{err}")
                sys.stderr.write(f"warning: cannot compile {o}: {err[:300]}\n")
                continue
            changed |= bool(st)
            if o not in must:
                objs.append(o)
        h = hashlib.sha256()
        for o in hobjs + objs:
            h.update(json.load(open(o + ".json"))["key"].encode())
        link = [FLAVORS[flavor]["cxx"]] + FLAVORS[flavor]["ldflags"]
        h.update(json.dumps([link, list(ldflags), hobjs, objs]).encode())
        name = tag or os.path.basename(harness)[:-4]
        binp = os.path.join(bdir, name + ".bin")
        if os.path.exists(binp) and os.path.exists(binp + ".key") and open(binp + ".key").read() == h.hexdigest():
            return binp
        ar = os.path.join(bdir, name + ".a")
        if os.path.exists(ar):
            os.remove(ar)
        subprocess.run(["ar", "qcT", ar] + objs, check=True)
        lobjs = list(hobjs)
        if len(mains) > 1:           # several programs in one binary: their definitions must not clash
            for i, m in enumerate(mains):
                o, loc = hobjs[i], hobjs[i][:-2] + ".loc"
                names = [l.split()[-1] for l in subprocess.run(["nm", "-g", "--defined-only", o], capture_output=True, text=True, check=True).stdout.splitlines()
                         if l.split()[-2] in "TDBR" and f"{m}_entry" not in l]
                open(loc + ".syms", "w").write("\n".join(names) + "\n")
                subprocess.run(["objcopy", f"--localize-symbols={loc}.syms", o, loc + ".o"], check=True)
                lobjs[i] = loc + ".o"
        p = subprocess.run(link + lobjs + ["-o", binp + ".tmp", "-Wl,--start-group", ar, "-Wl,--end-group"] +
                           list(ldflags) + LIBS, capture_output=True, text=True)
        if p.returncode != 0:
            raise BuildError("link failed\n" + p.stderr[-3000:])
        os.replace(binp + ".tmp", binp)
        open(binp + ".key", "w").write(h.hexdigest())
        return binp
