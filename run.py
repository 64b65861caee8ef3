#!/usr/bin/env python3
"""run.py check <ID> [--tier quick|thorough]   decide one property (exit 0 / 1 + VIOLATION line)
   run.py replay <replay.json>                  re-run one recorded execution
   run.py setup                                 build everything
"""
import sys, os, json, time, subprocess, shutil, tempfile, signal, array, re, resource
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, HERE)
import vbuild
from checks import CHECKS

NPROC = os.cpu_count() or 4
ENVBASE = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": "/root",
           "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
           "GLIBC_TUNABLES": "glibc.cpu.hwcaps=-FMA,-FMA4,-AVX2,-AVX512F"}


def build_harness(h):
    wraps = ["exit"] + list(h.get("wrap", ()))
    if "#define MC_WRAP_CORES" in open(os.path.join(HERE, "harness", h["src"])).read():
        wraps.append("_Z20GetPhysicalCoreCountv")
    return vbuild.build(h["src"], h.get("flavor", "asan"), mains=h.get("mains", ()),
                        extra_src=h.get("extra_src", ()), repo_src=h.get("repo_src", ()), cflags=h.get("cflags", ()),
                        ldflags=[f"-Wl,--wrap={w}" for w in wraps] + list(h.get("ldflags", ())), tag=h.get("tag"))


def known(pid):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def asan_key(path):
    try:
        t = open(path, errors="replace").read()
    except OSError:
        return "crash", ""
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", t)
    kind = m.group(1) if m else "crash"
    fn = ""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)", t):
        if m.group(2).startswith(vbuild.REPO):
            fn = re.sub(r"[^\w:~]", "", m.group(1).split("(")[0]) + "@" + os.path.basename(m.group(2)) + ":" + m.group(3)
            break
    return f"memory:{kind}:{fn.split(':')[0] if not fn else fn.rsplit('@')[0]}", t[:3000] + (" at " + fn)


def run_shards(pid, h, binp, tier, seed, work, deadline):
    n = h.get("shards", NPROC)
    procs = []
    for s in range(n):
        d = work
        sc = os.path.join(work, f"scratch{s}")
        os.makedirs(sc, exist_ok=True)
        env = dict(ENVBASE)
        env.update({"MC_DIR": d, "MC_SCRATCH": sc, "MC_SHARD": str(s), "MC_NSHARDS": str(n), "MC_TIER": tier,
                    "MC_SEED": str(seed),
                    "ASAN_OPTIONS": f"detect_leaks=0:exitcode=99:log_path={d}/asan.{s}:max_malloc_fill_size=1048576:"
                                    f"malloc_fill_byte={h.get('fill', 203)}:allocator_may_return_null=0:"
                                    "max_allocation_size_mb=2500:hard_rss_limit_mb=3300:detect_odr_violation=0:"
                                    "quarantine_size_mb=16:handle_abort=1:handle_sigfpe=1"})
        env["MC_KNOWN"] = "\n".join(known(pid))
        env.update(h.get("env", {}))
        of = open(os.path.join(d, f"out.{s}"), "wb")
        procs.append((s, subprocess.Popen([binp], cwd=sc, env=env, stdout=of, stderr=open(os.path.join(d, f"err.{s}"), "wb"),
                                          stdin=subprocess.DEVNULL, start_new_session=True)))
    res, crashes, timeouts = [], [], 0
    for s, p in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            timeouts += 1
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        txt = open(os.path.join(work, f"out.{s}"), errors="replace").read().strip().split("\n")[-1]
        try:
            r = json.loads(txt)
            res.append(r)
            continue
        except ValueError:
            pass
        cur = open(os.path.join(work, f"cur.{s}"), "rb").read() if os.path.exists(os.path.join(work, f"cur.{s}")) else b""
        if len(cur) < 24:
            raise SystemExit(f"harness did not start (rc={p.returncode}): " + open(os.path.join(work, f"err.{s}"), errors="replace").read()[-500:])
        a = array.array("i"); a.frombytes(cur[:16 + 4 * 4096])
        nch, part = a[0], a[1]
        execs = array.array("q"); execs.frombytes(cur[8:16])
        ch = a[4:4 + nch].tolist()
        phase = cur[16 + 4 * 4096:].split(b"\0")[0].decode(errors="replace")
        crashes.append(dict(shard=s, rc=p.returncode, part=part, choices=ch, phase=phase, execs=execs[0],
                            timeout=(p.returncode == -9), err=open(os.path.join(work, f"err.{s}"), errors="replace").read()[-800:],
                            asan=[os.path.join(work, f) for f in os.listdir(work) if f.startswith(f"asan.{s}.")]))
    return res, crashes, timeouts


def check(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[pid]
    t0 = time.time()
    limit = 850 if tier == "quick" else spec.get("thorough_limit", 6 * 3600)
    kn = known(pid)
    rdir = os.path.join(vbuild.BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    viols, parts, counters, samples = {}, {}, {}, []
    states, allkeys = set(), {}
    broken = None
    for hi, h in enumerate(spec["harnesses"]):
        if tier == "quick" and h.get("tier") == "thorough":
            continue
        binp = build_harness(h)
        work = tempfile.mkdtemp(prefix=f"vp_{pid}_", dir="/tmp")
        os.chmod(work, 0o755)
        try:
            res, crashes, timeouts = run_shards(pid, h, binp, tier, seed, work, t0 + limit)
            hname = h["src"][:-4] + ("" if not h.get("fill") else f"@fill{h['fill']}")
            for r in res:
                for k, v in r["parts"].items():
                    e = parts.setdefault(hname + "/" + k, dict(executions=0, pruned=0, choices=0, maxdepth=0))
                    for f in ("executions", "pruned", "choices"):
                        e[f] += v[f]
                    e["maxdepth"] = max(e["maxdepth"], v["maxdepth"])
                for k, v in r["counters"].items():
                    counters[k] = counters.get(k, 0) + int(v)
                for k, v in r["keys"].items():
                    allkeys[k] = allkeys.get(k, 0) + v
                samples += r["samples"]
                for v in r["violations"]:
                    v["harness"] = hi
                    viols.setdefault(v["key"], v)
            for s in range(h.get("shards", NPROC)):
                f = os.path.join(work, f"states.{s}")
                if os.path.exists(f):
                    a = array.array("Q"); a.frombytes(open(f, "rb").read()); states.update(a)
            for c in crashes:
                pname = None
                if c["timeout"]:
                    broken = f"exploration did not finish in {limit} s (shard {c['shard']}, {c['execs']} executions)"
                    continue
                if c["rc"] == 97 or c["phase"] == "HANG":
                    key, msg = f"hang:{c['part']}", "the execution did not end (CPU watchdog)"
                elif c["asan"]:
                    key, msg = asan_key(c["asan"][0])
                else:
                    key, msg = f"crash:rc{c['rc']}", f"process ended with {c['rc']} {c['err']}"
                if c["phase"] and c["phase"] != "HANG":
                    key += ":" + c["phase"].replace(" ", "_")
                viols.setdefault(key, dict(key=key, msg=msg, partindex=c["part"], choices=",".join(map(str, c["choices"])) or "-",
                                           harness=hi, note="", repro=True))
                allkeys[key] = allkeys.get(key, 0) + 1
        finally:
            shutil.rmtree(work, ignore_errors=True)
    # report
    rc = 0
    new = {k: v for k, v in viols.items() if k not in kn}
    for k, txt in kn.items():
        if k in viols:
            print(f"KNOWN-FINDING: property={pid} {txt}")
        else:
            print(f"note: listed finding {k} of {pid} did not occur in this run")
    for i, (k, v) in enumerate(sorted(new.items())):
        path = os.path.join(rdir, f"{pid}_{i}.json")
        v["property"] = pid; v["tier"] = tier
        json.dump(v, open(path, "w"), indent=1)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"   key={k} occurrences={allkeys.get(k)}\n   {v['msg'][:1500]}\n   case: {v['note'][:1500]}")
        rc = 1
        if i >= 9:
            break
    if broken and rc == 0:
        print("ERROR:", broken)
        rc = 2
    execs = sum(p["executions"] for p in parts.values())
    chs = sum(p["choices"] for p in parts.values())
    cov = dict(rule=spec["rule"], samples=(samples[::max(1, len(samples) // 6)] or ["none"])[:8], exhaustive=(broken is None and rc == 0 and not viols) or None)
    if cov["exhaustive"] is None:
        cov["exhaustive"] = False if broken else True
    cov["parts"] = parts
    cov["counters"] = counters
    if spec["level"] == "model_checking":
        cov.update(states=len(states), transitions=int(counters.get("transitions", chs)), traces_validated_against_impl=execs,
                   validation="there is no separate model of the code: every trace is an execution of the real code, compared step by step with the reference")
    else:
        cov.update(evaluations=execs, distinct_nontrivial=len(states))
    ev = dict(property=pid, tier=tier, seed=seed, level=spec["level"], coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=len(new), assumptions=spec.get("assumptions", []))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1)
    print(f"{pid} {tier}: {execs} executions, {len(states)} distinct states, {chs} choices, {len(new)} new violations, {ev['wall_s']} s")
    return rc


def replay(path):
    v = json.load(open(path))
    h = CHECKS[v["property"]]["harnesses"][v["harness"]]
    binp = build_harness(h)
    work = tempfile.mkdtemp(prefix="vp_replay_", dir="/tmp")
    try:
        env = dict(ENVBASE)
        env.update({"MC_DIR": work, "MC_SCRATCH": work, "MC_REPLAY": v["choices"] or "-", "MC_TIER": v.get("tier", "quick"), "MC_STDERR": "1",
                    "MC_PART": v.get("part", ""), "ASAN_OPTIONS": f"detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte={h.get('fill', 203)}"})
        if "part" not in v:
            names = subprocess.run(["grep", "-oP", r"MC_PART\(\K\w+", os.path.join(HERE, "harness", h["src"])], capture_output=True, text=True).stdout.split()
            env["MC_PART"] = names[v["partindex"]]
        env.update(h.get("env", {}))
        r = subprocess.run([binp], cwd=work, env=env)
        print("exit", r.returncode)
        return r.returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    if sys.argv[1] == "setup":
        for pid in CHECKS:
            for h in CHECKS[pid]["harnesses"]:
                build_harness(h)
        return 0
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    try:
        return check(sys.argv[2], "thorough" if tier == "thorough" else "quick")
    except vbuild.BuildError as e:
        print("ERROR: build failed:", e)
        return 2


sys.exit(main())
