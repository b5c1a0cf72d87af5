#!/usr/bin/env python3
"""Runtime-monitoring runner.

  run.py check PID [--tier T] [--seed N]   build from /repo, run the property's monitored workload, decide
  run.py replay FILE                        re-run the case a VIOLATION line points at
  run.py build [PID ...]                    build only

Exit 0: held on everything observed.  Exit 1: VIOLATION line.  Exit 2: no answer (build failure, nothing observed).
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
H = os.path.join(V, "harness")
B = os.environ.get("VF_BUILD", os.path.join(V, "build"))
NPROC = int(os.environ.get("VF_J", 0)) or os.cpu_count() or 4
sys.path.insert(0, H)
from props import PROPS  # noqa: E402

# Sources that need libROM: compiled against the stand-in headers of harness/shim, only for the checks that need them.
ROM_SRC = {"advdiff_solver", "linelast_solver", "main_workflow", "multiblock_solver", "navier_solver", "poisson_solver",
           "random_sample_generator", "rom_handler", "rom_interfaceform", "rom_nonlinearform", "sample_generator",
           "steady_ns_solver", "stokes_solver", "unsteady_ns_solver"}
SAN = "address,bounds,shift,signed-integer-overflow,bool,enum,return,null,integer-divide-by-zero"
INC = ["/usr/lib/x86_64-linux-gnu/openmpi/include", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi", "/usr/include/mfem",
       "/usr/include/hypre", "/usr/include/hdf5/serial", REPO + "/include", H + "/shim", H]
CXX = ("g++ -std=c++14 -O1 -g1 -w -fno-omit-frame-pointer -fsanitize=%s -ftrivial-auto-var-init=pattern -DMFEM_DEBUG -DVERIF_MONITOR "
       % SAN + " ".join("-I" + i for i in INC))
EXTRA = {"dg_mixed_bilin.cpp": "-include noassert.hpp", "rom_nonlinearform.cpp": "-include noassert.hpp"}
LIBS = ("-lmfem -lHYPRE -lhdf5_serial -lyaml-cpp -llapack -lblas -lmetis -lmpi_cxx -lmpi "
        "-L/usr/lib/x86_64-linux-gnu/hdf5/serial -L/usr/lib/x86_64-linux-gnu/openmpi/lib -ldl -lpthread")


def sha(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def srcsha(p):
    """A source together with the files of its own directory it includes."""
    inc = re.findall(r'^#include "([\w./]+\.cpp)"', open(p, errors="replace").read(), re.M)
    return sha([p] + [os.path.join(os.path.dirname(p), i) for i in inc])


def build(pids):
    """Incremental, keyed on file contents (not time stamps), so that any change of /repo's working tree is seen."""
    pids = [q for p in pids for q in ([] if PROPS[p].get("driver") is None else [p]) + PROPS[p].get("subs", [])]
    os.makedirs(B + "/o", exist_ok=True)
    drivers = sorted({PROPS[p]["driver"] for p in pids})
    hdrs = sorted(glob.glob(REPO + "/include/**/*.hpp", recursive=True) + glob.glob(REPO + "/include/**/*.h", recursive=True)
                  + glob.glob(H + "/shim/**/*.h*", recursive=True))
    hsha = sha(hdrs) + hashlib.sha256(CXX.encode()).hexdigest()
    dsha = hsha + sha(sorted(glob.glob(H + "/*.hpp")))
    src = sorted(glob.glob(REPO + "/src/*.cpp"))
    core = [s for s in src if os.path.basename(s)[:-4] not in ROM_SRC]
    rom = [s for s in src if os.path.basename(s)[:-4] in ROM_SRC]
    need = {}  # obj -> src
    tag = lambda s: B + "/o/" + os.path.basename(os.path.dirname(s)) + "_" + os.path.basename(s)[:-4] + ".o"
    for s in core:
        need[tag(s)] = s
    for p in pids:
        if PROPS[p].get("rom"):
            for s in rom:
                need[tag(s)] = s
        for u in PROPS[p].get("utils", []):
            need[tag(f"{REPO}/utils/{u}.cpp")] = f"{REPO}/utils/{u}.cpp"
    for d in drivers:
        need[tag(f"{H}/drivers/{d}.cpp")] = f"{H}/drivers/{d}.cpp"

    def fresh(out, key):
        try:
            return os.path.exists(out) and open(out + ".key").read() == key
        except OSError:
            return False

    def run(cmd, out, key):
        if fresh(out, key):
            return None
        r = subprocess.run(cmd, shell=True, capture_output=True, text=True, cwd=B)
        if r.returncode:
            return f"{cmd}\n{(r.stdout + r.stderr)[:6000]}"
        with open(out + ".key", "w") as f:
            f.write(key)
        return None

    pch = B + "/pch.hpp"
    with open(pch, "w") as f:
        f.write('#include "mumps_shim.hpp"\n')
    e = run(f"{CXX} -x c++-header {pch} -o {pch}.gch", pch + ".gch", sha([H + "/shim/mumps_shim.hpp"]) + CXX)
    if e:
        return e
    order = sorted(need.items(), key=lambda kv: -os.path.getsize(kv[1]))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(lambda kv: run(f"{CXX} -I{B} -include pch.hpp {EXTRA.get(os.path.basename(kv[1]), '')} -c {kv[1]} -o {kv[0]}", kv[0],
                                       srcsha(kv[1]) + (dsha if kv[1].startswith(H) else hsha)), order))
    errs = [x for x in res if x]
    if errs:
        return "\n".join(errs)
    keyof = lambda o: open(o + ".key").read()
    links = []
    core_o = [tag(s) for s in core]
    rom_o = [tag(s) for s in rom]
    for p in pids:
        d = PROPS[p]["driver"]
        objs = [tag(f"{H}/drivers/{d}.cpp")] + core_o + (rom_o if PROPS[p].get("rom") else [])
        links.append((f"{B}/{d}.x", objs, PROPS[p].get("ld", "")))
        for u in PROPS[p].get("utils", []):
            links.append((f"{B}/{u}.x", [tag(f"{REPO}/utils/{u}.cpp")] + core_o, ""))
    links = list({l[0]: l for l in links}.values())
    with cf.ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda l: run(f"g++ -fsanitize={SAN} -rdynamic {' '.join(l[1])} {LIBS} {l[2]} -o {l[0]}", l[0],
                                        hashlib.sha256(("".join(map(keyof, l[1])) + l[2]).encode()).hexdigest()), links))
    errs = [x for x in res if x]
    return "\n".join(errs) if errs else None


FILLS = [255, 190, 0, 255, 127, 255, 1, 190]


def env_for(fill, work, halt_ub):
    e = dict(os.environ)
    e.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader", OMPI_MCA_plm="isolated", OMPI_MCA_ess_singleton_isolated="1",
             OMPI_MCA_btl_vader_single_copy_mechanism="none", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             OMPI_MCA_orte_tmpdir_base=work, VF_WORK=work, VF_BUILD=B, VF_REPO=REPO, VF_FILL=str(fill),
             ASAN_OPTIONS=f"detect_leaks=0:exitcode=99:abort_on_error=0:max_malloc_fill_size=1073741824:malloc_fill_byte={fill}:"
                          "quarantine_size_mb=128:detect_stack_use_after_return=1:allocator_may_return_null=1",
             UBSAN_OPTIONS=f"print_stacktrace=1:halt_on_error={1 if halt_ub else 0}")
    return e


def crash_key(rc, err):
    fn = lambda t: re.sub(r"\(.*", "", t)
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", err)
    if m:
        f = re.search(r"#\d+ 0x[0-9a-f]+ in (.+?) (?:%s/|/repo/)(\S+?):" % re.escape(REPO), err)
        return "asan:%s:%s" % (m.group(1), fn(f.group(1)) if f else "?")
    m = re.search(r"(/\S+?):\d+:\d+: runtime error: ([^\n]*)", err)
    if m and rc:
        f = re.search(r"#\d+ 0x[0-9a-f]+ in (.+?) (?:%s/|/repo/)" % re.escape(REPO), err[m.start():])
        return "ubsan:%s:%s" % (re.sub(r"\d+|'[^']*'", "_", m.group(2))[:60], fn(f.group(1)) if f else os.path.basename(m.group(1)))
    m = re.search(r": (\S[^\n]*?): Assertion `(.*?)' failed", err)
    if m:
        return "assert:%s:%s" % (fn(m.group(1)).split(" ")[-1], m.group(2)[:80])
    m = re.search(r"(?:MFEM abort|Verification failed|Assertion failed): ?([^\n]*)(?:.*?in function: ([^\n]*))?", err, re.S)
    if m:
        return "mfem:%s:%s" % (m.group(1)[:80], fn(m.group(2) or "?"))
    if rc == -14:
        return "hang"
    return "crash:rc%d" % rc


def run_driver(pid, seed, tier, args, fill, work, timeout):
    p = PROPS[pid]
    out = tempfile.mktemp(dir=work, suffix=".json")
    cmd = [f"{B}/{p['driver']}.x", "--seed", str(seed), "--tier", tier, "--out", out] + p.get("args", []) + args
    t = open(out + ".err", "w+", errors="replace")
    try:
        r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=t, env=env_for(fill, work, p.get("halt_ub")), timeout=timeout)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = -14
    t.flush()
    err = open(out + ".err", errors="replace").read()
    t.close()
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            pass
    try:
        prog = open(out + ".progress").read().strip()
    except OSError:
        prog = ""
    for f in (out, out + ".err", out + ".progress"):
        if os.path.exists(f):
            os.unlink(f)
    return rc, res, prog, err


def merge(tot, res, fill):
    tot["evaluations"] += res["evaluations"]
    tot["sigs"].update(res["sigs"])
    for k, v in res["events"].items():
        tot["events"][k] = tot["events"].get(k, 0) + v
    for k, v in res["maxima"].items():
        tot["maxima"][k] = max(tot["maxima"].get(k, 0), v)
    if len(tot["samples"]) < 8:
        tot["samples"] += res["samples"][:2]
    for v in res["violations"]:
        tot["violations"].append(dict(v, fill=fill, confirmed=False))


DEADLINE = [0.0]


def shard(pid, seed, tier, k, nsh, n, work, limit, mode=[]):
    """One worker: cases k, k+nsh, ... ; a crash is attributed to its case, confirmed alone, and the rest continues."""
    tot = dict(evaluations=0, sigs=set(), events={}, maxima={}, samples=[], violations=[], inconclusive=[])
    fill = FILLS[k % len(FILLS)]
    start, crashes = k, 0
    while start < n and crashes < 3 and not (crashes and time.time() > DEADLINE[0]):
        for attempt in range(4):
            rc, res, prog, err = run_driver(pid, seed, tier, mode + ["--from", str(start), "--to", str(n), "--step", str(nsh)], fill, work, limit)
            if prog:
                break
            time.sleep(3 * attempt + 1)  # MPI can fail to start on a busy machine
        if res is not None and prog == "done":
            merge(tot, res, fill)
            break
        crashes += 1
        if not prog.isdigit():
            tot["inconclusive"].append(f"driver did not start: rc {rc}: {err[-800:]}")
            break
        c = int(prog)
        key = crash_key(rc, err)
        # confirm: alone, else the same prefix again
        rc2, res2, _, err2 = run_driver(pid, seed, tier, mode + ["--case", str(c)], fill, work, min(limit, 300))
        args = mode + ["--case", str(c)]
        if res2 is not None and rc2 == 0 and not res2["violations"]:
            args = mode + ["--from", str(start), "--to", str(c + 1), "--step", str(nsh)]
            rc2, res2, _, err2 = run_driver(pid, seed, tier, args, fill, work, limit)
        if res2 is None or rc2 != 0:
            tot["violations"].append(dict(case=c, key=crash_key(rc2, err2), detail=summarise(err2), fill=fill, confirmed=True, args=args))
        elif res2["violations"]:
            merge(tot, res2, fill)
        else:
            tot["inconclusive"].append(f"case {c} ended with {key} once and did not again")
        # results of the cases before the crash
        if c > start and time.time() < DEADLINE[0]:
            rc3, res3, _, _ = run_driver(pid, seed, tier, mode + ["--from", str(start), "--to", str(c), "--step", str(nsh)], fill, work, limit)
            if res3 is not None:
                merge(tot, res3, fill)
        start = c + nsh
    for v in tot["violations"]:
        v["driver_of"] = pid
        v.setdefault("args", mode + ["--case", str(v["case"])])
    return tot


def summarise(err):
    keep = [l for l in err.splitlines() if re.search(r"ERROR: Addr|runtime error|Assertion|abort|Verification|MONITOR|#\d+ .*(%s|/repo|drivers)" % re.escape(REPO), l)]
    return "\n".join(keep[:25]) or err[-1500:]


def known(pid):
    out = []
    for line in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", line)
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3).strip()))
    return out


def check(pid, tier, seed):
    t0 = time.time()
    p = PROPS[pid]
    err = build([pid])
    if err:
        print("BUILD FAILED\n" + err)
        return 2
    t1 = time.time()
    work = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    try:
        subs = p.get("subs", [pid])
        n, jobs = 0, []
        for q in subs:
            for attempt in range(5):
                r = subprocess.run([f"{B}/{PROPS[q]['driver']}.x", "--list", "--tier", tier] + PROPS[q].get("args", []), capture_output=True,
                                   text=True, env=env_for(0, work, False))
                if r.stdout.strip().isdigit():
                    break
                time.sleep(3 * attempt + 1)
            m = min(int(r.stdout.strip()), p.get("cases", {}).get(tier, 1 << 30))
            nsh = min(m, p.get("shards", NPROC))
            n += m
            jobs += [(q, k, nsh, m) for k in range(nsh)]
        mode = p.get("mode", [])
        DEADLINE[0] = time.time() + 150
        limit = 600 if tier == "quick" else 3600
        with cf.ThreadPoolExecutor(NPROC) as ex:
            parts = list(ex.map(lambda j: shard(j[0], seed, tier, j[1], j[2], j[3], work, limit, mode), jobs))
        tot = dict(evaluations=0, sigs=set(), events={}, maxima={}, samples=[], violations=[], inconclusive=[])
        for q in parts:
            tot["evaluations"] += q["evaluations"]
            tot["sigs"] |= q["sigs"]
            for k, v in q["events"].items():
                tot["events"][k] = tot["events"].get(k, 0) + v
            for k, v in q["maxima"].items():
                tot["maxima"][k] = max(tot["maxima"].get(k, 0), v)
            tot["samples"] += q["samples"][:2]
            tot["violations"] += q["violations"]
            tot["inconclusive"] += q["inconclusive"]
    finally:
        shutil.rmtree(work, ignore_errors=True)
    kf = known(pid)
    bykey = {}
    for v in tot["violations"]:
        bykey.setdefault(v["key"], []).append(v)
    new, old = [], []
    for key, vs in sorted(bykey.items()):
        hit = [d for k, d in kf if k == key.replace(" ", "_")]
        (old if hit else new).append((key, vs, hit))
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(cases=n, evaluations=tot["evaluations"], distinct_nontrivial=len(tot["sigs"]), rule=p["rule"],
                            samples=tot["samples"][:8], events=tot["events"],
                            largest_relative_deviation={k: v for k, v in sorted(tot["maxima"].items())},
                            known_findings_seen=[k for k, _, _ in old], inconclusive=tot["inconclusive"],
                            shards=len(jobs), build_s=round(t1 - t0, 1)),
              wall_s=round(time.time() - t0, 1), violations=[dict(key=k, count=len(vs), detail=vs[0]["detail"][:1500]) for k, vs, _ in new])
    os.makedirs(V + "/evidence/replay", exist_ok=True)
    with open(f"{V}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {tier} seed={seed}: {n} cases, {tot['evaluations']} monitor evaluations, {len(tot['sigs'])} distinct situations, "
          f"build {t1 - t0:.1f}s, run {time.time() - t1:.1f}s")
    for k, v in sorted(tot["events"].items()):
        print(f"  observed {k}: {v}")
    for key, vs, hit in old:
        print(f"KNOWN-FINDING: property={pid} {hit[0]}")
    for key, vs, _ in new:
        rp = f"{V}/evidence/replay/{pid}-{hashlib.sha1(key.encode()).hexdigest()[:8]}.json"
        v = vs[0]
        with open(rp, "w") as f:
            json.dump(dict(property=pid, driver_of=v["driver_of"], seed=seed, tier=tier, case=v["case"], fill=v["fill"], key=key, detail=v["detail"],
                           args=v["args"]), f, indent=1)
        print(f"  {key} x{len(vs)} (case {v['case']}): {v['detail'][:1200]}")
        print(f"VIOLATION property={pid} replay={rp}")
    if new:
        return 1
    for s in tot["inconclusive"]:
        print("INCONCLUSIVE", s)
    if tot["evaluations"] < p.get("min_eval", 1) or len(tot["sigs"]) < p.get("min_sigs", 1):
        print("INCONCLUSIVE: too little observed")
        return 2
    if any(s.startswith("driver did not start") for s in tot["inconclusive"]):
        return 2
    return 0


def main():
    a = sys.argv[1:]
    opt = lambda name, d: a[a.index(name) + 1] if name in a else d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")))
    if a[0] == "check":
        sys.exit(check(a[1], tier, seed))
    if a[0] == "build":
        err = build(a[1:] or list(PROPS))
        if err:
            print(err)
            sys.exit(2)
        sys.exit(0)
    if a[0] == "replay":
        r = json.load(open(a[1]))
        err = build([r.get("driver_of", r["property"])])
        if err:
            print(err)
            sys.exit(2)
        work = tempfile.mkdtemp(prefix="vf-replay-")
        try:
            rc, res, prog, e = run_driver(r.get("driver_of", r["property"]), r["seed"], r["tier"], r["args"], r["fill"], work, 600)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        print(e[-6000:])
        sys.exit(0 if rc == 0 and res and not res["violations"] else 1)
    sys.exit(2)


if __name__ == "__main__":
    main()
