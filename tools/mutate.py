#!/usr/bin/env python3
"""Mutation campaign over the sources: small random edits, each judged by the checks that name its file (first few cases only).
   mutate.py OUT.jsonl SEED COUNT [WORKERS] [FILE...]     survivors are listed with no killer.  Works on scratch copies under /tmp/mu only.
   MUT=state in the environment: instead of single operators, edits that need a history or a size: values kept from the first call, loops cut short."""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools"); sys.path.insert(0, V + "/harness")
from table import TABLE
from props import PROPS
out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
workers = int(sys.argv[4]) if len(sys.argv) > 4 else 8
only = sys.argv[5:]
FILES = {}
for t in TABLE:
    for f in t["files"]:
        h = f.replace("src/", "include/").replace(".cpp", ".hpp")
        for g in {f, h}:
            if os.path.exists("/repo/" + g) and t["id"] not in FILES.get(g, []): FILES.setdefault(g, []).append(t["id"])
DEF = ["etc", "hdf5_utils", "input_parser", "parameter", "topology_handler", "component_topology_handler", "dg_bilinear", "dg_linear", "dg_mixed_bilin",
       "hyperreduction_integ", "interface_form", "interfaceinteg", "linalg_utils", "nonlinear_integ", "parameterized_problem", "rom_element_collection", "block_smoother"]
HDR = ["etc", "hdf5_utils", "input_parser", "parameter", "topology_handler", "component_topology_handler", "dg_linear", "hyperreduction_integ", "interface_form", "interfaceinteg", "linalg_utils",
       "nonlinear_integ", "parameterized_problem", "rom_element_collection", "block_smoother"]
files = only or (["include/%s.hpp" % f for f in HDR] if os.environ.get("MUT") == "hdr" else ["src/%s.cpp" % f for f in DEF])
RULES = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r"\+=", "-="), (r"-=", "+="), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "),
         (r" != ", " == "), (r"&&", "||"), (r"\|\|", "&&"), (r"\b0\.5\b", "1.0"), (r"\b1\.0\b", "2.0"), (r"\b2\.0\b", "1.0"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "1"),
         (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\((\w+), (\w+)\)", r"(\2, \1)"), (r"(\w)1\b", r"\g<1>2"), (r"(\w)2\b", r"\g<1>1"), (r"\bif \(", "if (!("),
         (r"^(\s*)[^\s{}/#].*;\s*$", r"\1;"), (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\bcontinue;", ";"), (r"\bbreak;", ";"), (r"\bMult\(", "MultTranspose("), (r"\.Add\((\S+?),", r".Add(-(\1),"),
         (r"(?<=[=(,]) ?-(?=\w)", " "), (r"\bmax\(", "min("), (r"\bmin\(", "max(")]
if os.environ.get("MUT") == "state":
    RULES = [(r"^(\s*)((?:const )?(?:int|double|bool|std::string|Array<int>|Vector|DenseMatrix|IntegrationRule|FiniteElement|auto)\b[^;(=]*=.*;)", r"\1static \2"),
             (r"(for \((?:int|std::size_t|size_t|long) (\w+) = 0; \2 < )([^;]+);", r"\1std::min<long>(\3, 3);"), (r"(for \((?:int|std::size_t|size_t|long) (\w+) = 0; \2 < )([^;]+);", r"\1std::min<long>(\3, 8);"),
             (r"(for \((?:int|std::size_t|size_t|long) (\w+) = 0; \2 < )([^;]+);", r"\1std::min<long>(\3, 20);"),
             (r"^(\s*)([^\s{}/#][^;{}]*;)\s*$", r"\1{ static long vf_n = 0; if (vf_n++ < 1) { \2 } }"), (r"^(\s*)([^\s{}/#][^;{}]*;)\s*$", r"\1{ static long vf_n = 0; if (vf_n++ < 40) { \2 } }")]
SKIP = re.compile(r"^\s*(//|/\*|\*|#|}|{|using|return;|else\s*$|public|private|protected|template|class|default|case)|printf|assert|mfem_error|MFEM_|timer\.|std::cout|\bdelete\b|^\s*(const )?(int|double|Vector|DenseMatrix|bool|std::string|Array<\w+>|herr_t|hid_t)( [*&]?\w+( = 0| = NULL)?,?)+;")
rng = random.Random(seed)


def mutants(f):
    lines = open("/repo/" + f).read().split("\n"); res = []; com = False
    for k, l in enumerate(lines):
        if "/*" in l: com = True
        c = com
        if "*/" in l: com = False
        if c or SKIP.search(l) or not l.strip(): continue
        body = l.split("//")[0]
        for a, b in RULES:
            for m in re.finditer(a, body):
                new = body[:m.start()] + m.expand(b) + body[m.end():]
                if a.startswith(r"\bif"):
                    d = 0; p = None
                    for q in range(m.end() - 1, len(body)):
                        d += body[q] == "("; d -= body[q] == ")"
                        if d == 0: p = q; break
                    if p is None: continue
                    new = body[:m.start()] + "if (!(" + body[m.end():p] + "))" + body[p + 1:]
                if new.strip() != body.strip(): res.append((k, l, new))
    return res


pool = {f: mutants(f) for f in files}
jobs = []; seen = set()
while len(jobs) < count:
    f = rng.choices(files, [len(pool[f]) ** 0.6 for f in files])[0]; m = rng.choice(pool[f])
    if (f, m[0], m[2]) in seen: continue
    seen.add((f, m[0], m[2])); jobs.append((f,) + m)
lock = threading.Lock(); free = list(range(workers))


def work(n, job):
    f, k, old, new = job
    with lock: w = free.pop()
    d = "/tmp/mu/w%d" % w; b = "/tmp/mu/b%d" % w
    try:
        os.makedirs(d, exist_ok=True)
        for s in ("src", "include", "utils"):
            subprocess.run(["rsync", "-a", "--checksum", "--delete", "/repo/%s/" % s, "%s/%s/" % (d, s)], check=True) if shutil.which("rsync") else (shutil.rmtree(d + "/" + s, ignore_errors=True), shutil.copytree("/repo/" + s, d + "/" + s))
        t = open(d + "/" + f).read().split("\n"); t[k] = new; open(d + "/" + f, "w").write("\n".join(t))
        env = dict(os.environ, VF_REPO=d, VF_BUILD=b)
        props = sorted(FILES.get(f, []), key=lambda p: (bool(PROPS[p].get("rom")), p)); killer = None; t0 = time.time(); note = ""
        for p in props:
            r = subprocess.run([sys.executable, V + "/run.py", "build", p], env=env, capture_output=True, text=True)
            if r.returncode: killer = "compile"; break
            x = "%s/%s.x" % (b, PROPS[p]["driver"])
            nn = int(subprocess.run([x, "--list"], capture_output=True, text=True).stdout)
            wk = "/tmp/mu/t%d" % w; shutil.rmtree(wk, ignore_errors=True); os.makedirs(wk)
            step = max(1, nn // 40)
            while step > 1 and any(step % d == 0 for d in (2, 3, 5, 7, 11)): step += 1   # no alias with the case kinds
            kf = [l.split("key=")[1].split()[0] for l in open(V + "/known_findings.txt") if l.startswith("finding: property=" + p)]
            e = dict(env, VF_WORK=wk, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self", OMPI_MCA_plm="isolated", OMPI_MCA_ess_singleton_isolated="1", OMPI_MCA_orte_tmpdir_base=wk, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                     ASAN_OPTIONS="detect_leaks=0:exitcode=99:max_malloc_fill_size=1073741824:malloc_fill_byte=190")
            for off in (0, step // 2 + 1):
                try: rr = subprocess.run([x, "--from", str(off), "--step", str(step), "--to", str(nn), "--out", wk + "/o"], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=400)
                except subprocess.TimeoutExpired: killer = p + ":hang"; break
                if rr.returncode: killer = p + ":crash"; break
                vs = [v["key"] for v in json.load(open(wk + "/o"))["violations"]]; vs = [v for v in vs if v.replace(" ", "_") not in kf]
                if vs: killer = p + ":" + vs[0]; break
                if step == 1: break
            shutil.rmtree(wk, ignore_errors=True)
            if killer: break
        with lock:
            open(out, "a").write(json.dumps(dict(n=n, file=f, line=k + 1, old=old.strip(), new=new.strip(), killer=killer, s=round(time.time() - t0))) + "\n")
    except Exception as ex:
        with lock: open(out, "a").write(json.dumps(dict(n=n, file=f, line=k + 1, error=repr(ex))) + "\n")
    finally:
        with lock: free.append(w)


with cf.ThreadPoolExecutor(workers) as ex:
    list(ex.map(lambda a: work(*a), enumerate(jobs)))
