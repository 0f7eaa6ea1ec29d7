#!/usr/bin/env python3
"""Driver: builds the harnesses from /repo's working tree, explores, writes evidence, reports.

  run.py setup                 pre-build everything (optional, checks do it themselves)
  run.py check ID [--tier T]   decide one property
  run.py replay FILE           run one recorded counterexample again
  run.py manifest              write MANIFEST.json
"""
import concurrent.futures as cf, hashlib, json, os, re, shlex, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NBODY_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
EVID = os.path.join(VERIF, "evidence")
JOBS = os.cpu_count() or 4
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def scratch_root():
    d = "/dev/shm"
    try:
        st = os.statvfs(d)
        if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > 1 << 30:
            return d
    except OSError:
        pass
    return None


def die(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(2)


def qt_flags():
    inc = "/usr/include/x86_64-linux-gnu/qt5"
    return ["-I" + inc] + ["-I%s/%s" % (inc, m) for m in ("QtCore", "QtGui", "QtWidgets", "QtOpenGL", "QtConcurrent")]


VARIANTS = {
    # sequential exploration, memory errors are violations
    "san": dict(cxx="g++", flags=["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
                                  "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-fopenmp"],
                link=["-fsanitize=address,undefined", "-fopenmp"], opencl=False, runtime=[]),
    "opt": dict(cxx="g++", flags=["-O2", "-g1", "-march=x86-64-v2", "-fopenmp"], link=["-fopenmp"],
                opencl=False, runtime=[]),
    # every memory access and every OpenMP construct goes to runtime/mcomp.cpp
    "omp": dict(cxx="g++", flags=["-O1", "-g1", "-fopenmp", "-fsanitize=thread"],
                link=["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-fopenmp"],
                opencl=False, runtime=["mcomp.cpp"], rtflags=["-O2", "-g1", "-std=gnu++17", "-fno-builtin"]),
    # OpenCL host code against runtime/fakecl.cpp
    "cl": dict(cxx="g++", flags=["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
                                 "-fno-sanitize-recover=undefined", "-fopenmp", "-DHAVE_OPENCL", "-DHAVE_OPENCL2"],
               link=["-fsanitize=address,undefined", "-fopenmp", "-rdynamic"], opencl=True, runtime=["fakecl.cpp"],
               rtflags=["-O1", "-g1", "-std=gnu++17", "-fPIC"]),
    # CUDA code against runtime/fakecuda.cpp
    "cuda": dict(cxx="g++", flags=["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
                                   "-fno-sanitize-recover=undefined", "-fopenmp", "-DHAVE_CUDA", "-DHAVE_NCCL",
                                   "-I" + os.path.join(VERIF, "runtime", "cuda")],
                 link=["-fsanitize=address,undefined", "-fopenmp"], opencl=False, cuda=True, runtime=["fakecuda.cpp"],
                 rtflags=["-O1", "-g1", "-std=gnu++17", "-fPIC", "-I" + os.path.join(VERIF, "runtime", "cuda")]),
    # the player on widgets, OpenGL and background tasks of our own (harness/gui, runtime/fakegl.cpp)
    "gui": dict(cxx="g++", flags=["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
                                  "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-fopenmp"],
                link=["-fsanitize=address,undefined", "-fopenmp", "-lQt5Widgets", "-lQt5Gui", "-lQt5OpenGL", "-lQt5Concurrent",
                      "-lopencv_videoio", "-lopencv_core", "-lGLU", "-lGL"],
                opencl=False, runtime=["fakegl.cpp"], player=True,
                rtflags=["-O1", "-g1", "-std=gnu++17", "-fPIC"] + qt_flags()),
}
BASE = ["-std=gnu++11", "-fPIC", "-w", "-DNBODY_EXPORT_DLL", "-DHAVE_OPENMP", "-DQT_NO_KEYWORDS_"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def file_hash(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def cuda_to_cxx(path):
    """CUDA source as C++: kernel launches become calls of fakecuda::Launcher, dynamic shared memory a pointer."""
    src = open(path, errors="replace").read()
    src = re.sub(r"extern\s+__shared__\s+([\w:<> ]+?)\s*\b(\w+)\s*\[\s*\]\s*;",
                 r"\1* \2 = reinterpret_cast<\1*>(fakecuda::shared());", src)
    out, pos = "", 0
    for m in re.finditer(r"([A-Za-z_][\w:]*(?:\s*<[^<>;(){}]*>)?)\s*<<<(.*?)>>>", src, re.S):
        out += src[pos:m.start()]
        out += 'fakecuda::Launcher("%s", %s).of(%s)' % (m.group(1).split("<")[0].strip(), m.group(2).strip(), m.group(1))
        pos = m.end()
    return '#line 1 "%s"\n' % path + out + src[pos:]


def build(variant, harness):
    """Compile the library of the working tree plus one harness. Returns the executable."""
    v = VARIANTS[variant]
    src_dir = os.path.join(REPO, "nbody")
    bdir = os.path.join(BUILD, variant)
    os.makedirs(bdir, exist_ok=True)
    names = sorted(os.listdir(src_dir))
    srcs = [n for n in names if n.endswith(".cpp") and (v.get("cuda") or "cuda" not in n) and (v["opencl"] or "opencl" not in n)]
    headers = [os.path.join(src_dir, n) for n in names if n.endswith((".h", ".cl", ".qrc"))]
    if v.get("cuda"):
        headers += [os.path.join(d, n) for d, _, ns in sorted(os.walk(os.path.join(VERIF, "runtime", "cuda"))) for n in sorted(ns)]
    hh = [os.path.join(VERIF, "harness", n) for n in sorted(os.listdir(os.path.join(VERIF, "harness"))) if n.endswith(".h")]
    hdr_key = file_hash(headers, "")
    cxx, inc = v["cxx"], ["-I" + src_dir, "-I" + os.path.join(VERIF, "harness")] + qt_flags()
    flags = BASE + v["flags"]

    pch_h = os.path.join(bdir, "pch.h")
    pch_key = hashlib.sha256(" ".join([cxx] + flags + ["pch1"]).encode()).hexdigest()
    stamp = pch_h + ".key"
    if not (os.path.exists(pch_h + ".gch") and os.path.exists(stamp) and open(stamp).read() == pch_key):
        with open(pch_h, "w") as f:
            f.write("#include <QtOpenGL/QtOpenGL>\n#include <QtCore/QtCore>\n#include <vector>\n#include <map>\n"
                    "#include <set>\n#include <string>\n#include <memory>\n#include <algorithm>\n#include <functional>\n")
        r = sh([cxx] + flags + inc + ["-x", "c++-header", pch_h, "-o", pch_h + ".gch"])
        if r.returncode:
            die("pch: " + r.stdout[-3000:])
        open(stamp, "w").write(pch_key)

    jobs = []  # (key source list, command, object)
    for n in srcs:
        p = os.path.join(src_dir, n)
        jobs.append((p, [cxx] + flags + ["-include", pch_h] + inc + ["-c", p], os.path.join(bdir, n + ".o"), hdr_key))
    if v["opencl"]:
        qrc = os.path.join(src_dir, "opencl.qrc")
        out = os.path.join(bdir, "qrc_opencl.cpp")
        r = sh(["/usr/lib/qt5/bin/rcc", "-name", "opencl", qrc, "-o", out])
        if r.returncode:
            die("rcc: " + r.stdout)
        jobs.append((out, [cxx] + flags + inc + ["-c", out], os.path.join(bdir, "qrc_opencl.o"), hdr_key))
    if v.get("cuda"):
        for n in names:
            if n.endswith(".cu"):
                out = os.path.join(bdir, n + ".cpp")
                with open(out, "w") as f:
                    f.write(cuda_to_cxx(os.path.join(src_dir, n)))
                jobs.append((out, ["clang++", "-std=gnu++14", "-fPIC", "-w", "-O1", "-g1", "-ffp-contract=off", "-fsanitize=thread",
                                   "-D__CUDA_ARCH__=700", "-D__CUDACC__", "-I" + os.path.join(VERIF, "runtime", "cuda"), "-I" + src_dir, "-c", out],
                             os.path.join(bdir, n + ".o"), hdr_key))
    hkey = hdr_key + file_hash(hh, "")
    hflags = [f for f in flags if f not in ("-fsanitize=thread",)] if variant == "omp" else flags
    for h in harness:
        p = os.path.join(VERIF, "harness", h)
        pre = ["-include", pch_h] if hflags == flags else []
        jobs.append((p, [cxx] + hflags + pre + inc + ["-c", p], os.path.join(bdir, "h_" + h + ".o"), hkey))
    for h in v["runtime"]:
        p = os.path.join(VERIF, "runtime", h)
        jobs.append((p, [cxx, "-w"] + v["rtflags"] + ["-I" + os.path.join(VERIF, "harness"), "-c", p],
                     os.path.join(bdir, "rt_" + h + ".o"), hkey))
    if v.get("player"):
        pdir = os.path.join(REPO, "player")
        pnames = sorted(os.listdir(pdir))
        phdr = [os.path.join(pdir, n) for n in pnames if n.endswith(".h")]
        gui_h = os.path.join(VERIF, "harness", "gui", "fakegui.h")
        pkey = hdr_key + file_hash(phdr + [gui_h], "")
        pflags = [cxx] + [f.replace("gnu++11", "gnu++17") for f in flags] + ["-include", gui_h, "-I" + pdir] + inc + ["-isystem", "/usr/include/opencv4"]
        for n in pnames:
            p = os.path.join(pdir, n)
            if n.endswith(".cpp") and n != "main.cpp":
                jobs.append((p, pflags + ["-c", p], os.path.join(bdir, "p_" + n + ".o"), pkey))
            elif n.endswith(".h") and "Q_OBJECT" in open(p, errors="replace").read():
                out = os.path.join(bdir, "moc_" + n + ".cpp")
                r = sh(["/usr/lib/qt5/bin/moc", p, "-o", out])
                if r.returncode:
                    die("moc: " + r.stdout)
                jobs.append((out, pflags + ["-c", out], out + ".o", pkey))
        jobs = [(a, [x for x in pflags] + ["-c", a], c, d + pkey) if a.startswith(os.path.join(VERIF, "harness")) else
                (a, b, c, d + pkey) if a.startswith(os.path.join(VERIF, "runtime")) else (a, b, c, d) for a, b, c, d in jobs]
    if harness and harness[0].startswith(("c05", "c20_program")):  # the command line program itself, its main renamed
        p = os.path.join(REPO, "test/main/main.cpp")
        jobs.append((p, [cxx] + flags + ["-include", pch_h, "-Dmain=nbody_simulation_main"] + inc + ["-c", p],
                     os.path.join(bdir, "simulation_main.o"), hdr_key))

    def compile_one(j):
        src, cmd, obj, key = j
        k = file_hash([src], key + " ".join(cmd))
        st = obj + ".key"
        if os.path.exists(obj) and os.path.exists(st) and open(st).read() == k:
            return None
        if os.path.exists(st):
            os.remove(st)
        r = sh(cmd + ["-o", obj])
        if r.returncode:
            return "%s\n%s" % (" ".join(cmd), r.stdout[-4000:])
        open(st, "w").write(k)
        return None

    with cf.ThreadPoolExecutor(JOBS) as ex:
        for e in ex.map(compile_one, sorted(jobs, key=lambda j: -os.path.getsize(j[0]))):
            if e:
                die("compilation failed: " + e)
    exe = os.path.join(bdir, "x_" + harness[0].replace(".cpp", ""))
    cmd = [cxx] + [j[2] for j in jobs] + v["link"] + ["-lQt5Core", "-lpthread", "-ldl", "-o", exe]
    r = sh(cmd)
    if r.returncode:
        die("link failed: " + r.stdout[-4000:])
    return exe


ENV_EXTRA = {
    "ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=4096"
                    ":detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "LSAN_OPTIONS": "exitcode=77", "LC_ALL": "C.UTF-8", "QT_QPA_PLATFORM": "offscreen",
}


def run_harness(exe, args, scratch, timeout, env_over):
    env = dict(os.environ)
    env.update(ENV_EXTRA)
    env.setdefault("OMP_NUM_THREADS", "2")
    env.update(env_over)
    env["VERIF_SCRATCH"] = scratch
    env["VERIF_DIR"] = VERIF
    env["VERIF_REPO"] = REPO
    os.makedirs(scratch, exist_ok=True)
    cur = os.path.join(scratch, "current_case")
    with open(os.path.join(scratch, "stderr"), "wb") as err, open(os.path.join(scratch, "stdout"), "wb") as out:
        p = subprocess.Popen([exe] + args, stdout=out, stderr=err, env=env, cwd=scratch, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
            to = False
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc, to = -9, True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    recs = []
    with open(os.path.join(scratch, "stdout"), errors="replace") as f:
        for line in f:
            if line.startswith("@@"):
                try:
                    recs.append(json.loads(line[2:]))
                except ValueError:
                    pass
    case = ""
    if os.path.exists(cur):
        case = open(cur, errors="replace").read().split("\0")[0].split("\n")[0].strip()
    with open(os.path.join(scratch, "stderr"), "rb") as f:
        f.seek(0, 2)
        n = f.tell()
        f.seek(max(0, n - 200000))
        tail = f.read().decode(errors="replace")
    return dict(rc=rc, timeout=to, recs=recs, case=case, stderr=tail)


def report(text):
    """The part of a sanitizer's report that names the error, or the end of the output."""
    m = re.search(r"^.*(runtime error:|ERROR: \w+Sanitizer|terminate called).*$", text, re.M)
    return text[m.start():m.start() + 2500] if m else text[-2500:]


def known_findings(pid):
    res = {}
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3).strip()
    return res


def merge(summaries):
    tot = {}
    for s in summaries:
        for k, val in s.items():
            if k == "type":
                continue
            if isinstance(val, bool):
                tot[k] = tot.get(k, True) and val
            elif isinstance(val, (int, float)):
                tot[k] = tot.get(k, 0) + val
            elif isinstance(val, list):
                tot.setdefault(k, []).extend(val)
            elif isinstance(val, dict):
                d = tot.setdefault(k, {})
                for kk, vv in val.items():
                    d[kk] = d.get(kk, 0) + vv
            else:
                tot[k] = val
    return tot


def check(pid, tier):
    t0 = time.time()
    spec = CHECKS[pid]
    known = known_findings(pid)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=scratch_root())
    outdir = os.path.join(OUT, pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    os.makedirs(EVID, exist_ok=True)
    violations, known_hit, summaries, problems = [], {}, [], []
    try:
        runs = []
        for part in spec["parts"]:
            exe = build(part["variant"], part["harness"])
            n = part.get("shards", JOBS)
            for i in range(n):
                args = part.get("args", []) + ["--tier", tier, "--shard", "%d/%d" % (i, n)]
                runs.append((part, exe, args))
        budget = 820 if tier == "quick" else 6 * 3600
        t_run = time.time()
        limit = max(60, budget - (t_run - t0))

        def one(ix):
            part, exe, args = runs[ix]
            return ix, run_harness(exe, args, os.path.join(scratch, "s%d" % ix), limit, part.get("env", {}))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            results = [r for r in ex.map(one, range(len(runs)))]
        cand = []
        for ix, r in results:
            part, exe, args = runs[ix]
            for rec in r["recs"]:
                if rec["type"] == "violation":
                    cand.append((part, exe, rec["case"], rec["msg"], rec.get("key", "")))
                elif rec["type"] == "summary":
                    summaries.append(rec)
            has_summary = any(rec["type"] == "summary" for rec in r["recs"])
            if r["timeout"]:
                problems.append("shard %d ran out of time in case %s" % (ix, r["case"]))
            elif r["rc"] != 0 or not has_summary:
                cand.append((part, exe, r["case"], "abnormal end (exit %s): %s" % (r["rc"], report(r["stderr"])), ""))
        # A counterexample counts only after it failed a second time, alone
        seen = set()
        for part, exe, case, msg, key in cand:
            if key and key in known:
                known_hit[key] = known[key]
                continue
            if len(violations) >= 3 or (case, msg[:60]) in seen:
                continue
            seen.add((case, msg[:60]))
            args = part.get("args", []) + ["--tier", tier, "--only", case]
            rr = run_harness(exe, args, os.path.join(scratch, "replay%d" % len(seen)), 600, part.get("env", {}))
            again = [x for x in rr["recs"] if x["type"] == "violation" and not (x.get("key") and x["key"] in known)]
            bad = bool(again) or (not rr["timeout"] and rr["rc"] != 0)
            if not bad:
                problems.append("case %s did not fail again: %s" % (case, msg[:400]))
                continue
            path = os.path.join(outdir, "violation-%d.json" % len(violations))
            json.dump(dict(property=pid, case=case, message=msg, variant=part["variant"], harness=part["harness"],
                           args=part.get("args", []), env=part.get("env", {}), tier=tier,
                           how="python3 /verif/run.py replay " + path), open(path, "w"), indent=1)
            violations.append((path, case, msg))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    tot = merge(summaries)
    cov = {}
    keys = {"model_checking": ["states", "transitions", "traces_validated_against_impl"],
            "fault_enumeration": ["evaluations", "distinct_nontrivial"],
            "exploration": ["evaluations", "distinct_nontrivial"]}[spec["level"]]
    for k in keys:
        cov[k] = int(tot.get(k, 0))
    if spec["level"] != "model_checking":
        cov["rule"] = spec["rule"]
    else:
        cov["how"] = spec["rule"]
    cov["samples"] = tot.get("samples", [])[:12]
    cov["groups"] = tot.get("groups", {})
    for k, val in tot.items():
        if k.startswith("n_"):
            cov[k] = val
    cov["exhaustive"] = bool(tot.get("exhaustive", False)) and not problems
    cov["bounds"] = spec.get("bounds", {}).get(tier, spec.get("bounds", {}).get("quick", ""))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=spec["level"], coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    for k, text in sorted(known_hit.items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, text, k))
    print("%s %s: %s" % (pid, tier, ", ".join("%s=%s" % (k, cov[k]) for k in keys)), "wall=%.1fs" % ev["wall_s"])
    for path, case, msg in violations:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  case: %s\n  %s" % (case, msg.replace("\n", "\n  ")[:1500]))
    if violations:
        return 1
    if problems:
        for p in problems:
            print("ERROR: " + p, file=sys.stderr)
        return 2
    return 0


def replay(path):
    j = json.load(open(path))
    exe = build(j["variant"], j["harness"])
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        r = run_harness(exe, j["args"] + ["--tier", j["tier"], "--only", j["case"]], scratch, 900, j.get("env", {}))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    bad = [x for x in r["recs"] if x["type"] == "violation"]
    for x in bad:
        print(x["case"], x["msg"])
    if r["rc"]:
        print(report(r["stderr"]))
    return 1 if bad or r["rc"] else 0


def manifest():
    """Write MANIFEST.json from checks.py and properties.jsonl."""
    props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
    m = dict(version=1, setup_cmd="python3 run.py setup", checks=[], not_applicable=[],
             notes="No hooks in /repo: the checks compile /repo's sources with runtimes of their own (see DESIGN.md).")
    for p in props:
        c = CHECKS.get(p)
        if c is None:
            m["not_applicable"].append(dict(property=p, reason="no check built yet"))
            continue
        m["checks"].append(dict(property=p, quick_cmd="python3 run.py check %s --tier quick" % p,
                                thorough_cmd="python3 run.py check %s --tier thorough" % p,
                                technique=c["technique"], level=c["level"],
                                level_note=c["rule"] + " Bounds: " + c["bounds"]["quick"] + "; thorough: " + c["bounds"]["thorough"] +
                                ". Assumes: " + "; ".join(c["assumptions"]) + "."))
    json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["manifest"]:
        return manifest()
    if a[:1] == ["setup"]:
        for pid, spec in CHECKS.items():
            for part in spec["parts"]:
                build(part["variant"], part["harness"])
        return 0
    if a[:1] == ["check"]:
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return check(a[1], tier)
    if a[:1] == ["replay"]:
        return replay(a[1])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
