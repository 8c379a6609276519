#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution + SMT (see DESIGN.md).

usage: check.py PROPERTY [--tier quick|thorough] [--job NAME] [--keep]
       check.py --replay FILE      re-run a stored counterexample natively
       check.py --setup            build the engine
Exit 0: held for every value within the stated bounds.  Exit 1: VIOLATION line.
Anything else: the check could not decide (no claim made).
"""
import sys, os, json, subprocess, tempfile, shutil, hashlib, time, glob, re, signal
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
ENGINE = os.path.join(VERIF, "engine")
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, HERE)
DEFINES = ["-DHAS_STDINT_H", "-DHAS_INTTYPES_H", "-DUSE_GZIP_MBOX", "-DUSE_BZIP_MBOX", "-DUSE_XZ_MBOX", "-DUSE_OPENSSL"]
NATIVE_LIBS = ["-lz", "-lbz2", "-llzma", "-lssl", "-lcrypto"]
NCPU = os.cpu_count() or 4
DEADLINE = 0


class Undecided(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# ---------------------------------------------------------------- engine
def engine_path():
    h = hashlib.sha256()
    for f in sorted(os.listdir(ENGINE)):
        h.update(open(os.path.join(ENGINE, f), "rb").read())
    p = os.path.join(BUILD, "symx-" + h.hexdigest()[:16])
    if not os.path.exists(p):
        os.makedirs(BUILD, exist_ok=True)
        tmp = p + ".tmp%d" % os.getpid()
        r = sh(["bash", os.path.join(ENGINE, "build.sh"), tmp])
        if r.returncode != 0 or not os.path.exists(tmp):
            raise Undecided("engine build failed:\n" + r.stdout[-3000:])
        os.rename(tmp, p)
    return p


# ---------------------------------------------------------------- sources
class Sources:
    """A private copy of the working tree's sources, with the generated scanners."""

    def __init__(self, need_gen):
        self.dir = tempfile.mkdtemp(prefix="vf-src-", dir=os.environ.get("VF_TMP", "/tmp"))
        self.src = os.path.join(self.dir, "src")
        os.makedirs(self.src)
        for f in os.listdir(REPO):
            p = os.path.join(REPO, f)
            if os.path.isfile(p) and (f.endswith((".c", ".h", ".nfa", ".in")) or f in ("configure", "mkversion", "version.txt")):
                if f in ("datescan.c", "datescan.h", "fromcheck.c", "fromcheck.h", "nvpscan.c", "nvpscan.h", "version.h"):
                    continue
                shutil.copy2(p, self.src)
        self.digest = hashlib.sha256()
        for f in sorted(os.listdir(self.src)):
            self.digest.update(f.encode() + open(os.path.join(self.src, f), "rb").read())
        with open(os.path.join(self.src, "version.h"), "w") as f:
            f.write('#define PROGRAM_VERSION "vf"\n')
        if need_gen:
            self.generate()

    def generate(self):
        d = os.path.join(self.src, "dfasyn")
        os.makedirs(d)
        for f in os.listdir(os.path.join(REPO, "dfasyn")):
            p = os.path.join(REPO, "dfasyn", f)
            if os.path.isfile(p) and (f.endswith((".c", ".h", ".l", ".y")) or f in ("Makefile", "configure")):
                if f in ("scan.c", "parse.c", "parse.h"):
                    continue
                shutil.copy2(p, d)
                self.digest.update(f.encode() + open(p, "rb").read())
        env = dict(os.environ, CC="gcc", LC_ALL="C")
        for v in ("CFLAGS", "CPPFLAGS", "LDFLAGS", "MAKEFLAGS", "MAKEFILES", "MFLAGS"):
            env.pop(v, None)
        r = sh(["sh", "./configure"], cwd=self.src, env=env)
        r2 = sh(["make", "datescan.c", "datescan.h", "fromcheck.c", "fromcheck.h", "nvpscan.c", "nvpscan.h"], cwd=self.src, env=env)
        if not os.path.exists(os.path.join(self.src, "nvpscan.c")):
            raise Undecided("scanner generation failed:\n" + r.stdout[-800:] + r2.stdout[-2000:])

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def harness_file(job):
    return os.path.join(HARN, job["harness"])


def cflags(job, src):
    return ["-I" + src, "-I" + HARN] + DEFINES


def hdefs(job):
    """the bounds of a job, for its harness only"""
    return ["-D" + d for d in job.get("defs", [])]


# call __sanitizer_cov_trace_pc() in every basic block of a file: points where
# the program can be interrupted, wherever the source puts its calls
BLOCKS = ["-fsanitize-coverage=bb,trace-pc"]


class BuildError(Exception):
    pass


def build_bitcode(job, src, wd):
    base = ["clang-18", "-std=gnu11", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-emit-llvm", "-c", "-fno-builtin", "-w", "-DSYMX"] + cflags(job, src)
    outs = []
    for k, f in enumerate([harness_file(job), os.path.join(HARN, "libc_model.c")] + [os.path.join(src, s) for s in job.get("link", [])]):
        o = os.path.join(wd, "%d-%s.bc" % (k, os.path.basename(f)))
        if not os.path.exists(f):
            raise BuildError("source file missing: " + f)
        pre = ["-include", "vhsys.h"] + ["-DVH_" + x for x in job["pre"]] if k >= 2 and job.get("pre") else hdefs(job) if k == 0 else []
        if k >= 2 and os.path.basename(f) in job.get("blocks", ()):
            pre = pre + BLOCKS
        r = sh(base + pre + [f, "-o", o])
        if r.returncode:
            raise BuildError(r.stdout[-3000:])
        outs.append(o)
    r = sh(["llvm-link-18"] + outs + ["-o", os.path.join(wd, "all.bc")])
    if r.returncode:
        raise BuildError(r.stdout[-3000:])
    bc = os.path.join(wd, "prog.bc")
    r = sh(["opt-18", "-passes=function(mem2reg,instcombine<no-verify-fixpoint>,simplifycfg<sink-common-insts>)", os.path.join(wd, "all.bc"), "-o", bc])
    if r.returncode:
        raise BuildError(r.stdout[-3000:])
    return bc


def build_native(job, src, wd, variant="asan"):
    out = os.path.join(wd, "native-" + variant)
    if os.path.exists(out):
        return out
    if variant == "asan" and job.get("blocks"):
        cc = ["clang-18", "-g", "-O0", "-fsanitize=address", "-fno-omit-frame-pointer", "-fno-builtin"]
    elif variant == "asan":
        cc = ["gcc", "-g", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-fno-builtin"]
    elif variant == "pattern":
        cc = ["gcc", "-g", "-O0", "-fsanitize=address", "-ftrivial-auto-var-init=pattern", "-fno-builtin"]
    elif variant == "msan":
        cc = ["clang-18", "-g", "-O0", "-fsanitize=memory", "-fno-builtin"]
    else:
        cc = ["gcc", "-g", "-O2"]
    base = cc + ["-std=gnu11", "-w", "-fno-pie"] + cflags(job, src)
    objs = []
    for k, f in enumerate([harness_file(job)] + [os.path.join(src, s) for s in job.get("link", [])]):
        o = "%s-%d.o" % (out, k)
        pre = ["-include", "vhsys.h"] + ["-DVH_" + x for x in job["pre"]] if k and job.get("pre") else hdefs(job) if k == 0 else []
        if k and os.path.basename(f) in job.get("blocks", ()):
            pre = pre + BLOCKS
        r = sh(base + pre + ["-c", f, "-o", o])
        if r.returncode:
            raise BuildError(r.stdout[-3000:])
        objs.append(o)
    # functions the harness can never reach are left unresolved
    r = sh(cc + ["-no-pie", "-Wl,--unresolved-symbols=ignore-all", "-w"] + objs + ["-o", out] + NATIVE_LIBS)
    if r.returncode:
        raise BuildError(r.stdout[-3000:])
    return out


def run_native(exe, inputs, wd, fill=None, timeout=20):
    inp = os.path.join(wd, "in-%d-%d.txt" % (os.getpid(), time.monotonic_ns()))
    with open(inp, "w") as f:
        f.write("\n".join(str(x) for x in inputs) + "\n")
    env = dict(os.environ, VH_INPUT=inp, TZ="UTC", LC_ALL="C")
    ao = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1"
    if fill is not None:
        ao += ":max_malloc_fill_size=1000000:malloc_fill_byte=%d" % fill
    env["ASAN_OPTIONS"] = ao
    env["MSAN_OPTIONS"] = "exitcode=98"
    run = os.path.join(wd, "cwd")
    os.makedirs(run, exist_ok=True)
    try:
        p = subprocess.run([exe], env=env, cwd=run, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
        rc, err = p.returncode, p.stderr.decode("latin1")
    except subprocess.TimeoutExpired as e:
        rc, err = "timeout", (e.stderr or b"").decode("latin1")
    os.unlink(inp)
    return rc, err


def failed_natively(rc, err):
    """does this run of the real code show the failure?"""
    if rc == 77 or "ASSUME-FALSE" in err or "INPUT-EXHAUSTED" in err and rc == 0:
        return None
    if rc == "timeout":
        return "does not terminate"
    m = re.search(r"VHREPLAY FAIL:(.*)", err)
    if m:
        return m.group(1)
    m = re.search(r"ERROR: AddressSanitizer: (.*)", err)
    if m:
        return "AddressSanitizer: " + m.group(1)
    m = re.search(r"WARNING: MemorySanitizer: (.*)", err)
    if m:
        return "MemorySanitizer: " + m.group(1)
    m = re.search(r"Assertion `(.*)' failed", err)
    if m:
        return "assertion failed: " + m.group(1)
    if isinstance(rc, int) and rc < 0:
        return "killed by signal %d" % -rc
    if rc != 0:
        return "exit status %s" % rc
    return None


# ---------------------------------------------------------------- one job
def run_job(job, src, engine, tier, keep=None):
    t0 = time.time()
    wd = tempfile.mkdtemp(prefix="vf-job-", dir=os.path.dirname(src))
    res = {"job": job["name"], "errors": [], "covers": {}, "limits": [], "paths": [], "stats": {}, "funcs": {}, "wd": wd}
    try:
        bc = build_bitcode(job, src, wd)
    except BuildError as e:
        res["build_error"] = str(e)
        return res
    out = os.path.join(wd, "out")
    os.makedirs(out)
    tmo = job.get("timeout", 400) * (8 if tier == "thorough" else 1)
    tmo = max(20, min(tmo, DEADLINE - time.time()))
    cmd = [engine, bc, "--out", out, "--timeout", str(tmo), "--procs", str(job.get("procs", NCPU)), "--max-steps", str(job.get("max_steps", 3000000))]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tmo + 40)
        if p.returncode != 0:
            res["limits"].append({"msg": "engine stopped (%s): %s" % (p.returncode, p.stdout[-500:])})
    except subprocess.TimeoutExpired:
        res["limits"].append({"msg": "engine exceeded its time limit"})
    for f in glob.glob(out + "/crash*"):
        res["limits"].append({"msg": "an engine worker died"})
    for f in glob.glob(out + "/*.jsonl"):
        last = None
        for line in open(f, errors="replace"):
            try:
                d = json.loads(line)
            except ValueError:
                res["limits"].append({"msg": "truncated engine output"})
                continue
            last = d["type"]
            if d["type"] == "error":
                res["errors"].append(d)
            elif d["type"] == "cover":
                res["covers"].setdefault(d["label"], d)
            elif d["type"] == "limit":
                res["limits"].append(d)
            elif d["type"] == "path":
                res["paths"].append(d)
            elif d["type"] == "stats":
                for k, v in d.items():
                    if k != "type":
                        res["stats"][k] = res["stats"].get(k, 0) + v
            elif d["type"] == "funcs":
                for n, fl, h, t in d["list"]:
                    k = (n, fl)
                    o = res["funcs"].get(k, (0, t))
                    res["funcs"][k] = (max(o[0], h), t)
        if last != "funcs":
            res["limits"].append({"msg": "an engine worker did not finish"})
    if res["stats"].get("limits", 0) and not res["limits"]:
        res["limits"].append({"msg": "exploration incomplete (time limit)"})
    res["wall"] = time.time() - t0
    return res


def confirm(job, src, res):
    """Replay every reported error on the real code; returns the reproduced ones."""
    confirmed, spurious = [], []
    cands = list(res["errors"])
    for l in res["limits"]:
        if "step limit" in l.get("msg", "") and "inputs" in l:
            cands.append(dict(l, kind="hang", loc="", func="", undef=0))
    seen = set()
    for e in cands:
        key = (e["kind"], e.get("msg"), e.get("loc"))
        if key in seen:
            continue
        tries = [("asan", None)]
        if e.get("undef"):
            tries += [("asan", 0), ("asan", 255), ("asan", 0x41), ("pattern", 0xbe), ("pattern", 1), ("msan", None)]
        why = None
        for variant, fill in tries:
            try:
                exe = build_native(job, src, res["wd"], variant)
            except BuildError as be:
                e["replay"] = "native build failed: " + str(be)[-500:]
                continue
            rc, err = run_native(exe, e["inputs"], res["wd"], fill)
            why = failed_natively(rc, err)
            if why:
                e["replay"] = why
                e["replay_variant"] = variant
                e["replay_fill"] = fill
                e["replay_stderr"] = err[-3000:]
                break
            e["replay"] = "not reproduced (rc=%s)" % rc
        if why:
            seen.add(key)
            confirmed.append(e)
        else:
            spurious.append(e)
    return confirmed, spurious


def validate(job, src, res, maxn=12):
    """Replay reachability witnesses and sampled paths on the real code."""
    n, bad, samples = 0, [], []
    todo = [("cover", l, d["inputs"], None, d.get("undef", 0)) for l, d in res["covers"].items()]
    ps = [p for p in res["paths"] if not p.get("undef")]
    step = max(1, len(ps) // maxn)
    todo += [("path", None, p["inputs"], p["obs"], 0) for p in ps[::step][:maxn]]
    if not todo:
        return 0, [], []
    exe = build_native(job, src, res["wd"])
    for kind, label, inputs, obs, undef in todo:
        rc, err = run_native(exe, inputs, res["wd"])
        if kind == "cover":
            # the witness only fixes the inputs drawn up to the label
            if ("VHREPLAY COVER:%s (" % label) in err:
                n += 1
                samples.append({"witness": label, "inputs": inputs[:64]})
            elif not undef:
                bad.append("witness %r not reached natively (rc=%s)" % (label, rc))
        else:
            got = [int(x) for x in re.findall(r"VHREPLAY OBS (\d+)", err)]
            want = [x & 0xffffffffffffffff for x in obs]
            if rc == 0 and got == want:
                n += 1
                if len(samples) < 6:
                    samples.append({"path": inputs[:64], "observed": obs[:32]})
            else:
                bad.append("path %s: native rc=%s obs=%s, engine obs=%s" % (inputs[:40], rc, got[:20], want[:20]))
    return n, bad, samples


# ---------------------------------------------------------------- known findings
def load_findings():
    p = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(p):
        return json.load(open(p)).get("findings", [])
    return []


def match_finding(pid, job, e, findings):
    for f in findings:
        if f.get("status") != "open" or f["property"] != pid or f.get("job") not in (None, job["name"]):
            continue
        if f.get("msg") and f["msg"] not in e.get("msg", ""):
            continue
        if f.get("func") and f["func"] != e.get("func"):
            continue
        return f
    return None


# ---------------------------------------------------------------- main
def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        print(engine_path())
        return 0
    if args and args[0] == "--replay":
        return replay(args[1])
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    keep = False
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]; i += 2
        elif args[i] == "--job":
            only = args[i + 1]; i += 2
        elif args[i] == "--keep":
            keep = True; i += 1
        else:
            i += 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from jobs import PROPS
    prop = PROPS[pid]
    jobs = [j for j in prop["jobs"] if tier == "thorough" or j.get("tier", "quick") == "quick"]
    if only:
        jobs = [j for j in prop["jobs"] if j["name"] == only]
    t0 = time.time()
    engine = engine_path()
    srcs = Sources(any(j.get("gen") for j in jobs))
    rc = 2
    try:
        rc = decide(pid, prop, jobs, srcs, engine, tier, seed, t0, bool(only))
    finally:
        if keep:
            print("kept", srcs.dir)
        else:
            srcs.close()
    return rc


def decide(pid, prop, jobs, srcs, engine, tier, seed, t0, partial):
    findings = load_findings()
    conc = min(len(jobs), 4)
    global DEADLINE
    DEADLINE = t0 + (780 if tier == "quick" else 6 * 3600)
    for j in jobs:
        j.setdefault("procs", max(2, NCPU // conc))
    results = {}
    with ThreadPoolExecutor(max_workers=conc) as ex:
        futs = {ex.submit(run_job, j, srcs.src, engine, tier): j for j in sorted(jobs, key=lambda j: -j.get("cost", 1))}
        for f in as_completed(futs):
            results[futs[f]["name"]] = f.result()
    violations, problems, notes, known, incomplete = [], [], [], [], []
    validated, samples = 0, []
    ran = 0
    for j in jobs:
        r = results[j["name"]]
        if "build_error" in r:
            msg = "harness %s does not build against this tree: %s" % (j["name"],  " | ".join([x for x in r["build_error"].splitlines() if "error" in x][:3])[:600])
            (notes if j.get("optional") else problems).append(msg)
            continue
        ran += 1
        conf, spur = confirm(j, srcs.src, r)
        for e in conf:
            f = match_finding(pid, j, e, findings)
            if f:
                known.append((f, j, e))
            else:
                violations.append((j, e))
        for e in spur:
            problems.append("%s: solver counterexample did not reproduce natively: %s at %s (%s)" % (j["name"], e.get("msg"), e.get("loc"), e.get("replay")))
        if conf:
            continue
        for l in r["limits"]:
            incomplete.append("%s: not fully explored: %s" % (j["name"], l.get("msg")))
        if r["limits"] and not (r["stats"].get("paths", 0) + r["stats"].get("exits", 0)):
            problems.append("%s: no path could be completed" % j["name"])
        if not r["errors"] and not r["limits"]:
            miss = [c for c in j.get("covers", []) if c not in r["covers"]]
            if miss:
                problems.append("%s: vacuous, never reached: %s" % (j["name"], miss))
        try:
            n, bad, sm = validate(j, srcs.src, r)
            validated += n
            samples += [dict(s, job=j["name"]) for s in sm[:3]]
            if bad:
                problems += ["%s: engine and native run differ: %s" % (j["name"], b) for b in bad]
        except BuildError as be:
            problems.append("%s: native build failed: %s" % (j["name"], str(be)[-600:]))
    for m in sorted(set(incomplete))[:20]:
        print("INCOMPLETE: " + m)
    for f, j, e in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    write_evidence(pid, prop, jobs, results, tier, seed, t0, validated, samples, violations, problems, notes, known, srcs, incomplete)
    rc = 0
    if violations:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        for k, (j, e) in enumerate(violations):
            p = os.path.join(rd, "%s-%s-%d.json" % (pid, j["name"], k))
            json.dump({"property": pid, "job": j["name"], "error": e}, open(p, "w"), indent=1)
            print("  %s: %s at %s in %s; on the real code: %s; inputs=%s" % (j["name"], e.get("msg"), e.get("loc"), e.get("func"), e.get("replay"), e["inputs"][:40]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        rc = 1
    elif problems:
        for p in problems:
            print("UNDECIDED: " + p)
        rc = 2
    for n in notes:
        print("NOTE: " + n)
    if rc == 0:
        tot = sum(r["stats"].get("paths", 0) + r["stats"].get("exits", 0) for r in results.values())
        q = sum(r["stats"].get("queries", 0) for r in results.values())
        print("OK property=%s tier=%s jobs=%d paths=%d queries=%d validated=%d wall=%.1fs" % (pid, tier, ran, tot, q, validated, time.time() - t0))
    if partial or os.environ.get("VF_VERBOSE"):
        for n, r in results.items():
            print(n, "wall=%.1f" % r.get("wall", 0), {k: round(v, 2) for k, v in r["stats"].items()}, "covers", list(r["covers"]))
    return rc


def write_evidence(pid, prop, jobs, results, tier, seed, t0, validated, samples, violations, problems, notes, known, srcs, incomplete):
    S = lambda k: sum(r["stats"].get(k, 0) for r in results.values())
    funcs = {}
    for r in results.values():
        for (n, f), (h, t) in r["funcs"].items():
            if os.path.exists(os.path.join(srcs.src, f)):
                o = funcs.get((n, f), (0, t))
                funcs[(n, f)] = (max(o[0], h), t)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": prop.get("level", "model_checking"),
        "coverage": {
            "states": int(S("paths") + S("exits") + S("forks")),
            "transitions": int(S("instrs")),
            "traces_validated_against_impl": validated,
            "samples": samples[:20],
            "state_meaning": "states = symbolic states (completed path conditions plus fork points); transitions = LLVM instructions executed symbolically; each state stands for every input satisfying its path condition",
            "paths_completed": int(S("paths")), "paths_ended_by_exit": int(S("exits")), "paths_outside_assumptions": int(S("infeasible")),
            "solver_queries": int(S("queries")), "queries_sat": int(S("sat")), "queries_unsat": int(S("unsat")), "queries_unknown": int(S("unknown")),
            "decided_by_cached_model_or_domain": int(S("modelhits") + S("domhits") + S("cache")),
            "solver_s": round(S("solver_s"), 2),
            "assertions_decided": int(S("checks")), "memory_accesses_checked": int(S("memchecks")),
            "functions_encoded": ["%s (%s, %d/%d blocks)" % (n, f, h, t) for (n, f), (h, t) in sorted(funcs.items(), key=lambda x: (x[0][1], x[0][0]))],
            "jobs": [{"name": j["name"], "bounds": j.get("bounds", ""), "stubs": j.get("stubs", ""), "wall_s": round(results[j["name"]].get("wall", 0), 1),
                      "paths": results[j["name"]]["stats"].get("paths", 0), "queries": results[j["name"]]["stats"].get("queries", 0),
                      "witnesses": sorted(results[j["name"]]["covers"])} for j in jobs],
            "exhaustive_within_bounds": not problems and not violations and not incomplete, "not_fully_explored": sorted(set(incomplete))[:20],
            "violations": [{"job": j["name"], "msg": e.get("msg"), "inputs": e["inputs"][:64]} for j, e in violations],
            "problems": problems[:20], "notes": notes, "known_findings": [f["id"] for f, _, _ in known],
        },
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)


def replay(path):
    d = json.load(open(path))
    from jobs import PROPS
    job = [j for j in PROPS[d["property"]]["jobs"] if j["name"] == d["job"]][0]
    srcs = Sources(job.get("gen", False))
    try:
        wd = tempfile.mkdtemp(prefix="vf-job-", dir=srcs.dir)
        e = d["error"]
        exe = build_native(job, srcs.src, wd, e.get("replay_variant", "asan"))
        rc, err = run_native(exe, e["inputs"], wd, e.get("replay_fill"))
        sys.stderr.write(err)
        why = failed_natively(rc, err)
        print("reproduced: " + why if why else "not reproduced (rc=%s)" % rc)
        return 1 if why else 0
    finally:
        srcs.close()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Undecided as u:
        print("UNDECIDED: %s" % u)
        sys.exit(2)
