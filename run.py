#!/usr/bin/env python3
"""run.py <property-id> [--tier quick|thorough] [--shard i/n] [--keep]

Builds /repo's current working tree (library objects as listed in its makefile)
into a scratch directory, builds the property's explorer against it, runs all
shards, writes /verif/evidence/<id>.json and prints the verdict.
Exit 0: held on everything explored.  Exit 1: VIOLATION.
"""
import sys, os, re, json, time, subprocess, tempfile, shutil, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LUNAR_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS

FLAVORS = {
    "fast": ["-O2", "-g1", "-fno-fast-math", "-ffp-contract=off"],
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,bounds,null,object-size,vptr".replace(",vptr", ""), "-fno-sanitize-recover=all", "-fsanitize-undefined-trap-on-error", "-ffp-contract=off"],
}
DEFAULT_OBJS = """alt_az ades2mpc astfuncs big_vsop brentmin cgi_func classel conbound cospar date delta_t de_plan
dist_pa eart2000 elp82dat eop_prec getplane get_time jsats lunar2 miscell moid mpc_code mpc_fmt mpc_fmt2 nanosecs nutation
obliquit pluto precess showelem snprintf sof spline ssats triton unpack vislimit vsopson""".split()


def lib_objects():
    """Names of the library objects: read from the makefile, so that moved code is followed."""
    for mk in ("makefile", "Makefile"):
        p = os.path.join(REPO, mk)
        if os.path.exists(p):
            txt = open(p, errors="replace").read().replace("\\\n", " ")
            m = re.search(r"^OBJS\s*=\s*(.*)$", txt, re.M)
            if m:
                objs = [re.sub(r"^\$\(OBJDIR\)/?|\.(o|obj)$", "", o) for o in m.group(1).split() if o.endswith(".o")]
                if len(objs) > 20:
                    return objs
    return DEFAULT_OBJS


def source_of(name):
    if name.startswith("harness/"):
        return os.path.join(VERIF, name)
    for ext in (".cpp", ".c"):
        p = os.path.join(REPO, name + ext)
        if os.path.exists(p):
            return p
    return None


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def compile_one(src, obj, flags):
    comp = ["gcc"] if src.endswith(".c") else ["g++"]
    std = [] if src.endswith(".c") else ["-std=gnu++17"]
    r = run(comp + std + ["-w", "-I", REPO, "-c", src, "-o", obj] + flags)
    return r.returncode, src, r.stdout.decode(errors="replace")


class BuildError(Exception):
    pass


def build_lib(scratch, flavor, extra_flags=()):
    d = os.path.join(scratch, "lib_" + flavor)
    lib = os.path.join(d, "liblunar.a")
    if os.path.exists(lib):
        return lib
    os.makedirs(d, exist_ok=True)
    flags = FLAVORS[flavor] + list(extra_flags)
    jobs, objs = [], []
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        for o in lib_objects():
            s = source_of(o)
            if not s:
                continue
            op = os.path.join(d, o + ".o")
            objs.append(op)
            jobs.append(ex.submit(compile_one, s, op, flags))
        for j in jobs:
            rc, s, out = j.result()
            if rc:
                raise BuildError("cannot compile %s\n%s" % (s, out))
    r = run(["ar", "rcs", lib] + objs)
    if r.returncode:
        raise BuildError(r.stdout.decode())
    return lib


def build_harness(scratch, spec):
    flavor = spec.get("flavor", "fast")
    lib = build_lib(scratch, flavor)
    exe = os.path.join(scratch, os.path.splitext(spec["src"])[0] + "_" + flavor)
    cmd = ["g++", "-std=gnu++17", "-w", "-I", REPO, "-I", os.path.join(VERIF, "harness"),
           os.path.join(VERIF, "harness", spec["src"]), "-o", exe] + FLAVORS[flavor]
    cmd += spec.get("cflags", [])
    for s in spec.get("extra_src", []):
        cmd.append(os.path.join(VERIF if s.startswith("harness/") else REPO, s))
    cmd += [lib] + spec.get("ldflags", []) + ["-lm"]
    r = run(cmd)
    if r.returncode:
        raise BuildError("cannot build %s\n%s" % (spec["src"], r.stdout.decode(errors="replace")))
    return exe


def build_program(scratch, spec):
    """Build one of the repository's own command line programs (black-box runs)."""
    flavor = spec.get("flavor", "fast")
    lib = build_lib(scratch, flavor)
    exe = os.path.join(scratch, "prog_" + spec["name"])
    objs = []
    for i, s in enumerate(spec["sources"]):
        src = source_of(s)
        if not src:
            raise BuildError("no source for " + s)
        o = os.path.join(scratch, "prog_%s_%d.o" % (spec["name"], i))
        rc, _, out = compile_one(src, o, FLAVORS[flavor] + ["-I", os.path.join(VERIF, "harness", "jplstub")] * (spec.get("jpl", False)) + spec.get("cflags", []))
        if rc:
            raise BuildError(out)
        objs.append(o)
    r = run(["g++", "-o", exe] + objs + FLAVORS[flavor] + [lib, "-lm"])
    if r.returncode:
        raise BuildError(r.stdout.decode(errors="replace"))
    return exe


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    shard_only, keep = None, False
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]; i += 2
        elif args[i] == "--shard":
            shard_only = args[i + 1]; i += 2
        elif args[i] == "--keep":
            keep = True; i += 1
        else:
            i += 1
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[pid]
    t0 = time.time()
    base = os.path.join(VERIF, "build")
    os.makedirs(base, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=pid + "_", dir=base)
    try:
        rc = explore(pid, spec, tier, seed, scratch, shard_only, t0)
    finally:
        if not keep:
            shutil.rmtree(scratch, ignore_errors=True)
    return rc


def explore(pid, spec, tier, seed, scratch, shard_only, t0):
    parts = spec["parts"]
    merged = dict(states=0, transitions=0, validated=0, outcomes=0, counters={}, samples=[])
    fails, abnormal, incomplete = [], [], []
    env = dict(os.environ)
    env.update(ASAN_OPTIONS="detect_leaks=0:handle_abort=1:handle_sigill=1:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
               UBSAN_OPTIONS="print_stacktrace=1", LC_ALL="C", TZ="UTC", REPO=REPO, VERIF=VERIF, SCRATCH=scratch)
    for k in list(env):
        if k in ("QUERY_STRING", "CONTENT_TYPE", "CONTENT_LENGTH"):
            del env[k]
    for prog in spec.get("programs", []):
        env["PROG_" + prog["name"].upper()] = build_program(scratch, prog)
    jobs = []
    for part in parts:
        if tier == "quick" and part.get("thorough_only"):
            continue
        if part["src"].endswith(".py"):
            exe = [sys.executable, os.path.join(VERIF, "harness", part["src"])]
        else:
            exe = [build_harness(scratch, part)]
        n = part.get("shards", 8)
        if tier == "thorough":
            n = part.get("shards_thorough", n)
        for s in range(n):
            if shard_only and shard_only != "%d/%d" % (s, n):
                continue
            jobs.append((part, exe, s, n))
    limit = 640 if tier == "quick" else 6 * 3600

    def one(job):
        part, exe, s, n = job
        tag = "%s_%d" % (os.path.splitext(part["src"])[0], s)
        out = os.path.join(scratch, tag + ".json")
        wd = os.path.join(scratch, "wd_" + tag)
        os.makedirs(wd, exist_ok=True)
        cmd = exe + ["--shard", "%d/%d" % (s, n), "--out", out] + (["--thorough"] if tier == "thorough" else []) + part.get("args", [])
        logf = open(os.path.join(scratch, tag + ".log"), "wb")
        try:
            pr = subprocess.Popen(cmd, stdout=logf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=wd)
            rc = pr.wait(timeout=max(30, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            pr.terminate()          # the harness stops before its next case, and reports what it found so far
            try:
                pr.wait(timeout=40)
            except subprocess.TimeoutExpired:
                pr.kill()
                pr.wait()
            rc = "timeout"
        logf.close()
        log = open(os.path.join(scratch, tag + ".log"), errors="replace").read()
        res = None
        if os.path.exists(out):
            try:
                res = json.load(open(out))
            except Exception:
                res = None
        return job, rc, res, log

    with cf.ThreadPoolExecutor(min(8, os.cpu_count() or 8)) as ex:
        results = list(ex.map(one, jobs))
    # A shard that ended without a report, or by a reported hang, is deterministic: run it again, alone.
    confirmed = False
    for i, (job, rc, res, log) in enumerate(results):
        again = res is None and rc != "timeout"
        if res is not None and res.get("abnormal") and "hang" in res["abnormal"]["what"]:
            again = not confirmed
        if again:
            job2, rc2, res2, log2 = one(job)
            if res2 is None and isinstance(rc2, int) and rc2 < 0 and rc2 == rc:
                res2 = dict(states=0, transitions=0, validated=0, outcomes=0, counters={}, samples=[], fails=[], finished=False,
                            abnormal=dict(what="killed twice by signal %d" % -rc2, case="unknown (no report could be written)"))
            results[i] = (job2, rc2, res2, log2)
            if res2 is not None and res2.get("abnormal") and "hang" in res2["abnormal"]["what"]:
                confirmed = True
    for (part, exe, s, n), rc, res, log in results:
        where = "%s shard %d/%d" % (part["src"], s, n)
        if res is None:
            incomplete.append("%s: ended with %s and no report\n%s" % (where, rc, log[-1500:]))
            continue
        for k in ("states", "transitions", "validated", "outcomes"):
            merged[k] += res[k]
        for k, v in res["counters"].items():
            merged["counters"][k] = merged["counters"].get(k, 0) + v
        if len(merged["samples"]) < 8:
            merged["samples"] += res["samples"][:max(1, 8 - len(merged["samples"]))]
        for f in res["fails"]:
            fails.append((f["key"], f["msg"], where))
        if res.get("abnormal"):
            a = res["abnormal"]
            m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|[^\n]*Assertion [^\n]*)", log)
            abnormal.append(("crash", "%s at case: %s ; %s" % (a["what"], a["case"], m.group(1) if m else log[-300:]), where))
        elif rc == "timeout":
            incomplete.append(where + ": time limit")
        elif not res.get("finished"):
            incomplete.append(where + ": not finished rc=%s" % rc)
    known = known_findings(pid)
    seen_known, viol = {}, []
    for key, msg, where in fails + abnormal:
        k = [x for x in known if x[0] == key]
        if k:
            seen_known[key] = k[0][1]
        else:
            viol.append((key, msg, where))
    wall = time.time() - t0
    exhaustive = not incomplete
    cov = dict(states=merged["states"], transitions=merged["transitions"],
               traces_validated_against_impl=merged["validated"],
               distinct_outcomes=merged["outcomes"], samples=merged["samples"][:8],
               bounds=spec["bounds"][tier] if isinstance(spec.get("bounds"), dict) else spec.get("bounds", ""),
               how_validated=spec.get("how", ""), counters=merged["counters"], exhaustive=exhaustive)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for key, what in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    print("%s tier=%s states=%d transitions=%d validated=%d outcomes=%d wall=%.1fs" %
          (pid, tier, merged["states"], merged["transitions"], merged["validated"], merged["outcomes"], wall))
    if viol:
        rp = os.path.join(VERIF, "replays")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, pid + ".txt")
        with open(path, "w") as f:
            f.write("# replay: deterministic; re-run the shard that failed with\n")
            for key, msg, where in viol[:80]:
                m = re.search(r"shard (\d+/\d+)", where)
                f.write("#   python3 %s/run.py %s --tier %s --shard %s\n%s | %s | %s\n" % (VERIF, pid, tier, m.group(1), where, key, msg))
        for key, msg, where in viol[:10]:
            print("  " + where + " | " + key + " | " + msg[:700])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if incomplete:
        for x in incomplete:
            print("INCOMPLETE " + x)
        return 3
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except BuildError as e:
        print("BUILD-ERROR " + str(e))
        sys.exit(2)
