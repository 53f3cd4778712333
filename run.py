#!/usr/bin/env python3
"""Driver: builds the harness of one property against /repo's working tree and runs the exhaustive exploration.
usage: run.py <PROPERTY> [--tier quick|thorough]       run.py replay <file>"""
import concurrent.futures as cf
import fnmatch, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MATTER_REPO", "/repo")
BUILD = os.path.join(HERE, "_build")
CXX = "g++"
BASE = ["-std=c++17", "-fopenmp", "-w", "-I/usr/include/eigen3", "-D_GLIBCXX_ASSERTIONS", "-DMC_VERIF", "-g1"]

# variant -> (defines, spline degree)
VARIANTS = {
    "d2s2": ([], None), "d3s2": (["-DTHREEDIM"], None),
    "d2s3": ([], 3), "d3s3": (["-DTHREEDIM"], 3),
    "d2s1": ([], 1), "d3s1": (["-DTHREEDIM"], 1),
}
A4 = ["d2s2", "d3s2", "d2s3", "d3s3"]
A2 = ["d2s2", "d3s2"]
# property -> harness source, quick variants, thorough variants, options
CHECKS = json.load(open(os.path.join(HERE, "checks.json")))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_files(d):
    out = []
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            if os.path.isfile(p):
                out.append(p)
    return sorted(out)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def prepare_tree(variant):
    """copy of /repo/src (with the user parameters of the variant set) beside the stand-in deps"""
    defs, deg = VARIANTS[variant]
    src = os.path.join(REPO, "src")
    files = [f for f in tree_files(src)]
    key = digest(files, variant) + digest(tree_files(os.path.join(HERE, "stubs")))[:8]
    root = os.path.join(BUILD, "tree", variant + "-" + key)
    if not os.path.isdir(root):
        tmp = root + ".tmp%d" % os.getpid()
        shutil.copytree(src, os.path.join(tmp, "src"))
        shutil.copytree(os.path.join(HERE, "stubs", "deps"), os.path.join(tmp, "deps"))
        if os.path.isdir(os.path.join(REPO, "levelsets")):
            shutil.copytree(os.path.join(REPO, "levelsets"), os.path.join(tmp, "levelsets"))
        if deg is not None:
            n = 0
            for f in tree_files(os.path.join(tmp, "src")):
                if not f.endswith((".hpp", ".h", ".cpp")):
                    continue
                s = open(f).read()
                s2, k = re.subn(r"(?m)^(\s*#\s*define\s+SPLINEDEG\s+)\d+", r"\g<1>%d" % deg, s)
                if k:
                    open(f, "w").write(s2); n += k
            if n == 0:
                shutil.rmtree(tmp)
                return None
        try:
            os.rename(tmp, root)
        except OSError:
            shutil.rmtree(tmp)
    return root


def compile_one(job):
    src, obj, flags = job
    if os.path.exists(obj):
        return (src, 0, "")
    tmp = obj + ".tmp%d" % os.getpid()
    r = sh([CXX] + flags + ["-c", src, "-o", tmp])
    if r.returncode == 0:
        os.rename(tmp, obj)
    return (src, r.returncode, r.stdout[-3000:])


def plan(prop, variant, opts):
    """-> list of compile jobs, link command, executable"""
    root = prepare_tree(variant)
    if root is None:
        return None
    defs, _ = VARIANTS[variant]
    opt = opts.get("opt", "-O1")
    tsan = opts.get("tsan", False)
    common = BASE + [opt] + defs + ["-DVARIANT=\"%s\"" % variant, "-DSRC_DIR=\"%s/src\"" % root, "-DINCLUDE_DIR=\"%s/levelsets\"" % root]
    objdir = os.path.join(BUILD, "obj"); os.makedirs(objdir, exist_ok=True)
    treekey = os.path.basename(root)
    jobs, objs = [], []
    if not opts.get("nolib"):
        for s in sorted(glob.glob(os.path.join(root, "src", "**", "*.cpp"), recursive=True)):
            if os.path.basename(s) == "mpm.cpp":
                continue
            fl = common + (["-fsanitize=thread"] if tsan else [])
            o = os.path.join(objdir, hashlib.sha256((treekey + s + " ".join(fl)).encode()).hexdigest()[:24] + ".o")
            jobs.append((s, o, fl)); objs.append(o)
    hfiles = tree_files(os.path.join(HERE, "harness"))
    hk = digest([f for f in hfiles if f.endswith(".hpp")])
    for s in [opts["src"], "gomp_mc.cpp"] + opts.get("more", []):
        sp = os.path.join(HERE, "harness", s)
        fl = common + ["-fno-access-control", "-I" + os.path.join(root, "src"), "-I" + os.path.join(HERE, "harness")]
        if tsan:
            fl.append("-DMC_TSAN")
        if s == "gomp_mc.cpp":
            fl = ["-std=c++17", "-w", "-O2", "-g1", "-I" + os.path.join(HERE, "harness")] + (["-DMC_TSAN"] if tsan else [])
            k = digest([sp], hk + " ".join(fl))
        else:
            fl += opts.get("flags", [])
            k = digest([sp], hk + treekey + " ".join(fl))
        o = os.path.join(objdir, k + ".o")
        jobs.append((sp, o, fl)); objs.append(o)
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (prop, variant, digest([], "".join(objs))))
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    link = [CXX] + objs + ["-o", exe, "-rdynamic", "-ldl", "-lpthread"] + (["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"] if tsan else []) + opts.get("libs", [])
    return jobs, link, exe


def build(prop, variants, opts):
    """build all variants in parallel. -> {variant: exe or error text}"""
    plans, res = {}, {}
    for v in variants:
        p = plan(prop, v, opts)
        if p is None:
            res[v] = ("skip", "spline degree cannot be set")
        else:
            plans[v] = p
    alljobs = {}
    for v, (jobs, _, _) in plans.items():
        for j in jobs:
            alljobs[j[1]] = j
    errs = {}
    jl = sorted(alljobs.values(), key=lambda j: ("plasticity" not in j[0] and HERE + "/harness/c" not in j[0], j[0]))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for src, rc, txt in ex.map(compile_one, jl):
            if rc:
                errs[src] = txt
    for v, (jobs, link, exe) in plans.items():
        bad = [j[0] for j in jobs if j[0] in errs]
        if bad:
            res[v] = ("err", "compile %s:\n%s" % (bad[0], errs[bad[0]]))
            continue
        if not os.path.exists(exe):
            r = sh(link)
            if r.returncode:
                res[v] = ("err", "link:\n" + r.stdout[-3000:]); continue
        res[v] = ("ok", exe)
    return res


def prune():
    """keep the build directory small"""
    try:
        for sub in ("tree", "obj", "bin"):
            d = os.path.join(BUILD, sub)
            items = sorted((os.path.join(d, x) for x in os.listdir(d)), key=os.path.getmtime)
            lim = {"tree": 40, "obj": 1500, "bin": 150}[sub]
            for p in items[:-lim]:
                shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    except OSError:
        pass


def known_entries(prop):
    keys = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", l.strip())
            if m and m.group(1) == prop:
                keys.append((m.group(2), m.group(3)))
    return keys


def main():
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ck = CHECKS[prop]
    os.makedirs(BUILD, exist_ok=True)
    prune()
    runs = []
    parts = ck["parts"]
    jobs = []
    for part in parts:
        vs = part["variants"] if tier == "quick" else part.get("thorough_variants", part["variants"])
        jobs.append((part, vs))
    results, skipped = [], []
    violation = None
    knowns = known_entries(prop)
    seen_known = {}
    # build everything first (parallel inside)
    built = []
    for part, vs in jobs:
        built.append((part, vs, build(prop, vs, part)))
    tbuild = time.time() - t0
    for part, vs, b in built:
        for v in vs:
            st, x = b[v]
            if st == "err":
                if v == part["variants"][0]:
                    print("BUILD ERROR property=%s variant=%s\n%s" % (prop, v, x)); return 2
                skipped.append({"part": part["src"], "variant": v, "why": "does not compile: " + x[:300]}); continue
            if st == "skip":
                skipped.append({"part": part["src"], "variant": v, "why": x}); continue
            if violation:
                continue
            out = os.path.join(BUILD, "out-%s-%s-%s.json" % (prop, os.path.basename(part["src"]), v))
            if os.path.exists(out):
                os.remove(out)
            scratch = os.path.join(BUILD, "scratch-%s-%d" % (prop, os.getpid()))
            os.makedirs(scratch, exist_ok=True)
            left = (800 if tier == "quick" else 24 * 3600) - (time.time() - t0)
            cmd = [x, "--out", out, "--tier", tier, "--scratch", scratch, "--deadline", str(max(10, left)), "--workers", str(os.cpu_count() or 4)]
            for k, _ in knowns:
                cmd += ["--known", k]
            r = sh(cmd)
            shutil.rmtree(scratch, ignore_errors=True)
            if os.environ.get("MC_KEEP_GOING"):
                print(r.stdout[-20000:])
            if r.returncode not in (0, 1) or not os.path.exists(out):
                print("CHECK ERROR property=%s variant=%s exit=%s\n%s" % (prop, v, r.returncode, r.stdout[-2000:])); return 2
            d = json.load(open(out)); d["variant"] = v; d["part"] = part["src"]
            results.append(d)
            for k in d["known"]:
                seen_known[k["key"]] = k["msg"]
            if d["violations"]:
                violation = dict(d["violations"][0], variant=v, part=part["src"], property=prop)
    S = lambda k: sum(r[k] for r in results)
    cov = {
        "states": S("states"), "transitions": S("transitions"), "traces_validated_against_impl": S("traces"),
        "samples": [s for r in results for s in ("[%s] %s" % (r["variant"], s) for s in r["samples"])][:40],
        "exhaustive": (not any(r["capped"] for r in results)) and not violation,
        "rule": ck["rule"],
        "domains": [{"variant": r["variant"], "part": r["part"], "families": r["families"], "skipped_inadmissible": r["skipped"], "wall_s": r["wall"]} for r in results],
        "variants_not_run": skipped,
    }
    if any(any(r["extra"]) for r in results):
        cov["counters"] = {n: sum(r["extra"][i] for r in results) for i, n in enumerate(ck.get("extra", ["x0", "x1", "x2", "x3"]))}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": ck["level"], "coverage": cov,
          "assumptions": ck.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "build_s": round(tbuild, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for k, what in knowns:
        if k in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if violation:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        rp = os.path.join(HERE, "replay", prop + ".json")
        json.dump(violation, open(rp, "w"), indent=1)
        print("case %s [%s]: %s" % (violation["case"], violation["variant"], violation["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs (build %.1fs)" % (prop, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], time.time() - t0, tbuild))
    return 0


def replay(path):
    v = json.load(open(path))
    prop = v["property"]
    part = [p for p in CHECKS[prop]["parts"] if p["src"] == v["part"]][0]
    b = build(prop, [v["variant"]], part)[v["variant"]]
    if b[0] != "ok":
        print(b); return 2
    scratch = os.path.join(BUILD, "scratch-replay-%d" % os.getpid()); os.makedirs(scratch, exist_ok=True)
    r = sh([b[1], "--replay", "%s:%d" % (v["family"], v["idx"]), "--scratch", scratch] + [y for x in v.get("before", []) for y in ("--before", x)])
    shutil.rmtree(scratch, ignore_errors=True)
    print(r.stdout); return r.returncode


if __name__ == "__main__":
    sys.exit(main())
