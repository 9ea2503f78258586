#!/usr/bin/env python3
"""Build the code under test from /repo's working tree, run one property's explorer, write its evidence.

usage: check.py PROPERTY [--replay FILE] [--phase NAME] [--keep]
       check.py --setup        (pre-builds the libraries; checks rebuild whatever changed)
Tier comes from VERIF_TIER (quick|thorough)."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS   # property -> configuration

SRC = os.path.join(REPO, "src/main/c")
XML = ["-I/usr/include/libxml2"]
LIBS = ["-lxml2", "-lz", "-lm", "-lpthread", "-ldl"]
DEFS = ["-DPLATFORM_POSIX", "-DLINUX64", "-DUSE_SYSLOG", '-DVERSION="verif"', '-DCOMMIT="verif"', "-w"]
FLAVOR = {
    "asan": ["gcc", "-g", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "ubsan": ["gcc", "-g", "-O1", "-fsanitize=address,signed-integer-overflow,shift,bounds,null,integer-divide-by-zero,unreachable,vla-bound", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "plain": ["gcc", "-g", "-O1"],
}

class BuildError(Exception): pass

def sh(cmd, cwd=None, timeout=800):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
    return r.stdout.decode(errors="replace")

def tree_hash(d):
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(d)):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, d).encode() + b"\0")
            try:
                with open(p, "rb") as fp: h.update(fp.read())
            except OSError: pass
            h.update(b"\1")
    return h.hexdigest()

def locked(name, fn):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + ".lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        return fn()

def prepare_source():
    """Private copy of the sources, so that a build never sees a half edited tree and never writes into /repo."""
    base = open(os.path.join(VERIF, "tools/yaep.sha256")).read().strip()
    h = hashlib.sha256((tree_hash(SRC) + base).encode()).hexdigest()[:16]
    dst = os.path.join(BUILD, "src-" + h)
    def do():
        if not os.path.exists(dst + ".ok"):
            shutil.rmtree(dst, ignore_errors=True)
            # drop copies of other trees
            for e in os.listdir(BUILD):
                if e.startswith("src-") and not e.startswith("src-" + h):
                    p = os.path.join(BUILD, e)
                    shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
            os.makedirs(dst, exist_ok=True)
            shutil.copytree(SRC, os.path.join(dst, "c"))
            # parts/yaep.c is generated from yaep/src by the repository's build; regenerate it when yaep/src was edited
            yh = tree_hash(os.path.join(SRC, "yaep/src"))
            if yh != base:
                sh(["bash", "build_single_yaep_source_file.sh"], cwd=os.path.join(dst, "c/yaep"))
            open(dst + ".ok", "w").close()
        return dst
    return locked("src", do)

def obj(src, flavor, what):
    """what: lib | cli"""
    o = os.path.join(src, "%s-%s.o" % (what, flavor))
    def do():
        if not os.path.exists(o):
            c = os.path.join(src, "c", "xmq.c" if what == "lib" else "xmq-cli.c")
            inc = XML + ["-I" + os.path.join(src, "c")] + (["-I/usr/include/libxslt", "-I/usr/include"] if what == "cli" else [])
            sh(FLAVOR[flavor] + DEFS + inc + ["-c", c, "-o", o + ".tmp"])
            os.rename(o + ".tmp", o)
        return o
    return locked("obj-%s-%s" % (what, flavor), do)

def cli(src, flavor):
    x = os.path.join(src, "xmq-" + flavor)
    def do():
        if not os.path.exists(x):
            with cf.ThreadPoolExecutor() as ex:
                a = ex.submit(obj, src, flavor, "lib"); b = ex.submit(obj, src, flavor, "cli")
                os_ = [a.result(), b.result()]
            sh(FLAVOR[flavor] + os_ + ["-o", x + ".tmp", "-lxslt"] + LIBS)
            os.rename(x + ".tmp", x)
        return x
    return locked("cli-" + flavor, do)

def harness_objects(src, name, flavor):
    """compile mc.cc and the harness"""
    mcdir = os.path.join(VERIF, "mc")
    h = hashlib.sha256()
    for f in sorted(os.listdir(mcdir)):
        if f.endswith((".h", ".cc")) and (f.endswith(".h") or f in ("mc.cc", name)):
            h.update(f.encode()); h.update(open(os.path.join(mcdir, f), "rb").read())
    h.update(open(os.path.join(src, "c/xmq.h"), "rb").read())
    key = h.hexdigest()[:16]
    out = []
    cxx = ["g++", "-std=c++17"] + [f for f in FLAVOR[flavor][1:]]
    def comp(f):
        o = os.path.join(BUILD, "h-%s-%s-%s.o" % (f.replace(".cc", ""), flavor, key))
        if not os.path.exists(o):
            sh(cxx + ["-w"] + XML + ["-I" + mcdir, "-I" + os.path.join(src, "c"), "-c", os.path.join(mcdir, f), "-o", o + ".tmp"])
            os.rename(o + ".tmp", o)
        return o
    with cf.ThreadPoolExecutor() as ex:
        return list(ex.map(comp, ["mc.cc", name]))

def build(prop):
    cfg = PROPS[prop]
    src = prepare_source()
    with cf.ThreadPoolExecutor() as ex:
        lib = ex.submit(obj, src, cfg["flavor"], "lib")
        har = ex.submit(harness_objects, src, cfg["harness"], cfg["flavor"])
        c = ex.submit(cli, src, cfg["cli"]) if cfg.get("cli") else None
        lib, har = lib.result(), har.result()
        c = c.result() if c else None
    exe = os.path.join(src, "check-" + prop)
    sh(["g++"] + FLAVOR[cfg["flavor"]][1:] + har + [lib, "-o", exe] + LIBS + cfg.get("ldflags", []))
    # keep the build folder small
    for e in os.listdir(BUILD):
        p = os.path.join(BUILD, e)
        if e.startswith("h-") and time.time() - os.path.getmtime(p) > 3600:
            try: os.unlink(p)
            except OSError: pass
    return exe, c, src

def known_findings(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            w = l.split(None, 3)
            if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + prop and w[2].startswith("id="):
                out[w[2][3:]] = w[3].strip()
    return out

def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        src = prepare_source()
        with cf.ThreadPoolExecutor() as ex:
            fl = sorted({c["flavor"] for c in PROPS.values()})
            fs = [ex.submit(obj, src, f, "lib") for f in fl]
            fs += [ex.submit(cli, src, f) for f in sorted({c["cli"] for c in PROPS.values() if c.get("cli")})]
            for f in fs: f.result()
        print("setup ok"); return 0
    prop = args[0]
    cfg = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    exe, climain, src = build(prop)
    tb = time.time() - t0
    out = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    rdir = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    kf = known_findings(prop)
    with open(os.path.join(out, "known.tsv"), "w") as f:
        for k, v in kf.items(): f.write("%s\t%s\n" % (k, v))
    env = dict(os.environ)
    env.update(cfg.get("env", {}))
    if climain: env["XMQ_CLI"] = climain
    env["XMQ_SRC"] = REPO
    cmd = [exe, "--tier", tier, "--out", out, "--replaydir", rdir, "--known", os.path.join(out, "known.tsv")]
    for o in ("--replay", "--phase", "--workers", "--limit", "--maxviol", "--triage"):
        if o in args: cmd += [o, args[args.index(o) + 1]]
    try:
        r = subprocess.run(cmd, env=env)
        if "--replay" in args: return r.returncode
        if r.returncode not in (0, 1) or not os.path.exists(os.path.join(out, "result.json")):
            print("check of %s could not run: explorer ended with %d" % (prop, r.returncode)); return 2
        res = json.load(open(os.path.join(out, "result.json")))
    finally:
        shutil.rmtree(out, ignore_errors=True)
    cov = {
        "states": res["states"], "transitions": res["transitions"],
        "traces_validated_against_impl": res["executed"],
        "samples": res["samples"] or ["none"],
        "evaluations": res["executed"], "distinct_nontrivial": res["distinct_outcomes"],
        "rule": cfg["rule"], "exhaustive": not res["capped"],
        "phases": res["phases"], "counters": res["counters"],
        "bounds": cfg["bounds"][tier] if isinstance(cfg.get("bounds"), dict) else cfg.get("bounds", ""),
        "known_findings_seen": res["known"], "build_s": round(tb, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "model_checking"), "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": res["total_violations"]}
    if res["violations"]: ev["coverage"]["violation_list"] = res["violations"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, cfg.get("evidence", "evidence/%s.json" % prop))
    with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1, ensure_ascii=False)
    os.rename(p + ".tmp", p)
    for k in res["known"]:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, kf.get(k, "")))
    if res["violations"]:
        for v in res["violations"]:
            print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
            print("   case: %s\n   failure: %s (%s)" % (v["case"][:600], v["failure"][:800], v["confirmation"]))
        return 1
    print("%s held on all %d cases (%d states, %d transitions, %d distinct outcomes) in %.1fs%s" % (prop, res["executed"], res["states"], res["transitions"], res["distinct_outcomes"], time.time() - t0, "" if not res["capped"] else " [time cap hit]"))
    return 0

if __name__ == "__main__":
    try: sys.exit(main())
    except BuildError as e:
        print(e); sys.exit(3)
