#!/usr/bin/env python3
"""Driver: builds the explorer for one property from /repo's working tree and runs it.

usage: run.py <property> [--tier quick|thorough] [--replay FILE] [--only SPACE] [--budget S] [--workers N] [--keep]
exit 0: held on everything explored; 1: violation (VIOLATION line printed); 3: the check itself could not run.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, HERE)
from config import CONFIG, DEFAULT

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
    return h.hexdigest()[:24]

def tree(root):
    out = []
    for d, _, fs in os.walk(root):
        out += [os.path.join(d, f) for f in fs]
    return out

def build(prop, cfg, tag=""):
    srcs = sorted(glob.glob(os.path.join(HERE, cfg.get("glob", "harness/" + prop + "*.cpp")))) + [os.path.join(HERE, s) for s in cfg.get("shared", [])]
    srcs += [os.path.join(HERE, "mc_main.cpp"), os.path.join(HERE, "mc_alloc.cpp")]
    srcs += [os.path.join(REPO, s) for s in cfg.get("repo_src", [])]
    common = tree(os.path.join(REPO, "include")) + tree(os.path.join(REPO, "src")) + glob.glob(os.path.join(HERE, "*.hpp")) + glob.glob(os.path.join(HERE, "harness", "*.hpp"))
    flags = cfg.get("flags", DEFAULT["flags"]) + cfg.get("extra_flags", []) + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + HERE]
    support = cfg.get("support_flags", None); support = flags if support is None else support + flags[-3:]
    cxx = cfg.get("cxx", DEFAULT["cxx"])
    out = os.path.join(VERIF, "build", prop + tag); os.makedirs(out, exist_ok=True)
    def one(src):
        flags_ = support if os.path.dirname(src) == HERE else flags
        key = digest(common + [src] if not src.endswith(("mc_main.cpp", "mc_alloc.cpp")) else [src, os.path.join(HERE, "mc.hpp")], cxx + " ".join(flags_))
        obj = os.path.join(out if "mc_" not in os.path.basename(src) else os.path.join(VERIF, "build"), os.path.basename(src) + "." + key + ".o")
        if not os.path.exists(obj):
            tmp = obj + ".%d.tmp" % os.getpid()
            r = sh([cxx] + flags_ + ["-c", src, "-o", tmp])
            if r.returncode: return None, "%s\n%s" % (src, r.stdout[-6000:])
            os.rename(tmp, obj)
        return obj, ""
    with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(one, srcs))
    bad = [m for o, m in res if o is None]
    if bad: print("MC-INFRASTRUCTURE-ERROR: compilation failed\n" + "\n".join(bad)); sys.exit(3)
    objs = [o for o, _ in res]
    exe = os.path.join(out, "explore." + hashlib.sha256("".join(objs).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        for old in glob.glob(os.path.join(out, "explore.*")): os.unlink(old)
        keep = set(objs)
        for old in glob.glob(os.path.join(out, "*.o")):
            if old not in keep: os.unlink(old)
        r = sh([cxx] + flags + objs + ["-o", exe] + cfg.get("libs", DEFAULT["libs"]) + cfg.get("extra_libs", []))
        if r.returncode: print("MC-INFRASTRUCTURE-ERROR: link failed\n" + r.stdout[-6000:]); sys.exit(3)
    return exe

def locales():
    """Locales with other decimal points than the usual one, for the harnesses that run the library under them."""
    root = os.path.join(VERIF, "build", "locale")
    for name, src in (("comma", "de_DE"), ("arabic", "ps_AF")):
        if os.path.exists(os.path.join(root, name, "LC_NUMERIC")): continue
        tmp = os.path.join(root, "%s.%d" % (name, os.getpid())); os.makedirs(tmp, exist_ok=True)
        sh(["localedef", "--no-archive", "-c", "-i", src, "-f", "UTF-8", tmp])
        try: os.rename(tmp, os.path.join(root, name))
        except OSError: pass
    os.environ["LOCPATH"] = root

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--only"); ap.add_argument("--budget"); ap.add_argument("--workers", default="8"); ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    prop = a.property; cfg = CONFIG.get(prop, {}); t0 = time.time()
    variants = [cfg] + cfg.get("variants", [])
    exes = [build(prop, v, "-%d" % n if n else "") for n, v in enumerate(variants)]
    locales(); built = time.time() - t0
    rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True); os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if a.list: sys.exit(max(subprocess.call([e, "--list"]) for e in exes))
    if a.replay:
        space = [l[6:].strip() for l in open(a.replay) if l.startswith("space=")][0]
        for e in exes:
            if any(l.startswith(space + ": ") for l in sh([e, "--list"]).stdout.splitlines()): sys.exit(subprocess.call([e, "--tier", a.tier, "--property", prop, "--replay", a.replay]))
        sys.exit(3)
    budget = float(a.budget or cfg.get("budget", {}).get(a.tier, DEFAULT["budget"][a.tier]))
    print("%s: built in %.1f s" % (prop, built), flush=True)
    ev = os.path.join(VERIF, "evidence", prop + ".json"); parts = []; codes = []
    for n, exe in enumerate(exes):
        cmd = [exe, "--property", prop, "--tier", a.tier, "--replay-dir", rdir, "--known", os.path.join(VERIF, "known-findings.txt"), "--workers", a.workers, "--budget", str(budget / len(exes)), "--hang", str(cfg.get("hang", 60))]
        if a.only:
            if not any(a.only in l.split(": ")[0] for l in sh([exe, "--list"]).stdout.splitlines()): continue
            cmd += ["--only", a.only]
        else: parts.append(ev + ".%d" % n if n else ev); cmd += ["--evidence", parts[-1]]
        for s in DEFAULT["assumptions"] + cfg.get("assumptions", []): cmd += ["--assume", s]
        rc = subprocess.call(cmd); codes.append(rc if rc in (0, 1) else 3)
        if rc == 1: break
    if len(parts) > 1: merge(ev, parts)
    sys.exit(1 if 1 in codes else 3 if 3 in codes or not codes else 0)

def merge(ev, parts):
    """One evidence file for the builds of one check: counts added up."""
    all_ = [json.load(open(p)) for p in parts]; out = all_[0]; c = out["coverage"]
    for o in all_[1:]:
        d = o["coverage"]
        for k in ("states", "transitions", "traces_validated_against_impl", "evaluations", "distinct_nontrivial", "infeasible_choice_sequences", "state_table_overflow"): c[k] += d[k]
        c["longest_execution_choices"] = max(c["longest_execution_choices"], d["longest_execution_choices"]); c["exhaustive"] = c["exhaustive"] and d["exhaustive"]
        c["spaces"] += d["spaces"]; c["samples"] += d["samples"]; out["wall_s"] += o["wall_s"]; out["violations"] += o["violations"]
    with open(ev, "w") as f: json.dump(out, f, indent=1)
    for p in parts[1:]: os.unlink(p)

main()
