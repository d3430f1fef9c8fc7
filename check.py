#!/usr/bin/env python3
"""Build and run one check:  check.py <property-id> [--replay FILE]

Compiles the harness for the property together with /repo's current sources, runs the exploration,
confirms every reported violation by replaying it in a fresh process, applies known_findings.json,
writes evidence/<id>.json.  Exit 0: held on everything explored.  Exit 1: VIOLATION line(s).
Exit 2: the check itself could not give an answer (build failure, time limit, machinery error).
"""
import hashlib, json, os, subprocess, sys, time, glob, shutil, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

INC = ["-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(VERIF, "src"), "-I" + REPO, "-I" + os.path.join(REPO, "EKF")]
DEFS = ["-DECL_STANDALONE"]
LIBS = {
    "geo_lookup": ["geo_lookup/*.cpp"],
    "geo": ["geo/*.cpp"],
    "ekf": ["EKF/*.cpp"],
    "airdata": ["airdata/*.cpp"],
}
SAN = {
    "none": [],
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=float-cast-overflow,float-divide-by-zero", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
}


def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def headers():
    hs = []
    for pat in ("*.h", "*.hpp", "*.hxx", "*/*.h", "*/*.hpp", "*/*/*.h", "*/*/*.hpp"):
        hs += [p for p in glob.glob(os.path.join(REPO, pat)) if not p.startswith(os.path.join(REPO, "_build")) and "/test/" not in p]
    hs += glob.glob(os.path.join(VERIF, "shim/matrix/*")) + glob.glob(os.path.join(VERIF, "src/*.h"))
    return hs


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(chk):
    os.makedirs(BUILD, exist_ok=True)
    san = SAN[chk.get("san", "none")]
    flags = ["-std=" + chk.get("std", "c++14"), chk.get("opt", "-O2"), "-g1", "-w"] + san + DEFS + INC + chk.get("flags", [])
    srcs = [os.path.join(VERIF, "src", s) for s in chk["src"]]
    for lib in chk.get("libs", []):
        for pat in LIBS[lib]:
            srcs += sorted(glob.glob(os.path.join(REPO, pat)))
    hs = headers()
    hkey = digest(hs, " ".join(flags))

    def one(src):
        key = digest([src], hkey)
        obj = os.path.join(BUILD, "%s-%s.o" % (os.path.basename(src), key))
        if not os.path.exists(obj):
            tmp = obj + ".%d.tmp" % os.getpid()
            r = run(["g++"] + flags + ["-c", src, "-o", tmp])
            if r.returncode != 0:
                return None, r.stdout
            os.rename(tmp, obj)
        return obj, ""

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, srcs))
    bad = [e for o, e in res if o is None]
    if bad:
        print("BUILD FAILED\n" + "\n".join(bad)[-6000:])
        return None
    objs = [o for o, _ in res]
    exe = os.path.join(BUILD, "%s-%s" % (chk["src"][0].replace(".cpp", ""), digest(objs, " ".join(flags))))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = run(["g++"] + san + objs + ["-o", tmp, "-lm"])
        if r.returncode != 0:
            print("LINK FAILED\n" + r.stdout[-4000:])
            return None
        os.rename(tmp, exe)
    return exe


def env_for(chk, tier, result=None):
    e = dict(os.environ)
    e["VERIF_TIER"] = tier
    e.setdefault("VERIF_SEED", "1")
    e["MC_ARGS"] = " ".join(chk.get("args", []))
    e["MC_PROPERTY"] = chk["id"]
    e["ASAN_OPTIONS"] = "abort_on_error=1:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:handle_sigbus=0:detect_leaks=0:detect_stack_use_after_return=0"
    e["UBSAN_OPTIONS"] = "abort_on_error=1:print_stacktrace=0"
    e["LC_ALL"] = "C"
    if result:
        e["MC_RESULT"] = result
    return e


def run_exe(cmd, env, timeout, out):
    with open(out, "wb") as f:
        p = subprocess.Popen(cmd, env=env, stdout=f, stderr=subprocess.STDOUT, cwd=VERIF, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        if rc is None:
            p.wait()
        return rc


def tail(path, n=3000):
    with open(path, "rb") as f:
        f.seek(0, 2)
        f.seek(max(0, f.tell() - n))
        return f.read().decode("utf8", "replace")


def replay(chk, exe, tier, rfile):
    out = rfile + ".out"
    env = env_for(chk, tier)
    env["MC_REPLAY"] = "1"
    run_exe([exe, "--replay", rfile], env, 300, out)
    txt = tail(out, 200000)
    return txt


def main():
    pid = sys.argv[1]
    chk = dict(CHECKS[pid])
    chk["id"] = pid
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    exe = build(chk)
    if exe is None:
        return 2
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        print(replay(chk, exe, tier, sys.argv[3]))
        return 0
    tag = "%s-%d" % (pid, os.getpid())
    result = os.path.join(BUILD, tag + ".json")
    log = os.path.join(BUILD, tag + ".log")
    limit = float(os.environ.get("VERIF_LIMIT", "850" if tier == "quick" else "14000"))
    try:
        rc = run_exe([exe], env_for(chk, tier, result), limit, log)
        if rc is None:
            print("time limit of %ds reached: no verdict" % limit)
            return 2
        if not os.path.exists(result):
            print("the harness ended without a result (rc=%s)\n%s" % (rc, tail(log)))
            return 2
        with open(result) as f:
            res = json.load(f)
    finally:
        for p in (result, log):
            if os.path.exists(p):
                os.unlink(p)
    known = {}
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        with open(kf) as f:
            for k in json.load(f)["findings"]:
                if k.get("status") == "open" and k["property"] == pid:
                    known[k["key"]] = k
    new, seen_known, unconfirmed = [], {}, []
    for n, v in enumerate(res["violations"]):
        if v["key"] in known:
            seen_known[v["key"]] = v
            continue
        rfile = os.path.join(rdir, "%s-%d.txt" % (pid, n))
        with open(rfile, "w") as f:
            f.write("# replay with: %s %s --replay %s\n" % (os.path.join(VERIF, "check.py"), pid, rfile))
            f.write("property %s\ntier %s\nkey %s\ntext %s\npart %s\nchoices %s\n" % (
                pid, tier, v["key"], v["text"], v["part"], " ".join(map(str, v["trace"]))))
        ok = False
        for _ in range(2):
            txt = replay(chk, exe, tier, rfile)
            if "REPRODUCED" in txt or "  !! " in txt:
                ok = True
                break
        if ok:
            with open(rfile, "a") as f:
                f.write("---- narrated replay ----\n" + txt[-20000:])
            new.append((v, rfile))
        else:
            unconfirmed.append((v, rfile))
        if os.path.exists(rfile + ".out"):
            os.unlink(rfile + ".out")
    # "sh.nviol" keys that are open findings must still be demonstrated by the run itself
    for k in known.values():
        if k["key"] in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    level = chk["level"]
    cov = {"samples": res["samples"]}
    if level == "model_checking":
        cov.update(states=res["states"], transitions=res["transitions"], traces_validated_against_impl=res["executions"])
        if res["outcomes"]:
            cov["distinct_outcomes"] = res["outcomes"]
        if res["evaluations"]:
            cov["evaluations"] = res["evaluations"]
            cov["distinct_nontrivial"] = res["nontrivial"]
    else:
        cov.update(evaluations=res["evaluations"], distinct_nontrivial=res["nontrivial"])
        if res["executions"]:
            cov["executions"] = res["executions"]
    cov["rule"] = " ".join(res["rules"])
    cov["exhaustive"] = res["capped"] == 0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": res["assumptions"] + ([] if not chk.get("libs") or chk["libs"] == ["geo_lookup"] else [
            "PX4/Matrix is not available offline; the sources are compiled against /verif/shim/matrix, which passes the repository's own 120 tests and reproduces its recorded replay logs"]),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    if unconfirmed:
        ev["coverage"]["unconfirmed"] = len(unconfirmed)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s tier=%s states=%d transitions=%d executions=%d evaluations=%d wall=%.1fs" % (
        pid, tier, res["states"], res["transitions"], res["executions"], res["evaluations"], time.time() - t0))
    for v, rfile in new:
        print("  %s: %s" % (v["key"], v["text"]))
        print("VIOLATION property=%s replay=%s" % (pid, rfile))
    for v, rfile in unconfirmed:
        print("  not reproduced on replay (not reported): %s: %s" % (v["key"], v["text"]))
    if new:
        return 1
    if res["machine_error"] or rc not in (0, 1):
        print("machinery error (rc=%s, count=%d)" % (rc, res["machine_error"]))
        return 2
    if unconfirmed:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
