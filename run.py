#!/usr/bin/env python3
"""Driver of all checks.   run.py PROPERTY [--tier quick|thorough] [--jobs N] [--only SCENARIO]
                           run.py --setup | --all [--tier ..] | --manifest
Builds the property's harnesses from /repo's current working tree, lets each of them enumerate its scenarios
exhaustively, confirms a violation by replaying it twice, and writes evidence/<property>.json."""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "checks"))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "include")
CXX = "/usr/bin/g++-14"
LIBMCRT_SRC = [os.path.join(V, "engine/mcrt/mcrt.cpp"), os.path.join(V, "engine/mcrt/mcrt.h")]
STD = ["-std=c++23", "-g1", "-I" + INC, "-I" + V, "-w"]
FLAGS = {
    "A": ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
    "B": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "U": ["-O1", "-fsanitize=undefined", "-fno-sanitize-recover=all"], # exception-heavy enumerations: ASan makes every throw slow
    "N": ["-O2"],                                    # no sanitizer (measured loops over large value spaces)
}
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0",
           UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=98", LC_ALL="C.UTF-8")
MEM = 24 << 30

def log(*a): print(*a, flush=True)
def sh(cmd, timeout=None, env=None, cwd=None):
    """runs cmd in its own process group; returns (rc, output); rc None on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env or ENV, cwd=cwd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); out, _ = p.communicate()
        return None, out.decode("utf-8", "replace")

def build_mcrt(bdir):
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in LIBMCRT_SRC)).hexdigest()[:16]
    so = os.path.join(V, "build", "mcrt-" + h, "libmcrt.so")
    if not os.path.exists(so):
        os.makedirs(os.path.dirname(so), exist_ok=True)
        tmp = so + ".%d" % os.getpid()
        rc, out = sh([CXX, "-std=c++23", "-O2", "-g", "-fPIC", "-fno-builtin", "-fvisibility=hidden", "-shared", "-Wl,-Bsymbolic", "-Wl,-soname,libmcrt.so", "-o", tmp, LIBMCRT_SRC[0]])
        if rc != 0: log(out); log("cannot build the scheduler runtime"); sys.exit(2)
        os.rename(tmp, so)
    return so

class Violation(Exception): pass

def compile_one(prop, bdir, h, tier):
    h = dict(h); exe = os.path.join(bdir, h["name"])
    if "scripts" in h: # the client programs to explore, generated per tier
        f = os.path.join(bdir, h["name"] + ".scripts")
        with open(f, "w") as o: o.write("\n".join(h["scripts"](tier)) + "\n")
        h["args"] = ["--scripts", f] + h.get("args", [])
    src = os.path.join(V, "checks", h["src"])
    kind = h["kind"]
    defs = list(h.get("defs", [])) + (["-DTHOROUGH=1"] if tier == "thorough" else [])
    cmd = [CXX] + STD + FLAGS[kind] + defs + h.get("flags", []) + ["-o", exe, src]
    if kind == "A":
        so = build_mcrt(bdir)
        obj = exe + ".o"
        c1 = [CXX] + STD + FLAGS[kind] + defs + h.get("flags", []) + ["-c", src, "-o", obj]
        rc, out = sh(c1, timeout=600)
        if rc == 0: rc, out = sh([CXX, obj, "-o", exe, so, "-Wl,-rpath," + os.path.dirname(so)], timeout=120)
        cmd = c1
    else:
        rc, out = sh(cmd, timeout=800)
    return h, exe, rc, out, cmd

def scenarios(h, exe):
    args = [exe] + h.get("args", [])
    rc, out = sh(args + ["--list"], timeout=120)
    if rc != 0: log(out[-3000:]); log("cannot list scenarios of", h["name"], rc); sys.exit(2)
    return [l for l in out.splitlines() if l]

def run_scenario(prop, h, exe, sc, bdir, tlimit):
    tag = hashlib.sha256((h["name"] + sc).encode()).hexdigest()[:12]
    j, o = os.path.join(bdir, tag + ".journal"), os.path.join(bdir, tag + ".out")
    for f in (j, o):
        if os.path.exists(f): os.unlink(f)
    t0 = time.time()
    rc, out = sh([exe] + h.get("args", []) + ["--only", sc, "--journal", j, "--out", o, "--time", str(tlimit)], timeout=tlimit * 2 + 240)
    r = {"h": h, "exe": exe, "sc": sc, "rc": rc, "out": out[-6000:], "secs": time.time() - t0, "journal": j, "res": []}
    if rc == 0:
        with open(o) as f: r["res"] = [json.loads(l) for l in f if l.strip()]
        if not r["res"]: r["rc"] = -1000
    return r

def read_journal(j):
    """(choices line, message): engine A writes text on violation, engine B keeps a binary-safe text record up to date"""
    try:
        with open(j, "rb") as f: t = f.read().split(b"\0", 1)[0].decode("utf-8", "replace")
    except OSError: return None, ""
    ls = t.splitlines()
    return (ls[0], "\n".join(ls[1:])) if ls else (None, "")

def replay(r, choices, bdir, verbose=False, timeout=400):
    j = os.path.join(bdir, "replay.%s.journal" % hashlib.sha256(choices.encode()).hexdigest()[:12])
    if os.path.exists(j): os.unlink(j)
    rc, out = sh([r["exe"]] + r["h"].get("args", []) + ["--replay", choices, "--journal", j] + (["--verbose"] if verbose else []), timeout=timeout)
    return rc, out, read_journal(j)[1]

ENGINE_RC = (70, 71, 72, 73, 74)

def load_known():
    known = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) scenario=(\S+) match=/(.*?)/ :: (.*)", l.strip())
            if m: known.append({"property": m[1], "scenario": m[2], "re": m[3], "text": m[4]})
    return known

def summary_of(out, msg):
    for pat in (r"ERROR: AddressSanitizer: ([^\n]*)", r"runtime error: ([^\n]*)", r"(Assertion [^\n]*failed[^\n]*)", r"(terminate called[^\n]*)"):
        m = re.search(pat, out)
        if m: return (msg.splitlines()[0] + " | " if msg.strip() else "") + m[1][:300]
    return msg.splitlines()[0][:600] if msg.strip() else ""

def run_property(prop, tier, jobs, only=None):
    import registry
    cfg = registry.CHECKS[prop]
    t0 = time.time()
    bdir = os.path.join(V, "build", "%s-%s-%d" % (prop, tier, os.getpid()))
    shutil.rmtree(bdir, ignore_errors=True); os.makedirs(bdir)
    try:
        return _run(prop, tier, jobs, only, cfg, bdir, t0)
    finally:
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(bdir, ignore_errors=True)

def _run(prop, tier, jobs, only, cfg, bdir, t0):
    hs = [h for h in cfg["harnesses"] if tier in h.get("tiers", ("quick", "thorough"))]
    viol, known_hits, known = [], [], load_known()
    rdir = os.path.join(V, "replays"); os.makedirs(rdir, exist_ok=True)
    if any(h["kind"] == "A" for h in hs): build_mcrt(bdir)
    with cf.ThreadPoolExecutor(jobs) as ex: built = list(ex.map(lambda h: compile_one(prop, bdir, h, tier), hs))
    ok = []
    for h, exe, rc, out, cmd in built:
        if rc == 0: ok.append((h, exe)); continue
        if rc is None: log("compilation of %s timed out" % h["name"]); sys.exit(2)
        # does the failure lie in what the property says about the API (harness no longer compiles) or is the tree broken?
        tu = os.path.join(bdir, "hdr.cpp")
        with open(tu, "w") as f: f.write("".join('#include <dice/template-library/%s>\n' % x for x in cfg["headers"]) + "int main(){}\n")
        rc2, out2 = sh([CXX] + STD + ["-fsyntax-only", tu], timeout=300)
        ice = out.find("internal compiler error") # gcc may crash while it reports a genuine error
        if rc2 != 0 or (ice >= 0 and not re.search(r"(?<!compiler )error: ", out[:ice])) or "Killed" in out or "No space left" in out or "cannot find" in out:
            log(out[-4000:]); log(out2[-2000:]); log("error: the headers themselves do not compile"); sys.exit(2)
        p = os.path.join(rdir, "%s-compile-%s.txt" % (prop, h["name"]))
        with open(p, "w") as f: f.write("# a use of the public API that the property requires is rejected by the compiler\n" + " ".join(cmd) + "\n\n" + out[-20000:])
        viol.append((p, "valid uses of the API do not compile: " + "; ".join(re.findall(r"error: [^\n]*", out)[:2])))
    tlimit = cfg.get("time", {}).get(tier, 60 if tier == "quick" else 1200)
    work = []
    for h, exe in ok:
        for sc in scenarios(h, exe):
            if only is None or sc == only: work.append((h, exe, sc))
    results = []
    nviol = [0] # enough is enough: a broken tree fails in hundreds of scenarios
    deadline = t0 + (700 if tier == "quick" else 6 * 3600)
    def one(w):
        left = deadline - time.time()
        if left < 5 or nviol[0] >= 12: return None
        r = run_scenario(prop, *w[:2], w[2], bdir, min(tlimit, max(5, left)))
        if r["rc"] != 0: nviol[0] += 1
        return r
    with cf.ThreadPoolExecutor(jobs) as ex: results = list(ex.map(one, work))
    skipped = sum(r is None for r in results)
    results = [r for r in results if r is not None]
    errors = [] # no answer for a scenario: decides the exit status only if no other scenario shows a violation
    for r in results:
        if r["rc"] == 0: continue
        choices, msg = read_journal(r["journal"])
        if choices is None:
            errors.append("%s\nerror: harness %s scenario %s ended with %s" % (r["out"][-3000:], r["h"]["name"], r["sc"], r["rc"])); continue
        if r["rc"] in ENGINE_RC:
            errors.append("%s\nerror: engine failure %s in %s %s" % (r["out"][-3000:], r["rc"], r["h"]["name"], r["sc"])); continue
        rc1, out1, m1 = replay(r, choices, bdir, True)
        rc2, out2, m2 = replay(r, choices, bdir)
        if rc1 == 0 or rc2 == 0 or rc1 in ENGINE_RC:
            # not by itself: then the executions before it matter (state the code keeps across objects); the whole scenario has to fail again, at the same place
            r3 = run_scenario(prop, r["h"], r["exe"], r["sc"], bdir, tlimit)
            if r["rc"] not in (10, 97, 98, 99) or r3["rc"] != r["rc"] or read_journal(r3["journal"]) != (choices, msg):
                errors.append("%s\n%s\nerror: failure of %s %s (rc %s) did not reproduce on replay (%s, %s)" % (r["out"][-3000:], msg, r["h"]["name"], r["sc"], r["rc"], rc1, rc2)); continue
            rc1, out1, m1 = r["rc"], r3["out"], "(this history fails only after the ones enumerated before it: run the whole scenario)"
        text = summary_of(out1 if r["rc"] != 10 else r["out"], msg) or ("does not terminate" if rc1 is None else "crash rc=%s" % rc1)
        kf = [k for k in known if k["property"] == prop and k["scenario"] == r["sc"] and re.search(k["re"], text + "\n" + msg + out1)]
        if kf:
            known_hits.append(kf[0]); continue
        n = hashlib.sha256((r["sc"] + choices).encode()).hexdigest()[:10]
        p = os.path.join(rdir, "%s-%s.txt" % (prop, n))
        with open(p, "w") as f:
            f.write("# property %s, harness %s (%s), scenario %s\n# %s\n" % (prop, r["h"]["name"], r["h"]["src"], r["sc"], text))
            f.write("# replay: VERIF_KEEP=1 ./run.py %s --only '%s', then <harness> --replay '%s' --verbose\n" % (prop, r["sc"], choices))
            f.write("choices: %s\n\n%s\n\n---- verbose replay ----\n%s\n%s\n" % (choices, msg, out1[-40000:], m1[-20000:]))
        viol.append((p, "%s: %s" % (r["sc"], text)))
    good = [x for r in results if r["rc"] == 0 for x in r["res"]]
    write_evidence(prop, tier, cfg, good, results, skipped, viol, known_hits, time.time() - t0)
    for k in {k["text"]: k for k in known_hits}.values(): log("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    tot = lambda f: sum(x.get(f, 0) for x in good)
    log("%s %s: %d scenarios, %d executions, %d states, %d transitions, %d incomplete, %.1fs" % (prop, tier, len(good), tot("executions"), tot("states"), tot("transitions"), sum(not x.get("complete", True) for x in good) + skipped, time.time() - t0))
    if viol:
        for p, t in viol[:8]: log("  " + t)
        if len(viol) > 8: log("  ... %d more" % (len(viol) - 8))
        for e in errors[:3]: log(e[-600:])
        log("VIOLATION property=%s replay=%s" % (prop, viol[0][0]))
        return 1
    if errors:
        for e in errors[:5]: log(e)
        return 2
    return 0

def write_evidence(prop, tier, cfg, good, results, skipped, viol, known_hits, wall):
    tot = lambda f: sum(x.get(f, 0) for x in good)
    inc = [x["scenario"] for x in good if not x.get("complete", True)]
    samples = []
    for x in good:
        if x.get("sample"): samples.append({"scenario": x["scenario"], "case": x["sample"]})
    step = max(1, len(samples) // 12)
    slow = sorted(good, key=lambda x: -x.get("secs", 0))[:5]
    cov = {"scenarios": len(good), "exhaustive": not inc and not skipped,
           "distinct_outcomes": tot("outcomes"), "max_depth": max([x.get("max_depth", 0) for x in good] or [0]),
           "incomplete_scenarios": inc, "skipped_scenarios": skipped, "bounds": cfg["bounds"][tier] if isinstance(cfg.get("bounds"), dict) else cfg.get("bounds", ""),
           "largest_scenarios": [{k: x[k] for k in ("scenario", "executions", "states", "transitions", "secs") if k in x} for x in slow],
           "known_findings": sorted({k["text"] for k in known_hits}), "samples": samples[::step][:12]}
    level = cfg.get("level", "model_checking")
    if level == "model_checking":
        cov.update({"states": tot("states"), "transitions": tot("transitions"), "executions": tot("executions"),
                    # the executions explored are executions of the implementation itself, judged against the reference
                    "traces_validated_against_impl": sum(x.get("checked", x.get("complete_executions", 0)) for x in good)})
    else:
        cov.update({"evaluations": tot("executions"), "distinct_nontrivial": tot("states"), "rule": cfg["rule"]})
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1, ensure_ascii=False)

def manifest():
    import registry
    checks, na = [], list(registry.NOT_APPLICABLE)
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    for p in props:
        if p not in registry.CHECKS:
            if not any(x["property"] == p for x in na): na.append({"property": p, "reason": "no check built yet"})
            continue
        c = registry.CHECKS[p]
        checks.append({"property": p, "quick_cmd": "./run.py %s --tier quick" % p, "thorough_cmd": "./run.py %s --tier thorough" % p,
                       "technique": c["technique"], "level": c.get("level", "model_checking"), "level_note": c["note"]})
    m = {"version": 1, "setup_cmd": "./run.py --setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the library is header-only and its harnesses observe it through its public API; the scheduler gets control through compiler instrumentation and link-time interposition."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
    log("%d checks, %d not applicable" % (len(checks), len(na)))

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1)); ap.add_argument("--only")
    ap.add_argument("--setup", action="store_true"); ap.add_argument("--all", action="store_true"); ap.add_argument("--manifest", action="store_true")
    a = ap.parse_args()
    if a.manifest: manifest(); sys.exit(0)
    if a.setup: build_mcrt(None); log("ready"); sys.exit(0)
    if a.all:
        import registry
        bad = 0
        for p in sorted(registry.CHECKS): bad |= run_property(p, a.tier, a.jobs)
        sys.exit(bad)
    sys.exit(run_property(a.property, a.tier, a.jobs, a.only))
