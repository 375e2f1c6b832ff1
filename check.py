#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Symbolically executes the scenarios of one property over the LLVM IR of /repo's
current code (and of the harness), lets the solver decide every branch and
assertion, replays every counterexample natively and writes the evidence."""
import concurrent.futures, itertools, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
import names, plan  # noqa: E402

T0 = time.time()
COUNT = itertools.count()
T = os.environ.get("VERIF_TARGET", os.path.join(V, "target"))
DIRS = {
    "dev": ("ir/debug", "native/debug"),
    "release": ("ir/release", "native/release"),
    "small": ("ir-small/debug", "native-small/debug"),
}


def paths(variant):
    i, n = DIRS[variant]
    return os.path.join(T, i, "deps/harness.ll"), os.path.join(T, n, "runner")


def build(variants):
    jobs = [["engine"]] + [[k, v] for v in variants for k in ("ir", "runner")]

    def go(a):
        r = subprocess.run([os.path.join(V, "build.sh")] + a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return a, r.returncode, r.stdout

    # release and small share nothing with dev: every job has its own directory
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for a, rc, out in ex.map(go, jobs):
            if rc != 0:
                print("build.sh %s failed:\n%s" % (" ".join(a), out[-4000:]))
                sys.exit(2)


def known(prop):
    out = []
    f = os.path.join(V, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) scenario=(\S+) match=(.*?) -- (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def replay(runner, scen, inputs, tmp):
    f = os.path.join(tmp, "in-%d" % next(COUNT))
    with open(f, "w") as h:
        h.write("\n".join(map(str, inputs)) + "\n")
    try:
        r = subprocess.run([runner, "run", scen, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=90, errors="replace")
    except subprocess.TimeoutExpired:
        return -9, {}, "timeout"
    finally:
        os.unlink(f)
    d = {}
    for l in r.stdout.splitlines():
        k, _, v = l.partition(" ")
        d[k] = v
    return r.returncode, d, r.stderr


def main():
    prop = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else None) or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    P = plan.PLAN[prop]
    groups = [(v, s) for v, s in P[tier]]
    variants = sorted({v for v, _ in groups})
    build(variants)
    t_build = time.time() - T0
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    kf = known(prop)
    jobs = str(min(16, max(1, len(os.sched_getaffinity(0)))))
    res, funcs, solver = [], set(), ""
    stop = False
    for gi, (v, scens) in enumerate(groups):
        ll, runner = paths(v)
        out = os.path.join(tmp, "out%d.json" % gi)
        cmd = [os.path.join(T, "engine/release/symex"), "--ll", ll, "--runner", runner, "--scen", ",".join("%s@%g" % x for x in scens), "--jobs", jobs,
               "--time", str(sum(x[1] for x in scens) + 10), "--tmp", os.path.join(tmp, "w%d" % gi), "--out", out]
        for s, m, _ in kf:
            cmd += ["--known", m]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if not os.path.exists(out):
            print("symex failed (%d):\n%s" % (r.returncode, r.stdout[-4000:]))
            sys.exit(2)
        d = json.load(open(out))
        solver = d["solver"]
        funcs.update(d["functions"])
        for s in d["scenarios"]:
            for x in s["samples"] + s["violations"] + s["unconfirmed"]:
                for k in ("inputs", "obs"):
                    if k in x:
                        x[k] = [int(y) for y in x[k]]
            s["variant"] = v
            res.append(s)
            for w in s["violations"]:
                if not any((ks in ("*", s["scenario"])) and (m in w["native"] or m in w["msg"]) for ks, m, _ in kf):
                    stop = True
        if stop:
            break
    t_solve = time.time() - T0 - t_build

    # passing paths, run natively
    todo = []
    for s in res:
        pick = s["samples"]
        n = plan.SAMPLES[tier]
        if len(pick) > n:
            pick = [pick[i * len(pick) // n] for i in range(n)]
        todo += [(s, x) for x in pick]

    def val(a):
        s, x = a
        return s, x, replay(paths(s["variant"])[1], s["scenario"], x["inputs"], tmp)

    agreed, disagreements, extra = 0, [], []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for s, x, (rc, d, err) in ex.map(val, todo):
            want = "EXPECTED PANIC" if x["panic"] else "OK"
            obs = [int(y) for y in d.get("OBS", "").split()]
            if rc == 0 and d.get("RESULT") == want and obs == x["obs"] and int(d.get("COVERS", -1)) == x["covers"]:
                agreed += 1
            elif rc in (1, -6, -11, 134, 139) and not d.get("RESULT", "").startswith("INPUTS"):
                extra.append((s, x, d.get("RESULT", "died with %d" % rc), err))
            else:
                disagreements.append({"scenario": s["scenario"], "inputs": x["inputs"], "native": [rc, d.get("RESULT"), obs[:20]], "symbolic": [want, x["obs"][:20]]})

    # report
    viol, seen_known = [], set()
    for s in res:
        for w in s["violations"]:
            hit = [k for k in kf if k[0] in ("*", s["scenario"]) and (k[1] in w["native"] or k[1] in w["msg"])]
            if hit:
                seen_known.add(hit[0][2])
            else:
                viol.append((s, w["kind"], w["msg"], w["inputs"], w["native"], w.get("trace", [])))
    for s, x, msg, err in extra:
        viol.append((s, "native", "a path the encoding calls fine fails natively", x["inputs"], msg + " " + err[:300], []))
    rd = os.path.join(V, "replays")
    os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rd, f))
    lines = []
    for i, (s, kind, msg, inp, nat, trace) in enumerate(viol[:5]):
        f = os.path.join(rd, "%s-%d.txt" % (prop, i))
        with open(f, "w") as h:
            h.write("# property %s, scenario %s, build %s\n# %s: %s\n" % (prop, s["scenario"], s["variant"], kind, msg.replace("\n", " ")))
            h.write("# native: %s\n" % nat.replace("\n", " ")[:600])
            for t in trace[:12]:
                h.write("#   at %s\n" % t)
            h.write("# replay: ./build.sh runner %s && %s run %s %s\n" % (s["variant"], os.path.relpath(paths(s["variant"])[1], V), s["scenario"], os.path.relpath(f, V)))
            h.write(" ".join(map(str, inp)) + "\n")
        lines.append("VIOLATION property=%s replay=%s" % (prop, f))
        print("%s: %s: %s in %s (%s), inputs %s; native: %s" % (prop, kind, msg, s["scenario"], s["variant"], " ".join(map(str, inp))[:200], nat[:300]))

    tot = lambda k: sum(s[k] for s in res)
    paths_n = tot("done") + tot("expected_panics")
    complete = [s["scenario"] for s in res if not s["truncated"] and not s["incomplete"] and not s["unknown"] and not s["violations"] and not s["unconfirmed"]]
    unconf = [{"scenario": s["scenario"], **u} for s in res for u in s["unconfirmed"]]
    incomplete = {}
    for s in res:
        for k, n in s["incomplete"].items():
            incomplete[s["scenario"] + ": " + k] = n
    samples = []
    for s in res:
        if s["samples"]:
            x = s["samples"][len(s["samples"]) // 2]
            samples.append({"scenario": s["scenario"], "build": s["variant"], "inputs": x["inputs"][:60], "observed": x["obs"][:40]})
    lib = names.library(funcs)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": paths_n + tot("forks") + tot("infeasible"),
            "transitions": tot("decisions") + tot("implied"),
            "traces_validated_against_impl": agreed,
            "samples": samples[:12],
            "exhaustive": len(complete) == len(res),
            "symbolic_paths": paths_n,
            "paths_ending_in_expected_panic": tot("expected_panics"),
            "assertions_reached": tot("checks"),
            "assertions_decided_by_solver": tot("checks_solver"),
            "instructions_executed": tot("steps"),
            "queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"),
            "solver": solver, "solver_s": round(tot("solver_s"), 2),
            "scenarios": [{k: s[k] for k in ("scenario", "variant", "done", "expected_panics", "truncated", "forks", "decisions", "checks", "checks_solver", "queries", "unknown", "solver_s", "wall_s", "covers")} for s in res],
            "scenarios_exhausted_within_bounds": complete,
            "scenarios_cut_by_the_time_limit": [s["scenario"] for s in res if s["truncated"]],
            "bounds": P["bounds"],
            "bounds_common": plan.COMMON_BOUNDS,
            "functions_encoded": len(funcs),
            "functions_of_the_library": lib,
            "incomplete": incomplete, "unconfirmed": unconf[:20], "disagreements": disagreements[:20],
            "build_s": round(t_build, 1), "explore_s": round(t_solve, 1),
        },
        "assumptions": plan.ASSUMPTIONS + P.get("assumptions", []),
        "wall_s": round(time.time() - T0, 1), "violations": len(viol),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    print("%s (%s): %d scenarios (%d exhausted), %d paths, %d queries (%.1f s), %d traces validated, build %.0f s, total %.0f s"
          % (prop, tier, len(res), len(complete), paths_n, tot("queries"), tot("solver_s"), agreed, t_build, time.time() - T0))
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for k, n in incomplete.items():
        print("note: not explored: %s (%d paths)" % (k, n))
    for u in unconf[:5]:
        print("note: not reproduced natively, not reported: %s: %s" % (u["scenario"], u["msg"]))
    for l in lines:
        print(l)
    if lines:
        sys.exit(1)
    if disagreements:
        print("the encoding and the native code disagree: %s" % json.dumps(disagreements[0]))
        sys.exit(2)
    vac = [s["scenario"] for s in res if s["done"] + s["expected_panics"] == 0 and not s["truncated"]]
    if vac or paths_n == 0:
        print("no path reached the end in: %s" % " ".join(vac))
        sys.exit(2)


main()
