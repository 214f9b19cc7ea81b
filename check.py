#!/usr/bin/env python3
"""Decides one property by symbolic execution of the real code.

    check.py C01 [--tier quick|thorough] [--keep]      one property
    check.py --setup                                   builds everything, runs the selftest
    check.py --replay replays/C01-....json             replays a recorded violation natively

exit 0: held on everything explored; 1: violated (a VIOLATION line was printed); 2: no answer.
"""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SYMEX_REPO", "/repo")
T = os.path.join(V, "target")
BUILD = os.path.join(V, "build")
ENGINE = os.path.join(T, "engine/release/symex")
REPLAY = os.path.join(T, "harness/replay/harness")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
    ENV.pop(k, None)
sys.path.insert(0, V)
sys.dont_write_bytecode = True


class NoAnswer(Exception):
    pass


def sh(cmd, cwd, target, what):
    p = subprocess.run(cmd, cwd=cwd, env=dict(ENV, CARGO_TARGET_DIR=target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise NoAnswer(f"{what} failed:\n{p.stdout[-4000:]}")


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, sub, files in os.walk(d):
            sub[:] = sorted(x for x in sub if x not in ("target", ".git", "evidence", "replays"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".lock", ".md", ".py")):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, d).encode() + b"\0")
                    with open(p, "rb") as x:
                        h.update(x.read() + b"\0")
    return h.hexdigest()


def build():
    """Engine, whole-program IR and native replayer of the current trees. Returns the IR's path."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        ht = os.path.join(T, "harness")
        key = tree_hash([REPO, os.path.join(V, "harness"), os.path.join(V, "engine")])
        state = os.path.join(BUILD, "state.json")
        try:
            st = json.load(open(state))
            if st["key"] == key and all(os.path.exists(x) for x in (st["ir"], ENGINE, REPLAY)):
                return st["ir"], key
        except (OSError, ValueError, KeyError):
            pass
        sh(["cargo", "build", "--release", "--offline"], os.path.join(V, "engine"), os.path.join(T, "engine"), "building the engine")
        h = os.path.join(V, "harness")
        # the content decides, not the time stamps
        for prof in (["--release"], ["--profile", "replay"]):
            subprocess.run(["cargo", "clean", "--offline", "-p", "mysql-connector", "-p", "mysql-connector-macros", "-p", "harness"] + prof,
                           cwd=h, env=dict(ENV, CARGO_TARGET_DIR=ht), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for f in glob.glob(os.path.join(ht, "release/deps/harness-*.ll")):
            os.remove(f)
        sh(["cargo", "rustc", "--release", "--offline", "--bin", "harness", "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp",
            "-C", "link-arg=-Wl,--unresolved-symbols=ignore-all"], h, ht, "compiling /repo to LLVM IR")
        ll = glob.glob(os.path.join(ht, "release/deps/harness-*.ll"))
        if len(ll) != 1:
            raise NoAnswer(f"expected one IR file, found {ll}")
        sh(["cargo", "build", "--profile", "replay", "--features", "replay", "--offline"], h, ht, "building the native replayer")
        with open(state, "w") as f:
            json.dump({"key": key, "ir": ll[0]}, f)
        return ll[0], key


def native(lines, timeout=120):
    """Runs inputs on the natively compiled real code: [(outcome, observed, covers, message)]."""
    out = []
    lines = list(lines)
    start = time.time()
    while len(out) < len(lines):
        if time.time() - start > max(60, 2 * timeout):
            out += [("skipped", "", "", "")] * (len(lines) - len(out))
            break
        rest = lines[len(out):]
        p = subprocess.Popen([REPLAY], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                             preexec_fn=limit)
        try:
            so, _ = p.communicate("\n".join(rest) + "\n", timeout=timeout)
            end = f"abort ({p.returncode})"
        except subprocess.TimeoutExpired:
            p.kill()
            so, _ = p.communicate()
            end = "hang"
        got = [tuple((l.split("\t") + ["", "", ""])[:4]) for l in so.splitlines() if "\t" in l][:len(rest)]
        out += got
        if len(out) < len(lines):
            # the next one ended the process
            out.append((end.split()[0], "", "", end))
    return out


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def run_job(ir, job, outdir, i, time_s):
    out = os.path.join(outdir, f"{i}.json")
    cmd = [ENGINE, "--ir", ir, "--entry", job["h"], "--out", out, "--time", str(round(time_s, 1)),
           "--samples", str(job.get("samples", 4)), "--max-steps", str(job.get("max_steps", 20_000_000)),
           "--max-violations", "20", "--query-timeout-ms", str(job.get("qt", 20000)), "--preempts", str(job.get("preempts", 2))]
    for p in job["p"]:
        cmd += ["--param", str(p)]
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=time_s + 60, preexec_fn=limit)
        code, text = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return {"timeout": True, "wall": time.time() - t}
    if code not in (0, 1) or not os.path.exists(out):
        return {"error": f"engine exit {code}: {text[-1500:]}", "wall": time.time() - t}
    r = json.load(open(out))
    r["wall"] = time.time() - t
    return r


def name(j):
    return f"{j['h']}({','.join(map(str, j['p']))})"


def known_findings(prop):
    known, path = [], os.path.join(V, "known_findings.txt")
    for l in open(path):
        m = re.match(r"finding: property=(\S+) harness=(\S+) label=(.*?) :: (.*)", l.strip())
        if m and m[1] == prop:
            known.append((m[2], m[3], m[4]))
    return known


def crate_functions(fs):
    """The functions of the crate under test among the executed ones, as readable paths."""
    out = set()
    for f in fs:
        if "mysql_connector" not in f:
            continue
        comps, i = [], 0
        k = f.find("15mysql_connector")
        i = k
        while i < len(f) and f[i].isdigit():
            m = re.match(r"(\d+)", f[i:])
            n = int(m[1])
            j = i + len(m[1])
            if j < len(f) and f[j] == "_":
                j += 1
            comps.append(f[j:j + n])
            i = j + n
            while i < len(f) and not f[i].isdigit() and f[i] not in "N":
                if f[i] in "EINB":
                    break
                i += 1
        out.add("::".join(comps))
    return sorted(out)


def main():
    a = sys.argv[1:]
    t0 = time.time()
    if a and a[0] == "--setup":
        ir, _ = build()
        r = subprocess.run([ENGINE, "--selftest", "300"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(r.stdout.strip(), f"({time.time() - t0:.0f} s)")
        return 0 if r.returncode == 0 else 2
    if a and a[0] == "--replay":
        build()
        j = json.load(open(a[1]))
        r = native([f"{j['harness']} {','.join(map(str, j['params']))} {j['input']}"])[0]
        print(json.dumps({"recorded": j["label"], "outcome": r[0], "observed": r[1], "message": r[3]}, indent=1))
        return 1 if r[0] not in ("ok", "infeasible") else 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import jobs as J
    spec = J.PROPS[prop]
    jobs = [j for j in spec["jobs"] if tier in j["tiers"]]
    ir, key = build()
    t_build = time.time() - t0
    budget = spec.get("budget", {}).get(tier) or (240 if tier == "quick" else 600)
    hard = 700 if tier == "quick" else 3000
    outdir = os.path.join(BUILD, f"run-{prop}-{os.getpid()}")
    os.makedirs(outdir)
    res = [None] * len(jobs)
    t1 = time.time()
    workers = min(os.cpu_count() or 8, 8)

    def work(i):
        left = budget - (time.time() - t1)
        if left < 1:
            return
        res[i] = run_job(ir, jobs[i], outdir, i, max(2.0, min(left, jobs[i].get("time", budget))))
    with cf.ThreadPoolExecutor(workers) as ex:
        list(ex.map(work, range(len(jobs))))
    subprocess.run(["rm", "-rf", outdir])

    errors, notes, violations, samples = [], [], [], []
    covers, fns = {}, set()
    tot = dict.fromkeys(["paths", "forks", "steps", "asserts", "asserts_folded", "asserts_smt", "queries", "solver_s", "branch_smt", "branch_dom", "infeasible", "unknowns", "sched_points", "concretisations"], 0)
    per_job, incomplete = [], []
    for j, r in zip(jobs, res):
        n = name(j)
        if r is None:
            incomplete.append(f"{n}: not started within the time budget")
            continue
        if "error" in r:
            errors.append(f"{n}: {r['error']}")
            continue
        if "timeout" in r:
            incomplete.append(f"{n}: no result within the time budget")
            continue
        for k in tot:
            tot[k] += r.get(k, 0)
        fns.update(r["functions"])
        for c, k in r["covers"].items():
            covers[c] = covers.get(c, 0) + k
        if not r["complete"]:
            incomplete.append(f"{n}: {r['pending']} subtrees unexplored within the time budget ({r['paths']} paths done)")
        for k, c in r["truncated"].items():
            incomplete.append(f"{n}: {c} paths cut: {k}")
        for k, c in r["inconclusive"].items():
            (notes if j.get("lenient") else incomplete).append(f"{n}: {c} paths inconclusive: {k}")
        # code the engine cannot follow: a few such paths leave the rest valid, many are no answer
        if not j.get("lenient") and sum(r["inconclusive"].values()) * 2 > r["paths"]:
            errors.append(f"{n}: most paths inconclusive: {list(r['inconclusive'])[:3]}")
        if r["unknowns"]:
            incomplete.append(f"{n}: {r['unknowns']} solver queries without an answer (taken as feasible)")
        if r["paths"] == 0 and r["complete"]:
            errors.append(f"{n}: no feasible path (vacuous)")
        per_job.append({"harness": n, "bound": j.get("b", ""), "paths": r["paths"], "complete": bool(r["complete"]) and not r["truncated"], "asserts": r["asserts"], "queries": r["queries"], "solver_s": r["solver_s"], "wall_s": round(r["wall"], 2)})
        for s in r["samples"]:
            samples.append((j, s))
        for v in r["violations"]:
            # (a harness may check more than one property)
            if v["kind"] != "assert" or not j.get("labels") or v["label"] in j["labels"]:
                violations.append((j, v))
    # encoding against machine code: sampled paths must behave natively as predicted
    nat = [x for x in samples if not x[0].get("no_native")]
    lines = [f"{j['h']} {','.join(map(str, j['p']))} {s['input']}" for j, s in nat]
    got = native(lines, timeout=20 if violations else 120) if lines else []
    validated = 0
    for (j, s), g, l in zip(nat, got, lines):
        if g[0] == "ok" and g[1] == s["observed"] and set(x for x in g[2].split(",") if x) == set(x.replace(",", ";") for x in s["covers"]):
            validated += 1
        elif violations:
            notes.append(f"sampled path differs natively: {l}: {g}")
        else:
            errors.append(f"encoding mismatch: {l}: predicted ok/{s['observed']}/{s['covers']}, native {g}")
    # violations: known, confirmed natively, or an error of the encoding
    known = known_findings(prop)
    confirmed, seen_known = [], {}
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    # different failures first; a few confirmed ones are enough, replaying hanging ones takes long
    nth, order = {}, []
    for j, v in violations:
        key_ = (j["h"], v["label"])
        nth[key_] = nth.get(key_, 0) + 1
        order.append((nth[key_], j, v))
    order.sort(key=lambda x: x[0])
    t_replay, dropped = time.time(), 0
    for _, j, v in order:
        if len(confirmed) >= 12 or confirmed and time.time() - t_replay > 60:
            dropped += 1
            continue
        k = [x for x in known if x[0] == j["h"] and x[1] == v["label"]]
        line = f"{j['h']} {','.join(map(str, j['p']))} {v['input']}"
        g = native([line], timeout=15)[0] if not (j.get("no_native") and v["sched"]) else ("sched", "", "", "")
        ok = g[0] in ("assert", "panic", "abort", "hang")
        if g[0] == "ok" and v["kind"] == "memory":
            ok = False
        if g[0] == "sched":
            ok = True
        if not ok:
            errors.append(f"{name(j)}: counterexample not reproduced natively: {v['kind']} {v['label']} input={v['input']} native={g}")
            continue
        if k:
            seen_known[k[0]] = line
            continue
        p = os.path.join(V, "replays", f"{prop}-{j['h']}-{hashlib.sha256((v['label'] + line).encode()).hexdigest()[:10]}.json")
        with open(p, "w") as f:
            json.dump({"property": prop, "harness": j["h"], "params": j["p"], "input": v["input"], "kind": v["kind"], "label": v["label"], "schedule": v["sched"], "trace": v["trace"], "native": g,
                       "how": "python3 /verif/check.py --replay <this file>"}, f, indent=1)
        confirmed.append((j, v, p))
    if dropped:
        notes.append(f"{dropped} further counterexamples not replayed")
    for kf, line in seen_known.items():
        print(f"KNOWN-FINDING: property={prop} {kf[2]} [{line}]")
    need = [c for j in jobs for c in j.get("covers", [])]
    skipped = {n.split(":")[0] for n in incomplete}
    for j in jobs:
        for c in j.get("covers", []):
            if c not in covers and name(j) not in skipped and not violations:
                errors.append(f"{name(j)}: never reached: {c} (vacuous)")
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2), "violations": len(confirmed),
        "coverage": {
            "states": tot["paths"], "transitions": tot["forks"] + tot["branch_dom"] + tot["branch_smt"],
            "traces_validated_against_impl": validated,
            "exhaustive": not incomplete and not errors,
            "samples": [{"harness": name(j), "input": s["input"], "observed": s["observed"][:400], "covers": s["covers"]} for j, s in samples[:6]],
            "meaning": "states = feasible symbolic paths executed to the end (each stands for all inputs satisfying its path condition); transitions = decided branches and forks on symbolic values",
            "functions_encoded": len(fns), "functions_of_the_crate": crate_functions(fns),
            "bounds": [{"harness": n["harness"], "bound": n["bound"]} for n in per_job],
            "harness_runs": per_job,
            "assertions_checked": tot["asserts"], "assertions_folded_by_rewriting": tot["asserts_folded"], "assertions_decided_by_smt": tot["asserts_smt"],
            "branches_decided_by_domains": tot["branch_dom"], "branches_decided_by_smt": tot["branch_smt"],
            "queries_discharged": tot["queries"], "solver_time_s": round(tot["solver_s"], 3), "solver_unknowns": tot["unknowns"], "instructions_executed": tot["steps"], "schedule_points": tot["sched_points"],
            "covers": covers, "not_explored": incomplete, "notes": notes[:20], "known_findings_seen": [x[2] for x in seen_known],
            "outside": spec.get("outside", ""), "build_s": round(t_build, 2), "source_hash": key,
        },
        "assumptions": spec.get("assumptions", []) + J.ASSUMPTIONS,
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for x in incomplete[:10]:
        print("bounded:", x)
    print(f"{prop} [{tier}]: {tot['paths']} paths, {tot['asserts']} assertions, {tot['queries']} queries ({tot['solver_s']:.1f} s), {validated} paths validated natively, {wall:.0f} s (build {t_build:.0f} s)")
    if confirmed:
        for j, v, p in confirmed:
            print(f"  {name(j)}: {v['kind']}: {v['label']} (input {v['input']})")
            print("    at " + " < ".join(v["trace"][:6]))
        for j, v, p in confirmed:
            print(f"VIOLATION property={prop} replay={os.path.relpath(p, V)}")
        return 1
    if errors:
        for e in errors[:20]:
            print("NO ANSWER:", e)
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        print("NO ANSWER:", e)
        sys.exit(2)
