#!/usr/bin/env python3
"""check.py <property> [quick|thorough] | check.py setup

Builds the monitors against /repo's working tree (one binary per protocol version, in parallel), runs
them, merges what they observed into evidence/<property>.json and prints the verdict.
Exit 0: held on everything observed. Exit 1: VIOLATION line. Anything else: no verdict."""
import json, os, subprocess, sys, time, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
VERSIONS = ["2024_11_05", "2025_03_26", "2025_06_18", "2025_11_25", "2026_07_28", "draft"]
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)


class NoVerdict(Exception):
    pass


class NoBuild(NoVerdict):
    """the observers did not build"""


def cargo_build(ver, extra=(), flags="", target=None, toolchain=None, features=None, where="harness"):
    env = dict(ENV, CARGO_TARGET_DIR=target or f"{HERE}/target/{ver}", CARGO_BUILD_JOBS="4")
    if flags:
        env["RUSTFLAGS"] = flags
    cmd = ["cargo"] + ([f"+{toolchain}"] if toolchain else []) + ["build", "--offline", "-q", "--features", features or f"v{ver}", *extra]
    p = subprocess.run(cmd, cwd=f"{HERE}/{where}", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        errs = [l for l in p.stdout.splitlines() if l.startswith("error")]
        raise NoBuild(f"building the monitor for {ver} failed: {errs[:5]}\n{p.stdout[-3000:]}")


def run_monitor(binary, prop, ver, tier, seed, out, timeout, env=None, scale=100):
    if os.path.exists(out):
        os.remove(out)
    cmd = [binary, "--prop", prop, "--tier", tier, "--seed", str(seed), "--scale", str(scale), "--out", out]
    try:
        p = subprocess.run(cmd, cwd=HERE, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise NoVerdict(f"monitor for {ver} did not finish in {timeout} s")
    if p.returncode == 0 and os.path.exists(out):
        return json.load(open(out))
    # the process under observation died: that is an observation, not a verdict of ours
    text = p.stdout[-4000:] if "WARNING: ThreadSanitizer" not in p.stdout else p.stdout[p.stdout.index("WARNING: ThreadSanitizer"):][:4000]
    if p.returncode < 0 or "ERROR: AddressSanitizer" in text or "WARNING: ThreadSanitizer" in p.stdout or "Undefined Behavior" in text or p.returncode in (101, 134):
        return {"property": prop, "version": ver, "evaluations": 0, "distinct": 0, "counters": {}, "samples": [], "notes": [], "digests": {},
                "violation_counts": {"the process died": 1},
                "violations": [{"sig": "the process died", "detail": f"exit {p.returncode}: {text}", "case": {"cmd": cmd}}]}
    raise NoVerdict(f"monitor for {ver} ended with {p.returncode}: {text}")


def standard(prop, tier, seed, cfg):
    """one monitor per protocol version"""
    vers = cfg.get("versions", VERSIONS)
    os.makedirs(f"{HERE}/work/{prop}", exist_ok=True)

    def one(ver):
        cargo_build(ver)
        return run_monitor(f"{HERE}/target/{ver}/debug/mcpmon", prop, ver, tier, seed, f"{HERE}/work/{prop}/{ver}.json", cfg.get("timeout", 800 if tier == "quick" else 14400),
                           scale=cfg.get("quick_scale", 600) if tier == "quick" else 100)

    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, vers))


def hostile(prop, tier, seed, cfg):
    """the standard monitors; in the thorough tier also under AddressSanitizer"""
    reports = standard(prop, tier, seed, cfg)
    if tier != "thorough":
        return reports
    trip = "x86_64-unknown-linux-gnu"
    env = dict(ENV, MCPMON_STACK=str(32 << 20), ASAN_OPTIONS="detect_leaks=1:abort_on_error=0")

    def one(ver):
        t = f"{HERE}/target/asan_{ver}"
        cargo_build(ver, extra=["--target", trip], flags="-Zsanitizer=address", target=t, toolchain="nightly")
        r = run_monitor(f"{t}/{trip}/debug/mcpmon", prop, ver, tier, seed, f"{HERE}/work/{prop}/{ver}.asan.json", 14400, env=env, scale=10)
        r["counters"] = {f"under AddressSanitizer: {k}": n for k, n in r["counters"].items()}
        r["version"] = ver + " (AddressSanitizer)"
        return r

    with cf.ThreadPoolExecutor(8) as ex:
        return reports + list(ex.map(one, cfg.get("versions", VERSIONS)))


def schedules(prop, tier, seed, cfg):
    """the standard monitors; in the thorough tier also under ThreadSanitizer, the standard library instrumented too"""
    reports = standard(prop, tier, seed, cfg)
    if tier != "thorough":
        return reports
    trip = "x86_64-unknown-linux-gnu"
    env = dict(ENV, MCPMON_LIGHT="1", TSAN_OPTIONS="halt_on_error=1:second_deadlock_stack=1")

    def one(ver):
        t = f"{HERE}/target/tsan_{ver}"
        cargo_build(ver, extra=["-Zbuild-std", "--target", trip, "--config", "profile.dev.opt-level=1"], flags="-Zsanitizer=thread", target=t, toolchain="nightly")
        r = run_monitor(f"{t}/{trip}/debug/mcpmon", prop, ver, "quick", seed, f"{HERE}/work/{prop}/{ver}.tsan.json", 14400, env=env, scale=cfg.get("tsan_scale", 20))
        r["counters"] = {f"under ThreadSanitizer: {k}": n for k, n in r["counters"].items()}
        r["version"] = ver + " (ThreadSanitizer)"
        return r

    with cf.ThreadPoolExecutor(3) as ex:
        return reports + list(ex.map(one, cfg.get("versions", VERSIONS)))


# which other versions are switched on together with each one (the three newest exclude one another)
OLD, NEW = VERSIONS[:3], VERSIONS[3:]
TOGETHER = [(v, [o for o in OLD if o != v] + [n]) for v in OLD for n in NEW] + [(n, OLD) for n in NEW]


def together(ver, others):
    return f"{HERE}/target/with_{ver}_{others[-1]}"


def build_together(x):
    ver, others = x
    cargo_build(ver, target=together(ver, others), features=",".join([f"v{ver}"] + [f"rust-mcp-schema/{o}" for o in others]))


# combinations of versions whose modules and crate root are looked at: (versions, with schema_utils)
ROOTS = [([n], True) for n in NEW] + [(OLD + [n], True) for n in NEW] + [(OLD + [n], False) for n in NEW] + [(OLD, True)]
EVERY = [([o for k, o in enumerate(OLD) if m >> k & 1] + n, u) for m in range(8) for n in [[]] + [[x] for x in NEW] for u in (True, False) if m or n]


def failure(ver, what, detail, case):
    return {"version": ver, "evaluations": 1, "distinct": 1, "counters": {}, "samples": [], "notes": [], "digests": {},
            "violation_counts": {what: 1}, "violations": [{"sig": what, "detail": detail, "case": case}]}


def crate_builds(features, target):
    env = dict(ENV, CARGO_TARGET_DIR=target, CARGO_BUILD_JOBS="4")
    p = subprocess.run(["cargo", "check", "--offline", "-q", "--lib", "--manifest-path", "/repo/Cargo.toml", "--no-default-features", "--features", ",".join(features)],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 0, p.stdout[-2000:]


def combination_fails(e, versions, utils, target):
    """an observer of a combination did not build: a violation if the crate does not build so although each of its versions does alone"""
    more = ["schema_utils"] if utils else []
    ok, text = crate_builds(versions + more, target)
    if ok or not all(crate_builds([v] + more, target)[0] for v in versions):
        raise e
    return failure(versions[-1], "a documented combination of versions does not build", text, {"versions": versions, "schema_utils": utils})


def roots(combos, lanes=5):
    """the modules and the root a combination offers"""
    def lane(k):
        out = []
        for versions, utils in combos[k::lanes]:
            t = f"{HERE}/target/root_{k}"
            name = "+".join(versions) + ("" if utils else " without schema_utils")
            try:
                cargo_build(name, target=t, features=",".join([f"v{v}" for v in versions] + (["utils"] if utils else [])), where="harness/root")
            except NoBuild as e:
                out.append(combination_fails(e, versions, utils, t))
                continue
            p = subprocess.run([f"{t}/debug/rootmon"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
            rows = [json.loads(l) for l in p.stdout.splitlines()]
            r = {"version": name, "evaluations": len(rows), "distinct": len({x["what"] for x in rows}), "counters": {"modules and root looked at": len(rows)},
                 "samples": rows[-1:], "notes": [], "digests": {}, "violation_counts": {}, "violations": []}
            for x in rows:
                if not x["ok"]:
                    r["violation_counts"][x["what"]] = 1
                    r["violations"].append({"sig": x["what"], "detail": str(x["seen"]), "case": {"versions": versions, "schema_utils": utils}})
            if p.returncode:
                r["violation_counts"]["the process died"] = 1
                r["violations"].append({"sig": "the process died", "detail": p.stderr[-2000:], "case": {"versions": versions, "schema_utils": utils}})
            out.append(r)
        return out

    with cf.ThreadPoolExecutor(lanes) as ex:
        return [r for l in ex.map(lane, range(lanes)) for r in l]


def coexist(prop, tier, seed, cfg):
    """each version observed alone and with other versions switched on: every observation must be the same"""
    d = f"{HERE}/work/{prop}"
    os.makedirs(d, exist_ok=True)
    cfgs = json.load(open(f"{HERE}/checks.json"))
    scale = cfg["scale"] if tier == "quick" else cfg["scale"] * 10
    observe = [(p, v) for p, c in cfgs.items() if p not in (prop, "C24") for v in c.get("versions", VERSIONS)]

    def alone(x):
        p, ver = x
        return x, run_monitor(f"{HERE}/target/{ver}/debug/mcpmon", p, ver, "quick", seed, f"{d}/{ver}.{p}.json", 1200, scale=scale)

    def one(x):
        ver, others = x
        try:
            build_together(x)
        except NoBuild as e:
            return combination_fails(e, [ver] + others, True, together(ver, others))
        names = ", ".join(others)
        out = {"version": ver, "evaluations": 0, "distinct": 0, "counters": {}, "samples": [], "notes": [], "violation_counts": {}, "violations": []}
        for p, v in observe:
            if v != ver:
                continue
            base = by[p, ver]
            both = run_monitor(f"{together(ver, others)}/debug/mcpmon", p, ver, "quick", seed, f"{d}/{ver}.{p}.{others[-1]}.json", 1200, scale=scale)
            out["evaluations"] += both["evaluations"]
            out["distinct"] += both["distinct"]
            out["counters"][f"{p} observed with {names}"] = both["evaluations"]
            out["samples"] += both["samples"][-1:]
            for k in ("evaluations", "distinct", "counters", "digests", "violation_counts"):
                if base[k] != both[k]:
                    sig = f"{p}: {k} differ with {names} switched on"
                    first = next(({"what": n, "alone": base[k].get(n), "together": both[k].get(n)} for n in sorted(set(base[k]) | set(both[k])) if base[k].get(n) != both[k].get(n)), None) \
                        if isinstance(base[k], dict) else {"alone": base[k], "together": both[k]}
                    out["violation_counts"][sig] = 1
                    out["violations"].append({"sig": sig, "detail": json.dumps(first), "case": {"with": others, "first": (both["violations"] or [None])[0]}})
        return out

    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(cargo_build, VERSIONS))
        by = dict(ex.map(alone, observe))
        reports = list(ex.map(one, TOGETHER))
    return reports + roots(ROOTS if tier == "quick" else EVERY)


def known(prop):
    f = f"{HERE}/known-findings.json"
    return [k for k in (json.load(open(f)) if os.path.exists(f) else []) if k["property"] == prop and k["status"] == "open"]


def main():
    a = sys.argv[1:]
    if not a:
        sys.exit(__doc__)
    cfgs = json.load(open(f"{HERE}/checks.json"))
    if a[0] == "setup":
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(cargo_build, VERSIONS))
            list(ex.map(build_together, TOGETHER))
        roots(ROOTS)
        print("monitors built")
        return 0
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = cfgs[prop]
    t0 = time.time()
    runner = globals()[cfg.get("runner", "standard")]
    reports = runner(prop, tier, seed, cfg)
    kf = known(prop)
    seen, viols = {}, []
    for r in reports:
        for sig, n in r["violation_counts"].items():
            k = next((k for k in kf if k["sig"] == sig and k["version"] == r["version"]), None)
            v = next((v for v in r["violations"] if v["sig"] == sig), {"sig": sig, "detail": "", "case": None})
            if k:
                seen[(k["version"], k["sig"])] = n
            else:
                viols.append((r["version"], n, v))
    evals = sum(r["evaluations"] for r in reports)
    distinct = sum(r["distinct"] for r in reports)
    if not viols and (evals < cfg.get("min_evals", 1) or any(r["evaluations"] == 0 for r in reports)):
        raise NoVerdict(f"too little was observed: {evals} evaluations")
    wall = time.time() - t0
    samples = []
    for r in reports:
        samples += [dict(s, version=r["version"]) for s in r["samples"][-4:]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct, "rule": cfg["rule"],
            "samples": samples[:24],
            "per_version": {r["version"]: {"evaluations": r["evaluations"], "distinct": r["distinct"], "observed": r["counters"], "notes": r["notes"]} for r in reports},
            "known_findings_seen": [{"version": k[0], "what": k[1], "times": n} for k, n in sorted(seen.items())],
        },
        "wall_s": round(wall, 1), "violations": len(viols), "assumptions": cfg.get("assumptions", []),
    }
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    json.dump(ev, open(f"{HERE}/evidence/{prop}.json", "w"), indent=1, ensure_ascii=True)
    for (ver, sig), n in sorted(seen.items()):
        print(f"KNOWN-FINDING: property={prop} {ver}: {sig} (seen {n} times)")
    if viols:
        d = f"{HERE}/work/{prop}"
        os.makedirs(d, exist_ok=True)
        for i, (ver, n, v) in enumerate(viols[:20]):
            f = f"{d}/violation-{i}.json"
            json.dump({"property": prop, "version": ver, "seed": seed, "tier": tier, "times": n, **v,
                       "replay": f"VERIF_SEED={seed} ./check.py {prop} {tier}"}, open(f, "w"), indent=1)
            print(f"VIOLATION property={prop} replay={os.path.relpath(f, HERE)}")
            print(f"  {ver}: {v['sig']} ({n} times): {v['detail'][:400]}")
        return 1
    print(f"{prop} {tier}: held on {evals} evaluations ({distinct} distinct) in {wall:.1f} s")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoVerdict as e:
        print(f"NO VERDICT: {e}", file=sys.stderr)
        sys.exit(3)
