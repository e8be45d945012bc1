#!/usr/bin/env python3
"""C22: builds the crate under every documented feature set and both kinds of profile, runs the
same enumerated inputs through all of them and compares what each operation did."""
import concurrent.futures as cf, json, os, re, subprocess, sys, time

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tier = sys.argv[1] if len(sys.argv) > 1 else "quick"
replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
t0 = time.time()
base = f"{root}/.build/cfg"
os.makedirs(base, exist_ok=True)
os.makedirs(f"{root}/evidence", exist_ok=True)
os.makedirs(f"{root}/replays", exist_ok=True)
killers = f"{base}/killers.txt"
env = dict(os.environ, CARGO_NET_OFFLINE="true", VERIF_TIER=tier, CFG_KILLERS=killers)
env.pop("RUSTFLAGS", None)

SETS = [("none", ""), ("alloc", "alloc"), ("stacker", "stacker"), ("alloc+stacker", "alloc,stacker"), ("std", "std"),
        ("default", "default-set"), ("rayon", "rayon"), ("rayon+stacker", "rayon,stacker")]
CONFIGS = [(s, f, p) for s, f in SETS for p in ("dev", "release")
           if tier == "thorough" or p == "dev" or s in ("none", "alloc", "default", "rayon+stacker")]


def build(c):
    s, f, p = c
    d = f"{base}/{s}"
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "-j", "4", "--profile", p, "--features", f],
                       cwd=f"{root}/cfgmc", env=dict(env, CARGO_TARGET_DIR=d), capture_output=True, text=True)
    return c, r.returncode, r.stderr, f"{d}/{'debug' if p == 'dev' else 'release'}/cfgmc"


def check_nostd(f):
    r = subprocess.run(["cargo", "check", "--offline", "--locked", "-j", "2", "--features", f],
                       cwd=f"{root}/cfgmc/nostd", env=dict(env, CARGO_TARGET_DIR=f"{base}/nostd-{f or 'none'}"), capture_output=True, text=True)
    return f, r.returncode, r.stderr


def run(path, args=()):
    e = dict(env)
    try:
        r = subprocess.run([path, *args], env=e, capture_output=True, text=True, timeout=300 if tier == "quick" else 700)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return -99, "", "does not end in time"


def name(c):
    return f"{c[0]} ({'debug assertions' if c[2] == 'dev' else 'no debug assertions'})"


def finish(viol, cov, samples):
    wall = time.time() - t0
    ev = {"property": "C22", "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "exploration",
          "coverage": {**cov, "rule": "Each case is one operation with one argument on one input of an enumerated family; it runs once per configuration that has the operation, and the arrangements, results and panics must agree. Counted as distinct: (section, operation, configuration) digests over all their cases, counted once per case.",
                       "exhaustive": viol is None, "samples": samples},
          "assumptions": ["exhaustive within the enumerated families only", "x86_64 host target; optimisation level 1 with and 2 without debug assertions",
                          "absence of std from the none and alloc sets is decided by a crate that defines the panic handler itself"],
          "wall_s": round(wall, 2), "violations": 0 if viol is None else 1}
    with open(f"{root}/evidence/C22.json", "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        path = f"{root}/replays/C22.json"
        with open(path, "w") as f:
            json.dump({"property": "C22", "tier": tier, **viol, "replay": f"/verif/check.sh C22 {tier} --replay '{viol.get('section', '')}/{viol.get('operation', '')}'"}, f, indent=1)
        print(viol["failure"])
        print(f"VIOLATION property=C22 replay={path}")
        sys.exit(1)
    sys.exit(0)


with cf.ThreadPoolExecutor(6) as ex:
    nostd = [ex.submit(check_nostd, f) for f in ("", "alloc")]
    # Both profiles of a set share a directory, hence one task per set; rayon's first, it takes longest.
    groups = [ex.submit(lambda s=s: [build(c) for c in CONFIGS if c[0] == s]) for s, _ in reversed(SETS)]
    built = [b for g in groups for b in g.result()]
    nostd = [n.result() for n in nostd]
order = {c: i for i, c in enumerate(CONFIGS)}
built.sort(key=lambda b: order[b[0]])
bad = [b for b in built if b[1]] + [((f"no_std crate with {f or 'no features'}", f, "dev"), rc, err, "") for f, rc, err in nostd if rc]
cov = {"evaluations": 0, "distinct_nontrivial": 0, "configurations": [name(c) for c in CONFIGS] + ["no_std without features", "no_std with alloc"]}
if len([b for b in built if b[1]]) == len(built):
    print(built[-1][2][-3000:])
    print("ERROR: the crate does not build under any feature set")
    sys.exit(2)
if bad:
    b = bad[0]
    finish({"failure": f"does not build: {b[0][0]} in profile {b[0][2]}\n{b[2][-1500:]}", "configuration": b[0][0]}, cov, [])
print(f"built {len(built)} configurations in {time.time() - t0:.1f} s")

bins = {b[0]: b[3] for b in built}
ref = CONFIGS[-1]
rc, _, err = run(bins[ref], ["killers"])
if rc:
    # The operation itself failed on inputs all of them get: not a difference of configurations.
    with open(killers, "w") as f:
        pass
if replay:
    section, op = replay.split("/")
    lists = {c: run(b, ["list", section, op])[1].splitlines() for c, b in bins.items()}
    for c in CONFIGS:
        for x, y in zip(lists[ref], lists[c]):
            if x != y:
                print(f"{name(ref)}: {x}\n{name(c)}: {y}")
                break
    sys.exit(0)

with cf.ThreadPoolExecutor(8) as ex:
    outs = dict(zip(CONFIGS, ex.map(lambda c: run(bins[c]), CONFIGS)))
table, total = {}, 0
crashed = [c for c in CONFIGS if outs[c][0]]
for c in CONFIGS:
    rc, o, err = outs[c]
    for l in o.splitlines():
        f = l.split("\t")
        if f[0] == "D":
            table.setdefault((f[1], f[2]), {})[c] = (int(f[3]), f[4])
        elif f[0] == "T":
            total += int(f[1])
cov["evaluations"] = total
cov["distinct_nontrivial"] = sum(max(x[0] for x in t.values()) for t in table.values())
cov["operations"] = len({k[1] for k in table})
cov["cases_by_section"] = {s: sum(sum(x[0] for x in t.values()) for k, t in table.items() if k[0] == s) for s in sorted({k[0] for k in table})}
samples = [f"{s}/{o}: {next(iter(t.values()))[0]} cases, digest {next(iter(t.values()))[1]} in {len(t)} configurations" for (s, o), t in list(table.items())[:10]]
if crashed:
    c = crashed[0]
    finish({"failure": f"{name(c)} ended with {outs[c][0]}: {outs[c][2][-600:]}", "configuration": name(c)}, cov, samples)
for c in CONFIGS:
    for l in outs[c][1].splitlines():
        if l.startswith("BAD"):
            f = l.split("\t")
            finish({"failure": f"{name(c)}: [{f[1]}] {f[2]} {f[3]}: {f[4]}", "configuration": name(c), "section": f[1], "operation": f[2]}, cov, samples)
for (s, o), t in sorted(table.items()):
    if len(set(t.values())) > 1:
        want = t.get(ref) or next(iter(t.values()))
        first = ref if ref in t else next(iter(t))
        other = next(c for c in CONFIGS if c in t and t[c] != want)
        a, b = (run(bins[c], ["list", s, o])[1].splitlines() for c in (first, other))
        d = next(((x, y) for x, y in zip(a, b) if x != y), ("?", "?"))
        finish({"failure": f"[{s}] {o}: {d[0]}\n  in {name(first)}\n  but {d[1]}\n  in {name(other)}", "section": s, "operation": o}, cov, samples)
print(f"C22: {total} executions, {len(table)} groups in up to {len(CONFIGS)} configurations agree, {time.time() - t0:.1f} s")
finish(None, cov, samples)
