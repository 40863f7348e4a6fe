#!/usr/bin/env python3
"""Decide one property by deterministic simulation.

usage: check.py PROPERTY quick|thorough

Builds the simulator against /repo's current working tree, runs seeded
simulations in parallel workers, gates and minimises what fails, and writes
evidence/PROPERTY.json.  Exit 0: the property held on everything explored.
Exit 1: a violation, reproduced by the replay file that is printed.
Anything else: the check itself failed.
"""
import os, sys, json, subprocess, time, shutil, glob, re

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("ARKISIM_BUILD", os.path.join(HERE, "build"))
EXE = os.path.join(BUILD, "arkisim")
KNOWN = os.path.join(HERE, "known-findings.txt")
WORKERS = 8

# seconds of search per tier
QUICK_S = float(os.environ.get("ARKISIM_SECONDS", "40"))
THOROUGH_S = float(os.environ.get("ARKISIM_SECONDS", "780"))

sys.path.insert(0, HERE)
import describe


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def replay(path):
    r = subprocess.run([EXE, "replay", path], capture_output=True, text=True, timeout=120)
    m = re.match(r"class=(\S+) hash=(\S+)", r.stdout)
    if not m:
        return None, None, r.stdout + r.stderr
    msg = "\n".join(r.stdout.splitlines()[1:])
    return m.group(1), m.group(2), msg


def header(path):
    d = {}
    for line in open(path, errors="replace"):
        k, _, v = line.rstrip("\n").partition(" ")
        if k in ("hash", "class", "message", "seed"):
            d[k] = v
    return d


def gate(path, outdir):
    """Fresh-process replay, minimisation, replay of the minimised file"""
    h = header(path)
    cls, hsh, msg = replay(path)
    if cls == h["class"] and hsh != h["hash"]:
        # The same violation along an execution that differs from the one of
        # the search: what counts is that the replay file always gives the
        # same execution
        if replay(path)[:2] == (cls, hsh):
            log(f"{path}: replays as {hsh} instead of {h['hash']}")
            text = open(path, errors="replace").read()
            open(path, "w").write(re.sub(r"(?m)^hash .*$", "hash " + hsh, text))
            h["hash"] = hsh
    if cls != h["class"] or hsh != h["hash"]:
        log(f"{path}: does not replay: {h['class']} {h['hash']} became {cls} {hsh}")
        return None
    small = path[: -len(".replay")] + ".min.replay"
    try:
        r = subprocess.run([EXE, "min", path, small, "25"], capture_output=True, text=True, timeout=200)
        log(r.stdout.strip())
        if r.returncode == 0:
            hm = header(small)
            c2, h2, m2 = replay(small)
            c3, h3, m3 = replay(small)
            if c2 == hm["class"] == c3 and h2 == hm["hash"] == h3:
                return small, c2, m2
            log(f"{small}: does not replay, keeping the original")
    except subprocess.TimeoutExpired:
        log("minimisation timed out")
    return path, cls, msg


def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.time()
    log(f"property {prop} tier {tier} VERIF_SEED={seed}")
    r = subprocess.run([sys.executable, os.path.join(HERE, "sim", "build.py")], capture_output=True, text=True)
    if r.returncode != 0:
        log(r.stdout[-5000:], r.stderr[-5000:])
        log("cannot build the simulator against /repo")
        return 2
    build_s = time.time() - start
    outdir = os.path.join(BUILD, "runs", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    seconds = QUICK_S if tier == "quick" else THOROUGH_S
    env = dict(os.environ, ARKISIM_KNOWN=KNOWN)
    t0 = time.time()
    first = seed * 100000000
    procs = []
    for w in range(WORKERS):
        procs.append(subprocess.Popen(
            [EXE, "worker", prop, tier, str(first + w), str(WORKERS), str(10**9), str(seconds), outdir, f"w{w}"],
            env=env, stdout=subprocess.DEVNULL))
    seen = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.1)
        if seen is None and glob.glob(outdir + "/*.replay"):
            seen = time.time()
        if seen and time.time() - seen > 5:
            open(outdir + "/stop", "w").close()
            seen = time.time() + 1e9
        if time.time() - t0 > seconds + 150:
            for p in procs:
                if p.poll() is None:
                    p.kill()
    search_s = time.time() - t0
    tot = dict(runs=0, evals=0, nontrivial=0, steps=0, switches=0, simseconds=0.0, nondet=0, faulty=0)
    fired, probes, known = {}, {}, {}
    states, scheds, hashes = set(), set(), set()
    samples, viol, nondets, internals = [], [], [], []
    longest = (0, 0)
    for w in range(WORKERS):
        fn = f"{outdir}/w{w}.json"
        if not os.path.exists(fn):
            log(f"worker {w} failed with status {procs[w].returncode}")
            return 2
        d = json.load(open(fn))
        for k in tot:
            tot[k] += d[k]
        longest = max(longest, (d["longest"], d["longest_seed"]))
        for a, b in ((fired, "fired"), (probes, "probes"), (known, "known")):
            for k, v in d[b].items():
                a[k] = a.get(k, 0) + v
        states.update(d["states"]); scheds.update(d["scheds"]); hashes.update(d["nthashes"])
        samples += d["samples"][:1]; viol += d["violations"]; nondets += d["nondets"]; internals += d["internals"]
    # Violations
    rc = 0
    reported = []
    viol.sort(key=lambda f: (os.path.getsize(f), f))
    classes = set()
    if viol:
        for f in viol:
            c = header(f).get("class")
            if c in classes or len(reported) >= 2:
                continue
            g = gate(f, outdir)
            if g is None:
                nondets.append("fresh-process replay differs: " + f)
                continue
            classes.add(c)
            reported.append(g)
    ktext = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: id=(\S+) property=(\S+) class=\S+ match=/.*/ :: (.*)$", line)
            if m and m.group(2) == prop:
                ktext[m.group(1)] = m.group(3)
    for k, t in sorted(ktext.items()):
        n = known.get(k, 0)
        print(f"KNOWN-FINDING: property={prop} {k}: {t} (met in {n} of {tot['runs']} runs)")
    for path, cls, msg in reported:
        rc = 1
        dest = os.path.join(BUILD, "replays")
        os.makedirs(dest, exist_ok=True)
        out = os.path.join(dest, os.path.basename(path))
        shutil.copy(path, out)
        print(f"VIOLATION property={prop} replay={out}")
        print(f"  class: {cls}")
        print(f"  {msg}")
        print(f"  replay with: {EXE} replay {out} -v")
    if not reported:
        if nondets:
            for n in nondets[:5]:
                log("not reproducible: " + n)
            rc = 2
        if internals:
            for n in internals[:5]:
                log("harness error: " + n)
            rc = 2
        if tot["runs"] == 0:
            rc = 2
    hours = max(search_s, 1e-3) / 3600
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": describe.LEVEL,
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(hashes),
            "rule": describe.rule(prop),
            "samples": samples[:4],
            "oracle_evaluations": tot["evals"],
            "nontrivial_runs": tot["nontrivial"],
            "runs_with_a_fault_that_fired": tot["faulty"],
            "simulated_runs_per_hour": int(tot["runs"] / hours),
            "seeds_per_hour": int(tot["runs"] / hours),
            "seed_range": f"{first} to {first + tot['runs'] + WORKERS} interleaved over {WORKERS} workers",
            "simulated_time_s": round(tot["simseconds"], 3),
            "simulated_system_calls": tot["steps"],
            "longest_run_system_calls": longest[0], "longest_run_seed": longest[1],
            "context_switches": tot["switches"],
            "faults_fired": dict(sorted(fired.items())),
            "probes": dict(sorted(probes.items())),
            "distinct_states": len(states),
            "distinct_states_measure": "hash of the simulated file system (contents and names) at the end of each operation, or of the delivered history where the check has no files",
            "distinct_interleavings": len(scheds),
            "distinct_interleavings_measure": "hash of the sequence of (process, scheduling decision) of the run",
            "known_findings_met": known,
            "unreproducible": len(nondets),
            "components_real": describe.real(prop),
            "components_stub": describe.stub(prop),
            "search_s": round(search_s, 1), "build_s": round(build_s, 1),
        },
        "assumptions": describe.assumptions(prop),
        "wall_s": round(time.time() - start, 1),
        "violations": len(reported),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fd:
        json.dump(ev, fd, indent=1)
        fd.write("\n")
    if not os.environ.get("ARKISIM_KEEP"):
        shutil.rmtree(outdir, ignore_errors=True)
    log(f"{tot['runs']} runs, {tot['nontrivial']} non trivial, {len(states)} states, {len(scheds)} interleavings, "
        f"{sum(fired.values())} faults, {time.time() - start:.0f} s, {'VIOLATION' if rc == 1 else 'exit ' + str(rc)}")
    return rc


sys.exit(main())
