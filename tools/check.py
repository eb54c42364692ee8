#!/usr/bin/env python3
"""Decide one property by simulation: check.py P02 [--tier quick|thorough]"""
import json, os, re, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B
from checks import CHECKS

def load_known():
    """known: property=P c=<class re> d=<detail re> replay=<file> :: text   /   fixed: property=P <commit> text"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) detail=/(.*)/ replay=(\S+) :: (.*)", l.strip())
            if m:
                out.append(dict(property=m[1], cls=m[2], detail=m[3], replay=m[4], text=m[5]))
    return out

def sh(cmd, timeout):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=VERIF, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or "")

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    spec = CHECKS[pid]
    t0 = time.time()
    exe = B.build()
    budget = 480 if tier == "quick" else 6 * 3600
    known = load_known()
    base = (seed - 1) * 10000000 + 1
    tot = dict(runs=0, sim_s=0.0, ops=0, inter=0, states=0, wall=0.0)
    stats, samples, noted, per = {}, [], {}, {}
    found, knownhit = None, {}
    claim = lambda c: any(re.fullmatch(r, c) for r in spec["claims"])
    outdir = os.path.join(VERIF, "build", "replays"); os.makedirs(outdir, exist_ok=True)
    unconfirmed = []
    for prof, q, th in spec["profiles"]:
        n = q if tier == "quick" else th
        done = 0
        chunk = 600 if tier == "quick" else 5000
        while done < n and not found and time.time() - t0 < budget:
            k = min(chunk, n - done)
            left = max(5, budget - (time.time() - t0))
            rc, out = sh([exe, "sweep", "--profile", prof, "--seed", str(base + done), "--runs", str(k), "--secs", "%d" % left, "--jobs", "8"], left + 120)
            try:
                d = json.loads(out)
            except ValueError:
                print("check error: the sweep of profile %s gave no result (rc %s)" % (prof, rc)); sys.exit(2)
            tot["runs"] += d["runs"]; tot["sim_s"] += d["sim_s"]; tot["ops"] += d["ops"]; tot["wall"] += d["wall_s"]
            tot["inter"] += d["interleavings"]; tot["states"] += d["states"]
            per[prof] = per.get(prof, 0) + d["runs"]
            for a, b in d["stats"].items():
                stats[a] = stats.get(a, 0) + b
            if len(samples) < 3:
                rc2, ops = sh([exe, "ops", "--profile", prof, "--seed", str(base + done)], 30)
                samples.append({"profile": prof, "seed": base + done, "first_operations": ops.splitlines()[:8]})
            done += k
            for v in sorted(d["violations"], key=lambda v: v["ops"]):
                if not claim(v["class"]):
                    noted[v["class"]] = noted.get(v["class"], 0) + 1
                    continue
                kn = [x for x in known if re.fullmatch(x["cls"], v["class"]) and re.search(x["detail"], v["detail"])]
                if kn:
                    knownhit[kn[0]["text"]] = knownhit.get(kn[0]["text"], 0) + 1
                    continue
                f = os.path.join(outdir, "%s-%s-%d.replay" % (pid, prof, v["seed"]))
                rc3, mo = sh([exe, "min", "--profile", prof, "--seed", str(v["seed"]), "--class", v["class"], "--file", f, "--secs", "45"], 200)
                rc4, ro = sh([exe, "replay", "--file", f], 100) if rc3 == 0 else (9, mo)
                if rc4 == 1:
                    det = [l[7:] for l in open(f).read().splitlines() if l.startswith("detail ")]
                    kn = [x for x in known if re.fullmatch(x["cls"], v["class"]) and det and re.search(x["detail"], det[0])]
                    if kn:
                        knownhit[kn[0]["text"]] = knownhit.get(kn[0]["text"], 0) + 1
                        continue
                    found = (v, f, prof, det[0] if det else v["detail"])
                    break
                unconfirmed.append("%s seed %d %s: %s" % (prof, v["seed"], v["class"], (mo + ro).strip()[-300:]))
        if found:
            break
    for x in known:
        if x["property"] == pid:
            rc, out = sh([exe, "replay", "--file", os.path.join(VERIF, x["replay"])], 100)
            print("KNOWN-FINDING: property=%s %s (%s)" % (pid, x["text"], "reproduced by %s" % x["replay"] if rc in (1, 4) else "not reproduced this time"))
    wall = time.time() - t0
    fk = {a[6:]: b for a, b in stats.items() if a.startswith("fault.")}
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": tot["inter"],
            "rule": "One evaluation is one simulated run of the whole proxy, generated from (profile, seed). Distinct runs are counted by a hash over the order in which the "
                    "scheduler let the parties act (every delivered fragment, timer, fault and disk operation) within each sweep; a run that hashed like an earlier one of the same sweep is not counted.",
            "samples": samples,
            "simulated_runs_per_hour": int(tot["runs"] / max(tot["wall"], 0.01) * 3600),
            "seeds_per_hour": int(tot["runs"] / max(tot["wall"], 0.01) * 3600),
            "simulated_hours": round(tot["sim_s"] / 3600, 2),
            "script_operations": tot["ops"],
            "distinct_model_states": tot["states"],
            "runs_per_profile": per,
            "faults_injected": fk,
            "oracle_checks": {a: b for a, b in stats.items() if a.startswith(("chk.", "sessions.", "msgs.", "sim.", "disk."))},
            "other_counters": {a: b for a, b in stats.items() if not a.startswith(("fault.", "chk.", "sessions.", "msgs.", "sim.", "disk.", "viol."))},
            "violation_classes_claimed": spec["claims"],
            "classes_seen_but_owned_by_other_properties": noted,
            "known_findings_hit": knownhit,
            "unconfirmed": unconfirmed,
            "real_components": "all of /repo's libirc and src compiled from the working tree (AddressSanitizer), glib main loop, GIOChannel, GHashTable, keyfile",
            "stub_components": "sockets, poll, clock, timers' time source, getaddrinfo, disk operations (fault layer over a scratch directory), signals, fork/exec, IRC servers and clients (models), randomness",
        },
        "assumptions": ["the model IRC network and clients follow RFC 1459/2812 as the common servers implement it",
                        "the TLS and GSSAPI libraries are not exercised"],
        "wall_s": round(wall, 1), "violations": 1 if found else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for u in unconfirmed:
        print("note: not reproduced, not reported: " + u)
    print("%s: %d runs, %.0f simulated hours, %d interleavings, %.0f s" % (pid, tot["runs"], tot["sim_s"] / 3600, tot["inter"], wall))
    if found:
        v, f, prof, det = found
        print("%s (profile %s, seed %d): %s" % (v["class"], prof, v["seed"], det))
        print(open(f).read())
        print("VIOLATION property=%s replay=%s" % (pid, f))
        sys.exit(1)
    sys.exit(0)

if __name__ == "__main__":
    main()
