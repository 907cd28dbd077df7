#!/usr/bin/env python3
"""check.py <property>: builds from /repo's working tree, runs the monitored workloads, decides, writes evidence."""
import json, os, re, shutil, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib, registry

def known_for(prop):
    path = os.path.join(vlib.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path)).get("findings", []) if f.get("property") == prop and f.get("status", "known") == "known"]

def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = registry.PROPS[prop]
    t0 = time.time()
    vlib.prune_cache()
    res = vlib.Result()
    tmpdir = tempfile.mkdtemp(prefix="vf-%s-" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        try:
            if "parts" in spec:
                vlib.run_parts(spec["parts"], seed, tier == "thorough", res, tmpdir)
            if "custom" in spec:
                spec["custom"](res, seed, tier == "thorough", tmpdir)
        except vlib.BuildError as e:
            print("BUILD-ERROR: %s" % e)
            return 2
    finally:
        shutil.rmtree(tmpdir, ignore_errors=True)
    wall = time.time() - t0
    # classify violations
    known = known_for(prop)
    groups = {}
    for stat, (base, ratio) in spec.get("limit", {}).items():   # rare numerical failures: tolerated one by one, not in bulk
        if res.stats.get(stat, 0) > max(3, ratio * res.stats.get(base, 0)):
            res.viol.append(("rate-" + stat, -1, "%s=%d exceeds %g of %s=%d" % (stat, res.stats[stat], ratio, base, res.stats.get(base, 0)), ["(aggregate)"], "", "aggregate"))
    for key, case, detail, cmd, report, label in res.viol:
        groups.setdefault(key, []).append((case, detail, cmd, report, label))
    new, seen = {}, {}
    for key, lst in groups.items():
        f = next((f for f in known if key in f["keys"]), None)
        if f is not None:
            seen.setdefault(f["id"], []).append((key, lst))
        else:
            new[key] = lst
    for f in known:
        print("KNOWN-FINDING: property=%s %s%s" % (prop, f["what"], "" if f["id"] in seen else " (not triggered in this run)"))
    rdir = os.path.join(vlib.VERIF, "replays")
    rc = 0
    for key in sorted(new):
        lst = new[key]
        os.makedirs(rdir, exist_ok=True)
        case, detail, cmd, report, label = lst[0]
        path = os.path.join(rdir, "%s-%s.txt" % (prop, re.sub(r"[^A-Za-z0-9_.-]+", "_", key)[:80]))
        with open(path, "w") as fh:
            fh.write("property %s\nkey %s\noccurrences %d\nworkload %s seed %d tier %s\ncase %d\ndetail %s\nreplay (after running the check once, so that the driver exists): %s --case %d\n\nother cases:\n" % (prop, key, len(lst), label, seed, tier, case, detail, " ".join(cmd), case))
            for c, d, _, _, _ in lst[1:20]:
                fh.write("  %d: %s\n" % (c, d))
            if report:
                fh.write("\n--- report ---\n" + report)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s x%d e.g. case %d: %s" % (key, len(lst), case, detail[:300]))
        rc = 1
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2), violations=sum(len(v) for v in new.values()))
    stats = {}
    for k, v in sorted(res.stats.items()):
        if k.startswith("max_mlog10:"):
            stats["max_" + k[11:]] = float("%.3g" % (10 ** (v / 1000.0))) if v > -90000 else 0.0
        else:
            stats[k] = v
    ev["coverage"] = dict(evaluations=res.cases, distinct_nontrivial=len(res.sigs), rule=spec["rule"], samples=res.samples[:5] or ["(none)"], observed=stats,
                          inconclusive=res.inconclusive[:20], known_findings_seen=sorted(seen))
    ev["assumptions"] = spec.get("assumptions", [])
    os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(vlib.VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: %d cases, %d distinct, %d violation keys, %.1fs; %s" % (prop, res.cases, len(res.sigs), len(new), wall, " ".join("%s=%s" % kv for kv in stats.items())))
    if rc:
        return rc
    if res.errors:
        print("HARNESS-ERROR:\n" + "\n".join(res.errors[:3]))
        return 2
    for k, mn in spec.get("require", {}).items():
        if res.stats.get(k, 0) < mn:
            print("INCONCLUSIVE: observed only %s=%d, need %d" % (k, res.stats.get(k, 0), mn))
            return 2
    return 0

sys.exit(main())
