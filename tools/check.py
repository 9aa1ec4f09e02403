#!/usr/bin/env python3
"""Runs the checks of one property: builds /repo's working tree with the harnesses, explores every
space of the property, writes evidence/<id>.json and a replay file per violation.

Exit 0: the property held on everything explored (listed known findings aside).
Exit 1: a line "VIOLATION property=<id> replay=<path>" was printed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build, registry


def known(prop):
    """Entries "known: property=<id> key=<regexp over space/key> <text>"."""
    res = []
    path = os.path.join(VERIF, "known_findings")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def main():
    prop = sys.argv[1]
    reg = registry.CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    os.environ["VERIF_TIER"] = tier
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1"
    t0 = time.time()
    bins = build.build(reg["bins"] + (["cli:fast"] if reg.get("cli") else []))
    if reg.get("cli"):
        os.environ["VERIF_CLI"] = bins["cli:fast"]
    limit = 780 if tier == "quick" else 6 * 3600
    scratch = tempfile.mkdtemp(prefix="vpp-%s-" % prop, dir="/tmp")
    os.chmod(scratch, 0o755)
    spaces, violations, exhausted = [], [], True
    try:
        for t in reg["bins"]:
            out = os.path.join(scratch, "result.json")
            left = max(20, limit - (time.time() - t0))
            r = subprocess.run([bins[t], "--property", prop, "--out", out, "--deadline", str(left),
                                "--scratch", scratch], cwd=scratch)
            if r.returncode != 0 or not os.path.exists(out):
                print("the harness %s failed with status %d" % (t, r.returncode), file=sys.stderr)
                return 2
            res = json.load(open(out))
            os.unlink(out)
            spaces += [dict(s, binary=t) for s in res["spaces"]]
            violations += [dict(v, binary=t) for v in res["violations"]]
            exhausted = exhausted and res["exhausted"]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    # A hang that does not repeat when the case runs alone is an overloaded machine.
    violations = [v for v in violations if v["reproduced"] or not v["key"] == "hang"]
    new, old = [], []
    for v in violations:
        sig = v["space"] + "/" + v["key"]
        hit = [text for rx, text in known(prop) if re.fullmatch(rx, sig)]
        (old if hit else new).append((v, hit[0] if hit else None))
    for text in sorted({t for _, t in old}):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    lines = []
    for v, _ in new:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        name = re.sub(r"[^A-Za-z0-9_.-]", "_", "%s-%s-%s" % (prop, v["space"], v["key"]))[:100]
        path = os.path.join(d, name + ".json")
        with open(path, "w") as f:
            json.dump({"property": prop, "binary": v["binary"], "space": v["space"], "key": v["key"],
                       "choices": v["choices"], "message": v["msg"], "tier": tier,
                       "reproduced_alone": v["reproduced"],
                       "replay": "VERIF_TIER=%s python3 /verif/tools/replay.py %s" % (tier, path)},
                      f, indent=1)
        print("%s/%s: %s" % (v["space"], v["key"], v["msg"][:1500]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    for line in lines:
        print(line)

    total = lambda k: sum(s[k] for s in spaces)
    samples = [x for s in spaces for x in s["samples"]][:12] or ["none"]
    cov = {"states": total("states"), "transitions": total("transitions"),
           "traces_validated_against_impl": total("cases"), "evaluations": total("cases"),
           "distinct_nontrivial": total("states"), "oracle_checks": total("checks"),
           "rule": "; ".join("%s: %s" % (s["name"], s["rule"]) for s in spaces) +
                   "; distinct_nontrivial counts the distinct outcomes observed",
           "samples": samples, "exhaustive": exhausted,
           "spaces": [{k: s[k] for k in ("name", "binary", "cases", "states", "transitions", "checks",
                                         "exhausted", "wall_s")} for s in spaces],
           "validation": "every explored trace is an execution of the real code of /repo (no "
                         "abstract model between); violations are replayed in a fresh process"}
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
          "level": reg["level"], "coverage": cov,
          "assumptions": registry.ASSUMPTIONS + reg.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d cases, %d distinct outcomes, %d oracle checks, exhaustive=%s, %.1fs" % (
        prop, total("cases"), total("states"), total("checks"), exhausted, time.time() - t0))
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
