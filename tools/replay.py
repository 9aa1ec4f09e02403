#!/usr/bin/env python3
"""Replays a violation: replay.py REPLAY.json. Exit 1 if it still fails, 0 if it holds now."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, registry
r = json.load(open(sys.argv[1]))
os.environ["VERIF_TIER"] = r["tier"]
os.environ.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1")
reg = registry.CHECKS[r["property"]]
bins = build.build([r["binary"]] + (["cli:fast"] if reg.get("cli") else []))
if reg.get("cli"):
    os.environ["VERIF_CLI"] = bins["cli:fast"]
sys.exit(subprocess.run([bins[r["binary"]], "--property", r["property"], "--replay", r["space"],
                         r["choices"]]).returncode)
