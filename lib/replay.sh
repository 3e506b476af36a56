#!/bin/bash
# replay.sh <ID> <replay-file>: builds the harness of a property and runs one saved case
f=$(realpath "$2"); cd "$(dirname "$0")" && exec python3 - "$1" "$f" <<'P'
import build, os, subprocess, sys
from registry import CHECKS, harnesses
pid, path = sys.argv[1:3]
s = CHECKS[pid]
prop = [l.split()[2] for l in open(path) if l.startswith("prop ")][0]
for exe in build.build(harnesses(s), s.get("variant", "plain"), s.get("scope", "all")).values():
    if any(l.split("\t")[1] == prop for l in subprocess.run([exe, "--list", pid], capture_output=True, text=True).stdout.splitlines()):
        os.execv(exe, [exe, "--replay", path])
sys.exit(f"no harness has {prop}")
P
