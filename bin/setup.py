"""Checks that the tools the checks need are there and that the specification is well-formed."""
import os, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
for cmd in (["java", "-version"], ["gcc", "--version"], ["/opt/venv/bin/python", "--version"], ["git", "--version"]):
    if subprocess.run(cmd, capture_output=True).returncode:
        sys.exit("missing: " + cmd[0])
bad = 0
mods = sorted(f for f in os.listdir(SPEC) if f.endswith(".tla"))
r = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", *mods], cwd=SPEC, capture_output=True, text=True)
if r.returncode or "*** Errors" in r.stdout or "Fatal" in r.stdout:
    sys.exit(r.stdout[-3000:])
print("specification modules:", " ".join(mods))
