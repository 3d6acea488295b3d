"""Checks that what the checks need is there; nothing to build (TLA+ and Python are interpreted)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.load(open(os.path.join(V, "MANIFEST.json")))
assert os.path.exists("/opt/veriftools/tla/tla2tools.jar")
subprocess.run(["java", "-version"], check=True, stderr=subprocess.DEVNULL)
subprocess.run(["/opt/venv/bin/python", "-c", "import pandas, vaex, fastparquet"], check=True)
for d in ("evidence", "replay"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
print("ok")
