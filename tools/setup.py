#!/usr/bin/env python3
"""setup_cmd: check that the tools the checks need are present; nothing to build."""
import os, subprocess, sys
need = ["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar", "/opt/venv/bin/python"]
miss = [p for p in need if not os.path.exists(p)]
if subprocess.run(["java", "-version"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
    miss.append("java")
if miss:
    sys.exit("missing: " + ", ".join(miss))
os.makedirs("evidence", exist_ok=True)
print("ok")
