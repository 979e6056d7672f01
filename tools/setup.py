#!/usr/bin/env python3
"""setup_cmd: nothing is built; make sure that the tools answer and the specification parses"""
import os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
d = tempfile.mkdtemp(prefix="verif-setup-")
try:
    for m in sorted(os.listdir(os.path.join(HERE, "spec"))):
        if m.endswith(".tla"):
            p = subprocess.run(["java", "-cp", JAR, "-Djava.io.tmpdir=" + d, "tla2sany.SANY", os.path.join(HERE, "spec", m)],
                               cwd=os.path.join(HERE, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                print(p.stdout)
                sys.exit(1)
    subprocess.run(["/opt/venv/bin/python", "-c", "import numpy"], check=True)
finally:
    shutil.rmtree(d, ignore_errors=True)
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
print("ready")
