#!/usr/bin/env python3
"""setup_cmd: builds the harness once (warming the build cache where it persists) and checks its own
reference implementations against published vectors. Every check builds for itself as well."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run
e = run.env()
d = tempfile.mkdtemp(prefix="verif-setup-")
try:
    run.build("C01", d, e)
    r = subprocess.run(["go", "test", "-vet=off", "-modfile", d + "/go.mod", "-count=1", "./hx"], cwd=V + "/harness", env=e)
    sys.exit(r.returncode)
finally:
    shutil.rmtree(d, ignore_errors=True)
