#!/usr/bin/env python3
"""Checks that what the checks need is there: everything builds, every module parses."""
import glob
import os
import subprocess
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check  # noqa: E402

with tempfile.TemporaryDirectory(prefix="gledger-verif-") as d:
    check.scratch = d
    check.build("C01")
    check.build("C17")
    check.build("C24")
    for m in sorted(glob.glob(os.path.join(check.SPEC, "*.tla"))):
        r = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-cp", check.JARS, "tla2sany.SANY", os.path.basename(m)],
                           cwd=check.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-2000:])
            sys.exit("%s does not parse" % m)
    check.scratch = None
print("ready")
