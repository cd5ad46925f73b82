"""Builds the MIR dumper and warms its target directory."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mir
os.makedirs(os.path.join(mir.VERIF, "build"), exist_ok=True)
tmp = tempfile.mkdtemp(prefix="setup.", dir=os.path.join(mir.VERIF, "build"))
try:
    mir.dump(tmp)
    p = mir.Program(tmp)
    print("setup: %d functions, %d types" % (len(p.fns), len(p.adts)))
finally:
    shutil.rmtree(tmp, ignore_errors=True)
