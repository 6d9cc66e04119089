#!/usr/bin/env python3
"""Re-run a replay file written by a failing check:  replay.py FILE"""
import os, re, subprocess, sys, tempfile
import check
f = os.path.abspath(sys.argv[1])
m = re.match(r"# harness (\S+) flavour (\S+)", open(f).readline())
name, fl = m.groups()
th = check.tree_hash()
B = check.build_flavour(fl, th)
env = check.env_base()
with tempfile.TemporaryDirectory() as d:
    env.update(DLITE_USE_BUILD_ROOT="YES", VERIF_SCRATCH=d, TMPDIR=d)
    if fl == "py" and os.path.exists(os.path.join(check.HARN, name + ".py")):
        env.update(check.py_env(B))
        cmd = [check.VENV + "/bin/python3", os.path.join(check.HARN, name + ".py")]
    else:
        cmd = [check.build_harness(name, fl, B, th[0])]
    sys.exit(subprocess.run(cmd + ["--replay=" + f, "--faildir=" + d], env=env, cwd=d).returncode)
