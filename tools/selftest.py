#!/usr/bin/env python3
# Determinism of the simulator: the event histories of the first runs of each property are the same
# however often, and with however many workers, they are executed.
import subprocess, sys, os, tempfile, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = sys.argv[1:] or ["C%02d" % i for i in list(range(1, 18)) + [25, 26, 27]]
bad = 0
for p in props:
    out = subprocess.run([V + "/bin/check", p, "build"], stdout=subprocess.PIPE).stdout.decode().split()
    env = dict(os.environ)
    if len(out) > 1: env["SIM_MODULES"] = out[0]
    hs = []
    for w in (1, 8, 3):
        f = tempfile.mktemp()
        subprocess.run([out[-1], "--property", p, "--tier", "quick", "--seed", "7", "--runs", "300", "--workers", str(w), "--hashes", f], env=env, stdout=subprocess.DEVNULL)
        hs.append(sorted(open(f).read().split("\n"))); os.unlink(f)
    same = hs[0] == hs[1] == hs[2]; bad += not same
    print(p, len(hs[0]) - 1, "histories", "identical" if same else "DIFFER", flush=True)
sys.exit(bad != 0)
