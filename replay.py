#!/usr/bin/env python3
"""replay.py FILE: run the recorded case again on /repo."""
import json, os, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
d = json.load(open(sys.argv[1]))
if "oracle" not in d:
    print(json.dumps([{k: v for k, v in o.items() if k != "smt2"} for o in d["failed_obligations"]], indent=1))
    sys.exit(0)
e = check.env()
govc = check.build_govc(e)
work = tempfile.mkdtemp(prefix="verif_replay_")
try:
    subprocess.run([govc, "-repo", check.REPO, "-contracts", check.VERIF + "/contracts", "-native", check.VERIF + "/native", "-emit", work + "/emit", "-targets", "none"], cwd=check.REPO, env=e, check=True)
    e.update(VERIF_REPLAY="%s#%d" % (d["oracle"], d["seed"]), VERIF_OUT=work + "/o.json", VERIF_PROP="")
    subprocess.run(["go", "test", "-overlay", work + "/emit/overlay.json", "-vet=off", "-count=1", "-v", "-run", "^TestVerifNative$", check.PKGDIR[d["package"]]], cwd=check.REPO, env=e)
finally:
    shutil.rmtree(work, ignore_errors=True)
