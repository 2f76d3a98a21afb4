#!/opt/venv/bin/python
"""check.py CXX [--tier quick|thorough]  |  check.py replay FILE  |  check.py selftest [CXX ...]  |  check.py list"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dst import env  # noqa: E402

if __name__ == "__main__":
    env.setup_environ(os.environ.get("DST_HASHSEED", "0"))
    os.chdir(env.VERIF)
    os.environ["PYTHONPATH"] = env.VERIF
    cmd = sys.argv[1]
    env.import_pysad()
    import shutil
    import tempfile
    scratch = tempfile.mkdtemp(prefix="dst-")   # everything simulated runs write goes below this directory
    tempfile.tempdir = scratch
    from dst import runner, peer  # noqa: E402
    try:
        if cmd == "replay":
            doc, v = runner.replay_file(sys.argv[2])
            if v is None:
                print("no violation")
                rc = 0
            else:
                print("%s in %s: %s" % (v["kind"], v["component"], v["detail"]))
                print("VIOLATION property=%s replay=%s" % (doc["property"], os.path.abspath(sys.argv[2])))
                rc = 1 if (v["kind"], v["component"]) == (doc["violation"]["kind"], doc["violation"]["component"]) else 3
        elif cmd == "detlog":
            for line in runner.det_log(sys.argv[2], [int(s) for s in sys.argv[3].split(",")], int(sys.argv[4])):
                print(line)
            rc = 0
        else:
            tier = os.environ.get("VERIF_TIER", "quick")
            if "--tier" in sys.argv:
                tier = sys.argv[sys.argv.index("--tier") + 1]
            rc = runner.check(cmd, tier, int(os.environ.get("VERIF_SEED", "1")))
    finally:
        peer.stop()
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
