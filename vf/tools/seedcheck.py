"""Development helper (no check uses it): validate planted bugs and run the checks on them, in scratch clones of /repo.

seedcheck.py validate ID...       patch applies, tests pass with it, demo passes without and fails with it
seedcheck.py catch ID...          run the bug's own property check (quick) on the patched clone
seedcheck.py catch:P05,P07 ID...  run these checks instead
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def one(mode, i):
    d = os.path.join(ROOT, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seed_")
    try:
        R, V = os.path.join(tmp, "repo"), os.path.join(tmp, "verif")
        sh("git", "clone", "-q", "/repo", R)
        demo = lambda: sh("bash", os.path.join(d, "demo.sh"), cwd=R).returncode  # noqa: E731
        out = []
        if mode == "validate":
            out.append(f"clean demo {demo()}")
        r = sh("git", "-C", R, "apply", os.path.join(d, "patch.diff"))
        if r.returncode:
            return f"{i} PATCH DOES NOT APPLY {r.stderr}"
        if mode == "validate":
            env = dict(os.environ, PYTHONPATH=R + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
            r = sh("/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", cwd=R, env=env)
            out.append(f"tests: {r.stdout.strip().splitlines()[-1]}")
            out.append(f"patched demo {demo()}")
            ok = out[0].endswith(" 0") and "failed" not in out[1] and not out[2].endswith(" 0")
            out.append("VALID" if ok else "*** INVALID ***")
        else:
            shutil.copytree(ROOT, V, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replay", "__pycache__"))
            for p in mode.split(":")[1].split(",") if ":" in mode else [meta["property"]]:
                r = sh("./run.sh", p, "quick", cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VERIF_REPO=R))
                v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
                first = [x for x in r.stdout.splitlines() if not x.startswith("VIOLATION")][:1]
                out.append(f"{p} exit {r.returncode} {'CAUGHT' if r.returncode == 1 and v else '*** MISSED ***'} "
                           f"{first[0][:150] if first else ''} {r.stderr[-200:]}")
        return f"{i} {meta['property']} " + "; ".join(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    mode, ids = sys.argv[1], sys.argv[2:]
    ids = ids or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "2" if mode.startswith("catch") else "4"))) as ex:
        for line in ex.map(lambda i: one(mode, i), ids):
            print(line, flush=True)


main()
