#!/usr/bin/env python3
"""Build and confirm a planted bug: tools/seed.py SPEC.py [--tests] [--check]

SPEC defines ID, PROP, FILE, OLD, NEW (text of one replacement; or EDITS, a list of (file, old, new)), DEMO (python source), NEEDS, BREAKS.
Works in a scratch copy of /repo that is removed afterwards."""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)


def main():
    spec = runpy.run_path(sys.argv[1])
    sid = spec["ID"]
    out = os.path.join(HERE, "seeded", sid)
    os.makedirs(out, exist_ok=True)
    w = f"/tmp/seedwork_{sid}"
    shutil.rmtree(w, ignore_errors=True)
    sh(f"cp -a /repo {w}")
    try:
        edits = spec.get("EDITS") or [(spec["FILE"], spec["OLD"], spec["NEW"])]
        for f, old, new in edits:
            p = os.path.join(w, "src/stcal", f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        open(os.path.join(out, "patch.diff"), "w").write(sh(f"git -C {w} diff").stdout)
        open(os.path.join(out, "demo.py"), "w").write(spec["DEMO"].lstrip())
        open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
        if any(f.endswith((".c", ".pyx", ".h")) for f, _, _ in edits):
            r = sh(f"cd {w} && find src -name '*.cpython-*.so' -delete; find src -name '*.pyx' | while read -r f; do rm -f \"${{f%.pyx}}.cpp\"; done; rm -rf build/lib.* build/temp.*; "
                   f"SETUPTOOLS_SCM_PRETEND_VERSION=1.19.1 {PY} setup.py -q build_ext --inplace --force --parallel 4", env=env)
            print("build", r.returncode, r.stderr[-300:] if r.returncode else "")
        a = sh(f"bash {out}/demo.sh", cwd="/repo", env=env)
        b = sh(f"bash {out}/demo.sh", cwd=w, env=dict(env, PYTHONPATH=f"{w}/src"))
        print(sid, "demo unchanged:", a.returncode, a.stderr[-300:] if a.returncode else "", "| patched:", b.returncode, (b.stdout + b.stderr)[-200:])
        if "--tests" in sys.argv:
            args = "-q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --color=no -n 8 -o junit_family=xunit2"
            e2 = dict(env, PYTHONPATH=f"{w}/src", TMPDIR=f"{w}/tmp_t", PYTHONHASHSEED="0", AWS_EC2_METADATA_DISABLED="true")
            os.makedirs(f"{w}/tmp_t")
            sh(f"{PY} -m pytest {args} --dist loadfile --ignore=tests/resample --junitxml={w}/tmp_t/a.xml -k 'not (test_get_catalog and not raises and not timeout) and not test_create_catalog'", cwd=w, env=e2)
            sh(f"{PY} -m pytest {args} --dist load --junitxml={w}/tmp_t/b.xml tests/resample", cwd=w, env=e2)
            sh(f"{PY} /opt/vp/results.py {w}/tmp_t/o.json 'junit:{w}/tmp_t/*.xml'")
            got = json.load(open(f"{w}/tmp_t/o.json"))
            stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            print("stable tests not passed:", sorted(stable - set(got["passed"]))[:10])
        if "--check" in sys.argv:
            t = sh(f"{PY} run.py {spec['PROP']} 2>&1 | tail -4", cwd=HERE, env=dict(env, VERIF_REPO_SRC=f"{w}/src", VERIF_EVIDENCE="/tmp/ev"))
            print(t.stdout[-700:])
    finally:
        shutil.rmtree(w, ignore_errors=True)


main()
