"""python tools/seedtool.py ID...   build /verif/seeded/<ID> from tools/seeds/<ID>.py and confirm it in a scratch copy.
tools/seeds/<ID>.py defines: PROP, EDITS [(file, old, new)], NEEDS, BREAKS, DEMO (python source)"""
import json, os, subprocess, sys, tempfile, shutil, glob

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main(i, tests=True):
    g = {}
    exec(open(os.path.join(HERE, "tools", "seeds", i + ".py")).read(), g)
    d = os.path.join(HERE, "seeded", i)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed_")
    try:
        r = os.path.join(t, "repo")
        sh("cp -a /repo %s" % r)
        for f, old, new in g["EDITS"]:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", cwd=r).stdout)
        open(os.path.join(d, "demo.py"), "w").write(g["DEMO"])
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = sh("bash %s/demo.sh" % d, cwd="/repo", env=dict(os.environ, PYTHONPATH="/repo"))
        b = sh("bash %s/demo.sh" % d, cwd=r, env=dict(os.environ, PYTHONPATH=r))
        ok = a.returncode == 0 and b.returncode != 0
        msg = "demo clean=%d bug=%d" % (a.returncode, b.returncode)
        if not ok:
            msg += "\n" + a.stderr[-600:] + b.stdout[-300:] + b.stderr[-300:]
        if tests and ok:
            env = dict(os.environ, PYTHONPATH=r, PYTHONHASHSEED="0", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
            bad = []
            base = json.load(open("/opt/vp/BASELINE.json"))
            for dd, n in (("tests", 4), ("slow_tests", 9)):
                if os.environ.get("FAST") and dd == "slow_tests":
                    continue
                x = sh("/opt/venv/bin/python -m pytest %s -q -p no:cacheprovider -n %d --randomly-seed=1 --randomly-dont-reorganize --timeout=800 --disable-warnings --tb=line --junitxml=%s/%s.xml" % (dd, n, t, dd), cwd=r, env=env)
            sh("/usr/bin/python3 /opt/vp/results.py %s/out.json 'junit:%s/*.xml'" % (t, t))
            out = json.load(open(t + "/out.json"))
            names = base.get("passed") or base.get("stable") or base.get("tests") or []
            fail = [n for n in out.get("failed", [])]
            bad = [n for n in fail if n in names]
            msg += " tests: %d failed-stable (%d passed)" % (len(bad), len(out.get("passed", [])))
            if bad:
                msg += " " + ",".join(bad)[:300]
        print(i, msg, flush=True)
    finally:
        shutil.rmtree(t)


if __name__ == "__main__":
    for i in sys.argv[1:]:
        main(i)
