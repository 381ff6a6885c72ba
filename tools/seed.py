"""Plant one bug: python3 tools/seed.py ID [--fast]   (definitions in tools/seed_defs.py)
Builds seeded/ID from its definition in a scratch copy of /repo, confirms that the demonstration
passes on the clean tree and fails with the patch, that the stable tests still pass, and runs the
property's quick check on the patched copy.  Rejected candidates leave no directory behind."""
import json, os, shutil, subprocess, sys, textwrap, tempfile, glob
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from seed_defs import SEEDS

DEMO = '''#!/bin/bash
# exit 0 if the property holds for the inputs in demo.py
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src${PYTHONPATH:+:$PYTHONPATH}" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu JAX_ENABLE_X64=1
exec timeout 280 /opt/venv/bin/python "$here/demo.py"
'''

def sh(cmd, cwd=None, env=None, timeout=1000):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def main(i, fast=False, checkonly=False):
    s = SEEDS[i]
    work = tempfile.mkdtemp(prefix="seed_")
    repo = os.path.join(work, "repo")
    try:
        sh(f"cp -a /repo {repo}; git -C {repo} checkout -q -- .")
        d = os.path.join(HERE, "seeded", i)
        stage = os.path.join(work, "stage"); os.makedirs(stage)
        for f, old, new in s["edits"]:
            p = os.path.join(repo, "src/jaxoplanet", f); t = open(p).read()
            assert t.count(old) == 1, (i, f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        patch = sh("git diff --no-color", cwd=repo).stdout
        open(os.path.join(stage, "patch.diff"), "w").write(patch)
        open(os.path.join(stage, "demo.sh"), "w").write(DEMO); os.chmod(os.path.join(stage, "demo.sh"), 0o755)
        open(os.path.join(stage, "demo.py"), "w").write(textwrap.dedent(s["demo"]).lstrip())
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(stage, "meta.json"), "w"), indent=1)
        ok = True
        if not checkonly:
            a = sh(f"bash {stage}/demo.sh", cwd="/repo"); b = sh(f"bash {stage}/demo.sh", cwd=repo)
            print(i, "demo clean", a.returncode, "patched", b.returncode, "|", b.stdout.strip()[-200:].replace("\n", " / "), flush=True)
            if a.returncode: print(a.stdout[-1500:])
            ok = a.returncode == 0 and b.returncode != 0
        if ok and not fast and not checkonly:
            base = json.load(open("/opt/vp/BASELINE.json"))
            bad = 0
            for name, x in (("float32", 0), ("x64", 1)):
                r = sh(f"env JAX_ENABLE_X64={x} PYTHONPATH={repo}/src /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -n 4 --timeout=300 -o junit_family=xunit2 --junitxml={work}/{name}.xml 2>&1 | tail -8", cwd=repo)
                root = ET.parse(f"{work}/{name}.xml").getroot()
                ts = root if root.tag == "testsuite" else root[0]
                nb = int(ts.get("failures")) + int(ts.get("errors"))
                bad += nb
                if nb: print(i, name, r.stdout[-900:])
            print(i, "tests failing:", bad, flush=True)
            ok = bad == 0
        if ok:
            c = sh(f"bash {HERE}/run.sh {s['property']} quick", env={"JV_REPO": repo, "JV_EVIDENCE": os.path.join(work, "ev")})
            print(i, "check exit", c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l][:3], flush=True)
            os.makedirs(d, exist_ok=True)
            for f in os.listdir(stage):
                shutil.copy2(os.path.join(stage, f), os.path.join(d, f))
        else:
            print(i, "REJECTED", flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    for i in [a for a in sys.argv[1:] if not a.startswith("-")] or list(SEEDS):
        try:
            main(i, "--fast" in sys.argv, "--check" in sys.argv)
        except Exception as e:
            print(i, "ERROR", type(e).__name__, str(e)[:500], flush=True)
