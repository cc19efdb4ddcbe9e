#!/usr/bin/env python3
"""author tool for /verif/seeded (not used by any check).

tools/seeds.py holds SEEDS: id -> dict(property, edits=[(file, old, new)], demo, needs, breaks)
  seed.py gen [ID..]      write seeded/<id>/
  seed.py demo [ID..]     demo.sh passes on a clean copy and fails with the patch
  seed.py check [ID..]    run the property's quick check with the patch applied (scratch copies of /repo and /verif)
  seed.py tests ID..      all these patches together in one copy: run the test suites
"""
import json, os, re, shutil, subprocess, sys, tempfile, textwrap
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
OUT = os.path.join(VERIF, "seeded")
sys.path.insert(0, HERE)
from seeds import SEEDS  # noqa: E402


def dsrv():
    out = []
    for n in ("real", "app"):
        s = open(os.path.join(VERIF, "contracts", n + ".py")).read()
        s = s.replace("from contracts.mocks import NullLog", "NullLog = _NullLog")
        s = s.replace("from contracts import real\n", "")
        s = re.sub(r"\breal\.(\w+)", r"\1", s)
        out.append(s)
    out.append(textwrap.dedent('''
        class _NullLog:
            def __getattr__(self, name):
                return lambda *a, **k: None

            @contextlib.contextmanager
            def around(self, *a, **k):
                yield
    '''))
    return "\n".join(out)


def copy():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
    return d


def env(d):
    e = dict(os.environ)
    e["PYTHONPATH"] = ":".join(d + "/repo/" + p for p in ("common", "server", "client", "web", "postgresql"))
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    return e


def apply(repo, s):
    for f, old, new in s["edits"]:
        p = os.path.join(repo, f)
        t = open(p).read()
        old, new = (textwrap.dedent(x) if x.startswith("\n") else x for x in (old, new))
        if t.count(old) != 1:
            raise SystemExit("%s: %d matches of %r" % (f, t.count(old), old))
        open(p, "w").write(t.replace(old, new))


def gen(ids):
    d = copy()
    r = d + "/repo"
    for i in ids:
        s = SEEDS[i]
        subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
        apply(r, s)
        diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True, check=True).stdout
        o = os.path.join(OUT, i)
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.sh", "w").write('#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1 TMPDIR="${TMPDIR:-/tmp}"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(o + "/demo.sh", 0o755)
        demo = textwrap.dedent(s["demo"]).strip() + "\n"
        open(o + "/demo.py", "w").write(demo)
        if "dsrv" in demo:
            open(o + "/dsrv.py", "w").write(dsrv())
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)


def run_demo(d, i):
    t = tempfile.mkdtemp(prefix="seeddemo-", dir="/tmp")
    shutil.copytree(os.path.join(OUT, i), t + "/x")
    p = subprocess.run(["sh", t + "/x/demo.sh"], cwd=d + "/repo", env=env(d), capture_output=True, text=True, timeout=300)
    shutil.rmtree(t)
    return p


def demo(ids):
    d = copy()
    r = d + "/repo"
    for i in ids:
        subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
        a = run_demo(d, i)
        subprocess.run(["git", "-C", r, "apply", os.path.join(OUT, i, "patch.diff")], check=True)
        b = run_demo(d, i)
        ok = a.returncode == 0 and b.returncode != 0 and "AssertionError" in b.stderr
        print(i, "ok" if ok else "BAD", a.returncode, b.returncode, flush=True)
        if not ok:
            print((a.stderr if a.returncode else b.stderr)[-1500:])
        else:
            print("   ", b.stderr.strip().splitlines()[-1][:200])
    shutil.rmtree(d)


def check(ids):
    import concurrent.futures as cf
    import queue
    q = queue.Queue()
    n = int(os.environ.get("PAR", "3"))
    ds = [copy() for _ in range(min(n, len(ids)))]
    for d in ds:
        q.put(d)

    def one(i):
        d = q.get()
        r = d + "/repo"
        try:
            subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
            subprocess.run(["git", "-C", r, "apply", os.path.join(OUT, i, "patch.diff")], check=True)
            e = dict(env(d), PYVC_REPO=r, PYVC_EVID=d + "/evid", VERIF_SEED="1", VERIF_TIER="quick")
            p = subprocess.run([VERIF + "/check.sh", "check", SEEDS[i]["property"]], env=e, capture_output=True, text=True)
            viol = [x for x in p.stdout.splitlines() if x.startswith("VIOLATION")]
            return " ".join([i, "CAUGHT" if p.returncode == 1 and viol else "missed", str(p.returncode), p.stderr[-300:] if p.returncode not in (0, 1) else "",
                             *[x[-100:] for x in viol[:3]]])
        finally:
            q.put(d)
    with cf.ThreadPoolExecutor(n) as ex:
        for x in ex.map(one, ids):
            print(x, flush=True)
    for d in ds:
        shutil.rmtree(d)


def tests(ids):
    d = copy()
    r = d + "/repo"
    for i in ids:
        subprocess.run(["git", "-C", r, "apply", os.path.join(OUT, i, "patch.diff")], check=True)
    e = env(d)
    e["TMPDIR"] = d + "/t"
    os.mkdir(d + "/t")
    for name, args in (("common", "-p no:pytest_devpi_server"), ("server", ""), ("web", ""), ("client", "-p no:pytest_devpi_server")):
        if name == "client" and not any("client/" in f or "common/" in f for i in ids for f, _, _ in SEEDS[i]["edits"]) and "--all" not in sys.argv:
            continue
        p = subprocess.run(". /opt/vp/env.sh; cd %s/%s && timeout 600 python -m pytest -q -p no:cacheprovider -n 6 --dist loadscope --timeout=120 --continue-on-collection-errors %s 2>&1 | grep -E '^(FAILED|ERROR)|passed|failed' | cut -c1-220 | tail -40" % (r, name, args),
                           shell=True, env=e, capture_output=True, text=True, executable="/bin/bash")
        print(name, p.stdout, flush=True)
    shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    cmd = sys.argv[1]
    ids = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(SEEDS)
    {"gen": gen, "demo": demo, "check": check, "tests": tests}[cmd](ids)
