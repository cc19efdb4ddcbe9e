"""check driver:  python -m pyvc.runner check <PROP> [--tier quick|thorough]"""
import argparse
import importlib
import json
import multiprocessing
import os
import random
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYVC_REPO", "/repo")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup_paths():
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    if VT not in sys.path:
        sys.path.append(VT)
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    sys.dont_write_bytecode = True
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")


def load_contracts(vc=True):
    setup_paths()
    from pyvc import hook
    if vc:
        hook.PACKAGES = hook.PACKAGES + ("contracts",)
        hook.install()
        from pyvc import externals  # noqa
    from pyvc import ctx
    d = os.path.join(HERE, "contracts")
    only = os.environ.get("PYVC_ONLY_MODULE")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f.startswith("c_") and (not only or f == only + ".py"):
            importlib.import_module("contracts." + f[:-3])
    return ctx.REGISTRY


def select(reg, prop, name=None):
    out = []
    for k in reg:
        if prop is not None and prop not in k.prop:
            continue
        if name and k.name != name:
            continue
        for i, p in enumerate(k.params):
            out.append((k, i))
    return out


def explore(k, pi, mode, bound, timeout, stop=False, vc_timeout=20000):
    from pyvc import core, ctx
    en = core.Engine(mode, max_paths=k.max_paths, deadline=time.time() + timeout,
                     bound=bound, vc_timeout=vc_timeout)
    en.contract_loops = k.loops if mode == "proof" else {}
    en.stop_on_refute = stop
    errs = []

    def once():
        c = ctx.Ctx(en, k, k.params[pi])
        try:
            k.fn(c)
        except core.Control:
            raise
        except Exception:
            if not en.dead:
                errs.append(traceback.format_exc(limit=12))
        finally:
            c.unpatch()
    t = time.time()
    en.explore(once)
    obs = [dict(label=o.label, status=o.status, backend=o.backend, secs=o.secs, kind=o.kind,
                model=o.model, path=o.path, detail=o.detail) for o in en.obligations]
    return dict(mode=mode, bound=bound if mode == "bounded" else None, obligations=obs,
                unsupported=[str(u[0]) for u in en.unsupported], errors=errs[:3],
                nerrors=len(errs), covers={a: bool(b) for a, b in en.covers.items()},
                paths=en.paths, solver_time=en.solver_time, queries=en.queries,
                notes=sorted(en.notes), inexact=en.inexact, wall=time.time() - t)


def clean(r, k):
    return (not r["unsupported"] and not r["nerrors"] and r["obligations"]
            and all(o["status"] == "discharged" for o in r["obligations"])
            and all(r["covers"].get(c) for c in k.covers))


def portable(x):
    """x without anything that cannot be sent to another process"""
    if isinstance(x, dict):
        return {k if isinstance(k, (str, int, float, bool, type(None))) else repr(k): portable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(portable(v) for v in x) if type(x) in (list, tuple) else repr(x)
    if x is None or type(x) in (str, int, float, bool, bytes):
        return x
    return repr(x)


def run_task(args):
    res = run_task_(args)
    import pickle
    try:
        pickle.dumps(res)
    except Exception:
        res = portable(res)
    return res


def run_task_(args):
    name, mod, pi, tier = args
    from pyvc import ctx
    k = [x for x in ctx.REGISTRY if x.name == name and x.module == mod][0]
    res = dict(name=name, module=mod, param=pi, targets=k.targets, runs=[], assumed=k.assumed)
    try:
        if k.mode == "concrete":
            res["status"] = "concrete"
            return res
        if k.mode == "proof":
            r = explore(k, pi, "proof", k.bound, k.timeout)
            res["runs"].append(r)
            if clean(r, k):
                res["status"] = "proved"
                if tier != "thorough":
                    return res
        elif k.mode == "bounded":
            r = explore(k, pi, "bounded", k.bound + (1 if tier == "thorough" else 0), k.timeout * (4 if tier == "thorough" else 1))
            res["runs"].append(r)
            if clean(r, k):
                res["status"] = "bounded"
                return res
        if tier == "thorough" and res.get("status") == "proved":
            r = explore(k, pi, "bounded", k.bound, k.timeout)
            res["extra"] = dict(paths=r["paths"], ok=bool(clean(r, k)), unsupported=r["unsupported"][:2],
                                refuted=[o for o in r["obligations"] if o["status"] == "refuted"][:3])
            return res
        res["status"] = "open"
        if k.mode == "proof":
            for b in (k.bound, k.bound + 1):
                r = explore(k, pi, "bounded", b, min(k.timeout, 90), stop=True, vc_timeout=8000)
                res["runs"].append(r)
                if any(o["status"] == "refuted" for o in r["obligations"]):
                    break
    except Exception:
        res["status"] = "crash"
        res["error"] = traceback.format_exc()
    return res


# ------------------------------------------------------------------ concrete

def _from_repo(e):
    """was the exception raised by the code under test (or by a library it called)?"""
    where = None
    tb = e.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO + os.sep):
            where = "repo"
        elif fn.startswith(HERE + os.sep):
            where = "harness"
        tb = tb.tb_next
    from pyvc import ctx
    return where == "repo" and not (isinstance(e, (TypeError, AttributeError)) and ctx._MOCKSIG.search(str(e)))


def concrete_run(k, pi, values=None, rnd=None):
    """-> ('ok'|'skip'|'fail'|'error', info)"""
    from pyvc import ctx
    c = ctx.ConcreteCtx(k, values, k.params[pi], rnd)
    try:
        try:
            k.fn(c)
        except ctx.Skip as e:
            return "skip", str(e), c
        except ctx.Failed as e:
            return "fail", dict(label=e.label, detail=repr(e.detail)[:500] if e.detail is not None else None), c
        except RecursionError:
            return "fail", dict(label="recursion"), c
        except Exception as e:
            if k.strict and _from_repo(e):
                return "fail", dict(label="no unexpected exception", detail=traceback.format_exc(limit=-8)), c
            return "error", dict(traceback=traceback.format_exc(limit=-12)), c
        return "ok", None, c
    finally:
        c.unpatch()


def cmd_plain(args):
    """subprocess on untransformed code: jobs from stdin, results to stdout"""
    real = sys.stdout
    sys.stdout = sys.stderr
    reg = load_contracts(vc=False)
    jobs = json.load(sys.stdin)
    findings = [f for f in load_findings() if f.get("status") != "fixed"]
    out = []
    for j in jobs:
        ks = [x for x in reg if x.name == j["name"] and x.module == j["module"]]
        k = ks[0]
        if j["kind"] == "replay":
            st, info, c = concrete_run(k, j["param"], values=j["values"])
            out.append(dict(status=st, info=info, inputs=c.inputs))
        else:
            n_ok = n_skip = checked = 0
            fails = []
            errors = []
            t0 = time.time()
            for s in range(j["n"]):
                st, info, c = concrete_run(k, j["param"], rnd=random.Random("%s-%s-%s" % (j["seed"], k.name, s)))
                if st == "ok":
                    n_ok += 1
                    checked += c.checked
                elif st == "skip":
                    n_skip += 1
                elif st == "fail":
                    if any(f.get("contract") == k.name and f.get("property") in k.prop and f.get("obligation") == info["label"] for f in findings):
                        # a listed finding: remember it once and go on looking for others
                        if not any(x["info"]["label"] == info["label"] for x in fails):
                            fails.append(dict(info=info, inputs=c.inputs))
                        n_ok += 1
                        checked += c.checked
                        continue
                    fails.append(dict(info=info, inputs=c.inputs))
                    break
                else:
                    errors.append(dict(info=info, inputs=c.inputs))
                    if len(errors) > 2:
                        break
                if time.time() - t0 > j.get("limit", 30):
                    break
            out.append(dict(ok=n_ok, skip=n_skip, checked=checked, fails=fails, errors=errors))
    json.dump(out, real)


def plain(jobs, timeout=600):
    if not jobs:
        return []
    nproc = min(8, len(jobs))
    chunks = [jobs[i::nproc] for i in range(nproc)]
    ps = []
    for ch in chunks:
        p = subprocess.Popen([sys.executable, "-m", "pyvc.runner", "plain"], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=HERE)
        ps.append((p, ch))
    import threading
    outs = [None] * nproc

    def comm(i):
        p, ch = ps[i]
        try:
            o, e = p.communicate(json.dumps(ch), timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = p.communicate()
        try:
            outs[i] = json.loads(o)
        except ValueError:
            outs[i] = [dict(status="error", error=e[-2000:], ok=0, skip=0, checked=0, fails=[],
                            errors=[dict(info=dict(traceback=e[-2000:]))]) for _ in ch]
    ts = [threading.Thread(target=comm, args=(i,)) for i in range(nproc)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    res = [None] * len(jobs)
    for i in range(nproc):
        res[i::nproc] = outs[i]
    return res


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        return json.loads(json.dumps(x, default=str))


def load_findings():
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def check(prop, tier, seed, verbose=False, only=None):
    t0 = time.time()
    reg = load_contracts(vc=True)
    tasks = select(reg, prop, only)
    if not tasks:
        print("no contracts for", prop)
        return 3
    args = [(k.name, k.module, pi, tier) for k, pi in tasks]
    for k, pi in tasks:      # load the real modules once, before forking
        for t in k.targets:
            try:
                importlib.import_module(t.split(":")[0])
            except Exception as e:
                print("cannot import %s: %r" % (t, e))
    jobs = []
    for k, pi in tasks:
        n = k.cross * (1 if tier == "quick" else 25)
        if n:
            jobs.append(dict(kind="cross", name=k.name, module=k.module, param=pi, n=n, seed=seed,
                             limit=(20 if tier == "quick" else 200) if k.mode != "concrete" else 400))
    import threading
    cross = []
    th = threading.Thread(target=lambda: cross.extend(plain(jobs, 800)))
    ctxmp = multiprocessing.get_context("fork")
    # biggest first
    with ctxmp.Pool(min(8, len(args)), maxtasksperchild=1) as pool:
        it = pool.imap_unordered(run_task, args, chunksize=1)
        th.start()
        results = list(it)
    th.join()
    order = {(a[0], a[1], a[2]): i for i, a in enumerate(args)}
    results.sort(key=lambda r: order[(r["name"], r["module"], r["param"])])
    findings = load_findings()
    violations = []
    infos = []
    known = []
    # replays
    rjobs = []
    for r in results:
        for run in r["runs"] + ([r["extra"] | {"obligations": r["extra"]["refuted"]}] if r.get("extra") else []):
            for o in run["obligations"]:
                if o["status"] == "refuted" and o["model"] is not None and len(rjobs) < 200:
                    rjobs.append((r, o, dict(kind="replay", name=r["name"], module=r["module"],
                                             param=r["param"], values=jsonable(o["model"]))))
    rres = plain([j[2] for j in rjobs])
    confirmed = {}
    for (r, o, j), rr in zip(rjobs, rres):
        if rr and rr.get("status") == "fail":
            confirmed.setdefault((r["name"], r["module"], r["param"]), []).append((o, j, rr))
    for j, cr in zip(jobs, cross):
        key = (j["name"], j["module"], j["param"])
        for f in cr["fails"]:
            confirmed.setdefault(key, []).append(
                (dict(label=f["info"]["label"], kind="concrete", detail=f["info"].get("detail")),
                 dict(kind="replay", name=j["name"], module=j["module"], param=j["param"], values=f["inputs"]),
                 dict(info=f["info"])))
        if cr["errors"]:
            infos.append("CONTRACT-ERROR (concrete) %s: %s" % (j["name"], json.dumps(cr["errors"][0])[:1500]))
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    nob = ndis = 0
    byb = {}
    st = 0.0
    queries = 0
    functions = {}
    bounded_fns = []
    notes = set()
    samples = []
    assumed = set()
    for r in results:
        key = (r["name"], r["module"], r["param"])
        k = [x for x in reg if x.name == r["name"] and x.module == r["module"]][0]
        assumed.update(r["assumed"])
        crossr = [c for j, c in zip(jobs, cross) if (j["name"], j["module"], j["param"]) == key]
        if r["status"] == "concrete":
            n = sum(c["ok"] for c in crossr)
            bounded_fns.append(dict(contract=r["name"], targets=r["targets"],
                                    bound="%d concrete executions of the contract" % n))
            if n == 0:
                infos.append("no concrete execution of %s" % r["name"])
        elif r["status"] in ("proved", "bounded"):
            run = r["runs"][0]
            if r["status"] == "proved":
                nob += len(run["obligations"])
                ndis += len(run["obligations"])
                for t in r["targets"]:
                    d = functions.setdefault(t, dict(obligations=0, contracts=[]))
                    d["obligations"] += len(run["obligations"])
                    if r["name"] not in d["contracts"]:
                        d["contracts"].append(r["name"])
            else:
                bounded_fns.append(dict(contract=r["name"], targets=r["targets"],
                                        bound="container sizes <= %s, loops unrolled" % run["bound"],
                                        obligations=len(run["obligations"]), paths=run["paths"]))
        else:
            run = r["runs"][0] if r["runs"] else dict(obligations=[], unsupported=["crash: " + r.get("error", "")[-800:]],
                                                      nerrors=0, errors=[], covers={}, solver_time=0, queries=0, notes=[], inexact=True)
            nob += max(len(run["obligations"]), 1)
            ndis += sum(o["status"] == "discharged" for o in run["obligations"])
        for run in r["runs"]:
            st += run["solver_time"]
            queries += run["queries"]
            notes.update(run["notes"])
            for o in run["obligations"]:
                if o["status"] == "discharged":
                    byb[o["backend"]] = byb.get(o["backend"], 0) + 1
        if r["status"] not in ("concrete",) and r["runs"]:
            samples.append("%s[%s]: %s, %d paths, %d obligations" % (
                r["name"], r["param"], r["status"], r["runs"][0]["paths"], len(r["runs"][0]["obligations"])))
        if key in confirmed:
            o, j, rr = confirmed[key][0]
            rest = []
            for (o, j, rr) in confirmed[key]:
                f = match_finding(findings, prop, r, o, rr, j)
                if f:
                    known.append((f, r, o))
                else:
                    rest.append((o, j, rr))
            if rest:
                o, j, rr = rest[0]
                violations.append((r, o, j, rr, True))
            continue
        if r["status"] not in ("open", "crash"):
            continue
        # not proved, no confirmed counterexample
        pr = r["runs"][0] if r["runs"] else None
        refuted = [o for run in r["runs"] for o in run["obligations"]
                   if o["status"] == "refuted" and o["kind"] == "post"] if pr else []
        f = None
        if refuted:
            f = match_finding(findings, prop, r, refuted[0], None, None)
        if refuted and not f:
            violations.append((r, refuted[0], None, None, False))
        elif f:
            known.append((f, r, refuted[0]))
        else:
            why = []
            if pr:
                why += pr["unsupported"][:2] + pr["errors"][:1]
                why += ["%s %s" % (o["status"], o["label"]) for o in pr["obligations"] if o["status"] != "discharged"][:3]
                why += ["cover not reached: %s" % c for c in k.covers if not pr["covers"].get(c)]
                if not pr["obligations"]:
                    why.append("no obligations")
            else:
                why.append(r.get("error", "")[-1500:])
            bd = r["runs"][-1] if len(r["runs"]) > 1 else None
            infos.append("UNDECIDED %s[%s] (demoted to bounded): %s" % (r["name"], r["param"], " | ".join(why)))
            bounded_fns.append(dict(contract=r["name"], targets=r["targets"], demoted=True, why=why[:3],
                                    bound=("container sizes <= %s" % bd["bound"]) if bd else "none"))
    for line in infos:
        print(line[:3000])
    for f, r, o in {id(f): (f, r, o) for f, r, o in known}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    seen = set()
    for i, (r, o, j, rr, conc) in enumerate(violations):
        sig = (r["name"], o["label"])
        if sig in seen:
            continue
        seen.add(sig)
        path = os.path.join(HERE, "replays", "%s-%s-%d.json" % (prop, r["name"], i))
        with open(path, "w") as fh:
            json.dump(jsonable(dict(property=prop, contract=r["name"], module=r["module"], param=r["param"],
                                    targets=r["targets"], obligation=o["label"], kind=o.get("kind"),
                                    detail=o.get("detail"), values=j and j["values"],
                                    outcome=rr and rr.get("info"),
                                    verifier_output=[ob for run in r["runs"] for ob in run["obligations"]
                                                     if ob["status"] != "discharged"][:10],
                                    replay_cmd="/verif/check.sh replay %s" % path)), fh, indent=1)
        print("failed obligation: %s :: %s (%s)" % (r["name"], o["label"], ",".join(r["targets"])))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if conc else " no-failing-input-found"))
    from pyvc import hook
    level = manifest_level(prop)
    cov = dict(
        obligations=nob, discharged=ndis,
        checker_cmd="/verif/check.sh check %s --tier %s" % (prop, tier),
        trusted_base=[
            "pyvc transform+engine (/verif/pyvc) executed by CPython 3.12",
            "z3 %s (python API); cvc5 as fallback" % z3version(),
            "machine integers are python ints (unbounded): no approximation",
        ] + sorted(assumed) + sorted("note: " + n for n in notes),
        functions_under_contract=functions,
        bounded_standins=bounded_fns,
        backends=byb, solver_seconds=round(st, 2), solver_queries=queries,
        repo_modules_from_source={k: v[1][:16] for k, v in sorted(hook.LOADED.items()) if not k.startswith("contracts")},
        cpython_cross_checks=dict(executions=sum(c["ok"] for c in cross), assertions=sum(c["checked"] for c in cross),
                                  outside_precondition=sum(c["skip"] for c in cross)),
        samples=samples[:40],
        inputs_explored=sum(run["paths"] for r in results for run in r["runs"]),
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              wall_s=round(time.time() - t0, 2),
              assumptions=sorted(assumed) + sorted(notes),
              violations=len(seen))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(jsonable(ev), fh, indent=1)
    if nob == 0 and not any(r["status"] in ("concrete", "bounded") for r in results) and not violations:
        print("no obligations generated")
        return 3
    print("%s %s: %d/%d obligations discharged, %d contracts, %.1fs, solver %.1fs%s" % (
        prop, tier, ndis, nob, len(results), time.time() - t0, st,
        " VIOLATIONS %d" % len(seen) if seen else ""))
    return 1 if seen else 0


def match_finding(findings, prop, r, o, rr, j):
    for f in findings:
        if f.get("status") == "fixed" or f.get("property") != prop:
            continue
        if f.get("contract") == r["name"] and f.get("obligation") == o["label"]:
            w = f.get("when")
            if w and j and not all(j["values"].get(a) == b for a, b in w.items()):
                continue
            return f
    return None


def z3version():
    import z3
    return z3.get_version_string()


def manifest_level(prop):
    try:
        m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
        for c in m["checks"]:
            if c["property"] == prop:
                return c["level"]
    except (OSError, ValueError, KeyError):
        pass
    return "proof"


def cmd_replay(path):
    reg = load_contracts(vc=False)
    d = json.load(open(path))
    k = [x for x in reg if x.name == d["contract"] and x.module == d["module"]][0]
    if d["values"] is None:
        print("no failing input; verifier output:", json.dumps(d["verifier_output"], indent=1))
        return 0
    st, info, c = concrete_run(k, d["param"], values=d["values"])
    print(st, json.dumps(info), json.dumps(c.inputs, default=str))
    return 1 if st == "fail" else 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd")
    p = sub.add_parser("check")
    p.add_argument("prop")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    p.add_argument("--only")
    p = sub.add_parser("replay")
    p.add_argument("path")
    sub.add_parser("plain")
    sub.add_parser("selfcheck")
    p = sub.add_parser("dev")
    p.add_argument("name")
    p.add_argument("--mode", default=None)
    p.add_argument("--param", type=int, default=None)
    a = ap.parse_args()
    setup_paths()
    if a.cmd == "check":
        sys.exit(check(a.prop, a.tier, a.seed, only=a.only))
    if a.cmd == "selfcheck":
        n = len(load_contracts(vc=True))
        import z3  # noqa
        print("pyvc: %d contracts load, z3 %s" % (n, z3version()))
        sys.exit(0)
    if a.cmd == "plain":
        cmd_plain(a)
    if a.cmd == "replay":
        sys.exit(cmd_replay(a.path))
    if a.cmd == "dev":
        dev(a)


def dev(a):
    """development: run one contract verbosely"""
    reg = load_contracts(vc=True)
    for k, pi in select(reg, None, a.name):
        if a.param is not None and pi != a.param:
            continue
        if k.mode != "concrete":
            r = explore(k, pi, a.mode or k.mode, k.bound, k.timeout)
            print("==", k.name, pi, k.params[pi], "paths", r["paths"], "obl", len(r["obligations"]),
                  "wall %.1f solver %.1f" % (r["wall"], r["solver_time"]), "clean", bool(clean(r, k)))
            for u in list(dict.fromkeys(r["unsupported"]))[:6]:
                print("   UNSUPPORTED", u)
            for e in r["errors"]:
                print("   ERROR", e)
            n = 0
            for o in r["obligations"]:
                if o["status"] != "discharged":
                    n += 1
                    if n < 8:
                        print("   ", o["status"], o["kind"], o["label"], str(o["model"])[:600], str(o["detail"])[:300])
            if n:
                print("   not discharged:", n)
            for cname in k.covers:
                if not r["covers"].get(cname):
                    print("   COVER MISSED", cname)
            slow = sorted(r["obligations"], key=lambda o: -o["secs"])[:3]
            print("   slowest", [(o["label"][:50], round(o["secs"], 2)) for o in slow], r["notes"])
        if k.cross:
            print("   cross", json.dumps(plain([dict(kind="cross", name=k.name, module=k.module, param=pi, n=k.cross, seed=1)])[0])[:1800])


if __name__ == "__main__":
    main()
