"Runs the obligations of a property in parallel, replays counterexamples natively, writes the evidence."

import hashlib
import importlib
import json
import os
import re
import resource
import signal
import select
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NATIVE_PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))


class Native:
    "The process that runs harnesses on plain values against the uninstrumented code."

    def __init__(self, mod):
        self.mod = mod
        self.proc = None
        self.runs = 0

    def run(self, ob, inputs, timeout=20):
        from .codec import enc

        if self.proc is None:
            env = dict(os.environ, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
            self.proc = subprocess.Popen(
                [NATIVE_PYTHON, "-B", os.path.join(HERE, "se", "native.py")],
                stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env,
            )  # fmt: skip
        self.runs += 1
        req = {"mod": self.mod, "ob": ob.name, "inputs": {k: enc(v) for k, v in inputs.items()}, "timeout": timeout}
        try:
            self.proc.stdin.write(json.dumps(req) + "\n")
            self.proc.stdin.flush()
            line = self.proc.stdout.readline()
        except BrokenPipeError:
            line = ""
        if not line:
            self.proc = None
            return {"r": "crash", "msg": "native process ended"}
        return json.loads(line)


def run_obligation(mod, ob, tier, state, validate, known):
    from . import core, ctx
    from .codec import enc

    native = Native(mod)
    scale = 1 if tier == "quick" else 6
    lim = core.Limits(paths=ob.paths * scale, seconds=ob.seconds * (1 if tier == "quick" else 4), path_seconds=ob.path_seconds, ce=ob.ce, force=ob.force, charlen=ob.charlen + (0 if tier == "quick" else 2))
    res = {"name": ob.name, "violations": [], "known": [], "spurious": [], "mismatches": [], "validated": 0, "samples": []}

    def record(inputs, msg):
        for k in known:
            if k["obligation"] == ob.name and re.search(k["match"], msg):
                res["known"].append({"what": k["what"], "inputs": {a: enc(b) for a, b in inputs.items()}})
                return False
        if len(res["violations"]) >= 3:
            return True
        res["violations"].append({"msg": msg, "inputs": {k: enc(v) for k, v in inputs.items()}})
        return True

    def on_ce(ex, model, msg, extra=None):
        try:
            _, inputs = ctx.evaluate(ex, model, extra)
        except ctx.Unobservable as e:
            inputs, msg = None, f"{msg} ({e})"
        if inputs is None:
            res["spurious"].append({"msg": msg, "why": "no consistent model"})
            return False
        r = native.run(ob, inputs)
        if r["r"] == "fail":
            return record(inputs, r["msg"])
        res["spurious"].append({"msg": msg, "native": r, "inputs": {k: enc(v) for k, v in inputs.items()}})
        return False

    done = [0]

    def on_path(ex):
        done[0] += 1
        n = done[0]
        if res["validated"] >= validate or not (n <= validate // 2 or n % 7 == 0):
            return
        try:
            model = ex.get_model()
        except core.PathAbort:
            return
        val, inputs = ctx.evaluate(ex, model)
        if inputs is None:
            return
        obs = []
        for x in ex.observed:
            try:
                obs.append(enc(val.value(x)))
            except (ctx.Unobservable, TypeError, AttributeError):
                obs.append(None)
        r = native.run(ob, inputs)
        if r["r"] == "fail":
            # the encoding misses a failure that the real code shows
            res["mismatches"].append({"native": r, "inputs": {k: enc(v) for k, v in inputs.items()}})
            record(inputs, r["msg"])
            return
        if r["r"] != "ok":
            res["mismatches"].append({"native": r, "inputs": {k: enc(v) for k, v in inputs.items()}})
            return
        for a, b in zip(obs, r["observed"]):
            if a is not None and b is not None and a != b:
                res["mismatches"].append({"observed": [a, b], "inputs": {k: enc(v) for k, v in inputs.items()}})
                return
        if len(obs) != len(r["observed"]):
            res["mismatches"].append({"observed": [len(obs), len(r["observed"])], "inputs": {k: enc(v) for k, v in inputs.items()}})
            return
        res["validated"] += 1
        if len(res["samples"]) < 3:
            res["samples"].append({"inputs": {k: enc(v) for k, v in inputs.items()}, "observed": obs[:4]})

    cuts = [0]

    def on_cut(ex, why):
        "A path given up is at least tried with the values that the solver finds for its beginning."
        cuts[0] += 1
        if cuts[0] > 4:
            return
        try:
            model = ex.get_model()
            _, inputs = ctx.evaluate(ex, model)
        except (core.PathAbort, ctx.Unobservable):
            return
        if inputs is None:
            return
        r = native.run(ob, inputs)
        if r["r"] == "fail" or (r["r"] == "hang" and why == "cut: time per path"):
            record(inputs, r["msg"])

    ex = core.Explorer(lambda e: ob.fn(ctx.Ctx(e), *ob.args), lim, on_path, on_ce, state.restore, on_cut)
    t = time.monotonic()
    try:
        ex.run()
    except core.EngineError as e:
        res["engine_error"] = str(e)[:500]
    except core.PathAbort as e:
        res["engine_error"] = f"interrupted: {e.why}"
    except Exception:
        res["engine_error"] = traceback.format_exc()[-1500:]
    res["wall_s"] = round(time.monotonic() - t, 3)
    res["stats"] = ex.st.as_dict()
    res["exhausted"] = ex.exhausted
    res["stop"] = ex.stop_reason
    res["cut"] = ex.cut_reasons
    res["conc"] = dict(sorted(ex.conc_where.items(), key=lambda kv: -kv[1])[:6])
    res["labels"] = ex.labels
    res["missing"] = [x for x in ob.expect if x not in ex.labels] if ex.exhausted else []
    res["functions"] = sorted(f for f in ex.functions if not f.startswith(("harness", "se.")))
    res["bounds"] = {"paths": lim.paths, "seconds": lim.seconds, "text_chars": lim.charlen, "values_enumerated": lim.force}
    return res


def status(r):
    if r["violations"]:
        return "violated"
    if r.get("engine_error"):
        return "engine error"
    st = r["stats"]
    if not st["complete"]:
        return "known finding" if r["known"] else "vacuous"
    if r["known"] and not r["missing"] and not r["spurious"] and not r["mismatches"] and not st["inconclusive"]:
        return "known finding"
    if r["missing"]:
        return "label not reached"
    if r["spurious"] or r["mismatches"] or st["inconclusive"]:
        return "inconclusive"
    if not r["exhausted"] or st["cut"]:
        return "bounded"
    return "sampled" if st["concretized"] else "holds"


def load(mod):
    from . import instrument

    sys.setrecursionlimit(12000)
    instrument.install({"strong_typing": REPO, "harness": HERE})
    m = importlib.import_module("harness." + mod)
    return m, instrument.snapshot(list(instrument.LOADED))


def run_all(mod, obs, tier, state, validate, known, jobs):
    todo = sorted(obs, key=lambda o: -o.cost)
    running, out = {}, {}
    while todo or running:
        while todo and len(running) < jobs:
            ob = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    res = run_obligation(mod, ob, tier, state, validate, known)
                except BaseException:
                    res = {"name": ob.name, "crash": traceback.format_exc()[-1500:]}
                data = json.dumps(res, default=lambda o: f"<{type(o).__name__}>").encode()
                while data:
                    data = data[os.write(w, data) :]
                os._exit(0)
            os.close(w)
            running[r] = (pid, ob, [])
        ready, _, _ = select.select(list(running), [], [], 5.0)
        for r in ready:
            pid, ob, chunks = running[r]
            c = os.read(r, 1 << 16)
            if c:
                chunks.append(c)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del running[r]
            data = b"".join(chunks)
            out[ob.name] = json.loads(data) if data else {"name": ob.name, "crash": "worker process died"}
            if out[ob.name].get("violations") and os.environ.get("VERIF_FAILFAST"):
                # one violation is enough
                for other, _, _ in running.values():
                    os.kill(other, signal.SIGKILL)
                    os.waitpid(other, 0)
                return [out[o.name] for o in obs if o.name in out]
    return [out[o.name] for o in obs]


def crashed(r):
    from .core import Stats

    r.update(violations=[], known=[], spurious=[], mismatches=[], validated=0, samples=[], stats=Stats().as_dict(), exhausted=False,
             stop="crash", cut={}, conc={}, labels={}, missing=[], functions=[], wall_s=0.0, bounds={}, engine_error=r["crash"])  # fmt: skip
    return r


def main(prop, tier, only=None, verbose=False):
    t0 = time.monotonic()
    mod = prop.lower()
    try:
        with open(os.path.join(HERE, "known_findings.json"), encoding="utf-8") as f:
            known = [k for k in json.load(f)["findings"] if k["property"] == prop]
    except FileNotFoundError:
        known = []
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    for f in os.listdir(replays):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(replays, f))
    violations = []
    results = []
    try:
        m, state = load(mod)
        obs = [o for o in m.obligations() if tier == "thorough" or o.tier == "quick"]
        if only:
            obs = [o for o in obs if re.search(only, o.name)]
        names = [o.name for o in obs]
        assert len(set(names)) == len(names), "duplicate obligation names"
        jobs = int(os.environ.get("VERIF_JOBS", "8"))
        results = run_all(mod, obs, tier, state, 8 if tier == "quick" else 40, known, jobs)
    except Exception:
        traceback.print_exc()
        print(f"INCONCLUSIVE property={prop} the code could not be loaded")
        results = []
    seen_known = []
    for r in results:
        if "crash" in r:
            crashed(r)
        r["status"] = status(r)
        for v in r["violations"]:
            h = hashlib.sha1(json.dumps([r["name"], v], sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(replays, f"{prop}-{h}.json")
            with open(path, "w", encoding="utf-8") as f:
                json.dump({"property": prop, "mod": mod, "ob": r["name"], "message": v["msg"], "inputs": v["inputs"]}, f, indent=1)
            violations.append({"obligation": r["name"], "message": v["msg"], "replay": path, "inputs": v["inputs"]})
        for k in r["known"]:
            if k["what"] not in seen_known:
                seen_known.append(k["what"])
    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    by = {}
    for r in results:
        by.setdefault(r["status"], []).append(r["name"])
    funcs = sorted({f for r in results for f in r["functions"]})
    samples = [{"obligation": r["name"], **s} for r in results for s in r["samples"][:1]][:12]
    cov = {
        "violations": [{"obligation": v["obligation"], "message": v["message"], "replay": v["replay"]} for v in violations],
        "states": tot.get("paths", 0),
        "transitions": tot.get("decisions", 0),
        "traces_validated_against_impl": sum(r["validated"] for r in results),
        "samples": samples or [{"note": "no path completed"}],
        "technique": "symbolic execution of the real source (re-read and instrumented on every run), every branch and assertion decided by Z3",
        "functions_encoded": [f for f in funcs if f.startswith("strong_typing")],
        "library_functions_encoded": [f for f in funcs if not f.startswith("strong_typing")],
        "queries": tot.get("queries", 0),
        "solver_s": round(tot.get("solver_s", 0.0), 3),
        "assertions_checked": tot.get("checks", 0),
        "assertions_discharged": tot.get("discharged", 0),
        "paths": {k: tot.get(k, 0) for k in ("paths", "complete", "infeasible", "cut", "ended_by_ce", "concretized")},
        "obligations": len(results), "obligations_by_status": by,
        "per_obligation": [
            {
                "name": r["name"], "status": r["status"], "paths": r["stats"]["paths"], "complete": r["stats"]["complete"],
                "assertions": r["stats"]["checks"], "queries": r["stats"]["queries"], "solver_s": r["stats"]["solver_s"], "wall_s": r["wall_s"],
                "bounds": r["bounds"], "exhausted": r["exhausted"], "cut": r["cut"], "labels": r["labels"],
                "fixed_to_one_value_paths": r["stats"]["concretized"], "validated": r["validated"],
                **({"fixed_at": r["conc"]} if r["conc"] else {}),
                **({"spurious": r["spurious"][:2]} if r["spurious"] else {}),
                **({"mismatches": r["mismatches"][:2]} if r["mismatches"] else {}),
                **({"engine_error": r["engine_error"]} if r.get("engine_error") else {}),
            }
            for r in results
        ],
    }  # fmt: skip
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov,
        "assumptions": [
            "symbolic characters range over ASCII and 27 representatives of other classes",
            "built-in operations on symbolic values follow the models in se/ (cross-checked by native replay of path models)",
        ],
        "wall_s": round(time.monotonic() - t0, 3),
        "violations": len(violations),
    }  # fmt: skip
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    for r in results if verbose else []:
        st = r["stats"]
        print(f"  {r['status']:14} {r['name']:50} paths {st['paths']:5} complete {st['complete']:5} cut {st['cut']:4} conc {st['concretized']:4} q {st['queries']:6} {r['wall_s']:7.1f}s val {r['validated']} {r['cut'] or ''} {r['stop'] or ''}")
        if r["conc"]:
            print("      fixed:", r["conc"])
        for s in r["spurious"][:2]:
            print("      spurious:", json.dumps(s)[:600])
        for s in r["mismatches"][:2]:
            print("      mismatch:", json.dumps(s)[:600])
        if r.get("engine_error"):
            print("      error:", r["engine_error"])
    for k in seen_known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    for s in ("engine error", "vacuous", "inconclusive", "label not reached"):
        for n in by.get(s, []):
            print(f"INCONCLUSIVE property={prop} obligation={n}: {s}")
    print(f"{prop} {tier}: " + ", ".join(f"{len(v)} {k}" for k, v in sorted(by.items())) + f"; {tot.get('paths', 0)} paths, {tot.get('queries', 0)} queries, {tot.get('solver_s', 0):.1f}s solver, {ev['wall_s']:.1f}s")
    for v in violations[:8]:
        print(f"  {v['obligation']}: {v['message']}")
        print(f"    inputs: {json.dumps(v['inputs'])[:400]}")
        print(f"VIOLATION property={prop} replay={v['replay']}")
    return 1 if violations else 0
