#!/opt/venv/bin/python
"""Decides one property: every contract of it, on /repo's current source.

    check.py C01            quick (or VERIF_TIER=thorough)
    check.py C01 --replay FILE
Exit 0: held.  Exit 1: a VIOLATION line.  Anything else: the check itself failed.
"""
import os, sys, json, time, hashlib, importlib, re, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
for k, v in dict(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="", MPLBACKEND="Agg", TQDM_DISABLE="1").items(): os.environ[k] = v
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
REPO = os.environ.get("VC_REPO", "/repo")
sys.path.insert(0, REPO); sys.path.insert(0, HERE)
os.chdir(HERE)

TRUST = [
    "vc/interp.py: the interpreter that reads the Python source of /repo and generates obligations (own code)",
    "vc/terms.py, vc/prover.py: normal forms, index-set rewriting, case splits (own code); remaining goals go to z3",
    "vc/npmodel.py, vc/torchmodel.py: contracts assumed for numpy, scipy, torch and the standard library (compared with the real libraries by selftest.py)",
    "floating-point arithmetic is treated as real arithmetic; integer dtypes are unbounded",
    "CPython semantics of the subset interpreted (dispatch, scoping, exceptions, aliasing)",
]


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r'known: property=(\S+) contract="([^"]*)" check="([^"]*)" (.*)', line.strip())
        if m and m.group(1) == pid: out.append(m.groups()[1:])
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import ramannoodle
    if not os.path.abspath(ramannoodle.__file__).startswith(os.path.abspath(REPO) + os.sep):
        print("ramannoodle is not imported from", REPO); return 3
    from vc import contract as K, runner as R
    importlib.import_module("contracts." + pid)
    cts = K.CONTRACTS[pid]
    if "--replay" in sys.argv: return replay(pid, sys.argv[sys.argv.index("--replay") + 1])
    mult = 12 if tier == "thorough" else 1
    scale = 3 if tier == "thorough" else 1
    jobs = []
    for i, c in enumerate(cts):
        if c.mode == "proof": jobs.append((("p", i), R.prove_job, (pid, i, c.timeout * scale), c.timeout * scale + 40))
    for i, c in enumerate(cts):
        jobs.append((("c", i), R.cases_job, (pid, i, [seed * 100003 + s for s in range(c.cases * mult)], 60 * scale), 150 * scale))
    out = R.parallel(jobs, 7)
    known = known_findings(pid); seen_known = set()
    viol = []; errors = []; bounded = []; rows = []
    ob = dis = 0; how = {}; solver_s = 0.; calls = 0; funcs = {}; notes = set(); subs = {}; samples = []; ncase = ndis = ndist = nchk = loops = paths = 0

    def is_known(ct, msg):
        for k in known:
            if k[0] == ct.name and msg.startswith(k[1]): seen_known.add(k); return True
        return False
    retry = []
    for i, ct in enumerate(cts):
        c = out.get(("c", i)); r = out.get(("p", i))
        row = dict(contract=ct.name, targets=[f"{getattr(t, '__module__', '')}.{getattr(t, '__qualname__', t)}" for t in ct.targets])
        fails = []
        if not c or "n" not in c: errors.append(f"{ct.name}: runtime cases did not finish: {c and c.get('reason')}"); c = dict(n=0, discarded=0, checks=0, fails=[])
        ncase += c["n"]; ndist += c.get("distinct", 0); ndis += c["discarded"]; nchk += c["checks"]
        for s, inp, msgs, tr in c["fails"]:
            msgs = [m for m in msgs if not is_known(ct, m)]
            if msgs: fails.append((s, inp, msgs, tr, None))
        row["cases"] = c["n"]
        if c.get("absent"): bounded.append(f"{ct.name}: not decided: {c['absent']} no longer exists")
        elif c["n"] == 0 and not errors: errors.append(f"{ct.name}: no runtime case was admissible")
        if ct.mode == "proof":
            if r is None: r = dict(status="unsupported", reason="verifier killed at its time limit", obligations=[])
            if r["status"] == "crash": r = dict(r, status="engine-error", obligations=[])
            obs = r["obligations"]; good = [o for o in obs if o["status"] == "proved"]
            row.update(status=r["status"], obligations=len(obs), discharged=len(good), reason=r.get("reason", ""), wall_s=r.get("wall_s"), paths=r.get("paths"))
            solver_s += r.get("solver_s", 0); calls += r.get("solver_calls", 0); notes |= set(r.get("notes", [])); subs.update(r.get("subs", {})); loops += r.get("loops", 0); paths += r.get("paths") or 0
            funcs.update(r.get("functions", {}))
            if r["status"] in ("proved", "failed"):
                ob += len(obs); dis += len(good)
                for o in good:
                    for h in o["how"].split("+"): how[h] = how.get(h, 0) + 1
                if len(samples) < 4 and good: samples.append(dict(contract=ct.name, obligation=good[-1]["name"], back_end=good[-1]["how"]))
                bad = [o for o in obs if o["status"] != "proved" and not is_known(ct, o["name"])]
                if bad and not fails: retry.append((i, ct, bad))
                elif bad: row["failed_obligations"] = [o["name"] for o in bad]
            else:
                bounded.append(f"{ct.name}: not proved ({r['status']}: {r.get('reason', '')}); decided on this run by {c['n']} runtime cases (bounded)")
                if r["status"] in ("engine-error", "vacuous"): print(f"note: {ct.name}: {r['status']} {r.get('reason','')}\n{r.get('where','')}{r.get('trace','')}", file=sys.stderr)
        else:
            row.update(status="bounded")
            bounded.append(f"{ct.name}: bounded check of the runtime contract ({c['n']} cases). {ct.note}")
        rows.append(row)
        if fails: viol.append((ct, fails[0], row.get("failed_obligations", []), None))
    # failed obligations without a failing case so far: replay the verifier's counterexample, then search further
    jobs = []
    for i, ct, bad in retry:
        models = [o.get("model") for o in bad if o.get("model")]
        jobs.append((i, R_replay, (pid, i, models[:6], seed, ct.cases * 6 * mult), 130))
    rep = R.parallel(jobs, 7) if jobs else {}
    for i, ct, bad in retry:
        got = rep.get(i)
        fail = got["fail"] if got and got.get("fail") else None
        if fail: fail = (fail[0], fail[1], [m for m in fail[2] if not is_known(ct, m)], *fail[3:])
        viol.append((ct, fail if fail and fail[2] else None, [o["name"] for o in bad], bad))
    for ct, fail, obs, bad in viol:
        path = write_replay(pid, ct, fail, obs, bad)
        tail = "" if fail else " no-failing-input-found"
        what = "; ".join(fail[2][:2]) if fail else "undischarged: " + "; ".join(obs[:3])
        print(f"{ct.name}: {what}")
        print(f"VIOLATION property={pid} replay={path}{tail}")
    for k in known:
        if k in seen_known: print(f"KNOWN-FINDING: property={pid} {k[2]}")
        else: print(f"note: listed finding not met on this run: {k[0]}", file=sys.stderr)
    if not ob and any(c.mode == "proof" for c in cts) and not bounded: errors.append("no obligation was generated")
    level = LEVEL.get(pid, "proof")
    cov = dict(obligations=ob, discharged=dis, checker_cmd=f"/opt/venv/bin/python check.py {pid}", trusted_base=TRUST,
               by_back_end=how, solver="z3 " + z3v(), solver_s=round(solver_s, 2), solver_calls=calls,
               functions_under_contract=sorted({t for r in rows for t in r["targets"]}),
               functions_read=sorted(funcs) if isinstance(funcs, dict) else [], contracts=rows, symbolic_paths=paths, loops_summarised=loops,
               callee_contracts_used=subs, bounded_stand_ins=bounded,
               evaluations=ncase, distinct_nontrivial=ndist, rule="runtime reading of the contracts: inputs drawn from VERIF_SEED; an evaluation is a case whose preconditions hold and in which the real code ran; it is distinct and non-trivial when its inputs differ from those of every other case of the contract and at least one check was evaluated",
               runtime_checks=nchk, runtime_discarded=ndis, samples=samples or [dict(contract=r["contract"], cases=r["cases"]) for r in rows[:3]],
               explanation=f"{dis} of {ob} obligations discharged over {sum(r.get('status') == 'proved' for r in rows)} contracts proved for all inputs; {len(bounded)} contract(s) decided by bounded runtime checks (listed).")
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=sorted(notes) + [f"bounded: {b}" for b in bounded], wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    print(f"{pid}: {dis}/{ob} obligations discharged ({', '.join(f'{k} {v}' for k, v in sorted(how.items()))}), {len(bounded)} bounded contract(s), {ncase} runtime cases, {ev['wall_s']} s")
    if viol: return 1
    for e in errors: print("ERROR", e)
    return 3 if errors else 0


LEVEL = dict(C04="other", C07="other", C14="other")


def R_replay(pid, i, models, seed, n):
    from vc import contract as K
    ct = K.CONTRACTS[pid][i]; t = time.time()
    for m in models:
        for s in range(6):
            f, C = K.run_case(ct, seed + s, m)
            if f: return dict(fail=(seed + s, C.inputs, f[:6], getattr(C, "trace", ""), m))
    for s in range(n):
        if time.time() - t > 90: break
        f, C = K.run_case(ct, 7 * 10 ** 6 + seed * 1009 + s)
        if f: return dict(fail=(7 * 10 ** 6 + seed * 1009 + s, C.inputs, f[:6], getattr(C, "trace", ""), None))
    return dict(fail=None)


def z3v():
    try:
        from vc import prover
        return prover.z3.get_version_string()
    except Exception: return "?"


def write_replay(pid, ct, fail, obs, bad):
    d = os.path.join(HERE, "replays", pid); os.makedirs(d, exist_ok=True)
    name = re.sub(r"[^A-Za-z0-9]+", "-", ct.name).strip("-")[:60]
    p = os.path.join(d, name + ".json")
    data = dict(property=pid, contract=ct.name, obligations=obs)
    if fail: data.update(seed=fail[0], inputs=fail[1], given=fail[4], failed_checks=fail[2], trace=fail[3])
    if bad: data["verifier"] = [dict(o, facts=o.get("facts")) for o in bad[:5]]
    with open(p, "w") as f: json.dump(data, f, indent=1, default=str)
    return p


def replay(pid, path):
    from vc import contract as K
    d = json.load(open(path))
    ct = [c for c in K.CONTRACTS[pid] if c.name == d["contract"]][0]
    if "seed" not in d:
        print(json.dumps(d, indent=1)); return 1
    f, C = K.run_case(ct, d["seed"], d.get("given"))
    print("inputs:", json.dumps(C.inputs, default=str)[:4000]); print("failed:", f)
    if f: print(getattr(C, "trace", ""))
    return 1 if f else 0


if __name__ == "__main__":
    try: rc = main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); rc = 3
    sys.stdout.flush(); os._exit(rc)
