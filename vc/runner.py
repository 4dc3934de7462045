"""Runs the contracts of a property, each in its own process."""
import os, sys, time, json, pickle, signal, importlib, traceback, multiprocessing as mp
import numpy as np
from . import contract as K


def _child(conn, fn, args, memgb):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (int(memgb * 2 ** 30),) * 2)
        np.seterr(all="ignore")
        import warnings; warnings.simplefilter("ignore")
        sys.setrecursionlimit(20000)
        conn.send(fn(*args))
    except BaseException as e:
        try: conn.send(dict(status="crash", reason=f"{type(e).__name__}: {e}", trace=traceback.format_exc()[-2000:]))
        except BaseException: pass
    finally:
        conn.close()
        os._exit(0)


def parallel(jobs, workers=6, memgb=24):
    """jobs: list of (key, fn, args, timeout); returns {key: result or None on death/timeout}."""
    ctx = mp.get_context("fork")
    todo = list(jobs); live = {}; out = {}
    while todo or live:
        while todo and len(live) < workers:
            key, fn, args, tmo = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(w, fn, args, memgb)); p.start(); w.close()
            live[key] = (p, r, time.time() + tmo)
        done = []
        mp.connection.wait([v[1] for v in live.values()], timeout=.2)
        for key, (p, r, end) in live.items():
            if r.poll():
                try: out[key] = r.recv()
                except EOFError: out[key] = None
                done.append(key)
            elif time.time() > end:
                p.kill(); out[key] = None; done.append(key)
        for key in done:
            p, r, _ = live.pop(key)
            r.close(); p.join(5)
            if p.is_alive(): p.kill()
    return out


def prove_job(pid, i, timeout):
    ct = K.CONTRACTS[pid][i]
    r = K.prove_contract(ct, timeout)
    return r


def cases_job(pid, i, seeds, budget):
    """Concrete cases: {n, discarded, fails:[(seed, inputs, messages, trace)]}"""
    ct = K.CONTRACTS[pid][i]
    t = time.time(); res = dict(n=0, discarded=0, checks=0, fails=[]); seen = set()
    for s in seeds:
        if time.time() - t > budget: res["cut"] = True; break
        f, C = K.run_case(ct, s)
        if f is None:
            res["discarded"] += 1
            if getattr(C, "absent", None): res["absent"] = C.absent
            continue
        res["n"] += 1; res["checks"] += C.nchecks
        if C.nchecks: seen.add(repr(sorted(C.inputs.items(), key=str)))
        if f: res["fails"].append((s, C.inputs, f[:6], getattr(C, "trace", "")))
        if len(res["fails"]) >= 5: break
    res["distinct"] = len(seen)
    res["wall_s"] = round(time.time() - t, 2)
    return res
