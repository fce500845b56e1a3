"""Discharging obligations: z3 first, then cvc5, in parallel, under
deterministic resource limits (wall-clock limits are only a safety net)."""
import multiprocessing as mp
import os
import subprocess
import tempfile
import time
import z3

Z3_VERSION = z3.get_version_string()


def to_smt2(o):
    s = z3.Solver()
    for h in o.hyps:
        s.add(h)
    s.add(z3.Not(o.goal))
    return s.to_smt2()


def _z3_run(smt, rlimit, timeout_ms, opts, want):
    ctx = z3.Context()
    s = z3.Solver(ctx=ctx)
    s.set("rlimit", rlimit)
    s.set("timeout", timeout_ms)
    for k, v in opts.items():
        s.set(k, v)
    s.from_string(smt)
    r = s.check()
    if r == z3.unsat:
        return "proved", None
    if r == z3.sat:
        m = s.model()
        vals = {}
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                try:
                    if z3.is_int_value(v):
                        vals[d.name()] = v.as_long()
                    elif z3.is_true(v) or z3.is_false(v):
                        vals[d.name()] = 1 if z3.is_true(v) else 0
                    else:
                        vals[d.name()] = str(v)[:400]
                except Exception:
                    pass
        return "failed", vals
    return "unknown", s.reason_unknown()


def _cvc5_run(smt, rlimit, timeout_s, extra=()):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + smt)
        name = f.name
    try:
        p = subprocess.run(["cvc5", "--rlimit=%d" % rlimit, "--tlimit=%d" % int(timeout_s * 1000), *extra, name],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout_s + 10)
        out = p.stdout.strip().split("\n")[0]
    except subprocess.TimeoutExpired:
        out = "unknown"
    finally:
        os.unlink(name)
    if out == "unsat":
        return "proved", None
    if out == "sat":
        return "failed", None
    return "unknown", out[:200]


R = 12_000_000


def _has_nl(smt):
    return True


def work(job, say=lambda k: None):
    idx, smt, mult, crashed = job
    t0 = time.time()
    quant = "(forall" in smt or "(exists" in smt
    lam = "(lambda" in smt or "((as const" in smt
    # every back end gets a short turn before any gets a long one
    nombqi = {"smt.mbqi": False, "smt.auto_config": False}
    stages = [("z3", lambda: _z3_run(smt, int(R * mult / 8), int(6000 * max(mult, 1)), {}, None))]
    if quant:
        stages.append(("z3/no-mbqi", lambda: _z3_run(smt, int(R * mult / 8), int(6000 * max(mult, 1)), nombqi, None)))
        if "(lambda" not in smt:
            stages.append(("cvc5", lambda: _cvc5_run(smt, int(200_000 * mult), 15)))
    stages.append(("z3", lambda: _z3_run(smt, int(R * mult), 60000, {}, None)))
    if quant:
        stages.append(("z3/no-mbqi", lambda: _z3_run(smt, int(R * mult), 60000, nombqi, None)))
        stages.append(("z3/eager", lambda: _z3_run(smt, int(R * mult), 60000, {"smt.mbqi": False, "smt.auto_config": False, "smt.relevancy": 0, "smt.qi.eager_threshold": 100.0}, None)))
        stages.append(("z3/seed", lambda: _z3_run(smt, int(R * mult), 60000, {"smt.random_seed": 7, "smt.qi.eager_threshold": 100.0}, None)))
    else:
        stages.append(("z3/old-arith", lambda: _z3_run(smt, int(R * mult), 60000, {"smt.arith.solver": 2}, None)))
    if "(lambda" not in smt:
        stages.append(("cvc5", lambda: _cvc5_run(smt, int(400_000 * mult), 40)))
        if not quant:
            stages.append(("cvc5/nl-cov", lambda: _cvc5_run(smt, int(400_000 * mult), 40, ["--nl-cov"])))
    reasons = []
    for k, (nm, f) in enumerate(stages):
        if k in crashed:
            reasons.append("%s: crashed" % nm)
            continue
        say(k)
        try:
            st, info = f()
        except Exception as ex:
            st, info = "unknown", "%s: %s" % (type(ex).__name__, str(ex)[:200])
        if st == "proved":
            return idx, "proved", nm, time.time() - t0, None
        if st == "failed":
            return idx, "failed", nm, time.time() - t0, info
        reasons.append("%s: %s" % (nm, info))
    return idx, "unknown", "all", time.time() - t0, "; ".join(reasons)


def _worker(conn):
    while True:
        job = conn.recv()
        if job is None:
            return
        conn.send(("done", work(job, lambda k: conn.send(("stage", k)))))


def run_jobs(jobs, n):
    """results of the jobs; a back end that crashes takes its process with it, and the job goes on with the other back ends"""
    from multiprocessing.connection import wait
    todo = list(reversed(jobs))
    live = {}

    def start():
        a, b = mp.Pipe()
        p = mp.Process(target=_worker, args=(b,), daemon=True)
        p.start()
        b.close()
        live[a] = [p, None, 0, 0]   # process, job, stage, jobs done

    def give(a):
        w = live[a]
        if w[3] >= 40 or not todo:
            try:
                a.send(None)
            except OSError:
                pass
            w[0].join(5)
            a.close()
            del live[a]
            if todo:
                start_and_give()
            return
        w[1], w[2] = todo.pop(), 0
        a.send(w[1])

    def start_and_give():
        start()
        give(list(live)[-1])
    for _ in range(n):
        start_and_give()
    while live:
        for a in wait(list(live)):
            w = live[a]
            try:
                kind, x = a.recv()
            except (EOFError, OSError):
                idx, smt, mult, crashed = w[1]
                todo.append((idx, smt, mult, crashed + (w[2],)))
                w[0].join(5)
                a.close()
                del live[a]
                start_and_give()
                continue
            if kind == "stage":
                w[2] = x
                continue
            w[3] += 1
            yield x
            give(a)


def feasible(groups, n=8):
    """for each group of hypothesis lists: is one not refutable within a small budget? (a vacuous path is refuted at once)"""
    jobs = []
    for k, g in enumerate(groups):
        texts = []
        for hyps in g:
            s = z3.Solver()
            for h in hyps:
                s.add(h)
            texts.append(s.to_smt2())
        jobs.append((k, texts))
    out = [True] * len(groups)
    pend, live = list(reversed(jobs)), {}
    while pend or live:
        while pend and len(live) < n:
            k, texts = pend.pop()
            pid = os.fork()
            if pid == 0:
                rc = 0
                try:
                    rc = 0 if any(_z3_run(t, 400000, 20000, {}, None)[0] != "proved" for t in texts) else 3
                finally:
                    os._exit(rc)
            live[pid] = k
        pid, st = os.wait()
        if pid in live:
            k = live.pop(pid)
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 3:
                out[k] = False
    return out


def discharge(obls, procs=None, progress=None):
    """decide every obligation; identical obligations are decided once"""
    jobs = []
    seen = {}
    for i, o in enumerate(obls):
        g = o.goal
        sg = z3.simplify(g) if not z3.is_quantifier(g) else g
        if z3.is_true(sg):
            o.status, o.backend = "proved", "simplifier"
            continue
        if any(h.eq(g) for h in o.hyps):
            o.status, o.backend = "proved", "syntactic"
            continue
        smt = to_smt2(o)
        if smt in seen:
            seen[smt].append(i)
            continue
        seen[smt] = [i]
        jobs.append((i, smt, o.budget or 1, ()))
    by = {v[0]: v for v in seen.values()}
    n = procs or int(os.environ.get("CV_PROCS", "8"))
    jobs.sort(key=lambda j: -len(j[1]))
    if jobs:
        for idx, st, be, t, info in run_jobs(jobs, min(n, len(jobs))):
            for k, i in enumerate(by[idx]):
                o = obls[i]
                o.status, o.backend, o.time, o.model = st, be, (t if k == 0 else 0.0), info
    return obls
