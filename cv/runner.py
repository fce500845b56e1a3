"""One check: generate the obligations of a property from /repo's current
source, discharge them, and decide the outcome."""
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import time
import traceback
import z3

from . import solve
from .astload import TU, ExtractionError, loc
from .engine import Engine, has_quant, FALSE
from .types import Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CV_REPO", "/repo")


class Unit:
    """One translation unit and the contracts of the functions it defines."""

    def __init__(self, tag, targets, registry=(), includes=(), sources=(), extra="", defines=(), hooks=None, auto_inv=None, opaque=None, abstract=None):
        self.tag, self.targets, self.registry = tag, list(targets), list(registry)
        self.hooks, self.auto_inv, self.opaque = hooks or {}, auto_inv, opaque
        self.abstract = abstract
        self.includes, self.sources, self.extra, self.defines = list(includes), list(sources), extra, list(defines)


class Harness:
    """Compiled from /repo's current sources; replays counterexamples and
    searches for a failing input within stated bounds."""

    def __init__(self, src, sources=(), flags=(), bound="", quick_s=60, thorough_s=400):
        self.src, self.sources, self.flags, self.bound = src, list(sources), list(flags), bound
        self.quick_s, self.thorough_s = quick_s, thorough_s


BASE_ASSUMPTIONS = [
    "clang 20's AST is a faithful reading of the C++ source, and g++/clang generate code that follows it",
    "the C++ standard library behaves as modelled in cv/stdlib.py (vector, optional, variant, pair, tuple, unique_ptr, set, map, min/max, visit, checked builtins)",
    "the VC generator (cv/engine.py) and the SMT solvers are sound; memory allocation does not fail; vectors hold at most 2^59 elements",
    "exception message texts are not specified",
]


class Problem:
    def __init__(self, where, what):
        self.where, self.what = where, what


def run(prop, tier, seed, verbose=False):
    t0 = time.time()
    mod = importlib.import_module("contracts." + prop)
    problems = []          # extraction breaks: nothing is decided about these functions
    obls = []
    functions = []
    inlined = set()
    used = set()
    vac = []
    gen = []
    for u in mod.UNITS:
        try:
            tu = TU("%s_%s" % (prop, u.tag), includes=u.includes, sources=u.sources, extra_text=u.extra, defines=u.defines)
        except ExtractionError as ex:
            problems.append(Problem("unit " + u.tag, str(ex)[:2000]))
            continue
        en = Engine(tu, u.registry + [t for t in u.targets if t not in u.registry])
        en.hooks, en.auto_inv = u.hooks, u.auto_inv
        en.types.opaque, en.types.abstract = u.opaque, u.abstract
        todo = list(u.targets)
        done = set()
        while todo:
            c = todo.pop(0)
            if id(c) in done:
                continue
            done.add(id(c))
            ds = []
            for l in tu.funcs.values():
                for d in l:
                    if c.matches(en, d):
                        ds.append(d)
            if not ds:
                problems.append(Problem(c.name, "no function matching the contract was found in the current source"))
                continue
            for d in ds:
                n = len(en.obls)
                tg = time.time()
                try:
                    covers = en.verify(c, d)
                except Unsupported as ex:
                    del en.obls[n:]
                    problems.append(Problem(c.name, "outside the verifier's reach: %s" % ex))
                    continue
                except RecursionError:
                    del en.obls[n:]
                    problems.append(Problem(c.name, "outside the verifier's reach: recursion"))
                    continue
                except ExtractionError as ex:
                    del en.obls[n:]
                    problems.append(Problem(c.name, "extraction: %s" % ex))
                    continue
                except (KeyError, IndexError, TypeError, AttributeError, AssertionError, z3.Z3Exception) as ex:
                    del en.obls[n:]
                    if os.environ.get("CV_TRACE"):
                        traceback.print_exc()
                    problems.append(Problem(c.name, "outside the verifier's reach: %s: %s" % (type(ex).__name__, str(ex)[:300])))
                    continue
                made = len(en.obls) - n
                gen.append((c.name, made, time.time() - tg))
                functions.append({"function": c.name, "at": loc(d), "obligations": made, "exit_paths": len(covers)})
                vac.append((c.name, en.pre_state, covers, made))
            # every contract a verified function relied on is verified as well
            for k in u.registry:
                if k.name in en.used_contracts and id(k) not in done and not k.trusted and k not in todo:
                    todo.append(k)
        obls += en.obls
        inlined |= en.inlined
        used |= en.used_contracts
    lemmas = list(getattr(mod, "LEMMAS", []))
    for l in lemmas:
        obls += l.obligations()
    if verbose:
        for nm, k, t in gen:
            print("  generated %4d obligations for %s in %.1fs" % (k, nm, t))
    tgen = time.time() - t0
    # ---- vacuity
    feas = solve.feasible([[s.pc for s, k in covers] for name, pre, covers, made in vac])
    for (name, pre, covers, made), fe in zip(vac, feas):
        if made == 0:
            problems.append(Problem(name, "vacuous: no obligation was generated"))
        if not fe and covers:
            problems.append(Problem(name, "vacuous: no path of the function is feasible under its precondition"))
        if not covers:
            problems.append(Problem(name, "vacuous: the function has no exit path"))
    solve.discharge(obls)
    bad = [o for o in obls if o.status == "failed"]
    inc = [o for o in obls if o.status == "unknown" and not resource(o)]
    unk = [o for o in obls if o.status == "unknown" and resource(o)]
    ok = [o for o in obls if o.status == "proved"]
    if verbose:
        for o in sorted(obls, key=lambda o: -o.time)[:8]:
            print("  %6.2fs %-16s %s: %s" % (o.time, o.backend, o.fn, o.name))
        for o in bad + inc + unk:
            print("  %s %s: %s at %s [%s] %s" % (o.status.upper(), o.fn, o.name, o.where, o.backend, str(model_inputs(o))[:600] if o.status == "failed" else o.model))
    H = getattr(mod, "HARNESS", None)
    bounded = list(getattr(mod, "BOUNDED", []))
    decided = not (bad or inc or unk or problems)
    hres = None
    if H is not None and (not decided or bounded or tier == "thorough"):
        hints = []
        for o in bad:
            for v in (o.model or {}).values():
                if isinstance(v, int) and abs(v) < 1 << 70:
                    hints.append(v)
        hres = run_harness(prop, H, tier, seed, sorted(set(hints)))
    # ---- evidence
    backends = {}
    for o in ok:
        backends[o.backend] = backends.get(o.backend, 0) + 1
    trusted = BASE_ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", []))
    level = getattr(mod, "LEVEL", "proof")
    cov = {
        "obligations": len(obls), "discharged": len(ok),
        "checker_cmd": "bin/check %s (obligations generated from %s by cv/, discharged by z3 %s and cvc5)" % (prop, REPO, solve.Z3_VERSION),
        "trusted_base": trusted,
        "discharged_by_backend": backends,
        "solver_seconds": round(sum(o.time for o in obls), 2),
        "generation_seconds": round(tgen, 2),
        "functions_under_contract": functions,
        "lemmas": [l.name for l in lemmas],
        "inlined_functions": sorted({"%s (%s)" % x for x in inlined}),
        "contracts_used_at_calls": sorted(used),
        "bounded_functions": bounded,
        "undecided": [{"where": p.where, "why": p.what} for p in problems] +
                     [{"where": "%s: %s (%s)" % (o.fn, o.name, o.where), "why": str(o.model)[:400]} for o in unk + inc],
        "failed_obligations": ["%s: %s (%s)" % (o.fn, o.name, o.where) for o in bad],
        "samples": ["%s: %s (%s)" % (o.fn, o.name, o.where) for o in obls[:3]],
        "explanation": getattr(mod, "EXPLANATION", "every obligation generated from the current source under the contracts of contracts/%s.py is sent to the solvers" % prop),
    }
    if H is not None:
        cov["falsifier"] = {"bound": H.bound, "ran": hres is not None}
        if hres is not None:
            cov["falsifier"].update({"evaluations": hres["n"], "seconds": hres["s"], "status": hres["status"]})
    viol = 0
    lines = []
    known = known_findings(prop)
    failing = None
    if hres is not None and hres["status"] == "fail":
        failing = hres["text"]
    rc = 0
    if failing is not None:
        viol = 1
        p = write_replay(prop, bad, inc, unk, problems, failing, H)
        lines.append("VIOLATION property=%s replay=%s" % (prop, p))
        rc = 1
    elif bad or inc:
        viol = 1
        p = write_replay(prop, bad, inc, unk, problems, None, H)
        for q in problems:
            print("UNDECIDED %s: %s" % (q.where, q.what.split("\n")[0]))
        for o in (bad + inc)[:5]:
            print("failed obligation: %s: %s (%s)" % (o.fn, o.name, o.where))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
        rc = 1
    else:
        for p in problems:
            lines.append("UNDECIDED %s: %s" % (p.where, p.what.split("\n")[0]))
        for o in unk:
            lines.append("UNDECIDED %s: %s: solver gave up" % (o.fn, o.name))
        if (problems or unk) and hres is not None:
            lines.append("BOUNDED stand-in: %d evaluations of the current code found no failing input (%s)" % (hres["n"], H.bound))
    for k in known:
        lines.append("KNOWN-FINDING: property=%s %s" % (prop, k))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": trusted, "wall_s": round(time.time() - t0, 2), "violations": viol}
    if hres is not None:
        cov["evaluations"] = hres["n"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d functions under contract, %d obligations, %d discharged, %.1fs%s" % (
        prop, len(functions), len(obls), len(ok), time.time() - t0,
        "" if hres is None else "; falsifier %s after %d evaluations" % (hres["status"], hres["n"])))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return rc


def resource(o):
    """every back end that could not decide ran out of resources"""
    m = str(o.model)
    return not ("incomplete" in m)


def model_inputs(o):
    if not o.model:
        return {}
    return {k: v for k, v in sorted(o.model.items()) if not k.startswith("r_") or True}


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                out.append(l.split(" ", 2)[2])
    return out


def write_replay(prop, bad, inc, unk, problems, failing, H):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s.txt" % prop)
    with open(p, "w") as f:
        f.write("property %s\n\n" % prop)
        if failing is not None:
            f.write("FAILING INPUT, observed on the current code (harness/%s, compiled from /repo):\n%s\n\n" % (H.src, failing))
        else:
            f.write("no failing input was found by the bounded search (%s)\n\n" % (H.bound if H else "none"))
        for o in bad:
            f.write("failed obligation: %s: %s\n  at %s, refuted by %s\n  counterexample of the verifier: %s\n" % (o.fn, o.name, o.where, o.backend, json.dumps(model_inputs(o))[:4000]))
        for o in inc + unk:
            f.write("obligation not discharged: %s: %s\n  at %s: %s\n" % (o.fn, o.name, o.where, o.model))
        for q in problems:
            f.write("undecided: %s: %s\n" % (q.where, q.what))
    return p


def run_harness(prop, H, tier, seed, hints):
    import tempfile
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="cv_%s_" % prop)
    try:
        exe = os.path.join(d, "h")
        base = ["g++-14", "-std=c++23", "-O1", "-g0", "-DGCS_VERIFY", "-I" + REPO, "-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(VERIF, "harness"),
                "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-w", *H.flags]
        srcs = [os.path.join(VERIF, "harness", H.src)] + [os.path.join(REPO, s) for s in dict.fromkeys(["gcs/exception.cc", "gcs/innards/integer_overflow.cc"] + H.sources)]
        procs = []
        objs = []
        for i, s in enumerate(srcs):
            o = os.path.join(d, "o%d.o" % i)
            objs.append(o)
            procs.append((s, subprocess.Popen(base + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for s, p in procs:
            out, _ = p.communicate(timeout=600)
            if p.returncode != 0:
                return {"status": "does-not-compile", "n": 0, "s": round(time.time() - t0, 1), "text": out[:4000]}
        r = subprocess.run(base + ["-o", exe] + objs + ["-lstdc++exp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return {"status": "does-not-link", "n": 0, "s": round(time.time() - t0, 1), "text": r.stdout[:4000]}
        hf = os.path.join(d, "hints")
        with open(hf, "w") as f:
            f.write("\n".join(map(str, hints)) + "\n")
        limit = H.quick_s if tier == "quick" else H.thorough_s
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_abort=1", UBSAN_OPTIONS="print_stacktrace=0")
        try:
            r = subprocess.run([exe, tier, str(seed), hf, str(limit)], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=limit + 120)
            out, code = r.stdout, r.returncode
        except subprocess.TimeoutExpired as ex:
            return {"status": "timeout", "n": 0, "s": round(time.time() - t0, 1), "text": ""}
        n = 0
        for l in out.split("\n"):
            if l.startswith("EVALUATIONS "):
                n = int(l.split()[1])
        if "FAIL:" in out:
            return {"status": "fail", "n": n, "s": round(time.time() - t0, 1), "text": out[-4000:]}
        if code != 0:
            return {"status": "error", "n": n, "s": round(time.time() - t0, 1), "text": out[-4000:]}
        return {"status": "pass", "n": n, "s": round(time.time() - t0, 1), "text": ""}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(argv):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    verbose = False
    for a in argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
        if a == "-v":
            verbose = True
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    sys.setrecursionlimit(20000)
    return run(prop, tier, seed, verbose)
