"""Obligations, proof attempts, counterexample replay, evidence."""
from __future__ import annotations

import ctypes
import json
import math
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import alg
from . import expr as X
from . import ir, paths, search, smt
from .interval import Facts

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


# --------------------------------------------------------------- contracts
class Eq:
    """lhs = rhs"""

    def __init__(self, label, lhs, rhs, tol=1e-6, unless=()):
        # unless: [(term, bound)] - degenerate zones 0 <= term < bound**2 that the contract leaves out
        self.label, self.lhs, self.rhs, self.tol, self.unless = label, lhs, rhs, tol, unless


class Cond:
    """a condition on terms (proved by z3) or on floats (a bool)"""

    def __init__(self, label, cond, detail=None):
        self.label, self.cond, self.detail = label, cond, detail


class Approx(Eq):
    """only checked at run time (bounded): |lhs-rhs| <= tol; not an obligation of the proof"""


def eqs(label, a, b, tol=1e-6, unless=()):
    """element-wise Eq over nested lists"""
    out = []

    def go(pa, pb, ix):
        if isinstance(pa, (list, tuple)):
            assert len(pa) == len(pb), label
            for k, (p, q) in enumerate(zip(pa, pb)):
                go(p, q, ix + (k,))
        else:
            out.append(Eq(label + "".join("[%d]" % k for k in ix), pa, pb, tol, unless))

    go(a, b, ())
    return out


class Reject(Exception):
    """input outside of the precondition (run-time evaluation only)"""


class PostFail(Exception):
    pass


# --------------------------------------------------------------- kernels
class CxxUnit:
    """One harness .cc: IR for the prover, a shared object for replay."""

    def __init__(self, ctx, src, noinline=False, contracts=None, externs=None, extra_native=(), extra=(), max_steps=3_000_000, keep=()):
        # keep: mangled names of functions that are not inlined, so that a contract can stand for the call
        self.ctx = ctx
        self.src = os.path.join(ROOT, "cxx", src)
        self.noinline = noinline
        self.contracts = contracts
        self.externs = externs
        self.extra = list(extra)
        self.keep = list(keep)
        self.extra_native = list(extra_native)
        self.mod = None
        self.err = None
        self.lib = None
        self.max_steps = max_steps
        self.so = None
        self.p_native = None

    def start_native(self):
        if self.so is None:
            self.so = os.path.join(self.ctx.work, os.path.basename(self.src) + ".so")
            cmd = ["/usr/bin/g++", "-std=c++17", "-O1", "-fPIC", "-shared", "-w", "-DVF_NATIVE", "-fno-access-control", "-DNDEBUG"] + self.extra + ir.INCS + [self.src, "-o", self.so] + self.extra_native
            self.p_native = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    def ir(self):
        if self.mod is None and self.err is None:
            try:
                self.mod, self.cmd = ir.compile_ir(self.src, os.path.join(self.ctx.work, os.path.basename(self.src) + ".%d.ll" % id(self)), self.noinline, self.extra + [x for k in self.keep for x in ("-mllvm", "-force-attribute=%s:noinline" % k)])
            except ir.Unsupported as e:
                self.err = str(e)
        if self.err:
            raise ir.Unsupported(self.err)
        return self.mod

    def native(self):
        if self.lib is None:
            self.start_native()
            if self.p_native is not None:
                out = self.p_native.communicate()[0]
                if self.p_native.returncode:
                    raise RuntimeError("native build failed: " + out[-3000:])
                self.p_native = None
            self.lib = ctypes.CDLL(self.so)
        return self.lib

    def kernel(self, func, n_out, cfg=(), contracts=None):
        return CxxKernel(self, func, n_out, list(cfg), contracts)


class CxxKernel:
    def __init__(self, unit, func, n_out, cfg, contracts=None):
        self.unit, self.func, self.n_out, self.cfg = unit, func, n_out, cfg
        self.machine = None
        self.contracts = contracts
        self.lang = "c++"

    def prepare(self):
        self.unit.start_native()
        mod = self.unit.ir()
        self.machine = ir.Machine(mod, self.unit.externs, self.contracts or self.unit.contracts, self.unit.max_steps)

    def symbolic(self, ins):
        M = self.machine
        M.reset()
        pi = M.alloc("in", 8 * max(len(ins), 1))
        po = M.alloc("out", 8 * max(self.n_out, 1))
        pc = M.alloc("cfg", 4 * max(len(self.cfg), 1))
        for k, v in enumerate(ins):
            M.store(ir.P(pi.o, 8 * k), 8, v)
        for k, v in enumerate(self.cfg):
            M.store(ir.P(pc.o, 4 * k), 4, v & 0xFFFFFFFF)
        M.call("@" + self.func, [pi, po, pc])
        out = []
        for k in range(self.n_out):
            e = po.o.d.get(8 * k)
            out.append(M.load(ir.P(po.o, 8 * k), ir.DBL) if e is not None else None)
        return [v if v is not ir.UNDEF else None for v in out]

    def concrete(self, ins):
        lib = self.unit.native()
        i = (ctypes.c_double * max(len(ins), 1))(*ins)
        o = (ctypes.c_double * max(self.n_out, 1))(*([float("nan")] * self.n_out))
        c = (ctypes.c_int * max(len(self.cfg), 1))(*self.cfg)
        f = getattr(lib, self.func)
        r = lib.vf_call(ctypes.cast(f, ctypes.c_void_p), i, o, c)
        if r == -1:
            raise ir.CxxThrow("native exception")
        if r == -2:
            raise Hang("does not return")
        return list(o)

    def functions(self):
        return sorted(self.machine.reached) if self.machine else []


class Hang(Exception):
    pass


class Throws:
    """[1] when the kernel throws, [0] when it returns"""

    def __init__(self, k):
        self.k = k
        self.func, self.cfg, self.lang = k.func, getattr(k, "cfg", None), k.lang
        if isinstance(k, CxxKernel):
            self.unit = k.unit

    def prepare(self):
        self.k.prepare()

    def symbolic(self, ins):
        try:
            self.k.symbolic(ins)
        except ir.CxxThrow:
            return [X.ONE]
        return [X.ZERO]

    def concrete(self, ins):
        try:
            self.k.concrete(ins)
        except ir.CxxThrow:
            return [1.0]
        return [0.0]

    def functions(self):
        return self.k.functions()


class PyKernel:
    """fn(list of scalars) -> list of scalars, calling the real Python code."""

    def __init__(self, fn, name=None):
        self.fn = fn
        self.func = name or fn.__name__
        self.lang = "python"

    def prepare(self):
        pass

    def symbolic(self, ins):
        from . import pysym

        with pysym.symbolic_numpy():
            return self.fn(ins)

    def concrete(self, ins):
        return self.fn(ins)

    def functions(self):
        return []


# --------------------------------------------------------------- context
class Ctx:
    def __init__(self, prop, tier="quick", seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        self.jobs = []
        self.records = []
        self.assumptions = []
        self.functions = set()
        self.trusted = []
        self.bounded = []
        self.only = None

    def assume(self, *texts):
        for t in texts:
            if t not in self.assumptions:
                self.assumptions.append(t)

    def under_contract(self, *names):
        self.functions.update(names)

    def job(self, name, fn, *a, timeout=300, **k):
        self.jobs.append((name, fn, a, k, timeout))

    # a verification job: kernel satisfies its contract for all inputs in pre
    def prove(self, name, kernel, ins, posts, pre=None, sampler=None, squares=None, samples=None, max_paths=64, eq_timeout=60,
              timeout=400, numeric_only=False, subst=None, allow_throw=False, cond_timeout=20000, feas_ms=500, covers=1):
        self.job(name, _prove, self, name, kernel, ins, posts, pre, sampler, squares, samples, max_paths, eq_timeout, numeric_only, subst,
                 allow_throw, cond_timeout, feas_ms, covers, timeout, timeout=timeout)

    def runtime(self, name, kernel, ins, posts, pre=None, sampler=None, samples=None, **k):
        """bounded stand-in: contract evaluated at run time only"""
        self.prove(name, kernel, ins, posts, pre, sampler, None, samples, numeric_only=True, **k)

    def run(self, nproc=8):
        # native/IR compilation is shared through fork: jobs compile lazily, so do units up-front in parallel
        units = []
        for _, fn, a, k, _t in self.jobs:
            for v in a:
                if isinstance(v, (CxxKernel, Throws)) and getattr(v, 'unit', None) is not None and v.unit not in units:
                    units.append(v.unit)
        for u in units:
            u.start_native()
        from concurrent.futures import ThreadPoolExecutor

        def comp(u):
            try:
                u.ir()
            except ir.Unsupported:
                pass

        with ThreadPoolExecutor(8) as ex:
            list(ex.map(comp, units))
        for u in units:
            if u.p_native is not None:
                u.p_native_out = u.p_native.communicate()[0]
                if u.p_native.returncode:
                    u.native_err = u.p_native_out[-2000:]
                    print("native build failed:", u.native_err, file=sys.stderr)
                u.p_native = None
        if self.only:
            self.jobs = [j for j in self.jobs if self.only in j[0]]
        self._pool(nproc, self.jobs)
        self._retry(nproc)

    def _retry(self, nproc):
        """proofs that failed without a failing input are tried again with more solver time"""
        by = {}
        for r in self.records:
            by.setdefault(r.get("job"), []).append(r)
        again = []
        for j in self.jobs:
            bad = [r for r in by.get(j[0], []) if r["status"] not in ("proved", "holds")]
            if bad and not any(r.get("replay") for r in bad):
                again.append(j)
        known = load_known(self.prop)
        if any(r.get("replay") and match_known(known, r) is None for r in self.records):
            return  # decided: a failing input is known
        left = 740 - (time.time() - self.t0)
        if not again or left < 120:
            return
        names = {j[0] for j in again[:24]}
        old = [r for r in self.records if r.get("job") in names]
        self.records = [r for r in self.records if r.get("job") not in names]
        smt.SCALE = 3.0
        t = left if len(again) <= nproc else left * nproc / (len(names) + nproc)
        self._pool(nproc, [j[:4] + (min(t, 3 * j[4]),) for j in again[:24]])
        for n in names:
            if not any(r.get("job") == n for r in self.records):
                self.records += [r for r in old if r.get("job") == n]

    def _pool(self, nproc, jobs):
        pending = list(jobs)
        pending.sort(key=lambda j: -j[4])
        running = {}
        sys.stdout.flush()
        sys.stderr.flush()
        while pending or running:
            while pending and len(running) < nproc:
                j = pending.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.close(r)
                        os.setpgid(0, 0)
                        res = _runjob(j)
                        with os.fdopen(w, "wb") as f:
                            f.write(json.dumps(res, default=str).encode())
                    except BaseException:
                        traceback.print_exc()
                        code = 3
                    finally:
                        os._exit(code)
                os.close(w)
                os.set_blocking(r, False)
                running[pid] = (j, r, time.time(), bytearray())
            done = []
            for pid, (j, r, t, buf) in running.items():
                try:
                    while True:
                        b = os.read(r, 1 << 16)
                        if not b:
                            break
                        buf += b
                except BlockingIOError:
                    pass
                p, st = os.waitpid(pid, os.WNOHANG)
                if p:
                    try:
                        while True:
                            b = os.read(r, 1 << 16)
                            if not b:
                                break
                            buf += b
                    except BlockingIOError:
                        pass
                    os.close(r)
                    done.append(pid)
                    try:
                        res = json.loads(bytes(buf).decode())
                        for q in res["records"]:
                            q["job"] = j[0]
                        self.records += res["records"]
                        self.functions.update(res.get("functions", []))
                        for a in res.get("assumptions", []):
                            self.assume(a)
                    except Exception:
                        self.records.append(dict(id=j[0], job=j[0], status="failed", backend="-", secs=time.time() - t, detail="job died with status %d (signal %d)" % (st, st & 127), crash=bool(st & 127)))
                elif time.time() - t > j[4]:
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(r)
                    done.append(pid)
                    self.records.append(dict(id=j[0], job=j[0], status="unknown", backend="-", secs=time.time() - t, detail="job timed out after %ds" % j[4]))
            for pid in done:
                del running[pid]
            if running:
                time.sleep(0.02)

    # ----- reporting
    def finish(self, level="proof"):
        wall = time.time() - self.t0
        known = load_known(self.prop)
        bad = [r for r in self.records if r["status"] not in ("proved", "holds")]
        proved = [r for r in self.records if r["status"] == "proved"]
        bounded = [r for r in self.records if r["status"] == "holds"]
        viol = 0
        exit_code = 0
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        nobl = len([r for r in self.records if r["status"] != "holds"])
        if nobl == 0:
            print("no obligation was generated: the check is vacuous")
            exit_code = 3
        groups = {}
        for r in bad:
            groups.setdefault(r["id"], []).append(r)
        known_hit = {}
        out = []
        for oid, rs in sorted(groups.items()):
            best = next((r for r in rs if r.get("replay")), rs[0])
            k = match_known(known, best)
            if k is not None and all(match_known(known, r) is not None for r in rs if r.get("replay")):
                known_hit.setdefault(k["what"], []).append(oid)
                continue
            out.append((oid, best))
        # real replays first
        out.sort(key=lambda t: 0 if t[1].get("replay") else 1)
        for oid, r in out:
            viol += 1
            path = os.path.join(ROOT, "replays", re.sub(r"[^\w.-]+", "_", "%s-%s" % (self.prop, oid))[:120] + ".json")
            json.dump(dict(property=self.prop, obligation=oid, status=r["status"], backend=r.get("backend"), detail=r.get("detail"), replay=r.get("replay"),
                           rerun="python3-vt /verif/check.py %s --only '%s'" % (self.prop, r.get("job", oid))), open(path, "w"), indent=1, default=str)
            print("obligation %s: %s  %s" % (oid, r["status"], str(r.get("detail"))[:400]))
            if r.get("replay"):
                print("  failing input on the real code: %s" % json.dumps(r["replay"], default=str)[:600])
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            else:
                print("VIOLATION property=%s replay=%s no-failing-input-found" % (self.prop, path))
            exit_code = 1
        for what, ids in known_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        backends = {}
        for r in proved:
            b = r.get("backend", "?")
            backends.setdefault(b, [0, 0.0])
            backends[b][0] += 1
            backends[b][1] += r.get("secs", 0)
        funs = sorted(demangle(self.functions))
        ev = dict(
            property=self.prop, tier=self.tier, seed=self.seed, level=level,
            coverage=dict(
                obligations=nobl, discharged=len(proved),
                checker_cmd="python3-vt /verif/check.py %s --tier %s" % (self.prop, self.tier),
                trusted_base=["vf/ir.py (LLVM IR semantics)", "vf/alg.py (polynomial normal form)", "vf/pysym.py (CPython symbolic execution)", "clang 18 front end", "z3 5.3.2"] + self.trusted,
                backends={k: dict(obligations=v[0], seconds=round(v[1], 3)) for k, v in backends.items()},
                bounded_obligations=len(bounded), bounded_evaluations=sum(int(r.get("evaluations", 0)) for r in self.records),
                bounded=[dict(id=r["id"], detail=r.get("detail", "")) for r in bounded][:200],
                functions_under_contract=funs[:400], functions_count=len(funs),
                obligation_ids=[r["id"] for r in proved][:600],
                known_findings=list(known_hit),
                undischarged=[dict(id=r["id"], status=r["status"], detail=str(r.get("detail"))[:300]) for r in bad][:100],
            ),
            assumptions=self.assumptions, wall_s=round(wall, 2), violations=viol)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w"), indent=1)
        print("%s: %d/%d obligations discharged, %d bounded, %d violations, %.1fs" % (self.prop, len(proved), nobl, len(bounded), viol, wall))
        shutil.rmtree(self.work, ignore_errors=True)
        return exit_code


def demangle(names):
    names = [n.lstrip("@").strip('"') for n in names]
    m = [n for n in names if n.startswith("_Z")]
    rest = [n for n in names if not n.startswith("_Z")]
    if m:
        try:
            out = subprocess.run(["c++filt"], input="\n".join(m), capture_output=True, text=True).stdout.split("\n")
            rest += [o for o in out if o and not o.startswith(("Eigen::", "std::", "decltype", "void Eigen::", "__gnu"))]
        except OSError:
            rest += m
    return set(rest)


def load_known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k.get("status") == "known"]


def match_known(known, r):
    for k in known:
        if r["id"] in k["obligations"]:
            return k
    return None


def _runjob(j):
    name, fn, a, k, _ = j
    t = time.time()
    recs = []
    info = {}
    try:
        r = fn(*a, **k)
        if isinstance(r, dict):
            info = r
            recs = r["records"]
        else:
            recs = r
    except Exception as e:
        recs = [dict(id=name, status="failed", backend="-", secs=time.time() - t, detail="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))]
    for r in recs:
        r.setdefault("job", name)
    info["records"] = recs
    return info


# --------------------------------------------------------------- proving
def abstract_sign(facts, e):
    """sign of a polynomial in atoms that are only known by their range"""
    atoms = [n for n in X.topo([e]) if isinstance(n, X.E) and n.op not in ("c", "+", "*", "neg")]
    if not atoms or len(atoms) > 12:
        return None
    m, hyp = {}, []
    for k, n in enumerate(reversed(atoms)):
        v = X.var("abs!%d" % k)
        m[n] = v
        lo, hi, nz = facts.iv(n)
        if lo > -math.inf:
            hyp.append(X.gt(v, X.const(lo)) if lo == 0 and nz else X.ge(v, X.const(lo)))
        if hi < math.inf:
            hyp.append(X.lt(v, X.const(hi)) if hi == 0 and nz else X.ge(X.const(hi), v))
    e2 = X.subst([e], m)[0]
    if smt.check(hyp + [X.lt(e2, X.ZERO)], 1500) == "unsat":
        return 1
    if smt.check(hyp + [X.gt(e2, X.ZERO)], 1500) == "unsat":
        return -1
    return None


signs_for = paths.signs_for


def _apply_eq_pc(pc, terms):
    """use variable = term facts of the path condition"""
    m = {}
    for c in pc:
        if c.op == "eq":
            a, b = c.args
            for u, v in ((a, b), (b, a)):
                if u.op == "v" and u.args[0] not in X.variables(v) and u not in m:
                    m[u] = v
                    break
    if not m:
        return terms
    for _ in range(3):
        terms = X.subst(terms, m)
    return terms


def prove_eq(pc, lhs, rhs, squares=None, timeout=60):
    """('proved'|'refuted?'|'unknown', detail)"""
    lhs, rhs = X.lift(lhs), X.lift(rhs)
    if lhs is rhs:
        return "proved", "identical terms"
    if X.NAN in (lhs, rhs):
        return "failed", "NaN"
    l2, r2 = _apply_eq_pc(pc, [lhs, rhs])
    l2, r2 = unfold_atan2(pc, [l2, r2])
    inv = any(n.op in ("atan2", "acos", "asin") for n in X.topo([l2, r2]))
    st, det = "failed", "normal form of the difference is not zero"
    # generalisation first: inverse trigonometric values as arbitrary angles
    for opq, sg in ([(True, None)] if inv else []) + [(False, None), (False, signs_for(pc))]:
        try:
            if alg.equal(l2, r2, squares, sg, timeout, opaque=opq):
                return "proved", "normal form" + (" (angles generalised)" if opq else "") + (" with signs" if sg else "")
        except (alg.TooBig, alg.Undecided) as e:
            st, det = "unknown", "%s %s" % (type(e).__name__, e)
    return st, det


def unfold_atan2(pc, terms):
    """atan2(k sin t, k cos t) = t for k > 0 and -pi < t <= pi"""
    facts = None
    for _ in range(4):
        hit = None
        for n in X.topo(terms):
            if n.op != "atan2":
                continue
            A, B = n.args
            cands = []
            for m in X.topo([A, B]):
                if m.op in ("sin", "cos") and not any(m.args[0] is c for c in cands):
                    cands.append(m.args[0])
            for t in cands[:4]:
                facts = facts or Facts(pc)
                lo, hi, _z = facts.iv(t)
                if not (lo >= -3.1415926535897927 and hi <= 3.1415926535897927):
                    continue
                st, ct = X.sin(t), X.cos(t)
                sg = signs_for(pc)
                try:
                    if not alg.equal(X.mul(A, ct), X.mul(B, st), None, sg, 20):
                        continue
                except (alg.TooBig, alg.Undecided):
                    continue
                sa, ss, sb, sc_ = (facts.sign(v) for v in (A, st, B, ct))
                ok = (sa in (1, -1) and sa == ss) or (sb in (1, -1) and sb == sc_)
                if not ok:
                    k = X.add(X.mul(A, st), X.mul(B, ct))
                    extra = [X.gt(v, X.ZERO) for v in X.topo([A, B]) if v.op in ("sin", "cos", "sqrt") and facts.sign(v) == 1]
                    ok = smt.check(list(pc) + extra + [X.not_(X.gt(k, X.ZERO))], 10000) == "unsat"
                if ok:
                    hit = (n, t)
                    break
            if hit:
                break
        if not hit:
            return terms
        terms = X.subst(terms, {hit[0]: hit[1]})
    return terms


def degenerate(pc, unless):
    """the path lies inside of a zone that the contract leaves out"""
    for term, bound in unless:
        b2 = X.const(bound) * X.const(bound)
        for c in pc:
            a = k = None
            if c.op == "lt" and c.args[1].op == "c":
                a, k = c.args
            elif c.op == "not" and c.args[0].op == "lt" and c.args[0].args[0].op == "c":
                k, a = c.args[0].args
            if a is not None:
                if a.op == "sqrt" and k.args[0] < X.const(bound).args[0]:
                    a = a.args[0]
                elif not k.args[0] < b2.args[0]:
                    continue
                try:
                    if alg.equal(a, X.lift(term), None, signs_for(pc), 20):
                        return True
                except (alg.TooBig, alg.Undecided):
                    pass
    return False


def check_numeric(p, tol_scale=1.0):
    """evaluate one post at run time; None when it holds, else text"""
    if isinstance(p, Eq):
        if any(float(t) < b * b for t, b in p.unless):
            return None
        a, b = float(p.lhs), float(p.rhs)
        if math.isnan(a) or math.isnan(b):
            return "%s: %r vs %r" % (p.label, a, b)
        if abs(a - b) > p.tol * (1 + max(abs(a), abs(b))) * tol_scale:
            return "%s: got %r, contract says %r" % (p.label, a, b)
        return None
    if not p.cond:
        return "%s is false%s" % (p.label, " (%s)" % (p.detail,) if p.detail else "")
    return None


def _numeric(kernel, ins, posts, pre, sampler, n, seed, allow_throw, first=()):
    """run-time evaluation of the contract; returns (evaluations, failure or None)"""
    rng = random.Random(seed)
    ev = 0
    tries = 0
    queue = list(first)
    while ev < n and tries < n * 20:
        tries += 1
        given = bool(queue)
        v = queue.pop(0) if queue else (sampler(rng) if sampler else [rng.uniform(-2, 2) for _ in ins])
        if v is None:
            continue
        v = [float(x) for x in v]
        try:
            if pre is not None and not all(bool(c) for c in pre(v)):
                continue
        except (Reject, ValueError, ZeroDivisionError, OverflowError):
            continue
        try:
            out = kernel.concrete(v)
        except Exception as e:
            if allow_throw and not isinstance(e, Hang):
                continue
            return ev, dict(inputs=dict(zip(ins, v)), error="%s: %s" % (type(e).__name__, e))
        try:
            ps = posts(v, out)
        except Reject:
            continue
        except (ValueError, ZeroDivisionError, OverflowError, TypeError) as e:
            if given:  # a model of the solver, not a sample of the domain: the contract does not evaluate there
                continue
            ev += 1
            return ev, dict(inputs=dict(zip(ins, v)), outputs=[repr(o) for o in out], error="contract evaluation: %s" % e)
        ev += 1
        for p in ps:
            msg = check_numeric(p)
            if msg:
                return ev, dict(inputs=dict(zip(ins, v)), outputs=[o if not isinstance(o, float) or not math.isnan(o) else "nan" for o in out], violated=p.label, message=msg)
    return ev, None


def _fmt_pc(pc):
    return " & ".join(X.to_str(c, 3) for c in pc)[:300]


def _prove(ctx, name, kernel, ins, posts, pre, sampler, squares, samples, max_paths, eq_timeout, numeric_only, subst, allow_throw, cond_timeout, feas_ms, covers, timeout=400):
    t00 = time.time()
    recs = []
    label_of = lambda p: "%s/%s" % (name, p.label)
    nsamples = samples or (200 if ctx.tier == "quick" else 3000)
    fails = []
    funcs = []
    npaths = 0
    strins = ins if all(isinstance(i, str) for i in ins) else [str(i) for i in ins]
    # run-time evaluation of the contract on the real code first: a failing input settles the matter
    err = getattr(getattr(kernel, "unit", None), "native_err", None)
    ev, bad = 0, None
    if err:
        fails.append(dict(id=name + "/native", status="failed", backend="-", secs=0, detail="native build failed: " + err))
    else:
        ev, bad = _numeric(kernel, strins, posts, pre, sampler, nsamples, ctx.seed, allow_throw)
    if not numeric_only and bad is None:
        try:
            kernel.prepare()
            V = [X.var(n) if not isinstance(n, X.E) else n for n in ins]
            names = [n if isinstance(n, str) else X.to_str(n) for n in ins]
            if subst:
                V = subst(V)
            assumptions = [X.liftb(c) for c in pre(V)] if pre else []
            assumptions = [a for a in assumptions if a is not X.TRUE]

            def body():
                out = kernel.symbolic(V)
                return out, list(posts(V, out)) + list(getattr(out, "obligations", ()))

            ps = paths.explore(body, assumptions, max_paths, feas_ms)
            funcs = kernel.functions()
            reached_any = 0
            for pi, p in enumerate(ps):
                if p.exc is not None:
                    if isinstance(p.exc, (ir.CxxThrow,)) and allow_throw:
                        continue
                    if isinstance(p.exc, Reject):
                        continue
                    fails.append(dict(id=name, status="failed", backend="symbolic execution", secs=0,
                                      detail="path [%s] raises %s: %s" % (_fmt_pc(p.pc), type(p.exc).__name__, str(p.exc)[:600])))
                    continue
                npaths += 1
                out, plist = p.result
                for q in plist:
                    t0 = time.time()
                    if isinstance(q, Approx):
                        continue
                    if isinstance(q, Eq):
                        try:
                            st, det = prove_eq(p.pc, q.lhs, q.rhs, squares, eq_timeout)
                            if st != "proved" and p.extra:
                                st, det = prove_eq(p.pc + p.extra, q.lhs, q.rhs, squares, eq_timeout)
                        except Exception as e:
                            st, det = "unknown", "%s: %s" % (type(e).__name__, e)
                        be = "polynomial normal form"
                        if st != "proved" and q.unless and degenerate(p.pc + p.extra, q.unless):
                            st, det = "proved", "degenerate zone left out by the contract"
                        if st == "failed" and pc_infeasible(p.pc):
                            continue
                    else:
                        be = "z3"
                        c = X.liftb(q.cond)
                        if c is X.TRUE:
                            st, det = "proved", "trivial"
                        else:
                            r, mdl = smt.valid(p.pc, c, cond_timeout)
                            if r == "unsat":
                                st, det = "proved", "unsat"
                            elif r == "sat":
                                st, det = "failed", "counter-model %s" % mdl
                            else:
                                r2 = cvc5_valid(p.pc, c, cond_timeout)
                                st, det = ("proved", "unsat (cvc5)") if r2 else ("unknown", "z3: " + r)
                                be = "cvc5" if r2 else be
                    rec = dict(id=label_of(q) + ("" if len(ps) == 1 else "@%d" % pi), status=st, backend=be, secs=time.time() - t0, detail=det)
                    if st == "proved":
                        recs.append(rec)
                    else:
                        rec["id"] = label_of(q)
                        rec["detail"] = "%s; path [%s]" % (det, _fmt_pc(p.pc))
                        cex = []
                        if not isinstance(q, Eq) and r == "sat" and mdl and all(nm in mdl for nm in names):
                            cex.append([mdl[nm] for nm in names])
                        if time.time() - t00 < timeout * 0.5 and len(fails) < 12 and sum(bool(f.get("cex")) for f in fails) < 2:
                            cex += refute(p.pc, q, names, sampler, ctx.seed)
                        if cex:
                            rec["cex"] = cex
                        fails.append(rec)
            if npaths < covers and not fails:
                fails.append(dict(id=name + "/cover", status="failed", backend="symbolic execution", secs=0, detail="only %d feasible path(s) reach the postcondition (%d expected)" % (npaths, covers)))
            elif covers:
                # vacuity guard: the precondition is satisfiable by an actual run
                pass
        except Exception as e:
            if os.environ.get("VF_TRACE"):
                traceback.print_exc()
            fails.append(dict(id=name, status="unknown", backend="symbolic execution", secs=time.time() - t00, detail="%s: %s" % (type(e).__name__, str(e)[:1200])))
    # run-time evaluation of the same contract on the real code (also the vacuity cover)
    first = [c for f in fails for c in f.pop("cex", ())]
    if not err and not bad and fails:
        ev, bad = _numeric(kernel, strins, posts, pre, sampler, max(nsamples, 4000), ctx.seed + 1, allow_throw, first)
    if bad is not None:
        fid = "%s/%s" % (name, bad.get("violated", "run"))
        hit = [f for f in fails if f["id"] == fid] or fails[:1]
        if hit:
            for h in hit:
                h["replay"] = dict(kernel=kernel.func, cfg=getattr(kernel, "cfg", None), **bad)
                h["id"] = fid
            fails = [f for f in fails if f.get("replay")]
        else:
            fails.append(dict(id=fid, status="failed", backend="run-time contract", secs=0, detail=bad.get("message") or bad.get("error"),
                              replay=dict(kernel=kernel.func, cfg=getattr(kernel, "cfg", None), **bad)))
    elif ev == 0 and not fails and not err:
        fails.append(dict(id=name + "/cover", status="failed", backend="run-time contract", secs=0, detail="no input satisfies the precondition (vacuous)"))
    if numeric_only and not fails:
        recs.append(dict(id=name, status="holds", backend="run-time contract", secs=time.time() - t00, detail="bounded: %d evaluations of the contract on the real code" % ev))
    if recs:
        recs[0]["evaluations"] = ev
    return dict(records=recs + fails, functions=funcs)


def pc_infeasible(pc):
    return smt.check(list(pc), 3000) == "unsat"


def cvc5_valid(pc, goal, timeout_ms):
    try:
        import z3

        tr = smt.Tr()
        fs = tr.tr(*(list(pc) + [X.not_(goal)]))
        s = z3.Solver()
        for f in fs + tr.axioms:
            s.add(f)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        r = subprocess.run(["cvc5", "--tlimit=%d" % timeout_ms, "-"], input=txt, capture_output=True, text=True, timeout=timeout_ms / 1000 + 10)
        return r.stdout.strip().startswith("unsat")
    except Exception:
        return False


def refute(pc, q, names, sampler, seed):
    """inputs of the path on which the postcondition fails"""
    if isinstance(q, Eq):
        if isinstance(q.lhs, complex) or isinstance(q.rhs, complex):
            return []
        if q.lhs is None or q.rhs is None:  # memory that was never written
            return []
        terms = [X.lift(q.lhs), X.lift(q.rhs)] + [X.lift(t) for t, _ in q.unless]
        tol = max(q.tol, 1e-9)

        def pred(t):
            if any(u < b * b for u, (_, b) in zip(t[2:], q.unless)):
                return False
            return t[0] != t[0] or t[1] != t[1] or abs(t[0] - t[1]) > 3 * tol * (1 + max(abs(t[0]), abs(t[1])))

        return search.find(list(pc), (terms, pred), names, sampler, seed)
    return search.find(list(pc) + [X.not_(X.liftb(q.cond))], ([], lambda t: True), names, sampler, seed)
