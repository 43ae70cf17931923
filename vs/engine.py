"""Symbolic execution of translated LLVM IR: memory, paths, decisions, goals."""
import copy
import math
import os
import random
import re
import signal
import struct
import sys
import time
from fractions import Fraction
import z3
from . import ir, sym
from .sym import (Sym, Cond, Atom, And_, Not_, Iff_, Z3B, BVar, BV, FP, UNDEF, Undef, Unsupported, neg, cmp0, primitive,
                  pkey, pmul, isnum, constval, qnorm, mk0, andc, qdiv)

M64 = (1 << 64) - 1
SH = 32
OFFM = (1 << SH) - 1


class CxxThrow(Exception):
    def __init__(self, ptr, ti):
        self.ptr = ptr
        self.ti = ti


class PathEnd(BaseException):
    """controlled end of the program: exit/abort/fault/violation"""

    def __init__(self, kind, detail=''):
        self.kind = kind
        self.detail = detail


class StepLimit(BaseException):
    pass


class Overflow(Exception):
    pass


# ------------------------------------------------------------------ z3 statistics
class Stat:
    queries = 0
    z3_time = 0.0
    sat = 0
    unsat = 0
    unknown = 0


ST_ = Stat()


def z3check(solver):
    t = time.time()
    r = solver.check()
    ST_.z3_time += time.time() - t
    ST_.queries += 1
    if r == z3.sat:
        ST_.sat += 1
    elif r == z3.unsat:
        ST_.unsat += 1
    else:
        ST_.unknown += 1
    return r


POS, ZERO, NEG = 4, 2, 1


class Path:
    def __init__(self, prefix=(), model=None, seed=1, mode='real', timeout_ms=4000):
        self.prefix = list(prefix)
        self.imodel = model or {}
        self.decs = []
        self.alts = []
        self.pc = []
        self.vars = []          # (name, kind)
        self.zv = []
        self.bounds = {}
        self.model = {}
        self.facts = {}
        self.subst = {}
        self.special = {}       # var -> Sym for var^2
        self.absof = {}
        self.single = set()     # variables that hold single precision values
        self.spdef = {}         # special var -> ('sqrt', base) | ('abs', base) | ('uf', name, args)
        self.ufs = {}
        self.facs = {}
        self.fkeys = {}
        self.goals = []
        self.badgoal = None
        self.inputs = []        # (kind, var or concrete)
        self.outs = []
        self.zextra = []        # z3 side constraints
        self.rng = random.Random(seed * 7919 + 13)
        self.mode = mode
        self.timeout_ms = timeout_ms
        self.nassert = 0
        self.tags = {}
        self.inconclusive = []
        self.expect_exit = None
        self.expect_abort = False
        self.allocfail = 0
        self.reach = 0
        self.forced_unknown = 0
        self.model_ok = True
        self.discharged = 0
        self.bvuse = False

    warm = None     # a concrete run
    snap = None

    # -------------------------------------------------- variables
    def vname(self, v):
        return self.vars[v][0]

    def newvar(self, name, kind, lo=None, hi=None, value=None):
        i = len(self.vars)
        self.vars.append((name, kind))
        if kind in ('r', 'sqrt', 'abs', 'uf'):
            z = z3.Real('%s_%d' % (name, i))
        elif kind == 'i':
            z = z3.Int('%s_%d' % (name, i))
        elif kind == 'b':
            z = z3.Bool('%s_%d' % (name, i))
        elif kind == 'bv':
            z = z3.BitVec('%s_%d' % (name, i), hi)
        elif kind == 'fp':
            z = z3.FP('%s_%d' % (name, i), sym.D64)
        self.zv.append(z)
        if kind == 'i':
            self.bounds[i] = (lo, hi)
            self.zextra.append(z3.And(z >= lo, z <= hi))
            if lo >= 0:
                self.setfact({(i,): 1}, POS | ZERO if lo == 0 else POS)
        elif kind == 'r' and lo is not None:
            self.zextra.append(z >= z3r(lo))
            if hi is not None:
                self.zextra.append(z <= z3r(hi))
            if lo >= 0:
                self.setfact({(i,): 1}, POS | ZERO if lo == 0 else POS)
            self.bounds[i] = (lo, hi)
        if value is None:
            if i in self.imodel:
                value = self.imodel[i]
            else:
                value = self.pick(i)
        self.model[i] = value
        return i

    def pick(self, i, wide=0):
        kind = self.vars[i][1]
        if kind == 'b':
            return self.rng.random() < 0.5
        if kind == 'bv':
            if wide and self.rng.random() < 0.3:
                return self.rng.getrandbits(64)
            return self.rng.randint(0, 12)
        if kind == 'fp':
            return float(self.rng.choice([0, 1, -1, 2, 0.5, 3, -7, 1e300, 1e-7]))
        b = self.bounds.get(i)
        r = self.rng
        if kind == 'i':
            lo, hi = b
            return r.randint(max(lo, -9 - wide), min(hi, 9 + wide)) if max(lo, -9 - wide) <= min(hi, 9 + wide) else r.randint(lo, min(hi, lo + 20))
        if b:
            lo, hi = b
            if hi is None:
                return lo + r.randint(1, 9)
            return qnorm(Fraction(lo) + (Fraction(hi) - lo) * Fraction(r.randint(1, 7), 8))
        v = r.randint(-9 - wide, 9 + wide)
        if wide and r.random() < 0.2:
            return 0
        return v if v or wide else 5

    def real(self, name='x', lo=None, hi=None):
        return Sym({(self.newvar(name, 'r', lo, hi),): 1})

    def int(self, name, lo, hi):
        return Sym({(self.newvar(name, 'i', lo, hi),): 1})

    # -------------------------------------------------- factors / facts
    def factor(self, p):
        k = pkey(p)
        f = self.fkeys.get(k)
        if f is None:
            f = len(self.facs)
            self.facs[f] = p
            self.fkeys[k] = f
        return f

    def facsign(self, f):
        m = self.signmask(self.facs[f])
        if m == POS or m == POS | ZERO:
            return 1
        if m == NEG or m == NEG | ZERO:
            return -1
        return 0

    def setfact(self, poly, mask):
        c, q = primitive(poly)
        if c < 0:
            mask = ((mask & 1) << 2) | (mask & 2) | (mask >> 2)
        k = pkey(q)
        self.facts[k] = self.facts.get(k, 7) & mask

    def signmask(self, n):
        c, q = primitive(n)
        m = self.facts.get(pkey(q), 7)
        if m == 7 or m == 6 or m == 3 or m == 5:
            m &= self.trivial_sign(q)
        if c < 0:
            m = ((m & 1) << 2) | (m & 2) | (m >> 2)
        return m

    def monosign(self, m):
        """sign mask of a monomial (products of variables)"""
        s = POS
        i = 0
        while i < len(m):
            j = i
            while j < len(m) and m[j] == m[i]:
                j += 1
            v = self.facts.get(frozenset((((m[i],), 1),)), 7)
            if (j - i) % 2 == 0:
                v = POS | (v & ZERO)
            if v == 7 or v == 5:
                if v == 5 and s & ZERO == 0:
                    s = 5
                else:
                    return 7
            else:
                r = 0
                for a in (1, 2, 4):
                    if s & a:
                        for b in (1, 2, 4):
                            if v & b:
                                if a == 2 or b == 2:
                                    r |= 2
                                else:
                                    r |= 4 if a == b else 1
                s = r
            i = j
        return s

    def trivial_sign(self, q):
        if len(q) > 200:
            return 7
        tot = 0
        for m, c in q.items():
            s = self.monosign(m) if m else POS
            if c < 0:
                s = ((s & 1) << 2) | (s & 2) | (s >> 2)
            if tot == 0:
                tot = s
            else:
                r = 0
                for a in (1, 2, 4):
                    if tot & a:
                        for b in (1, 2, 4):
                            if s & b:
                                if a == 2:
                                    r |= b
                                elif b == 2 or a == b:
                                    r |= a
                                else:
                                    r = 7
                tot = r
            if tot == 7:
                return 7
        return tot

    def known(self, a):
        """truth of an atom from syntactic facts, or None"""
        p = a.p
        if self.subst and any(v in self.subst for m in p for v in m):
            s = self.applysub(Sym(p))
            if s.__class__ is not Sym:
                return {'==': s == 0, '!=': s != 0, '<': s < 0, '<=': s <= 0}[a.op]
            return cmp0(s, a.op)
        m = self.signmask(p)
        op = a.op
        if op == '==':
            if m == ZERO:
                return True
            if not m & ZERO:
                return False
        elif op == '!=':
            if m == ZERO:
                return False
            if not m & ZERO:
                return True
        elif op == '<':
            if m == NEG:
                return True
            if not m & NEG:
                return False
        else:
            if not m & POS:
                return True
            if m == POS:
                return False
        return None

    def applysub(self, s):
        if not self.subst or s.__class__ is not Sym:
            return s
        r = self._subpoly(s.n)
        for f, e in s.d:
            fp = self.facs[f]
            if any(v in self.subst for m in fp for v in m):
                q = self._subpoly(fp)
                for _ in range(e):
                    if q.__class__ is Sym:
                        r = sym.inverse(q) * r
                    elif q == 0:
                        return math.nan
                    else:
                        r = r * qdiv(1, q) if r.__class__ is Sym else qdiv(r, q)
            else:
                iv = Sym({(): 1}, ((f, e),))
                r = iv * r
        return r

    def _subpoly(self, n):
        base = {}
        acc = 0
        sub = self.subst
        groups = {}
        for m, c in n.items():
            ev = tuple(v for v in m if v in sub)
            if not ev:
                base[m] = c
            else:
                rest = tuple(v for v in m if v not in sub)
                g = groups.setdefault(ev, {})
                g[rest] = g.get(rest, 0) + c
        acc = mk0(base)
        for ev, g in groups.items():
            t = mk0(g)
            for v in ev:
                t = t * sub[v]
                if t.__class__ is not Sym and t == 0:
                    break
            acc = acc + t
        return acc

    # -------------------------------------------------- z3 lowering
    def z3poly(self, n):
        ts = []
        for m, c in n.items():
            t = None
            for v in m:
                t = self.zv[v] if t is None else t * self.zv[v]
            if t is None:
                t = z3r(c)
            elif c != 1:
                t = z3r(c) * t
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def z3cond(self, c):
        if c.__class__ is bool or c.__class__ is int:
            return z3.BoolVal(bool(c))
        if c.__class__ is Atom:
            p = self.z3poly(c.p)
            return p == 0 if c.op == '==' else (p != 0 if c.op == '!=' else (p < 0 if c.op == '<' else p <= 0))
        if c.__class__ is And_:
            return z3.And(self.z3cond(c.a), self.z3cond(c.b))
        if c.__class__ is Not_:
            return z3.Not(self.z3cond(c.a))
        if c.__class__ is Iff_:
            return self.z3cond(c.a) == self.z3cond(c.b)
        if c.__class__ is Z3B:
            return c.e
        if c.__class__ is BVar:
            return self.zv[c.v]
        raise Unsupported('z3cond')

    def z3side(self):
        r = list(self.zextra)
        for v, d in self.spdef.items():
            z = self.zv[v]
            if d[0] == 'sqrt':
                r += [z >= 0, z * z * self.z3den(d[1]) == self.z3poly(d[1].n)]
            elif d[0] == 'abs':
                x = self.z3sym(d[1])
                r += [z == z3.If(x >= 0, x, -x)]
        return r

    def z3den(self, s):
        r = None
        for f, e in s.d:
            for _ in range(e):
                z = self.z3poly(self.facs[f])
                r = z if r is None else r * z
        return z3.RealVal(1) if r is None else r

    def z3sym(self, s):
        if s.__class__ is Sym:
            if s.d:
                return self.z3poly(s.n) / self.z3den(s)
            return self.z3poly(s.n)
        return z3r(s)

    # -------------------------------------------------- evaluation under a model
    def evalp(self, n, model):
        t = 0
        mag = 0
        fl = False
        for m, c in n.items():
            x = c
            for v in m:
                x = x * model[v]
            if x.__class__ is float:
                fl = True
            t = t + x
            mag += abs(x)
        if fl:
            if abs(t) <= 1e-9 * float(mag):
                return None
        return t

    def evals(self, s, model):
        """numeric value of a Sym under a model (None = not determined)"""
        if s.__class__ is not Sym:
            return s
        n = self.evalp(s.n, model) if s.n else 0
        if n is None:
            return None
        d = 1
        for f, e in s.d:
            x = self.evalp(self.facs[f], model)
            if x is None or x == 0:
                return None
            d = d * x ** e
        if n.__class__ is float or d.__class__ is float:
            return float(n) / float(d)
        return qdiv(n, d)

    def evalc(self, c, model):
        if c.__class__ is bool or c.__class__ is int:
            return bool(c)
        if c.__class__ is Atom:
            v = self.evalp(c.p, model)
            if v is None:
                return None
            return v == 0 if c.op == '==' else (v != 0 if c.op == '!=' else (v < 0 if c.op == '<' else v <= 0))
        if c.__class__ is And_:
            a = self.evalc(c.a, model)
            b = self.evalc(c.b, model)
            if a is False or b is False:
                return False
            if a is None or b is None:
                return None
            return True
        if c.__class__ is Not_:
            a = self.evalc(c.a, model)
            return None if a is None else not a
        if c.__class__ is Iff_:
            a = self.evalc(c.a, model)
            b = self.evalc(c.b, model)
            return None if a is None or b is None else a == b
        if c.__class__ is BVar:
            return bool(model[c.v])
        if c.__class__ is Z3B:
            e = z3.simplify(z3.substitute(c.e, *self.z3model(model)))
            if z3.is_true(e):
                return True
            if z3.is_false(e):
                return False
            return None
        return None

    def z3model(self, model):
        key = id(model)
        r = []
        for i, (nm, k) in enumerate(self.vars):
            v = model.get(i)
            if v is None:
                continue
            if k == 'bv':
                r.append((self.zv[i], z3.BitVecVal(v, self.zv[i].size())))
            elif k == 'fp':
                r.append((self.zv[i], z3.FPVal(v, sym.D64)))
            elif k == 'b':
                r.append((self.zv[i], z3.BoolVal(bool(v))))
            elif k == 'i':
                r.append((self.zv[i], z3.IntVal(int(v))))
        return r

    def complete(self, model):
        """fill eliminated and derived variables; False if impossible"""
        if self.subst:
            self.specials(model)
            for v in range(len(self.vars)):
                if v in self.subst:
                    x = self.evals(self.subst[v], model)
                    if x is None:
                        return False
                    if self.vars[v][1] == 'i' and x.__class__ is not int:
                        return False
                    bd = self.bounds.get(v)
                    if bd:
                        lo, hi = bd
                        if lo is not None and x < lo or hi is not None and x > hi:
                            return False
                    model[v] = x
        return self.specials(model)

    def specials(self, model):
        ok = True
        for v, d in self.spdef.items():
            k = d[0]
            if k == 'uf':
                x = self.evaluf(d, model)
                if x is None:
                    ok = False
                    continue
                model[v] = x
                continue
            x = self.evals(d[1], model)
            if x is None:
                ok = False
                continue
            if k == 'abs':
                model[v] = abs(x)
            elif k == 'sqrt':
                if x < 0:
                    ok = False
                    continue
                model[v] = qsqrt(x)
            elif k == 'fptoint':
                model[v] = int(x)
            elif k == 'iround':
                if x.__class__ is not int:
                    ok = False
                    continue
                model[v] = d[2](x)
            elif k in ('idiv', 'irem'):
                y = self.evals(d[2], model)
                if not y or x.__class__ is not int or y.__class__ is not int:
                    ok = False
                    continue
                q = d[3](x, y)
                model[v] = q if k == 'idiv' else x - q * y
        return ok

    def evaluf(self, d, model):
        xs = [self.evals(a, model) for a in d[2]]
        if any(x is None for x in xs):
            return None
        try:
            f = {'f32': f32, 'f64': float, 'exp': math.exp, 'log': math.log, 'sin': math.sin, 'cos': math.cos, 'pow': math.pow,
                 'tan': math.tan, 'atan2': math.atan2, 'log2': math.log2, 'log10': math.log10, 'tolfn': None,
                 'exp2': lambda x: 2.0 ** x}.get(d[1])
            if f:
                return f(*[float(x) for x in xs])
            return None
        except (ValueError, OverflowError):
            return None

    # -------------------------------------------------- satisfiability
    def search(self, extra, tries=24, prefer=None):
        """look for a model of pc + extra by evaluation; returns model or None"""
        # an equality in extra: solve it for one free variable
        solve = None
        for c in extra:
            if c.__class__ is Atom and c.op == '==':
                solve = self.linvar(c.p)
        kinds = self.vars
        # equalities: values small, structured
        for t in range(tries):
            m = {}
            for v in range(len(kinds)):
                if t == 0 and v in self.model:
                    m[v] = self.model[v]
                elif t < tries // 2 and self.rng.random() < 0.7 and v in self.model and kinds[v][1] not in ('sqrt', 'abs', 'uf'):
                    m[v] = self.model[v]
                else:
                    m[v] = self.pick(v, wide=t // 6)
            order_ok = True
            if solve is not None:
                v, coef, rest = solve
                # coef*v + rest = 0
                if not self.complete(m):
                    continue
                a = self.evalp(coef, m)
                b = self.evalp(rest, m) if rest else 0
                if a is None or b is None or a == 0 or a.__class__ is float or b.__class__ is float:
                    order_ok = False
                else:
                    m[v] = qdiv(-b, a)
                    if kinds[v][1] == 'i' and m[v].__class__ is not int:
                        order_ok = False
                    bb = self.bounds.get(v)
                    if order_ok and bb and (bb[0] is not None and m[v] < bb[0] or bb[1] is not None and m[v] > bb[1]):
                        order_ok = False
            if not order_ok:
                continue
            if not self.complete(m):
                continue
            if all(self.evalc(c, m) is True for c in extra) and all(self.evalc(c, m) is True for c in self.pc) and \
                    self.side_ok(m):
                return m
        return None

    def side_ok(self, m):
        return True

    def linvar(self, p):
        """choose v with p = coef*v + rest, v not in coef; returns (v, coef, rest)"""
        deg = {}
        for m in p:
            for v in set(m):
                d = m.count(v)
                if deg.get(v, 0) < d:
                    deg[v] = d
        best = None
        for v, d in deg.items():
            if d != 1 or v in self.spdef or v in self.subst or self.vars[v][1] not in ('r', 'i'):
                continue
            coef = {}
            for m, c in p.items():
                if v in m:
                    i = m.index(v)
                    coef[m[:i] + m[i + 1:]] = c
            cv = constval(coef)
            if cv is not None:
                score = (0 if self.vars[v][1] == 'r' or abs(cv) == 1 else 1, len(self.vars) - v)
            else:
                mask = self.signmask(coef)
                score = ((2 if not mask & ZERO else 3), len(coef), len(self.vars) - v)
            if best is None or score < best[0]:
                best = (score, v, coef)
        if best is None:
            return None
        v = best[1]
        rest = {m: c for m, c in p.items() if v not in m}
        return v, best[2], rest

    def check(self, extra, timeout=None, want_model=True):
        """('sat', model|None) / ('unsat', None) / ('unknown', None) for pc + extra"""
        for c in extra:
            if c is False:
                return 'unsat', None
        extra = [c for c in extra if c is not True]
        if self.mode == 'real' and not any(c.__class__ is Z3B for c in extra):
            m = self.search(extra)
            if m is not None:
                return 'sat', m
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout_ms)
        for c in self.pc:
            s.add(self.z3cond(c))
        for e in self.z3side():
            s.add(e)
        for c in extra:
            s.add(self.z3cond(c))
        r = z3check(s)
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.unknown:
            m = self.search(extra, 200)
            if m is not None:
                return 'sat', m
            return 'unknown', None
        return 'sat', self.from_z3(s.model())

    def from_z3(self, zm):
        m = dict(self.model)
        for i, (nm, k) in enumerate(self.vars):
            x = zm.eval(self.zv[i], model_completion=False)
            if z3.eq(x, self.zv[i]):
                continue
            try:
                if k in ('r', 'sqrt', 'abs', 'uf'):
                    if z3.is_rational_value(x):
                        m[i] = qnorm(Fraction(x.numerator_as_long(), x.denominator_as_long()))
                    else:
                        a = x.approx(20)
                        m[i] = float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
                elif k == 'i':
                    m[i] = x.as_long()
                elif k == 'b':
                    m[i] = z3.is_true(x)
                elif k == 'bv':
                    m[i] = x.as_long()
                elif k == 'fp':
                    m[i] = fpval(x)
            except Exception:
                pass
        return m

    # -------------------------------------------------- decisions
    def resolve(self, c):
        if c.__class__ is bool or c.__class__ is int:
            return bool(c)
        if c.__class__ is Atom:
            r = self.known(c)
            return c if r is None else (r if isinstance(r, Cond) else bool(r))
        if c.__class__ is And_:
            a = self.resolve(c.a)
            if a is False:
                return False
            b = self.resolve(c.b)
            if b is False:
                return False
            if a is True:
                return b
            if b is True:
                return a
            return And_(a, b)
        if c.__class__ is Not_:
            a = self.resolve(c.a)
            if a.__class__ is bool:
                return not a
            return neg(a)
        if c.__class__ is Iff_:
            a = self.resolve(c.a)
            b = self.resolve(c.b)
            if a.__class__ is bool:
                return b if a else (neg(b) if b.__class__ is not bool else not b)
            if b.__class__ is bool:
                return a if b else neg(a)
            return Iff_(a, b)
        return c

    def decide(self, c):
        c = self.resolve(c)
        if c.__class__ is bool:
            return c
        i = len(self.decs)
        if i < len(self.prefix):
            v = bool(self.prefix[i])
            self.decs.append(int(v))
            c = c if v else neg(c)
            if self.evalc(c, self.model) is not True:
                self.model_ok = False
            self.assume(c)
            return v
        check_time()
        self.fixmodel()
        mv = self.evalc(c, self.model)
        nc = neg(c)
        if mv is None:
            st, m = self.check([c])
            if st == 'unsat':
                mv = False
                st2 = 'unsat'
            else:
                mv = True
                if m:
                    self.model.update(m)
                st2, m2 = self.check([nc])
        else:
            st2, m2 = self.check([nc if mv else c])
        if st2 != 'unsat':
            self.alts.append((self.decs + [int(not mv)], m2))
            if st2 == 'unknown':
                self.forced_unknown += 1
        self.decs.append(int(mv))
        self.assume(c if mv else nc)
        return mv

    def choose(self, n):
        """n-way nondeterministic choice (exhaustive)"""
        if self.warm is not None:
            k = self.warmk
            return n - 1 if k < 4 else 0 if k < 8 and k & 1 else self.warm.randrange(n)
        i = len(self.decs)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.decs.append(v)
            return v
        for k in range(n - 1, 0, -1):
            self.alts.append((self.decs + [k], dict(self.model)))
        self.decs.append(0)
        return 0

    def assume(self, c):
        c = self.resolve(c)
        if c is True:
            return
        if c is False:
            raise PathEnd('infeasible')
        if c.__class__ is And_:
            self.assume(c.a)
            self.assume(c.b)
            return
        if c.__class__ is Not_ and c.a.__class__ is Not_:
            self.assume(c.a.a)
            return
        self.pc.append(c)
        if c.__class__ is Atom:
            self.setfact(c.p, {'==': ZERO, '!=': NEG | POS, '<': NEG, '<=': NEG | ZERO}[c.op])
            if c.op == '==' or self.signmask(c.p) == ZERO:
                self.eliminate(c.p)

    def cyclic(self, v, p):
        """does a square root (or ...) in p depend on v?"""
        def vars_of(x):
            for m in x.n:
                yield from m
            for f, _ in x.d:
                for m in self.facs[f]:
                    yield from m
        seen = set()
        todo = [w for m in p for w in m if w in self.special]
        while todo:
            w = todo.pop()
            if w in seen:
                continue
            seen.add(w)
            for b in (self.special.get(w), self.subst.get(w)):
                if b.__class__ is not Sym:
                    continue
                for u in vars_of(b):
                    if u == v:
                        return True
                    if u in self.special or u in self.subst:
                        todo.append(u)
        return False

    def eliminate(self, p):
        if any(v in self.subst for m in p for v in m):
            s = self.applysub(Sym(p))
            if s.__class__ is not Sym:
                return
            p = s.n
        lv = self.linvar(p)
        if lv is None:
            return
        v, coef, rest = lv
        cv = constval(coef)
        if cv is None and self.signmask(coef) & ZERO:
            return
        if len(p) > 400:
            return
        if self.special and self.cyclic(v, p):
            return
        r = mk0(pmul(rest, {(): -1})) if rest else 0
        if cv is not None:
            e = r * qdiv(1, cv) if r.__class__ is Sym else qdiv(r, cv)
        else:
            e = sym.inverse(mk0(coef)) * r if not (isnum(r) and r == 0) else 0
        self.subst[v] = e
        for w in list(self.subst):
            x = self.subst[w]
            if w != v and x.__class__ is Sym and (any(v in m for m in x.n) or any(v in m for f, _ in x.d for m in self.facs[f])):
                self.subst[w] = self.applysub(x)

    def fixmodel(self):
        """make self.model a model of the path condition (after a prefix was replayed)"""
        if self.model_ok:
            return
        st, m = self.check([])
        if st == 'unsat':
            raise PathEnd('infeasible')
        if m:
            self.model.update(m)
            self.model_ok = True
        else:
            self.forced_unknown += 1
            self.model_ok = True
            self.tags['nomodel'] = 1

    def z3margin(self, c, d, le):
        """a condition stronger than c: strict comparisons hold with a margin"""
        if c.__class__ is Atom:
            p = self.z3poly(c.p)
            if c.op == '!=':
                return z3.Or(p <= -d, p >= d)
            if c.op == '<' or c.op == '<=' and le:
                return p <= -d
        if c.__class__ is And_:
            return z3.And(self.z3margin(c.a, d, le), self.z3margin(c.b, d, le))
        return self.z3cond(c)

    def altmodels(self):
        """further models of the violating path, away from its boundaries, for the native replay"""
        out = []
        bad = [self.badgoal] if self.badgoal is not None else []
        for d, le in ((Fraction(1, 4), True), (Fraction(1, 100), False), (Fraction(1, 100000), False)):
            s = z3.Solver()
            s.set('timeout', 2000)
            for c in self.pc:
                s.add(self.z3margin(c, z3r(d), le))
            for e in self.z3side():
                s.add(e)
            for c in bad:
                s.add(self.z3margin(c, z3r(d), le))
            if z3check(s) == z3.sat:
                out.append(self.from_z3(s.model()))
        if self.tags.get('narrow'):
            # values that single precision cannot represent
            for k in (1, 2, 3):
                m = dict(self.model)
                for v, x in list(m.items()):
                    if v not in self.spdef and self.vars[v][1] == 'i' and v not in self.subst and self.bounds.get(v) and self.bounds[v][1] is not None and self.bounds[v][1] > 1 << 54:
                        # and integers that floating point cannot represent
                        y = (1 << 54) + 4 * (abs(int(x)) % 1000) + 2 * k + 1
                        m[v] = -y if x < 0 else y
                    if v not in self.spdef and self.vars[v][1] == 'r' and v not in self.subst:
                        m[v] = Fraction(float(x * (1 + Fraction(k, 1000003)) + Fraction(k, 777))) if isnum(x) else x
                if self.complete(m):
                    out.append(m)
        return out + self.othermodels(bad)

    def othermodels(self, extra=()):
        """small round values that satisfy the path condition"""
        out = []
        for k in range(3):
            m = self.search(list(extra), 40)
            if m is not None:
                out.append(m)
        return out

    # -------------------------------------------------- properties
    def violate(self, msg, model=None):
        if model:
            self.model.update(model)
        raise PathEnd('violation', msg)

    def msg(self, m):
        return m if m.__class__ is str else readcstr(m)

    def goal_cond(self, c, msg):
        self.nassert += 1
        if c.__class__ is Undef:
            self.undef_use()
        if c.__class__ is Sym or c.__class__ is BV:
            c = c != 0
        c = self.resolve(c) if isinstance(c, Cond) else bool(c)
        if c is True:
            self.discharged += 1
            return
        self.fixmodel()
        if c is False:
            self.violate(self.msg(msg))
        self.badgoal = neg(c)
        if self.evalc(c, self.model) is False:
            self.violate(self.msg(msg))
        st, m = self.check([self.badgoal], timeout=self.timeout_ms * 3)
        if st == 'sat':
            self.violate(self.msg(msg), m)
        if st == 'unknown':
            self.inconclusive.append(self.msg(msg))
        self.badgoal = None
        self.assume(c)

    def goal_eq(self, a, b, msg, integer=False):
        self.nassert += 1
        if a.__class__ is Undef or b.__class__ is Undef:
            raise PathEnd('fault', 'use of an uninitialised value (in: %s)' % self.msg(msg))
        if isinstance(a, Cond) or isinstance(b, Cond):
            if not (isinstance(a, Cond) and isinstance(b, Cond)):
                a, b = (int(bool(a)) if isinstance(a, Cond) else a), (int(bool(b)) if isinstance(b, Cond) else b)
            return self.goal_cond(a == b, msg)
        if a.__class__ is FP or b.__class__ is FP:
            ea, eb = sym.fpc(a), sym.fpc(b)
            return self.goal_cond(sym.zb(z3.Or(z3.fpEQ(ea, eb), z3.And(z3.fpIsNaN(ea), z3.fpIsNaN(eb)))), msg)
        if a.__class__ is BV or b.__class__ is BV:
            return self.goal_cond(a == b, msg)
        if a.__class__ is not Sym and b.__class__ is not Sym:
            if integer:
                a, b = SX(int(a) & M64, 64), SX(int(b) & M64, 64)
            if a == b or (a != a and b != b):
                self.discharged += 1
                return
            if (a.__class__ is float or b.__class__ is float) and self.mode == 'real' and a == a and b == b and \
                    not math.isinf(a) and not math.isinf(b) and abs(float(a) - float(b)) <= 1e-9 * max(1, abs(float(a))):
                self.discharged += 1
                return
            self.fixmodel()
            self.violate(self.msg(msg) + ': %s vs %s' % (a, b))
        if a.__class__ is float or b.__class__ is float:
            self.fixmodel()
            self.violate(self.msg(msg) + ': %s vs %s' % (a, b))
        if integer:
            a = SX(a, 64) if a.__class__ is int else a
            b = SX(b, 64) if b.__class__ is int else b
        d = self.applysub(a - b)
        if d.__class__ is not Sym:
            if d == 0:
                self.goals.append((a, b))
                self.discharged += 1
                return
            self.fixmodel()
            self.violate(self.msg(msg) + ': the two sides differ by %s' % d)
        c = cmp0(d, '==')
        if c is True:
            self.goals.append((a, b))
            self.discharged += 1
            return
        self.goal_cond(c, msg)

    def finish(self):
        """hand the equalities closed by normalisation to the solver once more"""
        gs = []
        n = 0
        self.badgoal = None
        for a, b in self.goals:
            k = sum(len(x.n) for x in (a, b) if x.__class__ is Sym)
            if k > 400 or n + k > 3000:
                continue
            n += k
            gs.append((a, b))
        if not gs:
            return
        s = z3.Solver()
        s.set('timeout', 2000)
        ne = []
        for a, b in gs:
            if a.__class__ is Sym and b.__class__ is Sym and a.d == b.d:
                ne.append(self.z3poly(a.n) != self.z3poly(b.n))
            else:
                # cross-multiplied: denominators are nonzero on this path
                da = self.z3den(a) if a.__class__ is Sym else z3.IntVal(1)
                db = self.z3den(b) if b.__class__ is Sym else z3.IntVal(1)
                za = self.z3poly(a.n) if a.__class__ is Sym else z3r(a)
                zb_ = self.z3poly(b.n) if b.__class__ is Sym else z3r(b)
                ne.append(za * db != zb_ * da)
        if self.subst or self.spdef:
            for c in self.pc:
                s.add(self.z3cond(c))
            for e in self.z3side():
                s.add(e)
        s.add(z3.Or(ne))
        r = z3check(s)
        if r == z3.sat:
            self.inconclusive.append('solver disagrees with the normal form of an equality')
        elif r == z3.unknown:
            self.tags['norm_only'] = self.tags.get('norm_only', 0) + len(gs)
        else:
            self.tags['z3_confirmed'] = self.tags.get('z3_confirmed', 0) + len(gs)

    def concrete_inputs(self, model=None):
        m = dict(self.model) if model is None else model
        out = []
        for k, v in self.inputs:
            if v.__class__ is Sym:
                x = self.evals(v, m)
            elif isinstance(v, BVar):
                x = int(bool(m[v.v]))
            elif v.__class__ is BV or v.__class__ is FP:
                i = next(j for j, z in enumerate(self.zv) if z3.eq(z, v.e))
                x = m[i]
            else:
                x = v
            if k == 'd':
                out.append('d ' + float(x).hex() if x == x else 'd nan')
            else:
                out.append('%s %d' % (k, x))
        return out

    def vassume(self, c):
        """assumption of the harness"""
        if isinstance(c, Cond):
            c = self.resolve(c)
        if not isinstance(c, Cond):
            if not c:
                raise PathEnd('infeasible')
            return
        mv = self.evalc(c, self.model)
        if mv is not True:
            st, m = self.check([c])
            if st == 'unsat':
                raise PathEnd('infeasible')
            if m:
                self.model.update(m)
        self.assume(c)

    def undef_use(self):
        raise PathEnd('fault', 'use of an uninitialised value')

    def overflow(self, w):
        raise Unsupported('integer result may leave the %d-bit range within the input bounds' % w)


def qsqrt(x):
    if x.__class__ is float:
        return math.sqrt(x)
    f = Fraction(x)
    a = math.isqrt(f.numerator)
    b = math.isqrt(f.denominator)
    if a * a == f.numerator and b * b == f.denominator:
        return qnorm(Fraction(a, b))
    return math.sqrt(f)


def z3r(c):
    if c.__class__ is Fraction:
        return z3.Q(c.numerator, c.denominator)
    if c.__class__ is float:
        f = Fraction(c)
        return z3.Q(f.numerator, f.denominator)
    return z3.RealVal(int(c)) if False else z3.IntVal(int(c))


def fpval(x):
    if z3.is_fp_value(x) or True:
        s = x
        if s.isNaN():
            return math.nan
        if s.isInf():
            return -math.inf if s.isNegative() else math.inf
        bv = z3.simplify(z3.fpToIEEEBV(s))
        import struct
        return struct.unpack('>d', bv.as_long().to_bytes(8, 'big'))[0]


DEADLINE = [0.0]


def check_time():
    if DEADLINE[0] and time.time() > DEADLINE[0]:
        raise StepLimit()


# ------------------------------------------------------------------ memory
M1, M2, M4, M8 = {}, {}, {}, {}
MM = {1: M1, 2: M2, 4: M4, 8: M8}


class Obj:
    __slots__ = ('size', 'kind', 'alive', 'cells', 'name', 'id')

    def __init__(self, i, size, kind, name):
        self.id = i
        self.size = size
        self.kind = kind
        self.alive = True
        self.cells = []
        self.name = name


OBJ = {}
NEXT = [0]
CT = [0, 0]
GMAX = [16]


def fault(kind, detail=''):
    raise PathEnd('fault', kind + (': ' + detail if detail else ''))


def newobj(size, kind, name=''):
    if size.__class__ is not int:
        size = concretize(size)
    if size < 0 or size > (1 << 31):
        raise Unsupported('allocation of %d bytes' % size)
    i = NEXT[0]
    NEXT[0] = i + 1
    OBJ[i] = Obj(i, size, kind, name)
    return i << SH


def freeobj(base):
    o = OBJ[base >> SH]
    o.alive = False
    for d, a in o.cells:
        d.pop(a, None)
    o.cells = None


def concretize(a):
    """turn a symbolic integer into a concrete one by case split"""
    p = sym.P()
    if a.__class__ is bool:
        return int(a)
    if isinstance(a, Cond):
        return int(bool(a))
    if a.__class__ is Undef:
        p.undef_use()
    if a.__class__ is Sym:
        lo, hi = sym.irange(a.n)
        if hi - lo > 64:
            # usually a small size that the path condition bounds
            ks = [m for m in a.n if m]
            if len(ks) == 1 and len(ks[0]) == 1:
                x = Sym({ks[0]: 1})
                for v in range(40):
                    if bool(x == v):
                        return (a.n[ks[0]] * v + a.n.get((), 0)) & M64
            for v in range(max(lo, 0), max(lo, 0) + 40):
                if bool(a == v):
                    return v & M64
            raise Unsupported("symbolic address or size with a large range %s" % a)
        for v in range(lo, hi):
            if bool(a == v):
                return v & M64
        if bool(a == hi):
            return hi & M64
        raise PathEnd('infeasible')
    if a.__class__ is Fraction or a.__class__ is float:
        raise Unsupported('non-integer used as integer')
    raise Unsupported('symbolic address or size')


def addr_check(a, size, what):
    if a.__class__ is not int:
        a = concretize(a)
    o = OBJ.get(a >> SH)
    off = a & OFFM
    if o is None:
        if a < (16 << SH):
            fault('null pointer %s' % what)
        fault('wild pointer %s' % what)
    if not o.alive:
        fault('%s after the end of lifetime of %s object %s' % (what, o.kind, o.name))
    if off + size > o.size:
        fault('out-of-bounds %s at offset %d of %d-byte %s object %s' % (what, sx(off, 32), o.size, o.kind, o.name))
    return a, o


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def LD(a, size):
    a0 = a
    a, o = addr_check(a, size, 'read')
    r = MM[size].get(a)
    if r is not None:
        return r
    # assemble from other sizes
    if o.kind == 'fn':
        fault('read of code')
    val = 0
    got = 0
    i = 0
    while i < size:
        hit = False
        for sz in (8, 4, 2, 1):
            # a cell of size sz covering byte a+i
            for back in range(0, sz):
                c = MM[sz].get(a + i - back)
                if c is not None:
                    if c.__class__ is bool:
                        c = int(c)
                    if c.__class__ is Undef:
                        return UNDEF
                    if c.__class__ is not int:
                        if c.__class__ is Fraction or isinstance(c, (Sym, Cond, BV)):
                            raise Unsupported('partial read of a symbolic cell')
                        raise Unsupported('partial read')
                    b = (c >> (8 * back)) & 0xff
                    val |= b << (8 * i)
                    hit = True
                    got += 1
                    break
            if hit:
                break
        i += 1
    if got == 0:
        return UNDEF
    if got < size:
        return UNDEF
    return val


def clear_range(a, size, o):
    """remove the cells overlapping [a,a+size), splitting concrete ones"""
    for sz in (8, 4, 2, 1):
        d = MM[sz]
        for b in range(a - sz + 1, a + size):
            c = d.get(b)
            if c is None:
                continue
            del d[b]
            if b >= a and b + sz <= a + size:
                continue
            if c.__class__ is bool:
                c = int(c)
            if c.__class__ is Undef:
                continue
            if c.__class__ is not int:
                raise Unsupported('partial overwrite of a symbolic cell')
            for k in range(sz):
                x = b + k
                if x < a or x >= a + size:
                    M1[x] = (c >> (8 * k)) & 0xff
                    o.cells.append((M1, x))


def ST(a, size, v):
    a, o = addr_check(a, size, 'write')
    if o.kind == 'const':
        fault('write to constant object %s' % o.name)
    d = MM[size]
    if a in d:
        d[a] = v
        return
    clear_range(a, size, o)
    d[a] = v
    o.cells.append((d, a))


def MEMCPY(dst, src, n):
    if n.__class__ is not int:
        n = concretize(n)
    if n == 0:
        return dst
    src, so = addr_check(src, n, 'read (block copy)')
    dst, do = addr_check(dst, n, 'write (block copy)')
    cells = []
    i = 0
    while i < n:
        for sz in (8, 4, 2, 1):
            if i + sz <= n:
                c = MM[sz].get(src + i)
                if c is not None:
                    cells.append((i, sz, c))
                    i += sz
                    break
        else:
            # maybe inside a bigger cell: byte read
            c = None
            for sz in (8, 4, 2):
                for back in range(1, sz):
                    if MM[sz].get(src + i - back) is not None:
                        c = LD(src + i, 1)
            if c is not None:
                cells.append((i, 1, c))
            i += 1
    clear_range(dst, n, do)
    for i, sz, c in cells:
        d = MM[sz]
        d[dst + i] = c
        do.cells.append((d, dst + i))
    return dst


def MEMSET(dst, v, n):
    if n.__class__ is not int:
        n = concretize(n)
    if n == 0:
        return dst
    dst, do = addr_check(dst, n, 'write (block fill)')
    clear_range(dst, n, do)
    v = v & 0xff
    i = 0
    while i < n:
        if n - i >= 8 and (dst + i) % 8 == 0:
            M8[dst + i] = v * 0x0101010101010101
            do.cells.append((M8, dst + i))
            i += 8
        else:
            M1[dst + i] = v
            do.cells.append((M1, dst + i))
            i += 1
    return dst


def LDAGG(a, t):
    if t.k == 'st':
        return tuple(LDT(a + o, e) for o, e in zip(t.offs, t.elems))
    e = t.elems[0]
    return tuple(LDT(a + i * e.size, e) for i in range(t.n))


def LDT(a, t):
    if t.k in ('st', 'arr', 'vec'):
        return LDAGG(a, t)
    if t.size in MM:
        r = MM[t.size].get(a)
        return LD(a, t.size) if r is None else r
    return LDX(a, t.size, t.k)


def STAGG(a, v, t):
    if v.__class__ is Undef:
        return
    if t.k == 'st':
        for o, e, x in zip(t.offs, t.elems, v):
            STT(a + o, x, e)
    else:
        e = t.elems[0]
        for i in range(t.n):
            STT(a + i * e.size, v[i], e)


def STT(a, v, t):
    if t.k in ('st', 'arr', 'vec'):
        STAGG(a, v, t)
    elif t.size in MM:
        ST(a, t.size, v)
    else:
        STX(a, t.size, v)


def LDX(a, size, k):
    """16-byte scalars (i128, x86_fp80) are kept in the 8-byte cell at the base"""
    a, o = addr_check(a, size, 'read')
    r = M8.get(a)
    if r.__class__ is tuple and r[0] == 'X':
        return r[1]
    raise Unsupported('wide load')


def STX(a, size, v):
    a, o = addr_check(a, size, 'write')
    clear_range(a, size, o)
    M8[a] = ('X', v)
    o.cells.append((M8, a))


def ALLOCA(size, fr, name):
    b = newobj(size, 'stack', name)
    fr.append(b)
    return b


def FREEFR(fr):
    for b in fr:
        o = OBJ[b >> SH]
        o.alive = False
        for d, a in o.cells:
            d.pop(a, None)
        o.cells = None


def BYVAL(p, size):
    b = newobj(size, 'stack', 'byval')
    MEMCPY(b, p, size)
    return b


def readcstr(a):
    out = bytearray()
    while True:
        c = M1.get(a)
        if c is None:
            c = LD(a, 1)
        if c.__class__ is not int:
            raise Unsupported('symbolic C string')
        if c == 0:
            return bytes(out).decode('latin-1')
        out.append(c)
        a += 1


# ------------------------------------------------------------------ integer helpers
def TRUNC(a, f, t):
    if a.__class__ is int:
        return a & ((1 << t) - 1)
    if a.__class__ is bool or isinstance(a, Cond) or a.__class__ is Undef:
        return a
    if a.__class__ is BV:
        return BV(z3.Extract(t - 1, 0, a.e))
    if a.__class__ is Sym:
        lo, hi = sym.irange(a.n)
        if lo < -(1 << (t - 1)) or hi >= (1 << (t - 1)):
            if t == 1 and lo >= 0 and hi <= 1:
                return a == 1
            return wrapped(a, t)
        return a
    raise Unsupported('trunc')


def wrapped(a, t):
    """an integer reduced to the signed range of t bits"""
    p = sym.P()
    key = ('wrap', pkey(a.n), a.d, t)
    if key in p.ufs:
        return p.ufs[key]
    M, H = 1 << t, 1 << (t - 1)
    lo, hi = sym.irange(a.n)

    def fl(x, y):
        return (x + H) // M
    av = p.evals(a, p.model)
    qv = 0 if av is None else fl(int(av), M)
    iq = p.newvar('q', 'i', fl(lo, M), fl(hi, M), qv)
    iw = p.newvar('wrap', 'i', -H, H - 1, 0 if av is None else int(av) - M * qv)
    p.zextra.append(p.z3sym(a) == p.zv[iw] + M * p.zv[iq])
    p.spdef[iq] = ('idiv', a, M, fl)
    p.spdef[iw] = ('irem', a, M, fl)
    p.ufs[key] = Sym({(iw,): 1})
    return p.ufs[key]


def ZEXT(a, f, t):
    if a.__class__ is int or a.__class__ is bool:
        return a
    if isinstance(a, Cond) or a.__class__ is Undef:
        return a
    if a.__class__ is BV:
        return BV(z3.ZeroExt(t - a.e.size(), a.e))
    if a.__class__ is Sym:
        lo, hi = sym.irange(a.n)
        if lo < 0:
            if bool(a < 0):
                return (a + (1 << f)) & ((1 << t) - 1)
        return a
    raise Unsupported('zext')


def SEXT(a, f, t):
    if a.__class__ is bool:
        a = int(a)
    if a.__class__ is int:
        if f == 1:
            return ((1 << t) - 1) if a & 1 else 0
        return a if not a >> (f - 1) else (a - (1 << f)) & ((1 << t) - 1)
    if isinstance(a, Cond):
        return ((1 << t) - 1) if bool(a) else 0
    if a.__class__ is BV:
        return BV(z3.SignExt(t - a.e.size(), a.e))
    return a


def SX(a, f):
    if a.__class__ is int:
        return a - (1 << f) if a >> (f - 1) else a
    return a


def sgn(a, w):
    if a.__class__ is int:
        return a - (1 << w) if a >> (w - 1) else a
    if a.__class__ is bool:
        return int(a)
    if isinstance(a, Cond):
        return int(bool(a))
    return a


def SLT(a, b, w):
    if a.__class__ is BV or b.__class__ is BV:
        a, b = bvs(a, b, w)
        return sym.zb(a < b)
    return sgn(a, w) < sgn(b, w)


def SLE(a, b, w):
    if a.__class__ is BV or b.__class__ is BV:
        a, b = bvs(a, b, w)
        return sym.zb(a <= b)
    return sgn(a, w) <= sgn(b, w)


def bvs(a, b, w):
    a = a.e if a.__class__ is BV else z3.BitVecVal(int(a), w)
    b = b.e if b.__class__ is BV else z3.BitVecVal(int(b), w)
    return a, b


def ULT(a, b, w):
    if a.__class__ is Sym or b.__class__ is Sym:
        for x in (a, b):
            if x.__class__ is Sym and sym.irange(x.n)[0] < 0:
                if bool(x < 0):
                    return _uadj(a, w) < _uadj(b, w)
    return a < b


def _uadj(a, w):
    if a.__class__ is Sym:
        return a + (1 << w) if bool(a < 0) else a
    return a


def ULE(a, b, w):
    if a.__class__ is Sym or b.__class__ is Sym:
        for x in (a, b):
            if x.__class__ is Sym and sym.irange(x.n)[0] < 0:
                if bool(x < 0):
                    return _uadj(a, w) <= _uadj(b, w)
    return a <= b


def XOR1(a, b):
    if b.__class__ is int or b.__class__ is bool:
        if not isinstance(a, Cond):
            if a.__class__ is Undef:
                return a
            return a ^ b
        return neg(a) if b & 1 else a
    if a.__class__ is int or a.__class__ is bool:
        return XOR1(b, a)
    if isinstance(a, Cond) and isinstance(b, Cond):
        return neg(sym.iff(a, b))
    return UNDEF


def XORN(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return a ^ b
    if a.__class__ is BV or b.__class__ is BV:
        return a ^ b
    if b.__class__ is int or b.__class__ is bool:
        if b == 0:
            return a
        if b == (1 << w) - 1 and a.__class__ is Sym:
            return (-1 - a)
        if b == 1 and isinstance(a, Cond):
            return neg(a)
    if isinstance(a, Cond) or isinstance(b, Cond):
        if isinstance(a, Cond) and isinstance(b, Cond):
            return neg(sym.iff(a, b))
        return int(a) ^ int(b)
    if a.__class__ is Undef or b.__class__ is Undef:
        return UNDEF
    return a ^ b


def SHL(a, b, w):
    if b.__class__ is not int:
        b = concretize(b)
    if a.__class__ is BV:
        return BV(a.e << b)
    if b >= w:
        return 0
    return (a * (1 << b)) & ((1 << w) - 1)


def LSHR(a, b, w):
    if b.__class__ is not int:
        b = concretize(b)
    if a.__class__ is BV:
        return BV(z3.LShR(a.e, b))
    if isinstance(a, Cond):
        a = int(a)
    if a.__class__ is Sym:
        return UDIV(a, 1 << b, w)
    return a >> b


def ASHR(a, b, w):
    if b.__class__ is not int:
        b = concretize(b)
    if a.__class__ is BV:
        return BV(a.e >> b)
    if a.__class__ is Sym:
        return intdiv(a, 1 << b, True)[0]
    return (sgn(a, w) >> b) & ((1 << w) - 1)


def divzero(b):
    if b.__class__ is int:
        if b == 0:
            raise PathEnd('fault', 'integer division by zero')
    elif bool(b == 0):
        raise PathEnd('fault', 'integer division by zero')


def intdiv(a, b, floor=False):
    """fresh quotient/remainder of symbolic integers (C semantics: truncation)"""
    p = sym.P()
    # exact polynomial multiples
    if a.__class__ is Sym and isnum(b):
        if all(c % b == 0 for c in a.n.values()):
            return mk0({m: c // b for m, c in a.n.items()}), 0
    if a.__class__ is Sym and b.__class__ is Sym:
        q = sym.pdivex(a.n, b.n)
        if q is not None and all(c.__class__ is int for c in q.values()):
            return mk0(q), 0
    key = ('div', floor, a.__class__ is Sym and pkey(a.n) or a, b.__class__ is Sym and pkey(b.n) or b)
    if key in p.ufs:
        return p.ufs[key]
    la, ha = sym.irange(a.n) if a.__class__ is Sym else (a, a)
    lb, hb = sym.irange(b.n) if b.__class__ is Sym else (b, b)
    mx = max(abs(la), abs(ha))
    av = p.evals(a, p.model)
    bv = p.evals(b, p.model)

    def tdiv(x, y):
        if floor:
            return x // y
        return abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
    qv = rv = 0
    if av is not None and bv:
        qv = tdiv(int(av), int(bv))
        rv = int(av) - qv * int(bv)
    mb = max(abs(lb), abs(hb))
    iq = p.newvar('q', 'i', -mx - 1, mx + 1, qv)
    ir_ = p.newvar('rem', 'i', -mb, mb, rv)
    q = Sym({(iq,): 1})
    r = Sym({(ir_,): 1})
    zq, zr = p.zv[iq], p.zv[ir_]
    za = p.z3sym(a) if a.__class__ is Sym else z3.IntVal(a)
    zbb = p.z3sym(b) if b.__class__ is Sym else z3.IntVal(b)
    p.zextra.append(za == zbb * zq + zr)
    ab = z3.If(zbb >= 0, zbb, -zbb)
    if floor:
        p.zextra.append(z3.And(zr >= 0, zr < ab))
    else:
        p.zextra.append(z3.If(za >= 0, z3.And(zr >= 0, zr < ab), z3.And(zr <= 0, -zr < ab)))
    p.spdef[iq] = ('idiv', a, b, tdiv)
    p.spdef[ir_] = ('irem', a, b, tdiv)
    p.ufs[key] = (q, r)
    # r = a - b*q as a rewriting: keep q primary
    p.ufs[key] = (q, a - b * q)
    return p.ufs[key]


def UDIV(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        if b == 0:
            divzero(b)
        return a // b
    if a.__class__ is BV or b.__class__ is BV:
        divzero(b)
        x, y = bvs(a, b, w)
        return BV(z3.UDiv(x, y))
    divzero(b)
    a = int(a) if isinstance(a, Cond) else a
    return intdiv(_uadj(a, w), _uadj(b, w))[0]


def UREM(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        if b == 0:
            divzero(b)
        return a % b
    if a.__class__ is BV or b.__class__ is BV:
        divzero(b)
        x, y = bvs(a, b, w)
        return BV(z3.URem(x, y))
    divzero(b)
    a = int(a) if isinstance(a, Cond) else a
    return intdiv(_uadj(a, w), _uadj(b, w))[1]


def SDIV(a, b, w):
    a, b = sgn(a, w), sgn(b, w)
    divzero(b)
    if a.__class__ is int and b.__class__ is int:
        q = abs(a) // abs(b)
        return (q if (a >= 0) == (b >= 0) else -q) & ((1 << w) - 1)
    if a.__class__ is BV or b.__class__ is BV:
        x, y = bvs(a, b, w)
        return BV(x / y)
    return intdiv(a, b)[0]


def SREM(a, b, w):
    a, b = sgn(a, w), sgn(b, w)
    divzero(b)
    if a.__class__ is int and b.__class__ is int:
        r = abs(a) % abs(b)
        return (r if a >= 0 else -r) & ((1 << w) - 1)
    if a.__class__ is BV or b.__class__ is BV:
        x, y = bvs(a, b, w)
        return BV(z3.SRem(x, y))
    return intdiv(a, b)[1]


def SELB(c, a, b):
    if c.__class__ is bool or c.__class__ is int:
        return a if c & 1 else b
    if isinstance(c, Cond):
        ca = a.__class__ is bool or a.__class__ is int
        cb = b.__class__ is bool or b.__class__ is int
        if ca and cb:
            if (a & 1) == (b & 1):
                return a
            return c if a & 1 else neg(c)
        if cb and not b & 1:
            return andc(c, a)
        if ca and a & 1:
            return neg(andc(neg(c), neg(b)))
        if ca and not a & 1:
            return andc(neg(c), b)
        if cb and b & 1:
            return neg(andc(c, neg(a)))
    return a if c else b


def IINTR(k, w, *a):
    if k in ('umax', 'umin', 'smax', 'smin'):
        x, y = a[0], a[1]
        lt = (ULT(x, y, w) if k[0] == 'u' else SLT(x, y, w))
        if k.endswith('max'):
            return y if lt else x
        return x if lt else y
    if k == 'abs':
        x = sgn(a[0], w)
        return (-x) & ((1 << w) - 1) if x < 0 else x
    if a[0].__class__ is not int:
        raise Unsupported(k)
    x = a[0]
    if k == 'ctpop':
        return bin(x).count('1')
    if k == 'ctlz':
        return w - x.bit_length()
    if k == 'cttz':
        return w if x == 0 else (x & -x).bit_length() - 1
    return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')


def OVF(k, w, a, b):
    if k[0] == 's':
        a, b = sgn(a, w), sgn(b, w)
    r = a + b if k.endswith('add') else (a - b if k.endswith('sub') else a * b)
    if r.__class__ is not int:
        if r.__class__ is Sym:
            return (r, 0)
        raise Unsupported('overflow intrinsic')
    m = (1 << w) - 1
    if k[0] == 's':
        o = not (-(1 << (w - 1)) <= r < (1 << (w - 1)))
    else:
        o = r < 0 or r > m
    return (r & m, int(o))


def INSV(a, b, ix, n):
    if a.__class__ is not tuple:
        a = (UNDEF,) * n
    l = list(a)
    if len(ix) == 1:
        l[ix[0]] = b
    else:
        l[ix[0]] = INSV(l[ix[0]], b, ix[1:], ix[1] + 1)
    return tuple(l)


def VECBIN(op, w, a, b):
    f = {'fadd': lambda x, y: x + y, 'fsub': lambda x, y: x - y, 'fmul': lambda x, y: x * y, 'fdiv': sym.fdiv}.get(op)
    if f is None:
        raise Unsupported('vector ' + op)
    return tuple(f(x, y) for x, y in zip(a, b))


# ------------------------------------------------------------------ floating point helpers
def FREM(a, b):
    if a.__class__ in (int, Fraction) and b.__class__ in (int, Fraction) and b != 0:
        q = Fraction(a) / b
        t = int(q)
        return qnorm(Fraction(a) - t * b)
    raise Unsupported('frem')


def FNEG(a):
    if a.__class__ is Undef:
        return a
    if isinstance(a, Cond):
        return -int(a)
    return -a


def FCMP(pr, a, b):
    if pr == 'true':
        return True
    if pr == 'false':
        return False
    if a.__class__ is FP or b.__class__ is FP:
        ea, eb = sym.fpc(a), sym.fpc(b)
        un = z3.Or(z3.fpIsNaN(ea), z3.fpIsNaN(eb))
        if pr == 'uno':
            return sym.zb(un)
        if pr == 'ord':
            return sym.zb(z3.Not(un))
        if pr == 'one':
            return sym.zb(z3.And(z3.Not(un), z3.Not(z3.fpEQ(ea, eb))))
        f = {'ueq': z3.fpEQ, 'ugt': z3.fpGT, 'uge': z3.fpGEQ, 'ult': z3.fpLT, 'ule': z3.fpLEQ}[pr]
        return sym.zb(z3.Or(un, f(ea, eb)))
    if a.__class__ is Undef or b.__class__ is Undef:
        sym.P().undef_use()
    un = (a.__class__ is float and a != a) or (b.__class__ is float and b != b)
    if pr == 'uno':
        return un
    if pr == 'ord':
        return not un
    if pr == 'one':
        return False if un else a != b
    if un:
        return True
    return {'ueq': lambda: a == b, 'ugt': lambda: a > b, 'uge': lambda: a >= b, 'ult': lambda: a < b,
            'ule': lambda: a <= b}[pr]()


def FABS(a):
    if a.__class__ is Sym:
        return symabs(a)
    if a.__class__ is FP:
        return FP(z3.fpAbs(a.e))
    if a.__class__ is Undef:
        return a
    if isinstance(a, Cond):
        return int(a)
    return abs(a)


def symabs(a):
    p = sym.P()
    # known sign
    m = 0
    s = cmp0(a, '<')
    if s is False:
        return a
    if s is True:
        return -a
    if len(a.n) == 1 and not a.d:
        (mo, co), = a.n.items()
        if len(mo) == 1 and mo[0] in p.absof:
            return a if co > 0 else -a
    c, q = primitive(a.n)
    k = ('abs', pkey(q), a.d)
    v = p.ufs.get(k)
    if v is None:
        base = Sym(q, a.d)
        i = p.newvar('abs', 'abs', value=absval(p, base))
        p.spdef[i] = ('abs', base)
        p.absof[i] = base
        p.special[i] = base * base
        p.setfact({(i,): 1}, POS | ZERO)
        v = p.ufs[k] = Sym({(i,): 1})
    return v * abs(c)


def absval(p, base):
    x = p.evals(base, p.model)
    return None if x is None else abs(x)


def SQRT(a):
    if a.__class__ is FP:
        return FP(z3.fpSqrt(sym.RNE, a.e))
    if a.__class__ is Undef:
        return a
    if a.__class__ is float:
        if a != a or a < 0:
            return math.nan
        return math.sqrt(a)
    if a.__class__ in (int, Fraction, bool):
        if a < 0:
            return math.nan
        if sym.P().mode == 'fp':
            return math.sqrt(a)
        r = qsqrt(a)
        if r.__class__ is not float:
            return r
        a = Sym({(): a})
    p = sym.P()
    if bool(a < 0):
        return math.nan
    z = p.known_zero(a) if hasattr(p, 'known_zero') else None
    if constval(a.n) is None and bool_known(a == 0) is True:
        return 0
    # sqrt(n/d) with square parts of the denominator pulled out
    dd = []
    outd = []
    n = a.n
    for f, e in a.d:
        if e % 2:
            n = pmul(n, p.facs[f])
            e += 1
        outd.append((f, e // 2))
    # sqrt(n)/prod |f|^(e/2)
    t = sym.reduce_special(n, ()) if p.special else mk0(n)
    if t.__class__ is not Sym:
        n2 = {(): t} if t else {}
        r = qsqrt(t)
    else:
        r = None
        n2 = t.n
        if t.d:
            raise Unsupported('sqrt of a nested quotient')
    if r is None or r.__class__ is float:
        # perfect square polynomial?
        r = polysqrt(n2)
        if r is not None:
            r = symabs(mk0(r)) if mk0(r).__class__ is Sym else abs(mk0(r))
        else:
            c = sym.content(n2)
            cs = square_part(c)
            if cs != 1:
                n2 = sym.pscale(n2, qdiv(1, cs * cs))
            k = ('sqrt', pkey(n2))
            r = p.ufs.get(k)
            if r is None:
                base = Sym(n2)
                x = p.evals(base, p.model)
                i = p.newvar('sqrt', 'sqrt', value=None if x is None or x < 0 else qsqrt(x))
                p.spdef[i] = ('sqrt', base)
                p.special[i] = base if constval(n2) is None else constval(n2)
                p.setfact({(i,): 1}, POS | ZERO)
                if constval(n2) is not None or bool_known(base != 0) is True:
                    p.setfact({(i,): 1}, POS)
                r = p.ufs[k] = Sym({(i,): 1})
            r = r * cs
    for f, e in outd:
        x = Sym({(): 1}, ((f, e),))
        if e % 2:
            sg = p.facsign(f)
            if sg == 0:
                sg = 1 if bool(Sym(p.facs[f]) > 0) else -1
            if sg < 0:
                r = -r
        r = x * r
    return r


def bool_known(c):
    if c.__class__ is bool:
        return c
    return None


def square_part(c):
    c = Fraction(c)

    def sp(n):
        r = 1
        k = 2
        while k * k <= n and k < 100:
            while n % (k * k) == 0:
                n //= k * k
                r *= k
            k += 1
        return r
    return qnorm(Fraction(sp(c.numerator), sp(c.denominator)))


def polysqrt(n):
    """square root of a polynomial that is a perfect square of a small polynomial, or None"""
    if not n:
        return {}
    lead = min(n, key=sym.okey)
    c = n[lead]
    if c < 0 or len(lead) % 2 or any(lead[i] != lead[i + 1] for i in range(0, len(lead), 2)):
        return None
    c = qsqrt(c)
    if c.__class__ is float:
        return None
    lm = lead[::2]
    r = {lm: c}
    if len(n) == 1:
        return r
    if len(n) > 400 or n.get(max(n, key=sym.okey), 0) < 0:
        return None
    rem = dict(n)
    del rem[lead]
    for _ in range(40):
        if not rem:
            return r
        m = min(rem, key=sym.okey)
        q = sym.mdiv(m, lm)
        if q is None or sym.okey(q) <= sym.okey(lm) or q in r:
            return None
        k = qdiv(rem[m], 2 * c)
        # rem -= 2 k q r + k^2 q^2
        for t, x in r.items():
            u = tuple(sorted(t + q))
            v = rem.get(u, 0) - 2 * k * x
            if v:
                rem[u] = v
            else:
                rem.pop(u, None)
        u = tuple(sorted(q + q))
        v = rem.get(u, 0) - k * k
        if v:
            rem[u] = v
        else:
            rem.pop(u, None)
        r[q] = qnorm(k)
    return None


def CSQRT(a, b):
    """principal square root of a + i b"""
    if a.__class__ is float or b.__class__ is float or a.__class__ is Undef or b.__class__ is Undef:
        raise Unsupported('csqrt of a special value')
    if (b.__class__ is not Sym and b == 0) or (b.__class__ is Sym and bool(b == 0)):
        if a >= 0:
            return SQRT(a), 0
        return 0, SQRT(-a)
    m = SQRT(a * a + b * b)
    # b != 0: m > |a|
    p = SQRT((m + a) * Fraction(1, 2))
    q = SQRT((m - a) * Fraction(1, 2))
    return p, q if b > 0 else -q


def COPYSIGN(a, b):
    if a.__class__ is FP or b.__class__ is FP:
        ea, eb = sym.fpc(a), sym.fpc(b)
        return FP(z3.If(z3.fpIsNegative(eb), z3.fpNeg(z3.fpAbs(ea)), z3.fpAbs(ea)))
    x = FABS(a)
    if b.__class__ is float and b != b:
        return x
    if b.__class__ is float and sym.P().mode == 'fp':
        return math.copysign(x, b)
    return -x if b < 0 else x


def pmode():
    return sym.P().mode


def rounded(a, t):
    """an integer as a floating point number of t bits"""
    if a.__class__ is int:
        if t == 32:
            return FPTRUNC(a, 32)
        return a if t > 64 else int(float(a))
    if a.__class__ is Sym:
        if t == 32:
            return FPTRUNC(a, 32)
        if t == 64:
            lo, hi = sym.irange(a.n)
            if lo < -(1 << 53) or hi > 1 << 53:
                return iround(a, 53) if integral(a) else narrowed('f64', a, 53)
    return a


def integral(a):
    p = sym.P()
    return not a.d and bool(a.n) and all(c.__class__ is int for c in a.n.values()) and all(p.vars[v][1] == 'i' for m in a.n for v in m)


def iround(a, bits):
    """an integer rounded to the given number of significant bits: an integer"""
    p = sym.P()
    if len(a.n) == 1:
        (m, c), = a.n.items()
        if len(m) == 1 and abs(c) == 1 and p.spdef.get(m[0], ('',))[0] == 'iround' and p.spdef[m[0]][3] <= bits:
            return a
    key = ('iround', pkey(a.n), bits)
    if key in p.ufs:
        return p.ufs[key]
    p.tags['narrow'] = 1
    f = {53: lambda x: int(float(x)), 24: lambda x: int(f32(x))}[bits]
    lo, hi = sym.irange(a.n)
    av = p.evals(a, p.model)
    i = p.newvar('f%d' % bits, 'i', f(lo), f(hi), 0 if av is None else f(int(av)))
    p.spdef[i] = ('iround', a, f, bits)
    if bits == 24:
        p.single.add(i)
    z, x, M = p.zv[i], p.z3sym(a), 1 << bits
    cs = [z3.Implies(z3.And(x >= -M, x <= M), z == x)]
    # a few binades beyond, each with its own spacing
    for k in range(1, 64 - bits):
        u = 1 << k
        cs.append(z3.Implies(z3.And(x > (M << (k - 1)), x <= M << k), z3.And(z - x <= u // 2, x - z <= u // 2)))
        cs.append(z3.Implies(z3.And(x < -(M << (k - 1)), x >= -(M << k)), z3.And(z - x <= u // 2, x - z <= u // 2)))
    p.zextra.append(z3.And(*cs))
    p.ufs[key] = Sym({(i,): 1})
    return p.ufs[key]


def SITOFP(a, f, t):
    a = sgn(a, f)
    if a.__class__ is int:
        return float(a) if pmode() == 'fp' else rounded(a, t)
    if isinstance(a, Cond):
        return int(a)
    if a.__class__ is BV:
        return FP(z3.fpSignedToFP(sym.RNE, a.e, sym.D64))
    return rounded(a, t)


def UITOFP(a, f, t):
    if a.__class__ is int or a.__class__ is bool:
        return float(a) if pmode() == 'fp' else rounded(int(a), t)
    if isinstance(a, Cond):
        return int(a)
    if a.__class__ is Sym:
        return rounded(_uadj(a, f), t)
    if a.__class__ is BV:
        return FP(z3.fpUnsignedToFP(sym.RNE, a.e, sym.D64))
    return a


def FPTOSI(a, w):
    return fptoint(a, w)


def FPTOUI(a, w):
    return fptoint(a, w)


def fptoint(a, w):
    if a.__class__ is int or a.__class__ is bool:
        return int(a) & ((1 << w) - 1)
    if a.__class__ is Fraction:
        return int(a) & ((1 << w) - 1)
    if a.__class__ is float:
        if a != a or math.isinf(a):
            raise Unsupported('conversion of a non-finite value to an integer')
        return int(a) & ((1 << w) - 1)
    if a.__class__ is Undef:
        return a
    if isinstance(a, Cond):
        return int(a)
    if a.__class__ is Sym:
        p = sym.P()
        # integer valued polynomial
        if not a.d and all(c.__class__ is int for c in a.n.values()) and \
                all(p.vars[v][1] == 'i' for m in a.n for v in m):
            return a
        k = ('trunc', pkey(a.n), a.d)
        if k in p.ufs:
            return p.ufs[k]
        negv = bool(a < 0)
        x = p.evals(a, p.model)
        val = None if x is None else int(x)
        lim = 1 << 12
        i = p.newvar('trunc', 'i', -lim, lim, 0 if val is None else val)
        n = Sym({(i,): 1})
        p.spdef[i] = ('fptoint', a)
        p.inconclusive_bound = True
        if negv:
            p.vassume(n >= a)
            p.vassume(n - 1 < a)
        else:
            p.vassume(n <= a)
            p.vassume(a < n + 1)
        p.ufs[k] = n
        return n
    raise Unsupported('fptoint')


def FPEXT(a, t):
    return a


def f32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', float(x)))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def FPTRUNC(a, t):
    """narrowing to single precision: the result is within half a unit of the last place"""
    if a.__class__ is FP:
        if t == 32:
            return FP(z3.fpToFP(sym.RNE, z3.fpToFP(sym.RNE, a.e, z3.Float32()), sym.D64))
        return a
    if t == 64 and a.__class__ is Sym and sym.P().tags.get('extended'):
        if len(a.n) == 1 and not a.d:
            (m, c), = a.n.items()
            if len(m) == 1 and abs(c) == 1:
                return a
        return narrowed('f64', a, 53)
    if t != 32 or a.__class__ is Undef or isinstance(a, Cond):
        return a
    if a.__class__ is not Sym:
        x = f32(a)
        if x != x or math.isinf(x) or pmode() == 'fp':
            return x
        return sym.qnorm(Fraction(x))
    p = sym.P()
    if len(a.n) == 1 and not a.d:
        (m, c), = a.n.items()
        if len(m) == 1 and abs(c) == 1 and (m[0] in p.single or p.spdef.get(m[0], ('', ''))[:2] == ('uf', 'f32')):
            return a
    if not a.d and a.n and all(p.vars[v][1] == 'i' for m in a.n for v in m) and all(c.__class__ is int for c in a.n.values()):
        lo, hi = sym.irange(a.n)
        if -(1 << 24) <= lo and hi <= 1 << 24:
            return a
        return iround(a, 24)
    return narrowed('f32', a, 24)


def narrowed(name, a, bits):
    p = sym.P()
    p.tags['narrow'] = 1
    n = len(p.spdef)
    v = uf(name, a)
    if len(p.spdef) != n:
        z, x, e = p.z3sym(v), p.z3sym(a), z3.Q(1, 1 << bits)
        p.zextra.append(z3.Or(z3.And(x >= 0, z - x <= x * e, x - z <= x * e), z3.And(x < 0, z - x <= -x * e, x - z <= -x * e)))
    return v


class BitsOf:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


def TOBITS(a, w):
    import struct
    if a.__class__ in (int, float, bool):
        return int.from_bytes(struct.pack('>d' if w == 64 else '>f', float(a)), 'big')
    if a.__class__ is Fraction and Fraction(float(a)) == a:
        return int.from_bytes(struct.pack('>d' if w == 64 else '>f', float(a)), 'big')
    if a.__class__ is FP:
        return BV(z3.fpToIEEEBV(a.e))
    raise Unsupported('bit pattern of a symbolic floating point value')


def FROMBITS(a, w):
    import struct
    if a.__class__ is int:
        return fconst(struct.unpack('>d' if w == 64 else '>f', a.to_bytes(w // 8, 'big'))[0])
    raise Unsupported('floating point value from symbolic bits')


def fconst(x):
    """IR floating point constant in the current mode"""
    if pmode() == 'fp':
        return x
    if x != x or math.isinf(x):
        return x
    return qnorm(Fraction(x))


def FPCLASS(a, mask):
    if a.__class__ is FP:
        e = a.e
        parts = []
        if mask & 3:
            parts.append(z3.fpIsNaN(e))
        if mask & 0x204:
            if mask & 0x200:
                parts.append(z3.And(z3.fpIsInf(e), z3.fpIsPositive(e)))
            if mask & 4:
                parts.append(z3.And(z3.fpIsInf(e), z3.fpIsNegative(e)))
        if mask & ~0x207:
            raise Unsupported('fpclass')
        return sym.zb(z3.Or(parts))
    isn = a.__class__ is float and a != a
    inf = a.__class__ is float and math.isinf(a)
    r = False
    if mask & 3 and isn:
        r = True
    if mask & 0x200 and inf and a > 0:
        r = True
    if mask & 4 and inf and a < 0:
        r = True
    if mask & 0x1f8 and not isn and not inf:
        if mask & 0x1f8 == 0x1f8:
            return True
        raise Unsupported('fpclass')
    return r


def uf(name, *args):
    """uninterpreted real function with congruence"""
    p = sym.P()

    def k1(a):
        if a.__class__ is Sym:
            return (pkey(a.n), a.d)
        return a
    key = (name,) + tuple(k1(a) for a in args)
    v = p.ufs.get(key)
    if v is None:
        d = ('uf', name, args)
        x = p.evaluf(d, p.model)
        i = p.newvar(name, 'uf', value=x if x is not None else 1.0)
        p.spdef[i] = d
        if name in ('exp', 'exp2'):
            p.setfact({(i,): 1}, POS)
            p.zextra.append(p.zv[i] > 0)
        v = p.ufs[key] = Sym({(i,): 1})
    return v


def LIBM(k, *a):
    if any(x.__class__ is Undef for x in a):
        return UNDEF
    if any(x.__class__ is float for x in a) or pmode() == 'fp':
        f = getattr(math, k, None)
        if k in ('maxnum', 'minnum'):
            x, y = a
            if x != x:
                return y
            if y != y:
                return x
            return (x if x > y else y) if k == 'maxnum' else (x if x < y else y)
        if f is None or any(x.__class__ in (FP, Sym) for x in a):
            raise Unsupported('libm ' + k)
        try:
            return f(*[float(x) for x in a])
        except (ValueError, OverflowError):
            return math.nan
    if k == 'maxnum':
        return a[1] if a[0] < a[1] else a[0]
    if k == 'minnum':
        return a[1] if a[1] < a[0] else a[0]
    if k == 'powi':
        k = 'pow'
        a = (a[0], SX(a[1], 32))
    if k == 'pow':
        if a[1].__class__ is int and abs(a[1]) <= 32:
            r = 1
            for _ in range(abs(a[1])):
                r = r * a[0]
            return r if a[1] >= 0 else sym.fdiv(1, r)
        if a[0].__class__ is int and a[0] == 1:
            return 1
        return uf('pow', *a)
    if k in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint'):
        if a[0].__class__ in (int, Fraction):
            x = Fraction(a[0])
            return {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'round': lambda z: math.floor(abs(z) + Fraction(1, 2)) * (1 if z >= 0 else -1),
                    'rint': round, 'nearbyint': round}[k](x)
        if a[0].__class__ is Sym and all(c.__class__ is int for c in a[0].n.values()) and not a[0].d and \
                all(sym.P().vars[v][1] == 'i' for m in a[0].n for v in m):
            return a[0]
        if k == 'trunc' or (k == 'floor' and bool(a[0] >= 0)):
            return fptoint(a[0], 64)
        raise Unsupported(k)
    if k == 'ldexp':
        if a[1].__class__ is int:
            e = SX(a[1], 32)
            return a[0] * (Fraction(2) ** e)
        raise Unsupported('ldexp')
    if isnum(a[0]):
        if k in ('exp', 'exp2', 'cos') and a[0] == 0:
            return 1
        if k in ('sin',) and a[0] == 0:
            return 0
        if k in ('log', 'log2', 'log10') and a[0] == 1:
            return 0
        if k == 'log2' and a[0] > 0:
            f = Fraction(a[0])
            x = f.numerator.bit_length() - 1 if f.denominator == 1 else -(f.denominator.bit_length() - 1)
            if Fraction(2) ** x == f:
                return x
    return uf(k, *a)


class StopAll(BaseException):
    pass


def STEPLIM():
    raise StepLimit()


def UNREACH(name):
    raise PathEnd('fault', 'unreachable code executed in ' + name)


def TRAP():
    raise PathEnd('fault', 'trap')


def UNSUP(what):
    raise Unsupported(what)


# ------------------------------------------------------------------ module loading
class Program:
    def __init__(self, llpath, mode='real'):
        from . import externs
        self.mod = ir.Module(llpath)
        self.mode = mode
        self.fid = {}
        self.fnname = {}
        self.used = set()
        self.ntrans = 0
        self.G = {}
        G = self.G
        for k, v in list(globals().items()):
            if not k.startswith('__'):
                G[k] = v
        G['FDIV'] = sym.fdiv
        self.externs = externs
        externs.setup(self)
        G['LANDING'] = self.landing
        G['TYPEID'] = self.typeid
        G['ICALL'] = self.icall
        # global addresses
        self.gaddr = {}
        self.addrfn = {}
        self.nextg = 16
        self.ginitq = []
        self.gmem = {1: {}, 2: {}, 4: {}, 8: {}}
        self.gobj = {}
        self.tyrefs = {}
        self.tiids = {}

    # env interface for FnGen
    def fn_ref(self, name):
        f = self.fid.get(name)
        if f is None:
            f = 'f%d' % len(self.fid)
            self.fid[name] = f
            self.fnname[f] = name
            ext = self.externs.lookup(name)
            if ext is not None:
                self.G[f] = ext
            elif name in self.mod.funcs:
                self.G[f] = self.make_stub(f, name)
            elif name in self.mod.globals and self.mod.ginit(name)[0] == 'alias':
                self.fid.pop(name)
                r = self.fn_ref(self.mod.ginit(name)[1].v)
                self.fid[name] = r
                return r
            else:
                def missing(*a, _n=name):
                    raise Unsupported('external function ' + _n)
                self.G[f] = missing
        return f

    def make_stub(self, f, name):
        def stub(*a):
            fn = self.compile(f, name)
            return fn(*a)
        return stub

    def compile(self, f, name):
        g = ir.FnGen(self.mod, name, self)
        try:
            src = g.gen()
            ns = {}
            code = compile(src, '<%s>' % name[:80], 'exec')
            exec(code, self.G, ns)
            fn = ns['F']
        except (SyntaxError, KeyError, ValueError, AttributeError, IndexError, AssertionError) as e:
            msg = 'translation of %s: %r' % (name, e)
            if os.environ.get('VS_DEBUG'):
                raise

            def fn(*a):
                raise Unsupported(msg)
        fn.__name__ = 'F'
        self.G[f] = fn
        self.used.add(name)
        self.ntrans += g.nins
        return fn

    def tyref(self, t):
        k = 'T%d' % id(t)
        self.tyrefs[k] = t
        self.G[k] = t
        return k

    def const_expr(self, c):
        k = c.k
        if k == 'i':
            return str(c.v)
        if k == 'zero':
            if c.ty.k in ('st', 'arr', 'vec'):
                return repr(self.zero_val(c.ty))
            if c.ty.k == 'f' and self.mode == 'fp':
                return '0.0'
            return '0'
        if k == 'f':
            v = c.v
            if v != v:
                return 'math.nan'
            if math.isinf(v):
                return 'math.inf' if v > 0 else '(-math.inf)'
            if self.mode == 'fp':
                return '(%r)' % v
            q = Fraction(v)
            if q.denominator == 1:
                return '(%d)' % q.numerator
            nm = 'Q_%d_%d' % (abs(q.numerator), q.denominator) + ('n' if q < 0 else '')
            self.G[nm] = q
            return nm
        if k == 'g':
            return str(self.addr(c.v))
        if k == 'undef':
            return 'UNDEF'
        if k == 'gep':
            return str(self.const_addr(c))
        if k in ('sub', 'add'):
            return str(self.const_int(c))
        if k == 'agg':
            return '(' + ''.join(self.const_expr(x) + ',' for x in c.v) + ')'
        raise SyntaxError('const ' + k)

    def zero_val(self, t):
        if t.k == 'st':
            return tuple(self.zero_val(e) for e in t.elems)
        if t.k in ('arr', 'vec'):
            return tuple(self.zero_val(t.elems[0]) for _ in range(t.n))
        return 0

    def const_int(self, c):
        if c.k == 'i':
            return c.v
        if c.k == 'zero':
            return 0
        if c.k == 'g':
            return self.addr(c.v)
        if c.k == 'gep':
            return self.const_addr(c)
        if c.k == 'sub':
            return (self.const_int(c.v[0]) - self.const_int(c.v[1])) & M64
        if c.k == 'add':
            return (self.const_int(c.v[0]) + self.const_int(c.v[1])) & M64
        raise SyntaxError('const_int ' + c.k)

    def const_addr(self, c):
        bt, base, idx = c.v
        a = self.const_int(base)
        t = bt
        first = True
        for x in idx:
            v = x.v if x.k == 'i' else 0
            if v >> 63:
                v -= 1 << 64
            if x.ty.bits == 32 and v >> 31:
                v -= 1 << 32
            if first:
                a += v * t.size
                first = False
            elif t.k == 'st':
                a += t.offs[v]
                t = t.elems[v]
            else:
                t = t.elems[0]
                a += v * t.size
        return a & M64

    def addr(self, name):
        a = self.gaddr.get(name)
        if a is not None:
            return a
        i = self.nextg
        self.nextg += 1
        a = i << SH
        if name in self.mod.funcs or name in self.mod.decls:
            self.gaddr[name] = a
            o = Obj(i, 1, 'fn', name)
            self.addrfn[a] = name
        elif name in self.mod.globals:
            ty, c, const = self.mod.ginit(name)
            if ty == 'alias':
                self.nextg -= 1
                a = self.const_int(c)
                self.gaddr[name] = a
                return a
            self.gaddr[name] = a
            size = ty.size
            if c is None:
                size = max(size, 4096)
            o = Obj(i, size, 'global', name)
            if name == '__libc_single_threaded':
                self.gmem[1][a] = 1
            if c is not None:
                self.write_init(a, ty, c)
                if const and not name.startswith('_ZTI'):
                    o.kind = 'const'
        else:
            raise SyntaxError('unknown global ' + name)
        self.gobj[i] = o
        if self.running:
            self.install_global(i)
        return a

    running = False

    def install_global(self, i):
        o = self.gobj[i]
        OBJ[i] = Obj(i, o.size, o.kind, o.name)
        lo, hi = i << SH, (i + 1) << SH
        for sz in (1, 2, 4, 8):
            for a, v in self.gmem[sz].items():
                if lo <= a < hi:
                    MM[sz][a] = v

    def write_init(self, a, ty, c):
        k = c.k
        if k == 'undef':
            return
        if k == 'zero':
            n = ty.size
            i = 0
            if ty.size in (1, 2, 4, 8) and ty.k in ('i', 'f', 'ptr'):
                self.gmem[ty.size][a] = 0.0 if (ty.k == 'f' and self.mode == 'fp') else 0
                return
            self.zero_init(a, ty)
            return
        if k == 'bytes':
            for j, b in enumerate(c.v):
                self.gmem[1][a + j] = b
            return
        if k == 'agg':
            if ty.k == 'st':
                for o, e, x in zip(ty.offs, ty.elems, c.v):
                    self.write_init(a + o, e, x)
            else:
                e = ty.elems[0]
                for j, x in enumerate(c.v):
                    self.write_init(a + j * e.size, e, x)
            return
        if k == 'f':
            v = c.v
            if self.mode != 'fp' and v == v and not math.isinf(v):
                v = qnorm(Fraction(v))
            if ty.size in (4, 8):
                self.gmem[ty.size][a] = v
            else:
                self.gmem[8][a] = ('X', v)
            return
        v = self.const_int(c)
        self.gmem[ty.size][a] = v

    def zero_init(self, a, ty):
        if ty.k == 'st':
            for o, e in zip(ty.offs, ty.elems):
                self.zero_init(a + o, e)
        elif ty.k in ('arr', 'vec'):
            e = ty.elems[0]
            if ty.n > 100000:
                return
            for j in range(ty.n):
                self.zero_init(a + j * e.size, e)
        elif ty.size in (1, 2, 4, 8):
            self.gmem[ty.size][a] = 0.0 if (ty.k == 'f' and self.mode == 'fp') else 0

    # ---- exceptions
    def tiname(self, a):
        if a == 0:
            return None
        for n, x in self.gaddr.items():
            if x == a:
                return n
        return '?'

    def bases(self, ti):
        """names of all (public) bases of typeinfo ti including itself"""
        r = [ti]
        std = self.externs.STD_BASES.get(ti)
        if std is not None:
            for b in std:
                r += self.bases(b)
            return r
        if ti in self.mod.globals:
            ty, c, const = self.mod.ginit(ti)
            if c is not None and c.k == 'agg' and len(c.v) >= 3:
                for x in c.v[2:]:
                    if x.k == 'g' and x.v.startswith('_ZTI'):
                        r += self.bases(x.v)
        return r

    def typeid(self, a):
        n = self.tiname(a)
        if n not in self.tiids:
            self.tiids[n] = len(self.tiids) + 1
        return self.tiids[n]

    def landing(self, ex, cleanup, clauses):
        bs = self.bases(ex.ti)
        for c in clauses:
            if c == -1:
                continue
            if c == 0 or self.tiname(c) in bs:
                return (ex.ptr, self.typeid(c))
        if cleanup:
            return (ex.ptr, 0)
        raise ex

    def icall(self, a):
        n = self.addrfn.get(a)
        if n is None:
            if a.__class__ is not int:
                if a.__class__ is Undef:
                    sym.P().undef_use()
                raise Unsupported('symbolic call target')
            fault('call through a bad function pointer')
        return self.G[self.fn_ref(n)]

    # ---- execution of one path
    def reset(self):
        for d in (M1, M2, M4, M8):
            d.clear()
        OBJ.clear()
        for sz in (1, 2, 4, 8):
            MM[sz].update(self.gmem[sz])
        for i, o in self.gobj.items():
            OBJ[i] = Obj(i, o.size, o.kind, o.name)
        NEXT[0] = 1 << 20
        self.externs.reset(self)

    def ctors(self):
        """dynamic initialisers of the namespace-scope objects of the unit"""
        if self._ctors is None:
            self._ctors = []
            if 'llvm.global_ctors' in self.mod.globals:
                ty, c, const = self.mod.ginit('llvm.global_ctors')
                for x in c.v if c is not None and c.k == 'agg' else ():
                    self._ctors.append((x.v[0].v if x.v[0].k == 'i' else 0, x.v[1].v))
                self._ctors.sort(key=lambda t: t[0])
        return self._ctors

    _ctors = None
    warmst = (None, None)

    def statics(self):
        """writable globals of the unit (state that survives a call), the harness's own excepted"""
        if self._statics is None:
            self._statics = [n for n, d in self.mod.globals.items()
                             if re.search(r'\b(global|thread_local)\b', d.split('{')[0].split('c"')[0]) and not re.search(r'^(external|extern_weak|appending)\b', d)
                             and not re.match(r'(_ZGV)?(_ZZL?\d*H_|_ZZ\d*H_|_ZL?\d*vs_|vs_|__dso_handle|_ZStL8__ioinit|llvm\.)', n)]
        return self._statics

    _statics = None

    def snapshot(self):
        """the memory that survives the run: what the globals hold and what is reachable from them; None if nothing changed"""
        S = self.externs.S
        lim = 1 << 20
        own = set()
        names = set(self.statics())
        for i, o in self.gobj.items():
            if o.name in names:
                own.add(i)
        delta = {}
        for sz in (1, 2, 4, 8):
            g, m = self.gmem[sz], MM[sz]
            delta[sz] = {a: v for a, v in m.items() if a >> SH in own and not (a in g and g[a] is v or a in g and g[a].__class__ is int and v.__class__ is int and g[a] == v)}
            delta[-sz] = [a for a in g if a not in m and a >> SH in own]
        strs = any(k >> SH in own for k in S['strs'])
        if not strs and not any(delta.values()):
            return None
        r = self.reach()
        objs = []
        for i in r:
            o = OBJ[i]
            objs.append((o.id, o.size, o.kind, o.name, [(sz, a, MM[sz][a]) for d, a in o.cells for sz in (1, 2, 4, 8) if d is MM[sz] and a in d]))
        p = sym.P()

        def conc(v):
            if v.__class__ is Sym:      # a root, ...: its value
                p.fixmodel()
                v = p.evals(v, p.model)
                if not isnum(v):
                    raise Unsupported('state of a warm-up run')
            elif v.__class__ in (BV, FP) or isinstance(v, Cond):
                raise Unsupported('state of a warm-up run')
            return v
        for o in objs:
            o[4][:] = [(sz, a, conc(v)) for sz, a, v in o[4]]
        for sz in (1, 2, 4, 8):
            delta[sz] = {a: conc(v) for a, v in delta[sz].items()}
        live = set(r) | own
        return dict(delta=delta, objs=objs, next=NEXT[0], strs={k: copy.copy(v) for k, v in S['strs'].items() if k >> SH in live})

    def restore(self, s):
        for sz in (1, 2, 4, 8):
            for a in s['delta'][-sz]:
                MM[sz].pop(a, None)
            for a in s['delta'][sz]:
                for z in (1, 2, 4, 8):
                    if z != sz:
                        MM[z].pop(a, None)
            MM[sz].update(s['delta'][sz])
        for i, size, kind, name, cells in s['objs']:
            o = OBJ[i] = Obj(i, size, kind, name)
            for sz, a, v in cells:
                MM[sz][a] = v
                o.cells.append((MM[sz], a))
        NEXT[0] = s['next']
        for k, v in s['strs'].items():
            self.externs.S['strs'][k] = copy.copy(v)

    def reach(self):
        """heap objects reachable from global memory (conservatively)"""
        lim = 1 << 20
        seen = set()
        todo = []
        for a, v in M8.items():
            if a >> SH < lim and v.__class__ is int and v >> SH >= lim:
                todo.append(v >> SH)
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            o = OBJ.get(i)
            if o is None or not o.alive or o.kind not in ('malloc', 'new', 'new[]'):
                continue
            seen.add(i)
            for d, a in o.cells:
                if d is M8:
                    v = d.get(a)
                    if v.__class__ is int and v >> SH >= lim:
                        todo.append(v >> SH)
        return seen

    def warm(self, entry, cfg):
        """run the entry once on concrete inputs; what it leaves behind in global memory, with the inputs, or None"""
        if self.warmst[0] == entry:
            return self.warmst[1]
        res = None
        if self.statics():
            for k in range(12):
                p = Path((), None, seed=cfg.get('seed', 1), mode=self.mode, timeout_ms=500)
                p.warm = random.Random(1000 * cfg.get('seed', 1) + k)
                p.warmk = k
                DEADLINE[0] = time.time() + 10
                self.warmst = (None, None)
                kind, detail = self.run_path(entry, p, 600000, snap=True)
                if kind != 'ok':
                    continue
                if p.snap is not None:
                    res = (p.snap, p.concrete_inputs())
                break
        self.warmst = (entry, res)
        return res

    def run_path(self, entry, path, steplimit, warm=None, snap=False):
        sym.PATH[0] = path
        self.reset()
        self.running = True
        CT[0] = 0
        CT[1] = steplimit
        outcome = ('ok', '')
        try:
            for _, f in self.ctors():
                self.G[self.fn_ref(f)]()
            if warm is not None:
                self.restore(warm)
            fn = self.G[self.fn_ref(entry)]
            fn()
            if path.expect_exit:
                path.fixmodel()
                raise PathEnd('violation', 'the program was expected to stop but continued')
            live = [o for o in OBJ.values() if o.alive and o.kind in ('malloc', 'new', 'new[]')]
            if live:
                r = self.reach()
                live = [o for o in live if o.id not in r]
            if live:
                path.fixmodel()
                outcome = ('fault', 'memory leak: %d live heap object(s), %s' % (len(live), live[0].name))
            if snap:
                path.snap = self.snapshot()
            path.finish()
        except PathEnd as e:
            outcome = (e.kind, e.detail)
            if e.kind in ('exit', 'abort'):
                outcome = ('ok', '') if path.expect_exit else ('fault', 'the program terminates: %s %s' % (e.kind, e.detail))
            if outcome[0] == 'fault':
                try:
                    path.fixmodel()
                except PathEnd as e2:
                    outcome = (e2.kind, e2.detail)
        except CxxThrow as e:
            outcome = ('fault', 'uncaught exception ' + e.ti)
        except StepLimit:
            outcome = ('limit', 'step/time limit')
        except Unsupported as e:
            outcome = ('unsupported', str(e))
        except RecursionError:
            outcome = ("unsupported", "recursion depth")
        except (OverflowError, ZeroDivisionError, ValueError, TypeError, AttributeError, KeyError, IndexError, z3.Z3Exception) as e:
            if os.environ.get('VS_TRACE'):
                raise
            outcome = ('unsupported', 'internal: %r' % (e,))
        finally:
            self.running = False
        return outcome
