"""Symbolic value domain.

Sym    exact rational function  num/den  over the path's variables (Int or Real
       sorted), polynomials in normal form.  Used for the elements of
       vectors/matrices (doubles in the exact-arithmetic interpretation, and
       bounded machine integers).
BV     bit-vector term (z3) for index arithmetic at full machine width.
FP     IEEE-754 binary64 term (z3) for the comparison kernels.
Cond   boolean over atoms of the above; bool(cond) asks the current path to
       decide it (fork).
"""
import math
from fractions import Fraction
import z3


class Unsupported(Exception):
    pass


class Undef:
    """an uninitialised value: may be copied, must not be used"""

    def _use(self, *a):
        P().undef_use()

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __and__ = __rand__ = __or__ = __ror__ = lambda s, o: s
    __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __eq__ = __ne__ = __neg__ = __abs__ = __int__ = __index__ = _use

    def __hash__(self):
        return 7


UNDEF = Undef()
PATH = [None]


def P():
    return PATH[0]


# ------------------------------------------------------------------ polynomials
# monomial: sorted tuple of variable indices (with repetition); poly: dict

def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m)
        if s is None:
            r[m] = c
        else:
            s = s + c
            if s == 0:
                del r[m]
            else:
                r[m] = s
    return r


def psub(a, b):
    r = dict(a)
    for m, c in b.items():
        s = r.get(m)
        if s is None:
            r[m] = -c
        else:
            s = s - c
            if s == 0:
                del r[m]
            else:
                r[m] = s
    return r


def pscale(a, k):
    if k == 1:
        return a
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items()}


MAXTERMS = 60000


def pmul(a, b):
    if len(a) == 1:
        a, b = b, a
    if len(b) == 1:
        (mb, cb), = b.items()
        if not mb:
            return pscale(a, cb)
        if len(a) == 1:
            (ma, ca), = a.items()
            return {tuple(sorted(ma + mb)): ca * cb}
        return {tuple(sorted(ma + mb)): ca * cb for ma, ca in a.items()}
    if len(a) * len(b) > 40 * MAXTERMS:
        raise Unsupported('polynomial too large')
    r = {}
    get = r.get
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = tuple(sorted(ma + mb))
            r[m] = get(m, 0) + ca * cb
    return {m: c for m, c in r.items() if c != 0}


ONE = {(): 1}


def okey(m):
    return (-len(m), m)


def mdiv(a, b):
    """monomial a / b or None"""
    if not b:
        return a
    la = list(a)
    for v in b:
        try:
            la.remove(v)
        except ValueError:
            return None
    return tuple(la)


def pdivex(a, b):
    """exact division a / b of polynomials or None"""
    if len(b) == 1:
        (mb, cb), = b.items()
        r = {}
        for m, c in a.items():
            q = mdiv(m, mb)
            if q is None:
                return None
            r[q] = qdiv(c, cb)
        return r
    if len(a) < len(b):
        return None if a else {}
    lb = min(b, key=okey)
    tb = max(b, key=okey)
    if mdiv(max(a, key=okey), tb) is None:
        return None
    cb = b[lb]
    import heapq
    r = dict(a)
    heap = [okey(m) for m in r]
    heapq.heapify(heap)
    q = {}
    bi = list(b.items())
    n = 0
    while heap:
        k = heapq.heappop(heap)
        m = k[1]
        c = r.get(m)
        if c is None:
            continue
        d = mdiv(m, lb)
        if d is None:
            return None
        qc = qdiv(c, cb)
        q[d] = qc
        n += 1
        if n > 6000:
            return None
        for mb, cc in bi:
            mm = tuple(sorted(d + mb))
            s = r.get(mm)
            if s is None:
                r[mm] = -qc * cc
                heapq.heappush(heap, okey(mm))
            else:
                s = s - qc * cc
                if s == 0:
                    del r[mm]
                else:
                    r[mm] = s
    return q


def qdiv(a, b):
    if b == 1:
        return a
    if b == -1:
        return -a
    if a.__class__ is int and b.__class__ is int:
        q, r = divmod(a, b)
        if r == 0:
            return q
    f = Fraction(a) / b
    return f.numerator if f.denominator == 1 else f


def qnorm(f):
    return f.numerator if f.__class__ is Fraction and f.denominator == 1 else f


def content(p):
    """positive rational c with p/c primitive integer poly"""
    g = 0
    l = 1
    for c in p.values():
        if c.__class__ is Fraction:
            g = math.gcd(g, c.numerator)
            l = l * c.denominator // math.gcd(l, c.denominator)
        else:
            g = math.gcd(g, c)
    if g == 0:
        return 1
    return qnorm(Fraction(g, l))


def primitive(p):
    """(c, q) with p = c*q, q primitive, leading coefficient positive"""
    c = content(p)
    lm = min(p, key=okey)
    if p[lm] < 0:
        c = -c
    if c == 1:
        return 1, p
    return c, {m: qdiv(x, c) for m, x in p.items()}


def pkey(p):
    return frozenset(p.items())


def ppow(p, e):
    r = ONE
    for _ in range(e):
        r = pmul(r, p)
    return r


def dmerge(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for f, e in b:
        d[f] = d.get(f, 0) + e
    return tuple(sorted(d.items()))


def isnum(x):
    c = x.__class__
    return c is int or c is Fraction or c is bool


class Sym:
    __slots__ = ('n', 'd')

    def __init__(self, n, d=()):
        self.n = n
        self.d = d

    # -- construction helpers
    def __hash__(self):
        return id(self)

    def __repr__(self):
        s = pstr(self.n)
        if self.d:
            s = '(%s)/(%s)' % (s, '*'.join('(%s)^%d' % (pstr(P().facs[f]), e) for f, e in self.d))
        return s

    def __add__(self, o):
        if o.__class__ is Sym:
            if self.d == o.d:
                return mk(padd(self.n, o.n), self.d)
            return mkadd(self, o, 1)
        if isnum(o):
            if o == 0:
                return self
            if not self.d:
                return mk0(padd(self.n, {(): o}))
            return mkadd(self, Sym({(): o}), 1)
        return other(o, self, '+')

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.n.items()}, self.d)

    def __sub__(self, o):
        if o.__class__ is Sym:
            if self.d == o.d:
                return mk(psub(self.n, o.n), self.d)
            return mkadd(self, o, -1)
        if isnum(o):
            return self + (-o)
        return other(o, self, '-')

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if o.__class__ is Sym:
            n = pmul(self.n, o.n)
            if P().special:
                return reduce_special(n, dmerge(self.d, o.d))
            if not self.d and not o.d:
                return Sym(n)
            return mk(n, dmerge(self.d, o.d))
        if isnum(o):
            if o == 0:
                return 0
            if o == 1:
                return self
            return Sym(pscale(self.n, o), self.d)
        return other(o, self, '*')

    __rmul__ = __mul__

    def __and__(self, m):
        if m.__class__ is int:
            if m == 0xffffffff:
                return wrap_int(self, 32)
            if m == 0xffffffffffffffff:
                return wrap_int(self, 64)
            if m == 0xff:
                return wrap_int(self, 8)
            if m == 0xffff:
                return wrap_int(self, 16)
            if m == 0:
                return 0
        raise Unsupported('bitwise and on symbolic integer')

    __rand__ = __and__

    def __or__(self, o):
        if o.__class__ is int and o == 0:
            return self
        raise Unsupported('bitwise or on symbolic integer')

    __ror__ = __or__

    def __lt__(self, o):
        return cmp0(self - o, '<')

    def __gt__(self, o):
        return cmp0(o - self, '<')

    def __le__(self, o):
        return cmp0(self - o, '<=')

    def __ge__(self, o):
        return cmp0(o - self, '<=')

    def __eq__(self, o):
        return cmp0(self - o, '==')

    def __ne__(self, o):
        return cmp0(self - o, '!=')

    def __bool__(self):
        return bool(self != 0)


def other(o, s, op):
    if o.__class__ is float:
        if op == '-':
            o = -o
        if o != o:
            return o
        if op in '+-':
            return o
        # sym * inf
        if op == '*':
            if bool(s == 0):
                return math.nan
            if bool(s < 0):
                return -o
            return o
    if o.__class__ is Undef:
        return o
    if isinstance(o, Cond):
        o = int(bool(o))
        return s + o if op == '+' else (s - o if op == '-' else s * o)
    raise Unsupported('mixed symbolic operands %s' % o.__class__.__name__)


def constval(n):
    if not n:
        return 0
    if len(n) == 1 and () in n:
        return n[()]
    return None


def mk0(n):
    if not n:
        return 0
    if len(n) == 1 and () in n:
        return qnorm(n[()])
    return Sym(n)


def mk(n, d):
    """normalise: cancel denominator factors by exact division"""
    if not n:
        return 0
    if d:
        p = P()
        dd = None
        for f, e in d:
            fp = p.facs[f]
            k = e
            while k:
                q = pdivex(n, fp)
                if q is None:
                    break
                n = q
                k -= 1
            if k != e:
                if dd is None:
                    dd = dict(d)
                if k:
                    dd[f] = k
                else:
                    del dd[f]
        if dd is not None:
            d = tuple(sorted(dd.items()))
    if not d and len(n) == 1 and () in n:
        return qnorm(n[()])
    return Sym(n, d)


def dpoly(d):
    p = P()
    r = ONE
    for f, e in d:
        for _ in range(e):
            r = pmul(r, p.facs[f])
    return r


def mkadd(a, b, sgn):
    da = dict(a.d)
    db = dict(b.d)
    l = dict(da)
    for f, e in db.items():
        if l.get(f, 0) < e:
            l[f] = e
    na = a.n
    nb = b.n
    p = P()
    for f, e in l.items():
        for _ in range(e - da.get(f, 0)):
            na = pmul(na, p.facs[f])
        for _ in range(e - db.get(f, 0)):
            nb = pmul(nb, p.facs[f])
    n = padd(na, nb) if sgn > 0 else psub(na, nb)
    d = tuple(sorted(l.items()))
    if p.special:
        return reduce_special(n, d)
    return mk(n, d)


def reduce_special(n, d):
    """rewrite squares of algebraic variables (sqrt, abs)"""
    p = P()
    sp = p.special
    out = {}
    extra = None
    hit = False
    for m, c in n.items():
        rep = None
        for i in range(len(m) - 1):
            if m[i] == m[i + 1] and m[i] in sp:
                rep = m[i]
                break
        if rep is None:
            s = out.get(m, 0) + c
            if s == 0:
                out.pop(m, None)
            else:
                out[m] = s
        else:
            hit = True
            i = m.index(rep)
            rest = Sym({m[:i] + m[i + 2:]: c})
            t = sp[rep] * rest      # recursive reduction
            extra = t if extra is None else extra + t
    r = mk(out, d)
    if not hit:
        return r
    if extra.__class__ is Sym:
        if not d:
            e2 = extra
        else:
            e2 = mk(extra.n, dmerge(extra.d, d))
    elif extra == 0:
        return r
    else:
        e2 = mk({(): extra}, d)
    return r + e2


def inverse(b):
    """1/b for a Sym known to be nonzero"""
    p = P()
    num = dpoly(b.d)
    c, q = primitive(b.n)
    num = pscale(num, qdiv(1, c))
    d = {}
    if constval(q) is None:
        # monomial content
        common = None
        for m in q:
            if common is None:
                common = list(m)
            else:
                mm = list(m)
                common = [v for v in common if v in mm and (mm.remove(v) or True)]
            if not common:
                break
        if common and p.special:
            # 1/v = v/v^2 for a square root v
            for v in list(dict.fromkeys(common)):
                if v in p.special and v not in p.absof:
                    k = common.count(v)
                    w = b * Sym({(v,) * k: 1})
                    if w.__class__ is not Sym or all(v not in m for m in w.n):
                        return (inverse(w) if w.__class__ is Sym else qdiv(1, w)) * Sym({(v,) * k: 1})
        if common:
            for v in common:
                f = p.factor({(v,): 1})
                d[f] = d.get(f, 0) + 1
            q = {mdiv(m, tuple(common)): x for m, x in q.items()}
        if constval(q) is None:
            # known factors
            for f in list(p.facs):
                fp = p.facs[f]
                if len(fp) > 1 and len(fp) <= len(q):
                    while True:
                        t = pdivex(q, fp)
                        if t is None:
                            break
                        q = t
                        d[f] = d.get(f, 0) + 1
                        if len(q) < len(fp):
                            break
            cv = constval(q)
            if cv is None:
                c2, q = primitive(q)
                if c2 != 1:
                    num = pscale(num, qdiv(1, c2))
                f = p.factor(q)
                d[f] = d.get(f, 0) + 1
            elif cv != 1:
                num = pscale(num, qdiv(1, cv))
        else:
            cv = constval(q)
            if cv != 1:
                num = pscale(num, qdiv(1, cv))
    d = tuple(sorted(d.items()))
    if p.special:
        # rationalise pure algebraic denominators is not attempted
        return mk(num, d)
    return mk(num, d)


def fdiv(a, b):
    """IEEE-style division in the exact interpretation"""
    if b.__class__ is Sym:
        if a.__class__ is Sym or isnum(a):
            if bool(b == 0):
                return math.nan
            if a.__class__ is Sym:
                if a.n == b.n and a.d == b.d:
                    return 1
            elif a == 0:
                return 0
            return inverse(b) * a
        if a.__class__ is float:
            return a if a != a else (a if bool(b >= 0) else -a)
        return fdiv(a, b) if False else other(a, b, '*')
    if a.__class__ is Sym:
        if isnum(b):
            if b == 0:
                return math.nan
            return a * qdiv(1, b) if b != 1 else a
        if b.__class__ is float:
            return math.nan if b != b else 0
        return other(b, a, '*')
    if a.__class__ is float or b.__class__ is float:
        if b == 0:
            return math.nan if a != a else (a if not math.isinf(a) else a)
        if b.__class__ is float and math.isinf(b):
            return math.nan if (a.__class__ is float) else 0
        return float(a) / float(b)
    if b.__class__ is Undef or a.__class__ is Undef:
        return UNDEF
    if isinstance(a, FP) or isinstance(b, FP):
        return fpbin('/', a, b)
    if isinstance(a, Cond):
        a = int(bool(a))
    if isinstance(b, Cond):
        b = int(bool(b))
    if b == 0:
        if a == 0:
            return math.nan
        return math.inf if a > 0 else -math.inf
    return qdiv(a, b)


def pstr(n, lim=12):
    if not n:
        return '0'
    out = []
    p = P()
    for k, (m, c) in enumerate(sorted(n.items(), key=lambda t: okey(t[0]))):
        if k >= lim:
            out.append('... %d terms' % len(n))
            break
        s = '*'.join(p.vname(v) for v in m)
        out.append(str(c) if not s else (s if c == 1 else '%s*%s' % (c, s)))
    return ' + '.join(out)


# ------------------------------------------------------------------ machine integers
def irange(n):
    """interval of an integer polynomial"""
    p = P()
    lo = hi = 0
    for m, c in n.items():
        a, b = 1, 1
        i = 0
        while i < len(m):
            j = i
            while j < len(m) and m[j] == m[i]:
                j += 1
            e = j - i
            l, h = p.bounds[m[i]]
            if e % 2 == 0:
                x = [abs(l) ** e, abs(h) ** e]
                l2 = 0 if l <= 0 <= h else min(x)
                h2 = max(x)
            else:
                l2, h2 = l ** e, h ** e
            ps = (a * l2, a * h2, b * l2, b * h2)
            a, b = min(ps), max(ps)
            i = j
        if c >= 0:
            lo += c * a
            hi += c * b
        else:
            lo += c * b
            hi += c * a
    return lo, hi


def wrap_int(s, w):
    """reduce coefficients modulo 2^w and check the value cannot leave the signed range"""
    M = 1 << w
    H = M >> 1
    n = s.n
    if any(c >= H or c < -H for c in n.values()):
        n = {}
        for m, c in s.n.items():
            c = (c + H) % M - H
            if c:
                n[m] = c
        if not n:
            return 0
        if len(n) == 1 and () in n:
            return n[()] % M
        s = Sym(n)
    lo, hi = irange(n)
    if w == 64:
        if lo < -H or hi >= M:
            P().overflow(w)
    elif lo < -H or hi >= H:
        P().overflow(w)
    return s


# ------------------------------------------------------------------ conditions
class Cond:
    __slots__ = ()

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return P().decide(self)

    def __and__(self, o):
        if o is True or (o.__class__ is int and o & 1):
            return self
        if o is False or o.__class__ is int:
            return 0
        if o.__class__ is Undef:
            return o
        return And_(self, o)

    __rand__ = __and__

    def __or__(self, o):
        if o.__class__ is bool or o.__class__ is int:
            if o == 0:
                return self
            if o == 1:
                return 1
            return int(bool(self)) | o
        if o.__class__ is Undef:
            return o
        return Not_(And_(neg(self), neg(o)))

    __ror__ = __or__

    def __invert__(self):
        return neg(self)

    def __eq__(self, o):
        if o.__class__ is int or o.__class__ is bool or o.__class__ is Fraction:
            if o == 0:
                return neg(self)
            if o == 1:
                return self
            return False
        if isinstance(o, Cond):
            return iff(self, o)
        return int(bool(self)) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return neg(r) if isinstance(r, Cond) else not r

    def _i(self):
        return int(bool(self))

    def __add__(self, o):
        return self._i() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o
    __rmul__ = __mul__

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o

    def __neg__(self):
        return -self._i()

    def __index__(self):
        return self._i()

    __int__ = __index__


class Atom(Cond):
    """poly op 0, op in '==','!=','<','<='; poly primitive; '<'/'<=' with sign s: s*poly op 0"""
    __slots__ = ('op', 'p', 'k')

    def __init__(self, op, p, k=None):
        self.op = op
        self.p = p
        self.k = k

    def __repr__(self):
        return '%s %s 0' % (pstr(self.p), self.op)


class And_(Cond):
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a = a
        self.b = b

    def __repr__(self):
        return '(%r & %r)' % (self.a, self.b)


class Not_(Cond):
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def __repr__(self):
        return '!(%r)' % (self.a,)


class Iff_(Cond):
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a = a
        self.b = b

    def __repr__(self):
        return '(%r <=> %r)' % (self.a, self.b)


class Z3B(Cond):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return str(self.e)[:200]


class BVar(Cond):
    """a boolean variable"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return P().vname(self.v)


def iff(a, b):
    if a is b:
        return True
    return Iff_(a, b)


def neg(c):
    if c.__class__ is bool or c.__class__ is int:
        return 1 - (c & 1)
    if c.__class__ is Not_:
        return c.a
    if c.__class__ is Atom:
        op = c.op
        if op == '==':
            return Atom('!=', c.p, c.k)
        if op == '!=':
            return Atom('==', c.p, c.k)
        n = {m: -x for m, x in c.p.items()}
        return Atom('<=' if op == '<' else '<', n)
    if c.__class__ is Z3B:
        return Z3B(z3.Not(c.e))
    return Not_(c)


def cmp0(s, op):
    """condition  s op 0"""
    if s.__class__ is Sym:
        n = s.n
        p = P()
        if op == '==' or op == '!=':
            if p.special:
                r = abs_zero(n)
                if r is not None:
                    return r if op == '==' else neg(r)
            c, q = primitive(n)
            a = Atom(op, q)
        else:
            # multiply by the sign of the denominator
            fl = [f for f, e in s.d if e % 2]
            for f in fl:
                sg = p.facsign(f)
                if sg < 0:
                    n = {m: -x for m, x in n.items()}
                elif sg == 0:
                    n = pmul(n, p.facs[f])
                    if p.special:
                        t = reduce_special(n, ())
                        if t.__class__ is not Sym:
                            return (t < 0) if op == '<' else (t <= 0)
                        if t.d:
                            return cmp0(t, op)
                        n = t.n
            if p.special:
                r = abs_cmp(n, op)
                if r is not None:
                    return r
            c = content(n)
            if c != 1:
                n = {m: qdiv(x, c) for m, x in n.items()}
            a = Atom(op, n)
        r = p.known(a)
        if r is not None:
            return r
        return a
    if s.__class__ is float:
        return {'==': s == 0, '!=': s != 0, '<': s < 0, '<=': s <= 0}[op]
    if s.__class__ is Undef:
        P().undef_use()
    if op == '==':
        return s == 0
    if op == '!=':
        return s != 0
    if op == '<':
        return s < 0
    return s <= 0


def abs_zero(n):
    """n == 0 where n = c*|x|  ->  x == 0"""
    if len(n) == 1:
        (m, c), = n.items()
        if len(m) == 1 and m[0] in P().absof:
            return cmp0(P().absof[m[0]], '==')
    return None


def abs_cmp(n, op):
    """comparisons linear in one |x|"""
    p = P()
    if len(n) <= 2:
        lin = [(m, c) for m, c in n.items() if m]
        if len(lin) == 1 and len(lin[0][0]) == 1 and lin[0][0][0] in p.absof:
            x = p.absof[lin[0][0][0]]
            c = lin[0][1]
            d = n.get((), 0)
            # c*|x| + d op 0
            if d == 0:
                if c > 0:
                    return cmp0(x, '==') if op == '<=' else False
                return True if op == '<=' else cmp0(x, '!=')
            k = -Fraction(d) / c
            if c > 0:   # |x| op k
                if k < 0:
                    return False
                a, b = cmp0(x - k, op), cmp0(-k - x, op)
                return andc(a, b)
            # |x| >= k or |x| > k
            if k < 0:
                return True
            o2 = '<' if op == '<=' else '<='
            return neg(andc(cmp0(x - k, o2), cmp0(-k - x, o2)))
    return None


def andc(a, b):
    if a.__class__ is bool or a.__class__ is int:
        return b if a else False
    if b.__class__ is bool or b.__class__ is int:
        return a if b else False
    return And_(a, b)


# ------------------------------------------------------------------ bit-vectors
class BV:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return str(self.e)[:200]

    def _c(self, o):
        if o.__class__ is BV:
            return o.e
        if o.__class__ is int or o.__class__ is bool:
            return z3.BitVecVal(o, self.e.size())
        if isinstance(o, Cond):
            return z3.If(P().z3cond(o), z3.BitVecVal(1, self.e.size()), z3.BitVecVal(0, self.e.size()))
        raise Unsupported('bv operand')

    def __add__(self, o):
        return BV(self.e + self._c(o))
    __radd__ = __add__

    def __sub__(self, o):
        return BV(self.e - self._c(o))

    def __rsub__(self, o):
        return BV(self._c(o) - self.e)

    def __mul__(self, o):
        return BV(self.e * self._c(o))
    __rmul__ = __mul__

    def __and__(self, o):
        if o.__class__ is int and o == (1 << self.e.size()) - 1:
            return self
        return BV(self.e & self._c(o))
    __rand__ = __and__

    def __or__(self, o):
        return BV(self.e | self._c(o))
    __ror__ = __or__

    def __xor__(self, o):
        return BV(self.e ^ self._c(o))
    __rxor__ = __xor__

    def __lt__(self, o):
        return zb(z3.ULT(self.e, self._c(o)))

    def __le__(self, o):
        return zb(z3.ULE(self.e, self._c(o)))

    def __gt__(self, o):
        return zb(z3.ULT(self._c(o), self.e))

    def __ge__(self, o):
        return zb(z3.ULE(self._c(o), self.e))

    def __eq__(self, o):
        return zb(self.e == self._c(o))

    def __ne__(self, o):
        return zb(self.e != self._c(o))

    def __bool__(self):
        return bool(self != 0)


def zb(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return Z3B(e)


# ------------------------------------------------------------------ IEEE doubles
RNE = z3.RNE()
D64 = z3.Float64()
F32 = z3.Float32()


def fpc(o):
    if o.__class__ is FP:
        return o.e
    if o.__class__ is bool:
        o = int(o)
    if isinstance(o, Cond):
        return z3.If(P().z3cond(o), z3.FPVal(1.0, D64), z3.FPVal(0.0, D64))
    if o.__class__ in (int, float, Fraction):
        return z3.FPVal(float(o), D64)
    raise Unsupported('fp operand %r' % (o,))


def fpbin(op, a, b):
    if a.__class__ is Undef or b.__class__ is Undef:
        return UNDEF
    a = fpc(a)
    b = fpc(b)
    if op == '+':
        return FP(z3.fpAdd(RNE, a, b))
    if op == '-':
        return FP(z3.fpSub(RNE, a, b))
    if op == '*':
        return FP(z3.fpMul(RNE, a, b))
    return FP(z3.fpDiv(RNE, a, b))


class FP:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return str(self.e)[:200]

    def __add__(self, o):
        return fpbin('+', self, o)

    def __radd__(self, o):
        return fpbin('+', o, self)

    def __sub__(self, o):
        return fpbin('-', self, o)

    def __rsub__(self, o):
        return fpbin('-', o, self)

    def __mul__(self, o):
        return fpbin('*', self, o)

    def __rmul__(self, o):
        return fpbin('*', o, self)

    def __neg__(self):
        return FP(z3.fpNeg(self.e))

    def __lt__(self, o):
        return zb(z3.fpLT(self.e, fpc(o)))

    def __le__(self, o):
        return zb(z3.fpLEQ(self.e, fpc(o)))

    def __gt__(self, o):
        return zb(z3.fpLT(fpc(o), self.e))

    def __ge__(self, o):
        return zb(z3.fpLEQ(fpc(o), self.e))

    def __eq__(self, o):
        return zb(z3.fpEQ(self.e, fpc(o)))

    def __ne__(self, o):
        return zb(z3.Not(z3.fpEQ(self.e, fpc(o))))

    def __bool__(self):
        return bool(self != 0)
