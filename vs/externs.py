"""Environment model: C/C++ runtime, allocation, exceptions, streams, strings, harness intrinsics.

Everything that is not defined in the translation unit itself is defined here;
an unknown external function makes the path 'unsupported' (never a pass).
"""
import math
import re
from fractions import Fraction
from . import sym, engine
from .sym import Sym, Cond, BV, FP, UNDEF, Undef, Unsupported, BVar, isnum, andc
from .engine import (OBJ, MM, M1, M2, M4, M8, SH, OFFM, M64, PathEnd, CxxThrow, newobj, freeobj, concretize, fault,
                     addr_check, LD, ST, MEMCPY, MEMSET, readcstr)

TABLE = {}
PATTERNS = []


def ext(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def pat(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


def P():
    return sym.PATH[0]


S = {}      # per-path mutable state
PROG = [None]


def setup(prog):
    PROG[0] = prog


def reset(prog):
    S.clear()
    S['strs'] = {}      # std::string address -> token list
    S['streams'] = {}   # address -> Stream
    S['files'] = {}     # name -> token list
    S['statics'] = {}
    S['caught'] = []
    S['exc'] = {}       # exception object -> (ti, dtor)
    S['depth'] = 0
    S['cstr'] = {}


def lookup(name):
    f = TABLE.get(name)
    if f is not None:
        return f
    for rx, g in PATTERNS:
        if rx.match(name):
            return g(name) if getattr(g, 'factory', False) else g
    return None


# ------------------------------------------------------------------ allocation
def _alloc(n, kind):
    if n.__class__ is not int:
        n = concretize(n)
    if n > (1 << 31):
        if kind == 'malloc':
            return 0
        throw_std('_ZTISt9bad_alloc', 'std::bad_alloc')
    return newobj(n, kind, 'of %d bytes' % n)


def fails():
    """fault injection: is this the allocation that fails"""
    p = P()
    if p.allocfail:
        p.allocfail -= 1
        if p.allocfail == 0:
            return True
    return False


@ext('malloc')
def c_malloc(n):
    if fails():
        return 0
    return _alloc(n, 'malloc')


@ext('calloc')
def c_calloc(a, b):
    n = (a * b) & M64
    if fails():
        return 0
    p = _alloc(n, 'malloc')
    if p:
        MEMSET(p, 0, n)
    return p


def _free(p, kind, fn):
    if p.__class__ is not int:
        p = concretize(p)
    if p == 0:
        return
    o = OBJ.get(p >> SH)
    if o is None:
        fault('%s of a wild pointer' % fn)
    if not o.alive:
        fault('%s of already released memory (double free)' % fn)
    if p & OFFM:
        fault('%s of an interior pointer' % fn)
    if o.kind != kind:
        fault('%s of memory from %s' % (fn, o.kind))
    freeobj(p)


@ext('free', 'cfree')
def c_free(p):
    _free(p, 'malloc', 'free')


@ext('realloc')
def c_realloc(p, n):
    if n.__class__ is not int:
        n = concretize(n)
    if (n or not p) and fails():
        return 0
    if p == 0:
        return _alloc(n, 'malloc')
    o = OBJ.get(p >> SH)
    if o is None or not o.alive or o.kind != 'malloc' or p & OFFM:
        fault('realloc of an invalid pointer')
    if n == 0:
        freeobj(p)
        return 0
    q = _alloc(n, 'malloc')
    if q == 0:
        return 0
    MEMCPY(q, p, min(n, o.size))
    freeobj(p)
    return q


@ext('_Znwm', '_ZnwmRKSt9nothrow_t', '_ZnwmSt11align_val_t')
def cxx_new(n, *a):
    if fails():
        throw_std('_ZTISt9bad_alloc', 'std::bad_alloc')
    return _alloc(n, 'new')


@ext('_Znam', '_ZnamRKSt9nothrow_t')
def cxx_newa(n, *a):
    if fails():
        throw_std('_ZTISt9bad_alloc', 'std::bad_alloc')
    return _alloc(n, 'new[]')


@ext('_ZdlPv', '_ZdlPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def cxx_del(p, *a):
    _free(p, 'new', 'operator delete')


@ext('_ZdaPv', '_ZdaPvm')
def cxx_dela(p, *a):
    _free(p, 'new[]', 'operator delete[]')


# ------------------------------------------------------------------ mem/str
@ext('memcpy', 'memmove')
def c_memcpy(d, s, n):
    return MEMCPY(d, s, n)


@ext('memset')
def c_memset(d, v, n):
    return MEMSET(d, v, n)


@ext('memcmp')
def c_memcmp(a, b, n):
    if n.__class__ is not int:
        n = concretize(n)
    i = 0
    while i < n:
        for sz in (8, 4, 2, 1):
            if i + sz <= n and MM[sz].get(a + i) is not None and MM[sz].get(b + i) is not None:
                x, y = MM[sz][a + i], MM[sz][b + i]
                break
        else:
            sz = 1
            x, y = LD(a + i, 1), LD(b + i, 1)
        if not (x is y or bool(x == y)):
            if sz == 1:
                return 1 if x > y else 0xffffffff
            return 1
        i += sz
    return 0


@ext('strlen')
def c_strlen(a):
    return len(readcstr(a))


@ext('strcmp')
def c_strcmp(a, b):
    x, y = readcstr(a), readcstr(b)
    return 0 if x == y else (1 if x > y else 0xffffffff)


# ------------------------------------------------------------------ exceptions
def _std(n, *bases):
    return n, bases


STD_BASES = {
    '_ZTISt9exception': [],
    '_ZTISt9bad_alloc': ['_ZTISt9exception'],
    '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'],
    '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt13runtime_error': ['_ZTISt9exception'],
    '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
    '_ZTISt12domain_error': ['_ZTISt11logic_error'],
    '_ZTISt12length_error': ['_ZTISt11logic_error'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
    '_ZTISt11range_error': ['_ZTISt13runtime_error'],
    '_ZTISt14overflow_error': ['_ZTISt13runtime_error'],
    '_ZTISt15underflow_error': ['_ZTISt13runtime_error'],
    '_ZTISt8bad_cast': ['_ZTISt9exception'],
    '_ZTISt17bad_function_call': ['_ZTISt9exception'],
    '_ZTINSt8ios_base7failureB5cxx11E': ['_ZTISt13runtime_error'],
}


def throw_std(ti, what):
    p = newobj(64, 'exc', what)
    S['exc'][p] = (ti, 0)
    raise CxxThrow(p, ti)


@ext('__cxa_allocate_exception')
def cxa_alloc(n):
    return newobj(n + 64, 'exc', 'exception')


@ext('__cxa_free_exception')
def cxa_freeexc(p):
    freeobj(p)


@ext('__cxa_throw')
def cxa_throw(p, ti, dtor):
    n = PROG[0].tiname(ti)
    S['exc'][p] = (n, dtor)
    raise CxxThrow(p, n)


@ext('__cxa_begin_catch')
def cxa_begin(p):
    S['caught'].append(p)
    return p


@ext('__cxa_get_exception_ptr')
def cxa_getptr(p):
    return p


@ext('__cxa_end_catch')
def cxa_end():
    p = S['caught'].pop()
    if p in S['caught'] or S.get('rethrown') == p:
        S['rethrown'] = None
        return
    ti, dtor = S['exc'].get(p, (None, 0))
    if dtor:
        try:
            PROG[0].icall(dtor)(p)
        except Unsupported:
            pass
    if OBJ[p >> SH].alive:
        freeobj(p)


@ext('__cxa_rethrow')
def cxa_rethrow():
    p = S['caught'][-1]
    S['rethrown'] = p
    raise CxxThrow(p, S['exc'][p][0])


@ext('__clang_call_terminate', '_ZSt9terminatev', '__cxa_call_unexpected')
def terminate(*a):
    raise PathEnd('abort', 'std::terminate')


@ext('abort')
def c_abort():
    raise PathEnd('abort', 'abort()')


@ext('exit', '_Exit', 'quick_exit')
def c_exit(c):
    raise PathEnd('exit', str(c))


@ext('__assert_fail')
def assert_fail(e, f, l, fn):
    raise PathEnd('abort', 'assertion `%s` failed' % readcstr(e))


@ext('__cxa_pure_virtual')
def pure_virtual():
    fault('pure virtual function called')


@ext('__cxa_guard_acquire')
def guard_acquire(p):
    return 0 if LD(p, 1) & 1 else 1


@ext('__cxa_guard_release')
def guard_release(p):
    if p in M8:
        M8[p] = 1
    else:
        ST(p, 1, 1)


@ext('__cxa_guard_abort', '__cxa_atexit', '__cxa_thread_atexit', '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev')
def nop0(*a):
    return 0


@ext('__gxx_personality_v0')
def pers(*a):
    return 0


@pat(r'^_ZNSt\d+(logic_error|runtime_error|invalid_argument|domain_error|length_error|out_of_range|range_error|overflow_error|underflow_error)[CD][012]E')
def std_exc(*a):
    return None


@pat(r'^_ZNSt9(exception|bad_alloc)[CD][012]E')
def std_exc2(*a):
    return None


@pat(r'^_ZNKSt\d+\w+4whatEv$')
def std_what(*a):
    b = newobj(8, 'const', 'what')
    M1[b] = 0
    OBJ[b >> SH].cells.append((M1, b))
    return b


@pat(r'^_ZSt\d+__throw_(\w+?)(PKcz?|v|i)$')
def std_throw(name):
    k = re.match(r'^_ZSt\d+__throw_(\w+?)(PKcz?|v|i)$', name).group(1)
    k = {'out_of_range_fmt': 'out_of_range', 'bad_array_new_length': 'bad_array_new_length'}.get(k, k)
    ti = '_ZTISt%d%s' % (len(k), k)

    def f(*a):
        throw_std(ti, k)
    return f


std_throw.factory = True


# ------------------------------------------------------------------ containers of the C++ runtime library
def ptr(a):
    v = LD(a, 8)
    return v if v.__class__ is int else concretize(v)


@ext('_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_')
def rb_insert(left, x, p, h):
    """an (unbalanced) binary search tree: the order of its elements does not depend on its shape"""
    ST(x, 4, 1)
    ST(x + 8, 8, p)
    ST(x + 16, 8, 0)
    ST(x + 24, 8, 0)
    if bool(left) if not isinstance(left, Cond) else concretize(left):
        ST(p + 16, 8, x)
        if p == h:
            ST(h + 8, 8, x)
            ST(h + 24, 8, x)
        elif ptr(h + 16) == p:
            ST(h + 16, 8, x)
    else:
        ST(p + 24, 8, x)
        if ptr(h + 24) == p:
            ST(h + 24, 8, x)


@ext('_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base')
def rb_inc(x):
    r = ptr(x + 24)
    if r:
        while ptr(r + 16):
            r = ptr(r + 16)
        return r
    y = ptr(x + 8)
    while x == ptr(y + 24):
        x, y = y, ptr(y + 8)
    return y if ptr(x + 24) != y else x


@ext('_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base')
def rb_dec(x):
    if LD(x, 4) == 0 and ptr(ptr(x + 8) + 8) == x:      # the header
        return ptr(x + 24)
    y = ptr(x + 16)
    if y:
        while ptr(y + 24):
            y = ptr(y + 24)
        return y
    y = ptr(x + 8)
    while x == ptr(y + 16):
        x, y = y, ptr(y + 8)
    return y


@ext('_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_')
def rb_erase(z, h):
    l, r, p = ptr(z + 16), ptr(z + 24), ptr(z + 8)

    def put(new):
        if ptr(h + 8) == z:
            ST(h + 8, 8, new)
        elif ptr(p + 16) == z:
            ST(p + 16, 8, new)
        else:
            ST(p + 24, 8, new)
        if new:
            ST(new + 8, 8, p)
    if l and r:
        y = r
        while ptr(y + 16):
            y = ptr(y + 16)
        if y != r:
            yp, yr = ptr(y + 8), ptr(y + 24)
            ST(yp + 16, 8, yr)
            if yr:
                ST(yr + 8, 8, yp)
            ST(y + 24, 8, r)
            ST(r + 8, 8, y)
        put(y)
        ST(y + 16, 8, l)
        ST(l + 8, 8, y)
    else:
        x = l or r
        put(x)
        if ptr(h + 16) == z:
            m = x or p
            while x and ptr(m + 16):
                m = ptr(m + 16)
            ST(h + 16, 8, m)
        if ptr(h + 24) == z:
            m = x or p
            while x and ptr(m + 24):
                m = ptr(m + 24)
            ST(h + 24, 8, m)
    return z


@ext('_ZNSt8__detail15_List_node_base7_M_hookEPS0_')
def list_hook(a, pos):
    ST(a, 8, pos)
    v = ptr(pos + 8)
    ST(a + 8, 8, v)
    ST(v, 8, a)
    ST(pos + 8, 8, a)


@ext('_ZNSt8__detail15_List_node_base9_M_unhookEv')
def list_unhook(a):
    n, p = ptr(a), ptr(a + 8)
    ST(p, 8, n)
    ST(n + 8, 8, p)


@ext('_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_')
def list_transfer(a, f, l):
    if a == l:
        return
    ST(ptr(l + 8), 8, a)
    ST(ptr(f + 8), 8, l)
    ST(ptr(a + 8), 8, f)
    t = ptr(a + 8)
    ST(a + 8, 8, ptr(l + 8))
    ST(l + 8, 8, ptr(f + 8))
    ST(f + 8, 8, t)


@ext('_ZNSt8__detail15_List_node_base10_M_reverseEv')
def list_reverse(a):
    x = a
    while True:
        n, p = ptr(x), ptr(x + 8)
        ST(x, 8, p)
        ST(x + 8, 8, n)
        x = n
        if x == a:
            return


@ext('_ZNSt8__detail15_List_node_base4swapERS0_S1_')
def list_swap(x, y):
    ex, ey = ptr(x) == x, ptr(y) == y
    if ex and ey:
        return
    nx, px, ny, py = ptr(x), ptr(x + 8), ptr(y), ptr(y + 8)
    for a, n, p, e in ((x, ny, py, ey), (y, nx, px, ex)):
        if e:
            n = p = a
        ST(a, 8, n)
        ST(a + 8, 8, p)
        if not e:
            ST(n + 8, 8, a)
            ST(p, 8, a)


def prime(n):
    if n < 14:
        return (2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13)[n]
    for q in (17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167,
              179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823,
              887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739):
        if q >= n:
            return q
    raise Unsupported('hash table of %d buckets' % n)


@ext('_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm')
def next_bkt(a, n):
    if n == 0:
        return 1
    b = prime(n)
    ST(a + 8, 8, int(b * LD(a, 4)))
    return b


@ext('_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm')
def need_rehash(a, nb, ne, ni):
    lf, nr = LD(a, 4), ptr(a + 8)
    if ne + ni > nr:
        m = Fraction(max(ne + ni, 0 if nr else 11)) / lf
        if m >= nb:
            return (1, next_bkt(a, max(int(m) + 1, nb * 2)))
        ST(a + 8, 8, int(nb * lf))
    return (0, 0)


@ext('_ZSt11_Hash_bytesPKvmm')
def hash_bytes(p, n, seed):
    h = seed
    for i in range(n):
        b = LD(p + i, 1)
        h = (h * 1099511628211 ^ (b if b.__class__ is int else concretize(b))) & M64
    return h


# ------------------------------------------------------------------ libm
def libm(n, k=None):
    def f(*a):
        return engine.LIBM(k or n, *a)
    TABLE[n] = f


for _n in ('sin', 'cos', 'tan', 'exp', 'log', 'log2', 'log10', 'pow', 'exp2', 'floor', 'ceil', 'trunc', 'round', 'atan2',
           'rint', 'nearbyint', 'ldexp', 'tanh', 'sinh', 'cosh', 'atan', 'asin', 'acos', 'expm1', 'log1p', 'cbrt'):
    libm(_n)
TABLE['fmax'] = lambda a, b: engine.LIBM('maxnum', a, b)
TABLE['fmin'] = lambda a, b: engine.LIBM('minnum', a, b)
TABLE['sqrt'] = lambda a: engine.SQRT(a)
TABLE['fabs'] = lambda a: engine.FABS(a)


@ext('fdim')
def c_fdim(a, b):
    return engine.LIBM('maxnum', a - b, 0)


@ext('lround', 'llround')
def c_lround(a):
    if isnum(a) and a == a and abs(a) != math.inf:
        f = Fraction(a)
        return (int(abs(f) + Fraction(1, 2)) * (1 if f >= 0 else -1)) & M64
    raise Unsupported('lround of a symbolic value')


@ext('frexp')
def c_frexp(a, p):
    if isnum(a) and a == a and abs(a) != math.inf:
        m, e = math.frexp(a)
        ST(p, 4, e & 0xffffffff)
        return Fraction(m) if m else 0
    raise Unsupported('frexp of a symbolic value')


@ext('modf')
def c_modf(a, p):
    if isnum(a) and a == a and abs(a) != math.inf:
        i = int(a)
        ST(p, 8, i)
        return sym.qnorm(Fraction(a) - i)
    raise Unsupported('modf of a symbolic value')


@ext('nextafter')
def c_nextafter(a, b):
    if isnum(a) and isnum(b):
        return sym.qnorm(Fraction(math.nextafter(float(a), float(b))))
    raise Unsupported('nextafter of a symbolic value')


def other_precisions(n):
    f = TABLE[n]
    TABLE.setdefault(n + 'f', lambda *a: engine.FPTRUNC(f(*a), 32))
    TABLE.setdefault(n + 'l', f)


for _n in ('sin', 'cos', 'tan', 'exp', 'log', 'log2', 'log10', 'pow', 'exp2', 'floor', 'ceil', 'trunc', 'round', 'sqrt', 'fabs', 'fmax', 'fmin'):
    other_precisions(_n)
TABLE['abs'] = lambda a: engine.IINTR('abs', 32, a)
TABLE['labs'] = lambda a: engine.IINTR('abs', 64, a)
TABLE['fma'] = lambda a, b, c: a * b + c


@ext('fmod')
def c_fmod(a, b):
    return engine.FREM(a, b)


@ext('hypot', 'cabs')
def c_hypot(a, b):
    if a.__class__ is FP or b.__class__ is FP:
        raise Unsupported('hypot on binary64 terms')
    if a.__class__ is float or b.__class__ is float:
        if any(x.__class__ is float and math.isinf(x) for x in (a, b)):
            return math.inf
        return math.nan
    if a.__class__ is Undef or b.__class__ is Undef:
        return UNDEF
    return engine.SQRT(a * a + b * b)


@ext('carg')
def c_carg(a, b):
    return engine.LIBM('atan2', b, a)


def _cuf(name):
    def f(a, b):
        if isnum(a) and isnum(b) and a == 0 and b == 0:
            if name == 'cexp':
                return (1, 0)
            if name in ('csin', 'csqrt'):
                return (0, 0)
            if name == 'ccos':
                return (1, 0)
        if name == 'csqrt':
            return engine.CSQRT(a, b)
        if name == 'cexp' and isnum(b) and b == 0:
            return (engine.LIBM('exp', a), 0)
        return (engine.uf(name + '_re', a, b), engine.uf(name + '_im', a, b))
    TABLE[name] = f


for _n in ('cexp', 'clog', 'csqrt', 'csin', 'ccos', 'ctan'):
    _cuf(_n)


@ext('cpow')
def c_cpow(a, b, c, d):
    return (engine.uf('cpow_re', a, b, c, d), engine.uf('cpow_im', a, b, c, d))


@ext('__muldc3', '__mulsc3')
def muldc3(a, b, c, d):
    return (a * c - b * d, a * d + b * c)


@ext('__divdc3', '__divsc3')
def divdc3(a, b, c, d):
    den = c * c + d * d
    if den.__class__ is not Sym and den == 0:
        return (math.nan, math.nan)
    return (sym.fdiv(a * c + b * d, den), sym.fdiv(b * c - a * d, den))


# ------------------------------------------------------------------ strings
# a string is a list of tokens: ('s', text) | ('n', kind, value, precision, flags)
def cat(toks, t):
    if t[0] == 's':
        if not t[1]:
            return
        if toks and toks[-1][0] == 's':
            toks[-1] = ('s', toks[-1][1] + t[1])
            return
    toks.append(t)


def getstr(a):
    s = S['strs'].get(a)
    if s is None:
        fault('use of a std::string that does not exist')
    if S['cstr'] and a in S['cstr']:        # its characters may have been written
        b, n = S['cstr'].pop(a)
        s = []
        cat(s, ('s', chars(b, n)))
        S['strs'][a] = s
    return s


def strtext(a):
    t = getstr(a)
    if not t:
        return ''
    if len(t) == 1 and t[0][0] == 's':
        return t[0][1]
    raise Unsupported('contents of a string with symbolic numbers')


STR = r'NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
STRN = '_Z' + STR
STRK = '_ZNK' + STR[1:]


def setstr(a, toks):
    S['strs'][a] = list(toks)       # the object itself carries no bytes
    S['cstr'].pop(a, None)


def sx_(*names):
    return ext(*names)


@ext(STRN + 'C1Ev', STRN + 'C2Ev')
def str_ctor(a):
    setstr(a, [])


@ext(STRN + 'C2IS3_EEPKcRKS3_', STRN + 'C1IS3_EEPKcRKS3_', STRN + 'C1EPKcRKS3_', STRN + 'C2EPKcRKS3_')
def str_ctor_c(a, s, al):
    t = readcstr(s)
    setstr(a, [('s', t)] if t else [])


@ext(STRN + 'C1ERKS4_', STRN + 'C2ERKS4_')
def str_copy(a, b):
    setstr(a, getstr(b))


@ext(STRN + 'C1EOS4_', STRN + 'C2EOS4_')
def str_move(a, b):
    setstr(a, getstr(b))
    setstr(b, [])


@ext(STRN + 'D1Ev', STRN + 'D2Ev')
def str_dtor(a):
    if S['strs'].pop(a, None) is None:
        fault('destruction of a std::string that does not exist')


@ext(STRN + 'aSERKS4_')
def str_asg(a, b):
    setstr(a, getstr(b))
    return a


@ext(STRN + 'aSEOS4_')
def str_masg(a, b):
    t = getstr(b)
    if a != b:
        setstr(b, [])
    setstr(a, t)
    return a


@ext(STRN + 'aSEPKc', STRN + '6assignEPKc')
def str_casg(a, s):
    t = readcstr(s)
    setstr(a, [('s', t)] if t else [])
    return a


@ext(STRN + 'pLERKS4_', STRN + '6appendERKS4_')
def str_app(a, b):
    for t in list(getstr(b)):
        cat(getstr(a), t)
    return a


@ext(STRN + 'pLEPKc', STRN + '6appendEPKc')
def str_appc(a, s):
    cat(getstr(a), ('s', readcstr(s)))
    return a


@ext(STRN + 'pLEc', STRN + '9push_backEc')
def str_appch(a, c):
    cat(getstr(a), ('s', chr(c)))
    return a


@ext(STRK + '6lengthEv', STRK + '4sizeEv')
def str_len(a):
    n = 0
    for t in getstr(a):
        n += len(t[1]) if t[0] == 's' else numlen(t)
    return n


def numlen(t):
    """printed length of a number: only used by the library to align columns"""
    v = t[2]
    if v.__class__ is int:
        return len(str(v))
    if t[1] == 'i':
        # exact: one path per number of characters
        neg = bool(v < 0)
        n = 1
        while n < 20 and bool(v <= -10 ** n if neg else v >= 10 ** n):
            n += 1
        return n + (1 if neg or t[4] & 0x800 else 0)
    if isinstance(v, Fraction) and not t[4] & 0x104:
        f = '%%.%dg' % t[3] % float(v)
        return len(f) + (1 if t[4] & 0x800 and v >= 0 else 0)
    return 9        # arbitrary real: any fixed length (checks drop the padding then)


@ext(STRK + '5emptyEv')
def str_empty(a):
    return not getstr(a)


@ext(STRN + '5clearEv')
def str_clear(a):
    setstr(a, [])


@ext(STRK + '5c_strEv', STRK + '4dataEv')
def str_cstr(a):
    t = strtext(a).encode('latin-1') + b'\0'
    b = newobj(len(t), 'strbuf', 'c_str')
    o = OBJ[b >> SH]
    for i, c in enumerate(t):
        M1[b + i] = c
        o.cells.append((M1, b + i))
    return b


@ext('_ZStplIcSt11char_traitsIcESaIcEENSt7__cxx1112basic_stringIT_T0_T1_EERKS8_SA_',
     '_ZStplIcSt11char_traitsIcESaIcEENSt7__cxx1112basic_stringIT_T0_T1_EEOS8_S9_',
     '_ZStplIcSt11char_traitsIcESaIcEENSt7__cxx1112basic_stringIT_T0_T1_EEOS8_RKS8_',
     '_ZStplIcSt11char_traitsIcESaIcEENSt7__cxx1112basic_stringIT_T0_T1_EERKS8_OS8_')
def str_plus(r, a, b):
    x, y = list(getstr(a)), list(getstr(b))
    for t in y:
        cat(x, t)
    setstr(r, x)


@ext('_ZStplIcSt11char_traitsIcESaIcEENSt7__cxx1112basic_stringIT_T0_T1_EERKS8_PKS5_',
     '_ZStplIcSt11char_traitsIcESaIcEENSt7__cxx1112basic_stringIT_T0_T1_EEOS8_PKS5_')
def str_plusc(r, a, s):
    x = list(getstr(a))
    cat(x, ('s', readcstr(s)))
    setstr(r, x)


@ext('_ZStplIcSt11char_traitsIcESaIcEENSt7__cxx1112basic_stringIT_T0_T1_EEPKS5_RKS8_',
     '_ZStplIcSt11char_traitsIcESaIcEENSt7__cxx1112basic_stringIT_T0_T1_EEPKS5_OS8_')
def str_cplus(r, s, b):
    x = []
    cat(x, ('s', readcstr(s)))
    for t in getstr(b):
        cat(x, t)
    setstr(r, x)


@ext('_ZNSt7__cxx119to_stringEi', '_ZNSt7__cxx119to_stringEm', '_ZNSt7__cxx119to_stringEl',
     '_ZNSt7__cxx119to_stringEj')
def str_tostr(r, v):
    setstr(r, [('s', str(v))] if v.__class__ is int else [('n', 'i', v, 6, 0)])


@ext('_ZNSt7__cxx119to_stringEd')
def str_tostrd(r, v):
    setstr(r, [('n', 'f', v, 6, 4)])


NPOS = M64


def _i(n):
    return n if n.__class__ is int else concretize(n)


def settext(a, t):
    setstr(a, [('s', t)] if t else [])
    return a


def chars(p, n):
    return ''.join(chr(_i(LD(p + i, 1))) for i in range(_i(n)))


def _pos(p, t, what):
    if _i(p) > len(t):
        throw_std('_ZTISt12out_of_range', what)
    return _i(p)


@ext(STRN + 'C1EmcRKS3_', STRN + 'C2EmcRKS3_', STRN + 'C2IS3_EEmcRKS3_', STRN + 'C1IS3_EEmcRKS3_')
def str_fillctor(a, n, c, al):
    settext(a, chr(_i(c)) * _i(n))


@ext(STRN + 'C1EPKcmRKS3_', STRN + 'C2EPKcmRKS3_', STRN + 'C2IS3_EEPKcmRKS3_', STRN + 'C1IS3_EEPKcmRKS3_')
def str_bufctor(a, s, n, al):
    settext(a, chars(s, n))


@ext(STRN + 'C1ERKS4_mm', STRN + 'C2ERKS4_mm', STRK + '6substrEmm')
def str_sub(a, b, p, n):
    if p == 0 and _i(n) == NPOS:
        return str_copy(a, b)
    t = strtext(b)
    p = _pos(p, t, 'substr')
    settext(a, t[p:p + _i(n)])


@ext(STRN + '6appendEmc')
def str_appn(a, n, c):
    cat(getstr(a), ('s', chr(_i(c)) * _i(n)))
    return a


@ext(STRN + '6appendEPKcm')
def str_appbuf(a, s, n):
    cat(getstr(a), ('s', chars(s, n)))
    return a


@ext(STRN + 'aSEc', STRN + '6assignEmc')
def str_asgc(a, c, d=None):
    return settext(a, chr(_i(c)) if d is None else chr(_i(d)) * _i(c))


@ext(STRN + '6assignERKS4_')
def str_asgs(a, b):
    return str_asg(a, b)


@ext(STRN + '6assignEPKcm')
def str_asgbuf(a, s, n):
    return settext(a, chars(s, n))


@ext(STRN + '6insertEmPKc', STRN + '6insertEmRKS4_')
def str_ins(a, p, s):
    x = S['strs'].get(s)
    if p == 0:
        new = [('s', readcstr(s))] if x is None else list(x)
        for k in list(getstr(a)):
            cat(new, k)
        setstr(a, new)
        return a
    t = strtext(a)
    p = _pos(p, t, 'insert')
    return settext(a, t[:p] + (readcstr(s) if x is None else strtext(s)) + t[p:])


@ext(STRN + '6insertEmmc')
def str_insn(a, p, n, c):
    t = strtext(a)
    p = _pos(p, t, 'insert')
    return settext(a, t[:p] + chr(_i(c)) * _i(n) + t[p:])


@ext(STRN + '5eraseEmm')
def str_erase(a, p, n):
    t = strtext(a)
    p = _pos(p, t, 'erase')
    return settext(a, t[:p] + t[p + _i(n):])


@ext(STRN + '7replaceEmmPKc', STRN + '7replaceEmmRKS4_')
def str_repl(a, p, n, s):
    t = strtext(a)
    p = _pos(p, t, 'replace')
    return settext(a, t[:p] + (strtext(s) if s in S['strs'] else readcstr(s)) + t[p + _i(n):])


@ext(STRN + '8pop_backEv')
def str_pop(a):
    k = getstr(a)
    if not k or k[-1][0] != 's':
        raise Unsupported('pop_back of a symbolic number')
    setstr(a, k[:-1] + ([('s', k[-1][1][:-1])] if len(k[-1][1]) > 1 else []))


@ext(STRN + '6resizeEmc')
def str_resize(a, n, c):
    t = strtext(a)
    settext(a, t[:_i(n)] + chr(_i(c)) * max(0, _i(n) - len(t)))


@ext(STRN + '6resizeEm')
def str_resize0(a, n):
    str_resize(a, n, 0)


@ext(STRN + '7reserveEm', STRN + '7reserveEv', STRN + '13shrink_to_fitEv')
def str_reserve(a, n=0):
    return None


@ext(STRK + '8capacityEv')
def str_capacity(a):
    return max(15, str_len(a))


@ext(STRN + '4swapERS4_')
def str_swap(a, b):
    x, y = getstr(a), getstr(b)
    setstr(a, y)
    setstr(b, x)


def _find(name):
    def f(a, s, *r):
        t = strtext(a)
        if name.endswith('c'):
            x, p = chr(_i(s)), _i(r[0])
        else:
            x = strtext(s) if s in S['strs'] else readcstr(s)
            p = _i(r[0])
            if len(r) > 1:
                x = chars(s, r[1])
        if name[0] == 'r':
            i = t.rfind(x, 0, min(len(t), p + len(x)))
        else:
            i = t.find(x, p)
        return i & M64
    return f


for _k, _n in (('f', '4find'), ('r', '5rfind')):
    for _s in ('Ecm', 'EPKcm', 'ERKS4_m', 'EPKcmm'):
        TABLE[STRK + _n + _s] = _find(_k + ('c' if _s == 'Ecm' else ''))


@ext(STRK + '7compareERKS4_', STRK + '7compareEPKc')
def str_compare(a, b):
    x, y = strtext(a), strtext(b) if b in S['strs'] else readcstr(b)
    return (0 if x == y else 1 if x > y else -1) & 0xffffffff


for _o, _f in (('lt', lambda x, y: x < y), ('gt', lambda x, y: x > y), ('le', lambda x, y: x <= y), ('ge', lambda x, y: x >= y)):
    TABLE['_ZSt%sIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EESA_' % _o] = \
        (lambda f: lambda a, b: f(strtext(a), strtext(b)))(_f)


@ext('_ZSteqIcSt11char_traitsIcESaIcEEbPKT_RKNSt7__cxx1112basic_stringIS3_T0_T1_EE', '_ZSteqIcEN9__gnu_cxx11__enable_ifIXsr9__is_charIT_EE7__valueEbE6__typeERKNSt7__cxx1112basic_stringIS2_St11char_traitsIS2_ESaIS2_EEESC_')
def str_eqx(a, b):
    x, y = (getstr(z) if z in S['strs'] else [('s', readcstr(z))] for z in (a, b))
    return eqtok(x, y, True)


@ext('_ZStneIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EEPKS5_')
def str_nec(a, s):
    r = str_eqx(a, s)
    return not r if r.__class__ is bool else neg(r)


def _buf(a):
    """the characters of a string as bytes, which the program may write"""
    k = S['cstr'].get(a)
    if k is None:
        n = len(strtext(a))
        k = (str_cstr(a), n)
        S['cstr'][a] = k
    return k[0]


@ext(STRK + '2atEm', STRN + '2atEm')
def str_at(a, i):
    b = _buf(a)
    if _i(i) >= S['cstr'][a][1]:
        throw_std('_ZTISt12out_of_range', 'at')
    return b + _i(i)


@ext(STRK + 'ixEm', STRN + 'ixEm')
def str_ix(a, i):
    return (_buf(a) + i) & M64


@ext(STRK + '5frontEv', STRN + '5frontEv', STRK + '5beginEv', STRN + '5beginEv', STRK + '6cbeginEv', STRN + '4dataEv')
def str_front(a):
    return _buf(a)


@ext(STRK + '4backEv', STRN + '4backEv')
def str_back(a):
    return _buf(a) + S['cstr'][a][1] - 1


@ext(STRK + '3endEv', STRN + '3endEv', STRK + '4cendEv')
def str_end(a):
    return _buf(a) + S['cstr'][a][1]


@ext(STRN + '17_S_to_string_viewESt17basic_string_viewIcS2_E')
def str_tosv(n, p):
    return (n, p)


@ext(STRN + '12__sv_wrapperC1ESt17basic_string_viewIcS2_E', STRN + '12__sv_wrapperC2ESt17basic_string_viewIcS2_E')
def str_svw(a, n, p):
    ST(a, 8, n)
    ST(a + 8, 8, p)


@ext(STRN + 'C1ENS4_12__sv_wrapperERKS3_', STRN + 'C2ENS4_12__sv_wrapperERKS3_')
def str_svctor(a, n, p, al):
    settext(a, chars(p, n))


@ext(STRK + 'cvSt17basic_string_viewIcS2_EEv')
def str_view(a):
    return (str_len(a), _buf(a))


def eqtok(x, y, exact=False):
    """equality of two token lists: True/False/Cond; padding is not part of the comparison"""
    a = flat(x, exact)
    b = flat(y, exact)
    if len(a) != len(b):
        return False
    r = True
    for t, u in zip(a, b):
        if t[0] != u[0]:
            # literal digits against a number token
            n, s = (t, u) if t[0] == 'n' else (u, t)
            v = n[2]
            if v.__class__ is int and s[1] == str(v):
                continue
            return False
        if t[0] == 's':
            if t[1] != u[1]:
                return False
            continue
        if t[3] != u[3] or t[4] != u[4]:
            return False
        c = t[2] == u[2]
        if c is False or (c.__class__ is int and not c):
            return False
        r = andc(r, c)
    return r


def flat(t, exact=False):
    """split text in tokens at number boundaries; padding is dropped, or (exact) made of spaces"""
    out = []
    w = 0
    for x in t:
        if x[0] == 'w':
            w = x[1]
            continue
        if exact and w:
            n = len(x[1]) if x[0] == 's' else numlen(x)
            cat(out, ('s', ' ' * max(0, w - n)))
            w = 0
        if x[0] == 's' and out and out[-1][0] == 's':
            out[-1] = ('s', out[-1][1] + x[1])
        else:
            out.append(x)
    return out


@ext('_ZSteqIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EESA_',
     '_ZSteqIcEN9__gnu_cxx11__enable_ifIXsr9__is_charIT_EE7__valueEbE6__typeERKNSt7__cxx1112basic_stringIS2_St11char_traitsIS2_ESaIS2_EEESC_')
def str_eq(a, b):
    return eqtok(getstr(a), getstr(b))


@ext('_ZSteqIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EEPKS5_')
def str_eqc(a, s):
    return eqtok(getstr(a), [('s', readcstr(s))])


@ext('_ZStneIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EESA_')
def str_ne(a, b):
    r = eqtok(getstr(a), getstr(b))
    return sym.neg(r) if isinstance(r, Cond) else not r


@pat(r'^_ZNSa(IcE|IwE)[CD][12]E|^_ZNSt15__new_allocatorIcE[CD][12]E')
def alloc_c(*a):
    return None


# ------------------------------------------------------------------ streams
class Stream:
    __slots__ = ('base', 'ios', 'toks', 'sink', 'file', 'fail', 'eof', 'pos', 'isin', 'chpos')

    def __init__(self, base, ios):
        self.base = base
        self.ios = ios
        self.toks = []
        self.sink = False
        self.file = None
        self.fail = False
        self.eof = False
        self.pos = 0
        self.chpos = 0
        self.isin = False


def mkcell(a, sz, v):
    o = OBJ[a >> SH]
    MM[sz][a] = v
    if o.cells is not None:
        o.cells.append((MM[sz], a))


def fakevt(off):
    """a vtable whose vbase offset slot (-24) is off"""
    k = ('vt', off)
    b = S['statics'].get(k)
    if b is None:
        b = newobj(64, 'global', 'stream vtable')
        mkcell(b, 8, off & M64)
        mkcell(b + 8, 8, 0)
        mkcell(b + 16, 8, 0)
        S['statics'][k] = b
    return b + 24


def mkios(a):
    mkcell(a + 8, 8, 6)         # precision
    mkcell(a + 16, 8, 0)        # width
    mkcell(a + 24, 4, 0x1002)   # flags: skipws|dec
    mkcell(a + 28, 4, 0)
    mkcell(a + 32, 4, 0)        # state


def stream_at(a):
    s = S['streams'].get(a)
    if s is None:
        # the standard streams
        n = None
        for g, x in PROG[0].gaddr.items():
            if x == a:
                n = g
        if n in ('_ZSt4cerr', '_ZSt4cout', '_ZSt4clog'):
            s = Stream(a, a + 8)
            mkcell(a, 8, fakevt(8))
            mkios(a + 8)
            s.sink = True
            S['streams'][a] = s
            return s
        fault('use of a stream that does not exist')
    return s


SS = '_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE'
OSS = '_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE'
ISS = '_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEE'
OF = '_ZNSt14basic_ofstreamIcSt11char_traitsIcEE'
IF = '_ZNSt14basic_ifstreamIcSt11char_traitsIcEE'
FS = '_ZNSt13basic_fstreamIcSt11char_traitsIcEE'


def mkss(a, toks):
    s = Stream(a, a + 128)
    mkcell(a, 8, fakevt(128))
    mkcell(a + 8, 8, 0)
    mkcell(a + 16, 8, fakevt(112))
    mkios(a + 128)
    s.toks = list(toks)
    S['streams'][a] = s
    S['streams'][a + 16] = s
    S['streams'][a + 128] = s
    return s


@ext(SS + 'C1Ev')
def ss_ctor(a):
    mkss(a, [])


@ext(SS + 'C1ESt13_Ios_Openmode')
def ss_ctorm(a, m):
    mkss(a, [])


@ext(SS + 'C1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode')
def ss_ctors(a, s, m):
    mkss(a, getstr(s))


@ext(SS + 'D1Ev')
def ss_dtor(a):
    for x in (a, a + 16, a + 128):
        S['streams'].pop(x, None)


@ext(OSS + 'C1Ev', OSS + 'C1ESt13_Ios_Openmode')
def oss_ctor(a, *m):
    s = Stream(a, a + 112)
    mkcell(a, 8, fakevt(112))
    mkios(a + 112)
    S['streams'][a] = s
    S['streams'][a + 112] = s


@ext(OSS + 'D1Ev')
def oss_dtor(a):
    S['streams'].pop(a, None)
    S['streams'].pop(a + 112, None)


@ext(ISS + 'C1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode')
def iss_ctor(a, st, m):
    s = Stream(a, a + 120)
    mkcell(a, 8, fakevt(120))
    mkcell(a + 8, 8, 0)
    mkios(a + 120)
    s.toks = list(getstr(st))
    s.isin = True
    S['streams'][a] = s
    S['streams'][a + 120] = s


@ext(ISS + 'D1Ev')
def iss_dtor(a):
    S['streams'].pop(a, None)
    S['streams'].pop(a + 120, None)


@ext(SS.replace('_ZN', '_ZNK', 1) + '3strEv', OSS.replace('_ZN', '_ZNK', 1) + '3strEv')
def ss_str(r, a):
    setstr(r, stream_at(a).toks)


@ext(SS + '3strERKNS_12basic_stringIcS2_S3_EE', OSS + '3strERKNS_12basic_stringIcS2_S3_EE',
     SS + '3strEONS_12basic_stringIcS2_S3_EE')
def ss_setstr(a, s):
    st = stream_at(a)
    st.toks = list(getstr(s))
    st.pos = st.chpos = 0


def fname(a):
    return readcstr(a)


def mkof(a, name, mode):
    s = Stream(a, a + 248)
    mkcell(a, 8, fakevt(248))
    mkios(a + 248)
    s.file = name
    if name is not None:
        if mode & 1:    # app
            s.toks = list(S['files'].get(name, []))
        S['files'][name] = s.toks
    S['streams'][a] = s
    S['streams'][a + 248] = s
    return s


@ext(OF + 'C1EPKcSt13_Ios_Openmode')
def of_ctor(a, n, m):
    mkof(a, fname(n), m)


@ext(OF + 'C1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode')
def of_ctor_s(a, n, m):
    mkof(a, strtext(n), m)


@ext(OF + 'C1Ev')
def of_ctor0(a):
    mkof(a, None, 0)


@ext(OF + '4openEPKcSt13_Ios_Openmode')
def of_open(a, n, m):
    s = stream_at(a)
    s.file = fname(n)
    s.toks = []
    S['files'][s.file] = s.toks


@ext(OF + '5closeEv', IF + '5closeEv')
def f_close(a):
    return None


@ext(OF + 'D1Ev')
def of_dtor(a):
    S['streams'].pop(a, None)
    S['streams'].pop(a + 248, None)


@ext(OF.replace('_ZN', '_ZNK', 1) + '7is_openEv', IF.replace('_ZN', '_ZNK', 1) + '7is_openEv', OF + '7is_openEv',
     IF + '7is_openEv')
def f_isopen(a):
    s = stream_at(a)
    return s.file is not None


def mkif(a, name):
    s = Stream(a, a + 256)
    mkcell(a, 8, fakevt(256))
    mkcell(a + 8, 8, 0)
    mkios(a + 256)
    s.isin = True
    if name in S['files']:
        s.file = name
        s.toks = S['files'][name]
    else:
        setfail(s)
    S['streams'][a] = s
    S['streams'][a + 256] = s


@ext(IF + 'C1EPKcSt13_Ios_Openmode')
def if_ctor(a, n, m):
    mkif(a, fname(n))


@ext(IF + 'C1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode')
def if_ctor_s(a, n, m):
    mkif(a, strtext(n))


@ext(IF + 'D1Ev')
def if_dtor(a):
    S['streams'].pop(a, None)
    S['streams'].pop(a + 256, None)


def setfail(s):
    s.fail = True
    mkcell(s.ios + 32, 4, 4)


IOS = 'St9basic_iosIcSt11char_traitsIcEE'


@ext('_ZNK' + IOS + '4failEv', '_ZNK' + IOS + 'ntEv', '_ZNK' + IOS + '3badEv')
def ios_fail(a):
    return stream_at(a).fail


@ext('_ZNK' + IOS + 'cvbEv')
def ios_bool(a):
    return not stream_at(a).fail


@ext('_ZNK' + IOS + '4goodEv')
def ios_good(a):
    s = stream_at(a)
    return not s.fail and not s.eof


@ext('_ZNK' + IOS + '3eofEv')
def ios_eof(a):
    return stream_at(a).eof


def put(a, tok):
    s = stream_at(a)
    w = MM[8].get(s.ios + 16, 0)
    if w:
        MM[8][s.ios + 16] = 0
        if MM[4].get(s.ios + 24, 0) & 0x30:
            raise Unsupported('an adjustment other than to the right')
        s.toks.append(('w', w)) if not s.sink else None
    if not s.sink:
        cat(s.toks, tok)
    return a


def fmt_state(a):
    s = stream_at(a)
    return MM[8].get(s.ios + 8, 6), MM[4].get(s.ios + 24, 0) & (0x800 | 0x104)


@ext('_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc')
def os_cstr(a, s):
    if s == 0:
        return a
    return put(a, ('s', readcstr(s)))


@ext('_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c', '_ZNSo3putEc')
def os_char(a, c):
    return put(a, ('s', chr(c)))


@ext('_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE')
def os_str(a, s):
    for t in list(getstr(s)):
        put(a, t)
    return a


@ext('_ZNSolsEd', '_ZNSolsEf')
def os_double(a, v):
    if v.__class__ is Undef:
        P().undef_use()
    p, f = fmt_state(a)
    return put(a, ('n', 'f', v, p, f))


def os_int(signed, w):
    def f(a, v):
        if v.__class__ is Undef:
            P().undef_use()
        p, fl = fmt_state(a)
        if signed:
            v = engine.sgn(v, w)
        if v.__class__ is int or v.__class__ is bool:
            v = int(v)
            t = str(v)
            if fl & 0x800 and v >= 0:
                t = '+' + t
            return put(a, ('s', t))
        return put(a, ('n', 'i', v, 0, fl & 0x800))
    return f


TABLE['_ZNSolsEi'] = os_int(True, 32)
TABLE['_ZNSolsEl'] = TABLE['_ZNSolsEx'] = os_int(True, 64)
TABLE['_ZNSolsEj'] = os_int(False, 32)
TABLE['_ZNSolsEm'] = TABLE['_ZNSolsEy'] = os_int(False, 64)
TABLE['_ZNSolsEs'] = os_int(True, 16)
TABLE['_ZNSolsEt'] = os_int(False, 16)


@ext('_ZNSolsEPKv')
def os_ptr(a, v):
    # an address: some text that says nothing about the elements
    return put(a, ('s', hex(v if v.__class__ is int else concretize(v))))


@ext('_ZNSolsEb')
def os_bool(a, v):
    if MM[4].get(stream_at(a).ios + 24, 0) & 1:
        return put(a, ('s', 'true' if (v if v.__class__ is bool else concretize(v)) else 'false'))
    return os_int(False, 1)(a, v)


@ext('_ZStlsIdcSt11char_traitsIcEERSt13basic_ostreamIT0_T1_ES6_RKSt7complexIT_E')
def os_complex(a, c):
    p, f = fmt_state(a)
    re, im = ('n', 'f', LD(c, 8), p, f), ('n', 'f', LD(c + 8, 8), p, f)
    ios = stream_at(a).ios
    w = MM[8].get(ios + 16, 0)
    if w:
        # the width applies to the whole text
        MM[8][ios + 16] = max(0, w - 2 - numlen(re) - numlen(im))
    put(a, ('s', '('))
    put(a, re)
    put(a, ('s', ','))
    put(a, im)
    return put(a, ('s', ')'))


@ext('_ZNSolsEPFRSoS_E')
def os_manip(a, f):
    return PROG[0].icall(f)(a)


@ext('_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_')
def os_endl(a):
    return put(a, ('s', '\n'))


@ext('_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_', '_ZNSo5flushEv')
def os_flush(a):
    return a


@ext('_ZNSolsEPFRSt8ios_baseS0_E', '_ZNSirsEPFRSt8ios_baseS0_E')
def os_iosmanip(a, f):
    s = stream_at(a)
    PROG[0].icall(f)(s.ios)
    return a


@ext('_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St5_Setw')
def os_setw(a, w):
    s = stream_at(a)
    if w.__class__ is tuple:
        w = w[0]
    MM[8][s.ios + 16] = w
    return a


@ext('_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St13_Setprecision')
def os_setprec(a, w):
    s = stream_at(a)
    if w.__class__ is tuple:
        w = w[0]
    MM[8][s.ios + 8] = w
    return a


@ext('_ZNSo5writeEPKcl', '_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l')
def os_write(a, p, n):
    return put(a, ('s', chars(p, n)))


@ext('_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St8_SetfillIS3_E')
def os_setfill(a, c):
    raise Unsupported('a fill character')


@ext('_ZNSo5tellpEv')
def os_tellp(a):
    raise Unsupported('tellp')


@ext('_ZN%s5clearESt12_Ios_Iostate' % IOS)
def ios_clear(a, st):
    s = stream_at(a)
    st = _i(st)
    s.fail = bool(st & 5)
    s.eof = bool(st & 2)
    mkcell(s.ios + 32, 4, st)


@ext('_ZN%s8setstateESt12_Ios_Iostate' % IOS)
def ios_setstate(a, st):
    s = stream_at(a)
    ios_clear(a, _i(st) | (4 if s.fail else 0) | (2 if s.eof else 0))


@ext('_ZNK%s7rdstateEv' % IOS)
def ios_rdstate(a):
    s = stream_at(a)
    return (4 if s.fail else 0) | (2 if s.eof else 0)


@ext('_ZN%s7copyfmtERKS2_' % IOS)
def ios_copyfmt(a, b):
    x, y = stream_at(a).ios, stream_at(b).ios
    for o, z in ((8, 8), (16, 8), (24, 4)):
        mkcell(x + o, z, MM[z].get(y + o, 0))
    return a


@ext('printf', 'puts', 'fprintf', 'fputs', 'putchar', 'perror', 'fflush', 'fputc', 'putc')
def c_print(*a):
    return 0


# ---- input
def nextchar(s, take=True):
    """the next character; None at the end"""
    while s.pos < len(s.toks):
        t = s.toks[s.pos]
        if t[0] == 's' and s.chpos < len(t[1]):
            c = t[1][s.chpos]
            if take:
                s.chpos += 1
            return c
        if t[0] == 'n':
            raise Unsupported('reading a character out of a symbolic number')
        if t[0] == 'w':
            raise Unsupported('reading the characters of padding')
        s.pos += 1
        s.chpos = 0
    return None


@ext('_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE')
def is_word(a, p):
    s = stream_at(a)
    if s.fail:
        return a
    r = ''
    if peek(s) is not None:
        while True:
            c = nextchar(s, False)
            if c is None or c in ' \t\n\r\v\f':
                break
            r += c
            s.chpos += 1
    if nextchar(s, False) is None:
        s.eof = True
    if not r:
        setfail(s)
        return a
    settext(p, r)
    return a


@ext('_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE',
     '_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_')
def is_getline(a, p, d=10):
    s = stream_at(a)
    if s.fail:
        return a
    out = []
    got = False
    while s.pos < len(s.toks):
        t = s.toks[s.pos]
        if t[0] == 's':
            if s.chpos >= len(t[1]):
                s.pos += 1
                s.chpos = 0
                continue
            c = t[1][s.chpos]
            s.chpos += 1
            got = True
            if ord(c) == d:
                setstr(p, out)
                return a
            cat(out, ('s', c))
        else:
            got = True
            out.append(t)
            s.pos += 1
            s.chpos = 0
    s.eof = True
    setstr(p, out)
    if not got:
        setfail(s)
    return a


@ext('_ZNSi3getEv')
def is_get(a):
    s = stream_at(a)
    c = None if s.fail else nextchar(s)
    if c is None:
        s.eof = True
        setfail(s)
        return 0xffffffff
    return ord(c)


@ext('_ZNSi3getERc')
def is_getc(a, p):
    c = is_get(a)
    if c != 0xffffffff:
        ST(p, 1, c)
    return a


@ext('_ZNSi4peekEv')
def is_peek(a):
    s = stream_at(a)
    c = None if s.fail else nextchar(s, False)
    if c is None:
        s.eof = True
        return 0xffffffff
    return ord(c)


@ext('_ZNSi6ignoreElNS_10int_typeE', '_ZNSi6ignoreEv', '_ZNSi6ignoreEl', '_ZNSi6ignoreElj', '_ZNSi6ignoreEli')
def is_ignore(a, n=1, d=-1):
    s = stream_at(a)
    d = engine.sgn(d, 32)
    for _ in range(min(n, 1 << 20)):
        c = None if s.fail else nextchar(s)
        if c is None:
            s.eof = True
            break
        if ord(c) == d:
            break
    return a


@ext('_ZStrsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_St5_Setw', '_ZSt2wsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_')
def is_ws(a, *w):
    if not w:
        peek(stream_at(a))
    return a


@ext('_ZNSirsEPFRSiS_E')
def is_manip(a, f):
    return PROG[0].icall(f)(a)


def peek(s):
    """skip white space; returns the current token or None"""
    while s.pos < len(s.toks):
        t = s.toks[s.pos]
        if t[0] == 'w':
            s.pos += 1
            s.chpos = 0
            continue
        if t[0] == 's':
            x = t[1]
            while s.chpos < len(x) and x[s.chpos] in ' \t\n\r\v\f':
                s.chpos += 1
            if s.chpos >= len(x):
                s.pos += 1
                s.chpos = 0
                continue
        return t
    return None


@ext('_ZStrsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_RS3_')
def is_char(a, p):
    s = stream_at(a)
    if s.fail:
        return a
    t = peek(s)
    if t is None:
        s.eof = True
        setfail(s)
        return a
    if t[0] == 's':
        ST(p, 1, ord(t[1][s.chpos]))
        s.chpos += 1
        return a
    raise Unsupported('reading a character out of a symbolic number')


NUMRE = re.compile(r'[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)')
INTRE = re.compile(r'[+-]?\d+')


def adjacent(s):
    """is the current number directly followed by more number characters"""
    j = s.pos + 1
    # padding may be empty
    while j < len(s.toks) and s.toks[j][0] == 'w':
        j += 1
    if j < len(s.toks):
        t = s.toks[j]
        if t[0] == 'n':
            return True
        if t[0] == 's' and t[1][0] in '0123456789.eE':
            return True
    return False


def readnum(a, p, integer, size):
    s = stream_at(a)
    if s.fail:
        return a
    t = peek(s)
    if t is None:
        s.eof = True
        setfail(s)
        return a
    if t[0] == 's':
        m = (INTRE if integer else NUMRE).match(t[1], s.chpos)
        if not m:
            ST(p, size, 0)
            setfail(s)
            return a
        s.chpos = m.end()
        if s.chpos >= len(t[1]) and s.pos + 1 < len(s.toks) and s.toks[s.pos + 1][0] == 'n':
            raise Unsupported('digits glued to a symbolic number')
        if integer:
            v = int(m.group()) & ((1 << (8 * size)) - 1)
        else:
            v = sym.qnorm(Fraction(float(m.group())))
        ST(p, size, v)
        return a
    if adjacent(s):
        raise Unsupported('two numbers printed without a separator')
    v = t[2]
    s.pos += 1
    s.chpos = 0
    if t[1] == 'f':
        if integer:
            raise Unsupported('reading an integer from a printed real')
        if t[3] < 17 and not isnum(v):
            v = lossy(v, t[3])
    elif not integer and v.__class__ is not int:
        pass
    ST(p, size, v)
    return a


def lossy(v, prec):
    """a value printed with too few digits: an unknown value"""
    p = P()
    k = ('lossy', sym.pkey(v.n), v.d, prec)
    r = p.ufs.get(k)
    if r is None:
        r = p.ufs[k] = p.real('lossy')
    return r


@ext('_ZNSirsERd')
def is_double(a, p):
    return readnum(a, p, False, 8)


@ext('_ZNSirsERb')
def is_bool(a, p):
    s = stream_at(a)
    if not s.fail:
        t = peek(s)
        if t is not None and t[0] == 'n' and not (isinstance(t[2], sym.Cond) or t[2].__class__ in (int, bool)):
            raise Unsupported('reading a truth value from a symbolic number')
    readnum(a, p, True, 1)
    if not s.fail:
        v = engine.LD(p, 1)
        if v.__class__ is int and v > 1:
            ST(p, 1, 1)
            setfail(s)
    return a


@ext('_ZNSirsERi', '_ZNSirsERj')
def is_int(a, p):
    return readnum(a, p, True, 4)


@ext('_ZNSirsERm', '_ZNSirsERl', '_ZNSirsERy', '_ZNSirsERx')
def is_long(a, p):
    return readnum(a, p, True, 8)


@ext('_ZStrsIdcSt11char_traitsIcEERSt13basic_istreamIT0_T1_ES6_RSt7complexIT_E')
def is_complex(a, p):
    s = stream_at(a)
    if s.fail:
        return a
    t = peek(s)
    if t is not None and t[0] == 's' and t[1][s.chpos] == '(':
        s.chpos += 1
        readnum(a, p, False, 8)
        t = peek(s)
        if t and t[0] == 's' and t[1][s.chpos] == ',':
            s.chpos += 1
            readnum(a, p + 8, False, 8)
            t = peek(s)
        if t and t[0] == 's' and t[1][s.chpos] == ')':
            s.chpos += 1
            return a
        setfail(s)
        return a
    ST(p + 8, 8, 0)
    return readnum(a, p, False, 8)


# ------------------------------------------------------------------ harness intrinsics
def inp(kind, v):
    P().inputs.append((kind, v))


@ext('vs_real')
def vs_real():
    p = P()
    if p.warm is not None:
        s = p.warm.choice((-7, -5, -4, -3, -2, 2, 3, 4, 5, 6, 7, 9, Fraction(1, 2), Fraction(-3, 2)))
    else:
        s = p.real('x')
    inp('d', s)
    return s


@ext('vs_real_in')
def vs_real_in(lo, hi):
    p = P()
    if p.warm is not None:
        s = engine.qnorm(Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(p.warm.randint(1, 7), 8))
    else:
        s = p.real('x', lo, hi)
    inp('d', s)
    return s


@ext('vs_int')
def vs_int(lo, hi):
    p = P()
    lo, hi = engine.SX(lo, 32), engine.SX(hi, 32)
    if p.warm is not None:
        s = p.warm.randint(max(lo, min(-9, hi - 9)), min(hi, max(9, lo + 9)))
        inp('i', s)
        return s & 0xffffffff
    s = p.int('n', lo, hi)
    inp('i', s)
    return s


@ext('vs_long')
def vs_long(lo, hi):
    p = P()
    lo, hi = engine.SX(lo, 64), engine.SX(hi, 64)
    if p.warm is not None:
        s = p.warm.randint(max(lo, min(-9, hi - 9)), min(hi, max(9, lo + 9)))
        inp('i', s)
        return s & engine.M64
    s = p.int('n', lo, hi)
    inp('i', s)
    return s


@ext('vs_float')
def vs_float():
    p = P()
    s = vs_real()
    if s.__class__ is sym.Sym:
        for m in s.n:
            p.single.update(m)
    return s


@ext('vs_size')
def vs_size(lo, hi):
    v = lo + P().choose(hi - lo + 1)
    inp('u', v)
    return v


@ext('vs_bool')
def vs_bool():
    p = P()
    if p.warm is not None:
        b = p.warm.randint(0, 1)
        inp('b', b)
        return b
    b = BVar(p.newvar('b', 'b'))
    inp('b', b)
    return b


@ext('vs_u64')
def vs_u64():
    p = P()
    if p.warm is not None:
        b = p.warm.randint(0, 99)
        inp('u', b)
        return b
    b = BV(p.zv[p.newvar('u', 'bv', None, 64)])
    p.bvuse = True
    inp('u', b)
    return b


@ext('vs_fp')
def vs_fp():
    p = P()
    if p.warm is not None:
        b = float(p.warm.randint(-9, 9))
        inp('d', b)
        return b
    b = FP(p.zv[p.newvar('f', 'fp')])
    inp('d', b)
    return b


@ext('vs_assume')
def vs_assume(c):
    if c.__class__ is Undef:
        P().undef_use()
    if isinstance(c, (Sym, BV)):
        c = c != 0
    P().vassume(c)


@ext('vs_check')
def vs_check(c, msg):
    P().goal_cond(c, msg)


@ext('vs_extended')
def vs_extended():
    sym.P().tags['extended'] = 1


@ext('vs_check_eql')
@ext('vs_check_eqf')
@ext('vs_check_eq')
def vs_check_eq(a, b, msg):
    P().goal_eq(a, b, msg)


@ext('vs_check_ieq')
def vs_check_ieq(a, b, msg):
    P().goal_eq(a, b, msg, True)


@ext('vs_reach')
def vs_reach():
    P().reach += 1


@ext('vs_expect_end')
def vs_expect_end(c):
    """from here on, the program is expected to stop (abort/exit) iff c"""
    P().expect_exit = bool(c)
    P().reach += 1


@ext('vs_text')
def vs_text(a, b, exact, msg):
    P().goal_cond(eqtok(getstr(a), getstr(b), bool(exact)), msg)


@ext('vs_fail_alloc')
def vs_fail_alloc(n):
    """the n-th allocation from now on fails (0: none); returns how many are left of the previous count"""
    p = P()
    r = p.allocfail
    p.allocfail = n if n.__class__ is int else concretize(n)
    return r


@ext('vs_is_symbolic')
def vs_is_symbolic():
    return 1


@ext('vs_dbg')
def vs_dbg(x):
    print('vs_dbg', x)


@ext('_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', '_ZNSt13random_device7_M_finiEv')
def rd_init(*a):
    return None


@ext('_ZNSt13random_device9_M_getvalEv')
def rd_get(a):
    return 20260101     # a seed: the distributions are replaced (harness U09)
