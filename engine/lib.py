"""Trusted models of the library functions the code calls (the trusted base).
Each model states what is assumed about the function and the preconditions it
imposes on its callers (e.g. a readable NUL-terminated string)."""
import re
from fractions import Fraction
import z3
import smt
from ir import *
from sym import *
from sym import toz
from dual import And, Or, Not, If, Implies

STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'


def ret(st, v=None): return [(st, ('ret', v))]


class Lib:
    def __init__(self):
        self.names, self.pats, self.cache = {}, [], {}

    def name(self, *ns):
        def d(f):
            for n in ns: self.names['@' + n] = f
            return f
        return d

    def dem(self, *pats):
        def d(f):
            for p in pats: self.pats.append((re.compile(p), f))
            return f
        return d

    def lookup(self, fname, dem):
        if fname in self.names: return self.names[fname]
        if fname in self.cache: return self.cache[fname]
        if fname.startswith('@llvm.'):
            for p, f in self.pats:
                if p.match(fname): self.cache[fname] = f; return f
        r = None
        for p, f in self.pats:
            if p.match(dem): r = f; break
        self.cache[fname] = r
        return r


L = Lib()

# ---------------------------------------------------------------- intrinsics


@L.dem(r'@llvm\.memcpy\.', r'@llvm\.memmove\.')
def _(m, st, a, rt, dem):
    n = m.intval(st, a[2])
    if not isinstance(n, int): raise Unsupported('memcpy of symbolic size')
    m.copy(st, a[0], a[1], n)
    return ret(st, a[0])


@L.name('memcpy', 'memmove')
def _(m, st, a, rt, dem):
    n = m.intval(st, a[2])
    if not isinstance(n, int): raise Unsupported('memcpy of symbolic size')
    m.copy(st, a[0], a[1], n)
    return ret(st, a[0])


@L.dem(r'@llvm\.memset\.')
def _(m, st, a, rt, dem):
    n, v = m.intval(st, a[2]), m.intval(st, a[1])
    if not isinstance(n, int): raise Unsupported('memset of symbolic size')
    if n == 0: return ret(st)
    o = m.deref(st, a[0], n, 'write')
    if isinstance(v, int) and v == 0 and n % 8 == 0 and isinstance(a[0].off, int):
        for k in range(n // 8): m.storecell(st, o, a[0].off + 8 * k, 8, 0)
    else:
        for k in range(n): m.storecell(st, o, mk_add(a[0].off, k), 1, v)
    return ret(st)


@L.dem(r'@llvm\.(lifetime|dbg|assume|experimental\.noalias|donothing|invariant)')
def _(m, st, a, rt, dem): return ret(st)


@L.dem(r'@llvm\.is\.constant')
def _(m, st, a, rt, dem): return ret(st, False)


@L.dem(r'@llvm\.expect')
def _(m, st, a, rt, dem): return ret(st, a[0])


@L.dem(r'@llvm\.threadlocal\.address')
def _(m, st, a, rt, dem): return ret(st, a[0])


def iabs(m, st, v, w, poison=True):
    v = m.intval(st, v)
    if poison: m.oblige(st, mk_cmp('!=', v, smin(w)), 'signed overflow', 'abs')
    if isinstance(v, int): return abs(v)
    l, h = iv(v)
    if l is not None and l >= 0: return v
    t = z3.If(v >= 0, v, -v)
    return setiv(t, 0, smax(w) if l is None or h is None else max(abs(l), abs(h), 0) if l > smin(w) else smax(w))


@L.dem(r'@llvm\.abs\.i(32|64)')
def _(m, st, a, rt, dem): return ret(st, iabs(m, st, a[0], resolve(rt).w, a[1] is True))


@L.name('abs', 'labs', 'llabs')
def _(m, st, a, rt, dem): return ret(st, iabs(m, st, a[0], resolve(rt).w))


@L.dem(r'@llvm\.(s|u)(max|min)\.i\d+')
def _(m, st, a, rt, dem):
    w = resolve(rt).w
    x, y = m.intval(st, a[0]), m.intval(st, a[1])
    u = '.u' in dem or '@llvm.u' in dem
    p, q = (m.uns(x, w), m.uns(y, w)) if u else (x, y)
    return ret(st, mk_ite(mk_cmp('>=' if 'max' in dem else '<=', p, q), x, y))


@L.dem(r'@llvm\.s(add|sub|mul)\.with\.overflow')
def _(m, st, a, rt, dem):
    x, y = m.intval(st, a[0]), m.intval(st, a[1])
    r = (mk_add if 'sadd' in dem else mk_sub if 'ssub' in dem else mk_mul)(x, y)
    w = resolve(resolve(rt).els[0]).w
    ok = And(mk_cmp('>=', r, smin(w)), mk_cmp('<=', r, smax(w)))
    return ret(st, Agg([m.wrap(st, r, w), Not(ok)]))


# ---------------------------------------------------------------- floating point

def ffun(name):
    def d(f):
        L.names['@' + name] = f
        L.names['@' + name + 'l'] = f
        L.pats.append((re.compile(r'@llvm\.' + name + r'\.f64'), f))
        return f
    return d


def fin(x):
    if isinstance(x, float): return x == x and abs(x) != float('inf')
    return True


@ffun('fabs')
def _(m, st, a, rt, dem):
    x = a[0]
    if isinstance(x, float): return ret(st, abs(x))
    r = F(z3.If(x.r >= 0, x.r, -x.r), None if x.i is None else iabs(m, st, x.i, 70, False), x.b)
    return ret(st, r)


def integral(m, st, x, how):
    """floor/ceil/trunc/round of a finite double: exact"""
    import math
    if isinstance(x, float):
        f = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc,
             'round': lambda v: int(math.copysign(math.floor(abs(v) + 0.5), v)) if abs(v) < 2**52 else int(v)}[how]
        return float(f(x)), int(f(x))
    if x.i is not None: return x, x.i
    if how == 'trunc': t = m.trunc(st, x)
    else:
        t = m.fresh(how)
        tr = toreal(t)
        if how == 'floor': st.assume(z3.And(tr <= x.r, x.r < tr + 1))
        elif how == 'ceil': st.assume(z3.And(tr >= x.r, x.r > tr - 1))
        else: st.assume(z3.If(x.r >= 0, z3.And(tr <= x.r + rz(Fraction(1, 2)), x.r + rz(Fraction(1, 2)) < tr + 1),
                              z3.And(tr >= x.r - rz(Fraction(1, 2)), x.r - rz(Fraction(1, 2)) > tr - 1)))
        if x.b is not None: setiv(t, -int(x.b) - 1, int(x.b) + 1)
    return F(toreal(t), t, None if x.b is None else x.b + 1), t


for _n in ('floor', 'ceil', 'trunc', 'round'):
    def _mk(n):
        def g(m, st, a, rt, dem): return ret(st, integral(m, st, a[0], n)[0])
        return g
    ffun(_n)(_mk(_n))


@L.name('lround', 'llround')
def _(m, st, a, rt, dem):
    t = integral(m, st, a[0], 'round')[1]
    return ret(st, m.ranged(st, t, 64, 'float to integer conversion out of range'))


@L.name('rint', 'nearbyint')
def _(m, st, a, rt, dem):
    x = a[0]
    if isinstance(x, float): return ret(st, float(round(x)))
    t = m.fresh('rint'); tr = toreal(t)
    st.assume(z3.And(2 * (tr - x.r) <= 1, 2 * (x.r - tr) <= 1))
    return ret(st, F(tr, t, None if x.b is None else x.b + 1))


@L.name('modf')
def _(m, st, a, rt, dem):
    x = a[0]
    if isinstance(x, float):
        import math
        f, i = math.modf(x)
        m.store(st, FloatT('double'), i, a[1]); return ret(st, f)
    ip, t = integral(m, st, x, 'trunc')
    m.store(st, FloatT('double'), ip, a[1])
    if x.i is not None: return ret(st, 0.0)
    fr = F(x.r - toreal(t), None, Fraction(1))
    st.trace.append(('modf', x.r, t))
    return ret(st, fr)


@L.name('fmod')
def _(m, st, a, rt, dem): raise Unsupported('fmod')


# ---------------------------------------------------------------- ctype, C strings

def chlow(c):
    if isinstance(c, int): return c + 32 if 65 <= c <= 90 else c
    return setiv(z3.If(z3.And(c >= 65, c <= 90), c + 32, c), -128, 255)


def chup(c):
    if isinstance(c, int): return c - 32 if 97 <= c <= 122 else c
    return setiv(z3.If(z3.And(c >= 97, c <= 122), c - 32, c), -128, 255)


def charg(m, st, v):
    v = m.intval(st, v)
    # glibc: defined for -128..255 (ISO C: EOF..UCHAR_MAX)
    m.oblige(st, And(mk_cmp('>=', v, -128), mk_cmp('<=', v, 255)), 'ctype argument out of range')
    return v


@L.name('tolower')
def _(m, st, a, rt, dem): return ret(st, chlow(charg(m, st, a[0])))


@L.name('toupper')
def _(m, st, a, rt, dem): return ret(st, chup(charg(m, st, a[0])))


def isfn(name, f):
    @L.name(name)
    def _(m, st, a, rt, dem):
        c = charg(m, st, a[0])
        return ret(st, mk_ite(f(c), 1, 0))


isfn('isalpha', lambda c: Or(And(mk_cmp('>=', c, 65), mk_cmp('<=', c, 90)), And(mk_cmp('>=', c, 97), mk_cmp('<=', c, 122))))
isfn('isdigit', lambda c: And(mk_cmp('>=', c, 48), mk_cmp('<=', c, 57)))
isfn('isspace', lambda c: Or(mk_cmp('==', c, 32), And(mk_cmp('>=', c, 9), mk_cmp('<=', c, 13))))
isfn('isupper', lambda c: And(mk_cmp('>=', c, 65), mk_cmp('<=', c, 90)))
isfn('islower', lambda c: And(mk_cmp('>=', c, 97), mk_cmp('<=', c, 122)))
isfn('isalnum', lambda c: Or(And(mk_cmp('>=', c, 48), mk_cmp('<=', c, 57)), And(mk_cmp('>=', c, 65), mk_cmp('<=', c, 90)), And(mk_cmp('>=', c, 97), mk_cmp('<=', c, 122))))


def cstrlen(m, st, p):
    """-> list of (state, length); p must point into a NUL-terminated string"""
    o = m.deref(st, p, 1, 'read')
    if o.kind == 'cstr':
        Ln = o.extra['len']
        m.oblige(st, And(mk_cmp('>=', p.off, 0), mk_cmp('<=', p.off, Ln)), 'read beyond the terminating NUL', o.name)
        return [(st, mk_sub(Ln, p.off))]
    if o.kind == 'tokbuf':
        if p.off != TPos(0, 0): raise Unsupported('strlen inside a formatted string')
        return [(st, length(m, st, o.extra['toks']))]
    res, cur = [], [st]
    if not isinstance(p.off, int): raise Unsupported('strlen at symbolic offset')
    for k in range(0, (o.size or 0) - p.off + 1):
        nxt = []
        for s in cur:
            c = m.load(s, I8, Ptr(p.obj, p.off + k))
            if isinstance(c, Tail):
                if not c.first: raise Unsupported('inside a text of varying length')
                res.append((s, mk_add(k, length(m, s, c.toks)))); continue
            c = m.intval(s, c)
            for s2, b in m.branch(s, mk_cmp('==', c, 0)):
                if b: res.append((s2, k))
                else: nxt.append(s2)
        cur = nxt
        if not cur: return res
    raise Unsupported('unterminated string')


@L.name('strlen')
def _(m, st, a, rt, dem):
    return [(s, ('ret', k)) for s, k in cstrlen(m, st, a[0])]


@L.dem(r'std::char_traits<char>::length\(')
def _(m, st, a, rt, dem): return [(s, ('ret', k)) for s, k in cstrlen(m, st, a[0])]


@L.name('strncpy')
def _(m, st, a, rt, dem):
    n = m.intval(st, a[2])
    if not isinstance(n, int): raise Unsupported('strncpy of symbolic size')
    cur = [(st, False)]
    for k in range(n):
        nxt = []
        for s, done in cur:
            d = Ptr(a[0].obj, mk_add(a[0].off, k))
            if done: m.store(s, I8, 0, d); nxt.append((s, True)); continue
            c = m.intval(s, m.load(s, I8, Ptr(a[1].obj, mk_add(a[1].off, k)) if not isinstance(a[1].off, TPos) else m.tokadv(s, a[1], k)))
            m.store(s, I8, c, d)
            for s2, b in m.branch(s, mk_cmp('==', c, 0)): nxt.append((s2, b))
        cur = nxt
    return [(s, ('ret', a[0])) for s, _ in cur]


def cmpn(fold):
    def g(m, st, a, rt, dem):
        n = m.intval(st, a[2]) if len(a) > 2 else None
        if n is not None and not isinstance(n, int): raise Unsupported('strncmp of symbolic size')
        cur, res = [st], []
        k = 0
        while cur:
            if n is not None and k >= n:
                res += [(s, ('ret', 0)) for s in cur]; break
            if k > 200: raise Unsupported('long string comparison')
            nxt = []
            for s in cur:
                x = m.intval(s, m.load(s, I8, Ptr(a[0].obj, mk_add(a[0].off, k))))
                y = m.intval(s, m.load(s, I8, Ptr(a[1].obj, mk_add(a[1].off, k))))
                if fold: x, y = chlow(x), chlow(y)
                for s2, b in m.branch(s, mk_cmp('==', x, y)):
                    if not b:
                        v = m.fresh('cmp', -255, 255, s2)
                        ux, uy = m.uns(x, 8), m.uns(y, 8)
                        s2.assume(z3.And(v != 0, toz(v < 0) == toz(mk_cmp('<', ux, uy)) if False else z3.BoolVal(True)))
                        s2.assume(And(Implies(mk_cmp('<', ux, uy), v < 0), Implies(mk_cmp('>', ux, uy), v > 0)))
                        res.append((s2, ('ret', v))); continue
                    for s3, z in m.branch(s2, mk_cmp('==', x, 0)):
                        if z: res.append((s3, ('ret', 0)))
                        else: nxt.append(s3)
            cur = nxt; k += 1
        return res
    return g


L.names['@strcmp'] = L.names['@strncmp'] = cmpn(False)
L.names['@strcasecmp'] = L.names['@strncasecmp'] = cmpn(True)


def errno_ptr(m, st):
    if '@errno' not in m.gobj:
        o = m.newobj('@errno', 4, 'global', const=False); m.gobj['@errno'] = o
    o = m.gobj['@errno']
    if o.id not in st.mem:
        if 'errno0' not in m.memo_fresh:
            m.memo_fresh['errno0'] = z3.Int('errno0'); setiv(m.memo_fresh['errno0'], smin(32), smax(32))
            m.memo_fresh['errno_rng'] = z3.And(m.memo_fresh['errno0'] >= smin(32), m.memo_fresh['errno0'] <= smax(32))
        v = m.memo_fresh['errno0']
        st.assume(m.memo_fresh['errno_rng'])
        st.mem[o.id] = {0: (4, v)}
    return Ptr(o.id, 0)


@L.name('__errno_location')
def _(m, st, a, rt, dem): return ret(st, errno_ptr(m, st))


# what the C library reads at position p of a string: uninterpreted, the
# specification of the readers is written over the same functions
SV = z3.Function('strtol_value', z3.IntSort(), z3.IntSort())
SE = z3.Function('strtol_end', z3.IntSort(), z3.IntSort())
SR = z3.Function('strtol_erange', z3.IntSort(), z3.BoolSort())
DV = z3.Function('strtod_value', z3.IntSort(), z3.RealSort())
DK = z3.Function('strtod_kind', z3.IntSort(), z3.IntSort())      # 0 finite, 1 +inf, 2 -inf, 3 nan
DE = z3.Function('strtod_end', z3.IntSort(), z3.IntSort())
DR = z3.Function('strtod_erange', z3.IntSort(), z3.BoolSort())


def strtol_axioms(p, Ln):
    return z3.And(SE(p) >= p, SE(p) <= Ln, SV(p) >= smin(64), SV(p) <= smax(64),
                  z3.Implies(SE(p) == p, z3.And(SV(p) == 0, z3.Not(SR(p)))),
                  z3.Implies(SR(p), z3.Or(SV(p) == smin(64), SV(p) == smax(64))))


def strtod_axioms(p, Ln):
    return z3.And(DE(p) >= p, DE(p) <= Ln, DK(p) >= 0, DK(p) <= 3,
                  z3.Implies(DE(p) == p, z3.And(DV(p) == 0, DK(p) == 0, z3.Not(DR(p)))),
                  z3.Implies(DR(p), DK(p) <= 2))


@L.name('strtol', '__isoc23_strtol', 'strtoll', '__isoc23_strtoll')
def _(m, st, a, rt, dem):
    p, endp, base = a
    if m.intval(st, base) != 10: raise Unsupported('strtol base')
    o = m.deref(st, p, 1, 'read')
    if o.kind == 'tokbuf':
        v, np = tokint(m, st, o, p)
        if endp.obj is not None: m.store(st, PTR, np, endp)
        return ret(st, v)
    if o.kind != 'cstr': return strtol_local(m, st, a, o)
    Ln = o.extra['len']
    off = toz(p.off)
    m.oblige(st, And(mk_cmp('>=', p.off, 0), mk_cmp('<=', p.off, Ln)), 'read beyond the terminating NUL', o.name)
    st.assume(strtol_axioms(off, Ln))
    v = setiv(SV(off), smin(64), smax(64))
    e = SE(off)
    st.ev.append(('strtol', off))
    if endp.obj is not None: m.store(st, PTR, Ptr(p.obj, e), endp)
    ep = errno_ptr(m, st)
    old = m.load(st, I32, ep)
    m.store(st, I32, mk_ite(SR(off), 34, old), ep)
    return ret(st, v)


def strtol_local(m, st, a, o):
    raise Unsupported('strtol on a local buffer')


def tokdigits(m, st, toks, ti, k, first=True):
    """digits from a position of a formatted text -> (value or None, number of digits or None, ti, k)"""
    acc, n = None, 0
    while ti < len(toks):
        t = toks[ti]
        if t[0] in ('lit', 'chr'):
            c = ord(t[1][k]) if t[0] == 'lit' else t[1]
            dig = And(mk_cmp('>=', c, 48), mk_cmp('<=', c, 57))
            if not isinstance(dig, bool):
                if m.proves(st, dig): dig = True
                elif m.proves(st, Not(dig)): dig = False
                else: raise Unsupported('possible digit after a number' if acc is not None else 'strtol on a formatted string of this shape')
            if not dig: break
            acc = mk_add(mk_mul(acc if acc is not None else 0, 10), mk_sub(c, 48)); n = None if n is None else n + 1
            k += 1
            if t[0] == 'chr' or k >= len(t[1]): ti, k = ti + 1, 0
        elif t[0] == 'int':
            v, w, fill = t[1], t[2], t[3]
            if w > 0 and fill not in ('0', ' '): raise Unsupported('padding character')
            if not m.proves(st, mk_cmp('>=', v, 0)): raise Unsupported('negative padded number')
            fixed = w > 0 and fill == '0' and m.proves(st, mk_cmp('<', v, 10 ** w))
            if acc is None or (isinstance(acc, int) and acc == 0): acc, n = v, (w + (n or 0) if fixed else None)
            elif not fixed: raise Unsupported('adjacent numbers')
            else: acc, n = mk_add(mk_mul(acc, 10 ** w), v), (None if n is None else n + w)
            ti, k = ti + 1, 0
        elif t[0] == 'fix' and acc is not None: raise Unsupported('adjacent numbers')
        else: break
        if acc is not None and not isinstance(acc, int):
            l, h = iv(acc)
            if l is None or h is None or h > smax(63) or l < 0:
                if not m.proves(st, And(mk_cmp('>=', acc, 0), mk_cmp('<=', acc, smax(63)))): raise Unsupported('long number')
                acc = m.alias(st, acc, 0, smax(63))
    return acc, n, ti, k


def tokblank(toks, ti, k):
    while ti < len(toks):
        t = toks[ti]
        c = ord(t[1][k]) if t[0] == 'lit' else t[1] if t[0] == 'chr' and isinstance(t[1], int) else None
        if c not in (32, 9, 10, 11, 12, 13): break
        k += 1
        if t[0] == 'chr' or k >= len(t[1]): ti, k = ti + 1, 0
    if ti < len(toks) and (toks[ti][0] == 'lit' and toks[ti][1][k] in '+-' or toks[ti][0] == 'chr' and toks[ti][1] in (43, 45)): raise Unsupported('sign in a formatted text')
    return ti, k


def tokint(m, st, o, p):
    """strtol at a position of a formatted string"""
    toks = o.extra['toks']
    ti, k = tokblank(toks, p.off.ti, p.off.k)
    if ti < len(toks) and toks[ti][0] == 'chr' and isinstance(toks[ti][1], z3.ExprRef):
        c = toks[ti][1]
        if not m.proves(st, And(c >= 48, c <= 57)): raise Unsupported('strtol on a formatted string of this shape')
    if ti < len(toks) and toks[ti][0] == 'fix': raise Unsupported('strtol on a decimal number')
    v, n, ti, k = tokdigits(m, st, toks, ti, k)
    if v is None: return 0, p
    return v, Ptr(p.obj, TPos(ti, k))


def tokreal(m, st, o, p):
    """strtod at a position of a formatted string"""
    toks = o.extra['toks']
    ti, k = tokblank(toks, p.off.ti, p.off.k)
    if ti < len(toks) and toks[ti][0] == 'fix' and k == 0:
        if ti + 1 != len(toks): raise Unsupported('strtod on a formatted string of this shape')
        x, _ = decimal_value(m, st, toks[ti][1], toks[ti][2])
        return x, Ptr(p.obj, TPos(ti + 1, 0))
    v, n, ti, k = tokdigits(m, st, toks, ti, k)
    if v is None: raise Unsupported('strtod on a formatted string of this shape')
    if ti >= len(toks): return m.itof(st, v, 64), Ptr(p.obj, TPos(ti, k))
    t = toks[ti]
    c = t[1][k] if t[0] == 'lit' else chr(t[1] % 256) if t[0] == 'chr' and isinstance(t[1], int) else None
    if c is None or c in 'eExXpP': raise Unsupported('strtod on a formatted string of this shape')
    if c != '.': return m.itof(st, v, 64), Ptr(p.obj, TPos(ti, k))
    k += 1
    if t[0] == 'chr' or k >= len(t[1]): ti, k = ti + 1, 0
    f, d, ti, k = tokdigits(m, st, toks, ti, k)
    if ti < len(toks): raise Unsupported('strtod on a formatted string of this shape')
    if f is None: return m.itof(st, v, 64), Ptr(p.obj, TPos(ti, k))
    if d is None: raise Unsupported('digits of varying number')
    K = mk_add(mk_mul(v, 10 ** d), f)
    if isinstance(K, int): return K / 10 ** d, Ptr(p.obj, TPos(ti, k))
    l, h = iv(K)
    b = Fraction(h, 10 ** d) + 1 if h is not None else None
    return m.fround(st, toreal(K) / 10 ** d, ('fdiv', toreal(K).get_id(), ('c', float(10 ** d))), b), Ptr(p.obj, TPos(ti, k))


def decimal_value(m, st, r, prec):
    """the double that strtod reads from the text of r printed with prec decimals"""
    scale = 10 ** prec
    if isinstance(r, F) and r.i is not None: return r, mk_mul(r.i, scale)      # an integer is printed exactly
    k = m.fresh('dec')
    rr = rz(rterm(r))
    st.assume(z3.And(2 * (rr * scale - toreal(k)) <= 1, 2 * (toreal(k) - rr * scale) <= 1))
    b = None
    if isinstance(r, F) and r.b is not None:
        b = r.b + 1; B = int(b * scale) + 1
        setiv(k, -B, B); st.assume(z3.And(k >= -B, k <= B))
    if isinstance(r, float): b = Fraction(abs(r)) + 1
    f = m.fround(st, toreal(k) / scale, ('fdiv', toreal(k).get_id(), ('c', float(scale))), b)
    return f, k


@L.name('strtod')
def _(m, st, a, rt, dem):
    p, endp = a
    o = m.deref(st, p, 1, 'read')
    if o.kind == 'tokbuf':
        x, np = tokreal(m, st, o, p)
        if endp.obj is not None: m.store(st, PTR, np, endp)
        return ret(st, x)
    if o.kind != 'cstr': raise Unsupported('strtod on a local buffer')
    Ln = o.extra['len']
    off = toz(p.off)
    m.oblige(st, And(mk_cmp('>=', p.off, 0), mk_cmp('<=', p.off, Ln)), 'read beyond the terminating NUL', o.name)
    st.assume(strtod_axioms(off, Ln))
    st.ev.append(('strtod', off))
    if endp.obj is not None: m.store(st, PTR, Ptr(p.obj, DE(off)), endp)
    ep = errno_ptr(m, st)
    old = m.load(st, I32, ep)
    m.store(st, I32, mk_ite(DR(off), 34, old), ep)
    out = []
    for kd, val in ((0, None), (1, float('inf')), (2, float('-inf')), (3, float('nan'))):
        s = st.fork(); s.assume(DK(off) == kd)
        if kd == 0:
            r = DV(off)
            big = Fraction(2) ** 1024
            s.assume(z3.And(r <= rz(big), r >= rz(-big)))
            v = F(r, None, None)
            s.fp.append((r, None))
        else: v = val
        if smt.feasible(s.pc): out.append((s, ('ret', v)))
    return out


# ---------------------------------------------------------------- function-local statics, thread-locals

@L.name('__cxa_guard_acquire')
def _(m, st, a, rt, dem):
    g = m.intval(st, m.load(st, I8, a[0]))
    return ret(st, mk_ite(mk_cmp('==', g, 0), 1, 0))


@L.name('__cxa_guard_release')
def _(m, st, a, rt, dem): m.store(st, I8, 1, a[0]); return ret(st)


@L.name('__cxa_guard_abort', '__cxa_atexit', '__cxa_thread_atexit')
def _(m, st, a, rt, dem): return ret(st, 0 if rt is not None else None)


# ---------------------------------------------------------------- exceptions, termination

@L.name('__cxa_allocate_exception')
def _(m, st, a, rt, dem):
    o = m.newobj('exception', 64, 'heap'); st.mem[o.id] = {}
    return ret(st, Ptr(o.id, 0))


@L.name('__cxa_free_exception')
def _(m, st, a, rt, dem): return ret(st)


@L.name('__cxa_throw')
def _(m, st, a, rt, dem):
    t = a[1]
    return [(st, ('throw', t.obj[1] if isinstance(t.obj, tuple) else m.objs[t.obj].name))]


@L.name('__cxa_begin_catch', '__cxa_get_exception_ptr')
def _(m, st, a, rt, dem): return ret(st, a[0])


@L.name('__cxa_end_catch')
def _(m, st, a, rt, dem): return ret(st)


@L.name('__cxa_rethrow')
def _(m, st, a, rt, dem): return [(st, ('throw', st.exc))]


@L.dem(r'@llvm\.eh\.typeid\.for')
def _(m, st, a, rt, dem): return ret(st, m.tid(m.objs[a[0].obj].name))


@L.name('__clang_call_terminate')
def _(m, st, a, rt, dem): return [(st, ('term', 'exception in a noexcept function'))]


@L.name('abort', '_ZSt9terminatev', 'exit', '_Exit', '__cxa_pure_virtual', '_ZSt21__glibcxx_assert_failPKciS0_S0_')
def _(m, st, a, rt, dem): return [(st, ('term', dem.strip('@')))]


@L.name('__assert_fail')
def _(m, st, a, rt, dem): return [(st, ('term', 'assertion failed'))]


@L.dem(r'std::(invalid_argument|out_of_range|logic_error|runtime_error|domain_error|length_error|range_error|overflow_error)::(invalid_argument|out_of_range|logic_error|runtime_error|domain_error|length_error|range_error|overflow_error)\(')
def _(m, st, a, rt, dem):
    if 'char const*' in dem: cstrlen(m, st, a[1])
    return ret(st)


@L.dem(r'std::(invalid_argument|out_of_range|logic_error|runtime_error|domain_error|length_error|range_error|overflow_error|exception)::~')
def _(m, st, a, rt, dem): return ret(st)


@L.name('__gxx_personality_v0')
def _(m, st, a, rt, dem): raise Unsupported('personality')


for _t, _f in (('__throw_out_of_range', 'out_of_range'), ('__throw_logic_error', 'logic_error'), ('__throw_length_error', 'length_error'), ('__throw_invalid_argument', 'invalid_argument')):
    def _mk2(f):
        def g(m, st, a, rt, dem): return [(st, ('throw', f'@_ZTISt{len(f)}{f}'))]
        return g
    L.pats.append((re.compile(r'std::' + _t + r'\('), _mk2(_f)))

# ---------------------------------------------------------------- std::string, streams
# A string is a sequence of tokens: ('lit', text) ('chr', code) ('int', value, width, fill)
# ('fix', double, decimals, width, fill) ('cstr', object, offset) — what libstdc++ is trusted to print.


PROV = {}            # characters of printed numbers: id -> (term, token, index, width)


def norm(toks):
    out = []
    toks = list(toks)
    # the characters of a whole number, in order, are that number
    k = 0
    res = []
    while k < len(toks):
        p = PROV.get(toks[k][1].get_id()) if toks[k][0] == 'chr' and isinstance(toks[k][1], z3.ExprRef) else None
        if p is not None and p[2] == 0 and p[3] + k <= len(toks) and all(part(toks[k + q], p[1], q) for q in range(p[3])):
            res.append(p[1] if p[1][0] != 'int' or p[1][2] else ('int', p[1][1], p[3], '0')); k += p[3]
        else: res.append(toks[k]); k += 1
    for t in res:
        if t[0] == 'chr' and isinstance(t[1], int): t = ('lit', chr(t[1] % 256))
        if t[0] == 'lit' and not t[1]: continue
        if t[0] == 'lit' and out and out[-1][0] == 'lit': out[-1] = ('lit', out[-1][1] + t[1])
        else: out.append(t)
    return tuple(out)


def part(t, num, q):
    if t[0] == 'chr' and isinstance(t[1], z3.ExprRef):
        p = PROV.get(t[1].get_id())
        return p is not None and p[1] is num and p[2] == q
    # the point of a decimal number
    return num[0] == 'fix' and q == num[3] - num[2] - 1 and (t == ('lit', '.') or t == ('chr', 46))


def key(p):
    if not isinstance(p, Ptr) or p.obj is None or not isinstance(p.off, int): raise Unsupported('string object address')
    return (p.obj, p.off)


def sget(m, st, p):
    v = st.ab.get(key(p))
    if v is not None and v[0] == 'strbuf':
        return norm([('chr', m.intval(st, m.load(st, I8, Ptr(v[1], k)))) for k in range(v[2])])
    if v is None or v[0] != 'str': raise Unsupported('use of an unmodelled string object')
    return v[1]


def sput(m, st, p, toks):
    o = m.deref(st, p, 32, 'write')
    if o.kind == 'global': m.note(st, 'writeglobal', o)
    st.ab[key(p)] = ('str', norm(toks))


def cstoks(m, st, p):
    """tokens of a C string argument -> list of (state, tokens)"""
    o = m.deref(st, p, 1, 'read')
    if o.kind == 'cstr':
        cstrlen(m, st, p)
        return [(st, (('cstr', o.id, p.off),))]
    if o.kind == 'tokbuf':
        if p.off == TPos(0, 0): return [(st, o.extra['toks'])]
        raise Unsupported('substring of a formatted string')
    out = []
    for s, n in cstrlen(m, st, p):
        toks = []
        k = 0
        while isinstance(n, z3.ExprRef) or k < n:
            c = m.load(s, I8, Ptr(p.obj, p.off + k))
            if isinstance(c, Tail): toks += c.toks; break
            toks.append(('chr', c)); k += 1
        out.append((s, norm(toks)))
    return out


S = STR
L.pats.append((re.compile(r'std::(__new_)?allocator<char>::~?(__new_)?allocator\('), lambda m, st, a, rt, dem: ret(st)))
L.pats.append((re.compile(r'std::__new_allocator<char>::~?__new_allocator\('), lambda m, st, a, rt, dem: ret(st)))
L.pats.append((re.compile(S + r'::~basic_string\('), lambda m, st, a, rt, dem: ret(st)))


@L.dem(S + r'::basic_string<.*>\(char const\*, std::allocator<char> const&\)', S + r'::basic_string\(char const\*, std::allocator<char> const&\)')
def _(m, st, a, rt, dem):
    if isinstance(a[1], Ptr) and a[1].obj is None:
        return [(st, ('throw', '@_ZTISt11logic_error'))]
    out = []
    for s, t in cstoks(m, st, a[1]):
        sput(m, s, a[0], t); out.append((s, ('ret', None)))
    return out


@L.dem(S + r'::basic_string\(\)')
def _(m, st, a, rt, dem): sput(m, st, a[0], ()); return ret(st)


@L.dem(S + r'::basic_string\(' + S + r' ?(const&|&&)\)')
def _(m, st, a, rt, dem): sput(m, st, a[0], sget(m, st, a[1])); return ret(st)


@L.dem(S + r'::basic_string\(unsigned long, char, std::allocator<char> const&\)', S + r'::basic_string<.*>\(unsigned long, char, std::allocator<char> const&\)')
def _(m, st, a, rt, dem):
    c, out = m.intval(st, a[2]), []
    for s, n in copies(m, st, a[1]): sput(m, s, a[0], [('chr', c)] * n); out.append((s, ('ret', None)))
    return out


def copies(m, st, n, top=24):
    """a number of characters: every value it can have -> list of (state, number)"""
    n = m.uns(m.intval(st, n), 64)
    if isinstance(n, int):
        if n > 4096: raise Unsupported('long text')
        return [(st, n)]
    if not m.proves(st, mk_cmp('<=', n, top)): raise Unsupported('a number of characters without a small bound')
    out = []
    for k in range(top + 1):
        c = mk_cmp('==', n, k)
        if c is False or not smt.feasible(st.pc + [c]): continue
        s = st.fork(); s.assume(c); out.append((s, k))
    return out


@L.dem(S + r'::operator=\(' + S + r' ?(const&|&&)\)')
def _(m, st, a, rt, dem): sput(m, st, a[0], sget(m, st, a[1])); return ret(st, a[0])


@L.dem(S + r'::operator=\(char const\*\)')
def _(m, st, a, rt, dem):
    out = []
    for s, t in cstoks(m, st, a[1]): sput(m, s, a[0], t); out.append((s, ('ret', a[0])))
    return out


@L.dem(S + r'::(append|operator\+=)\(' + S + r' const&\)')
def _(m, st, a, rt, dem): sput(m, st, a[0], sget(m, st, a[0]) + sget(m, st, a[1])); return ret(st, a[0])


@L.dem(S + r'::(append|operator\+=)\(char const\*\)')
def _(m, st, a, rt, dem):
    out = []
    for s, t in cstoks(m, st, a[1]): sput(m, s, a[0], sget(m, s, a[0]) + t); out.append((s, ('ret', a[0])))
    return out


@L.dem(S + r'::(push_back|operator\+=)\(char\)')
def _(m, st, a, rt, dem): sput(m, st, a[0], sget(m, st, a[0]) + (('chr', m.intval(st, a[1])),)); return ret(st, a[0])


@L.dem(S + r'::append\(unsigned long, char\)')
def _(m, st, a, rt, dem):
    c, out = m.intval(st, a[2]), []
    for s, n in copies(m, st, a[1]): sput(m, s, a[0], sget(m, s, a[0]) + (('chr', c),) * n); out.append((s, ('ret', a[0])))
    return out


@L.dem(S + r'::(reserve|shrink_to_fit)\(')
def _(m, st, a, rt, dem): return ret(st)


@L.dem(S + r'::(c_str|data)\(\)')
def _(m, st, a, rt, dem):
    v = st.ab.get(key(a[0]))
    if v is not None and v[0] == 'strbuf': return ret(st, Ptr(v[1], 0))
    toks = sget(m, st, a[0])
    o = m.newobj('formatted string', None, 'tokbuf', extra={'toks': toks})
    return ret(st, Ptr(o.id, TPos(0, 0)))


@L.dem(r'std::__cxx11::to_string\((int|long|long long|unsigned int|unsigned long)\)')
def _(m, st, a, rt, dem):
    v = m.intval(st, a[1])
    if 'unsigned' in dem: v = m.uns(v, 32 if 'int' in dem else 64)
    sput(m, st, a[0], (('int', v, 0, ' '),)); return ret(st)


@L.dem(r'std::__cxx11::to_string\(double\)')
def _(m, st, a, rt, dem): sput(m, st, a[0], (('fix', a[1], 6, 0, ' '),)); return ret(st)


@L.dem(r'(' + S + r' )?std::operator\+<char, std::char_traits<char>, std::allocator<char> ?>\(')
def _(m, st, a, rt, dem):
    args = dem[dem.rindex('>(') + 2:-1] if '>(' in dem else ''
    # a[0] is the result slot; classify the two operands by the demangled parameter list
    pl = split_args(dem)
    cur = [(st, ())]
    for t, v in zip(pl, a[1:]):
        nxt = []
        for s, acc in cur:
            if 'basic_string' in t: nxt.append((s, acc + sget(m, s, v)))
            elif t.strip() == 'char': nxt.append((s, acc + (('chr', m.intval(s, v)),)))
            elif t.strip() == 'char const*':
                for s2, tk in cstoks(m, s, v): nxt.append((s2, acc + tuple(tk)))
            else: raise Unsupported('string operator+ ' + t)
        cur = nxt
    for s, acc in cur: sput(m, s, a[0], acc)
    return [(s, ('ret', None)) for s, acc in cur]


def split_args(dem):
    """parameter list of a demangled function"""
    d = 0
    i = len(dem) - 1
    while i >= 0 and dem[i] != ')': i -= 1
    j = i
    while j >= 0:
        if dem[j] == ')': d += 1
        elif dem[j] == '(':
            d -= 1
            if d == 0: break
        j -= 1
    out, cur, d = [], '', 0
    for c in dem[j + 1:i]:
        if c in '<(': d += 1
        if c in '>)': d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out


# --- streams
def stream_key(m, p):
    if not isinstance(p, Ptr) or p.obj is None or isinstance(p.obj, tuple): raise Unsupported('stream address')
    return (p.obj, 'stream')


def stget(m, st, p):
    v = st.ab.get(stream_key(m, p))
    if v is None: raise Unsupported('use of an unmodelled stream (e.g. output to std::cout)')
    return v[1]


@L.dem(r'std::__cxx11::basic_o?stringstream<char, std::char_traits<char>, std::allocator<char> ?>::basic_o?stringstream\(\)',
       r'std::__cxx11::basic_o?stringstream<char, std::char_traits<char>, std::allocator<char> ?>::basic_o?stringstream\(std::_Ios_Openmode\)')
def _(m, st, a, rt, dem):
    m.deref(st, a[0], 8, 'write')
    st.ab[stream_key(m, a[0])] = ('stream', {'t': (), 'fill': ' ', 'w': 0, 'prec': 6, 'fixed': False})
    # virtual table pointer: lets the code compute base-class addresses
    return ret(st)


L.pats.append((re.compile(r'std::__cxx11::basic_o?stringstream<char, std::char_traits<char>, std::allocator<char> ?>::~basic_o?stringstream\('), lambda m, st, a, rt, dem: ret(st)))


@L.dem(r'std::__cxx11::basic_o?stringstream<char, std::char_traits<char>, std::allocator<char> ?>::str\(\) const')
def _(m, st, a, rt, dem):
    sput(m, st, a[0], stget(m, st, a[1])['t']); return ret(st)


def stmod(m, st, p, **kw):
    k = stream_key(m, p)
    d = dict(stget(m, st, p)); d.update(kw)
    st.ab[k] = ('stream', d)


def stput(m, st, p, tok):
    d = stget(m, st, p)
    stmod(m, st, p, t=norm(d['t'] + (tok,)), w=0)


@L.dem(r'std::ostream::operator<<\((int|long|long long|unsigned int|unsigned long|short|unsigned short)\)')
def _(m, st, a, rt, dem):
    d = stget(m, st, a[0])
    v = m.intval(st, a[1])
    if 'unsigned' in dem: v = m.uns(v, 64 if 'long' in dem else 32)
    stput(m, st, a[0], ('int', v, d['w'], d['fill'])); return ret(st, a[0])


@L.dem(r'std::ostream::operator<<\(double\)')
def _(m, st, a, rt, dem):
    d = stget(m, st, a[0])
    if not d['fixed']: raise Unsupported('default floating-point format')
    stput(m, st, a[0], ('fix', a[1], d['prec'], d['w'], d['fill'])); return ret(st, a[0])


@L.dem(r'(std::ostream& )?std::operator<< ?<std::char_traits<char> ?>\(std::ostream&, (char|char const\*)\)')
def _(m, st, a, rt, dem):
    d = stget(m, st, a[0])
    if d['w']: raise Unsupported('padded text')
    if 'char const*)' in dem:
        out = []
        for s, t in cstoks(m, st, a[1]):
            for x in t: stput(m, s, a[0], x)
            out.append((s, ('ret', a[0])))
        return out
    stput(m, st, a[0], ('chr', m.intval(st, a[1]))); return ret(st, a[0])


@L.dem(r'std::ostream::operator<<\(std::ios_base& \(\*\)\(std::ios_base&\)\)')
def _(m, st, a, rt, dem):
    fn = a[1]
    nm = m.mod.dem.get(fn.obj[1], fn.obj[1]) if isinstance(fn.obj, tuple) else '?'
    if 'std::fixed(' in nm: stmod(m, st, a[0], fixed=True)
    elif 'std::right(' in nm or 'std::dec(' in nm: pass
    else: raise Unsupported('stream manipulator ' + nm)
    return ret(st, a[0])


@L.dem(r'std::(setprecision|setw)\(int\)')
def _(m, st, a, rt, dem): return ret(st, a[0])


@L.dem(r'(std::_Setfill<char> )?std::setfill<char>\(char\)')
def _(m, st, a, rt, dem): return ret(st, a[0])


@L.dem(r'(std::ostream& )?std::operator<< ?<char, std::char_traits<char> ?>\(std::ostream&, std::(_Setprecision|_Setw|_Setfill<char>)\)')
def _(m, st, a, rt, dem):
    v = m.intval(st, a[1])
    if not isinstance(v, int): raise Unsupported('symbolic stream format')
    if '_Setprecision' in dem: stmod(m, st, a[0], prec=v)
    elif '_Setw' in dem: stmod(m, st, a[0], w=v)
    else: stmod(m, st, a[0], fill=chr(v % 256))
    return ret(st, a[0])


@L.dem(r'(std::ostream& )?std::operator<< ?<char, std::char_traits<char>, std::allocator<char> ?>\(std::ostream&, ' + S + r' const&\)')
def _(m, st, a, rt, dem):
    if stget(m, st, a[0])['w']: raise Unsupported('padded text')
    for x in sget(m, st, a[1]): stput(m, st, a[0], x)
    return ret(st, a[0])
