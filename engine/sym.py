"""Verification-condition generator: forward symbolic execution of LLVM IR,
function by function.  Machine integers are mathematical integers constrained
to their two's-complement range; every operation whose overflow is undefined
carries an obligation.  Calls to functions under contract are replaced by the
contract (precondition obligation, havoc, postcondition assumption); other
defined functions are executed in place; library functions are modelled in
lib.py (the trusted base)."""
import time, itertools
from fractions import Fraction
import z3
from ir import *
import smt
from dual import And, Or, Not, If, Implies

ULP = Fraction(1, 2 ** 53)
ETA = Fraction(1, 2 ** 1075)


class PathEnd(Exception):
    """the path cannot continue (an obligation failed for every state)"""


class Budget(Exception):
    pass


class Undef:
    def __repr__(s): return 'undef'


UNDEF = Undef()


class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off=0): s.obj, s.off = obj, off
    def __repr__(s): return f'&{s.obj}+{s.off}'


NULL = Ptr(None, 0)


class TPos:
    """position in a token string: token index, offset inside a literal"""
    __slots__ = ('ti', 'k')
    def __init__(s, ti, k): s.ti, s.k = ti, k
    def __repr__(s): return f'T{s.ti}.{s.k}'
    def __eq__(s, o): return isinstance(o, TPos) and (s.ti, s.k) == (o.ti, o.k)
    def __hash__(s): return hash((s.ti, s.k))


class Agg:
    __slots__ = ('v',)
    def __init__(s, v): s.v = v


class Cat:
    """an integer assembled from several memory cells, kept in pieces"""
    __slots__ = ('parts', 'size')
    def __init__(s, parts, size): s.parts, s.size = parts, size


class F:
    """a finite double: real term, optional integer term when integral, magnitude bound"""
    __slots__ = ('r', 'i', 'b')
    def __init__(s, r, i=None, b=None): s.r, s.i, s.b = r, i, b


class Obj:
    __slots__ = ('id', 'name', 'size', 'kind', 'const', 'init', 'extra')
    def __init__(s, id, name, size, kind, const=False, init=None, extra=None):
        s.id, s.name, s.size, s.kind, s.const, s.init, s.extra = id, name, size, kind, const, init, extra


# ------------------------------------------------------------ intervals
BND = {}


def iv(t):
    if isinstance(t, int): return t, t
    r = BND.get(t.get_id())
    return (r[1], r[2]) if r else (None, None)


def setiv(t, lo, hi):
    if isinstance(t, int): return t
    old = BND.get(t.get_id())
    if old:
        if old[1] is not None and (lo is None or old[1] > lo): lo = old[1]
        if old[2] is not None and (hi is None or old[2] < hi): hi = old[2]
    BND[t.get_id()] = (t, lo, hi)
    return t


def _add(a, b): return None if a is None or b is None else a + b


def isadd(t): return z3.is_add(t)


def mk_add(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    (al, ah), (bl, bh) = iv(a), iv(b)
    # fold constants: (x + c1) + c2
    if isinstance(b, int) and z3.is_add(a) and a.num_args() == 2 and z3.is_int_value(a.arg(1)):
        return setiv(mk_add(a.arg(0), a.arg(1).as_long() + b), _add(al, bl), _add(ah, bh))
    if isinstance(a, int): a, b = b, a
    return setiv(a + b, _add(al, bl), _add(ah, bh))


def mk_neg(a):
    if isinstance(a, int): return -a
    l, h = iv(a)
    return setiv(-a, None if h is None else -h, None if l is None else -l)


def mk_sub(a, b):
    if isinstance(b, int): return mk_add(a, -b)
    if isinstance(a, int) and isinstance(b, int): return a - b
    if not isinstance(a, int) and a.eq(b): return 0
    (al, ah), (bl, bh) = iv(a), iv(b)
    return setiv(a - b, None if al is None or bh is None else al - bh, None if ah is None or bl is None else ah - bl)


def mk_mul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    if isinstance(a, int): a, b = b, a
    if isinstance(b, int):
        if b == 0: return 0
        if b == 1: return a
    (al, ah), (bl, bh) = iv(a), iv(b)
    if None in (al, ah, bl, bh):
        lo = hi = None
        if isinstance(b, int):
            p = (None if al is None else al * b, None if ah is None else ah * b)
            lo, hi = p if b > 0 else (p[1], p[0])
    else:
        c = [al * bl, al * bh, ah * bl, ah * bh]; lo, hi = min(c), max(c)
    return setiv(a * b, lo, hi)


LIN = {}


def lin(t):
    """linear normal form of an integer term: ({atom id: (atom, coefficient)}, constant)"""
    if isinstance(t, int): return {}, t
    k = t.get_id()
    r = LIN.get(k)
    if r is not None: return r[1]
    if z3.is_int_value(t): r = ({}, t.as_long())
    elif z3.is_add(t) or z3.is_sub(t):
        d, c = {}, 0
        for n, a in enumerate(t.children()):
            sg = -1 if n and z3.is_sub(t) else 1
            da, ca = lin(a)
            c += sg * ca
            for i, (x, f) in da.items():
                g = d[i][1] + sg * f if i in d else sg * f
                if g: d[i] = (x, g)
                else: d.pop(i, None)
        r = (d, c)
    elif z3.is_app_of(t, z3.Z3_OP_UMINUS):
        da, ca = lin(t.arg(0)); r = ({i: (x, -f) for i, (x, f) in da.items()}, -ca)
    elif z3.is_mul(t) and t.num_args() == 2 and (z3.is_int_value(t.arg(0)) or z3.is_int_value(t.arg(1))):
        n, x = (t.arg(0), t.arg(1)) if z3.is_int_value(t.arg(0)) else (t.arg(1), t.arg(0))
        n = n.as_long(); da, ca = lin(x)
        r = ({i: (y, f * n) for i, (y, f) in da.items()}, ca * n) if n else ({}, 0)
    else: r = ({k: (t, 1)}, 0)
    LIN[k] = (t, r)
    return r


def linterm(d, c):
    r = 0
    for x, f in d.values(): r = mk_add0(r, mk_mul(x, f))
    return mk_add0(r, c)


def mk_add0(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    (al, ah), (bl, bh) = iv(a), iv(b)
    return setiv(a + b, _add(al, bl), _add(ah, bh))


def tight(t):
    """interval of t from its linear normal form (terms that cancel do not count)"""
    if isinstance(t, int): return t, t
    d, c = lin(t)
    lo = hi = c
    for x, f in d.values():
        l, h = iv(x)
        if f < 0: l, h = h, l
        lo = None if lo is None or l is None else lo + f * l
        hi = None if hi is None or h is None else hi + f * h
    setiv(t, lo, hi)
    return iv(t)


def divsplit(a, c):
    """a = c * A + B"""
    d, k = lin(a)
    A = {i: (x, f // c) for i, (x, f) in d.items() if f % c == 0}
    B = {i: (x, f) for i, (x, f) in d.items() if f % c}
    return linterm(A, k // c), linterm(B, k % c)


def mk_fdiv(a, c):
    """floor(a / c), c > 0 constant"""
    if isinstance(a, int): return a // c
    if c == 1: return a
    A, B = divsplit(a, c)
    if isinstance(B, int): return mk_add(A, B // c)
    l, h = tight(B)
    if l is not None and h is not None and l // c == h // c: return mk_add(A, l // c)
    if isinstance(A, int) and A == 0: B = a
    l, h = tight(B)
    return mk_add(setiv(B / c, None if l is None else l // c, None if h is None else h // c), A)


def mk_fmod(a, c):
    if isinstance(a, int): return a % c
    A, B = divsplit(a, c)
    if isinstance(B, int): return B % c
    l, h = tight(B)
    if l is not None and h is not None and l // c == h // c:
        return mk_add(B, -(l // c) * c)
    return setiv(B % c, 0, c - 1)


def mk_ite(c, a, b):
    if not isinstance(c, z3.ExprRef): return a if c else b
    if isinstance(a, (bool, z3.BoolRef)):
        return z3.If(c, a if isinstance(a, z3.ExprRef) else z3.BoolVal(a), b if isinstance(b, z3.ExprRef) else z3.BoolVal(b))
    if isinstance(a, int) and isinstance(b, int) and a == b: return a
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b): return a
    (al, ah), (bl, bh) = iv(a), iv(b)
    t = z3.If(c, a if isinstance(a, z3.ExprRef) else z3.IntVal(a), b if isinstance(b, z3.ExprRef) else z3.IntVal(b))
    return setiv(t, None if al is None or bl is None else min(al, bl), None if ah is None or bh is None else max(ah, bh))


def mk_cmp(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    (al, ah), (bl, bh) = iv(a), iv(b)
    if op in ('>', '>='):
        return mk_cmp({'>': '<', '>=': '<='}[op], b, a)
    if op == '<':
        if ah is not None and bl is not None and ah < bl: return True
        if al is not None and bh is not None and al >= bh: return False
        return a < b
    if op == '<=':
        if ah is not None and bl is not None and ah <= bl: return True
        if al is not None and bh is not None and al > bh: return False
        return a <= b
    dis = (ah is not None and bl is not None and ah < bl) or (al is not None and bh is not None and al > bh)
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b): return op == '=='
    if op == '==': return False if dis else a == b
    return True if dis else a != b


def bitruns(u):
    """runs of ones of a mask: [(lowest bit, length)]"""
    out, k = [], 0
    while u >> k:
        if (u >> k) & 1:
            n = 0
            while (u >> (k + n)) & 1: n += 1
            out.append((k, n)); k += n
        else: k += 1
    return out


def smin(w): return -(1 << (w - 1))
def smax(w): return (1 << (w - 1)) - 1


def b2i(b):
    if isinstance(b, bool): return int(b)
    return setiv(z3.If(b, z3.IntVal(1), z3.IntVal(0)), 0, 1)


def toreal(t):
    if isinstance(t, int): return z3.RealVal(t)
    return z3.ToReal(t)


def rterm(x):
    """exact rational (python float/F) as z3 real or Fraction"""
    if isinstance(x, F): return x.r
    return Fraction(x)


def rz(x):
    if isinstance(x, (int, Fraction)): return z3.RealVal(x)
    return x


class State:
    __slots__ = ('pc', 'mem', 'ab', 'fp', 'exc', 'ev', 'trace')
    def __init__(s):
        s.pc, s.mem, s.ab, s.fp, s.exc, s.ev, s.trace = [], {}, {}, [], None, [], []
    def fork(s):
        n = State()
        n.pc, n.mem, n.ab, n.fp = list(s.pc), dict(s.mem), dict(s.ab), list(s.fp)
        n.exc, n.ev, n.trace = s.exc, list(s.ev), list(s.trace)
        return n
    def assume(s, c):
        if c is True: return
        if c is False: c = z3.BoolVal(False)
        s.pc.append(c)


class Ob:
    """one obligation"""
    __slots__ = ('kind', 'where', 'status', 'backend', 't', 'inputs', 'note', 'precise')
    def __init__(s, kind, where, status, backend, t=0.0, inputs=None, note='', precise=True):
        s.kind, s.where, s.status, s.backend, s.t, s.inputs, s.note, s.precise = kind, where, status, backend, t, inputs, note, precise
    def d(s): return {k: getattr(s, k) for k in Ob.__slots__}


class Machine:
    def __init__(self, mod, lib=None, contracts=None, timeout=10000, deadline=None, cross=False):
        self.mod, self.lib, self.contracts = mod, lib or {}, contracts or []
        self.objs = {}
        self.gobj = {}
        self.forks = 0
        self.exactof = {}       # rounded result -> the exact value it rounds
        self.obs = []
        self.cnt = itertools.count()
        self.timeout = timeout
        self.deadline = deadline
        self.inputs = {}
        self.leads, self.last = [], None
        self.tsel = {}
        self.depth = 0
        self.fpmemo = {}
        self.disabled = set()
        self.ghost = {}
        self.used = set()       # functions executed in place
        self.usedc = set()      # contracts applied
        self.usedlib = set()    # trusted models used
        self.cur = []           # call stack of demangled names
        self.precise = True
        self.settled = mod.settled
        self.ginit = False      # mutable globals: initial values (history search) or arbitrary ones
        self.touched = set()    # mutable globals read or written
        self.cross = cross
        self.maxfail = 4
        self.keep, self.skipped = None, 0
        self.memo_fresh = {}
        self.undecided = []
        self.maxpaths = 4000
        self.tids = {}

    # -------------------------------------------------------- fresh
    def fresh(self, nm, lo=None, hi=None, st=None):
        v = z3.Int(f'{nm}!{next(self.cnt)}')
        if st is not None:
            if lo is not None: st.assume(v >= lo)
            if hi is not None: st.assume(v <= hi)
        if lo is not None or hi is not None: setiv(v, lo, hi)
        return v

    def freshr(self, nm): return z3.Real(f'{nm}!{next(self.cnt)}')
    def freshb(self, nm): return z3.Bool(f'{nm}!{next(self.cnt)}')

    def newobj(self, name, size, kind, **kw):
        o = Obj(next(self.cnt), name, size, kind, **kw)
        self.objs[o.id] = o
        return o

    def tick(self):
        if self.deadline and time.time() > self.deadline: raise Budget('time budget exhausted')

    # -------------------------------------------------------- obligations
    def where(self): return self.cur[-1] if self.cur else '?'

    def model_inputs(self, m):
        out = {}
        for k, v in self.inputs.items():
            if isinstance(v, z3.ExprRef):
                x = m.eval(v, model_completion=True)
                if z3.is_int_value(x): out[k] = x.as_long()
                elif z3.is_rational_value(x): out[k] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
                elif z3.is_true(x) or z3.is_false(x): out[k] = z3.is_true(x)
                else: out[k] = str(x)
            else: out[k] = v
        for nm, fn in self.ghost.items():
            try: out[nm] = fn(m)
            except Exception as e: out[nm] = repr(e)
        return out

    def oblige(self, st, cond, kind, note='', assume=True):
        """prove pc => cond"""
        if cond is True:
            self.obs.append(Ob(kind, self.where(), 'ok', 'interval/constant'))
            return True
        if self.keep is not None and kind not in self.keep:        # decided by another contract
            self.skipped += 1
            if assume:
                if cond is False: raise PathEnd()
                st.assume(cond)
            return True
        self.tick()
        t = time.time()
        neg = Not(cond)
        # portfolio: z3 briefly, cvc5, z3 at length
        r, m = smt.check(st.pc + [neg], min(1500, self.timeout))
        be = 'z3'
        if r == 'unknown':
            r2 = smt.cvc5(st.pc + [neg], self.timeout)
            if r2 == 'unsat': r, be = 'unsat', 'cvc5'
            else: r, m = smt.check(st.pc + [neg], self.timeout)
        elif r == 'unsat' and self.cross:
            r2 = smt.cvc5(st.pc + [neg], 20000)
            be = 'z3+cvc5' if r2 == 'unsat' else 'z3'
            if r2 == 'sat': r, be = 'unknown', 'z3/cvc5 disagree'
        dt = time.time() - t
        if r == 'unsat':
            self.obs.append(Ob(kind, self.where(), 'ok', be, dt))
            if assume and kind != 'post': st.assume(cond)
            return True
        if r == 'sat':
            self.obs.append(Ob(kind, self.where(), 'fail', be, dt, self.model_inputs(m), note, self.precise and not self.abstract(st)))
            if sum(o.status == 'fail' for o in self.obs) >= self.maxfail: raise Budget('enough failing obligations')
        else:
            self.obs.append(Ob(kind, self.where(), 'unknown', be, dt, None, note))
            self.leads.append(st.pc + [neg]); self.leads.append(list(st.pc))
        if assume:
            if cond is False: raise PathEnd()
            st.assume(cond)
            if not smt.feasible(st.pc): raise PathEnd()
        return False

    def abstract(self, st):
        """does the path rest on relations that over-approximate what runs?  (rounded
        floating-point results, what the C library reads from a text, printed digits):
        a refutation then counts only when it replays"""
        return any(e[1] is not None for e in st.fp) or any(e[0] in ('strtol', 'strtod', 'abstract') for e in st.ev)

    def proves(self, st, cond, timeout=3000):
        if isinstance(cond, bool): return cond
        r, _ = smt.check(st.pc + [Not(cond)], timeout)
        return r == 'unsat'

    # -------------------------------------------------------- integers
    def inrange(self, t, lo, hi):
        l, h = tight(t)
        return l is not None and h is not None and l >= lo and h <= hi

    def ranged(self, st, t, w, kind, note=''):
        """obligation: t fits signed w bits"""
        if isinstance(t, int):
            self.oblige(st, smin(w) <= t <= smax(w), kind, note); return t
        if self.inrange(t, smin(w), smax(w)):
            self.obs.append(Ob(kind, self.where(), 'ok', 'interval/constant')); return t
        self.oblige(st, And(t >= smin(w), t <= smax(w)), kind, note)
        return self.alias(st, t, *self.meet(t, smin(w), smax(w)))

    def alias(self, st, t, lo, hi):
        """a name for t on this path, carrying bounds that hold on this path only"""
        v = z3.Int(f'n!{next(self.cnt)}')
        st.assume(v == t)
        return setiv(v, lo, hi)

    def meet(self, t, lo, hi):
        l, h = iv(t)
        return (lo if l is None or l < lo else l), (hi if h is None or h > hi else h)

    def wrap(self, st, t, w):
        """canonical signed value of t modulo 2^w"""
        if isinstance(t, int):
            t &= (1 << w) - 1
            return t - (1 << w) if t > smax(w) else t
        if self.inrange(t, smin(w), smax(w)): return t
        if self.proves(st, And(t >= smin(w), t <= smax(w))):
            return self.alias(st, t, smin(w), smax(w))
        l, h = iv(t)
        if l is not None and h is not None and l >= 0 and h < (1 << w):
            return setiv(z3.If(t > smax(w), t - (1 << w), t), smin(w), smax(w))
        return setiv((t + (1 << (w - 1))) % (1 << w) - (1 << (w - 1)), smin(w), smax(w))

    def uns(self, t, w):
        """unsigned view"""
        if isinstance(t, int): return t % (1 << w)
        l, h = iv(t)
        if l is not None and l >= 0: return t
        if h is not None and h < 0: return mk_add(t, 1 << w)
        return setiv(z3.If(t < 0, t + (1 << w), t), 0, (1 << w) - 1)

    def intval(self, st, v, w=None):
        """use of a value as an integer"""
        if isinstance(v, Undef):
            self.oblige(st, False, 'uninitialised value used')
            raise PathEnd()
        if isinstance(v, bool) or isinstance(v, z3.BoolRef): return b2i(v)
        if isinstance(v, Cat): return self.catint(st, v)
        if isinstance(v, (int, z3.ArithRef)): return v
        raise Unsupported(f'integer use of {type(v).__name__}')

    def catint(self, st, v):
        t = 0
        for off, sz, x in v.parts:
            x = self.intval(st, x)
            t = mk_add(t, mk_mul(self.uns(x, 8 * sz), 1 << (8 * off)))
        return self.wrap(st, t, 8 * v.size)

    def boolval(self, st, v):
        if isinstance(v, Undef):
            self.oblige(st, False, 'uninitialised value used'); raise PathEnd()
        if isinstance(v, (bool, z3.BoolRef)): return v
        return mk_cmp('!=', self.intval(st, v), 0) if not isinstance(v, int) else bool(v & 1)

    def tdiv(self, a, b):
        """C division, b nonzero integer constant"""
        if isinstance(a, int):
            q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
        if b < 0: return mk_neg(self.tdiv(a, -b))
        l, h = tight(a)
        if l is not None and l >= 0: return mk_fdiv(a, b)
        if h is not None and h <= 0: return mk_neg(mk_fdiv(mk_neg(a), b))
        return mk_ite(a >= 0, mk_fdiv(a, b), mk_neg(mk_fdiv(mk_neg(a), b)))

    def binop(self, st, op, w, a, b, fl):
        if w == 1:
            a, b = self.boolval(st, a), self.boolval(st, b)
            if op == 'xor':
                if isinstance(b, bool): return Not(a) if b else a
                if isinstance(a, bool): return Not(b) if a else b
                return z3.Xor(a, b)
            if op == 'and': return And(a, b)
            if op == 'or': return Or(a, b)
            raise Unsupported('i1 ' + op)
        # pointer difference (ptrtoint pairs)
        if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
            if a.p.obj == b.p.obj: return mk_sub(a.p.off, b.p.off)
        a, b = self.intval(st, a), self.intval(st, b)
        lo, hi = smin(w), smax(w)
        if op in ('add', 'sub', 'mul'):
            r = {'add': mk_add, 'sub': mk_sub, 'mul': mk_mul}[op](a, b)
            if 'nsw' in fl: return self.ranged(st, r, w, 'signed overflow', op)
            if 'nuw' in fl: pass
            if op == 'mul' or op == 'add' or op == 'sub': return self.wrap(st, r, w)
        if op in ('sdiv', 'srem'):
            if isinstance(b, int):
                if b == 0:
                    self.oblige(st, False, 'division by zero'); raise PathEnd()
                if b == -1: self.oblige(st, mk_cmp('!=', a, lo), 'signed overflow', 'sdiv')
                q = self.tdiv(a, b)
                if op == 'sdiv': return q
                l, h = iv(a)
                if not isinstance(a, int) and l is not None and l >= 0: return mk_fmod(a, abs(b))
                m = abs(b) - 1
                return setiv(mk_sub(a, mk_mul(q, b)), 0 if l is not None and l >= 0 else -m, 0 if h is not None and h <= 0 else m)
            self.oblige(st, mk_cmp('!=', b, 0), 'division by zero')
            self.oblige(st, Not(And(mk_cmp('==', a, lo), mk_cmp('==', b, -1))), 'signed overflow', 'sdiv')
            q, r = self.symdiv(st, a, b)
            return self.ranged(st, q, w, 'signed overflow') if op == 'sdiv' else self.ranged(st, r, w, 'signed overflow')
        if op in ('udiv', 'urem'):
            ua, ub = self.uns(a, w), self.uns(b, w)
            if not isinstance(ub, int): raise Unsupported('udiv by variable')
            if ub == 0:
                self.oblige(st, False, 'division by zero'); raise PathEnd()
            return self.wrap(st, mk_fdiv(ua, ub) if op == 'udiv' else mk_fmod(ua, ub), w)
        if op in ('shl', 'lshr', 'ashr'):
            if not isinstance(b, int):
                self.oblige(st, And(b >= 0, b < w), 'shift amount')
                vals = range(0, w)
                l, h = iv(b)
                vals = [k for k in vals if (l is None or k >= l) and (h is None or k <= h)]
                r = self.binop(st, op, w, a, vals[-1], fl)
                for k in reversed(vals[:-1]): r = mk_ite(b == k, self.binop(st, op, w, a, k, set()), r)
                return r
            self.oblige(st, 0 <= b < w, 'shift amount')
            if op == 'shl':
                r = mk_mul(a, 1 << b)
                return self.ranged(st, r, w, 'signed overflow', 'shl') if 'nsw' in fl else self.wrap(st, r, w)
            if op == 'ashr': return mk_fdiv(a, 1 << b)
            return self.wrap(st, mk_fdiv(self.uns(a, w), 1 << b), w)
        if isinstance(a, int) and isinstance(b, int):
            m = (1 << w) - 1
            x, y = a & m, b & m
            return self.wrap(st, {'and': x & y, 'or': x | y, 'xor': x ^ y}[op], w)
        if isinstance(a, int): a, b = b, a
        if isinstance(b, int):
            if op == 'and':
                if b == -1: return a
                if b == 0: return 0
                u = b & ((1 << w) - 1)
                if u & (u + 1) == 0:            # low mask
                    return self.wrap(st, mk_fmod(a, u + 1), w)
                inv = (~b) & ((1 << w) - 1)
                if inv & (inv + 1) == 0:        # clear low bits
                    return mk_sub(a, mk_fmod(a, inv + 1))
                runs = bitruns(u)
                if len(runs) <= 6: return self.wrap(st, self.masked(a, w, runs), w)
            if op == 'xor' and b == -1: return mk_sub(-1, a)
            if op in ('or', 'xor') and b == 0: return a
            if op == 'or' and b == -1: return -1
            if op in ('or', 'xor'):             # a|b = a + b - (a&b), a^b = a + b - 2(a&b)
                u = b & ((1 << w) - 1)
                runs = bitruns(u)
                if len(runs) <= 6:
                    c = self.masked(a, w, runs)
                    return self.wrap(st, mk_sub(mk_add(self.uns(a, w), u), c if op == 'or' else mk_mul(c, 2)), w)
        # general: through bit vectors of the needed width
        l1, h1 = iv(a); l2, h2 = iv(b)
        bw = w
        za = a if isinstance(a, z3.ExprRef) else z3.IntVal(a)
        zb = b if isinstance(b, z3.ExprRef) else z3.IntVal(b)
        x, y = z3.Int2BV(za, bw), z3.Int2BV(zb, bw)
        r = {'and': x & y, 'or': x | y, 'xor': x ^ y}[op]
        t = z3.BV2Int(r, is_signed=True)
        lo2, hi2 = lo, hi
        if l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0:
            lo2 = 0
            if h1 is not None and h2 is not None:
                k = max(h1.bit_length(), h2.bit_length()); hi2 = (1 << k) - 1
        st.assume(z3.And(t >= lo2, t <= hi2))
        return setiv(t, lo2, hi2)

    def masked(self, a, w, runs):
        """the bits of a in the given runs, as an unsigned number"""
        t = 0
        for lo, n in runs:
            x = mk_fmod(mk_fdiv(a, 1 << lo), 1 << n) if lo + n < w or iv(a)[0] is None or iv(a)[0] < 0 else mk_fdiv(self.uns(a, w), 1 << lo)
            t = mk_add(t, mk_mul(x, 1 << lo))
        return t

    # -------------------------------------------------------- floating point
    def frange(self, x):
        if isinstance(x, float): return abs(x)
        return x.b

    def register(self, st, x):
        st.fp.append(x)

    def fround(self, st, e, key, bound, iterm=None):
        """round-to-nearest of the exact real term e"""
        if bound is None or bound > Fraction(10) ** 300:
            self.oblige(st, And(e <= rz(Fraction(10) ** 300), e >= rz(-Fraction(10) ** 300)), 'floating-point overflow')
            bound = Fraction(10) ** 300
        if iterm is not None:
            l, h = iv(iterm)
            if l is not None and h is not None and -2 ** 53 <= l and h <= 2 ** 53:
                return F(toreal(iterm), iterm, bound)
        if key in self.fpmemo:
            r = self.fpmemo[key]
        else:
            r = self.freshr('fl'); self.fpmemo[key] = r
        ae = z3.If(e >= 0, e, -e)
        st.assume(z3.And(r - e <= rz(ULP) * ae + rz(ETA), e - r <= rz(ULP) * ae + rz(ETA)))
        if iterm is not None:
            st.assume(z3.Implies(z3.And(toz(iterm) <= 2 ** 53, toz(iterm) >= -2 ** 53), r == e))
        # monotonicity against doubles already known
        for y in st.fp:
            yr = y[0]
            if y[1] is None:
                st.assume(z3.And(z3.Implies(e <= yr, r <= yr), z3.Implies(e >= yr, r >= yr)))
            else:
                st.assume(z3.And(z3.Implies(e <= y[1], r <= yr), z3.Implies(e >= y[1], r >= yr)))
        # magnitudes: sign preserved
        st.assume(z3.And(z3.Implies(e >= 0, r >= 0), z3.Implies(e <= 0, r <= 0)))
        st.fp.append((r, e))
        self.exactof[r.get_id()] = e
        return F(r, None, bound * (1 + ULP) + ETA)

    def fkey(self, x):
        if isinstance(x, float): return ('c', x)
        if x.i is not None and isinstance(x.i, int): return ('c', float(x.i))
        return x.r.get_id()

    def fop(self, st, op, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.oblige(st, False, 'uninitialised value used'); raise PathEnd()
        if isinstance(a, float) and isinstance(b, float):
            import math
            try:
                return {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b}[op]()
            except (ZeroDivisionError, KeyError, OverflowError):
                raise Unsupported('constant floating division by zero')
        for x in (a, b):
            if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
                raise Unsupported('arithmetic on a non-finite double')
        ia = int(a) if isinstance(a, float) and a == int(a) else (a.i if isinstance(a, F) else None)
        ib = int(b) if isinstance(b, float) and b == int(b) else (b.i if isinstance(b, F) else None)
        ra, rb = rz(rterm(a)), rz(rterm(b))
        ba, bb = self.frange(a), self.frange(b)
        key = (op, self.fkey(a), self.fkey(b))
        if isinstance(ba, float): ba = Fraction(ba)
        if isinstance(bb, float): bb = Fraction(bb)
        if op in ('fadd', 'fsub'):
            it = None
            if ia is not None and ib is not None: it = (mk_add if op == 'fadd' else mk_sub)(ia, ib)
            if isinstance(b, float) and b == 0: return a
            e = ra + rb if op == 'fadd' else ra - rb
            return self.fround(st, e, key, None if ba is None or bb is None else ba + bb, it)
        if op == 'fmul':
            if isinstance(a, float) and a == 1.0: return b
            if isinstance(b, float) and b == 1.0: return a
            it = mk_mul(ia, ib) if ia is not None and ib is not None and (isinstance(ia, int) or isinstance(ib, int)) else None
            return self.fround(st, ra * rb, key, None if ba is None or bb is None else ba * bb, it)
        if op == 'fdiv':
            if isinstance(b, float):
                if b == 0.0: raise Unsupported('floating division by zero')
                if b == 1.0: return a
                return self.fround(st, ra / rb, key, None if ba is None else ba / abs(Fraction(b)))
            self.oblige(st, rb != 0, 'floating division by zero')
            self.precise = False
            e = self.quot(st, a, b, ra, rb, key)
            # |b| >= 1 is needed for the simple bound
            bnd = None
            if b.i is not None and self.proves(st, mk_cmp('!=', b.i, 0)):
                bnd = ba
                aa = z3.If(ra >= 0, ra, -ra)
                st.assume(z3.And(e <= aa, e >= -aa))
            return self.fround(st, e, key, bnd)
        raise Unsupported(op)

    def symdiv(self, st, a, b):
        """quotient and remainder of the integer division by a symbolic divisor"""
        za = a if isinstance(a, z3.ExprRef) else z3.IntVal(a)
        k = ('sdiv', za.get_id(), b.get_id())
        new = k not in self.fpmemo
        if new:
            (al, ah), (bl, bh) = iv(a), iv(b)
            A = None if al is None or ah is None else max(abs(al), abs(ah))
            B = A if bl is None or bh is None else max(abs(bl), abs(bh)) - 1
            if A is not None: B = min(A, B)
            self.fpmemo[k] = (self.fresh('q', None, None), self.fresh('r', None, None), za)
            q, r, _ = self.fpmemo[k]
            if A is not None: setiv(q, -A, A); setiv(r, -B if al < 0 else 0, B if ah > 0 else 0)
        q, r, _ = self.fpmemo[k]
        st.assume(z3.And(za == q * b + r, z3.If(b > 0, z3.And(r < b, r > -b), z3.And(r < -b, r > b)),
                         z3.Implies(za >= 0, r >= 0), z3.Implies(za <= 0, r <= 0)))
        for x in (q, r):
            l, h = iv(x)
            if l is not None: st.assume(z3.And(x >= l, x <= h))
        st.trace.append(('sdiv', za, b, q, r))
        return q, r

    def quot(self, st, a, b, ra, rb, key):
        """exact real quotient, linear in the numerator: opaque quotients of its atoms only"""
        ia = a.i if isinstance(a, F) else (int(a) if isinstance(a, float) and a == int(a) else None)
        ib = b.i if isinstance(b, F) else None
        if a is None and z3.is_app_of(ra, z3.Z3_OP_TO_REAL): ia = ra.arg(0)
        if a is None and ia is None and z3.is_rational_value(ra) and ra.denominator_as_long() == 1: ia = ra.numerator_as_long()
        if b is None and z3.is_app_of(rb, z3.Z3_OP_TO_REAL): ib = rb.arg(0)
        if ia is None or ib is None or isinstance(ib, int): return self.quot1(st, ra, rb)
        # relations of the integer divisions by the same divisor
        seen = {x[1:4] for x in st.trace if x[0] == 'quotrel'}
        for x in list(st.trace):
            if x[0] != 'sdiv' or not x[2].eq(ib): continue
            k = ('quotrel', x[1].get_id(), ib.get_id(), x[3].get_id())
            if k[1:] in seen: continue
            st.trace.append(k); seen.add(k[1:])
            f = self.quot1(st, toreal(x[4]), rb)
            st.assume(z3.And(self.quotlin(st, x[1], rb) == toreal(x[3]) + f, f < 1, f > -1))
        return self.quotlin(st, ia, rb)

    def quotlin(self, st, ia, rb):
        d, c = lin(ia)
        e = z3.RealVal(0) if c == 0 and d else c * self.quot1(st, z3.RealVal(1), rb) if c else z3.RealVal(0)
        for x, f in d.values():
            t = self.quot1(st, toreal(x), rb)
            e = e + f * t if f != 1 else e + t
        return z3.simplify(e)

    def quot1(self, st, ra, rb):
        """exact real quotient by a symbolic divisor, as an opaque real with its defining equation"""
        k = ('quot', ra.get_id(), rb.get_id())
        if k not in self.fpmemo: self.fpmemo[k] = self.freshr('quot')
        q = self.fpmemo[k]
        st.assume(q * rb == ra)
        self.ghost.setdefault('_q', lambda m: None)
        st.trace.append(('quot', q, ra, rb))
        return q

    def fcmp(self, st, c, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.oblige(st, False, 'uninitialised value used'); raise PathEnd()
        nan = any(isinstance(x, float) and x != x for x in (a, b))
        if c in ('ord', 'uno'): return nan == (c == 'uno')
        if nan: return c[0] == 'u'
        if c == 'true': return True
        if c == 'false': return False
        o = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[c[1:]]
        inf = [isinstance(x, float) and x in (float('inf'), float('-inf')) for x in (a, b)]
        if any(inf) or (isinstance(a, float) and isinstance(b, float)):
            x = a if isinstance(a, float) else 0.0
            y = b if isinstance(b, float) else 0.0
            return eval(f'x {o} y')
        if isinstance(a, F) and isinstance(b, F) and a.i is not None and b.i is not None: return mk_cmp(o, a.i, b.i)
        x, y = rz(rterm(a)), rz(rterm(b))
        for p, q in ((a, b), (b, a)):       # rounding is monotonic: it does not cross a double
            if isinstance(p, F) and p.i is None and p.r.get_id() in self.exactof and (isinstance(q, float) or q.i is not None and q.b is not None and q.b <= 2 ** 53):
                e, k = self.exactof[p.r.get_id()], rz(rterm(q))
                st.assume(z3.And(z3.Implies(e <= k, p.r <= k), z3.Implies(e >= k, p.r >= k)))
        return {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[o]

    def ftoi(self, st, x, w, kind='float to integer conversion out of range'):
        if isinstance(x, Undef):
            self.oblige(st, False, 'uninitialised value used'); raise PathEnd()
        if isinstance(x, float):
            ok = x == x and abs(x) != float('inf') and smin(w) - 1 < x < smax(w) + 1
            self.oblige(st, ok, kind, repr(x))
            if not ok: raise PathEnd()
            return int(x)
        if x.i is not None: return self.ranged(st, x.i, w, kind)
        t = self.trunc(st, x)
        return self.ranged(st, t, w, kind)

    def trunc(self, st, x):
        """integer part towards zero of a finite double"""
        k = ('trunc', x.r.get_id(), x.b)
        if k in self.fpmemo:
            t = self.fpmemo[k]
        else:
            t = self.fresh('tr'); self.fpmemo[k] = t
        st.assume(z3.If(x.r >= 0, z3.And(toreal(t) <= x.r, x.r < toreal(t) + 1),
                        z3.And(toreal(t) >= x.r, x.r > toreal(t) - 1)))
        st.assume(z3.And(z3.Implies(x.r >= 0, t >= 0), z3.Implies(x.r <= 0, t <= 0)))
        e = self.exactof.get(x.r.get_id())
        if e is not None and x.b is not None and x.b <= 2 ** 53:
            # rounding does not cross the integers next to the exact value
            k = ('xtrunc', x.r.get_id())
            n = self.fpmemo.get(k)
            if n is None: n = self.fpmemo[k] = self.fresh('xt')
            rn = toreal(n)
            st.assume(z3.If(e >= 0, z3.And(rn <= e, e < rn + 1, rn <= x.r, x.r <= rn + 1), z3.And(rn >= e, e > rn - 1, rn >= x.r, x.r >= rn - 1)))
        if x.b is not None:
            B = int(x.b) + 1
            setiv(t, -B, B); st.assume(z3.And(t >= -B, t <= B))
        return t

    def itof(self, st, v, w):
        v = self.intval(st, v)
        if isinstance(v, int): return float(v)
        l, h = iv(v)
        b = Fraction(max(abs(l), abs(h))) if l is not None and h is not None else Fraction(1 << (w - 1))
        if b > 2 ** 53 and self.proves(st, And(v <= 2 ** 53, v >= -2 ** 53), 1500): b = Fraction(2 ** 53)
        if b <= 2 ** 53: return F(toreal(v), v, b)
        r = self.fround(st, toreal(v), ('itof', v.get_id()), b, v)
        z = mk_fmod(v, 1024)        # at most 53 significant bits after ten zero bits
        if b <= 1 << 63 and z is not None:
            st.assume(Implies(z == 0, r.r == toreal(v)))
        return r

    # -------------------------------------------------------- memory
    def gptr(self, st, name):
        """pointer to a global"""
        if name in self.mod.funcs or name in self.mod.decls: return Ptr(('fn', name), 0)
        g = self.mod.globals.get(name)
        if g is None: raise Unsupported('unknown global ' + name)
        if g.ty == 'alias': return self.gptr(st, g.init)
        if name not in self.gobj:
            try: size = sizeof(g.ty)
            except Unsupported: size = None
            o = self.newobj(name, size, 'global', const=g.const, init=g)
            self.gobj[name] = o
        o = self.gobj[name]
        return Ptr(o.id, 0)

    def cells(self, st, oid):
        c = st.mem.get(oid)
        if c is None:
            o = self.objs.get(oid)
            if o is None: raise Unsupported('no such object')
            if o.kind == 'global':
                c = {}
                if o.const:
                    if o.init.init is None: raise Unsupported('external constant ' + o.name)
                    self.initcells(st, c, 0, o.init.ty, o.init.init)
                elif (self.ginit or o.name in self.settled) and o.init is not None and o.init.init is not None:
                    self.initcells(st, c, 0, o.init.ty, o.init.init)
                elif o.init is not None:
                    self.havoccells(st, c, 0, o.init.ty, o.name)
                st.mem[oid] = c
            elif o.kind == 'dead':
                self.oblige(st, False, 'use of a dead object', o.name); raise PathEnd()
            elif o.kind == 'alloca':
                self.oblige(st, False, 'use of a dead object', o.name); raise PathEnd()
            else: raise Unsupported('object without storage: ' + o.name)
        return c

    def havoccells(self, st, c, off, t, nm):
        """arbitrary content of a mutable global (any history)"""
        t = resolve(t)
        if isinstance(t, ArrT):
            if t.n > 4096: raise Unsupported('large mutable global')
            for k in range(t.n): self.havoccells(st, c, off + k * sizeof(t.e), t.e, nm)
        elif isinstance(t, StructT):
            for o, e in zip(layout(t)[0], t.els): self.havoccells(st, c, off + o, e, nm)
        elif isinstance(t, IntT):
            w = 8 * sizeof(t)
            if nm.startswith('@_ZGV'): v = self.fresh('guard', 0, 1, st)
            else: v = self.fresh('g_' + nm[1:20], smin(w), smax(w), st)
            c[off] = (sizeof(t), v)
        elif isinstance(t, FloatT):
            r = self.freshr('g_' + nm[1:20]); st.fp.append((r, None))
            c[off] = (sizeof(t), F(r, None, None))
        # pointers: any use is unsupported (see lazy)

    def initcells(self, st, c, off, t, v):
        t = resolve(t)
        if v[0] == 'zero':
            if isinstance(t, ArrT):
                for k in range(t.n): self.initcells(st, c, off + k * sizeof(t.e), t.e, v)
            elif isinstance(t, StructT):
                for o, e in zip(layout(t)[0], t.els): self.initcells(st, c, off + o, e, v)
            elif isinstance(t, PtrT): c[off] = (8, NULL)
            elif isinstance(t, FloatT): c[off] = (sizeof(t), 0.0)
            else: c[off] = (sizeof(t), 0)
            return
        if v[0] == 'str':
            for k, b in enumerate(v[1]): c[off + k] = (1, b - 256 if b > 127 else b)
            return
        if v[0] == 'agg':
            if isinstance(t, ArrT):
                for k, x in enumerate(v[1]): self.initcells(st, c, off + k * sizeof(t.e), t.e, x)
            else:
                for o, e, x in zip(layout(t)[0], t.els, v[1]): self.initcells(st, c, off + o, e, x)
            return
        if v[0] == 'undef': return
        c[off] = (sizeof(t), self.const(st, t, v))

    def const(self, st, t, v):
        k = v[0]
        if k == 'i': return v[1]
        if k == 'i1': return v[1]
        if k == 'f': return v[1]
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'g': return self.gptr(st, v[1])
        if k == 'zero':
            rt = resolve(t)
            if isinstance(rt, IntT): return False if rt.w == 1 else 0
            if isinstance(rt, FloatT): return 0.0
            if isinstance(rt, PtrT): return NULL
            if isinstance(rt, StructT): return Agg([self.const(st, e, v) for e in rt.els])
        if k == 'gep':
            base = self.const(st, v[2][0][0], v[2][0][1])
            return self.gep(st, v[1], base, [(a, self.const(st, a, b)) for a, b in v[2][1:]])
        if k == 'cast': return self.const(st, v[2], v[3])
        if k == 'agg':
            rt = resolve(t)
            els = rt.els if isinstance(rt, StructT) else [rt.e] * rt.n
            return Agg([self.const(st, e, x) for e, x in zip(els, v[1])])
        raise Unsupported('constant ' + k)

    def gep(self, st, bt, base, idx, inb=True):
        if not isinstance(base, Ptr): raise Unsupported('gep on non-pointer')
        if isinstance(base.off, TPos):
            if len(idx) == 1 and isinstance(idx[0][1], int) and sizeof(bt) == 1:
                return self.tokadv(st, base, idx[0][1])
            raise Unsupported('gep into a formatted string')
        off = mk_mul(self.intval(st, idx[0][1]), sizeof(bt))
        t = bt
        for ti, ix in idx[1:]:
            t = resolve(t)
            ix = self.intval(st, ix)
            if isinstance(t, ArrT):
                off = mk_add(off, mk_mul(ix, sizeof(t.e))); t = t.e
            elif isinstance(t, StructT):
                off = mk_add(off, layout(t)[0][ix]); t = t.els[ix]
            else: raise Unsupported('gep type')
        if isinstance(off, int) and off == 0: return base
        if base.obj is None:
            self.oblige(st, False, 'null pointer arithmetic'); raise PathEnd()
        noff = mk_add(base.off, off)
        if inb and not isinstance(base.obj, tuple):
            o = self.objs[base.obj]
            if o.size is not None and o.kind not in ('cstr',):
                self.oblige(st, And(mk_cmp('>=', noff, 0), mk_cmp('<=', noff, o.size)), 'pointer arithmetic out of bounds', o.name)
            elif o.kind == 'cstr':
                L = o.extra['len']
                self.oblige(st, And(mk_cmp('>=', noff, 0), mk_cmp('<=', noff, mk_add(L, 1))), 'pointer arithmetic out of bounds', o.name)
        return Ptr(base.obj, noff)

    def tokadv(self, st, p, n):
        toks = self.objs[p.obj].extra['toks']
        ti, k = p.off.ti, p.off.k
        while n > 0:
            if ti >= len(toks):
                self.oblige(st, False, 'pointer arithmetic out of bounds', 'formatted string'); raise PathEnd()
            t = toks[ti]
            ln = len(t[1]) if t[0] == 'lit' else (1 if t[0] == 'chr' else None)
            if ln is None: raise Unsupported('pointer inside a formatted number')
            k += 1; n -= 1
            if k >= ln: ti, k = ti + 1, 0
        if n < 0: raise Unsupported('backward pointer in a formatted string')
        return Ptr(p.obj, TPos(ti, k))

    def deref(self, st, p, size, what):
        if not isinstance(p, Ptr):
            if isinstance(p, Undef):
                self.oblige(st, False, 'uninitialised value used', 'pointer'); raise PathEnd()
            raise Unsupported('dereference of non-pointer')
        if p.obj is None:
            self.oblige(st, False, 'null dereference'); raise PathEnd()
        if isinstance(p.obj, tuple): raise Unsupported('dereference of a function')
        o = self.objs[p.obj]
        if o.kind == 'dead':
            self.oblige(st, False, 'use of a dead object', o.name); raise PathEnd()
        if not isinstance(p.off, TPos) and o.size is not None:
            hi = o.size - size
            self.oblige(st, And(mk_cmp('>=', p.off, 0), mk_cmp('<=', p.off, hi)), what + ' out of bounds', o.name)
        return o

    def charat(self, st, o, off):
        """character of a symbolic C string"""
        L = o.extra['len']
        self.oblige(st, And(mk_cmp('>=', off, 0), mk_cmp('<=', off, L)), 'read beyond the terminating NUL', o.name)
        k = off if isinstance(off, z3.ExprRef) else z3.IntVal(off)
        ch = o.extra['ch'](k)
        if ch.get_id() not in BND: setiv(ch, -128, 127)
        st.assume(z3.And(ch >= -128, ch <= 127, z3.Implies(k < L, ch != 0), z3.Implies(k == L, ch == 0)))
        return ch

    def load(self, st, t, p):
        t = resolve(t)
        if isinstance(t, StructT):
            return Agg([self.load(st, e, self.offs(p, o)) for o, e in zip(layout(t)[0], t.els)])
        if isinstance(t, ArrT):
            return Agg([self.load(st, t.e, self.offs(p, k * sizeof(t.e))) for k in range(t.n)])
        size = sizeof(t)
        o = self.deref(st, p, size, 'read')
        if o.kind == 'cstr':
            if size != 1: raise Unsupported('wide read of a string')
            return self.charat(st, o, p.off)
        if o.kind == 'tokbuf': return self.tokchar(st, o, p.off)
        if o.kind == 'input':
            return self.inputcell(st, o, p.off, t)
        c = self.cells(st, p.obj)
        off = p.off
        if not isinstance(off, int): return self.symload(st, o, c, off, t, size)
        v = self.cellload(st, o, c, off, size, t)
        return self.asty(st, v, t)

    def offs(self, p, k): return p if k == 0 else Ptr(p.obj, mk_add(p.off, k))

    def asty(self, st, v, t):
        if isinstance(v, Undef): return v
        if isinstance(t, IntT):
            if t.w == 1: return self.boolval(st, v)
            if isinstance(v, (bool, z3.BoolRef)): return b2i(v)
            if isinstance(v, (float, F)): raise Unsupported('bit cast of a double')
            return v
        if isinstance(t, FloatT):
            if not isinstance(v, (float, F)): raise Unsupported('bit cast to double')
            return v
        if isinstance(t, PtrT):
            if isinstance(v, int) and v == 0: return NULL
            if isinstance(v, PtrInt): return v.p
            if not isinstance(v, Ptr): raise Unsupported('integer loaded as pointer')
        return v

    def lazy(self, st, o, c, off, size, t):
        """first read of an arbitrary-content cell (mutable globals)"""
        if isinstance(t, IntT):
            v = self.fresh('g_' + o.name[1:20], smin(8 * size), smax(8 * size), st)
        else: raise Unsupported('mutable global of this type')
        c2 = dict(c); c2[off] = (size, v); st.mem[o.id] = c2
        return v

    def note(self, st, what, o):
        if o.name in self.settled: return
        self.touched.add(o.name)
        e = (what, o.name, self.where())
        if e not in st.ev: st.ev.append(e)

    def cellload(self, st, o, c, off, size, t):
        x = c.get(off)
        if o.kind == 'global' and not o.const and o.name != '@errno': self.note(st, 'readglobal', o)
        if x is not None and x[0] == size: return x[1]
        if o.kind == 'global' and not o.const:
            if not any(k < off + size and k + s > off for k, (s, _) in c.items()):
                return self.lazy(st, o, c, off, size, t)
        parts = []
        k = off
        over = sorted((q, s, v) for q, (s, v) in c.items() if q < off + size and q + s > off)
        if not over: return UNDEF
        if len(over) == 1 and over[0][0] <= off and over[0][0] + over[0][1] >= off + size:
            q, s, v = over[0]
            if isinstance(v, Cat):
                sub = [(o2 - (off - q), s2, v2) for o2, s2, v2 in v.parts if o2 >= off - q and o2 + s2 <= off - q + size]
                if len(sub) == 1 and sub[0][1] == size: return sub[0][2]
                return Cat(sub, size)
            v = self.intval(st, v)
            u = mk_fmod(mk_fdiv(self.uns(v, 8 * s), 1 << (8 * (off - q))), 1 << (8 * size))
            return self.wrap(st, u, 8 * size)
        for q, s, v in over:
            if q < off or q + s > off + size: raise Unsupported('misaligned partial read')
            parts.append((q - off, s, v))
        return Cat(parts, size)

    def symload(self, st, o, c, off, t, size):
        if o.kind == 'global' and not o.const: self.note(st, 'readglobal', o)
        l, h = iv(off)
        cand = [q for q, (s, v) in c.items() if s == size and (l is None or q >= l) and (h is None or q <= h)]
        cand.sort()
        if not cand: raise Unsupported('symbolic read of untyped memory')
        vals = [c[q][1] for q in cand]
        if all(isinstance(v, (int, z3.ArithRef)) for v in vals):
            self.oblige(st, Or([off == q for q in cand]), 'read of no element', o.name)
            r = vals[-1]
            for q, v in zip(reversed(cand[:-1]), reversed(vals[:-1])): r = mk_ite(off == q, v, r)
            return r
        # pointers etc.: fork is not possible here; ask for a unique value
        raise NeedFork([(off == q, (q,)) for q in cand])

    def store(self, st, t, v, p):
        t = resolve(t)
        if isinstance(t, StructT) or isinstance(t, ArrT):
            if isinstance(v, Undef): return
            els = t.els if isinstance(t, StructT) else [t.e] * t.n
            ofs = layout(t)[0] if isinstance(t, StructT) else [k * sizeof(t.e) for k in range(t.n)]
            for o, e, x in zip(ofs, els, v.v): self.store(st, e, x, self.offs(p, o))
            return
        size = sizeof(t)
        o = self.deref(st, p, size, 'write')
        self.storecell(st, o, p.off, size, v)

    def storecell(self, st, o, off, size, v):
        if o.const or o.kind in ('cstr', 'tokbuf', 'input'):
            self.oblige(st, False, 'write to constant memory', o.name); raise PathEnd()
        if o.kind == 'global' and o.name != '@errno':
            self.note(st, 'writeglobal', o)
        if not isinstance(off, int):
            l, h = iv(off)
            c = dict(self.cells(st, o.id))
            cand = sorted(q for q, (s, x) in c.items() if s == size and (l is None or q >= l) and (h is None or q <= h))
            if size and o.size is not None and all((q in c and c[q][0] == size) for q in range(0, o.size - size + 1, size) if (l is None or q >= l) and (h is None or q <= h)) \
               and isinstance(v, (int, z3.ArithRef)) and all(isinstance(c[q][1], (int, z3.ArithRef)) for q in cand):
                self.oblige(st, Or([off == q for q in cand]), 'write to no element', o.name)
                for q in cand: c[q] = (size, mk_ite(off == q, v, c[q][1]))
                st.mem[o.id] = c
                return
            raise NeedFork([(off == q, (q,)) for q in range(0, (o.size or 0) - size + 1, size) if (l is None or q >= l) and (h is None or q <= h)])
        c = dict(self.cells(st, o.id))
        for q in [q for q, (s, x) in c.items() if q < off + size and q + s > off and not (q == off and s == size)]:
            s, x = c[q]
            if q >= off and q + s <= off + size: del c[q]; continue
            # split the old cell around the write
            for k in range(s):
                if not (off <= q + k < off + size):
                    c[q + k] = (1, self.cellload(st, o, {q: (s, x)}, q + k, 1, I8))
            if q in c and c[q][0] == s and s != 1: del c[q]
        if isinstance(v, Cat):
            if off in c: del c[off]
            for o2, s2, x in v.parts: c[off + o2] = (s2, x)
        else: c[off] = (size, v)
        st.mem[o.id] = c

    def inputcell(self, st, o, off, t):
        key = (o.id, off if isinstance(off, int) else None)
        if key[1] is None: raise Unsupported('symbolic index into the inputs')
        vals = o.extra
        if off not in vals: raise Unsupported(f'input slot {off} not declared')
        return vals[off]

    def tokchar(self, st, o, pos):
        toks = o.extra['toks']
        if pos.ti >= len(toks): return 0
        t = toks[pos.ti]
        if t[0] == 'lit': return ord(t[1][pos.k]) if ord(t[1][pos.k]) < 128 else ord(t[1][pos.k]) - 256
        if t[0] == 'chr': return t[1]
        if t[0] in ('int', 'fix'):
            st.ev.append(('abstract',))
            v = self.fresh('digit', 32, 57, st)     # space, sign or digit: never NUL, never a letter
            return v
        raise Unsupported('character of a formatted number')

    def copy(self, st, d, s, n):
        """memcpy of n (constant) bytes"""
        if n == 0: return
        so = self.deref(st, s, n, 'read')
        do = self.deref(st, d, n, 'write')
        if so.kind == 'cstr':
            for k in range(n):
                self.storecell(st, do, mk_add(d.off, k), 1, self.charat(st, so, mk_add(s.off, k)))
            return
        if so.kind == 'tokbuf': raise Unsupported('memcpy from formatted string')
        if not isinstance(s.off, int) or not isinstance(d.off, int): raise Unsupported('memcpy at symbolic offset')
        if (so.id, s.off) in st.ab: raise Unsupported('bytewise copy of a library object')
        c = self.cells(st, so.id) if so.kind != 'input' else {k: (8, v) for k, v in so.extra.items()}
        over = sorted((q, sz, v) for q, (sz, v) in c.items() if q < s.off + n and q + sz > s.off)
        out = []
        for q, sz, v in over:
            if q < s.off or q + sz > s.off + n:
                for k in range(max(q, s.off), min(q + sz, s.off + n)):
                    out.append((k, 1, self.cellload(st, so, c, k, 1, I8)))
            else: out.append((q, sz, v))
        if so.kind == 'global' and not so.const:
            self.note(st, 'readglobal', so)
            if not over: raise Unsupported('memcpy of a mutable global')
        # clear destination
        if do.const or do.kind in ('cstr', 'tokbuf', 'input'):
            self.oblige(st, False, 'write to constant memory', do.name); raise PathEnd()
        if do.kind == 'global': self.note(st, 'writeglobal', do)
        dc = dict(self.cells(st, do.id))
        for q in [q for q, (sz, v) in dc.items() if q >= d.off and q + sz <= d.off + n]: del dc[q]
        st.mem[do.id] = dc
        for q, sz, v in out: self.storecell(st, do, d.off + q - s.off, sz, v)

    # -------------------------------------------------------- execution
    def ev(self, st, env, t, v):
        if v[0] == 'l':
            try: return env[v[1]]
            except KeyError: raise Unsupported('undefined register ' + v[1])
        return self.const(st, t, v)

    def branch(self, st, c):
        """-> list of (state, bool) feasible"""
        if isinstance(c, bool): return [(st, c)]
        c = z3.simplify(c) if c.num_args() and False else c
        self.tick()
        t = smt.feasible(st.pc + [c])
        f = smt.feasible(st.pc + [z3.Not(c)]) if t else True
        if t and f:
            s2 = st.fork()
            st.assume(c); s2.assume(z3.Not(c))
            if len(self.leads) < 300: self.leads += [list(st.pc), list(s2.pc)]
            return [(st, True), (s2, False)]
        return [(st, t)]

    def inputs_on_paths(self, n=40, tlimit=6):
        """inputs that lead down the branches seen: where something is left undischarged, the real code is run on them"""
        out, t0 = [], time.time()
        ls = self.leads
        if self.last is not None: ls = ls + [self.last.pc]
        for pc in ls[::-1]:
            if len(out) >= n or time.time() - t0 > tlimit: break
            r, m = smt.check(pc, 400)
            if r == 'sat':
                x = self.model_inputs(m)
                if x not in out: out.append(x)
        return out

    def refine(self, st, c, val):
        pass

    def call(self, st, fname, args, inst=None, rt=None):
        """-> list of (state, outcome); outcome ('ret', v) | ('throw', tinfo) | ('term', why)"""
        dem = self.mod.dem.get(fname, fname)
        for pat, h in self.contracts:
            if id(h) in self.disabled: continue
            if pat(dem):
                r = h(self, st, args, self.mod.funcs.get(fname) or self.mod.decls.get(fname), rt)
                if r is not None:
                    self.usedc.add(dem); return r
        m = self.lib.lookup(fname, dem)
        if m is not None:
            self.usedlib.add(dem)
            return m(self, st, args, rt, dem)
        f = self.mod.funcs.get(fname)
        if f is None: raise Unsupported('external function ' + dem)
        return self.run(st, f, args)

    def run(self, st, f, args):
        f.parse()
        if len(self.cur) > 60: raise Unsupported('recursion depth')
        if self.cur.count(f.dem or f.name) > 8: raise Unsupported('recursion in ' + (f.dem or f.name))
        self.used.add(f.dem or f.name)
        self.cur.append(f.dem or f.name)
        base = len(st.pc)
        live0 = set(st.mem)
        try:
            env = {}
            for (t, pn, sret, byval), a in zip(f.params, args):
                if byval is not None:
                    o = self.newobj('byval', sizeof(byval), 'alloca'); st.mem[o.id] = {}
                    self.copy(st, Ptr(o.id, 0), a, sizeof(byval)); a = Ptr(o.id, 0)
                env[pn] = a
            outs = []
            visits = {}
            work = [(st, env, f.entry, 0, None)]
            while work:
                item = work.pop()
                try:
                    self.step(f, item, work, outs, visits)
                except PathEnd:
                    pass
                if len(outs) > self.maxpaths: raise Budget('too many paths')
        finally:
            self.cur.pop()
        # locals die
        for s, o in outs:
            for oid in [k for k in s.mem if k not in live0 and self.objs[k].kind == 'alloca' and self.objs[k].extra == f.name]:
                del s.mem[oid]
            for key in [k for k in s.ab if self.objs[k[0]].kind == 'alloca' and k[0] not in s.mem and k[0] not in live0]:
                del s.ab[key]
        if len(outs) > 1: outs = self.merge(outs, base, live0)
        return outs

    def merge(self, outs, base, live0):
        """join return paths of a helper that left the caller's memory alone"""
        rets = [(s, o) for s, o in outs if o[0] == 'ret']
        rest = [(s, o) for s, o in outs if o[0] != 'ret']
        if len(rets) < 2 or not self.cur: return outs
        s0, o0 = rets[0]
        if any(s.ab != s0.ab for s, o in rets): self.lib.same_texts(self, [s for s, o in rets])
        for s, o in rets:
            v = o[1]
            if not (v is None or isinstance(v, (int, bool, z3.ArithRef, z3.BoolRef))): return outs
            if (v is None) != (o0[1] is None): return outs
            if isinstance(v, (bool, z3.BoolRef)) != isinstance(o0[1], (bool, z3.BoolRef)): return outs
            if s.ab != s0.ab or len(s.ev) != len(s0.ev): return outs
            if s.exc is not s0.exc: return outs
        keys = set(s0.mem)
        if any(set(s.mem) != keys for s, o in rets): 
            return outs
        for k in keys:
            if any(s.mem[k] is not s0.mem[k] for s, o in rets):
                c0 = s0.mem[k]
                for s, o in rets:
                    c = s.mem[k]
                    if c is c0: continue
                    if set(c) != set(c0): return outs
                    for q in c:
                        a, b = c[q][1], c0[q][1]
                        if c[q][0] != c0[q][0]: return outs
                        if a is b: continue
                        if isinstance(a, (int, bool)) and type(a) == type(b) and a == b: continue
                        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b): continue
                        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and isinstance(a.off, int) and a.off == b.off: continue
                        return outs
        if any(len(s.trace) != len(s0.trace) or any(a is not b for a, b in zip(s.trace, s0.trace)) for s, o in rets): return outs
        m = s0.fork()
        m.pc = s0.pc[:base]
        guards = [z3.And(*s.pc[base:]) if len(s.pc) > base else z3.BoolVal(True) for s, o in rets]
        m.pc.append(z3.Or(*guards))
        m.fp = list(s0.fp)      # the rounding of a term is the same double on every path
        seen = {x[0].get_id() for x in m.fp}
        for s, o in rets[1:]:
            for x in s.fp:
                if x[0].get_id() not in seen: seen.add(x[0].get_id()); m.fp.append(x)
        v = rets[-1][1][1]
        if v is not None:
            for g, (s, o) in zip(reversed(guards[:-1]), reversed(rets[:-1])): v = mk_ite(g, o[1], v)
        return [(m, ('ret', v))] + rest

    def jump(self, f, st, env, frm, to, work, visits):
        n = visits.get(to, 0) + 1
        visits[to] = n
        if n > 20000: raise Budget('loop without bound in ' + f.dem)
        blk = f.blocks[to]
        phis = []
        i = 0
        while i < len(blk) and blk[i].op == 'phi':
            ins = blk[i]
            for v, b in ins.a[1]:
                if b == frm:
                    phis.append((ins.res, self.ev(st, env, ins.a[0], v))); break
            else: raise Unsupported('phi without edge')
            i += 1
        for r, v in phis: env[r] = v
        work.append((st, env, to, i, frm))

    def step(self, f, item, work, outs, visits):
        st, env, bl, i, prev = item
        blk = f.blocks[bl]
        self.last = st
        while True:
            ins = blk[i]
            op, a = ins.op, ins.a
            try:
                if op == 'alloca':
                    n = 1
                    if a[1] is not None:
                        n = self.ev(st, env, *a[1])
                        if not isinstance(n, int): raise Unsupported('variable length array')
                    o = self.newobj(f'{f.dem or f.name}:{ins.res}', sizeof(a[0]) * n, 'alloca', extra=f.name)
                    st.mem[o.id] = {}
                    env[ins.res] = Ptr(o.id, 0)
                elif op == 'load':
                    env[ins.res] = self.load(st, a[0], self.ev(st, env, PTR, a[1]))
                elif op == 'store':
                    self.store(st, a[0], self.ev(st, env, a[0], a[1]), self.ev(st, env, PTR, a[2]))
                elif op == 'gep':
                    base = self.ev(st, env, PTR, a[1][0][1])
                    env[ins.res] = self.gep(st, a[0], base, [(t, self.ev(st, env, t, v)) for t, v in a[1][1:]], a[2])
                elif op == 'bin':
                    env[ins.res] = self.binop(st, a[0], resolve(a[1]).w, self.ev(st, env, a[1], a[2]), self.ev(st, env, a[1], a[3]), a[4])
                elif op == 'fbin':
                    env[ins.res] = self.fop(st, a[0], self.ev(st, env, a[1], a[2]), self.ev(st, env, a[1], a[3]))
                elif op == 'fneg':
                    x = self.ev(st, env, *a)
                    env[ins.res] = -x if isinstance(x, float) else F(-x.r, None if x.i is None else mk_neg(x.i), x.b)
                elif op == 'icmp':
                    env[ins.res] = self.icmp(st, a[0], a[1], self.ev(st, env, a[1], a[2]), self.ev(st, env, a[1], a[3]))
                elif op == 'fcmp':
                    env[ins.res] = self.fcmp(st, a[0], self.ev(st, env, a[1], a[2]), self.ev(st, env, a[1], a[3]))
                elif op == 'cast':
                    env[ins.res] = self.cast(st, a[0], a[1], self.ev(st, env, a[1], a[2]), a[3])
                elif op == 'select':
                    c = self.boolval(st, self.ev(st, env, I1, a[0]))
                    x, y = self.ev(st, env, a[1], a[2]), self.ev(st, env, a[1], a[3])
                    env_r = self.select(st, c, x, y)
                    if env_r is None: raise NeedFork([(c, None), (Not(c), None)])
                    env[ins.res] = env_r
                elif op == 'br':
                    self.jump(f, st, env, bl, a[0], work, visits); return
                elif op == 'cbr':
                    c = self.boolval(st, self.ev(st, env, I1, a[0]))
                    base = len(st.pc)
                    bs = self.branch(st, c)
                    if len(bs) == 2:
                        self.forks += 1
                        if self.forks > 12:
                            j = self.ifconvert(f, bs, base, c, env, bl, a[1], a[2], visits)
                            if j is not None:
                                work.append(j); return
                    for k, (s, b) in enumerate(bs):
                        self.jump(f, s, env if k == len(bs) - 1 else dict(env), bl, a[1] if b else a[2], work, visits)
                    return
                elif op == 'switch':
                    self.switch(f, st, env, bl, a, work, visits); return
                elif op == 'ret':
                    outs.append((st, ('ret', None if a[1] is None else self.ev(st, env, a[0], a[1])))); return
                elif op == 'call':
                    r = self.docall(f, st, env, ins)
                    if len(r) != 1 or r[0][1][0] != 'ret' or a[3] is not None:
                        for k, (s, o) in enumerate(r):
                            e2 = dict(env)
                            if o[0] == 'ret':
                                if ins.res: e2[ins.res] = o[1]
                                if a[3] is not None: self.jump(f, s, e2, bl, a[3], work, visits)
                                else: work.append((s, e2, bl, i + 1, prev))
                            elif o[0] == 'throw':
                                if a[4] is not None:
                                    s.exc = o[1]; self.jump(f, s, e2, bl, a[4], work, visits)
                                else: outs.append((s, o))
                            else: outs.append((s, o))
                        return
                    st = r[0][0]
                    if ins.res: env[ins.res] = r[0][1][1]
                elif op == 'landingpad':
                    r = self.landingpad(st, a)
                    if r is None: outs.append((st, ('throw', st.exc))); return
                    env[ins.res] = r
                elif op == 'resume':
                    outs.append((st, ('throw', st.exc))); return
                elif op == 'extractvalue':
                    v = self.ev(st, env, a[0], a[1])
                    for k in a[2]: v = v.v[k] if isinstance(v, Agg) else UNDEF
                    env[ins.res] = v
                elif op == 'insertvalue':
                    v = self.ev(st, env, a[0], a[1]); x = self.ev(st, env, a[2], a[3])
                    env[ins.res] = self.insertv(resolve(a[0]), v, x, a[4])
                elif op == 'unreachable':
                    self.oblige(st, False, 'unreachable code reached'); return
                elif op == 'freeze':
                    v = self.ev(st, env, *a)
                    env[ins.res] = v
                elif op == 'unsupported':
                    raise Unsupported(a[0] + ': ' + ins.text[:80])
                elif op == 'phi': raise Unsupported('phi placement')
                else: raise Unsupported('op ' + op)
            except NeedFork as nf:
                alts = []
                for c, tag in nf.alts:
                    if isinstance(c, bool):
                        if c: alts.append((c, tag))
                    elif smt.feasible(st.pc + [c]): alts.append((c, tag))
                for c, tag in alts:
                    s2 = st.fork(); s2.assume(c)
                    e2 = dict(env)
                    if tag is not None: self.pin(s2, e2, ins, c, tag[0])
                    else:
                        if op == 'select':
                            first = nf.alts[0][0]
                            e2[ins.res] = self.ev(st, env, a[1], a[2] if c is first else a[3])
                            work.append((s2, e2, bl, i + 1, prev)); continue
                    work.append((s2, e2, bl, i, prev))
                return
            i += 1

    PUREOPS = ('load', 'store', 'bin', 'icmp', 'cast', 'gep', 'select', 'freeze')

    def ifconvert(self, f, bs, base, c, env, bl, T, F, visits):
        """join the two short sides of a conditional into one path, where they differ only in integers"""
        preds = f.preds()
        def arm(b, other):
            """the side's block, or None for the join block itself; the join"""
            blk = f.blocks[b]
            if len(preds[b]) == 1 and len(blk) <= 12 and blk[-1].op == 'br' and all(x.op in self.PUREOPS for x in blk[:-1]): return b, blk[-1].a[0]
            return None, b
        at, jt = arm(T, F); af, jf = arm(F, T)
        if at is not None and jt == F: af, jf = None, F
        elif af is not None and jf == T: at, jt = None, T
        if jt != jf or (at is None and af is None) or jt == bl: return None
        s1, s2 = [x[0].fork() for x in bs]
        sides = []
        for s, b in ((s1, at), (s2, af)):
            e = dict(env)
            if b is not None:
                try:
                    for ins in f.blocks[b][:-1]: self.pure(s, e, ins)
                except (NeedFork, PathEnd, Unsupported): return None
            sides.append((s, e, b if b is not None else bl))
        # phi values, memory
        blk, i, phis = f.blocks[jt], 0, {}
        while i < len(blk) and blk[i].op == 'phi':
            ins, vs = blk[i], []
            for s, e, frm in sides:
                for v, b in ins.a[1]:
                    if b == frm: vs.append(self.ev(s, e, ins.a[0], v)); break
                else: return None
            v = self.joined(c, *vs)
            if v is None: return None
            phis[ins.res] = v; i += 1
        if s1.ab != s2.ab or len(s1.ev) != len(s2.ev) or s1.exc is not s2.exc or len(s1.trace) != len(s2.trace) or len(s1.fp) != len(s2.fp) or set(s1.mem) != set(s2.mem): return None
        m = s1.fork()
        for k in s1.mem:
            x, y = s1.mem[k], s2.mem[k]
            if x is y: continue
            if set(x) != set(y): return None
            z = {}
            for q in x:
                if x[q][0] != y[q][0]: return None
                v = x[q][1] if x[q][1] is y[q][1] else self.joined(c, x[q][1], y[q][1])
                if v is None: return None
                z[q] = (x[q][0], v)
            m.mem[k] = z
        m.pc = s1.pc[:base]
        for s, g in ((s1, c), (s2, Not(c))):
            if len(s.pc) > base + 1: m.pc.append(z3.Implies(g, z3.And(*s.pc[base + 1:])))
        e = dict(env); e.update(phis)
        visits[jt] = visits.get(jt, 0) + 1
        if visits[jt] > 20000: raise Budget('loop without bound in ' + f.dem)
        return (m, e, jt, i, bl)

    def joined(self, c, x, y):
        if x is y: return x
        if isinstance(x, bool) != isinstance(y, bool) and not (isinstance(x, z3.BoolRef) or isinstance(y, z3.BoolRef)): return None
        b = isinstance(x, (bool, z3.BoolRef)), isinstance(y, (bool, z3.BoolRef))
        if b[0] != b[1]: return None
        if isinstance(x, (int, z3.ArithRef, z3.BoolRef)) and isinstance(y, (int, z3.ArithRef, z3.BoolRef)): return mk_ite(c, x, y)
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj and isinstance(x.off, int) and x.off == y.off: return x
        return None

    def pure(self, st, env, ins):
        op, a = ins.op, ins.a
        if op == 'load': env[ins.res] = self.load(st, a[0], self.ev(st, env, PTR, a[1]))
        elif op == 'store': self.store(st, a[0], self.ev(st, env, a[0], a[1]), self.ev(st, env, PTR, a[2]))
        elif op == 'gep': env[ins.res] = self.gep(st, a[0], self.ev(st, env, PTR, a[1][0][1]), [(t, self.ev(st, env, t, v)) for t, v in a[1][1:]], a[2])
        elif op == 'bin': env[ins.res] = self.binop(st, a[0], resolve(a[1]).w, self.ev(st, env, a[1], a[2]), self.ev(st, env, a[1], a[3]), a[4])
        elif op == 'icmp': env[ins.res] = self.icmp(st, a[0], a[1], self.ev(st, env, a[1], a[2]), self.ev(st, env, a[1], a[3]))
        elif op == 'cast': env[ins.res] = self.cast(st, a[0], a[1], self.ev(st, env, a[1], a[2]), a[3])
        elif op == 'freeze': env[ins.res] = self.ev(st, env, *a)
        elif op == 'select':
            r = self.select(st, self.boolval(st, self.ev(st, env, I1, a[0])), self.ev(st, env, a[1], a[2]), self.ev(st, env, a[1], a[3]))
            if r is None: raise Unsupported('select')
            env[ins.res] = r

    def pin(self, st, env, ins, c, off):
        """after forking on a symbolic offset: make the pointer operand concrete"""
        v = ins.a[1] if ins.op == 'load' else ins.a[2]
        if v[0] == 'l':
            p = env[v[1]]
            env[v[1]] = Ptr(p.obj, off)
        else: raise Unsupported('symbolic offset')

    def insertv(self, t, v, x, idx):
        els = t.els if isinstance(t, StructT) else [t.e] * t.n
        base = list(v.v) if isinstance(v, Agg) else [UNDEF] * len(els)
        if len(idx) == 1: base[idx[0]] = x
        else: base[idx[0]] = self.insertv(resolve(els[idx[0]]), base[idx[0]], x, idx[1:])
        return Agg(base)

    def select(self, st, c, x, y):
        if isinstance(c, bool): return x if c else y
        if isinstance(x, (int, bool, z3.ArithRef, z3.BoolRef)) and isinstance(y, (int, bool, z3.ArithRef, z3.BoolRef)): return mk_ite(c, x, y)
        return None

    def switch(self, f, st, env, bl, a, work, visits):
        v = self.intval(st, self.ev(st, env, a[0], a[1]))
        rest = []
        for k, lab in a[3]:
            c = mk_cmp('==', v, k if not isinstance(k, bool) else int(k))
            if c is True: self.jump(f, st, env, bl, lab, work, visits); return
            if c is False: continue
            if smt.feasible(st.pc + [c]):
                s2 = st.fork(); s2.assume(c)
                self.jump(f, s2, dict(env), bl, lab, work, visits)
            st.assume(z3.Not(c))
        if smt.feasible(st.pc): self.jump(f, st, env, bl, a[2], work, visits)

    def icmp(self, st, c, t, a, b):
        rt = resolve(t)
        if isinstance(rt, PtrT): return self.pcmp(st, c, a, b)
        if isinstance(a, PtrInt) and isinstance(b, PtrInt): return self.pcmp(st, c, a.p, b.p)
        w = rt.w
        if w == 1:
            a, b = self.boolval(st, a), self.boolval(st, b)
            if c in ('eq', 'ne'):
                if isinstance(a, bool) and isinstance(b, bool): return (a == b) == (c == 'eq')
                if isinstance(b, bool): r = a if b else Not(a)
                elif isinstance(a, bool): r = b if a else Not(b)
                else: r = a == b
                return r if c == 'eq' else Not(r)
            a, b = b2i(a), b2i(b)
        a, b = self.intval(st, a), self.intval(st, b)
        if c[0] == 'u' :
            a, b = self.uns(a, w), self.uns(b, w)
        return mk_cmp({'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[c if c in ('eq', 'ne') else c[1:]], a, b)

    def pcmp(self, st, c, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.oblige(st, False, 'uninitialised value used'); raise PathEnd()
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported('pointer comparison')
        if a.obj != b.obj:
            if c == 'eq': return False
            if c == 'ne': return True
            raise Unsupported('ordering of pointers into different objects')
        x, y = a.off, b.off
        if isinstance(x, TPos) or isinstance(y, TPos):
            k = {'eq': x == y, 'ne': x != y}.get(c)
            if k is None: raise Unsupported('ordering of string positions')
            return k
        return mk_cmp({'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[c if c in ('eq', 'ne') else c[1:]], x, y)

    def cast(self, st, op, t, v, t2):
        rt, r2 = resolve(t), resolve(t2)
        if op in ('sext', 'zext', 'trunc'):
            if isinstance(v, Undef): return self.intval(st, v)
            if isinstance(v, PtrInt): raise Unsupported('pointer bits')
            w, w2 = rt.w, r2.w
            if w == 1:
                x = b2i(self.boolval(st, v))
                return x if op == 'zext' else mk_neg(x)
            if op == 'trunc' and isinstance(v, Cat):
                sub = [p for p in v.parts if p[0] < w2 // 8]
                if sub and all(p[0] + p[1] <= w2 // 8 for p in sub) and w2 % 8 == 0:
                    if len(sub) == 1 and sub[0][1] == w2 // 8: return self.asty(st, sub[0][2], r2)
            x = self.intval(st, v)
            if op == 'sext': return x
            if op == 'zext': return self.uns(x, w)
            if w2 == 1: return mk_cmp('==', mk_fmod(x, 2), 1)
            return self.wrap(st, x, w2)
        if op == 'sitofp':
            if r2.n != 'double': raise Unsupported('fp type ' + r2.n)
            return self.itof(st, v, rt.w)
        if op == 'uitofp': 
            if isinstance(v, (bool, z3.BoolRef)): return self.itof(st, b2i(v), 8)
            return self.itof(st, self.uns(self.intval(st, v), rt.w), rt.w + 1)
        if op in ('fptosi', 'fptoui'):
            if op == 'fptoui': raise Unsupported('fptoui')
            return self.ftoi(st, v, r2.w)
        if op == 'bitcast': return v
        if op == 'ptrtoint': return PtrInt(v)
        if op == 'inttoptr':
            if isinstance(v, PtrInt): return v.p
            raise Unsupported('inttoptr')
        raise Unsupported(op)

    def docall(self, f, st, env, ins):
        rt, (ck, cv), args = ins.a[0], ins.a[1], ins.a[2]
        av = []
        for t, v, sret, byval in args:
            x = UNDEF if isinstance(t, OpaqueT) else self.ev(st, env, t, v)
            av.append(x)
        if ck == 'loc':
            p = env[cv]
            if not (isinstance(p, Ptr) and isinstance(p.obj, tuple)): raise Unsupported('indirect call')
            cv = p.obj[1]
        # by-value aggregates are copied by the callee side (run), see byval there
        return self.call(st, cv, av, ins, rt)

    # -------------------------------------------------------- exceptions
    BASES = {'@_ZTISt16invalid_argument': '@_ZTISt11logic_error', '@_ZTISt12out_of_range': '@_ZTISt11logic_error',
             '@_ZTISt12domain_error': '@_ZTISt11logic_error', '@_ZTISt12length_error': '@_ZTISt11logic_error',
             '@_ZTISt11logic_error': '@_ZTISt9exception', '@_ZTISt13runtime_error': '@_ZTISt9exception',
             '@_ZTISt11range_error': '@_ZTISt13runtime_error', '@_ZTISt14overflow_error': '@_ZTISt13runtime_error',
             '@_ZTISt15underflow_error': '@_ZTISt13runtime_error'}

    def isa(self, t, base):
        while t is not None:
            if t == base: return True
            t = self.BASES.get(t)
        return False

    def tid(self, name):
        return self.tids.setdefault(name, len(self.tids) + 1)

    def landingpad(self, st, a):
        cleanup, clauses = a[1], a[2]
        exc = st.exc
        o = self.newobj('exception', 16, 'heap'); st.mem[o.id] = {}
        for k, v in clauses:
            if k == 'catch':
                if v[0] == 'null': return Agg([Ptr(o.id, 0), 1000000])
                if v[0] == 'g' and self.isa(exc, v[1]): return Agg([Ptr(o.id, 0), self.tid(v[1])])
            else:
                return Agg([Ptr(o.id, 0), -1])
        if cleanup: return Agg([Ptr(o.id, 0), 0])
        return None


def toz(t): return t if isinstance(t, z3.ExprRef) else z3.IntVal(t)


class PtrInt:
    __slots__ = ('p',)
    def __init__(s, p): s.p = p


class NeedFork(Exception):
    def __init__(s, alts): s.alts = alts
