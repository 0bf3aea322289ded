"""Contracts applied at call sites: precondition obligation, havoc, postcondition.
Values enter and leave through the observer and maker functions of the harness,
so no object layout is assumed."""
import z3
import smt
from sym import *
from sym import toz
from dual import *
from specs import *

CALLS = []          # (contract function name, predicate on the demangled name, handler)


def call(name, dem):
    def d(f):
        pat = dem if isinstance(dem, (list, tuple)) else [dem]
        CALLS.append((name, lambda x, pat=tuple(pat): x in pat, f))
        return f
    return d


def ob(m, st, fname, *args):
    r = m.run(st, m.mod.funcs['@' + fname], list(args))
    assert len(r) == 1 and r[0][1][0] == 'ret'
    return r[0][1][1]


def mk(m, st, dem, *args):
    for n, d in m.mod.dem.items():
        if d == dem and n in m.mod.funcs:
            r = m.run(st, m.mod.funcs[n], list(args))
            assert len(r) == 1 and r[0][1][0] == 'ret', 'maker ' + dem
            return r[0][1][1]
    raise Unsupported('maker ' + dem)


def fork(m, st, *conds):
    out = []
    for c in conds:
        if c is False: out.append(None); continue
        s = st.fork(); s.assume(c)
        out.append(s if smt.feasible(s.pc) else None)
    return out


@call('cal2mjd', 'ngpt::cal2mjd(ngpt::year, ngpt::month, ngpt::day_of_month)')
def h_cal2mjd(m, st, a, func, rt):
    y, mo, d = ob(m, st, 'o_year', a[0]), ob(m, st, 'o_month', a[1]), ob(m, st, 'o_dom', a[2])
    outs = []
    m.oblige(st, And(mk_cmp('>=', y, YMIN)), 'precondition of cal2mjd')
    ok, bad = fork(m, st, valid(y, mo, d), Not(valid(y, mo, d)))
    if ok is not None: outs.append((ok, ('ret', mk(m, ok, 'mk_mjd(long)', dfc_facts(m, ok, y, mo, d)))))
    if bad is not None: outs.append((bad, ('throw', '@_ZTISt12out_of_range')))
    return outs


@call('ydoy2mjd', 'ngpt::ydoy2mjd(ngpt::year, ngpt::day_of_year)')
def h_ydoy2mjd(m, st, a, func, rt):
    y, n = ob(m, st, 'o_year', a[0]), ob(m, st, 'o_doy', a[1])
    m.oblige(st, mk_cmp('>=', y, YMIN), 'precondition of ydoy2mjd')
    j = dfc_facts(m, st, y, 1, 1)
    return [(st, ('ret', mk(m, st, 'mk_mjd(long)', mk_add(j, mk_sub(n, 1)))))]


def find_date(st, n, m):
    """a valid date already known to be day n on this path"""
    for e in reversed(st.trace):
        if e[0] == 'dfc' and m.proves(st, mk_cmp('==', n, e[4])): return e[1], e[2], e[3]
    return None


@call('to_ymd', 'ngpt::modified_julian_day::to_ymd() const')
def h_to_ymd(m, st, a, func, rt):
    n = ob(m, st, 'o_mjdp', a[0])
    m.oblige(st, And(mk_cmp('>=', n, DMIN), mk_cmp('<=', n, DMAX)), 'precondition of to_ymd')
    k = find_date(st, n, m)
    if k is None:
        y, mo, d = m.fresh('y', YMIN, YMAX, st), m.fresh('m', 1, 12, st), m.fresh('d', 1, 31, st)
        st.assume(valid(y, mo, d))
        v = dfc_facts(m, st, y, mo, d)
        st.assume(v == n)
    else: y, mo, d = k
    return [(st, ('ret', mk(m, st, 'mk_ymd(long, long, long)', y, mo, d)))]


@call('ymd_to_ydoy', 'ngpt::ymd_date::to_ydoy() const')
def h_ymd_ydoy(m, st, a, func, rt):
    y, mo, d = (ob(m, st, 'o_ymd_' + k, a[0]) for k in 'ymd')
    m.oblige(st, And(valid(y, mo, d), mk_cmp('>=', y, YMIN), mk_cmp('<=', y, YMAX)), 'precondition of ymd_date::to_ydoy')
    n = m.fresh('doy', 1, 366, st)
    st.assume(n == doy_of(y, mo, d))
    return [(st, ('ret', mk(m, st, 'mk_ydoy(long, long)', y, n)))]


def sec_ctor_f(S, full):
    @call('S_hmf', f'ngpt::{full}::{full}(ngpt::hours, ngpt::minutes, double)')
    def h(m, st, a, func, rt):
        hh, mm, x = ob(m, st, 'o_hours', a[1]), ob(m, st, 'o_minutes', a[2]), a[3]
        f = FAC[S]
        if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
            m.oblige(st, False, 'precondition of ' + full + '(h, m, double)'); raise PathEnd()
        r = rz(rterm(x))
        lim = z3.RealVal(2 ** 31)
        m.oblige(st, And(r <= lim, r >= -lim), 'precondition of ' + full + '(h, m, double)')
        t = m.fresh('ticks', -2 ** 31 * f, 2 ** 31 * f, st)
        st.assume(ticks_of(m, st, t, r, f))
        tot = mk_add(t, mk_mul(mk_add(mk_mul(hh, 3600), mk_mul(mm, 60)), f))
        mk(m, st, f'mk_{full}(ngpt::{full}*, long)', a[0], tot)
        return [(st, ('ret', None))]
    return h


class _X:
    def __init__(s, m, st): s.m, s.st = m, st


def ticks_of(m, st, t, r, f):
    """t is the number of whole ticks (f per second) that r seconds spell, sign apart"""
    from core import Symbolic
    X = Symbolic(m, st)
    if f == 1:
        return If(r >= 0, And(toreal(t) <= r, r < toreal(t) + 1), And(toreal(t) >= r, r > toreal(t) - 1))
    a, at = If(r >= 0, r, -r), If(r >= 0, t, -t) if not isinstance(t, int) else t
    B = 2 ** 31 * f
    if not isinstance(at, int):
        at = m.alias(st, at, -B, B)
    return And(X.rn(at, f) <= a, a < X.rn(mk_add(at, 1), f), Implies(r >= 0, t >= 0), Implies(r <= 0, t <= 0))


for _S, _f in (('s', 'seconds'), ('ms', 'milliseconds'), ('us', 'microseconds')): sec_ctor_f(_S, _f)


# ------------------------------------------------------------ month names

def name_is(chars, name):
    """chars: list of characters up to and excluding the terminator; exact match ignoring case"""
    return And([low(c) == ord(k) for c, k in zip(chars, name)]) if len(chars) == len(name) else False


@call('month_str', 'ngpt::month::month(char const*)')
def h_month(m, st, a, func, rt):
    p = a[1]
    o = m.deref(st, p, 1, 'read')
    if o.kind not in ('alloca',) or not isinstance(p.off, int): return None
    # an array of at most a few characters: the string ends at the first NUL
    outs = []
    cur = [st]
    chars = []
    for k in range((o.size or 0) - p.off):
        nxt = []
        for s in cur:
            c = m.intval(s, m.load(s, I8, Ptr(p.obj, p.off + k)))
            for s2, z in m.branch(s, mk_cmp('==', c, 0)):
                if not z: nxt.append((s2)); continue
                cs = [m.intval(s2, m.load(s2, I8, Ptr(p.obj, p.off + j))) for j in range(k)]
                hits = [Or(name_is(cs, SHORT[q]), name_is(cs, LONG[q])) for q in range(12)]
                ok, bad = fork(m, s2, Or(hits), Not(Or(hits)))
                if ok is not None:
                    v = m.fresh('month', 1, 12, ok)
                    for q in range(12): ok.assume(Iff(v == q + 1, hits[q]))
                    mk(m, ok, 'mk_month(ngpt::month*, long)', a[0], v)
                    outs.append((ok, ('ret', None)))
                if bad is not None: outs.append((bad, ('throw', '@_ZTISt16invalid_argument')))
        cur = nxt
        if not cur: return outs
    m.oblige(cur[0], False, 'string not terminated'); 
    return outs
