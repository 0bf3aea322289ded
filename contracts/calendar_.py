"""C01-C06 (and C30): calendar arithmetic, validity, leap seconds."""
import z3
from core import *
from specs import *

YEAR = lambda n='y', lo=YMIN, hi=YMAX: V(n, lo, hi, 'year')
MON = lambda n='m', lo=1, hi=12: V(n, lo, hi, 'month')
DOM = lambda n='d', lo=1, hi=31: V(n, lo, hi, 'dom')
DOYV = lambda n='n', lo=1, hi=366: V(n, lo, hi, 'doy')
ADOM = lambda n='d': V(n, *I32, 'dom')
AMON = lambda n='m': V(n, *I32, 'month')
ADOY = lambda n='n': V(n, *I32, 'doy')
MJD = lambda n='mjd', lo=DMIN, hi=DMAX: V(n, lo, hi, 'mjd')
T3 = ('s', 'ms', 'us')
FULL = {'s': 'seconds', 'ms': 'milliseconds', 'us': 'microseconds'}
CS = []


def C(*a, **k):
    c = Contract(*a, **k); CS.append(c); return c


def era(i, fresh):
    """ghost decomposition of the year: y = 400e + 100c + 4q + z (floor division)"""
    e, q = fresh('e', -13, 2 ** 31 // 400 + 1), fresh('q', 0, 24)
    return e, q


def ycase(c, z):
    """years with (y mod 400)/100 = c and y mod 4 = z"""
    def f(i, fresh):
        e, q = era(i, fresh)
        y, i.y = i.y, mk_add(mk_add(mk_mul(e, 400), mk_mul(q, 4)), 100 * c + z)
        return [y == i.y]
    return f


def cross(mons=range(1, 13), cs=range(4), zs=range(4), mcond=None):
    out = []
    for m in mons:
        for c in cs:
            for z in zs:
                def f(i, fresh, m=m, c=c, z=z):
                    r = ycase(c, z)(i, fresh)
                    r.append(i.m == m)
                    i.m = m
                    return r
                out.append((f'm={m} c={c} z={z}', f))
    return out


def yoe_month(years=range(400)):
    """one case per month of the 400-year cycle: y = 400e + r"""
    out = []
    for r in years:
        for m in range(1, 13):
            def f(i, fresh, m=m, r=r):
                y, i.y = i.y, mk_add(mk_mul(fresh('e', -12, 2 ** 31 // 400 + 1), 400), r)
                x = [y == i.y, i.m == m]
                i.m = m
                return x
            out.append((f'm={m} r={r}', f))
    return out


def yonly(): return [(f'c={c} z={z}', ycase(c, z)) for c in range(4) for z in range(4)]


vd = lambda i: valid(i.y, i.m, i.d)
oor = lambda i: {'ret': vd(i), 'out_of_range': Not(vd(i))}
vn = lambda i: And(i.n >= 1, i.n <= ylen(i.y))


def civ(i):
    """ghost date of day mjd (native)"""
    i.y, i.m, i.d = civil(i.mjd)


GH = lambda: [YEAR(), MON(), DOM()]

# ------------------------------------------------------------ C01, C02
for nm, en in (('cal2mjd', 'e_cal2mjd'), ('modified_julian_day(y,m,d)', 'e_mjd_ymd')):
    u = () if en == 'e_cal2mjd' else ('cal2mjd',)
    f = DFC if u else DFCx
    C(nm + ' value', en, [YEAR(), MON(), DOM()], vd, lambda i, o, X, f=f: [('day number', o.mjd == f(i.y, i.m, i.d))],
      outs=['mjd'], cases=None if u else cross(), uses=u, props=('C01', 'C30'), fn='' if u else 'cal2mjd')
    C(nm + ' rejects', en, [YEAR(), AMON(), ADOM()], None, None, oor, outs=['mjd'], uses=u, props=('C02', 'C30'), fn='' if u else 'cal2mjd')

# every datetime constructor taking a calendar date
TIME = lambda *ns: [V(n, *I32) if n in ('h', 'mi') else V(n, -10 ** 18, 10 ** 18, 'tod') for n in ns]
ACC = [('s', 's'), ('s', 'ms'), ('s', 'us'), ('ms', 'ms'), ('ms', 'us'), ('us', 'us')]
for S in T3:
    for k, extra, fins in (('ymd', ['t0'], []), ('ymdh', ['h'], []), ('ymdhm', ['h', 'mi'], []), ('ymdf', ['h', 'mi'], [FV('x', -2 ** 31, 2 ** 31)])):
        C(f'datetime<{FULL[S]}>({k}) rejects', f'e_c_{k}_{S}', [YEAR(), AMON(), ADOM()] + TIME(*extra), None, None, oor, fins=fins,
          uses=('cal2mjd', 'S_hmf') if fins else ('cal2mjd',), props=('C02',))
for S, Q in ACC:
    for k, extra in (('ymdT', ['a']), ('ymdhmT', ['h', 'mi', 'a'])):
        C(f'datetime<{FULL[S]}>({k}<{FULL[Q]}>) rejects', f'e_c_{k}_{S}_{Q}', [YEAR(), AMON(), ADOM()] + TIME(*extra), None, None, oor,
          uses=('cal2mjd',), props=('C02',))

# ------------------------------------------------------------ C03
WY = lambda n='y': V(n, -2147483647, 2147483647, 'year')
B = lambda x: If(x, 1, 0)
C('is_leap', 'e_is_leap', [WY()], None, lambda i, o, X: [('free function', o.a == B(leap(i.y))), ('year member', o.b == B(leap(i.y)))], outs=['a', 'b'], props=('C03', 'C30'))
C('day_of_month::is_valid', 'e_dom_valid', [WY(), AMON(), ADOM()], None,
  lambda i, o, X: [('day of month', o.a == B(valid(i.y, i.m, i.d))), ('ymd_date', o.b == B(valid(i.y, i.m, i.d)))], outs=['a', 'b'], props=('C03', 'C30'))
C('day_of_year::is_valid', 'e_doy_valid', [WY(), ADOY()], None,
  lambda i, o, X: [('day of year', o.a == B(vn(i))), ('ydoy_date', o.b == B(vn(i)))], outs=['a', 'b'], props=('C03', 'C30'))
C('month::is_valid', 'e_mon_valid', [AMON()], None, lambda i, o, X: [('month', o.a == B(And(i.m >= 1, i.m <= 12)))], outs=['a'], props=('C03',))
C('gps_week::is_valid', 'e_week_valid', [V('w', *I64)], None, lambda i, o, X: [('week', o.a == B(i.w >= 0))], outs=['a'], props=('C03',))

# ------------------------------------------------------------ C04
same = lambda i, o: [('year', o.y == i.y), ('month', o.m == i.m), ('day of month', o.d == i.d)]
C('modified_julian_day::to_ymd', 'e_to_ymd', [MJD()], vd, lambda i, o, X: same(i, o), ghosts=GH(), inputs=lambda i: [DFCx(i.y, i.m, i.d)], native=civ,
  outs=['y', 'm', 'd'], cases=yoe_month(), props=('C04', 'C30'), fn='to_ymd')
C('to_ymd then cal2mjd', 'e_rt_mjd', [MJD()], None, lambda i, o, X: [('same day', o.r == i.mjd)], outs=['r'], uses=('to_ymd', 'cal2mjd'), props=('C04', 'C30'))
C('cal2mjd then to_ymd', 'e_rt_ymd', [YEAR(), MON(), DOM()], vd, lambda i, o, X: same(i, o), outs=['y', 'm', 'd'], uses=('to_ymd', 'cal2mjd'), props=('C04', 'C30'))
for S in T3:
    C(f'datetime<{FULL[S]}>::as_ymd', f'e_as_ymd_{S}', [MJD(), V('t', 0, DAY[S] - 1, 'tod')], vd, lambda i, o, X: same(i, o), ghosts=GH(),
      facts=lambda i, X: i.mjd == X.dfc(i.y, i.m, i.d), native=civ, outs=['y', 'm', 'd'], uses=('to_ymd',), props=('C04',))

# ------------------------------------------------------------ C05
C('ydoy2mjd value', 'e_ydoy2mjd', [YEAR(), ADOY()], None, lambda i, o, X: [('day number', o.mjd == DFCx(i.y, 1, 1) + i.n - 1)], outs=['mjd'],
  cases=yonly(), props=('C05', 'C30'), fn='ydoy2mjd')
C('modified_julian_day(y,doy)', 'e_mjd_ydoy', [YEAR(), DOYV()], vn, lambda i, o, X: [('day number', o.mjd == DFC(i.y, 1, 1) + i.n - 1)], outs=['mjd'],
  uses=('ydoy2mjd',), props=('C05', 'C30'))
C('ymd_date::to_ydoy', 'e_ymd_ydoy', [YEAR(), MON(), DOM()], vd, lambda i, o, X: [('year', o.y == i.y), ('day of year', o.n == doy_of(i.y, i.m, i.d))],
  outs=['y', 'n'], cases=[(f'm={m}', lambda i, fresh, m=m: i.m == m) for m in range(1, 13)], props=('C05', 'C30'), fn='ymd_to_ydoy')


def doy_case(m):
    def f(i, fresh): return [i.n > cum(i.y, m), i.n <= cum(i.y, m) + mlen(i.y, m)]
    return f


C('ydoy_date::to_ymd', 'e_ydoy_ymd', [YEAR(), DOYV()], vn,
  lambda i, o, X: [('year', o.y == i.y), ('a valid date', valid(o.y, o.m, o.d)), ('the same day', doy_of(o.y, o.m, o.d) == i.n)], outs=['y', 'm', 'd'],
  cases=[(f'm={m}', doy_case(m)) for m in range(1, 13)], props=('C05', 'C30'))
civn = lambda i: (civ(i), setattr(i, 'n', doy_of(i.y, i.m, i.d)))[0]
ydp = lambda i, o, X: [('year', o.y == i.y), ('day of year', o.n == doy_of(i.y, i.m, i.d))]
C('modified_julian_day::to_ydoy', 'e_to_ydoy', [MJD()], vd, ydp, ghosts=GH(), facts=lambda i, X: i.mjd == X.dfc(i.y, i.m, i.d), native=civ,
  outs=['y', 'n'], uses=('to_ymd', 'ymd_to_ydoy'), props=('C05', 'C30'))
C('ydoy2mjd then to_ydoy', 'e_rt_ydoy', [YEAR(), DOYV()], vn, lambda i, o, X: [('year', o.y == i.y), ('day of year', o.n == i.n)], ghosts=[MON(), DOM()],
  facts=lambda i, X: And(valid(i.y, i.m, i.d), doy_of(i.y, i.m, i.d) == i.n, X.dfc(i.y, i.m, i.d) == X.dfc(i.y, 1, 1) + i.n - 1),
  native=lambda i: None, outs=['y', 'n'], uses=('ydoy2mjd', 'to_ymd', 'ymd_to_ydoy'), props=('C05', 'C30'))
for S in T3:
    C(f'datetime<{FULL[S]}>::as_ydoy', f'e_as_ydoy_{S}', [MJD(), V('t', 0, DAY[S] - 1, 'tod')], vd, ydp, ghosts=GH(),
      facts=lambda i, X: i.mjd == X.dfc(i.y, i.m, i.d), native=civ, outs=['y', 'n'], uses=('to_ymd', 'ymd_to_ydoy'), props=('C05',))

# ------------------------------------------------------------ C06
YL = lambda: V('y', 1972, YMAX, 'year', sample=lambda r: r.choice([r.randint(1972, 2020), r.randint(1972, YMAX)]))
DL = lambda: V('mjd', DFCx(1972, 1, 1), DMAX, 'mjd', sample=lambda r: r.choice([DFCx(*r.choice(LEAPS)[:2], 1) + r.randint(-2, 2), r.randint(41317, 60000), r.randint(41317, DMAX)]))
C('dat(year, month)', 'e_dat_ym', [YL(), MON()], None, lambda i, o, X: [('TAI-UTC', o.v == dat_ym(i.y, i.m))], outs=['v'], props=('C06',))
C('dat(modified_julian_day)', 'e_dat_mjd', [DL()], None, lambda i, o, X: [('TAI-UTC', o.v == dat_day(i.mjd))], outs=['v'], props=('C06',))
for S in T3:
    C(f'dat(datetime<{FULL[S]}>)', f'e_dat_{S}', [DL(), V('t', 0, DAY[S] - 1, 'tod')], None, lambda i, o, X: [('TAI-UTC', o.v == dat_day(i.mjd))], outs=['v'], props=('C06',))

# ------------------------------------------------------------ lemmas on the specification


class Lemma:
    """a universally quantified fact about specification functions, proved by the solvers"""
    def __init__(s, name, props, vars_, hyp, goal, cases=None, key=''):
        s.name, s.props, s.vars, s.hyp, s.goal, s.cases, s.key = name, tuple(props), vars_, hyp, goal, cases or [('', None)], key
        s.cfgs = ('prod',); s.uses = (); s.fn = ''; s.entry = None


LS = []


def Lem(*a, **k): LS.append(Lemma(*a, **k))


def nxt(y, m, d):
    last = d == mlen(y, m)
    return If(And(last, m == 12), y + 1, y), If(last, If(m == 12, 1, m + 1), m), If(last, 1, d + 1)


Lem('year length', ('C01', 'C04', 'C05'), [YEAR('y', YMIN - 1, YMAX + 1)], None, lambda i: jan1(i.y + 1) == jan1(i.y) + ylen(i.y), key='dfc')
Lem('day of year within the year', ('C01', 'C04', 'C05'), GH(), vd, lambda i: And(doy_of(i.y, i.m, i.d) >= 1, doy_of(i.y, i.m, i.d) <= ylen(i.y)), key='dfc')
Lem('first days are ordered', ('C01', 'C04', 'C05'), [YEAR('a'), YEAR('b')], lambda i: i.a < i.b, lambda i: jan1(i.a) + ylen(i.a) <= jan1(i.b), key='dfc')
Lem('day of year determines month and day', ('C04', 'C05'), GH() + [MON('m2'), DOM('d2')],
    lambda i: And(vd(i), valid(i.y, i.m2, i.d2), doy_of(i.y, i.m, i.d) == doy_of(i.y, i.m2, i.d2)), lambda i: And(i.m == i.m2, i.d == i.d2), key='dfc')
Lem('day numbers are in range', ('C04', 'C05'), GH(), vd, lambda i: And(DFCx(i.y, i.m, i.d) >= DMIN, DFCx(i.y, i.m, i.d) <= DMAX), key='dfc')
Lem('next day has the next number', ('C01', 'C04'), GH(), lambda i: And(vd(i), Not(And(i.y == YMAX, i.m == 12, i.d == 31))),
    lambda i: And(valid(*nxt(i.y, i.m, i.d)), DFCx(*nxt(i.y, i.m, i.d)) == DFCx(i.y, i.m, i.d) + 1, nxt(i.y, i.m, i.d)[0] <= YMAX),
    cases=[(f'm={m}', lambda i, fresh, m=m: i.m == m) for m in range(1, 13)], key='dfc')
Lem('the day number splits into year start and day of year', ('C05',), GH(), vd, lambda i: DFCx(i.y, i.m, i.d) == DFCx(i.y, 1, 1) + doy_of(i.y, i.m, i.d) - 1, key='dfc')
Lem('epoch', ('C01', 'C04'), [], None, lambda i: And(DFCx(1858, 11, 17) == 0, DFCx(2000, 1, 1) == 51544, DFCx(1970, 1, 1) == 40587, DFCx(YMIN, 1, 1) == DMIN, DFCx(YMAX, 12, 31) == DMAX), key='dfc')
Lem('leap seconds by month and by day agree', ('C06',), [V('y', 1972, YMAX, 'year'), MON(), DOM()], vd, lambda i: dat_ym(i.y, i.m) == dat_day(DFCx(i.y, i.m, i.d)),
    cases=[(f'm={m}', lambda i, fresh, m=m: i.m == m) for m in range(1, 13)])
Lem('leap seconds never decrease', ('C06',), [V('a', DFCx(1972, 1, 1), DMAX), V('b', DFCx(1972, 1, 1), DMAX)], lambda i: i.a <= i.b, lambda i: dat_day(i.a) <= dat_day(i.b))
