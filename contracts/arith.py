"""C07-C20, C27, C28: instants, intervals, amounts of time."""
from core import *
from specs import *
from calendar_ import YEAR, MON, DOM, ADOY, ADOM, AMON, MJD, DOYV, T3, FULL, ACC, vd, vn, Contract

CS = []
ALL9 = [(a, b) for a in T3 for b in T3]
BIG = 4 * 10 ** 18


def C(*a, **k):
    c = Contract(*a, **k); CS.append(c); return c


AMT = lambda n='a', b=BIG: V(n, -b, b)
POS = lambda n='a', b=BIG: V(n, 0, b)
HM = lambda n: V(n, *I32)
DAYS = lambda n='day', b=BIG: V(n, -b, b)
TOD = lambda S, n='t': V(n, 0, DAY[S] - 1, 'tod')
LDAY = lambda n: V(n, *I64)
OLD = lambda: V('old', *I64)         # what the output variable of a query held before the call


def nf(S, i, o, d='day', t='t'): return And(getattr(o, t) >= 0, getattr(o, t) < DAY[S])
def tot(S, x, d='day', t='t'): return getattr(x, d) * DAY[S] + getattr(x, t)


def inst(S, exact):
    """normal form and exact instant"""
    return lambda i, o, X: [('normal form', And(o.t >= 0, o.t < DAY[S])), ('exact instant', o.day * DAY[S] + o.t == exact(i, X))]


def down(S, Q, a):
    """amount of type Q as whole ticks of the coarser S"""
    return tdiv(a, FAC[Q] // FAC[S])


def hm(S, i): return (i.h * 3600 + i.mi * 60) * FAC[S]


lim = lambda x: And(x >= -BIG, x <= BIG)

# ------------------------------------------------------------ C07
for S in T3:
    D = DAY[S]
    F7 = FULL[S]
    ymd = [YEAR(), MON(), DOM()]
    ydy = [YEAR(), DOYV()]
    dy = lambda i: DFC(i.y, i.m, i.d)
    dn = lambda i: DFC(i.y, 1, 1) + i.n - 1
    for base, ins, ok, u, date in (('ymd', ymd, vd, 'cal2mjd', dy), ('ydoy', ydy, vn, 'ydoy2mjd', dn)):
        C(f'datetime<{F7}>({base})', f'e_c_{base}_{S}', ins, ok, inst(S, lambda i, X, date=date, D=D: date(i) * D), outs=['day', 't'], uses=(u,), props=('C07',))
        C(f'datetime<{F7}>({base},h,m)', f'e_c_{base}hm_{S}', ins + [HM('h'), HM('mi')], lambda i, ok=ok, S=S: And(ok(i), lim(hm(S, i))),
          inst(S, lambda i, X, date=date, D=D, S=S: date(i) * D + hm(S, i)), outs=['day', 't'], uses=(u,), props=('C07',))
    C(f'datetime<{F7}>(ymd,h)', f'e_c_ymdh_{S}', ymd + [HM('h')], lambda i, S=S: And(vd(i), lim(i.h * 3600 * FAC[S])),
      inst(S, lambda i, X, D=D, S=S: dy(i) * D + i.h * 3600 * FAC[S]), outs=['day', 't'], uses=('cal2mjd',), props=('C07',))
    C(f'datetime<{F7}>()', f'e_c_def_{S}', [], None, lambda i, o, X: [('the day of J2000', o.day == DFCx(2000, 1, 1)), ('time of day 0', o.t == 0)], outs=['day', 't'], props=('C07',))
    C(f'datetime<{F7}>(mjd)', f'e_c_mjd_{S}', [MJD()], None, inst(S, lambda i, X, D=D: i.mjd * D), outs=['day', 't'], props=('C07',))
    C(f'datetime<{F7}>(mjd,amount)', f'e_c_mjds_{S}', [MJD(), AMT()], None, inst(S, lambda i, X, D=D: i.mjd * D + i.a), outs=['day', 't'], props=('C07',))
    C(f'datetime<{F7}>(mjd,h,m,amount)', f'e_c_mjdhms_{S}', [MJD(), HM('h'), HM('mi'), AMT()], lambda i, S=S: lim(hm(S, i) + i.a),
      inst(S, lambda i, X, D=D, S=S: i.mjd * D + hm(S, i) + i.a), outs=['day', 't'], props=('C07',))
    C(f'datetime<{F7}>::normalize', f'e_norm_{S}', [MJD(), AMT()], None, inst(S, lambda i, X, D=D: i.mjd * D + i.a), outs=['day', 't'], props=('C07',))
    C(f'datetime<{F7}> accessors', f'e_acc_{S}', [MJD(), TOD(S)], None,
      lambda i, o, X: [('day', o.day == i.mjd), ('time of day', And(o.t == i.t, o.k == i.t))], outs=['day', 't', 'k'], props=('C07',))
for S, Q in ACC:
    D = DAY[S]
    nm = f'{FULL[S]}/{FULL[Q]}'
    for base, ins, ok, u, date in (('ymd', ymd, vd, 'cal2mjd', dy), ('ydoy', ydy, vn, 'ydoy2mjd', dn)):
        C(f'datetime({base},amount) {nm}', f'e_c_{base}T_{S}_{Q}', ins + [AMT()], ok,
          inst(S, lambda i, X, date=date, D=D, S=S, Q=Q: date(i) * D + down(S, Q, i.a)), outs=['day', 't'], uses=(u,), props=('C07',))
        C(f'datetime({base},h,m,amount) {nm}', f'e_c_{base}hmT_{S}_{Q}', ins + [HM('h'), HM('mi'), AMT()],
          lambda i, ok=ok, S=S, Q=Q: And(ok(i), lim(hm(S, i) + down(S, Q, i.a))),
          inst(S, lambda i, X, date=date, D=D, S=S, Q=Q: date(i) * D + hm(S, i) + down(S, Q, i.a)), outs=['day', 't'], uses=(u,), props=('C07',))

# ------------------------------------------------------------ C08
E80 = DFCx(1980, 1, 6)
for S in T3:
    D = DAY[S]
    gd = V('day', E80, 10 ** 12, sample=lambda r: r.choice([E80 + r.randint(0, 30), E80 + r.randint(0, 20000), E80 + int(2 ** r.uniform(0, 39))]))
    C(f'datetime<{FULL[S]}>(gps_week,sow)', f'e_gps_{S}', [V('w', 0, 10 ** 11), POS()], None,
      inst(S, lambda i, X, D=D: (E80 + 7 * i.w) * D + i.a), outs=['day', 't'], props=('C08',))
    C(f'datetime<{FULL[S]}>::as_gps_wsow', f'e_wsow_{S}', [gd, TOD(S), OLD()], None,
      lambda i, o, X, D=D: [('seconds of week in range', And(o.sow >= 0, o.sow < 7 * D)), ('the same instant', o.w * 7 * D + o.sow == (i.day - E80) * D + i.t),
                            ('day of week', o.dow == i.day - E80 - 7 * o.w)], outs=['w', 'sow', 'd2', 't2', 'dow'], props=('C08',))
    C(f'datetime<{FULL[S]}>::as_gps_wsow(long)', f'e_wsowl_{S}', [gd, TOD(S), OLD()], None,
      lambda i, o, X, S=S: [('seconds of week in range', And(o.sow >= 0, o.sow < 604800)),
                            ('the same second', o.w * 604800 + o.sow == (i.day - E80) * 86400 + fdiv(i.t, FAC[S])),
                            ('day of week', o.dow == i.day - E80 - 7 * o.w)], outs=['w', 'sow', 'd2', 't2', 'dow'], props=('C08',))
    C(f'day_of_week<{FULL[S]}>', f'e_dow_{S}', [V('a', 0, 7 * D - 1)], None, lambda i, o, X, D=D: [('whole days since the week began', o.k == fdiv(i.a, D))], outs=['k'], props=('C08',))
    C(f'datetime<{FULL[S]}> to week and back', f'e_gps_rt_{S}', [gd, TOD(S), OLD()], None,
      lambda i, o, X: [('same datetime', And(o.day == i.day, o.t == i.t))], outs=['day', 't'], props=('C08',))

# ------------------------------------------------------------ C09, C10, C11
for S, Q in ALL9:
    fs, fq, D = FAC[S], FAC[Q], DAY[S]
    for op, sg in (('adds', 1), ('rems', -1)):
        nm = {'adds': 'add_seconds', 'rems': 'remove_seconds'}[op]
        if fq <= fs:
            r = fs // fq
            C(f'datetime<{FULL[S]}>::{nm}({FULL[Q]})', f'e_{op}_{S}_{Q}', [DAYS(), TOD(S), AMT('a', BIG // r)], None,
              inst(S, lambda i, X, D=D, r=r, sg=sg: i.day * D + i.t + sg * i.a * r), outs=['day', 't', 'a2'], props=('C09',))
        else:
            r = fq // fs
            C(f'datetime<{FULL[S]}>::{nm}({FULL[Q]})', f'e_{op}_{S}_{Q}', [DAYS(), TOD(S), AMT()], None,
              lambda i, o, X, D=D, r=r, sg=sg: [('normal form', And(o.t >= 0, o.t < D)),
                                               ('less than a tick off', And((o.day - i.day) * (D * r) + (o.t - i.t) * r - sg * i.a < r,
                                                                            (o.day - i.day) * (D * r) + (o.t - i.t) * r - sg * i.a > -r))],
              outs=['day', 't', 'a2'], props=('C10',))
for S in T3:
    C(f'datetime<{FULL[S]}> add then remove', f'e_add_rem_{S}', [DAYS(), TOD(S), AMT()], None,
      lambda i, o, X: [('same datetime', And(o.day == i.day, o.t == i.t))], outs=['day', 't'], props=('C09',))
for S, Q in ACC:
    C(f'datetime<{FULL[S]}>::add(days,{FULL[Q]})', f'e_addm_{S}_{Q}', [DAYS(), TOD(S), DAYS('k'), AMT()], None,
      lambda i, o, X, S=S, Q=Q: inst(S, lambda i, X: (i.day + i.k) * DAY[S] + i.t + down(S, Q, i.a))(i, o, X) +
      [('source unchanged', And(o.d2 == i.day, o.t2 == i.t))], outs=['day', 't', 'd2', 't2'], props=('C11',))

# ------------------------------------------------------------ C12, C13
D5 = lambda n, f=10 ** 6: V(n, -5 * 10 ** 13 // f, 5 * 10 ** 13 // f)      # the difference is representable
for S in T3:
    D = DAY[S]
    C(f'datetime<{FULL[S]}>::delta_sec', f'e_dsec_m_{S}', [D5('d1', FAC[S]), TOD(S, 't1'), D5('d2', FAC[S]), TOD(S, 't2')], None,
      lambda i, o, X, D=D: [('exact difference', o.r == (i.d1 - i.d2) * D + i.t1 - i.t2), ('antisymmetric', o.q == -o.r)], outs=['r', 'q'], props=('C12',))
    C(f'mjd_sec_diff<{FULL[S]}>', f'e_msd_{S}', [D5('d1', FAC[S]), D5('d2', FAC[S])], None,
      lambda i, o, X, D=D: [('exact difference', o.r == (i.d1 - i.d2) * D), ('antisymmetric', o.q == -o.r)], outs=['r', 'q'], props=('C12',))
    pair = [DAYS('d1'), TOD(S, 't1'), DAYS('d2'), TOD(S, 't2')]
    dd = lambda i, o, X, D=D: [('normal form', And(o.t >= 0, o.t < D)), ('exact difference', o.day * D + o.t == (i.d1 - i.d2) * D + i.t1 - i.t2)]
    C(f'datetime<{FULL[S]}>::delta_date', f'e_ddate_{S}', pair, None, dd, outs=['day', 't'], props=('C13',))
    C(f'delta_date<{FULL[S]}>', f'e_ddatef_{S}', pair, None, dd, outs=['day', 't'], props=('C13',))
    C(f'datetime<{FULL[S]}> += delta_date', f'e_ddate_rt_{S}', pair, None, lambda i, o, X: [('leads to the first datetime', And(o.day == i.d1, o.t == i.t1))],
      outs=['day', 't'], props=('C13',))
    C(f'datetime_interval<{FULL[S]}>(days,time)', f'e_iv_{S}', [DAYS(), AMT()], None,
      lambda i, o, X, D=D: [('normal form', And(o.t >= 0, o.t < D)), ('same length', o.day * D + o.t == i.day * D + i.a),
                            ('normalising again changes nothing', And(o.d2 == o.day, o.t2 == o.t))], outs=['day', 't', 'd2', 't2'], props=('C13',))
    C(f'datetime_interval<{FULL[S]}>()', f'e_iv0_{S}', [], None, lambda i, o, X: [('empty interval', And(o.day == 0, o.t == 0))], outs=['day', 't'], props=('C13',))
    C(f'datetime<{FULL[S]}> += interval', f'e_iadd_{S}', [DAYS('d1'), TOD(S, 't1'), DAYS('d2'), AMT()], None,
      lambda i, o, X, D=D: [('normal form', And(o.t >= 0, o.t < D)), ('exact sum', o.day * D + o.t == (i.d1 + i.d2) * D + i.t1 + i.a)],
      outs=['day', 't'], props=('C13',))
for S, Q in ALL9:
    f = max(FAC[S], FAC[Q])
    C(f'delta_sec<{FULL[S]},{FULL[Q]}>', f'e_dsec_{S}_{Q}', [D5('d1', f), TOD(S, 't1'), D5('d2', f), TOD(Q, 't2')], None,
      lambda i, o, X, f=f, S=S, Q=Q: [('exact difference', o.r == (i.d1 - i.d2) * 86400 * f + i.t1 * (f // FAC[S]) - i.t2 * (f // FAC[Q])),
                                      ('antisymmetric', o.q == -o.r)], outs=['r', 'q'], props=('C12',))

# ------------------------------------------------------------ C14
B = lambda x: If(x, 1, 0)


def order(i, o, X):
    lt = Or(i.d1 < i.d2, And(i.d1 == i.d2, i.t1 < i.t2)); eq_ = And(i.d1 == i.d2, i.t1 == i.t2)
    return [('==', o.eq == B(eq_)), ('!=', o.ne == B(Not(eq_))), ('<', o.lt == B(lt)), ('<=', o.le == B(Or(lt, eq_))),
            ('>', o.gt == B(Not(Or(lt, eq_)))), ('>=', o.ge == B(Not(lt)))]


def close(i, r, S):
    if r.random() < .7: i.d1 = r.choice([r.randint(-3, 3), r.randint(*I64), I64[0], I64[1]]); i.d2 = min(max(i.d1 + r.choice([0, 0, 1, -1]), I64[0]), I64[1])
    if r.random() < .5: i.t1 = r.randint(0, DAY[S] - 1); i.t2 = min(max(i.t1 + r.choice([0, 1, -1]), 0), DAY[S] - 1)


for S in T3:
    pair = [LDAY('d1'), TOD(S, 't1'), LDAY('d2'), TOD(S, 't2')]
    for k, nm in (('cmp', 'datetime'), ('icmp', 'datetime_interval')):
        C(f'{nm}<{FULL[S]}> comparisons', f'e_{k}_{S}', pair, None, order, outs=['eq', 'ne', 'lt', 'le', 'gt', 'ge'], props=('C14',), gen=lambda i, r, S=S: close(i, r, S))
    C(f'datetime<{FULL[S]}> min and max', f'e_minmax_{S}', [V('d1', I64[0], I64[1] - 1), TOD(S, 't1')], None,
      lambda i, o, X: [('not above the maximum', o.above == 0), ('not below the minimum', o.below == 0)], outs=['above', 'below'], props=('C14',))

# ------------------------------------------------------------ C16, C17
for S in T3:
    D, f = DAY[S], FAC[S]
    C(f'{FULL[S]}(h,m,amount)', f'e_hms_{S}', [HM('h'), HM('mi'), AMT()], lambda i, S=S: lim(hm(S, i) + i.a),
      lambda i, o, X, S=S: [('exact total', o.r == hm(S, i) + i.a)], outs=['r'], props=('C16',))
    sp = lambda i, o, X, f=f: [('fields below their limits', And(o.h >= 0, o.mi >= 0, o.mi < 60, o.s >= 0, o.s < 60, o.f >= 0, o.f < f)),
                               ('fields recombine', ((o.h * 60 + o.mi) * 60 + o.s) * f + o.f == i.t)]
    C(f'{FULL[S]}::to_hmsf', f'e_split_{S}', [V('t', 0, min(BIG, (2 ** 31 - 1) * 3600 * f))], None, sp, outs=['h', 'mi', 's', 'f'], props=('C16',))
    C(f'datetime<{FULL[S]}>::as_hmsf', f'e_dsplit_{S}', [LDAY('day'), TOD(S)], None, sp, outs=['h', 'mi', 's', 'f'], props=('C16',))
    top = min((2 ** 31 - 1) * D, BIG)
    C(f'{FULL[S]}::remove_days', f'e_remd_{S}', [POS('t', top)], None,
      lambda i, o, X, D=D: [('remainder below a day', And(o.r >= 0, o.r < D)), ('parts add up', o.k * D + o.r == i.t)], outs=['k', 'r'], props=('C17',))
    C(f'{FULL[S]}::to_days', f'e_todays_{S}', [POS('t', top)], None,
      lambda i, o, X, D=D: [('whole days', o.k == fdiv(i.t, D)), ('more than a day', o.m == B(i.t > D)), ('amount unchanged', o.t2 == i.t)],
      outs=['k', 'm', 't2'], props=('C17',), gen=lambda i, r, D=D, top=top: setattr(i, 't', min(top, max(0, D * r.choice([0, 1, 2, r.randint(0, top // D)]) + r.randint(-1, 1)))) if r.random() < .5 else None)
C('hours::remove_days', 'e_remd_h', [V('t', 0, I32[1])], None,
  lambda i, o, X: [('remainder below a day', And(o.r >= 0, o.r < 24)), ('parts add up', o.k * 24 + o.r == i.t)], outs=['k', 'r'], props=('C17',))
C('minutes::remove_hours', 'e_remh_mi', [V('t', 0, I32[1])], None,
  lambda i, o, X: [('remainder below an hour', And(o.r >= 0, o.r < 60)), ('parts add up', o.k * 60 + o.r == i.t)], outs=['k', 'r'], props=('C17',))
C('milliseconds::resolve_sec', 'e_resolve', [POS('t', BIG), OLD()], None,
  lambda i, o, X: [('whole seconds', o.k == fdiv(i.t, 1000)),
                   ('fraction', And(o.f >= 0, o.f < 1, (real(fmod(i.t, 1000)) - o.f * 1000) * 10 ** 12 < 1, (o.f * 1000 - real(fmod(i.t, 1000))) * 10 ** 12 < 1))],
  outs=['k', 't2'], fouts=['f'], props=('C17',))

# ------------------------------------------------------------ C18
for S, Q in ALL9:
    fs, fq = FAC[S], FAC[Q]
    if fq >= fs:
        r = fq // fs
        C(f'cast_to<{FULL[S]},{FULL[Q]}>', f'e_cast_{S}_{Q}', [AMT('a', BIG // r)], None, lambda i, o, X, r=r: [('exact', o.r == i.a * r)], outs=['r', 'a2'], props=('C18',))
        C(f'datetime<{FULL[S]}>::cast_to<{FULL[Q]}>', f'e_dcast_{S}_{Q}', [LDAY('day'), TOD(S)], None,
          lambda i, o, X, r=r: [('exact', And(o.day == i.day, o.t == i.t * r))], outs=['day', 't'], props=('C18',))
    else:
        r = fs // fq
        C(f'cast_to<{FULL[S]},{FULL[Q]}>', f'e_cast_{S}_{Q}', [AMT()], None, lambda i, o, X, r=r: [('truncates', o.r == tdiv(i.a, r))], outs=['r', 'a2'], props=('C18',))
        C(f'datetime<{FULL[S]}>::cast_to<{FULL[Q]}>', f'e_dcast_{S}_{Q}', [LDAY('day'), TOD(S)], None,
          lambda i, o, X, r=r: [('truncates', And(o.day == i.day, o.t == fdiv(i.t, r)))], outs=['day', 't'], props=('C18',))
for S, Q in ACC:
    C(f'{FULL[S]}({FULL[Q]})', f'e_op_{S}_{Q}', [AMT()], None,
      lambda i, o, X, S=S, Q=Q: [('conversion operator', o.r == down(S, Q, i.a)), ('static_cast', o.c == down(S, Q, i.a))], outs=['r', 'a2', 'c'], props=('C18',))

# ------------------------------------------------------------ C19
SECS = lambda: FV('x', 0, 999999.999999999)


def whole(X, t, x, f):
    """t is the number of whole ticks the decimal x spells"""
    if f == 1: return And(real(t) <= x, x < real(t) + 1)
    return And(t >= 0, X.rn(t, f) <= x, x < X.rn(t + 1, f))


def whole2(X, t, x, f):
    """the same for either sign: towards zero"""
    if f == 1: return And(Implies(x >= 0, And(real(t) <= x, x < real(t) + 1)), Implies(x <= 0, And(real(t) >= x, x > real(t) - 1)))
    return And(Implies(x >= 0, t >= 0), Implies(x <= 0, t <= 0), X.rn(Abs(t), f) <= Abs(x), Abs(x) < X.rn(Abs(t) + 1, f))


def decs2(r):
    x = decs(r) if r.random() < .7 else decs(r) + r.randint(0, 2 ** 31 - 10 ** 6)
    return -x if r.random() < .3 else x


def decs(r):
    k = r.choice([0, 1, 2, 3, 4, 5, 6, 6, 7, 8, 9])
    return float('%d.%s' % (r.choice([0, r.randint(0, 59), r.randint(0, 999999)]), ''.join(r.choice('0123456789') for _ in range(k)) or '0'))


for S in T3:
    f, D = FAC[S], DAY[S]
    hms = [V('h', *I32), V('mi', *I32)]
    sx = lambda: [FV('x', 0, 999999.9999999999, sample=decs)]
    C(f'{FULL[S]}(h,m,decimal)', f'e_hmf_{S}', hms, None,
      lambda i, o, X, S=S, f=f: [('whole ticks of the decimal', lambda: whole(X, o.r - hm(S, i), i.x, f))], outs=['r'], fins=sx(), props=('C19',))
    # the decimal n/10^k with at most the type's decimals is stored exactly
    for base, ins, ok, u, date in (('ymd', ymd, vd, 'cal2mjd', dy), ('ydoy', ydy, vn, 'ydoy2mjd', dn)):
        C(f'datetime<{FULL[S]}>({base},h,m,decimal)', f'e_c_{base}f_{S}', ins + hms, ok,
          lambda i, o, X, S=S, f=f, D=D, date=date: [('normal form', And(o.t >= 0, o.t < D)),
                                                     ('whole ticks of the decimal', lambda: whole2(X, (o.day - date(i)) * D + o.t - hm(S, i), i.x, f))],
          outs=['day', 't'], fins=[FV('x', -2 ** 31, 2 ** 31, sample=decs2)], uses=(u, 'S_hmf'), props=('C19',))
C('seconds(h,m,double)', 'e_hmf_s', [V('h', *I32), V('mi', *I32)], None, lambda i, o, X: [('whole seconds towards zero', And(
    Implies(i.x >= 0, And(real(o.r - hm('s', i)) <= i.x, i.x < real(o.r - hm('s', i)) + 1)),
    Implies(i.x <= 0, And(real(o.r - hm('s', i)) >= i.x, i.x > real(o.r - hm('s', i)) - 1))))],
  outs=['r'], fins=[FV('x', -2 ** 31, 2 ** 31, sample=decs2)], props=('C19',), fn='S_hmf')
for S in ('ms', 'us'):
    f = FAC[S]
    def hp(i, o, X, S=S, f=f):
        t = o.r - hm(S, i)
        return [('sign', And(Implies(i.x >= 0, t >= 0), Implies(i.x <= 0, t <= 0))),
                ('whole ticks', lambda: And(X.rn(Abs(t), f) <= Abs(i.x), Abs(i.x) < X.rn(Abs(t) + 1, f)))]
    C(f'{FULL[S]}(h,m,double)', f'e_hmf_{S}', [V('h', *I32), V('mi', *I32)], None, hp, outs=['r'], fins=[FV('x', -2 ** 31, 2 ** 31, sample=decs2)], props=('C19',), fn='S_hmf')

# ------------------------------------------------------------ C20
EPS = Fraction(4, 10 ** 16)
mx = lambda a, b: If(a >= b, a, b)


def near(x, exact, scale): return And(x - exact <= EPS * scale, exact - x <= EPS * scale)


for S in T3:
    D, f = DAY[S], FAC[S]
    C(f'{FULL[S]}::fractional_days', f'e_fdays_{S}', [AMT('t')], None,
      lambda i, o, X, D=D: [('accurate', near(o.x, real(i.t) / D, Abs(real(i.t)) / D))], outs=['t2'], fouts=['x'], props=('C20',))
    C(f'{FULL[S]}::fractional_days of whole days', f'e_fdays_{S}', [V('t', -10 ** 9 * D if f == 1 else -BIG, 10 ** 9 * D if f == 1 else BIG, sample=lambda r, D=D: D * r.choice([r.randint(-9, 9), r.randint(-10 ** 9, 10 ** 9), r.randint(-BIG // D, BIG // D)]))],
      lambda i: True if isinstance(i.k, int) or not isinstance(i.t, int) else True,
      lambda i, o, X: [('exact', o.x == real(i.k))], ghosts=[V('k', -min(10 ** 9, BIG // D), min(10 ** 9, BIG // D))],
      inputs=lambda i, D=D: [i.k * D], native=lambda i, D=D: (setattr(i, 'k', i.t // D), i.t % D == 0)[1], outs=['t2'], fouts=['x'],
      setup=lambda m, st, i, fin: st.fp.append((toreal(i.k), None)), props=('C20',))
    C(f'{FULL[S]}::to_fractional_seconds', f'e_fsecs_{S}', [AMT('t')], None,
      lambda i, o, X, f=f: [('accurate', near(o.x, real(i.t) / f, Abs(real(i.t)) / f))], outs=['t2'], fouts=['x'], props=('C20',))
    for k, nm in (('dmjd', 'datetime'), ('imjd', 'datetime_interval')):
        C(f'{nm}<{FULL[S]}>::as_mjd', f'e_{k}_{S}', [DAYS(b=10 ** 12), TOD(S)], None,
          lambda i, o, X, D=D: [('accurate', near(o.x, real(i.day) + real(i.t) / D, mx(Abs(real(i.day)), real(i.t) / D))),
                                ('exact for whole days', Implies(i.t == 0, o.x == real(i.day)))], outs=['d2', 't2'], fouts=['x'],
          setup=lambda m, st, i, fin: st.fp.append((toreal(i.day), None)), props=('C20',), gen=lambda i, r: setattr(i, 't', 0) if r.random() < .3 else None)
C('modified_julian_day::to_julian_day', 'e_jd', [DAYS(b=10 ** 12)], None, lambda i, o, X: [('Julian Date', o.x == real(i.day) + Fraction(4800001, 2))],
  outs=['d2'], fouts=['x'], setup=lambda m, st, i, fin: st.fp.append((toreal(i.day) + rz(Fraction(4800001, 2)), None)), props=('C20',))

# ------------------------------------------------------------ C27
for S in T3:
    D = DAY[S]
    def dv(i, o, X, D=D):
        ex = lambda: X.quot(i.day, i.div) * D + X.quot(i.t, i.div)
        r = real(o.day * D + o.t)
        return [('normal form', And(o.t >= 0, o.t < D)), ('within two ticks', lambda: And(r - ex() < 2, ex() - r < 2))]
    C(f'datetime_interval<{FULL[S]}> / int', f'e_idiv_{S}', [DAYS('day', 100000), TOD(S), V('div', *I32)], lambda i: Not(i.div == 0), dv, outs=['day', 't'], props=('C27',),
      cases=[('div>0', lambda i, fresh: i.div > 0), ('div<0', lambda i, fresh: i.div < 0)])

# ------------------------------------------------------------ C28
for S in T3:
    C(f'{FULL[S]} constants', f'e_const_{S}', [], None,
      lambda i, o, X, S=S: [('largest number of whole days', o.k == (2 ** 63 - 1) // DAY[S]), ('ticks per day', o.d == DAY[S]),
                            ('ticks per second', And(o.f == FAC[S], o.x == FAC[S])), ('consistent', o.d == 86400 * o.f)], outs=['k', 'd', 'f'], fouts=['x'], props=('C28',))
C('epoch constants', 'e_epochs', [], None,
  lambda i, o, X: [('GPS epoch', o.g == DFCx(1980, 1, 6)), ('1901', o.j == DFCx(1901, 1, 1)), ('MJD origin', o.a == Fraction(4800001, 2)),
                   ('J2000', And(o.b == 2451545, o.c == Fraction(2451545) - Fraction(4800001, 2))), ('seconds per day', o.s == 86400)],
  outs=['g', 'j'], fouts=['a', 'b', 'c', 's'], props=('C28',))
