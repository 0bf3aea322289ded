"""Specification functions (independent of the implementation), dual mode."""
import z3
from dual import *
from sym import setiv, mk_add, iv, toz

# ticks per second / per day of the three second types, from the SI definition
FAC = {'s': 1, 'ms': 1000, 'us': 1000000}
DAY = {k: 86400 * v for k, v in FAC.items()}
YMIN, YMAX = -4799, 2 ** 31 - 1
CUM = [0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]     # index by month
LEN = [0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
I32 = (-2 ** 31, 2 ** 31 - 1)
I64 = (-2 ** 63, 2 ** 63 - 1)


def leap(y):
    return Or(And(fmod(y, 4) == 0, Not(fmod(y, 100) == 0)), fmod(y, 400) == 0)


def lpi(y): return If(leap(y), 1, 0)


def ylen(y): return 365 + lpi(y)


def mlen(y, m): return If(m == 2, 28 + lpi(y), lookup(LEN + [31], m))


def valid(y, m, d):
    """d is a day of month m of year y"""
    if not sym(y, m, d): return 1 <= m <= 12 and 1 <= d <= mlen(y, m)
    return And(m >= 1, m <= 12, d >= 1, d <= mlen(y, m))


def cum(y, m):
    """days of year y before month m"""
    return lookup(CUM, m) + If(And(m > 2, leap(y)), 1, 0)


def jan1(y):
    """days from 1858-11-17 to 1 January of year y, counting leap days one by one"""
    p = y - 1
    return 365 * p + fdiv(p, 4) - fdiv(p, 100) + fdiv(p, 400) - 678575


def DFCx(y, m, d):
    """days from 1858-11-17 to y-m-d (proleptic Gregorian), spelled out"""
    return jan1(y) + cum(y, m) + d - 1


def _civil(n):
    """calendar date of day n: by search over years, months (native oracle only)"""
    import datetime
    # shift into Python's own calendar (400-year period)
    k, r = divmod(n + 678575, 146097)        # days since 0001-01-01
    dt = datetime.date.fromordinal(r + 1)
    return dt.year + 400 * k, dt.month, dt.day


civil = _civil
DMIN, DMAX = DFCx(YMIN, 1, 1), DFCx(YMAX, 12, 31)
assert civil(DFCx(1858, 11, 17)) == (1858, 11, 17) and DFCx(1858, 11, 17) == 0
assert DFCx(2000, 1, 1) == 51544 and civil(DMIN) == (YMIN, 1, 1) and civil(DMAX) == (YMAX, 12, 31)

# opaque form for callers: the day number of a date is some integer with the facts
# proved as lemmas (range, injectivity); its definition stays hidden
DFCf = z3.Function('DFC', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())

def DFC(y, m, d):
    if not sym(y, m, d): return DFCx(y, m, d)
    return DFCf(toz(y), toz(m), toz(d))


def dfc_facts(m, st, y, mo, d):
    """name the day number of a date known to be valid and in range on this path,
    with the facts proved as lemmas (L-range, L-injective)"""
    t = DFC(y, mo, d)
    if isinstance(t, int): return t
    v = m.alias(st, t, DMIN, DMAX)
    st.assume(z3.And(v >= DMIN, v <= DMAX))
    for e in st.trace:
        if e[0] == 'dfc':
            st.assume(z3.Implies(v == e[4], z3.And(toz(y) == toz(e[1]), toz(mo) == toz(e[2]), toz(d) == toz(e[3]))))
    st.trace.append(('dfc', y, mo, d, v))
    return v


def doy_of(y, m, d): return cum(y, m) + d


def month_of_doy(y, n):
    """native only"""
    m = 12
    while cum(y, m) >= n: m -= 1
    return m


# ------------------------------------------------------------ leap seconds (IERS Bulletin C)
LEAPS = [(1972, 1, 10), (1972, 7, 11), (1973, 1, 12), (1974, 1, 13), (1975, 1, 14), (1976, 1, 15), (1977, 1, 16), (1978, 1, 17),
         (1979, 1, 18), (1980, 1, 19), (1981, 7, 20), (1982, 7, 21), (1983, 7, 22), (1985, 7, 23), (1988, 1, 24), (1990, 1, 25),
         (1991, 1, 26), (1992, 7, 27), (1993, 7, 28), (1994, 7, 29), (1996, 1, 30), (1997, 7, 31), (1999, 1, 32), (2006, 1, 33),
         (2009, 1, 34), (2012, 7, 35), (2015, 7, 36), (2017, 1, 37)]


def dat_ym(y, m):
    r = LEAPS[0][2]
    for (Y, M, v) in LEAPS[1:]: r = If(12 * y + m >= 12 * Y + M, v, r)
    return r


def dat_day(n):
    r = LEAPS[0][2]
    for (Y, M, v) in LEAPS[1:]: r = If(n >= DFCx(Y, M, 1), v, r)
    return r


SHORT = ['jan', 'feb', 'mar', 'apr', 'may', 'jun', 'jul', 'aug', 'sep', 'oct', 'nov', 'dec']
LONG = ['january', 'february', 'march', 'april', 'may', 'june', 'july', 'august', 'september', 'october', 'november', 'december']


def low(c):
    return If(And(c >= 65, c <= 90), c + 32, c)
