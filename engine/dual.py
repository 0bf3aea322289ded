"""Specification vocabulary: every operator works on Python numbers (native
oracle) and on z3 terms (verification), so one text is both contract and oracle."""
import z3
from fractions import Fraction


def sym(*xs):
    return any(isinstance(x, z3.ExprRef) for x in xs)


def _b(x):
    return x if isinstance(x, z3.ExprRef) else z3.BoolVal(bool(x))


def And(*xs):
    xs = [y for x in xs for y in (x if isinstance(x, (list, tuple)) else [x])]
    r = []
    for x in xs:
        if isinstance(x, z3.ExprRef): r.append(x)
        elif not x: return False
    if not r: return True
    return r[0] if len(r) == 1 else z3.And(*r)


def Or(*xs):
    xs = [y for x in xs for y in (x if isinstance(x, (list, tuple)) else [x])]
    r = []
    for x in xs:
        if isinstance(x, z3.ExprRef): r.append(x)
        elif x: return True
    if not r: return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def Not(x):
    return z3.Not(x) if isinstance(x, z3.ExprRef) else (not x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if sym(a, b): return _b(a) == _b(b)
    return bool(a) == bool(b)


def _n(x, like=None):
    if isinstance(x, z3.ExprRef): return x
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.RealVal(x) if like is not None and like.is_real() else z3.IntVal(x)
    if isinstance(x, Fraction): return z3.RealVal(x)
    if isinstance(x, float): return z3.RealVal(Fraction(x))
    raise TypeError(x)


def If(c, a, b):
    if not isinstance(c, z3.ExprRef): return a if c else b
    if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef) or isinstance(a, bool) or isinstance(b, bool):
        return z3.If(c, _b(a), _b(b))
    if not sym(a, b) and a == b: return a
    aa, bb = _n(a), _n(b)
    if aa.is_real() != bb.is_real():
        aa = z3.ToReal(aa) if aa.is_int() else aa
        bb = z3.ToReal(bb) if bb.is_int() else bb
    return z3.If(c, aa, bb)


def fdiv(a, c):
    """floor division by a positive constant"""
    assert isinstance(c, int) and c > 0
    if isinstance(a, z3.ExprRef):
        from sym import mk_fdiv
        return mk_fdiv(a, c)
    return a // c


def fmod(a, c):
    assert isinstance(c, int) and c > 0
    if isinstance(a, z3.ExprRef):
        from sym import mk_fmod
        return mk_fmod(a, c)
    return a % c


def tdiv(a, c):
    """C division by a positive constant (truncation)"""
    if isinstance(a, z3.ExprRef): return z3.If(a >= 0, a / c, -((-a) / c))
    return a // c if a >= 0 else -((-a) // c)


def eq(a, b):
    return a == b


def Abs(a):
    return If(a >= 0, a, -a)


def real(a):
    """exact rational/real view of a number"""
    if isinstance(a, z3.ExprRef): return z3.ToReal(a) if a.is_int() else a
    return Fraction(a)


def lookup(table, idx):
    """table[idx], idx symbolic or not; last entry is the default"""
    if not isinstance(idx, z3.ExprRef): return table[idx]
    r = _n(table[-1])
    for k in range(len(table) - 2, -1, -1): r = z3.If(idx == k, _n(table[k]), r)
    return r
