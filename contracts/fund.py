"""C15: the fundamental types behave like the integers they wrap."""
from core import *
from specs import *

CS = []
INT = {'year': 32, 'month': 32, 'day_of_month': 32, 'day_of_year': 32, 'hours': 32, 'minutes': 32,
       'gps_week': 64, 'modified_julian_day': 64, 'seconds': 64, 'milliseconds': 64, 'microseconds': 64}


def C(*a, **k):
    c = Contract(*a, props=('C15',), **k); CS.append(c); return c


B = lambda x: If(x, 1, 0)
for T, w in INT.items():
    R = I32 if w == 32 else I64
    fits = lambda x, R=R: And(x >= R[0], x <= R[1])
    a, b = V('a', *R), V('b', *R)
    C(f'{T} comparisons', f'e_cmp_{T}', [a, b], None,
      lambda i, o, X: [('==', o.eq == B(i.a == i.b)), ('!=', o.ne == B(Not(i.a == i.b))), ('<', o.lt == B(i.a < i.b)), ('<=', o.le == B(i.a <= i.b)),
                       ('>', o.gt == B(i.a > i.b)), ('>=', o.ge == B(i.a >= i.b)), ('operands unchanged', And(o.a2 == i.a, o.b2 == i.b))],
      outs=['eq', 'ne', 'lt', 'le', 'gt', 'ge', 'a2', 'b2'],
      gen=lambda i, r, R=R: (setattr(i, 'a', r.choice([R[0], R[1], r.randint(*R), r.randint(-9, 9)])), setattr(i, 'b', min(max(i.a + r.choice([0, 0, 1, -1]), R[0]), R[1]))) if r.random() < .6 else None)
    for en, k, nm in (('prei', 1, '++a'), ('pred', -1, '--a')):
        C(f'{T} {nm}', f'e_{en}_{T}', [a], lambda i, k=k, fits=fits: fits(i.a + k),
          lambda i, o, X, k=k: [('value', o.r == i.a + k), ('returns the operand itself', o.me == 1)], outs=['r', 'me'])
    for en, k, nm in (('posi', 1, 'a++'), ('posd', -1, 'a--')):
        C(f'{T} {nm}', f'e_{en}_{T}', [a], lambda i, k=k, fits=fits: fits(i.a + k),
          lambda i, o, X, k=k: [('value', o.r == i.a + k), ('returns the old value', o.old == i.a)], outs=['r', 'old'])
    for en, bv, nm in (('peq', b, 'a += b'), ('meq', b, 'a -= b'), ('peqi', V('b', *I32), 'a += int'), ('meqi', V('b', *I32), 'a -= int'),
                       ('peql', V('b', *I64), 'a += long'), ('meql', V('b', *I64), 'a -= long'),
                       ('pequ', V('b', 0, 2 ** 32 - 1), 'a += unsigned'), ('mequ', V('b', 0, 2 ** 32 - 1), 'a -= unsigned'),
                       ('peqh', V('b', -2 ** 15, 2 ** 15 - 1), 'a += short'), ('meqh', V('b', -2 ** 15, 2 ** 15 - 1), 'a -= short'),
                       ('pequl', V('b', 0, I64[1]), 'a += unsigned long'), ('mequl', V('b', 0, I64[1]), 'a -= unsigned long'),
                       ('peqb', V('b', 0, 1), 'a += bool'), ('meqb', V('b', 0, 1), 'a -= bool')):
        sg = 1 if en[0] == 'p' else -1
        C(f'{T} {nm}', f'e_{en}_{T}', [a, bv], lambda i, sg=sg, fits=fits: And(fits(i.a + sg * i.b)),
          lambda i, o, X, sg=sg: [('value', o.r == i.a + sg * i.b), ('returns the operand itself', o.me == 1), ('right operand unchanged', o.b2 == i.b)],
          outs=['r', 'me', 'b2'],
          gen=lambda i, r, R=R, sg=sg, bv=bv: (setattr(i, 'a', sample(V('a', *R), r)), setattr(i, 'b', min(max(r.choice([sg * (R[0] - i.a), sg * (R[1] - i.a), r.randint(-9, 9)]), bv.lo), bv.hi))) if r.random() < .5 else None)
    C(f'{T} a = b', f'e_copy_{T}', [V('b', *R), a], None,
      lambda i, o, X: [('value', o.r == i.b), ('returns the operand itself', o.me == 1), ('right operand unchanged', o.b2 == i.b)], outs=['r', 'me', 'b2'])
    if T != 'month':
        C(f'{T} a = integer', f'e_asg_{T}', [V('b', *R), a], None, lambda i, o, X: [('value', o.r == i.b), ('returns the operand itself', o.me == 1)], outs=['r', 'me'])
        C(f'{T} a = unsigned', f'e_asgu_{T}', [V('b', 0, I32[1] if w == 32 else 2 ** 32 - 1), a], None, lambda i, o, X: [('value', o.r == i.b), ('returns the operand itself', o.me == 1)], outs=['r', 'me'])
        C(f'{T} a = short', f'e_asgh_{T}', [V('b', -2 ** 15, 2 ** 15 - 1), a], None, lambda i, o, X: [('value', o.r == i.b), ('returns the operand itself', o.me == 1)], outs=['r', 'me'])
        C(f'{T} a = int', f'e_asgi_{T}', [V('b', *I32), a], None, lambda i, o, X: [('value', o.r == i.b), ('returns the operand itself', o.me == 1)], outs=['r', 'me'])
    if T in ('modified_julian_day', 'seconds', 'milliseconds', 'microseconds'):
        for en, sg in (('add', 1), ('sub', -1)):
            C(f'{T} a {"+" if sg > 0 else "-"} b', f'e_{en}_{T}', [a, b], lambda i, sg=sg, fits=fits: fits(i.a + sg * i.b),
              lambda i, o, X, sg=sg: [('value', o.r == i.a + sg * i.b), ('operands unchanged', And(o.a2 == i.a, o.b2 == i.b))], outs=['r', 'a2', 'b2'])
C('literals of year, month, day, hours, minutes', 'e_literals', [V('a', 0, I32[1])], None,
  lambda i, o, X: [('value', And(o.y == i.a, o.m == i.a, o.d == i.a, o.h == i.a, o.mi == i.a))], outs=['y', 'm', 'd', 'h', 'mi'])
C('literals of seconds, milliseconds, microseconds', 'e_literall', [V('a', 0, I64[1])], None,
  lambda i, o, X: [('value', And(o.s == i.a, o.ms == i.a, o.us == i.a))], outs=['s', 'ms', 'us'])
