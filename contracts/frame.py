"""C29: frame conditions.  Operands of every operation are unchanged on every path, and
no function reachable from the interface mentions mutable global state (scan.py)."""
import re
from core import *
import calendar_, arith, fund, text

CS = []
T = ('s', 'ms', 'us')
R2 = {'e_to_ymd': {3: 'mjd'}, 'e_to_ydoy': {2: 'mjd'}, 'e_ymd_ydoy': {2: 'y', 3: 'm', 4: 'd'}, 'e_ydoy_ymd': {3: 'y', 4: 'n'},
      'e_dom_valid': {2: 'y', 3: 'm', 4: 'd'}, 'e_doy_valid': {2: 'y', 3: 'n'}, 'e_jd': {0: 'day'}, 'e_resolve': {1: 't'}}
PAT = [(r'e_as_ymd_\w+', {3: 0, 4: 1}), (r'e_as_ydoy_\w+', {2: 0, 3: 1}), (r'e_wsowl?_\w+', {2: 0, 3: 1}), (r'e_(dsec_m|ddate|ddatef|dsec)_(s|ms|us)(_\w+)?', {2: 0, 3: 1, 4: 2, 5: 3}),
       (r'e_iadd_\w+', {2: 'u4', 3: 'u5'}), (r'e_ddate_rt_\w+', {2: 'u4', 3: 'u5'}), (r'e_idiv_\w+', {2: 0, 3: 1}), (r'e_i?cmp_(s|ms|us)', {6: 0, 7: 1, 8: 2, 9: 3}), (r'e_split_\w+', {4: 0}), (r'e_dsplit_\w+', {4: 0, 5: 1}),
       (r'e_todays_\w+', {2: 0}), (r'e_fdays_\w+', {0: 0}), (r'e_fsecs_\w+', {0: 0}), (r'e_[di]mjd_\w+', {0: 0, 1: 1}), (r'e_addm_\w+', {2: 0, 3: 1}), (r'e_op_\w+', {1: 0}),
       (r'e_(adds|rems)_\w+_\w+', {2: 2}), (r'e_cast_\w+', {1: 0}), (r'e_dcast_\w+', {2: 0, 3: 1}), (r't_\w+', {0: 0, 1: 1}),
       (r'e_cmp_\w\w\w+', {6: 0, 7: 1}), (r'e_(peq|meq)[il]?_\w+', {2: 1}), (r'e_copy_\w+', {2: 0}), (r'e_(add|sub)_(?!rem)\w+', {1: 0, 2: 1})]


def slots(e):
    for k, v in R2.items():
        if e == k: return v
    for p, v in PAT:
        if re.fullmatch(p, e): return v
    return None


seen = set()
for c in calendar_.CS + arith.CS + fund.CS + text.CS:
    s = slots(c.entry)
    if s is None or c.entry in seen or (c.ghosts and c.inputs): continue
    seen.add(c.entry)
    names = [v.name for v in c.ins]
    m = {k: (v if isinstance(v, str) else names[v]) for k, v in s.items()}
    top = max(list(m) + [int(v[1:]) for v in m.values() if v[0] == 'u' and v[1:].isdigit()])
    outs = ['u%d' % k for k in range(top + 1)]
    x = Contract('operands of ' + c.name, c.entry, c.ins, None, lambda i, o, X, m=m: [('%s unchanged' % v, getattr(o, 'u%d' % k) == (getattr(i, v) if hasattr(i, v) else getattr(o, v))) for k, v in m.items()],
                 lambda i: {'ret': True, 'std': True}, fins=c.fins, outs=outs, uses=c.uses, props=('C29',), frame=m, gen=c.gen, text=None if c.text is None else c.text)
    x.base = c
    CS.append(x)
x = [c for c in calendar_.CS if c.entry == 'e_to_ymd'][0]
y = Contract('operands of modified_julian_day::to_ymd', 'e_to_ymd', x.ins, None, lambda i, o, X: [('day unchanged', o.u3 == i.mjd)], outs=['u0', 'u1', 'u2', 'u3'], props=('C29',), frame={3: 'mjd'})
y.base = x
CS.append(y)
