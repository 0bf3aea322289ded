"""C21-C26: month names, readers, writers."""
import ctypes, re as _re
from core import *
from specs import *
from calendar_ import YEAR, MON, DOM, T3, FULL, vd
from lib import SV, SE, SR, DV, DK, DE, DR, strtol_axioms, strtod_axioms
import calls

CS = []
IMAX = 2 ** 31 - 1


def C(*a, **k):
    c = Contract(*a, **k); CS.append(c); return c


# ------------------------------------------------------------ strings in contracts
class SymStr:
    """any NUL-terminated string of any length"""
    def __init__(s, m, st, o):
        s.len = z3.Int('length'); s.f = z3.Function('char', z3.IntSort(), z3.IntSort()); s.m = m
        setiv(s.len, 0, 2 ** 40)
        st.assume(z3.And(s.len >= 0, s.len <= 2 ** 40))
        o.extra = {'len': s.len, 'ch': s.f}
        s.st = st
    def ch(s, k):
        k = toz(k); c = s.f(k)
        s.st.assume(z3.And(c >= -128, c <= 127, z3.Implies(z3.And(k >= 0, k < s.len), c != 0), z3.Implies(k == s.len, c == 0)))
        return c
    def l(s, p):
        p = toz(p); s.st.assume(z3.Implies(z3.And(p >= 0, p <= s.len), strtol_axioms(p, s.len)))
        return SV(p), SE(p), SR(p)
    def d(s, p):
        p = toz(p); s.st.assume(z3.Implies(z3.And(p >= 0, p <= s.len), strtod_axioms(p, s.len)))
        return DV(p), DE(p), z3.Or(DR(p), DK(p) != 0)


libc = ctypes.CDLL(None, use_errno=True)
libc.strtol.restype = ctypes.c_long; libc.strtol.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int]
libc.strtod.restype = ctypes.c_double; libc.strtod.argtypes = [ctypes.c_void_p, ctypes.c_void_p]


class NatStr:
    def __init__(s, b):
        s.b = b; s.len = len(b); s.buf = ctypes.create_string_buffer(b, len(b) + 1); s.a = ctypes.addressof(s.buf)
    def ch(s, k):
        c = s.b[k] if k < s.len else 0
        return c - 256 if c > 127 else c
    def l(s, p):
        e = ctypes.c_void_p(0); ctypes.set_errno(0)
        v = libc.strtol(s.a + p, ctypes.byref(e), 10)
        return v, e.value - s.a, ctypes.get_errno() == 34
    def d(s, p):
        e = ctypes.c_void_p(0); ctypes.set_errno(0)
        v = libc.strtod(s.a + p, ctypes.byref(e))
        fin = v == v and abs(v) != math.inf
        return (Fraction(v) if fin else Fraction(0)), e.value - s.a, ctypes.get_errno() == 34 or not fin


def sstr(m, st, i, o):
    i.S = SymStr(m, st, o)
    m.ghost['_text'] = lambda mod: model_text(i.S, mod)
    m.ghost['_fields'] = lambda mod: model_fields(i, mod)


def model_text(S, mod):
    """the string of a model, as far as it is spelt out"""
    n = mod.eval(S.len, model_completion=True).as_long()
    if n > 300: n = 300
    b = bytes(mod.eval(S.f(z3.IntVal(k)), model_completion=True).as_long() % 256 for k in range(n))
    return b.split(b'\0')[0]


def model_fields(i, mod):
    """what a model says about the fields of the string: (kind, value or None, missing, out of range)"""
    lay = next((k[4:] for k in i.asdict() if k.startswith('scan')), None)
    if lay is None: return None
    vals, bad, _ = getattr(i, 'scan' + lay)
    def ev(x):
        if not isinstance(x, z3.ExprRef): return x
        x = mod.eval(x, model_completion=True)
        return x.as_long() if z3.is_int_value(x) else Fraction(x.numerator_as_long(), x.denominator_as_long()) if z3.is_rational_value(x) else z3.is_true(x)
    return [(c, ev(v), bool(ev(m_)), bool(ev(o_))) for c, v, (m_, o_) in zip(lay, vals, bad)]


def realize(inp, lay):
    """candidate strings for a model given by its field values"""
    out = [inp['_text']] if isinstance(inp.get('_text'), bytes) else []
    f = inp.get('_fields')
    if not isinstance(f, list): return out
    if not lay: return out
    for ms in (SHORT, LONG) if 'm' in lay else (SHORT,):
        s, cut = '', False
        dels = {'iii': '--', 'ii': '-', 'iiiiid': '-- ::', 'imiiid': '-- ::', 'iiiid': '- ::'}[lay]
        for k, (c, v, miss, oor) in enumerate(f):
            if miss: cut = True; break
            if oor: s += str(v) if c == 'i' and abs(v) > IMAX else ('9' * 25 if c == 'i' else '1e400')
            elif c == 'i': s += str(v)
            elif c == 'm': s += ms[v - 1]
            else: s += repr(float(v)) if v != int(v) else str(int(v))
            if k < len(lay) - 1: s += dels[k]
        if cut: out += [(s + x).encode() for x in ('', 'x', ' ', '-', 'x-1')] + [s[:-1].encode()]
        else: out += [(s + x).encode() for x in ('', ' ', 'Z', '.', '7')]
    return list(dict.fromkeys(x for x in out if 0 not in x))


def nstr(i):
    i.S = NatStr(i.str)


# ------------------------------------------------------------ C21
def is_name(S, name): return And(S.len == len(name), *[low(S.ch(k)) == ord(name[k]) for k in range(len(name))]) if S.len.__class__ is not int else (
    S.len == len(name) and all(low(S.ch(k)) == ord(name[k]) for k in range(len(name))))


def names(S, q): return Or(is_name(S, SHORT[q]), is_name(S, LONG[q]))


def month_gen(r):
    n = r.choice(SHORT + LONG + LONG)
    k = r.random()
    b = bytearray(n.encode())
    b = bytearray(c ^ 32 if r.random() < .4 else c for c in b)
    if k < .35: return bytes(b)
    if k < .5: return bytes(b[:r.randint(0, len(b))])
    if k < .65: return bytes(b) + bytes([r.choice([32, 97, 115, 46, 0x72, 1, 255])])
    if k < .8 and b: b[r.randrange(len(b))] ^= 1 << r.randint(0, 7); return bytes(x for x in b if x)
    if k < .87: return bytes(b[1:])
    if k < .9: return bytes(b) * r.choice([2, 20, 100, 700])
    return bytes(r.choice(b'janfebmrpyulgsoctvdi JANF\xe4.') for _ in range(r.randint(0, 12)))


def mb(i): return {'ret': Or([names(i.S, q) for q in range(12)]), 'invalid_argument': Not(Or([names(i.S, q) for q in range(12)]))}


C('month(string)', 'e_month', [], None, lambda i, o, X: [('the month named', And([Implies(names(i.S, q), o.r == q + 1) for q in range(12)]))], mb,
  outs=['r'], string=sstr, native=nstr, strgen=month_gen, props=('C21',), fn='month_str')
CS[-1].realize = lambda inp: realize(inp, '')
for en, tab, nm in (('e_short', SHORT, 'short_name'), ('e_long', LONG, 'long_name')):
    C(f'month::{nm}', en, [MON()], None, lambda i, o, X, tab=tab: [('recognised as the same month', o.r == i.m), ('length', o.k == lookup([0] + [len(x) for x in tab], i.m))],
      outs=['r', 'm2', 'k'], props=('C21',), cases=[(f'm={k}', lambda i, fresh, k=k: i.m == k) for k in range(1, 13)])

# ------------------------------------------------------------ C22, C23, C24: readers
LAY = {'ymd': 'iii', 'ydoy': 'ii', 'ymd_hms': 'iiiiid', 'yod_hms': 'imiiid', 'ydoy_hms': 'iiiid'}


def scan(S, lay):
    """-> (field values, list of (missing, out of range), end of the last field)"""
    p, vals, bad, end = 0, [], [], 0
    alpha = lambda c: Or(And(c >= 65, c <= 90), And(c >= 97, c <= 122))
    dead = False
    for c in lay:
        if dead: vals.append(0); bad.append((True, False)); continue
        if c == 'i':
            v, e, r = S.l(p)
            miss = e == p
            oor = And(Not(miss), Or(r, v > IMAX, v < -IMAX))
            vals.append(Abs(v)); bad.append((miss, oor)); end = e
            p = If(e < S.len, e + 1, e)
            if not sym(p, miss) and (miss or oor): dead = True
        elif c == 'd':
            v, e, r = S.d(p)
            miss = e == p
            oor = And(Not(miss), Or(r, v > IMAX, v < -IMAX))
            vals.append(v); bad.append((miss, oor)); end = e
        else:
            c0 = S.ch(p)
            q = If(And(Not(c0 == 0), Not(alpha(c0))), p + 1, p)
            cs = []
            for k in range(3):
                # characters up to the terminator
                stop = Or(q + k >= S.len)
                cs.append(If(stop, 0, S.ch(If(stop, S.len, q + k))))
            hit = [And([low(cs[k]) == ord(SHORT[m][k]) for k in range(3)]) for m in range(12)]
            v = 0
            for m in range(11, -1, -1): v = If(hit[m], m + 1, v)
            miss = Not(Or(hit))
            vals.append(v); bad.append((miss, False)); end = q + 3
            p = If(And(Not(miss), q + 3 < S.len), q + 4, q + 3)
            if not sym(p, miss) and miss: dead = True
    return vals, bad, end


def fields(i, lay):
    k = 'scan' + lay
    if not hasattr(i, k): setattr(i, k, scan(i.S, lay))
    return getattr(i, k)


def good(i, lay): return Not(Or([Or(a, b) for a, b in fields(i, lay)[1]]))


def first_bad(i, lay):
    """some required field is missing, all fields before it being fine"""
    r, ok = False, True
    for a, b in fields(i, lay)[1]:
        r = Or(r, And(ok, a)); ok = And(ok, Not(a), Not(b))
    return r


def date_of(kind, v):
    if kind in ('ydoy', 'ydoy_hms'): return v[0], v[1], v[2:]
    return v[0], (v[1], v[2]), v[3:]


def okdate(i, kind):
    v, _, _ = fields(i, LAY[kind])
    y, d, _ = date_of(kind, v)
    return (valid(y, *d) if isinstance(d, tuple) else And(d >= 1, d <= ylen(y)))


def whole(X, t, x, f):
    from calls import ticks_of
    if not X.native: return calls.ticks_of(X.m, X.st, t, x, f)
    a, at = abs(x), abs(t)
    if f == 1: return at == math.floor(a) and (t >= 0 if x >= 0 else t <= 0)
    return X.rn(at, f) <= a < X.rn(at + 1, f) and (t >= 0 if x >= 0 else t <= 0)


def rd_post(kind, S, stop):
    def f(i, o, X):
        v, _, end = fields(i, LAY[kind])
        y, d, rest = date_of(kind, v)
        day = X.dfc(y, *d) if isinstance(d, tuple) else X.dfc(y, 1, 1) + d - 1
        r = [('normal form', And(o.t >= 0, o.t < DAY[S]))]
        if rest:
            h, mi, x = rest
            r.append(('the instant the fields spell', lambda: whole(X, (o.day - day) * DAY[S] + o.t - (h * 3600 + mi * 60) * FAC[S], x, FAC[S])))
        else: r.append(('the instant the fields spell', And(o.day == day, o.t == 0)))
        if stop: r.append(('stop pointer', o.stop == (end if rest else end - 1)))
        return r
    return f


def mcases(lay):
    if 'm' not in lay: return None
    return [('month %d' % q, lambda i, fresh, q=q: fields(i, lay)[0][lay.index('m')] == q) for q in range(1, 13)]


def num(r, lo, hi):
    k = r.random()
    v = r.randint(lo, hi) if k < .93 else r.choice([0, hi, hi + 1, 10 ** 9, 2147483647, 2147483648, 10 ** 12, 10 ** 19, -7])
    s = str(v)
    if r.random() < .3: s = s.zfill(r.randint(1, 5))
    k = r.random()
    if k < .05: s = r.choice(['-', '+', ' ', '  ']) + s
    elif k < .1: s = lead(r) + s
    elif k < .12: s = r.choice(['0x', '0X', '00', '0x1', '0b1', "1'", '1,', '1_', '1e']) + s
    return s


def lead(r):
    """what may stand before a number: white space of all kinds, signs"""
    return ''.join(r.choice(' \t\n\v\f\r') for _ in range(r.choice([0, 1, 1, 1, 2, 5]))) + r.choice(['', '', '+', '-', '+', '+-', '- ', '--'])


def sec(r):
    if r.random() < .07: return lead(r) + sec(r)
    k = r.random()
    if k < .04: return str(r.randint(0, 59)).zfill(r.choice([2, 3, 20, 40])) + r.choice(['', '.', '.0', '.5', '.']) + ''.join(r.choice('0123456789') for _ in range(r.choice([0, 12, 18, 19, 20, 25, 40])))
    if k < .1: return r.choice(['1e', '1e+', '1e-', '5.e0', '0x', '0x.8p1', '0X1P+2', '0xg', 'infinity', '-inf', 'INF', 'nan(x)', 'NAN', 'in', 'na', '.', '-.', '+.5', '-0', '1,5', '5.5.5', '59.9999995',
                                '5e-1', '5E1', '1.5e+01', '12e-1x', '0e999', '1e-320', '4.9e-324', '1e308', '1e309', '3f', '3L'])
    if k < .5: return '%d.%s' % (r.randint(0, 59), ''.join(r.choice('0123456789') for _ in range(r.choice([1, 2, 3, 3, 6, 6, 7, 9]))))
    if k < .8: return str(r.randint(0, 60))
    return r.choice(['1e3', '-5.5', '.5', '5.', 'nan', 'inf', '1e400', '1e-400', '0x1p3', '999999999999', '', 'abc', '86399.999999', '2147483647.5'])


def text_gen(kind):
    def g(r):
        out = ''
        lay = LAY[kind]
        lims = {'iii': [(0, 3000), (1, 12), (1, 31)], 'ii': [(0, 3000), (1, 366)], 'iiiiid': [(0, 3000), (1, 12), (1, 31), (0, 23), (0, 59), None],
                'imiiid': [(0, 3000), None, (1, 31), (0, 23), (0, 59), None], 'iiiid': [(0, 3000), (1, 366), (0, 23), (0, 59), None]}[lay]
        n = len(lay)
        for k, c in enumerate(lay):
            if c == 'i': out += num(r, *lims[k])
            elif c == 'm':
                q = r.choice(SHORT); out += ''.join(x.upper() if r.random() < .4 else x for x in q)
                if r.random() < .1: out += r.choice(['e', 'uary', '.', ''])
            else: out += sec(r)
            if k < n - 1: out += r.choice(['-', '/', ' ', ':', 'T', '-', '-', ' ', '']) if r.random() < .95 else r.choice(['--', ' -', '\t', '\v', '\f', '\n', '\r', '+', '.', ',', 'e', 'x', '- ', '-+', '  ', '\x7f', '\xff'])
        k = r.random()
        b = bytearray(out.encode('latin1'))
        if k < .2: b = b[:r.randint(0, len(b))]
        elif k < .3 and b: b[r.randrange(len(b))] = r.choice(b'0- /:.axZ\xff+\t\n\v\f\r') if r.random() < .7 else r.randrange(1, 256)
        elif k < .36: b += r.choice([b' ', b'Z', b' junk', b'-1'])
        elif k < .4: b = bytearray(r.choice(b'0123456789-/: .eTjanfeb') for _ in range(r.randint(0, 14)))
        elif k < .43:
            # long texts: junk after, before or instead of the fields
            n = r.choice([20, 40, 70, 130, 260, 520, 1030, 4100])
            j = bytes(r.choice([b'0', b'x', b' ', b'9', b'-', b'ab1 '])) * n
            b = bytearray(j[:n]) if r.random() < .4 else b + j[:n] if r.random() < .5 else bytearray(j[:n]) + b
        return bytes(x for x in b if x)
    return g


for kind, lay in LAY.items():
    mark = len(CS)
    for S in T3:
        u = ('cal2mjd', 'ydoy2mjd', 'S_hmf', 'month_str')
        for en, stop in (('rd', False), ('rs', True)):
            outs = ['day', 't'] + (['stop'] if stop else [])
            nm = f'strptime_{kind}<{FULL[S]}>' + (' with stop pointer' if stop else '')
            C(nm, f'e_{en}_{kind}_{S}', [], lambda i, kind=kind, lay=lay: And(good(i, lay), okdate(i, kind)), rd_post(kind, S, stop), outs=outs, uses=u,
              string=sstr, native=nstr, strgen=text_gen(kind), hist=True, props=('C22',), cases=mcases(lay))
            C(nm + ', any string', f'e_{en}_{kind}_{S}', [], None, None,
              lambda i, lay=lay: {'ret': good(i, lay), 'invalid_argument': True, 'std': Not(first_bad(i, lay))}, outs=outs, uses=u,
              string=sstr, native=nstr, strgen=text_gen(kind), hist=True, props=('C23',) + (('C22',) if not stop else ()))
        C(f'strptime_{kind}<{FULL[S]}> whatever errno was', f'e_rd_{kind}_{S}', [], None, None, lambda i: {'ret': True, 'std': True}, outs=['day', 't'],
          uses=('cal2mjd', 'ydoy2mjd', 'month_str'), string=sstr, native=nstr, strgen=text_gen(kind), hist=True, props=('C24',), rel=True)

    for c in CS[mark:]: c.realize = lambda inp, lay=lay: realize(inp, lay)

# ------------------------------------------------------------ C25: formatting
FIX = 10 ** 9


def parse(txt, shape):
    """native: the numbers of a text, as the shape wants them"""
    m = _re.fullmatch(shape, txt)
    return None if not m else m.groupdict()


def text_native(kind, i, txt, S):
    t = txt.decode('latin1')
    sd = _re.escape(chr(i.delim % 256)) if hasattr(i, 'delim') else '-'
    if kind == 'str': sh = r'(?P<y>\d+)[^\d.]+(?P<m>\d+)[^\d.]+(?P<d>\d+)[^\d.]+(?P<h>\d+)[^\d.]+(?P<mi>\d+)[^\d.]+(?P<s>\d+)(?:\.(?P<f>\d+))?'
    else:
        sh = r'(?P<y>\d{4})' + sd + r'(?P<m>\d{2})' + sd + r'(?P<d>\d{2}) (?P<h>\d{2}):(?P<mi>\d{2}):'
        sh += r'(?P<s>\d+)\.(?P<f>\d{6})' if kind.startswith('hmfs') else r'(?P<s>\d{2})'
    g = parse(t, sh)
    if not g: return [('text has the fields in order', False)]
    T, f = i.t, FAC[S]
    r = [('year', int(g['y']) == i.y), ('month', int(g['m']) == i.m), ('day of month', int(g['d']) == i.d),
         ('hour', int(g['h']) == T // (3600 * f)), ('minute', int(g['mi']) == T // (60 * f) % 60)]
    if kind.startswith('hms'): r.append(('second', int(g['s']) == T // f % 60))
    else:
        shown = Fraction(int(g['s'])) + (Fraction(int(g['f']), 10 ** len(g['f'])) if g.get('f') else 0)
        r.append(('seconds', shown == Fraction(T % (60 * f), f)))
    return r


def text_post(kind, S):
    f = FAC[S]
    def p(i, o, X):
        if X.native: return text_native(kind, i, o.txt, S)
        toks = list(o.txt or ())
        pad = {'y': 4, 'm': 2, 'd': 2, 'h': 2, 'mi': 2, 's': 2}
        D = ('chr', i.delim) if hasattr(i, 'delim') else ('lit', '-')
        if kind == 'str': seq = ['y', '?', 'm', '?', 'd', '?', 'h', '?', 'mi', '?', 'x']
        else: seq = ['y', D, 'm', D, 'd', ('lit', ' '), 'h', ('lit', ':'), 'mi', ('lit', ':'), 'x' if kind.startswith('hmfs') else 's']
        val = {'y': i.y, 'm': i.m, 'd': i.d, 'h': fdiv(i.t, 3600 * f), 'mi': fmod(fdiv(i.t, 60 * f), 60), 's': fmod(fdiv(i.t, f), 60)}
        nm = {'y': 'year', 'm': 'month', 'd': 'day of month', 'h': 'hour', 'mi': 'minute', 's': 'second'}
        # the text as single characters and printed numbers
        flat = []
        for t in toks:
            if t[0] == 'lit': flat += [('chr', ord(c) if ord(c) < 128 else ord(c) - 256) for c in t[1]]
            else: flat.append(t)
        toks, at = flat, [0]
        def peek(): return toks[at[0]] if at[0] < len(toks) else ('end',)
        def lit(t): return t[0] == 'chr' and isinstance(t[1], int)
        def isd(t): return t[0] == 'int' or (t[0] == 'chr' and not (lit(t) and not 48 <= t[1] <= 57))
        def number(need):
            """a number of exactly `need` digits (None: as many as there are) -> (value, conditions)"""
            acc, cs, n = 0, [], 0
            while need is None or n < need:
                t = peek()
                if t[0] == 'chr':
                    if lit(t) and not 48 <= t[1] <= 57:
                        if need is None and n: break
                        cs.append(False); return 0, cs
                    if not lit(t): cs += [t[1] >= 48, t[1] <= 57]
                    acc = 10 * acc + (t[1] - 48); n += 1; at[0] += 1
                elif t[0] == 'int':
                    v, w, fill = t[1:4]; at[0] += 1
                    if w > 0 and fill not in ('0', ' '): raise Unsupported('padding')
                    if need is None:
                        if n or (w > 1 and fill == ' '): raise Unsupported('number')
                        acc = v; n = 1; break
                    k = need - n
                    if not (w == k and fill == '0'): cs += [v >= (10 ** (k - 1) if k > 1 else 0), v < 10 ** k]
                    elif n: cs += [v >= 0, v < 10 ** k]
                    acc = acc * 10 ** k + v; n = need
                elif t[0] == 'end': cs.append(False); return 0, cs
                else: raise Unsupported('number')
            return acc, cs
        r = []
        for e in seq:
            t = peek()
            if e == '?':
                n = 0
                while lit(peek()) and not chr(peek()[1] % 256) in '0123456789.-+': at[0] += 1; n += 1
                if not n:
                    if lit(t) or t[0] == 'end': r.append(('separator', False)); return r
                    raise Unsupported('separator')
            elif isinstance(e, tuple):
                b = ord(e[1]) if e[0] == 'lit' else e[1]
                at[0] += 1
                if t[0] == 'chr': r.append(('delimiter', t[1] == b))
                elif t[0] == 'end': r.append(('delimiter', False)); return r
                else: raise Unsupported('separator')
            elif e == 'x':
                need = {'hmfs': 6}.get(kind[:4])
                if t[0] == 'fix':
                    at[0] += 1
                    dec = 10 ** t[2]
                    if need and t[2] != need: r.append(('number of decimals', False)); return r
                    if dec % f: raise Unsupported('too few decimals')
                    if t[3] > 0 and t[4] != '0': raise Unsupported('padding')
                    x = rz(rterm(t[1])); K = toreal(mk_mul(fmod(i.t, 60 * f), dec // f))
                    r.append(('seconds', And(2 * (x * dec - K) < 1, 2 * (K - x * dec) < 1)))
                else:
                    w, cs = number(None)
                    if not need or peek()[0] != 'chr': raise Unsupported('decimal seconds')
                    r.append(('decimal point', peek()[1] == 46)); at[0] += 1
                    q, cs2 = number(need)
                    r.append(('seconds', And(cs + cs2 + [mk_add(mk_mul(w, 10 ** need), q) == mk_mul(fmod(i.t, 60 * f), 10 ** need // f)])))
            else:
                v, cs = number(None if kind == 'str' else pad[e])
                r.append((nm[e], And(cs + [v == val[e]])))
        if peek()[0] != 'end': r.append(('nothing after the seconds', False))
        return r
    return p


Y4 = lambda: YEAR('y', 0, 9999)
D4 = lambda: V('mjd', DFCx(0, 1, 1), DFCx(9999, 12, 31), 'mjd')


def civ(i): i.y, i.m, i.d = civil(i.mjd)


def tgen(S):
    f = FAC[S]
    def g(i, r):
        k = r.random()
        if k < .25: i.t = r.choice([60, 3600, 1]) * f * r.randint(1, 23) - 1
        elif k < .5: i.t = r.randint(0, 23) * 3600 * f + r.randint(0, 59) * 60 * f + 60 * f - r.randint(1, min(f, 5) if f > 1 else 1)
    return g


for S in T3:
    base = dict(ghosts=[Y4(), MON(), DOM()], facts=lambda i, X: i.mjd == X.dfc(i.y, i.m, i.d), native=civ, text=True, uses=('to_ymd',), props=('C25',), gen=tgen(S))
    for k in ('hmfs', 'hms'):
        C(f'strftime_ymd_{k}<{FULL[S]}>', f't_{k}_{S}', [D4(), V('t', 0, DAY[S] - 1, 'tod'), V('delim', -128, 127)], lambda i: And(vd(i), Not(i.delim == 0)), text_post(k, S), **base)
        C(f'strftime_ymd_{k}<{FULL[S]}> default delimiter', f't_{k}0_{S}', [D4(), V('t', 0, DAY[S] - 1, 'tod')], vd, text_post(k + '0', S), **base)
    C(f'datetime<{FULL[S]}>::stringify', f't_str_{S}', [D4(), V('t', 0, DAY[S] - 1, 'tod')], vd, text_post('str', S), **base)

# ------------------------------------------------------------ C26
for S in T3:
    C(f'datetime<{FULL[S]}> formatted and read back', f'e_rt_fmt_{S}', [D4(), V('t', 0, DAY[S] - 1, 'tod'), V('delim', -128, 127, sample=lambda r: r.choice([ord(c) for c in '-/ :.,_T+x\t']))],
      lambda i: And(vd(i), Not(i.delim == 0), Or(i.delim < 48, i.delim > 57)),
      lambda i, o, X: [('same day', o.day == i.mjd), ('same time, every tick', o.t == i.t)], ghosts=[Y4(), MON(), DOM()],
      facts=lambda i, X: i.mjd == X.dfc(i.y, i.m, i.d), native=civ, outs=['day', 't'], uses=('to_ymd', 'cal2mjd', 'S_hmf'), props=('C26',), gen=tgen(S))
