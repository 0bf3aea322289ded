"""Formatted text in character buffers, more of std::string, and small C library
functions.  As in lib.py, these are trusted models of what the C and C++ standards say."""
import re
from fractions import Fraction
import z3
import smt
import lib
from lib import L, S, ret, sget, sput, key, cstrlen, decimal_value, split_args, chlow, ffun
from ir import *
from sym import *
from dual import And, Or, Not, If, Implies

# ---------------------------------------------------------------- tokens <-> characters


def ndigits(v):
    """number of decimal digits of v >= 0"""
    if isinstance(v, int): return len(str(v))
    l, h = iv(v)
    top = len(str(h)) if h is not None and h >= 0 else 19
    low = len(str(l)) if l is not None and l >= 0 else 1
    r = top
    for k in range(top - 1, low - 1, -1): r = mk_ite(mk_cmp('<', v, 10 ** k), k, r)
    return r


def mx(a, b): return max(a, b) if isinstance(a, int) and isinstance(b, int) else mk_ite(mk_cmp('>=', a, b), a, b)


def toklen(m, st, t):
    """number of characters of a token"""
    if t[0] == 'lit': return len(t[1])
    if t[0] == 'chr': return 1
    if t[0] == 'cstr': return mk_sub(m.objs[t[1]].extra['len'], t[2])
    if t[0] == 'int':
        v = t[1]
        if isinstance(v, int): n = len(str(v))
        else:
            l, h = iv(v)
            if l is not None and l >= 0: n = ndigits(v)
            else:
                a = setiv(z3.If(v >= 0, v, -v), 0, max(abs(l), abs(h)) if l is not None and h is not None else 1 << 63)
                n = mk_add(ndigits(a), mk_ite(mk_cmp('<', v, 0), 1, 0))
        return mx(n, t[2])
    if t[0] == 'fix':
        r, p = t[1], t[2]
        if isinstance(r, float): return max(t[3], len('%.*f' % (p, r)))
        f, k = decimal_value(m, st, r, p)
        a = mk_ite(mk_cmp('>=', k, 0), k, mk_sub(0, k))
        if not m.proves(st, rz(rterm(r)) >= 0): raise Unsupported('length of a negative decimal number')
        b = int((r.b if r.b is not None else Fraction(2) ** 63)) + 1
        n = len(str(b))
        x = n
        for q in range(n - 1, 0, -1): x = mk_ite(mk_cmp('<', a, 10 ** (p + q)), q, x)
        return mx(mk_add(x, p + 1 if p else 0), t[3])
    raise Unsupported('length of this text')


def length(m, st, toks):
    n = 0
    for t in toks: n = mk_add(n, toklen(m, st, t))
    return n


PROV = lib.PROV


def chars(m, st, t):
    """the characters of a token of fixed width, or None"""
    if t[0] == 'lit': return [ord(c) if ord(c) < 128 else ord(c) - 256 for c in t[1]]
    if t[0] == 'chr': return [t[1]]
    if t[0] == 'int':
        v, w, fill = t[1], t[2], t[3]
        if isinstance(v, int): return [ord(c) for c in str(v).rjust(w, fill) if True] if not (v < 0 and fill == '0') else None
        l, h = iv(v)
        if l is not None and h is not None and 0 <= l and len(str(l)) == len(str(h)) and len(str(h)) >= w: w = len(str(h))
        elif not (w > 0 and fill == '0' and m.proves(st, And(v >= 0, v < 10 ** w))): return None
        out = []
        for k in range(w):
            d = mk_fdiv(v, 10 ** (w - 1 - k))
            if k: d = mk_fmod(d, 10)
            if isinstance(d, int): out.append(48 + d); continue
            c = m.fresh('dg', 48, 57, st)
            st.assume(c == d + 48)
            PROV[c.get_id()] = (c, t, k, w)
            out.append(c)
        return out
    if t[0] == 'fix':
        r, p, w, fill = t[1:5]
        if isinstance(r, float): return [ord(c) for c in ('%.*f' % (p, r)).rjust(w, fill)] if not (r < 0 and fill == '0') else None
        q = w - p - 1
        if not (p > 0 and q > 0 and fill == '0'): return None
        x = rz(rterm(r))
        if not m.proves(st, And(x >= 0, x < rz(Fraction(10 ** q) - Fraction(1, 2 * 10 ** p)))): return None
        out = []
        for k in range(w):
            if k == q: out.append(46); continue
            c = m.fresh('dg', 48, 57, st)
            PROV[c.get_id()] = (c, t, k, w)
            out.append(c)
        st.ev.append(('abstract',))
        return out
    return None


class Tail:
    """text of varying length inside a character buffer, up to its NUL"""
    __slots__ = ('toks', 'first')
    def __init__(s, toks, first): s.toks, s.first = toks, first


lib.Tail = Tail
lib.length = length


def expand(m, st, toks):
    out = []
    for k, t in enumerate(toks):
        cs = chars(m, st, t)
        if cs is None: return out, tuple(toks[k:])
        out += cs
    return out, ()


def put_text(m, st, dst, toks, cap=None):
    """write a text and its NUL to dst; cap: size given to snprintf"""
    if not isinstance(dst, Ptr) or dst.obj is None:
        m.oblige(st, False, 'null dereference'); raise PathEnd()
    if not isinstance(dst.off, int): raise Unsupported('text written at symbolic offset')
    o = m.deref(st, dst, 1, 'write')
    cs, tail = expand(m, st, toks)
    n = len(cs) if not tail else mk_add(len(cs), length(m, st, tail))
    if o.size is None: raise Unsupported('text written to an object of unknown size')
    room = o.size - dst.off
    out = []
    fits = True if cap is None else mk_cmp('<', n, cap)
    if cap is None or cap > room: m.oblige(st, mk_cmp('<', n, room), 'write out of bounds', o.name)
    for s, b in m.branch(st, fits):
        if b:
            for k, c in enumerate(cs): m.storecell(s, o, dst.off + k, 1, c)
            if not tail: m.storecell(s, o, dst.off + len(cs), 1, 0)
            else:
                for k in range(len(cs), room if cap is None else min(room, cap)): m.storecell(s, o, dst.off + k, 1, Tail(tail, k == len(cs)))
        else:
            if len(cs) < cap - 1: raise Unsupported('text cut inside a number')
            if cap > 0:
                for k in range(cap - 1): m.storecell(s, o, dst.off + k, 1, cs[k])
                m.storecell(s, o, dst.off + cap - 1, 1, 0)
        out.append((s, n))
    return out


SPEC = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d*))?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%])')


def format_toks(m, st, fp, args):
    """printf format -> list of (state, tokens)"""
    fs = lib.cstoks(m, st, fp)
    if len(fs) != 1: raise Unsupported('format string')
    st, ft = fs[0]
    if any(t[0] != 'lit' for t in ft): raise Unsupported('format string')
    f = ''.join(t[1] for t in ft)
    args = list(args)
    cur = [(st, ())]
    pos = 0

    def arg():
        if not args:
            m.oblige(cur[0][0], False, 'missing argument for the format'); raise PathEnd()
        return args.pop(0)
    for g in SPEC.finditer(f):
        if '%' in f[pos:g.start()]: raise Unsupported('format ' + f)
        pre = f[pos:g.start()]; pos = g.end()
        cur = [(s, tk + (('lit', pre),)) for s, tk in cur]
        fl, w, p, ln, cv = g.groups()
        if cv == '%': cur = [(s, tk + (('lit', '%'),)) for s, tk in cur]; continue
        if any(c in fl for c in '-+ #'): raise Unsupported('format flag')
        if w == '*': w = m.intval(cur[0][0], arg())
        if p == '*': p = m.intval(cur[0][0], arg())
        w = int(w) if w is not None and not isinstance(w, z3.ExprRef) else (0 if w is None else None)
        p = None if p is None else (int(p or 0) if not isinstance(p, z3.ExprRef) else -1)
        if w is None or p == -1: raise Unsupported('symbolic field width')
        fill = '0' if '0' in fl else ' '
        a = arg()
        nxt = []
        for s, tk in cur:
            if cv in 'diu':
                v = m.intval(s, a)
                bits = 64 if ln in ('l', 'll', 'z', 'j', 't') else 32
                v = m.wrap(s, v, 8 if ln == 'hh' else 16 if ln == 'h' else bits)
                if cv == 'u': v = m.uns(v, bits)
                if p is not None:
                    if p and w > p: raise Unsupported('precision and width of an integer')
                    if p: w, fill = p, '0'
                if fill == '0' and w and not m.proves(s, mk_cmp('>=', v, 0)):
                    for s2, b in m.branch(s, mk_cmp('>=', v, 0)):
                        if b: nxt.append((s2, tk + (('int', v, w, fill),)))
                        else: raise Unsupported('negative zero-padded number')
                    continue
                nxt.append((s, tk + (('int', v, w, fill),)))
            elif cv == 'c':
                if w > 1: raise Unsupported('padded text')
                v = m.wrap(s, m.intval(s, a), 8)
                if not m.proves(s, mk_cmp('!=', v, 0)): raise Unsupported('NUL character in a format')
                nxt.append((s, tk + (('chr', v),)))
            elif cv == 's':
                if w or p is not None: raise Unsupported('padded text')
                for s2, t in lib.cstoks(m, s, a): nxt.append((s2, tk + tuple(t)))
            elif cv in 'fF':
                nxt.append((s, tk + (('fix', a, 6 if p is None else p, w, fill),)))
            else: raise Unsupported('format conversion %' + cv)
        cur = nxt
    if '%' in f[pos:]: raise Unsupported('format ' + f)
    return [(s, lib.norm(tk + (('lit', f[pos:]),))) for s, tk in cur]


def cint(m, st, n):
    """return value of the printf family: an int"""
    return m.ranged(st, n, 32, 'length of the text') if not isinstance(n, int) else n


@L.name('sprintf')
def _(m, st, a, rt, dem):
    out = []
    for s, tk in format_toks(m, st, a[1], a[2:]):
        for s2, n in put_text(m, s, a[0], tk): out.append((s2, ('ret', cint(m, s2, n))))
    return out


@L.name('snprintf')
def _(m, st, a, rt, dem):
    cap = m.intval(st, a[1])
    if not isinstance(cap, int): raise Unsupported('snprintf of symbolic size')
    cap = m.uns(cap, 64)
    out = []
    for s, tk in format_toks(m, st, a[2], a[3:]):
        if cap == 0: out.append((s, ('ret', cint(m, s, length(m, s, tk))))); continue
        for s2, n in put_text(m, s, a[0], tk, cap): out.append((s2, ('ret', cint(m, s2, n))))
    return out


@L.name('strcpy', 'stpcpy')
def _(m, st, a, rt, dem):
    out = []
    for s, tk in lib.cstoks(m, st, a[1]):
        for s2, n in put_text(m, s, a[0], tk):
            out.append((s2, ('ret', a[0])))
    return out


@L.name('strcat')
def _(m, st, a, rt, dem):
    out = []
    for s, n in cstrlen(m, st, a[0]):
        if not isinstance(n, int): raise Unsupported('strcat after text of varying length')
        for s1, tk in lib.cstoks(m, s, a[1]):
            for s2, k in put_text(m, s1, Ptr(a[0].obj, a[0].off + n), tk): out.append((s2, ('ret', a[0])))
    return out


@L.name('strchr')
def _(m, st, a, rt, dem):
    c = m.intval(st, a[1])
    out, cur = [], [st]
    k = 0
    while cur:
        nxt = []
        for s in cur:
            p = m.gep(s, I8, a[0], [(I64, k)], False)
            x = m.intval(s, m.load(s, I8, p))
            for s2, b in m.branch(s, mk_cmp('==', x, c)):
                if b: out.append((s2, ('ret', p))); continue
                for s3, z in m.branch(s2, mk_cmp('==', x, 0)):
                    if z: out.append((s3, ('ret', NULL)))
                    else: nxt.append(s3)
        cur = nxt; k += 1
        if k > 200: raise Unsupported('search in a long string')
    return out


@L.name('memcmp')
def _(m, st, a, rt, dem):
    n = m.intval(st, a[2])
    if not isinstance(n, int): raise Unsupported('memcmp of symbolic size')
    cur, res = [st], []
    for k in range(n):
        nxt = []
        for s in cur:
            x = m.uns(m.intval(s, m.load(s, I8, m.gep(s, I8, a[0], [(I64, k)], False))), 8)
            y = m.uns(m.intval(s, m.load(s, I8, m.gep(s, I8, a[1], [(I64, k)], False))), 8)
            for s2, b in m.branch(s, mk_cmp('==', x, y)):
                if b: nxt.append(s2); continue
                v = m.fresh('cmp', -255, 255, s2)
                s2.assume(And(v != 0, Implies(mk_cmp('<', x, y), v < 0), Implies(mk_cmp('>', x, y), v > 0)))
                res.append((s2, ('ret', v)))
        cur = nxt
    return res + [(s, ('ret', 0)) for s in cur]


# ---------------------------------------------------------------- numbers

@ffun('fmod')
def _(m, st, a, rt, dem):
    import math
    x, y = a
    if isinstance(y, F): raise Unsupported('fmod by a variable')
    if y == 0 or y != y or abs(y) == float('inf'): raise Unsupported('fmod by this constant')
    if isinstance(x, float): return ret(st, math.fmod(x, y))
    Y = abs(Fraction(y))
    if x.i is not None and Y.denominator == 1:
        v = x.i
        q = int(Y)
        r = mk_ite(mk_cmp('>=', v, 0), mk_fmod(v, q), mk_sub(0, mk_fmod(mk_sub(0, v), q)))
        setiv(r, -(q - 1), q - 1)
        return ret(st, F(toreal(r), r, Y))
    k = m.fresh('fmodq')
    r = x.r - toreal(k) * rz(Y)
    st.assume(z3.If(x.r >= 0, z3.And(r >= 0, r < rz(Y), k >= 0), z3.And(r <= 0, -r < rz(Y), k <= 0)))
    if x.b is not None: B = int(x.b / Y) + 1; setiv(k, -B, B); st.assume(z3.And(k >= -B, k <= B))
    return ret(st, F(r, None, Y))


@ffun('pow')
def _(m, st, a, rt, dem):
    x, y = a
    if not (isinstance(x, float) and isinstance(y, float)): raise Unsupported('pow of a variable')
    if y == int(y) and x == int(x) and 0 <= y <= 22 and abs(x ** y) < 2 ** 53: return ret(st, float(int(x) ** int(y)))
    raise Unsupported('pow')


def fsel(n, op):
    @ffun(n)
    def _(m, st, a, rt, dem):
        x, y = a
        if isinstance(x, float) and isinstance(y, float): return ret(st, (min if n in ('fmin', 'minnum') else max)(x, y))
        for v in a:
            if isinstance(v, float) and (v != v or abs(v) == float('inf')): raise Unsupported(n)
        out = []
        p, q = rz(rterm(x)), rz(rterm(y))
        for s, b in m.branch(st, p <= q if op == '<' else p >= q): out.append((s, ('ret', x if b else y)))
        return out


for _n, _o in (('fmin', '<'), ('fmax', '>'), ('minnum', '<'), ('maxnum', '>')): fsel(_n, _o)


@ffun('copysign')
def _(m, st, a, rt, dem):
    import math
    x, y = a
    if isinstance(x, float) and isinstance(y, float): return ret(st, math.copysign(x, y))
    if isinstance(y, float): neg = math.copysign(1, y) < 0
    else: neg = None
    ax = abs(x) if isinstance(x, float) else F(z3.If(x.r >= 0, x.r, -x.r), None if x.i is None else mk_ite(mk_cmp('>=', x.i, 0), x.i, mk_sub(0, x.i)), x.b)
    nx = -ax if isinstance(ax, float) else F(-ax.r, None if ax.i is None else mk_sub(0, ax.i), ax.b)
    if neg is not None: return ret(st, nx if neg else ax)
    if m.proves(st, y.r != 0) is False: raise Unsupported('copysign from a possibly zero number')
    return [(s, ('ret', nx if b else ax)) for s, b in m.branch(st, y.r < 0)]


def tdivmod(m, st, x, y, w):
    x, y = m.intval(st, x), m.intval(st, y)
    m.oblige(st, mk_cmp('!=', y, 0), 'division by zero')
    if not isinstance(y, int) or y <= 0: raise Unsupported('div by a variable')
    if isinstance(x, int):
        q = abs(x) // y * (1 if x >= 0 else -1); return q, x - q * y
    q = mk_ite(mk_cmp('>=', x, 0), mk_fdiv(x, y), mk_sub(0, mk_fdiv(mk_sub(0, x), y)))
    r = mk_ite(mk_cmp('>=', x, 0), mk_fmod(x, y), mk_sub(0, mk_fmod(mk_sub(0, x), y)))
    return q, r


@L.name('ldiv', 'lldiv', 'imaxdiv')
def _(m, st, a, rt, dem): return ret(st, Agg(list(tdivmod(m, st, a[0], a[1], 64))))


@L.name('div')
def _(m, st, a, rt, dem):
    q, r = tdivmod(m, st, a[0], a[1], 32)
    return ret(st, Cat([(0, 4, q), (4, 4, r)], 8))


# ---------------------------------------------------------------- heap

@L.name('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t')
def _(m, st, a, rt, dem):
    n = m.intval(st, a[0])
    if not isinstance(n, int): raise Unsupported('allocation of symbolic size')
    o = m.newobj('heap', n, 'heap'); st.mem[o.id] = {}
    return ret(st, Ptr(o.id, 0))


@L.name('calloc')
def _(m, st, a, rt, dem):
    n, k = m.intval(st, a[0]), m.intval(st, a[1])
    if not isinstance(n, int) or not isinstance(k, int): raise Unsupported('allocation of symbolic size')
    o = m.newobj('heap', n * k, 'heap'); st.mem[o.id] = {q: (1, 0) for q in range(n * k)} if k == 1 else {q * k: (k, 0) for q in range(n)}
    return ret(st, Ptr(o.id, 0))


@L.name('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def _(m, st, a, rt, dem):
    p = a[0]
    if isinstance(p, Ptr) and p.obj is None: return ret(st)
    if not isinstance(p, Ptr) or p.obj not in m.objs: raise Unsupported('free of this pointer')
    o = m.objs[p.obj]
    m.oblige(st, o.kind == 'heap' and isinstance(p.off, int) and p.off == 0 and ('freed', p.obj) not in st.ab, 'free of a pointer that is not an allocation', o.name)
    st.ab[('freed', p.obj)] = ('freed',)
    return ret(st)


# ---------------------------------------------------------------- std::string, continued

def mat(m, st, p):
    """materialise a string as characters in memory -> (object id, length)"""
    v = st.ab.get(key(p))
    if v is not None and v[0] == 'strbuf': return v[1], v[2]
    toks = sget(m, st, p)
    cs, tail = expand(m, st, toks)
    if tail: raise Unsupported('characters of a text of varying length')
    o = m.newobj('string contents', len(cs) + 1, 'heap')
    st.mem[o.id] = {k: (1, c) for k, c in enumerate(cs)}
    st.mem[o.id][len(cs)] = (1, 0)
    st.ab[key(p)] = ('strbuf', o.id, len(cs))
    return o.id, len(cs)


def concrete(m, st, v, what):
    v = m.intval(st, v)
    if not isinstance(v, int): raise Unsupported(what)
    return m.uns(v, 64)


@L.dem(S + r'::(size|length)\(\)')
def _(m, st, a, rt, dem): return ret(st, length(m, st, sget(m, st, a[0])))


@L.dem(S + r'::empty\(\)')
def _(m, st, a, rt, dem): return ret(st, mk_cmp('==', length(m, st, sget(m, st, a[0])), 0))


@L.dem(S + r'::operator\[\]\(unsigned long\)')
def _(m, st, a, rt, dem):
    o, n = mat(m, st, a[0])
    k = m.intval(st, a[1])
    m.oblige(st, And(mk_cmp('>=', k, 0), mk_cmp('<=', k, n)), 'string index out of bounds')
    return ret(st, Ptr(o, k))


@L.dem(S + r'::at\(unsigned long\)')
def _(m, st, a, rt, dem):
    o, n = mat(m, st, a[0])
    k = m.intval(st, a[1])
    out = []
    for s, b in m.branch(st, And(mk_cmp('>=', k, 0), mk_cmp('<', k, n))):
        out.append((s, ('ret', Ptr(o, k)) if b else ('throw', '@_ZTISt12out_of_range')))
    return out


@L.dem(S + r'::(front|back|begin|cbegin|end|cend)\(\)')
def _(m, st, a, rt, dem):
    o, n = mat(m, st, a[0])
    w = re.search(r'::(front|back|begin|cbegin|end|cend)\(\)', dem)[1]
    if w in ('front', 'back'): m.oblige(st, n > 0, 'front or back of an empty string')
    return ret(st, Ptr(o, {'front': 0, 'begin': 0, 'cbegin': 0, 'back': n - 1}.get(w, n)))


def sub(m, st, p, pos, n):
    """characters [pos, pos+n) as tokens"""
    cs, tail = expand(m, st, sget(m, st, p))
    if tail and pos + n > len(cs): raise Unsupported('part of a text of varying length')
    return tuple(('chr', c) for c in cs[pos:pos + n])


@L.dem(S + r'::substr\(unsigned long, unsigned long\)')
def _(m, st, a, rt, dem):
    pos, n = concrete(m, st, a[2], 'substr'), concrete(m, st, a[3], 'substr')
    toks = sget(m, st, a[1])
    cs, tail = expand(m, st, toks)
    if not tail:
        if pos > len(cs): return [(st, ('throw', '@_ZTISt12out_of_range'))]
        sput(m, st, a[0], tuple(('chr', c) for c in cs[pos:pos + n])); return ret(st)
    if pos == 0 and n >= 2 ** 63: sput(m, st, a[0], toks); return ret(st)
    if pos + n <= len(cs): sput(m, st, a[0], tuple(('chr', c) for c in cs[pos:pos + n])); return ret(st)
    if pos <= len(cs) and n >= 2 ** 63: sput(m, st, a[0], tuple(('chr', c) for c in cs[pos:]) + tail); return ret(st)
    raise Unsupported('part of a text of varying length')


@L.dem(S + r'::erase\(unsigned long, unsigned long\)')
def _(m, st, a, rt, dem):
    pos, n = concrete(m, st, a[1], 'erase'), concrete(m, st, a[2], 'erase')
    cs, tail = expand(m, st, sget(m, st, a[0]))
    if pos > len(cs) or (tail and pos + n > len(cs)):
        if tail: raise Unsupported('part of a text of varying length')
        return [(st, ('throw', '@_ZTISt12out_of_range'))]
    sput(m, st, a[0], tuple(('chr', c) for c in cs[:pos] + cs[pos + n:]) + tail); return ret(st, a[0])


def same_texts(m, sts):
    """Paths about to be joined: write texts that only differ in how their padding came about
    (zeros in front of a number, or a number with a minimal width) the same way."""
    s0 = sts[0]
    if any(set(s.ab) != set(s0.ab) for s in sts): return
    new = []
    for k in s0.ab:
        vs = [s.ab[k] for s in sts]
        if all(v == vs[0] for v in vs): continue
        if any(v[0] != 'str' for v in vs): return
        ts = [zeros(m, s, v[1]) for s, v in zip(sts, vs)]
        if any(len(t) != len(ts[0]) for t in ts): return
        out = []
        for q in range(len(ts[0])):
            col = [t[q] for t in ts]
            if all(c == col[0] for c in col): out.append(col[0]); continue
            if any(c[0] != 'int' or isinstance(c[1], int) != isinstance(col[0][1], int) or not (c[1] is col[0][1] or (isinstance(c[1], z3.ExprRef) and c[1].eq(col[0][1]))) for c in col): return
            w = max(c[2] for c in col)
            for s, c in zip(sts, col):
                if c[2] == w and c[3] == '0': continue
                if not m.proves(s, And(mk_cmp('>=', c[1], 0), mk_cmp('>=', toklen(m, s, c[:2] + (0, '0')), w))): return
            out.append(('int', col[0][1], w, '0'))
        new.append((k, tuple(out)))
    for k, t in new:
        for s in sts: s.ab[k] = ('str', t)


L.same_texts = same_texts


def zeros(m, st, toks):
    """zeros in front of a number of known length: the number zero-padded"""
    out = []
    for t in toks:
        if t[0] == 'int' and out and out[-1][0] == 'lit' and out[-1][1].endswith('0') and isinstance(t[1], z3.ExprRef) and (t[2] == 0 or t[3] == '0'):
            z = len(out[-1][1]) - len(out[-1][1].rstrip('0'))
            n = toklen(m, st, t)
            if not isinstance(n, int):
                r, md = smt.check(st.pc, 2000)
                n_ = md.eval(n, model_completion=True) if r == 'sat' else None
                n_ = n_.as_long() if n_ is not None and z3.is_int_value(n_) else None
                n = n_ if n_ is not None and m.proves(st, mk_cmp('==', n, n_)) else None
            if n is not None and m.proves(st, mk_cmp('>=', t[1], 0)):
                if z == len(out[-1][1]): out.pop()
                else: out[-1] = ('lit', out[-1][1][:-z])
                t = ('int', t[1], n + z, '0')
        out.append(t)
    return tuple(out)


def padded(m, st, n, c, toks):
    """n zeros before a number of at least 0: the number zero-padded, if the whole has a fixed length"""
    if isinstance(n, int) or c != 48 or len(toks) != 1 or toks[0][0] != 'int' or toks[0][2] > 0: return None
    v = toks[0][1]
    if isinstance(v, int) or not m.proves(st, And(mk_cmp('>=', v, 0), mk_cmp('>=', n, 0))): return None
    tot = mk_add(n, toklen(m, st, toks[0]))
    r, md = smt.check(st.pc, 2000)
    if r != 'sat': return None
    w = tot if isinstance(tot, int) else md.eval(tot, model_completion=True)
    w = w if isinstance(w, int) else w.as_long() if z3.is_int_value(w) else None
    if w is None or not 0 < w < 30 or not m.proves(st, mk_cmp('==', tot, w)): return None
    return (('int', v, w, '0'),)


@L.dem(S + r'::insert\(unsigned long, (char const\*|unsigned long, char|' + S + r' const&)\)')
def _(m, st, a, rt, dem):
    pos = concrete(m, st, a[1], 'insert')
    toks = sget(m, st, a[0])
    if pos == 0: pre, post = (), toks
    else:
        cs, tail = expand(m, st, toks)
        if pos > len(cs):
            if tail: raise Unsupported('part of a text of varying length')
            return [(st, ('throw', '@_ZTISt12out_of_range'))]
        pre, post = tuple(('chr', c) for c in cs[:pos]), tuple(('chr', c) for c in cs[pos:]) + tail
    if 'unsigned long, char)' in dem:
        n, c = m.uns(m.intval(st, a[2]), 64), m.intval(st, a[3])
        if isinstance(n, int) and n > 4096: return [(st, ('throw', '@_ZTISt12length_error'))]
        w = padded(m, st, n, c, post) if not pre else None
        if w is not None: post, new = w, [(st, ())]
        else: new = [(s, (('chr', c),) * k) for s, k in lib.copies(m, st, n)]
    elif 'char const*' in dem: new = lib.cstoks(m, st, a[2])
    else: new = [(st, sget(m, st, a[2]))]
    for s, t in new: sput(m, s, a[0], pre + tuple(t) + post)
    return [(s, ('ret', a[0])) for s, t in new]


@L.dem(S + r'::(append|assign)\(char const\*, unsigned long\)', S + r'::basic_string(<.*>)?\(char const\*, unsigned long, std::allocator<char> const&\)')
def _(m, st, a, rt, dem):
    ctor, app = '::basic_string' in dem.rsplit('(char const*', 1)[0][-30:], '::append(' in dem
    return strn(m, st, a[0], a[1], a[2], app, None if ctor else a[0])


def strn(m, st, to, p, n, app, res):
    """n characters at p into (or onto) a string"""
    n = m.intval(st, n)
    old = sget(m, st, to) if app else ()
    if isinstance(n, int):
        n = m.uns(n, 64)
        if n > 4096: raise Unsupported('long text')
        t = []
        for k in range(n):
            x = m.load(st, I8, m.gep(st, I8, p, [(I64, k)], False))
            t.append(('chr', m.intval(st, x)))
        sput(m, st, to, old + tuple(t)); return ret(st, res)
    out = []
    for s, t in lib.cstoks(m, st, p):
        if not m.proves(s, mk_cmp('==', n, length(m, s, t))): raise Unsupported('text of symbolic length')
        sput(m, s, to, old + tuple(t)); out.append((s, ('ret', res)))
    return out


@L.dem(S + r'::assign\(' + S + r' ?(const&|&&)\)')
def _(m, st, a, rt, dem): sput(m, st, a[0], sget(m, st, a[1])); return ret(st, a[0])


@L.dem(S + r'::assign\(char const\*\)')
def _(m, st, a, rt, dem):
    out = []
    for s, t in lib.cstoks(m, st, a[1]): sput(m, s, a[0], t); out.append((s, ('ret', a[0])))
    return out


@L.dem(S + r'::assign\(unsigned long, char\)')
def _(m, st, a, rt, dem):
    c, out = m.intval(st, a[2]), []
    for s, n in lib.copies(m, st, a[1]): sput(m, s, a[0], (('chr', c),) * n); out.append((s, ('ret', a[0])))
    return out


@L.dem(S + r'::operator=\(char\)')
def _(m, st, a, rt, dem): sput(m, st, a[0], (('chr', m.intval(st, a[1])),)); return ret(st, a[0])


@L.dem(S + r'::(clear)\(\)')
def _(m, st, a, rt, dem): sput(m, st, a[0], ()); return ret(st)


@L.dem(S + r'::pop_back\(\)')
def _(m, st, a, rt, dem):
    cs, tail = expand(m, st, sget(m, st, a[0]))
    if tail: raise Unsupported('part of a text of varying length')
    m.oblige(st, len(cs) > 0, 'pop_back of an empty string')
    sput(m, st, a[0], tuple(('chr', c) for c in cs[:-1])); return ret(st)


@L.dem(S + r'::resize\(unsigned long(, char)?\)')
def _(m, st, a, rt, dem):
    n = concrete(m, st, a[1], 'resize')
    if n > 4096: raise Unsupported('long text')
    c = m.intval(st, a[2]) if len(a) > 2 else 0
    cs, tail = expand(m, st, sget(m, st, a[0]))
    if tail and n > len(cs): raise Unsupported('part of a text of varying length')
    cs = cs[:n] + [c] * (n - len(cs))
    sput(m, st, a[0], tuple(('chr', x) for x in cs)); return ret(st)


# std::string_view itself is header code and is executed; these three sit in the library
@L.dem(S + r'::_S_to_string_view\(')
def _(m, st, a, rt, dem): return ret(st, Agg([a[0], a[1]]))


@L.dem(S + r'::__sv_wrapper::__sv_wrapper\(')
def _(m, st, a, rt, dem):
    m.store(st, I64, a[1], a[0]); m.store(st, PTR, a[2], Ptr(a[0].obj, mk_add(a[0].off, 8))); return ret(st)


@L.dem(S + r'::operator std::basic_string_view<char, std::char_traits<char> ?>\(\)')
def _(m, st, a, rt, dem):
    o, n = mat(m, st, a[0])
    return ret(st, Agg([n, Ptr(o, 0)]))


@L.dem(S + r'::basic_string\(' + S + r'::__sv_wrapper, std::allocator<char> const&\)')
def _(m, st, a, rt, dem): return strn(m, st, a[0], a[2], a[1], False, None)


@L.dem(S + r'::swap\(' + S + r' ?&\)')
def _(m, st, a, rt, dem):
    x, y = sget(m, st, a[0]), sget(m, st, a[1])
    sput(m, st, a[0], y); sput(m, st, a[1], x); return ret(st)


@L.dem(S + r'::compare\((' + S + r' const&|char const\*)\)')
def _(m, st, a, rt, dem):
    x, t1 = expand(m, st, sget(m, st, a[0]))
    if t1: raise Unsupported('comparison of a text of varying length')
    if 'compare(char const*)' in dem: other = lib.cstoks(m, st, a[1])
    else: other = [(st, sget(m, st, a[1]))]
    res = []
    for s, t in other:
        y, t2 = expand(m, s, t)
        if t2: raise Unsupported('comparison of a text of varying length')
        cur = [s]
        for k in range(min(len(x), len(y))):
            nxt = []
            for q in cur:
                p, r = m.uns(x[k], 8), m.uns(y[k], 8)
                for q2, b in m.branch(q, mk_cmp('==', p, r)):
                    if b: nxt.append(q2); continue
                    v = m.fresh('cmp', -255, 255, q2)
                    q2.assume(And(v != 0, Implies(mk_cmp('<', p, r), v < 0), Implies(mk_cmp('>', p, r), v > 0)))
                    res.append((q2, ('ret', v)))
            cur = nxt
        res += [(q, ('ret', len(x) - len(y))) for q in cur]
    return res
