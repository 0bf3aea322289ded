"""Cross-check of the generator against the machine: an entry is executed by the generator on the
input of a native run, callees in place, and the outcome that the processor produced must be one of
the outcomes the generator allows (the obligations cover a superset of the real behaviour)."""
import ctypes, time, math
from fractions import Fraction
import z3, smt
import sym as symx
from ir import *
from sym import *
from lib import L, SV, SE, SR, DV, DK, DE, DR
import core, fmt
from core import NS, prelude, exc_name, ERRS


def string_facts(m, st, b):
    """the string and what the C library reads at each of its positions"""
    from text import libc
    o = m.newobj('str', None, 'cstr')
    f = z3.Function('char', z3.IntSort(), z3.IntSort())
    n = len(b)
    o.extra = {'len': z3.IntVal(n), 'ch': f}
    for k in range(n): st.assume(f(z3.IntVal(k)) == (b[k] - 256 if b[k] > 127 else b[k]))
    st.assume(f(z3.IntVal(n)) == 0)
    buf = ctypes.create_string_buffer(b, n + 1); a = ctypes.addressof(buf)
    for p in range(n + 1):
        P = z3.IntVal(p); e = ctypes.c_void_p(0)
        ctypes.set_errno(0); v = libc.strtol(a + p, ctypes.byref(e), 10)
        st.assume(z3.And(SV(P) == v, SE(P) == e.value - a, SR(P) == (ctypes.get_errno() == 34)))
        ctypes.set_errno(0); v = libc.strtod(a + p, ctypes.byref(e))
        k = 3 if v != v else 1 if v == math.inf else 2 if v == -math.inf else 0
        st.assume(z3.And(DE(P) == e.value - a, DK(P) == k, DR(P) == (ctypes.get_errno() == 34)))
        if k == 0: st.assume(DV(P) == rz(Fraction(v)))
    return o


def render(m, s, toks, mod):
    """the text of a sequence of tokens -> str or None when it is not determined"""
    def val(x):
        if not isinstance(x, z3.ExprRef): return x
        r = mod.eval(x, model_completion=True)
        if not z3.is_int_value(r): return None
        return r.as_long()
    out = ''
    for t in toks:
        if t[0] == 'lit': out += t[1]
        elif t[0] == 'chr':
            v = val(t[1])
            if v is None: return None
            out += chr(v % 256)
        elif t[0] == 'int':
            v = val(t[1])
            if v is None or not isinstance(t[2], int): return None
            x = str(v)
            out += ('0' if t[3] == '0' else ' ') * (t[2] - len(x)) + x
        elif t[0] == 'fix':
            v = t[1]
            if isinstance(v, (int, Fraction)): v = float(v)
            if not isinstance(v, float) or not isinstance(t[2], int) or not isinstance(t[3], int): return None
            x = '%.*f' % (t[2], v)
            out += ('0' if t[4] == '0' else ' ') * (t[3] - len(x)) + x
        else: return None
    return out


def check(mod, c, req, ans, seconds=5):
    """-> 'agree', 'skip: why' or 'DISAGREE: what' for the request and answer of one native run"""
    p = req.split()
    nv = int(p[2]); vals = [int(x) for x in p[3:3 + nv]]
    nf = int(p[3 + nv]); fv = [float.fromhex(x) for x in p[4 + nv:4 + nv + nf]]
    sb = None if p[4 + nv + nf] == '-' else bytes.fromhex(p[4 + nv + nf][1:])
    if ans[0] in ('crash', 'hang', 'none'): return 'skip: no answer'
    if sb is not None and len(sb) > 60: return 'skip: long string'
    symx.BND.clear(); symx.LIN.clear()
    m = Machine(mod, lib=L, contracts=[], timeout=3000, deadline=time.time() + seconds, cross=False)
    m.ginit = True
    m.maxfail = 1000
    try:
        st = prelude(m, State(), c.entry)
        sptr = NULL
        if sb is not None: sptr = Ptr(string_facts(m, st, sb).id, 0)
        io = m.newobj('in', 8 * len(vals), 'input', extra={8 * k: v for k, v in enumerate(vals)})
        fo = m.newobj('fin', 8 * max(1, len(fv)), 'input', extra={8 * k: v for k, v in enumerate(fv)})
        out = m.newobj('out', 128, 'heap'); st.mem[out.id] = {}
        fout = m.newobj('fout', 64, 'heap'); st.mem[fout.id] = {}
        args = [Ptr(io.id), Ptr(fo.id), sptr, Ptr(out.id), Ptr(fout.id)]
        txt = None
        if c.text:
            txt = m.newobj('txt', 32, 'heap'); st.mem[txt.id] = {}
            st.ab[(txt.id, 0)] = ('str', ())
            args.append(Ptr(txt.id))
        if sb is not None and not smt.feasible(st.pc, 5000): return 'DISAGREE: what the C library reads contradicts its model'
        outs = m.call(st, '@' + c.entry, args, None, None)
        seen = []
        for s, oc in outs:
            if oc[0] == 'term': seen.append('terminates'); continue
            if oc[0] == 'throw':
                nm = exc_name(oc[1]); seen.append(nm)
                if ans[0] == 'throw' and ans[1] == nm and smt.feasible(s.pc, 3000): return 'agree'
                continue
            if ans[0] == 'throw': seen.append('returns'); continue
            t = s.fork()
            no = []
            for k, n in enumerate(c.outs):
                v = m.load(t, I64, Ptr(out.id, 8 * k))
                if isinstance(v, Undef): no.append(n + ' uninitialised'); break
                a = (ans[1] if ans[0] == 'ret' else ans[2])[k]
                t.assume(mk_cmp('==', m.intval(t, v), a))
                no.append('%s: %s for %s' % (n, str(v)[:80], a))
            for k, n in enumerate(c.fouts):
                v = m.load(t, FloatT('double'), Ptr(fout.id, 8 * k))
                if isinstance(v, Undef): no.append(n + ' uninitialised'); break
                a = ans[2][k]
                if isinstance(v, float): t.assume(v == a or (v != v and a != a))
                elif a != a or a in (math.inf, -math.inf): t.assume(False)
                else: t.assume(rz(rterm(v)) == rz(Fraction(a)))
                no.append('%s: %s for %r' % (n, str(v)[:80], a))
            if not smt.feasible(t.pc, 3000): seen.append('; '.join(no)); continue
            if txt is None: return 'agree'
            toks = core.st_tokens(m, t, txt)
            r, mod_ = z3_model(t.pc)
            x = render(m, t, toks, mod_) if mod_ is not None or not any(isinstance(q, z3.ExprRef) for k in toks for q in k) else None
            if x is None: return 'skip: text not determined'
            if x.encode('latin1') == ans[1]: return 'agree'
            seen.append('text %r for %r' % (x, ans[1]))
        if any(o.status == 'fail' for o in m.obs): return 'skip: undefined behaviour on this input'
        return 'DISAGREE: the machine gives %s; the generator %s' % (str(ans)[:200], ' | '.join(seen)[:400] or 'no outcome')
    except (Unsupported, Budget, PathEnd) as e: return 'skip: ' + str(e)[:120]
    except ERRS as e: return 'skip: engine ' + repr(e)[:120]


def z3_model(pc):
    s = z3.Solver(); s.set('timeout', 3000)
    for x in pc:
        if isinstance(x, bool):
            if not x: return 'unsat', None
        else: s.add(x)
    r = s.check()
    return str(r), s.model() if r == z3.sat else None
