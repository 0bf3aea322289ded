"""Contracts on entry points, verification of one (contract, case), native oracle."""
import time, random, traceback, os, sys, math
from fractions import Fraction
import z3
import smt
import sym as symx
from ir import *
from sym import Ob
from sym import *
from lib import L
import fmt
from lib import sget as lib_sget
from dual import *

sys.setrecursionlimit(20000)
STD = ('out_of_range', 'invalid_argument', 'domain_error', 'length_error', 'logic_error',
       'runtime_error', 'range_error', 'overflow_error', 'underflow_error', 'bad_alloc')


class NS:
    """attribute namespace of inputs or outputs"""
    def __init__(self, d=None): self.__dict__.update(d or {})
    def asdict(self): return self.__dict__


class V:
    """an integer input: range and how to sample it"""
    def __init__(self, name, lo, hi, kind='int', sample=None):
        self.name, self.lo, self.hi, self.kind, self.sample = name, lo, hi, kind, sample


class FV:
    """a finite double input in [lo, hi]"""
    def __init__(self, name, lo, hi, sample=None): self.name, self.lo, self.hi, self.sample = name, lo, hi, sample


class Contract:
    def __init__(self, name, entry, ins=(), pre=None, post=None, behaviors=None, fins=(), outs=(), fouts=(),
                 ghosts=(), inputs=None, native=None, cases=None, uses=(), string=None, props=(), text=None,
                 gen=None, fn='', timeout=None, budget=None, doc='', setup=None, hist=False, facts=None, strgen=None,
                 cfgs=('prod',), nat_judge=None, covers=True, bounded_by=None, rel=False, frame=None):
        self.name, self.entry, self.ins, self.fins = name, entry, list(ins), list(fins)
        self.pre = pre or (lambda i: True)
        self.post = post or (lambda i, o, X: [])
        self.behaviors = behaviors
        self.outs, self.fouts = list(outs), list(fouts)
        self.ghosts = list(ghosts)          # specification variables, not passed
        self.inputs = inputs                # i -> list of terms for in[] (default: ins in order)
        self.native = native                # derive ghosts from concrete inputs (i) -> None/bool
        self.cases = cases or [('', None)]
        self.uses, self.string, self.props, self.text = tuple(uses), string, tuple(props), text
        self.gen, self.fn, self.timeout, self.budget, self.doc = gen, fn, timeout, budget, doc
        self.setup, self.hist, self.facts, self.strgen, self.cfgs = setup, hist, facts, strgen, cfgs
        self.nat_judge, self.covers = nat_judge, covers
        self.bounded_by = bounded_by
        self.frame = frame                  # {output slot: input}: operands that must be unchanged
        self.rel = rel                      # relational: the outcome must not depend on errno at entry


def exc_name(t):
    """'@_ZTISt12out_of_range' -> 'out_of_range'"""
    import re
    m = re.match(r'@_ZTISt(\d+)(\w+)$', t or '')
    return m.group(2) if m else str(t)


class Symbolic:
    """what postconditions may ask for besides inputs and outputs (verification side)"""
    native = False
    def __init__(self, m, st): self.m, self.st = m, st
    def rn(self, t, c):
        """the double nearest to t/c (t integer, c positive integer)"""
        m, st = self.m, self.st
        if isinstance(t, int): return Fraction(t / c)
        l, h = iv(t)
        b = None if l is None or h is None else Fraction(max(abs(l), abs(h)), c)
        x = m.itof(st, t, 64)
        r = m.fop(st, 'fdiv', x, float(c))
        return rz(rterm(r))
    def quot(self, a, b):
        """the exact quotient of two integers"""
        m, st = self.m, self.st
        if isinstance(b, int): return rz(rterm(a) if isinstance(a, int) else toreal(a)) / b
        return m.quot(st, None, None, toreal(a), toreal(b), None)
    def dfc(self, y, m, d):
        """the day number of a valid date, as a named constant with the lemma facts"""
        import specs
        return specs.dfc_facts(self.m, self.st, y, m, d)


class Native:
    native = True
    def rn(self, t, c): return Fraction(t / c)
    def quot(self, a, b): return Fraction(a, b)
    def dfc(self, y, m, d):
        import specs
        return specs.DFCx(y, m, d)


def norm_behaviors(c, i):
    b = c.behaviors(i) if c.behaviors else {'ret': True}
    return b


def allowed(b, label):
    """condition under which outcome `label` is allowed"""
    if label in b: return b[label]
    if label in STD and 'std' in b: return b['std']
    return False


# --------------------------------------------------------------------- verification

class Ctx:
    """what a contract's setup function can use to build the initial state"""
    pass


def machine(mod, c, calls, timeout, deadline, cross):
    return Machine(mod, lib=L, contracts=[(p, h) for n, p, h in calls if n in c.uses and c.fn != n],
                   timeout=timeout, deadline=deadline, cross=cross)


def begin(m, c, st, cond, prefix=''):
    """symbolic inputs, their assumptions and the argument objects of one call"""
    i = NS()
    warm = bool(prefix)
    for v in c.ins + ([] if warm else c.ghosts):
        t = z3.Int(prefix + v.name)
        if v.lo is not None and v.hi is not None:
            setiv(t, v.lo, v.hi)
            st.assume(z3.And(t >= v.lo, t <= v.hi))
        setattr(i, v.name, t); m.inputs[prefix + v.name] = t
    fin = {}
    for k, v in enumerate(c.fins):
        t = z3.Real(prefix + v.name)
        b = max(abs(Fraction(v.lo)), abs(Fraction(v.hi)))
        st.assume(z3.And(t >= rz(Fraction(v.lo)), t <= rz(Fraction(v.hi))))
        setattr(i, v.name, t); m.inputs[prefix + v.name] = t
        fin[8 * k] = F(t, None, b)
        st.fp.append((t, None))
    X = Symbolic(m, st)
    i.X = X
    sptr = NULL
    if c.string:
        o = m.newobj('str', None, 'cstr'); c.string(m, st, i, o)
        sptr = Ptr(o.id, 0)
    if not warm:
        if c.setup: c.setup(m, st, i, fin)
        if c.facts: st.assume(c.facts(i, X))
        if cond is not None:
            x = cond(i, lambda n, lo=None, hi=None: m.fresh(n, lo, hi, st))
            st.assume(And(x) if isinstance(x, (list, tuple)) else x)
        st.assume(c.pre(i))
    elif not c.ghosts: st.assume(c.pre(i))
    vals = c.inputs(i) if c.inputs and not (warm and c.ghosts) else [getattr(i, v.name) for v in c.ins]
    io = m.newobj('in', 8 * len(vals), 'input', extra={8 * k: v for k, v in enumerate(vals)})
    fo = m.newobj('fin', 8 * max(1, len(fin)), 'input', extra=fin)
    out = m.newobj('out', 128, 'heap'); st.mem[out.id] = {}
    fout = m.newobj('fout', 64, 'heap'); st.mem[fout.id] = {}
    args = [Ptr(io.id), Ptr(fo.id), sptr, Ptr(out.id), Ptr(fout.id)]
    txt = None
    if c.text:
        txt = m.newobj('txt', 32, 'heap'); st.mem[txt.id] = {}
        st.ab[(txt.id, 0)] = ('str', ())
        args.append(Ptr(txt.id))
    return i, X, args, out, fout, txt


def settle(m, c, res, i, X, outs, out, fout, txt):
    """the obligations of every way the call can end"""
    b = norm_behaviors(c, i)
    if c.rel: relational(m, outs, out, [(n, 8 * k) for k, n in enumerate(c.outs)])
    for s, oc in outs:
        m.tick()
        if oc[0] == 'ret':
            m.oblige(s, allowed(b, 'ret'), 'outcome', 'returns normally although the contract excludes it', assume=False)
            if allowed(b, 'ret') is False: continue
            r = smt.check(s.pc, 2000)[0]
            res['reach']['ret'] = res['reach'].get('ret', 0) + (r == 'sat')
            res['reach']['ret?'] = res['reach'].get('ret?', 0) + (r == 'unknown')
            o = NS()
            for k, n in enumerate(c.outs):
                v = m.load(s, I64, Ptr(out.id, 8 * k))
                if isinstance(v, Undef):
                    m.oblige(s, False, 'uninitialised result', n, assume=False); v = m.fresh('undef', smin(64), smax(64), s)
                setattr(o, n, m.intval(s, v))
            for k, n in enumerate(c.fouts):
                v = m.load(s, FloatT('double'), Ptr(fout.id, 8 * k))
                if isinstance(v, Undef):
                    m.oblige(s, False, 'uninitialised result', n, assume=False); v = m.freshr('undef')
                elif isinstance(v, float) and (v != v or v in (math.inf, -math.inf)):
                    m.oblige(s, False, 'non-finite result', n, assume=False); v = m.freshr('undef')
                else: v = rz(rterm(v))
                setattr(o, n, v)
            if txt: o.txt = st_tokens(m, s, txt)
            X.m, X.st = m, s
            o.st = s
            for name, cnd in c.post(i, o, X):
                if callable(cnd): cnd = cnd()
                m.oblige(s, cnd, 'post', name, assume=False)
        elif oc[0] == 'throw':
            nm = exc_name(oc[1])
            cnd = allowed(b, nm)
            r = smt.check(s.pc, 2000)[0]
            res['reach'][nm] = res['reach'].get(nm, 0) + (r == 'sat')
            m.oblige(s, cnd, 'outcome', 'throws std::' + nm, assume=False)
        else:
            m.oblige(s, False, 'outcome', 'process termination: ' + str(oc[1]), assume=False)
        for e in s.ev:
            if e[0] in ('writeglobal', 'readglobal'):
                if (c.frame is not None or c.rel) and e[:2] not in res.setdefault('globals', set()):
                    m.oblige(s, False, 'frame', ('writes' if e[0][0] == 'w' else 'reads') + ' mutable global ' + e[1], assume=False)
                res.setdefault('globals', set()).add((e[0], e[1]))


ERRS = (RecursionError, z3.Z3Exception, KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError)


def verify(mod, c, case, calls, timeout=8000, budget=120, cross=False, maxfail=3, ginit=False):
    """-> dict with obligations and statistics.  Mutable globals hold arbitrary values at
    entry (so that what is discharged holds after any history), or their initial values."""
    t0 = time.time()
    label, cond = case
    symx.BND.clear(); symx.LIN.clear()
    smt.STATS.update({k: 0 for k in smt.STATS})
    m = machine(mod, c, calls, c.timeout or timeout, t0 + (c.budget or budget), cross)
    m.maxfail = maxfail
    m.ginit = ginit
    res = {'contract': c.name, 'case': label, 'status': 'ok', 'note': '', 'reach': {}}
    try:
        st = prelude(m, State(), c.entry)
        i, X, args, out, fout, txt = begin(m, c, st, cond)
        if not smt.feasible(st.pc, 20000):
            res['status'] = 'empty'; return fin_(res, m, t0)
        if c.frame is not None: m.keep = ('post', 'frame', 'write to constant memory')
        outs = m.call(st, '@' + c.entry, args, None, None)
        settle(m, c, res, i, X, outs, out, fout, txt)
    except Unsupported as e:
        res['status'] = 'unsupported'; res['note'] = str(e) + ' in ' + (m.where() if m.cur else c.entry)
    except Budget as e:
        res['status'] = 'budget'; res['note'] = str(e)
    except PathEnd:
        pass
    except ERRS as e:
        res['status'] = 'unsupported'; res['note'] = 'engine: ' + repr(e)[:200] + ' | ' + traceback.format_exc(limit=-4)[-600:]
    if res['status'] != 'ok' or any(o.status == 'unknown' for o in m.obs):
        try: res['leads'] = m.inputs_on_paths()
        except ERRS: pass
    return fin_(res, m, t0)


def prelude(m, st, entry):
    """The start-up initialisers of the namespace-scope constants that the entry can reach,
    executed as the runtime does; objects whose initialiser is not modelled stay arbitrary."""
    import scan
    if not m.mod.inits: return st
    memo = m.mod.__dict__.setdefault('_prelude', {})
    if entry not in memo:
        fs, _, glo = scan.reach(m.mod, ['@' + entry])
        memo[entry] = [n for n in m.mod.funcs if scan.INIT.match(n) and n in fs and any(n in m.mod.inits.get(x, ()) and x in m.mod.settled for x in glo)]
    for n in memo[entry]:
        k, t, base = len(m.obs), st.fork(), m.maxpaths
        keep, m.keep = getattr(m, 'keep', None), None
        try:
            outs = m.call(t, n, [], None, None)
            if len(outs) != 1 or outs[0][1][0] != 'ret': raise Unsupported('start-up initialiser')
            st = outs[0][0]
        except (Unsupported, PathEnd) as e:
            del m.obs[k:]
            m.settled = m.settled - {x for x, ns in m.mod.inits.items() if n in ns}
        finally: m.keep = keep
    return st


def gstate(m, st):
    """content of the mutable globals touched so far -> (object contents, are all of them concrete)"""
    g, conc = {}, True
    for nm, o in m.gobj.items():
        if o.const or nm == '@errno' or o.id not in st.mem: continue
        c = st.mem[o.id]
        for q, (s, v) in c.items():
            if isinstance(v, (int, bool, float)) or v is UNDEF: continue
            if isinstance(v, Ptr) and isinstance(v.off, int) and (v.obj is None or isinstance(v.obj, tuple) or m.objs[v.obj].kind == 'global'): continue
            conc = False
        g[o.id] = c
    return g, conc


def gkey(m, g):
    init = {}
    out = []
    for oid, c in sorted(g.items()):
        o = m.objs[oid]
        d = {}
        m.initcells(None, d, 0, o.init.ty, o.init.init) if o.init.init is not None else None
        k = tuple(sorted((q, s, repr(v)) for q, (s, v) in c.items()))
        if k != tuple(sorted((q, s, repr(v)) for q, (s, v) in d.items())): out.append((o.name, k))
    return tuple(out)


def history(mod, c, case, calls, timeout=4000, budget=60, levels=2):
    """The contract after a history of calls of the same operation: from the initial content of
    the mutable globals, then after one arbitrary call, ... until no new content is reached
    (then it holds after every such history) or the content depends on the inputs
    (then only histories up to that length are covered)."""
    t0 = time.time()
    label, cond = case
    symx.BND.clear(); symx.LIN.clear()
    smt.STATS.update({k: 0 for k in smt.STATS})
    m = machine(mod, c, calls, timeout, t0 + budget, False)
    m.ginit, m.maxfail = True, 2
    res = {'contract': c.name, 'case': label, 'status': 'ok', 'note': '', 'reach': {}, 'history': 0}
    closed = False
    try:
        seen = {()}
        base = prelude(m, State(), c.entry)
        pre = [base]
        for lv in range(levels + 1):
            for p in pre:
                st = p.fork()
                i, X, args, out, fout, txt = begin(m, c, st, cond)
                if not smt.feasible(st.pc, 5000): continue
                m.keep = None
                settle(m, c, res, i, X, m.call(st, '@' + c.entry, args, None, None), out, fout, txt)
            res['history'] = lv
            if c.string: break
            # one more arbitrary call before
            nxt, sym_ = [], False
            for p in pre:
                st = p.fork()
                i, X, args, out, fout, txt = begin(m, c, st, None, 'h%d_' % (lv + 1))
                m.keep = ('nothing',)
                for s, oc in m.call(st, '@' + c.entry, args, None, None):
                    if oc[0] == 'term' or not smt.feasible(s.pc, 2000): continue
                    g, conc = gstate(m, s)
                    if conc:
                        k = gkey(m, g)
                        if k in seen: continue
                        seen.add(k)
                        n = State()             # the content does not depend on the call: forget the call
                        n.pc, n.fp = list(s.pc), list(s.fp)
                    else:
                        n = State(); n.pc, n.fp = list(s.pc), list(s.fp); sym_ = True
                    n.mem = {**base.mem, **g}
                    n.ab = {**base.ab} | {k: v for k, v in s.ab.items() if m.objs[k[0]].kind == 'global'}
                    nxt.append(n)
            if not nxt: closed = True; break
            if len(nxt) > 12: nxt = nxt[:12]; sym_ = True
            pre = nxt
            if sym_: closed = None
    except Unsupported as e:
        res['status'] = 'unsupported'; res['note'] = str(e) + ' in ' + (m.where() if m.cur else c.entry)
    except Budget as e:
        res['status'] = 'budget'; res['note'] = str(e)
    except PathEnd:
        pass
    except ERRS as e:
        res['status'] = 'unsupported'; res['note'] = 'engine: ' + repr(e)[:200] + ' | ' + traceback.format_exc(limit=-4)[-600:]
    if closed is not True and res['status'] == 'ok':
        res['status'] = 'bounded'; res['note'] = 'mutable globals: proved for histories of up to %d calls of the same operation' % res['history']
    return fin_(res, m, t0)


def mentions(t, v, memo):
    """does the term contain the variable"""
    if not isinstance(t, z3.ExprRef): return False
    todo = [t]
    found = False
    while todo:
        x = todo.pop()
        if x.get_id() in memo: continue
        memo[x.get_id()] = x
        if x.eq(v): return True
        todo.extend(x.children())
    return found


def relational(m, outs, out, slots):
    """Non-interference: the outcome is the same whatever errno was at entry.  Paths whose
    condition and results do not contain the initial errno are independent of it; any two
    paths that do contain it must agree when their conditions hold together for two values."""
    e0 = m.memo_fresh.get('errno0')
    if e0 is None:
        m.obs.append(Ob('independence', 'entry', 'ok', 'errno is not read')); return
    dep = []
    for s, oc in outs:
        vals = []
        if oc[0] == 'ret':
            for n, off in slots:
                v = m.load(s, I64, Ptr(out.id, off))
                vals.append(0 if isinstance(v, Undef) else m.intval(s, v))
        pc = [c for c in s.pc if isinstance(c, z3.ExprRef) and not c.eq(m.memo_fresh['errno_rng'])]
        d = any(mentions(c, e0, {}) for c in pc) or any(mentions(v, e0, {}) for v in vals)
        if d: dep.append((s, oc, pc, vals))
        else: m.obs.append(Ob('independence', 'path', 'ok', 'errno at entry does not occur'))
    if not dep: return
    if len(dep) > 60: raise Unsupported('outcome depends on errno on many paths')
    base = {'length'} | set(m.inputs)
    for s, oc, pc, vals in dep:
        for s2, oc2, pc2, vals2 in dep:
            sub = {}
            def ren(t):
                if not isinstance(t, z3.ExprRef): return t
                todo, seen = [t], set()
                while todo:
                    x = todo.pop()
                    if x.get_id() in seen: continue
                    seen.add(x.get_id())
                    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() not in base:
                        sub.setdefault(x.get_id(), (x, z3.Const(x.decl().name() + "'", x.sort())))
                    todo.extend(x.children())
                return z3.substitute(t, *sub.values()) if sub else t
            t = s.fork()
            for c in pc2: t.assume(ren(c))
            k = oc[0] == oc2[0] and (oc[0] != 'throw' or oc[1] == oc2[1])
            if k and oc[0] == 'ret': k = And([v == ren(w) for v, w in zip(vals, vals2)])
            m.precise = False
            m.oblige(t, k, 'independence', 'the outcome depends on errno at entry', assume=False)


def st_tokens(m, s, txt):
    return lib_sget(m, s, Ptr(txt.id, 0))


def fin_(res, m, t0):
    res['obs'] = [o.d() for o in m.obs]
    res['t'] = time.time() - t0
    res['fns'] = sorted(m.used); res['calls'] = sorted(m.usedc); res['libs'] = sorted(m.usedlib)
    res['precise'] = m.precise
    res['stats'] = dict(smt.STATS)
    res['globals'] = sorted(res.get('globals', ()))
    res['touched'] = sorted(m.touched)
    return res


# --------------------------------------------------------------------- sampling

EDGE_YEARS = [-4799, -4798, -4401, -4400, -4399, -4004, -401, -400, -399, -101, -100, -99, -5, -4, -3, -1, 0, 1, 2, 3, 4, 5, 99, 100, 101,
              399, 400, 401, 1581, 1582, 1599, 1600, 1601, 1699, 1700, 1701, 1752, 1799, 1800, 1857, 1858, 1859, 1899, 1900, 1901, 1903, 1904,
              1970, 1971, 1972, 1979, 1980, 1981, 1999, 2000, 2001, 2003, 2004, 2016, 2017, 2019, 2020, 2023, 2024, 2037, 2038, 2039, 2096, 2099, 2100, 2101, 2104,
              2399, 2400, 2401, 9999, 10000, 99999, 100000, 999996, 999999, 1000000]
DAYS = [1, -1]
UNIT = [1, 60, 1000, 3600, 86400, 1000000, 60000, 3600000, 86400000, 60000000, 3600000000, 86400000000, 604800, 604800000, 604800000000]


def sample(v, rng):
    lo, hi = v.lo, v.hi
    if v.sample: 
        x = v.sample(rng)
        return min(max(x, lo), hi)
    k = v.kind
    r = rng.random()
    if k == 'year':
        if r < .5: return min(max(rng.choice(EDGE_YEARS), lo), hi)
        if r < .8: return min(max(rng.randint(1500, 2500), lo), hi)
        return min(max(rng.choice([-1, 1]) * int(2 ** rng.uniform(0, 31)), lo), hi)
    if k == 'month':
        if r < .85: return min(max(rng.randint(1, 12), lo), hi)
    if k == 'dom':
        if r < .4: return min(max(rng.choice([1, 28, 29, 30, 31]), lo), hi)
        if r < .9: return min(max(rng.randint(0, 32), lo), hi)
    if k == 'doy':
        if r < .4: return min(max(rng.choice([1, 31, 32, 59, 60, 61, 90, 91, 120, 121, 151, 152, 181, 182, 212, 213, 243, 244, 273, 274, 304, 305, 334, 335, 364, 365, 366]), lo), hi)
        if r < .9: return min(max(rng.randint(0, 367), lo), hi)
    if k == 'mjd':
        if r < .3:
            return min(max(DFC(rng.choice(EDGE_YEARS), rng.randint(1, 12), 1) + rng.randint(-2, 31), lo), hi)
        if r < .7: return min(max(rng.randint(-100000, 200000), lo), hi)
        return min(max(rng.choice([-1, 1]) * int(2 ** rng.uniform(0, 40)), lo), hi)
    if k == 'tod':
        if r < .3: return min(max(rng.choice(UNIT) * rng.randint(0, 60) + rng.randint(-1, 1), lo), hi)
        if r < .5: return rng.choice([lo, lo + 1, hi, hi - 1, (lo + hi) // 2])
        return rng.randint(lo, hi)
    if k == 'same': return rng.randint(lo, hi)
    # generic integers: edges, unit multiples, magnitudes
    if r < .12: return rng.choice([lo, hi, min(lo + 1, hi), max(lo, hi - 1)])
    if r < .3: x = rng.randint(-3, 3)
    elif r < .55: x = rng.choice(UNIT) * rng.randint(-40, 40) + rng.randint(-1, 1)
    elif r < .8:
        b = rng.randint(1, max(1, max(abs(lo), abs(hi)).bit_length()))
        x = rng.getrandbits(b) * rng.choice([1, -1])
    else: return rng.randint(lo, hi)
    if x < lo or x > hi:
        x = -x
        if x < lo or x > hi: return rng.randint(lo, hi)
    return x


def fsample(v, rng):
    r = rng.random()
    if v.sample: x = v.sample(rng)
    elif r < .4: x = rng.randint(0, 10 ** rng.randint(1, 12)) / 10 ** rng.randint(0, 9)
    elif r < .6: x = rng.randint(0, 60000000) / 10 ** 6
    elif r < .8: x = math.nextafter(rng.randint(0, 10 ** 9) / 10 ** rng.choice([3, 6]), rng.choice([-math.inf, math.inf]))
    else: x = rng.uniform(float(v.lo), float(v.hi))
    return min(max(x, float(v.lo)), float(v.hi))


def DFC(y, m, d):
    import specs
    return specs.DFC(y, m, d)


def gen_input(c, rng):
    """one concrete input satisfying the precondition, or None"""
    for _ in range(60):
        i = NS()
        if c.gen:
            c.gen(i, rng)
        for v in c.ins:
            if not hasattr(i, v.name): setattr(i, v.name, sample(v, rng))
        for v in c.fins:
            if not hasattr(i, v.name): setattr(i, v.name, Fraction(fsample(v, rng)))
        if c.strgen and not hasattr(i, 'str'): i.str = c.strgen(rng)
        if not hasattr(i, 'errno'): i.errno = rng.choice([0, 0, 34]) if c.hist else 0
        if ok_input(c, i): return i
    return None


def ok_input(c, i):
    for v in c.ins:
        x = getattr(i, v.name)
        if x < v.lo or x > v.hi: return False
    for v in c.fins:
        x = getattr(i, v.name)
        if x < Fraction(v.lo) or x > Fraction(v.hi): return False
    i.X = Native()
    if c.native is not None and c.native(i) is False: return False
    return bool(c.pre(i))


def request(c, i):
    vals = c.inputs(i) if c.inputs and not c.native else [getattr(i, v.name) for v in c.ins]
    fv = [float(getattr(i, v.name)).hex() for v in c.fins]
    s = '-' if not hasattr(i, 'str') or i.str is None else 'h' + i.str.hex()
    if getattr(i, 'rle', None): s = 'r%d,%s,%s,%s' % (i.rle[1], i.rle[0].hex(), i.rle[2].hex(), i.rle[3].hex())
    return ' '.join([c.entry, str(getattr(i, 'errno', 0)), str(len(vals))] + [str(int(v)) for v in vals] + [str(len(fv))] + fv + [s])


SENT = -987654321012345678


def judge(c, i, ans):
    """names of the violated contract clauses for one native answer"""
    if ans[0] == 'crash': return ['no undefined behaviour or termination: ' + ans[1]]
    if ans[0] == 'hang': return ['terminates']
    if c.nat_judge: return c.nat_judge(c, i, ans)
    b = norm_behaviors(c, i)
    if ans[0] == 'throw':
        return [] if allowed(b, ans[1]) else ['outcome: throws ' + ans[1]]
    if not allowed(b, 'ret'): return ['outcome: returns normally although the contract excludes it']
    o = NS()
    if ans[0] == 'ret':
        for n, v in zip(c.outs, ans[1]): setattr(o, n, v)
        for n, v in zip(c.fouts, ans[2]):
            if v != v or v in (math.inf, -math.inf): return ['non-finite result ' + n]
            setattr(o, n, Fraction(v))
    else:
        o.txt = ans[1]
        for n, v in zip(c.outs, ans[2]): setattr(o, n, v)
    bad = []
    for name, cnd in c.post(i, o, Native()):
        if callable(cnd): cnd = cnd()
        if not cnd: bad.append(name)
    return bad
