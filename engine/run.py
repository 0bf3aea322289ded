#!/usr/bin/env python3
"""Check one property: generate the obligations of its contracts (and of the contracts
they rest on) from /repo's current sources, discharge them, replay what fails.
  run.py <property> [--tier quick|thorough]       exit 0 held / 1 VIOLATION / 2 error"""
import sys, os, resource, time, json, random, traceback, collections, signal, importlib, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, 'engine'), os.path.join(ROOT, 'contracts')]
import multiprocessing as mp
import z3
import build, ir, smt, core, scan, native, concrete
from core import *

T0 = time.time()
MODS = ('calendar_', 'arith', 'fund', 'text', 'frame')
NPROC = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4))


class G: dic, cross = (), {}


g = G()


def load():
    import calls
    g.calls = calls.CALLS
    g.CS, g.LS = [], []
    for n in MODS:
        m = importlib.import_module(n)
        g.CS += m.CS; g.LS += getattr(m, 'LS', [])
    names = collections.Counter(c.name for c in g.CS)
    for c in g.CS:
        c.key = c.name if names[c.name] == 1 else c.name + ' [' + c.entry + ']'


def closure(own):
    """contracts whose callee contracts the own ones rest on"""
    seen, work, out = set(), [u for c in own for u in c.uses], []
    while work:
        u = work.pop()
        if u in seen: continue
        seen.add(u)
        for c in g.CS:
            if c.fn == u and c not in own and c not in out:
                out.append(c); work += c.uses
    return out, seen


# --------------------------------------------------------------------- tasks (run in forked workers)

def task(t):
    kind = t[0]
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        if kind == 'verify':
            _, ci, case, cfg, opt = t
            c = g.CS[ci]
            old = (c.uses, c.timeout, c.budget)
            try:
                if opt.get('inline'): c.uses = ()
                if opt.get('slow'): c.timeout, c.budget = (c.timeout or 8000) * 4, (c.budget or 120) * 3
                r = verify(g.mod[cfg], c, c.cases[case], g.calls, cross=opt.get('cross', False))
            finally: c.uses, c.timeout, c.budget = old
            r['cfg'], r['ci'] = cfg, ci
            r['globals'] = sorted(r.get('globals', ()))
            return r
        if kind == 'history':
            _, ci, case, cfg = t
            r = history(g.mod[cfg], g.CS[ci], g.CS[ci].cases[case], g.calls)
            r['cfg'], r['ci'] = cfg, ci
            return r
        if kind == 'nathist': return sample_histories(*t[1:])
        if kind == 'cross': return cross_check(*t[1:])
        if kind == 'lemma': return lemma(g.LS[t[1]], t[2], t[3])
        if kind == 'native': return sample_contract(*t[1:])
    except Exception as e:
        return {'contract': str(t[1]), 'case': '', 'status': 'unsupported', 'note': 'worker: ' + traceback.format_exc()[-800:], 'obs': [], 't': 0., 'fns': [], 'calls': [], 'libs': [], 'precise': False,
                'stats': {}, 'reach': {}, 'ci': t[1] if kind == 'verify' else None, 'bad': [], 'n': 0, 'ok': 0, 'globals': [], 'labels': {}}


def lemma(l, k, cross):
    import sym as symx
    t0 = time.time()
    symx.BND.clear(); symx.LIN.clear()
    cnt = [0]
    pc = []
    def fresh(n, lo=None, hi=None):
        cnt[0] += 1
        v = z3.Int('%s!%d' % (n, cnt[0]))
        if lo is not None: pc.append(v >= lo)
        if hi is not None: pc.append(v <= hi)
        if lo is not None and hi is not None: setiv(v, lo, hi)
        return v
    i = NS()
    for v in l.vars:
        x = z3.Int(v.name); setiv(x, v.lo, v.hi); pc.append(z3.And(x >= v.lo, x <= v.hi)); setattr(i, v.name, x)
    label, cond = l.cases[k]
    if cond is not None:
        x = cond(i, fresh); pc.append(toz_(And(x) if isinstance(x, (list, tuple)) else x))
    if l.hyp is not None: pc.append(toz_(l.hyp(i)))
    goal = l.goal(i)
    sat = smt.check(pc, 3000)[0]
    if goal is True: r, be = 'unsat', 'evaluation'
    else:
        cs = pc + [toz_(Not(goal))]
        r, be = smt.check(cs, 2000)[0], 'z3'
        if r == 'unknown':
            r = smt.cvc5(cs, 20000); be = 'cvc5'
            if r != 'unsat': r, be = smt.check(cs, 30000)[0], 'z3'
        elif r == 'unsat' and cross and smt.cvc5(cs, 20000) == 'unsat': be = 'z3+cvc5'
    st = {'unsat': 'ok', 'sat': 'fail'}.get(r, 'unknown')
    return {'contract': 'lemma: ' + l.name, 'case': label, 'status': 'ok', 'note': '', 'reach': {'hyp': sat == 'sat'}, 't': time.time() - t0, 'fns': [], 'calls': [], 'libs': [], 'precise': True,
            'stats': {}, 'obs': [{'kind': 'lemma', 'where': 'specification', 'status': st, 'backend': be, 't': time.time() - t0, 'inputs': None, 'note': l.name, 'precise': True}], 'ci': None, 'globals': []}


def toz_(x): return z3.BoolVal(x) if isinstance(x, bool) else x


# --------------------------------------------------------------------- native side

def show(c, i):
    d = {v.name: int(getattr(i, v.name)) for v in c.ins}
    d.update({v.name: float(getattr(i, v.name)) for v in c.fins})
    if getattr(i, 'rle', None): d['str'] = '%r + %d times %r + %r' % (i.rle[0].decode('latin1'), i.rle[1], i.rle[2].decode('latin1'), i.rle[3].decode('latin1'))
    elif getattr(i, 'str', None) is not None: d['str'] = i.str.decode('latin1')
    if getattr(i, 'errno', 0): d['errno'] = i.errno
    return d


def judge2(c, i, ans):
    if c.rel:
        a, b = ans
        return [] if a == b else ['the outcome depends on errno left by an earlier call: %s / %s' % (brief(a), brief(b))]
    return judge(c, i, ans)


def brief(a): return ' '.join(str(x) for x in a[:1]) + (' ' + str(a[1][:4] if isinstance(a[1], list) else a[1]) if len(a) > 1 else '')


def reqs_of(c, i):
    if not c.rel: return [request(c, i)]
    r = []
    for e in (0, 34):
        i.errno = e; r.append(request(c, i))
    return r


def run_batch(c, ins, exe):
    """-> [(input, answer, violated clauses)]"""
    rs = [reqs_of(c, i) for i in ins]
    flat = [x for r in rs for x in r]
    ans = native.ask(exe, flat)
    out, k = [], 0
    for i, r in zip(ins, rs):
        a = ans[k:k + len(r)]; k += len(r)
        if any(x[0] in ('crash', 'hang') for x in a): b = [] if c.frame else judge(c, i, next(x for x in a if x[0] in ('crash', 'hang')))
        elif a[0][0] == 'none': b = []
        else:
            try: b = judge2(c, i, a if c.rel else a[0])
            except (KeyError, IndexError, AttributeError, ZeroDivisionError, TypeError) as e: b = ['answer not understood: ' + repr(e)]
        out.append((i, a, b))
    return out


def gen_many(c, n, rng, seeds=()):
    """sampled inputs satisfying the precondition; some near the previous one, some near the seeds"""
    out, prev = [], None
    tries = 0
    while len(out) < n and tries < 4 * n + 20:
        tries += 1
        i = None
        r = rng.random()
        if seeds and r < .6:
            s = rng.choice(seeds)
            base = gen_input(c, rng)
            i = NS({k: v for k, v in (base.asdict().items() if base else {}.items()) if k in ('str', 'errno')})
            for v in c.ins:
                x = s.get(v.name)
                if x is None or rng.random() < .15: x = getattr(base, v.name, None) if base else None
                if x is None: x = sample(v, rng)
                if rng.random() < .2: x += rng.choice([1, -1])
                setattr(i, v.name, min(max(x, v.lo), v.hi))
            for v in c.fins:
                x = s.get(v.name)
                setattr(i, v.name, Fraction(fsample(v, rng)) if x is None or rng.random() < .3 else Fraction(float(x)))
            if not hasattr(i, 'errno'): i.errno = 0
            if not ok_input(c, i): i = None
        elif prev is not None and r > .7:
            i = NS({k: v for k, v in prev.asdict().items() if k in [q.name for q in c.ins + c.fins] + ['str', 'errno']})
            if c.ins:
                v = rng.choice(c.ins); setattr(i, v.name, sample(v, rng))
            elif c.strgen: i.str = c.strgen(rng)
            if not ok_input(c, i): i = None
        if i is None: i = gen_input(c, rng)
        if i is None: continue
        if g.dic and c.ins and rng.random() < .15:      # a constant of the current sources in one of the arguments
            j = NS({k: v for k, v in i.asdict().items() if k in [q.name for q in c.ins + c.fins] + ['str', 'errno']})
            v = rng.choice(c.ins); x = rng.choice(g.dic)
            if rng.random() < .15: x *= rng.choice(g.dic)
            setattr(j, v.name, x + rng.choice([0, 0, 0, 1, -1]))
            try:
                if v.lo <= getattr(j, v.name) <= v.hi and ok_input(c, j): i = j
            except Exception: pass
        out.append(i); prev = i
    return out


def sample_contract(ci, cfg, n, seed, seeds, exes, tlimit):
    """run the real code on sampled inputs and judge every answer by the contract"""
    c = g.CS[ci]
    t0 = time.time()
    rng = random.Random('%s/%s/%s' % (c.key, seed, cfg))
    bad, tot, okn = [], 0, 0
    labels = collections.Counter()
    samples = []
    for k, exe in exes:
        left = n if k == 'drv' else max(20, n // 4)
        while left > 0 and time.time() - t0 < tlimit and not bad:
            ins = gen_many(c, min(left, 1500), rng, seeds)
            if not ins: break
            for i, a, b in run_batch(c, ins, exe):
                if a[0][0] == 'none': continue
                tot += 1
                labels[a[0][0] if a[0][0] != 'throw' else a[0][1]] += 1
                if b and len(bad) < 3: bad.append({'contract': c.key, 'entry': c.entry, 'cfg': cfg, 'exe': k, 'inputs': show(c, i), 'requests': reqs_of(c, i), 'answers': [list(x) if x[0] != 'txt' else ['txt', x[1].decode('latin1')] for x in a], 'violated': b})
                elif not samples and not b: samples.append({'contract': c.key, 'inputs': show(c, i)})
            left -= len(ins)
    if c.strgen and 'C23' in c.props and (n > 1000 or '_us' not in c.entry and '_ms' not in c.entry):      # no length of a text may exhaust the stack
        for k, exe in exes[:1]:
            ins = [] if bad or time.time() - t0 > tlimit else huge(c, rng)
            for i, a, b in run_batch(c, ins, exe):
                tot += a[0][0] != 'none'
                if b and not bad: bad.append(record(c, cfg, k, i, a, b))
    return {'ci': ci, 'n': tot, 'bad': bad, 'labels': dict(labels), 't': time.time() - t0, 'samples': samples, 'contract': c.key, 'status': 'ok'}


def cross_check(ci, cfg, n, seed, exe, tlimit):
    """is what the real code did among what the generator says it can do? (see concrete.py)"""
    c = g.CS[ci]
    t0 = time.time()
    rng = random.Random('cross/%s/%s/%s' % (c.key, seed, cfg))
    cnt, dis = collections.Counter(), []
    for i, a, b in run_batch(c, gen_many(c, n, rng), exe):
        if time.time() - t0 > tlimit: break
        q = reqs_of(c, i)[0]
        v = concrete.check(g.mod[cfg], c, q, a[0])
        cnt[v.split(':')[0]] += 1
        if v.startswith('DISAGREE'): dis.append('%s: %s: %s' % (c.key, q[:120], v[10:400]))
    return {'ci': ci, 'contract': c.key, 'cross': dict(cnt), 'dis': dis, 't': time.time() - t0, 'status': 'ok'}


HUGE = 12 << 20


def huge(c, rng):
    """texts larger than a stack: a date with junk after, before and inside its fields"""
    out = []
    for q in range(60):
        i = gen_input(c, rng)
        try:
            if i is not None and 6 < len(i.str) < 40 and core.allowed(core.norm_behaviors(c, i), 'ret'): break
        except Exception: pass
    else: return out
    p = rng.randrange(len(i.str))
    for pre, b, suf in ((i.str, b'x', b''), (b'', b' ', i.str), (b'', b'0', i.str), (i.str[:p], rng.choice([b'9', b' ', b'-', b'0']), i.str[p:])):
        j = NS({k: v for k, v in i.asdict().items()})
        j.rle, j.str = (pre, HUGE, b, suf), pre + b * HUGE + suf
        try:
            if ok_input(c, j): out.append(j)
        except Exception: pass
    return out


def record(c, cfg, k, i, a, b, before=()):
    return {'contract': c.key, 'entry': c.entry, 'cfg': cfg, 'exe': k, 'inputs': show(c, i), 'requests': list(before) + reqs_of(c, i), 'answers': [list(x) if x[0] != 'txt' else ['txt', x[1].decode('latin1')] for x in a], 'violated': b}


def sample_histories(cis, own, cfg, n, seed, seeds, exe, tlimit):
    """short call histories, each in a fresh process; every answer judged by its contract"""
    t0 = time.time()
    rng = random.Random('hist/%s/%s' % (cis, seed))
    bad, tot = [], 0
    cs = [g.CS[ci] for ci in cis]
    while tot < n and time.time() - t0 < tlimit and not bad:
        seq, prev = [], {}
        for _ in range(rng.choice([1, 1, 2, 2, 3, 5])):
            c = rng.choice(cs)
            ins = gen_many(c, 1, rng, [prev[c.key]] if c.key in prev and rng.random() < .6 else seeds)
            if not ins: continue
            i = ins[0]
            if rng.random() < .2:           # the zero a fresh static holds
                v = rng.choice(c.ins) if c.ins else None
                if v is not None and v.lo <= 0 <= v.hi:
                    j = NS(dict(i.asdict())); setattr(j, v.name, 0)
                    try:
                        if ok_input(c, j): i = j
                    except Exception: pass
            elif c.key in prev and c.ins and rng.random() < .4:      # the previous arguments but for a multiple of a power of two in one of them
                j = NS({k: v for k, v in i.asdict().items() if k in [q.name for q in c.ins + c.fins] + ['str', 'errno']})
                v = rng.choice(c.ins)
                for w in c.ins:
                    if w.name in prev[c.key]: setattr(j, w.name, prev[c.key][w.name])
                setattr(j, v.name, getattr(j, v.name) + rng.choice([1, -1, 2, -2, 7]) * 2 ** rng.choice([3, 4, 5, 6, 7, 8, 8, 10, 16, 16, 32, 32]))
                try:
                    if v.lo <= getattr(j, v.name) <= v.hi and ok_input(c, j): i = j
                except Exception: pass
            prev[c.key] = {v.name: getattr(i, v.name) for v in c.ins + c.fins}
            seq.append((c, i))
        if not seq: tot += 1; continue
        rs = [reqs_of(c, i) for c, i in seq]
        ans = native.ask(exe, [x for r in rs for x in r])
        k = 0
        for q, ((c, i), r) in enumerate(zip(seq, rs)):
            a = ans[k:k + len(r)]; k += len(r)
            tot += 1
            if c.key not in own or a[0][0] == 'none' or (c.frame and a[0][0] in ('crash', 'hang')): continue
            try: b = judge2(c, i, a if c.rel else a[0])
            except (KeyError, IndexError, AttributeError, ZeroDivisionError, TypeError): b = []
            if b: bad.append(record(c, cfg, 'drv', i, a, b, [x for y in rs[:q] for x in y])); break
    return {'ci': cis[0], 'n': tot, 'bad': bad, 'labels': {}, 't': time.time() - t0, 'samples': [], 'contract': 'histories', 'status': 'ok'}


def replay_history(c, cfg, inputs):
    """a counterexample after a history of calls of the same operation"""
    import re
    lv = {0}
    for k in inputs:
        m = re.match(r'h(\d+)_', k)
        if m: lv.add(int(m[1]))
    reqs, last = [], None
    for l in list(range(1, max(lv) + 1)) + [0]:
        i = NS()
        try:
            src = {k[len('h%d_' % l):]: v for k, v in inputs.items() if k.startswith('h%d_' % l)} if l else {k: v for k, v in inputs.items() if not re.match(r'h\d+_', k)}
            for k, v in src.items(): setattr(i, k, v)
            if not l and c.inputs:
                for v, x in zip(c.ins, c.inputs(i)): setattr(i, v.name, int(x))
            for v in c.ins: setattr(i, v.name, int(getattr(i, v.name)))
            for v in c.fins: setattr(i, v.name, Fraction(getattr(i, v.name)))
            i.errno = 0
            if not l and not ok_input(c, i): return None
        except (AttributeError, KeyError, TypeError, ValueError): return None
        if l: reqs.append(request(c, i))
        else: last = i
    for k in ('drv', 'san'):
        rs = reqs_of(c, last)
        ans = native.ask(g.built[k][cfg], reqs + rs)
        a = ans[len(reqs):]
        if not a or any(x[0] in ('crash', 'hang') for x in ans[:len(reqs)]): continue
        b = judge2(c, last, a if c.rel else a[0])
        if b: return record(c, cfg, k, last, a, b, reqs)
    return None


def replay_text(c, cfg, inputs):
    """strings that spell what the counterexample says about the fields"""
    if not getattr(c, 'realize', None): return None
    ins = []
    for b in c.realize(inputs):
        i = NS({}); i.str, i.errno, i.fx = b, 0, None
        try:
            if ok_input(c, i): ins.append(i)
        except Exception: pass
    for k in ('drv', 'san'):
        for j, a, b in run_batch(c, ins, g.built[k][cfg]) if ins else ():
            if b: return record(c, cfg, k, j, a, b)
    return None


def try_leads(c, cfg, leads):
    """the real code on inputs that lead down the paths the generator saw"""
    if c.string:
        for x in leads[:12]:
            h = replay_text(c, cfg, x)
            if h: return h
        return None
    ins = []
    for x in leads:
        i = NS(dict(x))
        try:
            if c.inputs:
                for v, y in zip(c.ins, c.inputs(i)): setattr(i, v.name, int(y))
            for v in c.ins: setattr(i, v.name, int(getattr(i, v.name)))
            for v in c.fins: setattr(i, v.name, Fraction(float(getattr(i, v.name))))
            i.errno, i.fx = 0, None
            if ok_input(c, i): ins.append(i)
        except Exception: continue
    for k in ('drv', 'san'):
        for j, a, b in run_batch(c, ins, g.built[k][cfg]) if ins else ():
            if b: return record(c, cfg, k, j, a, b)
    return None


def constants(mod):
    """the integers the current sources mention, tables included"""
    out = set()
    for nm, f in mod.funcs.items():
        if 'ngpt::' not in mod.dem.get(nm, nm): continue
        for _, ln in f.raw:
            if ' call ' in ln or ' br ' in ln or 'phi' in ln: ln = re.sub(r'%\S+', '', ln)
            out |= {int(x) for x in re.findall(r'(?<![%@\w.!#])-?\d{1,19}(?![\w.])', re.sub(r', align \d+|!\S+|i\d+ ', ' ', ln))}
    def walk(v):
        if isinstance(v, (tuple, list)):
            for x in v: walk(x)
        elif isinstance(v, int) and not isinstance(v, bool): out.add(v)
    for gl in mod.globals.values():
        if gl.init is not None and len(repr(gl.init)) < 20000: walk(gl.init)
    return sorted(x for x in out if abs(x) > 6 and abs(x) < 2 ** 62)


def replay(c, cfg, inputs):
    """run the counterexample of an obligation on the real code; -> bad record or None"""
    i = NS({k: v for k, v in inputs.items()})
    try:
        if c.inputs:
            for v, x in zip(c.ins, c.inputs(i)): setattr(i, v.name, int(x))
        for v in c.ins: setattr(i, v.name, int(getattr(i, v.name)))
        for v in c.fins: setattr(i, v.name, Fraction(getattr(i, v.name)))
    except (AttributeError, KeyError, TypeError, ValueError): return None
    if c.string: return replay_text(c, cfg, inputs)
    i.errno = 0
    i.fx = None
    cands = [i]
    for v in c.fins:        # a rational model: the doubles next to it
        x = float(getattr(i, v.name))
        for y in (math.nextafter(x, math.inf), math.nextafter(x, -math.inf)):
            j = NS(dict(i.asdict())); setattr(j, v.name, Fraction(y)); cands.append(j)
    for k in ('drv', 'san'):
        ok = []
        for j in cands:
            try:
                if ok_input(c, j): ok.append(j)
            except Exception: pass
        if not ok: return None
        for j, a, b in run_batch(c, ok, g.built[k][cfg]):
            if b: return {'contract': c.key, 'entry': c.entry, 'cfg': cfg, 'exe': k, 'inputs': show(c, j), 'requests': reqs_of(c, j), 'answers': [list(x) if x[0] != 'txt' else ['txt', x[1].decode('latin1')] for x in a], 'violated': b}
    return None


# --------------------------------------------------------------------- the driver

def pool_run(tasks, deadline):
    """run the tasks in forked workers; unfinished ones count as out of budget"""
    res = [None] * len(tasks)
    if not tasks: return res
    ctx = mp.get_context('fork')
    p = ctx.Pool(min(NPROC, len(tasks)), maxtasksperchild=400)
    try:
        h = [p.apply_async(task, (t,)) for t in tasks]
        for k, x in enumerate(h):
            left = deadline - time.time()
            try: res[k] = x.get(max(0.05, left))
            except mp.TimeoutError: pass
    finally:
        p.terminate(); p.join()
    for k, t in enumerate(tasks):
        if res[k] is None:
            nm = g.CS[t[1]].key if t[0] in ('verify', 'native', 'history', 'cross') else 'histories' if t[0] == 'nathist' else g.LS[t[1]].name
            res[k] = {'contract': nm, 'case': '', 'status': 'budget', 'note': 'not finished in the time of this check', 'obs': [], 't': 0., 'fns': [], 'calls': [], 'libs': [], 'precise': False, 'stats': {}, 'reach': {},
                      'ci': t[1] if t[0] != 'nathist' else t[1][0], 'bad': [], 'n': 0, 'labels': {}, 'samples': [], 'globals': [], 'cfg': t[3] if t[0] in ('verify', 'history') else 'prod', 'touched': []}
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    thorough = tier == 'thorough'
    limit = float(os.environ.get('VERIF_LIMIT') or (700 if not thorough else 3000))
    deadline = T0 + limit
    if resource.getrlimit(resource.RLIMIT_STACK)[0] in (-1, resource.RLIM_INFINITY): resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    load()
    own = [c for c in g.CS if prop in c.props]
    if not own: print('unknown property', prop); return 2
    deps, used = closure(own)
    debug = prop == 'C30'
    cfgs = ('prod', 'debug') if debug else ('prod',)
    try: g.built = build.build(cfgs=cfgs)
    except build.BuildError as e:
        print('BUILD-ERROR the library or the harness does not compile:\n' + str(e)[-3000:]); return 2
    if g.built['dropped']: print('entries that do not compile against the current source (their contracts cannot be checked): ' + ', '.join(g.built['dropped']))
    tb = time.time() - T0
    g.mod = {}
    g.fallback = (prop, tier, seed, own, 'debug' if debug else 'prod', thorough)
    if g.built['note']: return unverifiable(*g.fallback, T0 + limit * .5)
    for k in cfgs:
        m = ir.Module(); m.load(g.built['ir'][k]); m.finish(); g.mod[k] = m
        if m.settled and build.mentions(r'\b(mutable|const_cast)\b'): m.settled = set()
        if m.settled: print('objects that hold one value from their initialisation on: ' + ', '.join(sorted(m.dem.get(x, x) for x in m.settled if '_ZGV' not in x)))
    if not any('@' + c.entry in g.mod[k].funcs for c in own for k in cfgs): print('no entry of %s compiles against the current source' % prop); return 2
    work = 'debug' if debug else 'prod'
    print('%s %s: %d contracts of the property, %d callee contracts, build %.1f s' % (prop, tier, len(own), len(deps), tb), flush=True)

    # C30: contracts whose functions do not differ between the two builds hold by identity
    identical = []
    if debug:
        diff = scan.differing(g.mod['prod'], g.mod['debug'])
        pats = dict()
        keep = []
        for c in own:
            cut = lambda dem, c=c: any(p(dem) for n, p, h in g.calls if n in c.uses)
            fs, _, _ = scan.reach(g.mod['debug'], ['@' + c.entry], cut)
            if c.fn or fs & diff or thorough: keep.append(c)
            else: identical.append(c)
        print('C30: %d functions differ between the builds: %s' % (len(diff), ', '.join(sorted(g.mod['debug'].dem.get(x, x) for x in diff))[:600]))
        target = keep
    else: target = own
    lems = [l for l in g.LS if prop in l.props or (l.key == 'dfc' and (used & {'cal2mjd', 'to_ymd', 'ydoy2mjd'}))]
    idx = {id(c): k for k, c in enumerate(g.CS)}
    tasks = []
    for c in target + deps:
        for k in range(len(c.cases)):
            tasks.append(('verify', idx[id(c)], k, work, {'cross': thorough}))
    for l in lems:
        li = g.LS.index(l)
        for k in range(len(l.cases)): tasks.append(('lemma', li, k, thorough))
    nv = len(tasks)
    # long ones first, so that the pool drains evenly
    order = sorted(range(nv), key=lambda k: -weight(tasks[k]))
    nsamp = 400 if not thorough else 20000
    nat = [('native', idx[id(c)], work, nsamp, seed, (), [(k, g.built[k][work]) for k in ('drv', 'san')], 20 if not thorough else 120) for c in target]
    natres = pool_run(nat, T0 + limit * .5)
    # frame of the whole interface
    scanres, bad = None, []
    if prop in ('C29', 'C24'):
        scanres = frame_scan(prop)
        if scanres['bad'] and not any(r['bad'] for r in natres): natres += history_search(prop, work, seed, deadline, scanres['bad'], bad)
    # a failing input already decides the verdict: the obligations are still generated, in less time
    found = bool(bad) or any(r['bad'] for r in natres)
    res = pool_run([tasks[k] for k in order], min(T0 + limit * .75, time.time() + 90) if found else T0 + limit * .75)
    ver = [None] * nv
    for k, r in zip(order, res): ver[k] = r
    g.cross, odd = collections.Counter(), {}
    if not found:
        live = [k for k in range(nv) if tasks[k][0] == 'verify']
        touched = {tasks[k][1] for k in live if ver[k].get('touched')}
        xt = [('cross', idx[id(c)], work, 3 if not thorough else 40, seed, g.built['drv'][work], 10 if not thorough else 60) for c in target + deps if idx[id(c)] not in touched]
        for r in pool_run(xt, min(deadline, time.time() + (60 if not thorough else 600))):
            g.cross.update(r.get('cross', {}))
            if r.get('dis'): odd[r['ci']] = r['dis']
    for ci, ds in odd.items():           # the generator misreads this code: nothing it says about it counts as proved
        print('GENERATOR-DISAGREES ' + ds[0][:400])
        for t, r in zip(tasks, ver):
            if t[0] == 'verify' and t[1] == ci:
                for o in r['obs']:
                    if o['status'] == 'ok': o['status'] = 'unknown'; o['note'] += ' (the generator disagrees with a native run)'
                    elif o['status'] == 'fail': o['precise'] = False
    for r in natres:
        if r['status'] != 'ok': print('self-test of %s: %s %s' % (r['contract'], r['status'], r.get('note', '')[-600:]))

    # bad: replayable violations
    for r in natres: bad += [b for b in r['bad'] if b not in bad]
    # contracts whose functions mention mutable globals and that do not hold for arbitrary
    # contents of them: look at the contents that call histories can produce
    again = [k for k in range(nv) if tasks[k][0] == 'verify' and ver[k].get('touched') and g.CS[tasks[k][1]].frame is None and not bad
             and (ver[k]['status'] not in ('ok', 'empty') or any(o['status'] != 'ok' for o in ver[k]['obs']))]
    ownids = {idx[id(c)] for c in own}
    stateful = {tasks[k][1] for k in range(nv) if ver[k].get('touched')}
    if again:
        print('mutable globals: %d contract cases do not hold for arbitrary contents; call histories are explored' % len(again), flush=True)
        rng = random.Random(seed); rng.shuffle(again)
        g.dic = constants(g.mod[work])
        hs = [seed_of(x) for k in again for x in ver[k].get('leads', ())[:8]][:300]
        more = pool_run([('nathist', sorted(stateful), {c.key for c in own}, work, 3000, seed + 11 * q, hs if q % 2 else (), g.built['drv'][work], 20) for q in range(NPROC)], deadline)
        natres += more
        for r in more: bad += r['bad']
        hd = time.time() + (deadline - time.time()) * .5
        cut = [k for k in again]
        while cut and not bad:
            chunk, cut = cut[:6 * NPROC], cut[6 * NPROC:]
            if time.time() > hd:
                for k in chunk + cut: ver[k] = dict(ver[k], status='budget', note='histories not explored', obs=[o for o in ver[k]['obs'] if o['status'] == 'ok'])
                break
            hr = pool_run([('history', tasks[k][1], tasks[k][2], tasks[k][3]) for k in chunk], hd)
            for k, r in zip(chunk, hr):
                fl = [o for o in r['obs'] if o['status'] == 'fail']
                for o in fl:
                    if tasks[k][1] not in ownids: continue
                    if o['inputs'] and not bad:
                        h = replay_history(g.CS[tasks[k][1]], tasks[k][3], o['inputs'])
                        if h: h['obligation'] = ob_text(g.CS[tasks[k][1]], r, o); bad.append(h)
                    if not bad: o['status'] = 'unknown'
                r['touched'] = ver[k]['touched']; ver[k] = r
    # failing or undischarged (contract, case)
    fail = collections.OrderedDict()      # ci -> [results]
    soft = []                             # undischarged without a counterexample
    for t, r in zip(tasks, ver):
        fs = [o for o in r['obs'] if o['status'] == 'fail']
        us = [o for o in r['obs'] if o['status'] == 'unknown']
        if t[0] == 'lemma':
            if fs: print('SPEC-ERROR lemma does not hold: ' + r['contract']); return 2
            if us or r['status'] != 'ok': soft.append((None, r))
            continue
        if fs: fail.setdefault(t[1], []).append((t, r, fs))
        elif us or r['status'] not in ('ok', 'empty'): soft.append((t[1], r))

    unresolved = []
    replayed = 0
    seeds = []
    ownset = {idx[id(c)] for c in own}
    for ci, lst in fail.items():
        c = g.CS[ci]
        hit = None
        for t, r, fs in lst:
            for o in fs:
                if o['inputs']:
                    seeds.append(seed_of(o['inputs']))
                    if hit is None and replayed < 60:
                        replayed += 1
                        hit = replay(c, t[3], o['inputs'])
                        if hit: hit['obligation'] = ob_text(c, r, o)
        if ci in ownset:
            if hit: bad.append(hit)
            else: unresolved.append((ci, lst))
    # an own contract failed but its counterexample does not replay: search natively, then look harder
    if unresolved and not bad:
        tl = max(20, min(120, (deadline - time.time()) / 3))
        ns = 60000 if not thorough else 400000
        more = pool_run([('native', ci, work, ns, seed + 1, seeds, [(k, g.built[k][work]) for k in ('drv', 'san')], tl) for ci, _ in unresolved], deadline)
        for (ci, lst), r in zip(unresolved, more):
            for b in r['bad']:
                b['obligation'] = ob_text(g.CS[ci], lst[0][1], lst[0][2][0]); bad.append(b)
        natres += more
    dead = []
    if unresolved and not bad:
        # rerun with longer limits, then with every callee inlined: is it still refuted?
        for ci, lst in unresolved:
            c = g.CS[ci]
            still = None
            for opt in ({'slow': True}, {'inline': True, 'slow': True}):
                if opt.get('inline') and not c.uses: continue
                rr = pool_run([('verify', ci, t[2], t[3], opt) for t, r, fs in lst[:8]], min(deadline, time.time() + 240))
                fl = [(t, r, [o for o in r['obs'] if o['status'] == 'fail']) for (t, _, _), r in zip(lst, rr)]
                un = [r for r in rr if r['status'] not in ('ok', 'empty') or any(o['status'] == 'unknown' for o in r['obs'])]
                fl = [x for x in fl if x[2]]
                for t, r, fs in fl:
                    for o in fs:
                        if o['inputs']:
                            h = replay(c, t[3], o['inputs'])
                            if h: h['obligation'] = ob_text(c, r, o); bad.append(h)
                if bad: break
                if not fl:
                    if un: still = None; soft.append((ci, un[0]))
                    else: still = None
                    if not un:
                        for t, r, fs in lst:                 # discharged on the second attempt
                            for o in fs: o['status'] = 'ok'; o['backend'] += ' (second attempt)'
                    break
                still = fl[0]
            if still and not bad:
                hard = [o for o in still[2] if o['precise'] and ci not in odd]
                if hard: dead.append((ci, (still[0], still[1], hard)))
                else:
                    # refuted over relations that admit more than what can run, and no input shows it
                    for t, r, fs in lst:
                        for o in fs: o['status'] = 'unknown'; o['note'] += ' (refuted only over abstracted values)'
                    soft.append((ci, lst[0][1]))
            if bad: break
    # callee contracts that failed: does the property itself break?
    depfail = [ci for ci in fail if ci not in ownset]
    depsoft = [ci for ci, r in soft if ci is not None and ci not in ownset]
    if (soft or depfail) and not bad:
        g.dic = constants(g.mod[work])
        for ci, r in soft:
            if r.get('leads') and not bad:
                seeds += [seed_of(x) for x in r['leads']]
                if ci in ownset and replayed < 200:
                    replayed += 1
                    h = try_leads(g.CS[ci], r.get('cfg', work), r['leads'])
                    if h: bad.append(h)
    if (depfail or depsoft or [1 for ci, r in soft if ci in ownset]) and not bad:
        tl = max(10, min(90, (deadline - time.time()) / 2))
        cand = {ci for ci, r in soft if ci in ownset}
        fns = {g.CS[ci].fn for ci in depfail + depsoft}
        for c in target:
            if transitive(c) & fns: cand.add(idx[id(c)])
        ns = (20000 if len(cand) < 20 else 6000) * (1 if not thorough else 10)
        more = pool_run([('native', ci, work, ns, seed + 2, seeds, [(k, g.built[k][work]) for k in ('drv', 'san')], tl) for ci in sorted(cand)], deadline)
        for r in more: bad += r['bad']
        natres += more
    noinput = []
    for ci, (t, r, fs) in dead: noinput.append((g.CS[ci], r, fs[0]))
    return report(prop, tier, seed, own, target, identical, deps, lems, tasks, ver, natres, bad, noinput, soft, fail, scanres, thorough, work)


def unverifiable(prop, tier, seed, own, cfg, thorough, deadline):
    """no IR (g++ compiles the sources, clang does not) or no way to read it: nothing is proved; every contract is searched natively"""
    print('no obligation can be generated: ' + ('clang does not compile the current sources (g++ does)\n' + g.built['note'][-600:] if g.built['note'] else 'the generator failed on the current sources'))
    idx = {id(c): k for k, c in enumerate(g.CS)}
    nat = [('native', idx[id(c)], cfg, 20000 if not thorough else 200000, seed, (), [(k, g.built[k][cfg]) for k in ('drv', 'san')], 30) for c in own]
    natres = pool_run(nat, deadline)
    bad = [b for r in natres for b in r['bad']]
    soft = [(idx[id(c)], {'contract': c.key}) for c in own]
    return report(prop, tier, seed, own, own, [], [], [], [], [], natres, bad, [], soft, {}, None, thorough, cfg)


def weight(t):
    if t[0] == 'lemma': return 3
    c = g.CS[t[1]]
    w = 1
    if c.string: w += 20
    if 'formatted and read' in c.name or '/ int' in c.name: w += 30
    return w


def transitive(c):
    s, w = set(), list(c.uses)
    while w:
        u = w.pop()
        if u in s: continue
        s.add(u)
        for d in g.CS:
            if d.fn == u: w += d.uses
    return s


def seed_of(inp):
    s = {k: v for k, v in inp.items() if isinstance(v, (int, float, Fraction))}
    import specs
    try:
        if 'y' in s and 'm' in s and 'd' in s and 1 <= s['m'] <= 12 and 'mjd' not in s: s['mjd'] = s['day'] = specs.DFCx(s['y'], s['m'], s['d'])
        elif 'mjd' in s and 'y' not in s:
            s['y'], s['m'], s['d'] = specs.civil(s['mjd']); s['day'] = s['mjd']
        elif 'y' in s and 'n' in s and 'mjd' not in s: s['mjd'] = s['day'] = specs.DFCx(s['y'], 1, 1) + s['n'] - 1
    except Exception: pass
    return s


def ob_text(c, r, o):
    return {'contract': c.key, 'case': r['case'], 'kind': o['kind'], 'name': o['note'], 'function': o['where'], 'back_end': o['backend'], 'model': {k: str(v) for k, v in (o['inputs'] or {}).items()}}


PURE = ('std::terminate', '__cxa_', '__clang_call_terminate', '_Unwind_Resume', 'llvm.', 'operator new', 'operator delete', 'std::exception', 'std::basic_', 'std::allocator', '__gxx_personality', 'std::__', 'std::ios', 'std::operator')


def frame_scan(prop):
    """no reachable function mentions mutable global state or calls a stateful library function"""
    mod = g.mod['prod']
    if prop == 'C29': roots = [n for n in mod.funcs if n[1:3] in ('e_', 't_') or (mod.dem.get(n, n).startswith('ngpt::') or ' ngpt::' in mod.dem.get(n, n))]
    else: roots = [n for n in mod.funcs if n.startswith(('@e_rd_', '@e_rs_'))]
    cut = lambda dem: g.lib.lookup('', dem) is not None if False else False
    from lib import L as lib
    modelled = lambda dem: any(p.match(dem) for p, f in lib.pats)
    bad, st, fs, ext = scan.mutable_mentions(mod, roots, modelled)
    unknown = []
    for e in sorted(ext):
        d = mod.dem.get(e, e)
        if lib.lookup(e, d) is None and not any(d.startswith(p) or e[1:].startswith(p) for p in PURE): unknown.append(d)
    return {'functions': sorted(mod.dem.get(f, f) for f in fs), 'bad': [('mutable global ' + mod.dem.get(a, a), b) for a, b in bad] + [('stateful library function ' + a, b) for a, b in st], 'unknown': unknown}


def history_search(prop, cfg, seed, deadline, found, bad):
    """A failing call history for mutable state found by the frame scan: native histories of the
    operations that reach it, then symbolic histories of each of them; what fails goes to bad."""
    from lib import L as lib
    mod = g.mod[cfg]
    fns = {b for a, b in found}
    modelled = lambda dem: any(p.match(dem) for p, f in lib.pats)
    hits = []
    for k, c in enumerate(g.CS):
        if c.frame is not None or '@' + c.entry not in mod.funcs: continue
        fs, _, _ = scan.reach(mod, ['@' + c.entry], lambda dem: modelled(dem) or any(p(dem) for n, p, h in g.calls if n in c.uses and c.fn != n))
        if {mod.dem.get(f, f) for f in fs} & fns: hits.append(k)
    if not hits:
        hits = [k for k, c in enumerate(g.CS) if (prop == 'C24') == bool(c.strgen and c.hist) and c.frame is None]
    print('mutable state in %s: %d contracts reach it; call histories are explored' % ('; '.join(sorted(fns))[:300], len(hits)), flush=True)
    rng = random.Random(seed)
    own = {g.CS[k].key for k in hits}
    tl = max(10, min(60, (deadline - time.time()) / 4))
    sets = []
    for q in range(max(NPROC, 2 * min(len(hits), 40))):
        sets.append([hits[q]] if q < len(hits) and q < 40 else sorted(rng.sample(hits, min(len(hits), rng.choice([2, 3, 6])))))
    more = pool_run([('nathist', cs, own, cfg, 2000, seed + 17 * q, (), g.built['drv'][cfg], tl / 4) for q, cs in enumerate(sets)], deadline)
    for r in more: bad += r['bad']
    hits = [k for k in hits if not g.CS[k].string]
    hits.sort(key=lambda k: (not g.CS[k].fn, k))
    for lo in range(0, min(len(hits), 8 * NPROC), 2 * NPROC):
        if bad or time.time() > deadline - 60: break
        ts = [('history', k, q, cfg) for k in hits[lo:lo + 2 * NPROC] for q in range(min(6, len(g.CS[k].cases)))]
        for t, r in zip(ts, pool_run(ts, min(deadline - 30, time.time() + 120))):
            for o in r['obs']:
                if o['status'] == 'fail' and o['inputs'] and not bad:
                    h = replay_history(g.CS[t[1]], cfg, o['inputs'])
                    if h: h['obligation'] = ob_text(g.CS[t[1]], r, o); bad.append(h)
    return more


def known():
    out = collections.defaultdict(list)
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding:'):
                m = __import__('re').match(r'finding: property=(\S+) match=(\{.*?\}) (.*)$', ln)
                if m: out[m[1]].append((json.loads(m[2]), m[3]))
    return out


def report(prop, tier, seed, own, target, identical, deps, lems, tasks, ver, natres, bad, noinput, soft, fail, scanres, thorough, cfg):
    obs = ok = 0
    be = collections.Counter()
    per = collections.OrderedDict()
    fns, libs, contr = set(), set(), set()
    st = collections.Counter()
    undis = []
    vt = 0.
    for t, r in zip(tasks, ver):
        d = per.setdefault(r['contract'], {'cases': 0, 'obligations': 0, 'discharged': 0, 'solver_and_execution_s': 0.})
        d['cases'] += 1; d['solver_and_execution_s'] = round(d['solver_and_execution_s'] + r['t'], 2)
        vt += r['t']
        for o in r['obs']:
            obs += 1; d['obligations'] += 1
            if o['status'] == 'ok': ok += 1; d['discharged'] += 1; be[o['backend']] += 1
            elif len(undis) < 40: undis.append('%s [%s] %s %s in %s: %s' % (r['contract'], r['case'], o['kind'], o['note'], o['where'][:80], o['status']))
        if r['status'] not in ('ok', 'empty') and len(undis) < 40: undis.append('%s [%s] %s: %s' % (r['contract'], r['case'], r['status'], r['note'][:200]))
        fns.update(r['fns']); libs.update(r['libs']); contr.update(r['calls'])
        for k, v in r['stats'].items(): st[k] += v
    if scanres:
        obs += len(scanres['functions']); ok += len(scanres['functions']) - len({b for a, b in scanres['bad']})
        be['syntactic frame check'] += len(scanres['functions']) - len({b for a, b in scanres['bad']})
    n = sum(r['n'] for r in natres)
    kf = known().get(prop, [])
    shown = set()
    viol = []
    for b in bad:
        k = next((txt for m, txt in kf if all(str(b['inputs'].get(q)) == str(v) or b.get(q) == v for q, v in m.items())), None)
        if k:
            if k not in shown: print('KNOWN-FINDING: property=%s %s' % (prop, k)); shown.add(k)
        else: viol.append(b)
    rc = 0
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    if viol or noinput or (scanres and scanres['bad']):
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, prop + '.json')
        if viol:
            b = viol[0]
            json.dump({'property': prop, 'violation': b, 'others': viol[1:6], 'how': 'printf the request lines into the native driver built by engine/build.py (%s.%s)' % (b['cfg'], b['exe']),
                       'undischarged': undis}, open(rp, 'w'), indent=1, default=str)
            print('violated: %s: %s\n  inputs %s\n  observed %s' % (b['contract'], '; '.join(b['violated'])[:300], json.dumps(b['inputs']), str(b['answers'])[:200]))
            if b.get('obligation'): print('  failed obligation: %s' % json.dumps(b['obligation']))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        else:
            if noinput:
                c, r, o = noinput[0]
                d = ob_text(c, r, o)
            else: d = {'contract': 'frame', 'kind': 'frame', 'name': scanres['bad'][0][0], 'function': scanres['bad'][0][1], 'all': scanres['bad'][:20]}
            json.dump({'property': prop, 'failed_obligation': d, 'undischarged': undis, 'all': [ob_text(*x) for x in noinput[:10]]}, open(rp, 'w'), indent=1, default=str)
            print('failed obligation: ' + json.dumps(d)[:800])
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        rc = 1
    for u in undis[:12]: print('undischarged: ' + u[:300])
    bounded = sorted({r['contract'] for ci, r in soft if ci is not None} | {g.CS[ci].key for ci in fail})
    if bounded and rc == 0: print('bounded stand-in (native search, %d inputs) for: %s' % (n, ', '.join(bounded)[:600]))
    samples = [s for r in natres for s in r.get('samples', ())][:6]
    reach = collections.Counter()
    for t, r in zip(tasks, ver):
        for k, v in r['reach'].items(): reach[k] += int(v)
    cov = {'obligations': obs, 'discharged': ok, 'checker_cmd': 'python3-vt engine/run.py %s --tier %s' % (prop, tier),
           'trusted_base': TRUST + ['modelled library function: ' + x[:120] for x in sorted(libs)],
           'back_ends': dict(be), 'solver': dict(st), 'verification_cpu_s': round(vt, 1), 'reachable_outcomes': dict(reach),
           'functions_executed_symbolically': sorted(f[:160] for f in fns if 'ngpt' in f or f.startswith(('e_', 't_'))),
           'callee_contracts_applied': sorted(contr), 'contracts': per, 'own_contracts': [c.key for c in own], 'callee_contracts_verified': [c.key for c in deps],
           'lemmas': [l.name for l in lems], 'undischarged': undis, 'bounded': bounded,
           'native_self_test': {'inputs': n, 'what': 'the real code on sampled inputs satisfying the precondition, judged by the same contract (plain and sanitized builds); not part of the proof'},
           'generator_cross_check': {'agree': 0, **dict(g.cross), 'what': 'native runs re-executed by the generator on the same concrete input: agree = the native outcome is among the outcomes the generator allows; a disagreement voids the obligations of that contract'},
           'samples': samples}
    if identical: cov['identical_in_both_builds'] = [c.key for c in identical]
    if scanres: cov['frame_scan'] = {'functions': len(scanres['functions']), 'mentions_of_mutable_state': scanres['bad'], 'library_functions_without_model': scanres['unknown']}
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov, 'assumptions': ASSUME, 'wall_s': round(time.time() - T0, 2), 'violations': len(viol) + (1 if rc and not viol else 0)},
              open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d/%d obligations discharged (%s), %d native inputs, generator cross-check %s, %.1f s, exit %d' % (prop, ok, obs, ', '.join('%s %d' % x for x in be.most_common(6)), n, ', '.join('%s %d' % x for x in sorted(g.cross.items())) or 'none', time.time() - T0, rc))
    return rc


TRUST = ['the verification-condition generator (engine/ir.py, sym.py, core.py) and its reading of LLVM IR (cross-checked against native runs on every run: coverage.generator_cross_check)', 'clang 18 -O0 producing the IR from /repo/src (the IR is what is verified; the tests run g++ code; that both compilers see the same text after preprocessing is checked on every run)',
         'z3 4.8/cvc5 1.1 answering unsat', 'models of C and C++ library functions (engine/lib.py)']
ASSUME = ['IEEE-754 binary64, round to nearest; each floating-point operation is modelled exactly or by its rounding bounds, no excess precision (-ffp-contract=off)',
          'signed integers are exact with an overflow obligation at every operation; unsigned arithmetic is modular', 'the C locale; allocation succeeds',
          'library calls behave as in engine/lib.py; exceptions thrown by the standard library other than those modelled do not occur',
          'templates are verified at their instantiations with seconds, milliseconds and microseconds']

if __name__ == '__main__':
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    try: rc = main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); rc = 2
        if getattr(g, 'fallback', None):
            try: rc = unverifiable(*g.fallback, time.time() + 200)
            except BaseException: traceback.print_exc()
    sys.stdout.flush()
    os._exit(rc)
