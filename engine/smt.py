"""Solver front: z3 (in process), cvc5 as second back end (SMT-LIB text)."""
import z3, time, subprocess, tempfile, os

STATS = {'z3': 0, 'cvc5': 0, 'z3_time': 0.0, 'cvc5_time': 0.0, 'feas': 0, 'feas_time': 0.0}


def solver(timeout_ms):
    s = z3.SolverFor('AUFLIRA') if False else z3.Solver()
    s.set('timeout', int(timeout_ms))
    return s


def check(cs, timeout_ms=8000):
    """-> ('unsat'|'sat'|'unknown', model|None)"""
    t = time.time()
    s = solver(timeout_ms)
    for c in cs:
        if c is True: continue
        if c is False: return 'unsat', None
        s.add(c)
    r = s.check()
    STATS['z3'] += 1; STATS['z3_time'] += time.time() - t
    if r == z3.unsat: return 'unsat', None
    if r == z3.sat: return 'sat', s.model()
    return 'unknown', None


def feasible(cs, timeout_ms=1500):
    t = time.time()
    s = solver(timeout_ms)
    for c in cs:
        if c is True: continue
        if c is False: return False
        s.add(c)
    r = s.check()
    STATS['feas'] += 1; STATS['feas_time'] += time.time() - t
    return r != z3.unsat


def to_smt2(cs):
    s = z3.Solver()
    for c in cs:
        if c is True: continue
        s.add(c if isinstance(c, z3.ExprRef) else z3.BoolVal(bool(c)))
    return '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')


def cvc5(cs, timeout_ms=20000):
    t = time.time()
    fd, p = tempfile.mkstemp(suffix='.smt2')
    with os.fdopen(fd, 'w') as f: f.write(to_smt2(cs))
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, p], capture_output=True, text=True,
                           timeout=timeout_ms / 1000 + 5)
        out = r.stdout.strip().split('\n')[0]
    except (subprocess.TimeoutExpired, FileNotFoundError):
        out = 'unknown'
    finally:
        os.unlink(p)
    STATS['cvc5'] += 1; STATS['cvc5_time'] += time.time() - t
    return out if out in ('sat', 'unsat') else 'unknown'
