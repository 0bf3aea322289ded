"""Running the real code: the harness compiled natively, plain (g++ -O2) and with
AddressSanitizer and UndefinedBehaviorSanitizer (clang).  Used to replay
counterexamples, to search where the verifier gives no usable input, and as a
self-test of the contracts."""
import subprocess, re, os, resource

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:symbolize=0', UBSAN_OPTIONS='print_stacktrace=0')


def parse(ln):
    p = ln.split()
    if not p: return ('crash', 'no answer')
    if p[0] == 'R': return ('ret', [int(x) for x in p[1:17]], [float.fromhex(x) if x[-1] not in 'nf' else float(x) for x in p[17:21]])
    if p[0] == 'T': return ('txt', bytes.fromhex(p[1][1:]), [int(x) for x in p[2:18]])
    if p[0] == 'X': return ('throw', re.sub(r'^St\d+', '', p[1]))
    return ('none',)


def message(err):
    m = re.search(r'runtime error: .*', err) or re.search(r'ERROR: AddressSanitizer: [^\n]*', err) or re.search(r'Assertion.*failed', err) or re.search(r"terminate called[^\n]*", err)
    return m[0][:300] if m else (err.strip().split('\n')[-1][:300] if err.strip() else 'process ended')


def ask(exe, reqs, tmo=25):
    """answers to a list of request lines; one process as long as it lives (histories);
    after a request that is not answered within 10 s in a process of its own, the rest is left unanswered"""
    out = []
    k = idle = 0
    cpu = lambda: resource.getrusage(resource.RUSAGE_CHILDREN).ru_utime
    while k < len(reqs):
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (60, 60)))
        hung, t0 = False, cpu()
        try: o, e = p.communicate('\n'.join(reqs[k:]) + '\n', timeout=tmo)
        except subprocess.TimeoutExpired:
            p.kill(); o, e = p.communicate(); hung = True
        ls = [l for l in o.split('\n') if l]
        out += [parse(l) for l in ls]
        n = len(ls)
        k += n
        if k < len(reqs):
            if hung:
                if n == 0 and tmo <= 10 and cpu() - t0 < 4 and idle < 2: idle += 1; continue       # stalled rather than busy: once more
                if n == 0 and tmo <= 10: return out + [('hang',)] + [('none',)] * (len(reqs) - k - 1)
                tmo = 10
                continue
            out.append(('crash', message(e) + ('' if p.returncode is None or p.returncode >= 0 else ' (signal %d)' % -p.returncode))); k += 1
    return out
