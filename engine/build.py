"""Compile /repo's current sources together with the harness: LLVM IR for the
verifier, native drivers (plain and sanitized) for replay."""
import os, re, subprocess, hashlib, glob, shutil, time, json
REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, 'build')
CLANG = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
LINK = '/usr/bin/llvm-link-18' if os.path.exists('/usr/bin/llvm-link-18') else 'llvm-link'
CFG = {'prod': [], 'debug': ['-DDEBUG']}
SRC = ['dtfund.cpp', 'dat.cpp']


class BuildError(Exception):
    pass


def digest():
    h = hashlib.sha256()
    fs = sorted(glob.glob(REPO + '/src/*.?pp') + glob.glob(REPO + '/src/*.h*') + glob.glob(REPO + '/src/*.inc')) + sorted(glob.glob(ROOT + '/harness/*')) + [os.path.abspath(__file__)]
    for f in dict.fromkeys(fs):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]


def sh(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stderr[-3000:])


def wait(ps):
    for c, p in ps:
        o, e = p.communicate()
        if p.returncode: raise BuildError(' '.join(c) + '\n' + (e or '')[-3000:])


def sources():
    """every library translation unit (new .cpp files are picked up)"""
    return sorted(glob.glob(REPO + '/src/*.cpp'))


def mentions(pat):
    return any(re.search(pat, open(f, errors='replace').read()) for f in sources() + glob.glob(REPO + '/src/*.h*') + glob.glob(REPO + '/src/*.inc'))


def purge(keep):
    """drop build directories of other source states that nothing has used for an hour"""
    for x in glob.glob(BUILD + '/*'):
        try:
            if os.path.basename(x) != keep and time.time() - os.path.getmtime(x) > 3600: shutil.rmtree(x, ignore_errors=True)
        except OSError: pass


def starts(lines):
    """entry name defined at each line (an entry may run over several lines)"""
    out, cur = [], None
    for l in lines:
        m = re.match(r'(?:E|T)\((\w+?)(?:_##|\))', l)
        if m: cur = m[1]
        elif not l[:1].isspace() or not l.strip(): cur = None
        out.append(cur)
    return out


def reduce(h, dst, cfgs):
    """Copy the harness to dst without the entries that no longer compile against
    the current sources; -> their names, or None when that does not help."""
    lines = open(h).read().split('\n')
    st = starts(lines)
    drop = set()
    for _ in range(8):
        open(dst, 'w').write('\n'.join(l if st[k] not in drop or st[k] is None else ('\\' if l.endswith('\\') else '') for k, l in enumerate(lines)))
        bad, errs = set(), 0
        for c in cfgs:
            r = subprocess.run([CLANG, '-std=c++17', '-I' + REPO + '/src', '-I' + ROOT + '/harness'] + CFG[c] + ['-fsyntax-only', '-Wno-everything', '-ferror-limit=0', '-fmacro-backtrace-limit=0', '-ftemplate-backtrace-limit=0', dst], capture_output=True, text=True)
            if r.returncode: errs += 1
            for m in re.finditer(re.escape(dst) + r':(\d+):', r.stderr):
                n = st[int(m[1]) - 1]
                if n: bad.add(n)
        if not errs: return sorted(drop)
        if not bad - drop: return None
        drop |= bad
    return None


def build(cfgs=('prod',), native=True):
    """-> dict(ir={cfg: path}, drv=path, san=path, dropped=[entries that do not compile])"""
    d = os.path.join(BUILD, digest())
    note, alt = d + '/dropped.json', d + '/entries.cpp'
    if os.path.exists(note): h = alt
    else: h = None
    try: out = build1(cfgs, native, h)
    except BuildError as e:
        if h: raise
        t = f'{d}/entries{os.getpid()}.cpp'
        dr = reduce(ROOT + '/harness/entries.cpp', t, list(CFG))
        if not dr:
            # what g++ accepts and clang does not cannot be verified; it can still be run
            try: out = build1(cfgs, native, None, gcc=True)
            except BuildError: raise e
            out.update(ir={}, dropped=[], note=str(e)[-1500:])
            return out
        os.rename(t, alt)
        json.dump(dr, open(note, 'w'))
        out = build1(cfgs, native, alt)
    out['note'] = ''
    out['dropped'] = json.load(open(note)) if os.path.exists(note) else []
    return out


def text_seen(cmd):
    """what the preprocessor leaves of the library's own files, without white space"""
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    out, cur = {}, None
    for l in r.stdout.decode('latin1').split('\n'):
        m = re.match(r'# \d+ "([^"]*)"', l)
        if m: cur = m[1] if m[1].startswith(REPO + '/src/') else None
        elif cur: out[cur] = out.get(cur, '') + re.sub(r'\s+', '', l)
    return out if not r.returncode else None


def as_gcc(inc, cfgs, h, d):
    """Clang has to read the text that g++ -O2 compiles. -> extra clang flags that see to it ([] when it
    does anyway), None when there are none (the sources distinguish the compilers in another way)"""
    memo = d + '/front.json'
    if os.path.exists(memo): return json.load(open(memo))
    fs = sources() + [h]
    want = {(c, s): text_seen(['g++'] + inc + CFG[c] + ['-O2', '-E', s]) for c in cfgs for s in fs}
    same = lambda fl: all(w is None or w == text_seen([CLANG] + inc + CFG[c] + ['-O0'] + fl + ['-E', s]) for (c, s), w in want.items())
    fl = []
    if not same(fl):
        # the macros of g++, once the system headers are read
        mac = lambda cc: dict(l.split(' ', 2)[1:] if l.count(' ') > 1 else (l.split(' ')[1], '') for l in subprocess.run(cc + ['-std=c++17', '-dM', '-E', '-x', 'c++', '/dev/null'], capture_output=True, text=True).stdout.split('\n') if l)
        a, b = mac(['g++', '-O2']), mac([CLANG, '-O0'])
        hs = {x for f in fs + glob.glob(REPO + '/src/*.h*') + glob.glob(REPO + '/src/*.inc') + glob.glob(ROOT + '/harness/*') for x in re.findall(r'#\s*include\s*<([^>]+)>', open(f, errors='replace').read())}
        t = ['#if __has_include(<%s>)\n#include <%s>\n#endif' % (x, x) for x in sorted(hs)]
        t += ['#undef %s' % k for k in sorted(b) if '(' not in k and a.get(k) != b[k]]
        t += ['#define %s %s' % (k, a[k]) for k in sorted(a) if '(' not in k and a[k] != b.get(k)]
        shim = d + '/gcc.hpp'
        open(shim, 'w').write('\n'.join(t) + '\n')
        fl = ['-include', shim]
        if not same(fl): fl = None
    json.dump(fl, open(memo + str(os.getpid()), 'w')); os.rename(memo + str(os.getpid()), memo)
    return fl


def build1(cfgs, native, h, gcc=False):
    d = os.path.join(BUILD, digest())
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    purge(os.path.basename(d))
    out = {'ir': {}, 'drv': {}, 'san': {}}
    ps = []
    todo = []
    tmp = d + '.tmp%d' % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    h = h or ROOT + '/harness/entries.cpp'
    inc = ['-std=c++17', '-I' + REPO + '/src', '-I' + ROOT + '/harness']
    links = []
    front = [] if gcc else as_gcc(inc, list(CFG), h, d)
    if front is None:
        shutil.rmtree(tmp, ignore_errors=True)
        raise BuildError('clang does not see the text that g++ compiles')
    for c in cfgs:
        ll = f'{d}/{c}.ll'
        out['ir'][c] = ll
        if not os.path.exists(ll) and not gcc:
            parts = []
            for s in sources() + [h]:
                o = f'{tmp}/{c}_{os.path.basename(s)}.ll'
                cmd = [CLANG] + front + inc + CFG[c] + ['-Wno-everything', '-O0', '-ffp-contract=off', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-S', '-emit-llvm', s, '-o', o]
                ps.append((cmd, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
                parts.append(o)
            links.append((c, parts, ll))
        if native:
            for k, fl in (('drv', ['-O2']), ('san', ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=' + ('vptr' if gcc else 'vptr,function'), '-fno-sanitize-recover=all'])):
                ex = f'{d}/{c}.{k}'
                out[k][c] = ex
                if not os.path.exists(ex):
                    t = f'{tmp}/{c}.{k}'
                    cc = 'g++' if k == 'drv' or gcc else CLANG
                    cmd = [cc] + (front if cc == CLANG else []) + inc + CFG[c] + fl + ['-w' if cc == 'g++' else '-Wno-everything', '-DNATIVE', h] + sources() + ['-rdynamic', '-ldl', '-o', t]
                    ps.append((cmd, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
                    todo.append((t, ex))
    try:
        wait(ps)
        for c, parts, ll in links:
            t = f'{tmp}/{c}.ll'
            sh([LINK, '-S'] + parts + ['-o', t]); os.rename(t, ll)
        for t, ex in todo: os.rename(t, ex)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


if __name__ == '__main__':
    t = time.time()
    o = build(('prod', 'debug'))
    print('built %s in %.1f s' % (', '.join(sorted(o['ir'].values())), time.time() - t))
