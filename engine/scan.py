"""Syntactic frame conditions: which functions are reachable from which entry, which
mutable globals they mention, which library functions with hidden state they call.
Used for: C29 (no function mentions mutable global state), C24 (errno aside, readers
are functions of the string), C30 (which functions differ between two builds)."""
import re

REF = re.compile(r'@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)')
STATEFUL = re.compile(r'^@(rand|srand|random|srandom|drand48|time|clock|clock_gettime|gettimeofday|localtime|gmtime|mktime|asctime|ctime|strtok|getenv|setenv|putenv|setlocale|localeconv|tmpnam|strerror|signal|raise|fesetround|feenableexcept|'
                      r'_ZNSt6chrono.*now.*|_ZNSt13random_device.*|_ZNSt6locale6global.*|_ZNSt6localeC.*|_ZNKSt6localeeqE.*|srand48|lrand48|mrand48|getpid|pthread_.*|_ZNSt6thread.*)$')


def refs(f):
    """names a function's instructions mention (metadata and attributes excluded)"""
    if not hasattr(f, '_refs'):
        s = set()
        for _, ln in f.raw:
            if '@' in ln: s.update(REF.findall(re.sub(r', ?![-a-zA-Z0-9. !]+', '', ln)))
        f._refs = s
    return f._refs


def reach(mod, roots, cut=lambda dem: False):
    """-> (defined functions reached, external functions reached, globals mentioned {global: [functions]})"""
    seen, ext, glo = set(), set(), {}
    work = [r for r in roots if r in mod.funcs]
    while work:
        n = work.pop()
        if n in seen: continue
        seen.add(n)
        for r in refs(mod.funcs[n]):
            if r in mod.funcs:
                if not cut(mod.dem.get(r, r)): work.append(r)
            elif r in mod.globals:
                glo.setdefault(r, set()).add(n)
                g = mod.globals[r]
                work += [q for q in mod.inits.get(r, ()) if q not in seen]
                # functions reached through tables and vtables
                for q in REF.findall(repr(g.init) if g.init is not None else ''):
                    if q in mod.funcs and q not in seen: work.append(q)
            elif r in mod.decls: ext.add(r)
    return seen, ext, glo


def benign(name):
    """compiler and runtime objects without program-visible state"""
    return name.startswith(('@_ZTI', '@_ZTV', '@_ZTS', '@_ZTT', '@llvm.', '@.str', '@__PRETTY_FUNCTION__', '@__func__')) or name in ('@__dso_handle',)


def mutable_mentions(mod, roots, skip=lambda dem: False):
    """[(global, function)] for every reachable mention of a mutable global, [(external, function)] for stateful library calls"""
    fs, ext, glo = reach(mod, roots, skip)
    bad = []
    for g, users in sorted(glo.items()):
        if benign(g): continue
        o = mod.globals[g]
        if o.const is True and not getattr(o, 'tls', False): continue
        if g in mod.settled: continue
        for u in sorted(users): bad.append((g, mod.dem.get(u, u)))
    st = []
    for e in sorted(ext):
        if STATEFUL.match(e):
            for f in sorted(fs):
                if e in refs(mod.funcs[f]): st.append((mod.dem.get(e, e), mod.dem.get(f, f)))
    return bad, st, fs, ext


def promote(mod):
    """mutable globals that no instruction of the module writes or lets escape are constants"""
    n = 0
    use = {}
    for f in mod.funcs.values():
        for _, ln in f.raw:
            if '@' not in ln: continue
            for r in REF.findall(ln):
                g = mod.globals.get(r)
                if g is None or g.ty == 'alias' or g.const: continue
                s = ln.strip()
                ok = bool(re.match(r'%\S+ = load [^@]*, ptr ' + re.escape(r) + r'(,|$)', s))
                ok = ok or bool(re.match(r'%\S+ = load .*, ptr getelementptr inbounds \([^@]*, ptr ' + re.escape(r) + r'[^@]*\)(,|$)', s))
                mg = re.match(r'(%\S+) = getelementptr inbounds [^@]*, ptr ' + re.escape(r) + r',', s)
                if mg and only_loaded(f, mg[1]): ok = True
                use.setdefault(r, []).append(ok)
    for r, g in mod.globals.items():
        if g.ty == 'alias' or g.const or g.init is None or getattr(g, 'tls', False) or benign(r): continue
        if r in mod.guarded: continue
        if all(use.get(r, [True])): g.const = True; n += 1
    return n


def only_loaded(f, reg):
    for _, ln in f.raw:
        if re.search(re.escape(reg) + r'(?![-a-zA-Z$._0-9])', ln):
            s = ln.strip()
            if s.startswith(reg + ' = '): continue
            if re.match(r'%\S+ = load .*, ptr ' + re.escape(reg) + r'(,|$)', s): continue
            m = re.match(r'(%\S+) = getelementptr inbounds .*, ptr ' + re.escape(reg) + r',', s)
            if m and only_loaded(f, m[1]): continue
            return False
    return True


# ------------------------------------------------------------ dynamically initialised constants
REG = re.compile(r'%(?:"[^"]*"|[-a-zA-Z$._0-9]+)')
READERS = ('@strlen', '@strcmp', '@strncmp', '@memcmp', '@strcasecmp', '@strncasecmp', '@memchr', '@strchr', '@llvm.memcpy')
INIT = re.compile(r'^@__cxx_global_var_init(\.\d+)*$')
ATEXIT = re.compile(r'^@__cxx_global_array_dtor(\.\d+)*$')     # runs after main


def settled(mod):
    """Globals that hold one value from their initialisation on: function-local statics with a
    guarded initialiser that no instruction outside it can write and whose initialiser uses
    nothing of the call that happens to come first; objects of namespace scope that only their
    start-up initialiser writes, which mentions no other mutable object.  (What an initialiser
    itself calls is scanned like any other function.)  Flow-insensitive, on the instructions of
    the module."""
    out = set()
    users = {}
    for f in mod.funcs.values():
        for r in refs(f):
            if r in mod.globals: users.setdefault(r, set()).add(f.name)
    fun = {f.name: f for f in mod.funcs.values()}
    for g in mod.globals:
        if not g.startswith('@_ZGV'): continue
        x = g.replace('_ZGV', '_Z', 1)
        o = mod.globals.get(x)
        if o is None or getattr(o, 'tls', False) or o.const or mod.globals[g].ty == 'alias': continue
        try:
            fs = users.get(x, set()) | users.get(g, set())
            if fs and not any(INIT.match(n) for n in fs) and all(writes_only_initially(mod, fun[n], x, g) for n in fs): out |= {x, g}
        except Exception: continue
    for n in sorted(fun):
        if not INIT.match(n): continue
        f = fun[n]
        try:
            xs = set()
            ok = True
            for r in refs(f):
                o = mod.globals.get(r)
                if o is None or benign(r) or o.const is True: continue
                if getattr(o, 'tls', False) or o.ty == 'alias' or o.init is None: ok = False; break
                xs.add(r)
            if not ok or not xs: continue
            for x in xs:
                for u in users[x] - {n}:
                    if ATEXIT.match(u): continue
                    if not reads_only(mod, fun[u], x, lambda b, k: False): ok = False
            if ok:
                out |= xs
                for x in xs: mod.inits.setdefault(x, []).append(n)
        except Exception: continue
    for x in [x for x, ns in mod.inits.items() if len(ns) != 1]: out.discard(x)
    return out


def writes_only_initially(mod, f, x, g):
    f.parse()
    name = {}
    acq = [(b, i) for b in f.blocks for i in f.blocks[b] if '@__cxa_guard_acquire(ptr' in i.text and g in REF.findall(i.text)]
    if len(acq) != 1: return False
    b0, ia = acq[0]
    # the region between a successful acquire and the release
    br = f.blocks[b0][-1]
    labels = [t for t in re.findall(r'label (%"[^"]*"|%[-a-zA-Z$._0-9]+)', br.text)]
    cmp_ = [i for i in f.blocks[b0] if i.op == 'icmp' and ia.res in REG.findall(i.text.split('=', 1)[1])]
    if len(labels) != 2 or len(cmp_) != 1 or ' ne ' not in cmp_[0].text: return False
    region, exc, work = {}, set(), [(labels[0], False)]
    while work:
        b, e = work.pop()
        if b in region: continue
        blk = f.blocks[b]
        stop = len(blk)
        for k, i in enumerate(blk):
            if '@__cxa_guard_release(ptr' in i.text or i.op == 'resume': stop = k + 1; break
        region[b] = stop
        e = e or (bool(blk) and 'landingpad' in blk[0].text)
        if e: exc.add(b)
        if stop == len(blk):
            last = blk[-1].text
            if b in (labels[1], b0): return False
            for t in re.findall(r'label (%"[^"]*"|%[-a-zA-Z$._0-9]+)', last): work.append((t, e))
    inside = lambda b, k: b in region and k < region[b]
    allocas = {i.res for b in f.blocks for i in f.blocks[b] if i.op == 'alloca'}
    defs = {i.res for b in f.blocks for k, i in enumerate(f.blocks[b]) if i.res and inside(b, k)}
    used_out = set()
    for b in f.blocks:
        for k, i in enumerate(f.blocks[b]):
            if not inside(b, k) or b in exc: used_out |= set(REG.findall(i.text)) if not inside(b, k) else set()
    lab = set(f.blocks)
    for b in region:
        if b in exc: continue
        for k, i in enumerate(f.blocks[b][:region[b]]):
            for r in REG.findall(re.sub(r'label %\S+', '', i.text)):
                if r in defs or r in lab or r in mod.types or r == i.res: continue
                if r in allocas and (r not in used_out_ops(f, inside, r)): continue
                return False
    return reads_only(mod, f, x, inside)


def reads_only(mod, f, x, inside):
    """nothing outside the region can write to x: what holds or derives from its address is followed"""
    f.parse()
    allocas = {i.res for b in f.blocks for i in f.blocks[b] if i.op == 'alloca'}
    D, H = {x}, set()
    change = True
    while change:
        change = False
        for b in f.blocks:
            for k, i in enumerate(f.blocks[b]):
                if inside(b, k): continue
                t = i.text
                rhs = t.split(' = ', 1)[1] if i.res else t
                rhs = re.sub(r'label %\S+', '', rhs)
                names = set(REG.findall(rhs)) | set(REF.findall(rhs))
                d, h = names & D, names & H
                if not d and not h: continue
                op = i.op
                if op in ('gep', 'select', 'phi', 'freeze', 'cast', 'extractvalue', 'insertvalue'): r = 'D' if d else 'H'
                elif op == 'load':
                    r = 'D' if re.match(r'load (volatile )?ptr', rhs) else None
                elif op in ('icmp', 'cbr', 'br', 'bin', 'ret', 'landingpad'):
                    if op == 'ret' and (d or h): return False
                    r = None
                elif op == 'store':
                    m = re.match(r'store (?:volatile )?(.*), ptr ([^,()\s]+|getelementptr .*\))(?:, align \d+)?(?:, !.*)?$', rhs)
                    if not m: return False
                    val, to = (set(REG.findall(y)) | set(REF.findall(y)) for y in (m[1], m[2]))
                    if to & D: return False
                    if val & (D | H):
                        if len(to) == 1 and to <= allocas:
                            if not to <= H: H |= to; change = True
                        elif not (to and to <= H): return False
                    r = None
                elif op == 'call':
                    if not readonly(mod, i, rhs, d): return False
                    r = 'D' if re.search(r'(call|invoke)[^@]*\bptr\b[^@]*@', rhs) or re.search(r'(call|invoke)[^@]*\{', rhs) else None
                else: return False
                if r and i.res and i.res not in (D if r == 'D' else H):
                    (D if r == 'D' else H).add(i.res); change = True
    return True


def used_out_ops(f, inside, r):
    """the register, if an instruction outside the region other than its definition mentions it"""
    for b in f.blocks:
        for k, i in enumerate(f.blocks[b]):
            if not inside(b, k) and i.op != 'alloca' and r in REG.findall(i.text) and 'llvm.lifetime' not in i.text: return {r}
    return set()


def readonly(mod, i, rhs, d):
    m = re.search(r'@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', rhs)
    if not m: return False
    fn = m[0][:-1]
    if fn.startswith(('@llvm.lifetime', '@llvm.dbg')) or fn in READERS and not fn.startswith('@llvm.memcpy'): return True
    args = rhs[m.end():]
    if fn.startswith('@llvm.memcpy'): return not (set(REG.findall(args.split(',')[0])) | set(REF.findall(args.split(',')[0]))) & d
    if not d: return True           # only a local holder (an iterator, say) is passed
    dem = mod.dem.get(fn, fn)
    if '(' not in dem: return False
    const = dem.endswith(') const')
    body = dem[:-6] if const else dem
    depth, k = 0, len(body) - 1
    while k >= 0:
        depth += (body[k] == ')') - (body[k] == '(')
        if depth == 0: break
        k -= 1
    ps, depth, cur = [], 0, ''
    for c in body[k + 1:-1]:
        depth += c in '<(['
        depth -= c in '>)]'
        if c == ',' and depth == 0: ps.append(cur); cur = ''
        else: cur += c
    if cur: ps.append(cur)
    if any(('&' in p or '*' in p) and 'const' not in p for p in ps): return False
    # the object itself
    if const: return True
    first = [a for a in re.split(r',(?![^(]*\))', args) if 'sret' not in a][:1]
    takes = bool(first) and bool((set(REG.findall(first[0])) | set(REF.findall(first[0]))) & d)
    nm = re.sub(r'operator(<=|>=|<<|>>|<|>)', 'operator@', body[:k])
    while re.search(r'<[^<>]*>', nm): nm = re.sub(r'<[^<>]*>', '', nm)
    owner = nm.strip().split(' ')[-1].rpartition('::')[0]
    free = owner in ('', 'std', 'std::__cxx11', '__gnu_cxx', 'ngpt')
    return free or not takes


# ------------------------------------------------------------ comparing two builds
def canon(mod, f):
    """text of a function with build-specific numbering removed"""
    out = []
    for _, ln in f.raw:
        ln = re.sub(r', ![-a-zA-Z]+ ![0-9]+', '', ln)
        ln = re.sub(r'#\d+', '#', ln)
        def g(m):
            n = m[0]
            if n.startswith(('@.str', '@__PRETTY')):
                o = mod.globals.get(n)
                return '@S<' + repr(o.init)[:400] + '>' if o else n
            return n
        out.append(REF.sub(g, ln))
    return '\n'.join(out)


def differing(a, b):
    """names of functions whose text differs between two builds of the same sources"""
    d = set()
    for n in set(a.funcs) | set(b.funcs):
        if n not in a.funcs or n not in b.funcs: d.add(n); continue
        if canon(a, a.funcs[n]) != canon(b, b.funcs[n]): d.add(n)
    return d
