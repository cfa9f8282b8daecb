"""Driver: decide one property by discharging the contracts of its units."""
import os, re, sys, json, time, shutil, subprocess, tempfile, threading, resource, glob
from concurrent.futures import ThreadPoolExecutor
import annotate

VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.realpath(__file__)), '..'))
REPO = os.environ.get('VF_REPO', '/repo')
LIB = os.path.join(VERIF, 'lib')
DEFS = ['-D__linux__=1', '-D__amd64__=1', '-D_GNU_SOURCE=1']
BASE_FLAGS = ['--no-standard-checks', '--pointer-check', '--bounds-check', '--div-by-zero-check',
              '--no-malloc-may-fail', '--drop-unused-functions']
VERBOSE = False
DEADLINE = None            # wall clock limit for the whole check
PROCS = set()

def log(*a):
    if VERBOSE:
        print(*a, file=sys.stderr, flush=True)

# ------------------------------------------------------------------ units

class Unit:
    def __init__(self, pid, path, name, kv):
        self.pid, self.path, self.name, self.kv = pid, path, name, kv
        self.kind = kv.get('kind', 'full')
        self.fns = [x for x in kv.get('fn', '').split(',') if x]
        self.entry = 'harness_' + name
        self.annots = {}      # rel source -> {fn: {...}}
        self.natives = []
        self.includes = []
        self.trusts = []
        self.asserts = []

def parse_units(pid):
    units = []
    for path in sorted(glob.glob(os.path.join(VERIF, 'props', pid, '*.c'))):
        cur, natives, annots, incs, trusts, mine, substs = None, [], {}, [], [], [], []
        for ln, line in enumerate(open(path), 1):
            m = re.match(r'\s*//@\s*(.*?)\s*$', line)
            if not m:
                continue
            t = m.group(1)
            if not t: continue
            w = t.split(None, 1)
            op, rest = w[0], (w[1] if len(w) > 1 else '')
            if op == 'unit':
                name, *kvs = re.findall(r'(?:[^\s"]|"[^"]*")+', rest)
                kv = {}
                for x in kvs:
                    k, _, v = x.partition('=')
                    kv[k] = v.strip('"')
                u = Unit(pid, path, name, kv)
                mine.append(u)
            elif op == 'native':
                natives += rest.split()
            elif op == 'include':
                incs += rest.split()
            elif op == 'trust':
                trusts.append(rest)
            elif op == 'annot':
                src, fn, k = rest.split()
                sp = annots.setdefault(src, {}).setdefault(fn, {'loops': {}, 'nloops': None, 'ghost': {}})
                cur = (sp, int(k))
                sp['loops'].setdefault(int(k), [])
            elif op == 'nloops':
                src, fn, k = rest.split()
                sp = annots.setdefault(src, {}).setdefault(fn, {'loops': {}, 'nloops': None, 'ghost': {}})
                sp['nloops'] = int(k)
            elif op == 'subst':       # mechanical textual substitution in the verified copy
                src, body = rest.split(None, 1)
                a, _, b = body.partition(' => ')
                substs.append((src, a.strip(), b.strip()))
            elif op == 'assigns':
                cur[0]['loops'][cur[1]].append('__CPROVER_assigns(%s)' % rest)
            elif op == 'inv':
                cur[0]['loops'][cur[1]].append('__CPROVER_loop_invariant(%s)' % rest)
            elif op == 'dec':
                cur[0]['loops'][cur[1]].append('__CPROVER_decreases(%s)' % rest)
            elif op == 'ghost':
                cur[0]['ghost'][cur[1]] = cur[0]['ghost'].get(cur[1], '') + rest + ' '
            else:
                raise SystemExit("%s:%d: unknown directive %s" % (path, ln, op))
        for u in mine:
            u.natives, u.annots, u.includes, u.trusts, u.substs = natives, annots, incs, trusts, substs
        units += mine
    return units

# ------------------------------------------------------------------ processes

def run(cmd, timeout, mem_gb=10, env=None, cwd=None, holder=None):
    """-> (rc, stdout, stderr, seconds, timed_out)"""
    t0 = time.time()
    if DEADLINE is not None:
        timeout = max(1, min(timeout, DEADLINE - time.time()))
    def lim():
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    log('+', ' '.join(cmd))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors='replace', preexec_fn=lim, env=env, cwd=cwd)
    PROCS.add(p)
    if holder is not None:
        holder.append(p)
        if 'stop' in holder:
            try: os.killpg(p.pid, 9)
            except OSError: pass
    try:
        o, e = p.communicate(timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        o, e = p.communicate()
        to = True
    PROCS.discard(p)
    return p.returncode, o, e, time.time() - t0, to

def incflags(u, work):
    f = []
    roots = ([work] if work else []) + [REPO]
    for r in roots:
        f += ['-I' + os.path.join(r, 'inc', 'linux'), '-I' + os.path.join(r, 'src'),
              '-I' + os.path.join(r, 'src', 'hashtable'), '-I' + os.path.join(r, 'inc'), '-I' + r]
    f += ['-I' + LIB, '-I' + os.path.dirname(u.path)]
    return f

# ------------------------------------------------------------------ one unit

class Result:
    def __init__(self, u):
        self.u = u
        self.status = None        # proved | bounded | violated | error | undecided
        self.notes = []
        self.holder = []
        self.obligations = 0
        self.discharged = 0
        self.solver_s = 0.0
        self.backend = ''
        self.failed = []          # obligation names
        self.inputs = None
        self.replayed = False
        self.out = ''
        self.bounded_obl = 0
        self.bounded_ok = 0

def goto_cc(u, mode, tmp, work):
    gb = os.path.join(tmp, '%s.%s.gb' % (u.name, mode))
    defs = ['-DVF_' + mode.upper(), '-D__CPROVER_VF=1']
    for d in u.kv.get('defs', '').split(): defs.append('-D' + d)
    for d in u.kv.get(('pdefs' if mode == 'proof' else 'bdefs'), '').split(): defs.append('-D' + d)
    if mode == 'bmc' and TIER == 'thorough':
        for d in u.kv.get('tdefs', '').split(): defs.append('-D' + d)
    cmd = ['goto-cc', '--function', u.entry, '-o', gb] + DEFS + defs + incflags(u, work) + [u.path]
    rc, o, e, s, to = run(cmd, 60)
    if rc != 0:
        return None, o + e
    return gb, ''

def parse_json(out):
    try:
        return json.loads(out)
    except Exception:
        return None

def cbmc(gb, u, mode, extra, timeout, holder=None):
    cmd = ['cbmc', gb, '--json-ui'] + BASE_FLAGS
    if 'flags' in u.kv: cmd += u.kv['flags'].split()
    k = 'pflags' if mode == 'proof' else 'bflags'
    if k in u.kv: cmd += u.kv[k].split()
    solver = u.kv.get('psolver' if mode == 'proof' else 'bsolver', u.kv.get('solver', 'sat'))
    if solver == 'cvc5': cmd += ['--cvc5']
    elif solver == 'z3': cmd += ['--z3']
    elif solver == 'cadical': cmd += ['--sat-solver', 'cadical']
    cmd += extra
    rc, o, e, s, to = run(cmd, timeout, mem_gb=float(u.kv.get('mem', '12')), holder=holder)
    res = {'rc': rc, 's': s, 'to': to, 'props': None, 'err': e[-2000:], 'out': o}
    j = parse_json(o)
    if j:
        for item in j:
            if isinstance(item, dict) and 'result' in item:
                res['props'] = item['result']
            if isinstance(item, dict) and item.get('messageType') == 'ERROR':
                res['err'] += item.get('messageText', '')
    return res

def pclass(p):
    d = p.get('description', '')
    n = p.get('property', '')
    if 'vf-vacuity-probe' in d: return 'probe'
    if '.unwind.' in n or d.startswith('unwinding assertion') or 'recursion unwinding' in d: return 'unwind'
    if 'no-body' in n or 'undefined function should be unreachable' in d: return 'nobody'
    return 'obl'

def inputs_from_trace(trace):
    vals = []
    for st in trace:
        if st.get('stepType') == 'assignment' and st.get('lhs') == 'vf_log':
            v = st.get('value', {})
            b = v.get('binary')
            if b is not None:
                vals.append(int(b, 2))
            else:
                try: vals.append(int(re.match(r'-?\d+', str(v.get('data', '0'))).group(0)) & ((1 << 64) - 1))
                except Exception: vals.append(0)
    # first one is the initialisation of the global
    return vals[1:]

def native_build(u, tmp):
    exe = os.path.join(tmp, u.name + '.native')
    defs = ['-DVF_REPLAY', '-DVF_ENTRY=' + u.entry]
    for d in u.kv.get('defs', '').split() + u.kv.get('bdefs', '').split(): defs.append('-D' + d)
    if TIER == 'thorough':
        for d in u.kv.get('tdefs', '').split(): defs.append('-D' + d)
    cmd = ['gcc', '-g', '-O0', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
           '-fno-sanitize=alignment,shift,null,pointer-overflow', '-o', exe] + DEFS + defs + \
        incflags(u, None) + [u.path, os.path.join(LIB, 'replay_rt.c')] + u.natives + ['-lpthread']
    rc, o, e, s, to = run(cmd, 90, mem_gb=0)
    if rc != 0:
        return None, e
    return exe, ''

def native_run(exe, inputs, tmp, u):
    f = os.path.join(tmp, u.name + '.inputs')
    with open(f, 'w') as fh:
        for v in inputs: fh.write('%d\n' % v)
    env = dict(os.environ, VF_INPUTS=f, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1',
               UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=0')
    sand = os.path.join(tmp, u.name + '.cwd')
    os.makedirs(sand, exist_ok=True)
    rc, o, e, s, to = run([exe], 20, mem_gb=0, env=env, cwd=sand)
    ok = (rc == 0)
    txt = (o + e)[-3000:]
    if to: txt += '\n[native run did not terminate within 20 s]'
    return (not ok) or to, txt

def run_bmc(u, r, tmp, complete):
    """bounded / full-domain run.  -> 'ok' | 'incomplete' | 'fail' | 'error'"""
    work = None
    try:
        if u.substs:
            work = os.path.join(tmp, 'b_' + u.name)
            make_copy(u, work, False)
    except (annotate.AttachError, OSError) as ex:
        r.notes.append(str(ex)); work = None
    gb, err = goto_cc(u, 'bmc', tmp, work)
    if not gb:
        r.notes.append('bounded harness does not compile: ' + err[-600:])
        r.out += err[-3000:]
        return 'error'
    unw = u.kv.get('unwind', '10')
    if TIER == 'thorough' and 'tunwind' in u.kv: unw = u.kv['tunwind']
    extra = ['--unwind', unw, '--unwinding-assertions']
    if 'unwindset' in u.kv: extra += ['--unwindset', u.kv['unwindset']]
    to = min(float(u.kv.get('bto', '300')), float(os.environ.get('VF_TO', '1e9')))
    if TIER == 'thorough': to = float(u.kv.get('tto', str(to)))
    c = cbmc(gb, u, 'bmc', extra, to)
    r.solver_s += c['s']
    if short(c) and not c['to']:
        # a rewritten or renumbered loop: bounds per loop no longer fit, give every loop the largest one and some more
        nums = [int(x.rsplit(':', 1)[1]) for x in u.kv.get('unwindset', '').split(',') if ':' in x]
        for unw2 in (max([int(unw)] + nums) + 2,):
            extra = ['--unwind', str(unw2), '--unwinding-assertions']
            c2 = cbmc(gb, u, 'bmc', extra, to)
            r.solver_s += c2['s']
            if c2['props'] is not None:
                c, unw = c2, str(unw2)
                r.notes.append('loops changed: rerun with unwinding bound %s for every loop' % unw)
    if c['props'] is None:
        r.notes.append('bounded run gave no answer (%s)' % ('timeout' if c['to'] else c['err'][-300:]))
        r.out += c['err']
        return 'error'
    fails, obl, ok, unwound, probe = [], 0, 0, True, False
    for p in c['props']:
        k = pclass(p)
        if k == 'probe': probe = probe or p['status'] == 'FAILURE'
        elif k == 'unwind': unwound = unwound and p['status'] == 'SUCCESS'
        elif k == 'nobody':
            if p['status'] != 'SUCCESS': r.notes.append('no body: ' + p['description'])
        else:
            obl += 1
            if p['status'] == 'SUCCESS': ok += 1
            elif p['status'] == 'FAILURE': fails.append(p)
    if complete:
        r.obligations, r.discharged = obl, ok
    r.bounded_obl, r.bounded_ok = obl, ok
    if fails:
        fails.sort(key=lambda p: 0 if 'ensures' in p['description'] else 1)
        r.failed = ['%s: %s' % (p['property'], p['description']) for p in fails]
        exe, nerr = native_build(u, tmp)
        if not exe: r.out += '\nnative build failed: ' + nerr[-1500:]
        for p in fails[:4]:
            c2 = cbmc(gb, u, 'bmc', extra + ['--property', p['property'], '--trace'], to)
            if not c2['props']: continue
            for q in c2['props']:
                if q.get('status') == 'FAILURE' and q.get('trace'):
                    inp = inputs_from_trace(q['trace'])
                    if r.inputs is None:
                        r.inputs = inp
                    if exe:
                        bad, txt = native_run(exe, inp, tmp, u)
                        r.out += '\n--- native replay of %s\n%s' % (p['property'], txt)
                        if bad:
                            r.inputs, r.replayed = inp, True
                            r.failed.insert(0, '%s: %s' % (p['property'], p['description']))
                            return 'fail'
        return 'fail'
    if obl == 0 or not probe:
        r.notes.append('vacuous bounded harness (obligations=%d, end reachable=%s)' % (obl, probe))
        return 'error'
    if not unwound:
        r.notes.append('unwinding bound %s does not cover every loop' % unw)
        return 'incomplete'
    return 'ok'

def short(c):
    """no answer, the end not reached, or an unwinding bound too small (and nothing else failing)"""
    if c['props'] is None: return True
    k = [(pclass(p), p['status']) for p in c['props']]
    if any(x not in ('probe', 'unwind', 'nobody') and st == 'FAILURE' for x, st in k): return False
    return ('probe', 'FAILURE') not in k or any(x == 'unwind' and st != 'SUCCESS' for x, st in k)

def make_copy(u, work, annot):
    """derived copies of the sources a unit needs changed: substitutions, and loop contracts"""
    for rel in sorted(set(list(u.annots if annot else []) + [x[0] for x in u.substs])):
        txt = open(os.path.join(REPO, rel), encoding='latin-1').read()
        for src, a, b in u.substs:
            if src == rel:
                n = txt.count(a)
                if n == 0: raise annotate.AttachError('substitution target not found in %s: %s' % (rel, a))
                txt = txt.replace(a, b)
        if annot and rel in u.annots: txt = annotate.annotate(txt, u.annots[rel])
        dst = os.path.join(work, rel)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        open(dst, 'w', encoding='latin-1').write(txt)

def run_proof(u, r, tmp):
    """-> 'ok' | 'fail' | 'noattach' | 'timeout'"""
    work = os.path.join(tmp, 'w_' + u.name)
    try:
        make_copy(u, work, True)
    except (annotate.AttachError, OSError, IndexError) as ex:
        r.notes.append('contract does not attach: %s' % ex)
        return 'noattach'
    gb, err = goto_cc(u, 'proof', tmp, work)
    if not gb:
        r.notes.append('contract does not attach (annotated copy does not compile): ' + err[-500:])
        r.out += err[-3000:]
        return 'noattach'
    gb2 = gb
    if u.kv.get('dfcc', 'yes') != 'no':
        gb2 = gb + '2'
        cmd = ['goto-instrument'] + ([] if u.kv.get('dfcc') == 'old' else ['--dfcc', u.entry])
        if 'enforce' in u.kv: cmd += ['--enforce-contract', u.kv['enforce']]
        for f in u.kv.get('replace', '').split(','):
            if f: cmd += ['--replace-call-with-contract', f]
        cmd += ['--apply-loop-contracts', gb, gb2]
        rc, o, e, s, to = run(cmd, 120, holder=r.holder)
        if rc != 0:
            r.notes.append('goto-instrument: ' + (o + e)[-500:])
            r.out += (o + e)[-3000:]
            return 'noattach'
    to = min(float(u.kv.get('to', '300')), float(os.environ.get('VF_TO', '1e9')))
    if TIER == 'thorough': to = max(to, 1500)
    c = cbmc(gb2, u, 'proof', ['--unwind', u.kv.get('punwind', '2'), '--unwinding-assertions'], to, holder=r.holder)
    r.solver_s += c['s']
    if c['props'] is None:
        r.notes.append('proof run gave no answer (%s)' % ('timeout' if c['to'] else (c['err'][-300:] or c['out'][-300:])))
        return 'timeout'
    fails, obl, ok, probe, unw = [], 0, 0, False, []
    for p in c['props']:
        k = pclass(p)
        if k == 'probe': probe = probe or p['status'] == 'FAILURE'
        elif k in ('unwind', 'nobody'):
            if p['status'] != 'SUCCESS': unw.append(p)
        else:
            obl += 1
            if p['status'] == 'SUCCESS': ok += 1
            else: fails.append(p)
    r.obligations, r.discharged = obl, ok
    if unw:
        r.notes.append('loop or function without contract: ' + '; '.join(p['property'] + ' ' + p['description'] for p in unw[:4]))
        return 'noattach'
    if fails:
        r.pfailed = ['%s: %s [%s line %s]' % (p['property'], p['description'],
                     p.get('sourceLocation', {}).get('file', '?'), p.get('sourceLocation', {}).get('line', '?')) for p in fails]
        if any(p['status'] != 'FAILURE' for p in fails) and not any(p['status'] == 'FAILURE' for p in fails):
            r.notes.append('proof run undecided: ' + '; '.join(r.pfailed[:3]))
            return 'timeout'
        return 'fail'
    if obl == 0 or not probe:
        r.notes.append('vacuous proof harness (obligations=%d, end reachable=%s)' % (obl, probe))
        return 'noattach'
    return 'ok'

def run_unit(u, tmp, pool):
    r = Result(u)
    t0 = time.time()
    r.backend = 'CBMC 6.11 ' + {'sat': 'SAT (MiniSat 2)', 'cvc5': 'SMT (cvc5)', 'z3': 'SMT (z3)', 'cadical': 'SAT (CaDiCaL)'}[
        u.kv.get('psolver' if u.kind == 'loops' else 'bsolver', u.kv.get('solver', 'sat'))]
    if u.kind == 'full':
        b = run_bmc(u, r, tmp, True)
        r.status = {'ok': 'proved', 'incomplete': 'bounded', 'fail': 'violated', 'error': 'error'}[b]
    elif u.kind == 'bounded':
        b = run_bmc(u, r, tmp, False)
        r.status = {'ok': 'bounded', 'incomplete': 'bounded', 'fail': 'violated', 'error': 'error'}[b]
    elif u.kind == 'proof':      # no bounded twin
        p = run_proof(u, r, tmp)
        r.status = {'ok': 'proved', 'fail': 'violated', 'noattach': 'error', 'timeout': 'error'}[p]
        if p == 'fail': r.failed = r.pfailed
    else:
        fut = threading.Thread(target=lambda: setattr(r, 'pres', run_proof(u, r, tmp)))
        fut.start()
        b = run_bmc(u, r, tmp, False)
        if b == 'fail' and r.replayed:
            r.holder.append('stop')     # a failing input settles it
            for q in r.holder[:-1]:
                if q != 'stop':
                    try: os.killpg(q.pid, 9)
                    except OSError: pass
        fut.join()
        p = getattr(r, 'pres', 'noattach')
        if b == 'fail':
            r.status = 'violated'
        elif p == 'ok':
            r.status = 'proved'
        elif p == 'fail':
            r.status, r.failed = 'violated', r.pfailed
        else:
            r.status = 'bounded' if b in ('ok', 'incomplete') else 'error'
        r.detail = 'proof=%s bounded=%s' % (p, b)
    r.wall = time.time() - t0
    return r

# ------------------------------------------------------------------ main

TIER = 'quick'

def write_replay(pid, r):
    d = os.path.join(VERIF, 'out')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, '%s-%s.replay' % (pid, r.u.name))
    with open(f, 'w') as fh:
        fh.write('# property %s unit %s (%s)\n' % (pid, r.u.name, os.path.relpath(r.u.path, VERIF)))
        fh.write('# functions under contract: %s\n' % ', '.join(r.u.fns))
        fh.write('# failed obligations:\n')
        for x in r.failed[:20]: fh.write('#   %s\n' % x)
        fh.write('# rerun natively: /verif/bin/replay %s\n' % f)
        if r.replayed:
            fh.write('# inputs, in the order the harness asks for them; they fail on the real code:\n')
        elif r.inputs is not None:
            fh.write('# inputs of the verifier\'s counterexample (the native run did not fail on them):\n')
        else:
            fh.write('# the verifier gave no counterexample\n')
        for v in (r.inputs or []): fh.write('%d\n' % v)
        for line in (r.out or '').splitlines()[-120:]: fh.write('# | %s\n' % line)
        for n in r.notes: fh.write('# note: %s\n' % n)
    return f

def known_findings(pid):
    f = os.path.join(VERIF, 'known_findings.json')
    try:
        return [k for k in json.load(open(f))['open'] if k['property'] == pid]
    except Exception:
        return []

def main(argv):
    global VERBOSE, TIER, DEADLINE
    pid, only = None, None
    TIER = os.environ.get('VERIF_TIER', 'quick')
    i = 0
    while i < len(argv):
        a = argv[i]
        if a == '--tier': i += 1; TIER = argv[i]
        elif a == '--unit': i += 1; only = argv[i]
        elif a == '-v': VERBOSE = True
        else: pid = a
        i += 1
    if TIER not in ('quick', 'thorough'): TIER = 'quick'
    t0 = time.time()
    DEADLINE = t0 + (820 if TIER == 'quick' else 6 * 3600)
    units = [u for u in parse_units(pid) if not only or u.name == only]
    units = [u for u in units if TIER == 'thorough' or u.kv.get('tier') != 'thorough']
    if not units:
        print('no units for', pid); return 2
    tmp = tempfile.mkdtemp(prefix='vf-%s-' % pid)
    try:
        jobs = int(os.environ.get('VF_JOBS', '0')) or max(2, (os.cpu_count() or 4))
        if any(u.kind == 'loops' for u in units): jobs = max(2, (jobs * 3) // 4)
        # longest first
        units.sort(key=lambda u: -float(u.kv.get('cost', '10')))
        with ThreadPoolExecutor(max_workers=jobs) as ex:
            results = list(ex.map(lambda u: safe_run(u, tmp), units))
    finally:
        for p in list(PROCS):
            try: os.killpg(p.pid, 9)
            except OSError: pass
        shutil.rmtree(tmp, ignore_errors=True)
    return report(pid, results, t0, only)

def safe_run(u, tmp):
    try:
        r = run_unit(u, tmp, None)
    except Exception as ex:
        import traceback
        r = Result(u); r.status = 'error'; r.notes.append('driver: %s' % traceback.format_exc()[-800:]); r.wall = 0
    return r

def report(pid, results, t0, only):
    viol = 0
    known = known_findings(pid)
    results.sort(key=lambda r: (r.u.path, r.u.name))
    for r in results:
        tag = r.status
        print('%-9s %-34s %5d/%-5d obligations %6.1fs  %s%s' % (
            tag, r.u.name, r.discharged if r.u.kind != 'bounded' else r.bounded_ok,
            r.obligations if r.u.kind != 'bounded' else r.bounded_obl, r.wall, ','.join(r.u.fns),
            ('  {' + r.detail + '}') if hasattr(r, 'detail') and r.status != 'proved' else ''))
        for n in r.notes: print('     note:', n.replace('\n', ' ')[:400])
        if r.status == 'violated':
            kf = [k for k in known if k.get('unit') == r.u.name and
                  r.failed and all(re.search(k['obligation'], x) for x in r.failed)]
            if kf:
                print('KNOWN-FINDING: property=%s %s' % (pid, kf[0]['what']))
                r.status = 'known'
                continue
            for x in r.failed[:8]: print('     failed:', x[:300])
            f = write_replay(pid, r)
            viol += 1
            print('VIOLATION property=%s replay=%s%s' % (pid, f, '' if r.replayed else ' no-failing-input-found'))
    proved = [r for r in results if r.status == 'proved']
    bounded = [r for r in results if r.status == 'bounded']
    err = [r for r in results if r.status == 'error']
    nat = [r for r in results if r.status in ('proved', 'violated')]
    ev = {
        'property': pid, 'tier': TIER, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'proof',
        'coverage': {
            'obligations': sum(r.obligations for r in results if r.u.kind != 'bounded'),
            'discharged': sum(r.discharged for r in results if r.u.kind != 'bounded'),
            'checker_cmd': '/verif/bin/check %s --tier %s' % (pid, TIER),
            'trusted_base': ['CBMC 6.11.0: C front end, goto-instrument --dfcc contract and loop-contract instrumentation, symbolic execution, C library models',
                             'MiniSat 2 / CaDiCaL (built into CBMC), cvc5 1.1.2 where a unit says so',
                             'lib/annotate.py (inserts loop contracts; rewrites do/while as for)',
                             'lib/vf.h and the harness environment of each unit'],
            'functions_under_contract': sorted({f for r in proved for f in r.u.fns}),
            'functions_bounded_only': sorted({f for r in bounded for f in r.u.fns}),
            'units': [{'unit': r.u.name, 'kind': r.u.kind, 'status': r.status, 'functions': r.u.fns,
                       'obligations': r.obligations, 'discharged': r.discharged,
                       'bounded_obligations': r.bounded_obl, 'bounded_ok': r.bounded_ok,
                       'bounded_bound': (r.u.kv.get('bound') or ('unwind ' + r.u.kv.get('unwind', '10'))) if r.u.kind != 'full' else None,
                       'back_end': r.backend, 'solver_s': round(r.solver_s, 2), 'notes': r.notes[:4]} for r in results],
            'solver_s': round(sum(r.solver_s for r in results), 1),
        },
        'assumptions': sorted({t for r in results for t in r.u.trusts}),
        'wall_s': round(time.time() - t0, 2),
        'violations': viol,
    }
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
    print('%s: %d proved, %d bounded, %d violated, %d without answer, %.1fs' % (
        pid, len(proved), len(bounded), viol, len(err), time.time() - t0))
    if viol: return 1
    if err and not (proved or bounded): return 2
    return 0
