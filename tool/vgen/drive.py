"""Runs the pipeline: expand /repo -> extract -> Verus crates -> verdicts per obligation."""
import concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from model import load, Model, Unsupported
import gen, pdus, enums, layout as lay
from gen import SPEC

ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../..'))
REPO = os.environ.get('VERIF_REPO', '/repo')
VC = re.compile(r'postcondition not satisfied|precondition not satisfied|assertion (failed|not satisfied)|assertion safety|invariant not satisfied|possible arithmetic|possible division|possible bit shift|overflow|loop ensures not satisfied|decreases not satisfied|termination|constructed value may fail|index out of bounds|unable to prove|not satisfied|might not|could not be proved', re.I)
RL = re.compile(r'rlimit|resource limit|timed? ?out|smt solver', re.I)
IGN = re.compile(r'^aborting due to|not all errors may have been reported|^For more information|^verification results|function body check|while loop:')

def sh(cmd, cwd=None, env=None, timeout=600, stdout=None):
    """run, killing the whole process group on timeout; (rc or None, out, err)"""
    e = dict(os.environ); e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, x = p.communicate(timeout=timeout)
        return p.returncode, (o or b'').decode('utf8', 'replace'), x.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, x = p.communicate()
        return None, '', x.decode('utf8', 'replace') + '\ntime limit'

class Broken(Exception): pass

class Run:
    def __init__(self):
        self.scratch = tempfile.mkdtemp(prefix='vrun.', dir=os.environ.get('VERIF_SCRATCH'))
        self.t0 = time.time()
        self.n, self.lock = 0, threading.Lock()
        self.smt_ms, self.verified, self.calls = 0, 0, 0
        self.log = []
        self.hit, self.deadline = threading.Event(), self.t0 + 3000

    def close(self): shutil.rmtree(self.scratch, ignore_errors=True)

    def say(self, *a):
        self.log.append(' '.join(str(x) for x in a))
        print(f'[{time.time() - self.t0:6.1f}s]', *a, flush=True)

    def extract(self):
        """the macro-expanded source of /repo's working tree, parsed"""
        with cf.ThreadPoolExecutor(2) as ex:
            d = ex.submit(self.astdump)
            exp = f'{self.scratch}/expanded.rs'
            with open(exp, 'wb') as f:
                rc, _, err = sh(['cargo', '+nightly', 'rustc', '--offline', '--lib', '--profile', 'dev', '--', '-Zunpretty=expanded'],
                                cwd=REPO, env={'CARGO_TARGET_DIR': f'{self.scratch}/tgt-exp'}, stdout=f, timeout=600)
            if rc != 0: raise Broken('the crate does not compile:\n' + err[-3000:])
            tool = d.result()
        with open(f'{self.scratch}/ast.json', 'wb') as f:
            rc, _, err = sh([tool, exp], stdout=f, timeout=300)
        if rc != 0: raise Broken('astdump: ' + err[-2000:])
        shutil.rmtree(f'{self.scratch}/tgt-exp', ignore_errors=True)
        self.m = load(f'{self.scratch}/ast.json')
        return self.m

    def astdump(self):
        p = f'{ROOT}/tool/astdump/target/release/astdump'
        src = max(os.path.getmtime(x) for x in (f'{ROOT}/tool/astdump/src/main.rs', f'{ROOT}/tool/astdump/Cargo.toml'))
        if os.path.exists(p) and os.path.getmtime(p) >= src: return p
        rc, _, err = sh(['cargo', 'build', '--offline', '--release'], cwd=f'{ROOT}/tool/astdump', env={'CARGO_TARGET_DIR': f'{self.scratch}/tgt-ast'}, timeout=900)
        if rc != 0: raise Broken('astdump does not build:\n' + err[-3000:])
        return f'{self.scratch}/tgt-ast/release/astdump'

    # ------------------------------------------------------------ Verus
    def verus(self, name, text, args=(), threads=4, timeout=400, errors=4):
        left = self.deadline - time.time()
        timeout = max(min(timeout, left), 5)
        with self.lock: self.n += 1; k = self.n
        d = f'{self.scratch}/v{k}'
        os.makedirs(d)
        p = f'{d}/{name}.rs'
        open(p, 'w').write(text)
        rc, out, err = sh(['verus', p, '--multiple-errors', str(errors), '--num-threads', str(threads), '--output-json', '--time-expanded', '--error-format=json', *args],
                          cwd=d, env={'RUST_MIN_STACK': '2000000000'}, timeout=timeout)
        r = {'rc': rc, 'path': p, 'diags': [], 'verified': 0, 'errors': 0, 'fns': {}, 'vir': False}
        for l in err.split('\n'):
            if not l.startswith('{'): continue
            try: x = json.loads(l)
            except ValueError: continue
            if x.get('level') == 'error' or RL.search(x.get('message', '')): r['diags'].append(x)
        i = out.find('{')
        try: j = json.loads(out[i:]) if i >= 0 else {}
        except ValueError: j = {}
        v = j.get('verification-results', {})
        r['verified'], r['errors'], r['vir'] = v.get('verified', 0), v.get('errors', 0), v.get('encountered-vir-error', False)
        r['have'] = 'verified' in v
        smt = j.get('times-ms', {}).get('smt', {})
        with self.lock:
            self.calls += 1
            for m in smt.get('smt-run-module-times', []):
                for f in m.get('function-breakdown', []): self.smt_ms += f.get('time', 0) or 0
        if not r['have']: r['tail'] = err[-1500:]
        return r

def trusted(out):
    """names of everything whose body the verifier takes on trust, other than functions verified in another crate"""
    names, own, pend = set(), '', False
    inside = {l for q in out.reg for l in range(q['a'], q['b'] + 1)}
    for i, l in enumerate('\n'.join(out.lines).split('\n')):
        m = re.match(r'\s*impl(?:<[^>]*>)? (?:\w+(?:<[^{]*?>)? for )?(&?\[?\w+)', l)
        if m: own = m.group(1)
        elif l.startswith('}') or (not l.startswith(' ') and 'external_body' in l): own = ''
        for x in re.finditer(r'external_body\]|uninterp spec fn (\w+)|\bfn (\w+)|\bstruct (\w+)', l):
            if x.group(0) == 'external_body]': pend = True
            elif x.group(1): pend = False
            elif pend:
                if i + 1 not in inside: names.add((own + '::' if own and not x.group(3) else '') + (x.group(2) or 'type ' + x.group(3)))
                pend = False
        if m and l.rstrip().endswith('}'): own = ''
    return names

class Fail:
    """one obligation the verifier did not accept"""
    def __init__(self, crate, ty, fn, kind, facets, msg, text):
        self.crate, self.ty, self.fn, self.kind, self.facets, self.msg, self.text = crate, ty, fn, kind, set(facets), msg, text
    def name(self): return f'{self.ty}::{self.fn} [{"".join(sorted(self.facets))}] {self.msg}'

def facets(diag, lines, reg):
    fs = set()
    for s in diag.get('spans', []):
        for l in range(s['line_start'], s['line_end'] + 1):
            if s['line_end'] - s['line_start'] > 3 and not s['is_primary']: break
            m = re.search(r'//@F ([A-Z]+)\b', lines[l - 1]) if l <= len(lines) else None
            if m: fs |= set(m.group(1))
    if fs: return fs
    msg, kind, fn = diag['message'], reg['kind'], reg['fn']
    if kind == 'lemma': return {'E'}
    if kind == 'enum': return {'V'}
    if kind in ('ctor', 'default'): return {'N'}
    if kind == 'new': return {'N', 'H'}
    if kind == 'length': return {'L'}
    if kind == 'fn': return {'F', 'T', 'K'}
    if kind in ('accessor', 'header', 'header_mut'): return {'H', 'S', 'R'} if kind == 'accessor' else {'H'}
    if kind in ('deserialize', 'deserialize_field', 'deserialize_body', 'deserialize_without_header', 'deserialize_with_len', 'enumde', 'check_body_remaining') or kind.startswith('from'):
        return {'D', 'P'} if 'invariant' in msg else {'P'}
    if kind in ('calculate_length', 'finalize'): return {'Z', 'L'}
    if kind in ('serialize', 'serialize_field'):
        if 'invariant' in msg: return {'E'}
        return {'Z', 'L'} if 'Pdu' in reg.get('crate', '') else {'L'}
    if kind == 'field_len': return {'L'}
    return {'E', 'D', 'L', 'P'}

def fn_facets(kind, pdu):
    """what a function whose body was not verified leaves open"""
    if kind in ('serialize', 'serialize_field', 'to_u8'): return {'E', 'L', 'Z', 'H'} if pdu else {'E', 'L'}
    if kind in ('deserialize', 'deserialize_without_header', 'deserialize_body'): return {'D', 'P', 'U', 'H'} if pdu else {'D', 'P'}
    if kind in ('deserialize_field', 'deserialize_with_len', 'enumde'): return {'D', 'P'}
    if kind == 'check_body_remaining': return {'U', 'D', 'H', 'P'}
    if kind in ('calculate_length', 'finalize'): return {'Z', 'L'}
    if kind == 'field_len': return {'L'}
    if kind in ('ctor', 'default', 'new', 'default size'): return {'N', 'H'} if kind == 'new' else {'N', 'T'}
    if kind in ('enum', 'from_i64', 'from_u64'): return {'V'}
    if kind == 'fn': return {'F', 'T', 'K'}
    if kind in ('accessor', 'header', 'header_mut'): return {'H', 'S', 'R'} if kind == 'accessor' else {'H'}
    return set('EDLPNHUZFTKV')

def diagtext(d, path, lines):
    o = [d['message']]
    for s in d.get('spans', []):
        src = lines[s['line_start'] - 1].strip() if s['line_start'] <= len(lines) else ''
        o.append(f"  {'-->' if s['is_primary'] else '   '} {os.path.basename(path)}:{s['line_start']}: {src[:200]}" + (f"   [{s['label']}]" if s.get('label') else ''))
    return '\n'.join(o)

class Crate:
    """one generated crate: how to make it, what the verifier said"""
    def __init__(self, name, cls, method, only=None, override=None, threads=4, **kw):
        self.name, self.cls, self.method, self.only, self.override, self.threads, self.kw = name, cls, method, only, override, threads, kw
        self.skip = {}              # (type, fn) -> reason: body not verified, contract assumed
        self.fails, self.undecided, self.verified, self.broken = [], [], 0, None
        self.functions = []
        self.vacuous, self.smoked, self.trusted = [], None, set()
        self.noproof = set()

    def build(self, run, isolate=True, only=None, vacuity=False):
        g = self.cls(run.m, skip=set(self.skip), override=self.override)
        g.isolate, g.vacuity = isolate, vacuity
        out = getattr(g, self.method)(only or self.only, **self.kw)
        return g, out

    def region(self, out, line):
        for r in out.reg:
            if r['a'] <= line <= r['b']: return r
        return None

    def verify(self, run, isolate=True, only=None, args=(), timeout=400, rounds=6):
        """(fails, undecided) of one verifier run, after setting aside functions it cannot read"""
        for _ in range(rounds):
            g, out = self.build(run, isolate, only)
            text = '\n'.join(out.lines)
            lines = text.split('\n')
            r = run.verus(self.name, text, args, self.threads, timeout)
            notes = [(t, f, 'outside the fragment: ' + why) for t, f, why in g.notes]
            front, fails, slow = [], [], []
            late = r['rc'] is None
            for d in r['diags']:
                if IGN.search(d['message']): continue
                # the postcondition of a trait method is the primary span; the function that misses it is a secondary one
                ss = sorted(d.get('spans', []), key=lambda s: not s['is_primary'])
                reg = next((q for q in (self.region(out, s['line_start']) for s in ss) if q), None)
                if RL.search(d['message']): slow.append((d, reg))
                elif VC.search(d['message']): fails.append((d, reg))
                else: front.append((d, reg))
            if late and not fails: return None, 'time limit', notes, out, r
            if not late and (not r['have'] or r['vir'] or front):
                new = {(q['ty'], q['fn']): d['message'] for d, q in front if q and (q['ty'], q['fn']) not in self.skip}
                if not new:
                    # outside every function: the contract of a type is not read; the type is left out
                    for d, q in front:
                        s = next((s for s in d.get('spans', []) if s['is_primary']), None)
                        l = next((x for x in reversed(lines[:s['line_start']]) if x.startswith('pub mod ') or x.startswith('}\npub mod ')), '') if s else ''
                        k = re.match(r'pub mod (rec|type|pdu|pdu2|body)_(\w+) ', l)
                        if k and (k[2], '(type)') not in self.skip: new[(k[2], '(type)')] = d['message']
                if not new:
                    why = front[0][0]['message'] if front else r.get('tail', 'no result')
                    return None, 'front end: ' + why[:600], notes, out, r
                for k, w in new.items(): self.skip[k] = 'the verifier does not read it: ' + w[:200]
                continue
            if any(q is None for _, q in fails): return None, 'obligation outside every function: ' + next(d['message'] for d, q in fails if q is None), notes, out, r
            fs = [Fail(self.name, q['ty'], q['fn'], q['kind'], facets(d, lines, dict(q, crate=self.method)), d['message'], diagtext(d, r['path'], lines)) for d, q in fails]
            bad = {(f.ty, f.fn) for f in fs}
            und = [(q['ty'], q['fn'], q['kind'], d['message']) for d, q in slow if q and (q['ty'], q['fn']) not in bad]
            if late:
                kinds = {f.kind for f in fs}
                und += [(q['ty'], q['fn'], q['kind'], 'time limit') for q in out.reg if (q['ty'], q['fn']) not in bad]
                und = list({(u[0], u[1]): u for u in und}.values())
            return fs, und, notes, out, r
        return None, 'front end: no reading after several rounds', notes, out, r

    def run(self, run):
        try: return self.run1(run)
        except Broken: raise
        except Exception as e:      # a shape the generator does not foresee: nothing is decided here by proof
            self.broken = f'generation: {type(e).__name__}: {e}'[:600]
            self.notes = []
            run.say(f'{self.name}: undecided ({self.broken[:300]})')
            return self

    def run1(self, run):
        fs, und, notes, out, r = self.verify(run, timeout=170)
        if fs is None and und == 'time limit' and not run.hit.is_set() and run.deadline - time.time() > 60:
            run.say(f'{self.name}: time limit, again from another seed')
            fs, und, notes, out, r = self.verify(run, False, None, ('--smt-option', 'smt.random_seed=11'), 300)
        self.notes = notes
        if fs is None:
            self.broken = und
            run.say(f'{self.name}: undecided ({str(und)[:300]})')
            return self
        self.verified = r['verified']
        self.functions = sorted({(q['ty'], q['fn'], q['kind']) for q in out.reg})
        kinds = {(q['ty'], q['fn']): q['kind'] for q in out.reg}
        self.lines = len(out.lines)
        self.trusted = trusted(out)
        if fs or und:
            fs, und = self.portfolio(run, fs, und)
        self.fails = fs
        self.undecided = [(t, f, k, w) for t, f, k, w in und]
        for (t, f), w in self.skip.items(): self.undecided.append((t, f, kinds.get((t, f), f), w))
        for t, f, w in notes: self.undecided.append((t, f, kinds.get((t, f), f), w))
        run.say(f'{self.name}: {self.verified} verified, {len(self.fails)} not accepted, {len(self.undecided)} undecided')
        for f in self.fails[:12]: run.say('   ', f.name())
        for u in self.undecided[:12]: run.say('    undecided', u[0], u[1], str(u[3])[:160])
        return self

    def smoke(self, run):
        """every function again, each ending in assert(false): one that is accepted all the same is proved from a contradiction"""
        self.vacuous, self.smoked = [], None
        if self.broken: return self
        g, out = self.build(run, vacuity=True)
        text = '\n'.join(out.lines)
        lines = text.split('\n')
        r = run.verus(self.name + '_vacuity', text, (), self.threads, 900, 1)
        if r['rc'] is None or not r['have']: return self
        bad = set()
        for d in r['diags']:
            for s in d.get('spans', []):
                q = self.region(out, s['line_start'])
                if q: bad.add(q['a'])
        at = [i + 1 for i, l in enumerate(lines) if l.endswith('//@vacuity')]
        regs = [q for q in (self.region(out, l) for l in at) if q]
        self.vacuous = sorted({(q['ty'], q['fn'], q['kind']) for q in regs if q['a'] not in bad})
        self.smoked = len(regs)
        run.say(f'{self.name}: {self.smoked - len(self.vacuous)} of {self.smoked} functions refuse assert(false) at their end')
        return self

    def portfolio(self, run, fs, und):
        """other encodings and seeds for what was not accepted: an obligation stands if any run accepts it"""
        if run.hit.is_set() or run.deadline - time.time() < 20: return fs, und       # a failing input is already at hand, or no time
        failed = {(f.ty, f.fn) for f in fs}
        pend = failed | {(t, f) for t, f, _, _ in und}
        if len(pend) > 24:
            # one change behind many failures: a sample of each function decides whether another encoding is worth a full run
            pick = []
            for n in sorted({f for _, f in pend}):
                xs = sorted(k for k in pend if k[1] == n)
                ys = [k for k in xs if k in failed] or xs
                pick += ys[:1] + ys[len(ys) // 2:][:1]
            pend = set(pick)
            if len({t for t, _ in pend}) > 16: return fs, und
            sample = True
        else: sample = False
        base = self.scope(run, {t for t, _ in pend})
        var = [(False, ('--rlimit', '40')), (True, ('--rlimit', '60', '--smt-option', 'smt.random_seed=7')), (False, ('--rlimit', '60', '--smt-option', 'smt.random_seed=23', '--smt-option', 'smt.qi.eager_threshold=100'))]
        with cf.ThreadPoolExecutor(3) as ex:
            rs = list(ex.map(lambda v: self.verify(run, v[0], base, v[1], 200), var))
        ok = set()
        for f2, u2, n2, out, r in rs:
            if f2 is None: continue
            have = {(q['ty'], q['fn']) for q in out.reg}
            bad = {(f.ty, f.fn) for f in f2} | {(u[0], u[1]) for u in u2}
            good = {k for k in pend if k in have and k not in bad}
            ok |= good
        if ok: run.say(f'{self.name}: accepted by another run:', sorted(ok))
        if sample and pend and pend <= ok and not run.hit.is_set():
            more = {(f.ty, f.fn) for f in fs} | {(u[0], u[1]) for u in und}
            for v in var[:2]:
                f2, u2, n2, out, r = self.verify(run, v[0], self.only, v[1], 300)
                if f2 is None: continue
                bad = {(f.ty, f.fn) for f in f2} | {(u[0], u[1]) for u in u2}
                ok |= {(q['ty'], q['fn']) for q in out.reg if (q['ty'], q['fn']) in more and (q['ty'], q['fn']) not in bad}
                if more <= ok: break
        return [f for f in fs if (f.ty, f.fn) not in ok], [u for u in und if (u[0], u[1]) not in ok]

    def scope(self, run, types):
        """smallest set of roots that brings these types into the crate"""
        known = set(self.only) if self.only else None
        if self.method == 'crate_records':
            g = self.cls(run.m)
            ts = [t for t in types if t in g.recs]
            extra = [t for t in types if t not in g.recs]
            if extra: return self.only
            return ts
        if self.method == 'crate_pdus':
            ts = [t for t in types if t in self.cls(run.m).pdus]
            return ts if len(ts) == len(types) else self.only
        ts = list(types)
        return ts if all(t not in ('Vec', 'Option', 'String') and t[0].isupper() for t in ts) else self.only

def run_all(run, crates):
    with cf.ThreadPoolExecutor(len(crates)) as ex: list(ex.map(lambda c: c.run(run), crates))
    return crates

def deep(f):
    """run f on a thread with a large stack (syntax trees of from_i64 nest deeply)"""
    sys.setrecursionlimit(10**6)
    threading.stack_size(512 << 20)
    box = {}
    def g():
        try: box['r'] = f()
        except BaseException as e: box['e'] = e
    t = threading.Thread(target=g); t.start(); t.join()
    if 'e' in box: raise box['e']
    return box['r']
