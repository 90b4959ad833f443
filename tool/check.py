#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: decides one property for /repo's working tree."""
import concurrent.futures as cf, json, os, re, shutil, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vgen'))
from drive import *
import gen, pdus, enums, harness, layout as lay, kani
from model import Unsupported

HDR = ['PduHeader', 'LiveEntityPduHeader']
PRIMARY = {'C01': 'LS', 'C02': 'DR', 'C03': 'D', 'C04': 'L', 'C05': 'VDE', 'C06': 'ES', 'C07': 'EDKP', 'C08': '', 'C09': 'H', 'C10': 'Z', 'C11': 'PU', 'C12': 'N', 'C13': 'F', 'C14': 'T'}
NEEDS_E = {'C01', 'C02', 'C03', 'C04'}     # statements about what is emitted: facet E counts too, against the layout the code itself follows
RELAYOUT = NEEDS_E | {'C09', 'C10', 'C11', 'C12'}
FACET = {'E': 'emitted octets', 'D': 'decoded value and octets consumed', 'P': 'no panic, exact consumption', 'L': 'lengths', 'N': 'constructed value', 'H': 'header stamp / type check / frame', 'U': 'underflow report', 'Z': 'size limit', 'F': 'arithmetic', 'T': 'timestamp', 'K': 'type peek', 'V': 'codes', 'S': 'header setters', 'R': 'header type getter'}
TRUST = ['the mechanical extraction tool/vgen/lower.py (what it drops and rewrites is listed in DESIGN.md; cross-checked on every run by the concrete harness on the compiled crate)',
         'rustc macro expansion (-Zunpretty=expanded) and the syn parser (tool/astdump)',
         'Verus 0.2026.09.13 and Z3 4.12 as shipped with it',
         'contracts of crate bytes (BytesMut::put_*, Buf::get_*, remaining, advance, copy_to_slice) in spec/prelude.rs',
         'contracts of core/alloc used by the extracted code (Vec, Option, String octets, integer conversions `as`/try_from, f32/f64 bit patterns), in spec/prelude.rs']
TRUST_P = {'C05': ['num_traits: from_u8/u16/u32 are from_u64 of the widened value; the methods of the flag records that bitflags! generates are proved by Kani on the compiled crate'],
           'C13': ['f32 operations are uninterpreted functions with the IEEE identities listed in spec/prelude.rs (group_float): the formulas are compared as terms, not as rounded values'],
           'C14': ['chrono: Utc::now() is one reading of the clock; minute, second and nanosecond are those of that reading; Duration and f32/f64 arithmetic as stated in spec/prelude.rs']}

def plan(P, m, g):
    reach = sorted(t for t in g.refs(list(g.pdus)) if t in g.recs)
    B = lambda only=None, th=4, **k: Crate('records', gen.Gen, 'crate_records', only=only, threads=th, **k)
    C = lambda th=2: [Crate(f'pdus{i}', pdus.Gen, 'crate_pdus', part=(i, 2), threads=th) for i in range(2)]
    A = lambda light, n: [Crate(f'enums{i}', enums.Gen, 'crate_enums', part=(i, n), light=light, threads=2) for i in range(n)]
    return {'C01': lambda: C() + [B(reach)], 'C02': lambda: C() + [B(reach)], 'C03': lambda: [B()] + A(True, 3), 'C04': lambda: [B()] + A(True, 3),
            'C05': lambda: A(False, 6), 'C06': lambda: C() + [B()] + A(True, 3), 'C07': lambda: [B(HDR, 8)], 'C08': lambda: [],
            'C09': lambda: C(3) + [B(HDR, 2)], 'C10': lambda: C() + [B(reach)], 'C11': lambda: C() + [B()] + A(True, 3), 'C12': lambda: C() + [B()],
            'C13': lambda: [B(['Vector3Float'], 8)], 'C14': lambda: [B(HDR, 8)]}[P]()

# ------------------------------------------------------------ the concrete harness
class Concrete:
    """a program generated from the same specification, linked against the crate of /repo as it is"""
    def __init__(self, run, P):
        self.run, self.P, self.exe, self.err = run, P, None, None
        self.n = 0
    def build(self):
        r = self.run
        d = f'{r.scratch}/h'
        os.makedirs(f'{d}/src')
        try:
            g = pdus.Gen(r.m)
            open(f'{d}/src/main.rs', 'w').write(harness.Harness(g, [self.P]).main())
        except Exception as e:
            self.err = f'harness generation: {type(e).__name__}: {e}'
            r.say(self.err); return self
        open(f'{d}/Cargo.toml', 'w').write(f'[package]\nname = "h"\nversion = "0.1.0"\nedition = "2024"\n[dependencies]\nopen-dis-rust = {{ path = "{REPO}" }}\nbytes = "*"\n[profile.dev]\ndebug = 0\noverflow-checks = true\n[workspace]\n')
        if os.path.exists(f'{REPO}/Cargo.lock'): shutil.copy(f'{REPO}/Cargo.lock', d)
        rc, out, err = sh(['cargo', 'build', '--offline', '-q'], cwd=d, env={'CARGO_TARGET_DIR': f'{r.scratch}/tgt-h'}, timeout=500)
        if rc != 0:
            self.err = 'the harness does not compile against the crate: ' + '\n'.join(l for l in err.split('\n') if l.startswith('error'))[:1500]
            r.say(self.err)
        else: self.exe = f'{r.scratch}/tgt-h/debug/h'
        return self
    def go(self, types, seed, iters, timeout=200):
        """[(type, what, input)] that fail; None when nothing could be run"""
        if not self.exe: return None
        rc, out, err = sh([self.exe, self.P, ','.join(types) or 'all', str(seed), str(iters)], timeout=timeout)
        fs = []
        for l in out.split('\n'):
            p = l.split('\t')
            if p[0] == 'FAIL' and len(p) >= 5 and p[1] == self.P: fs.append((p[2], p[3], p[4]))
            if p[0] == 'DONE': self.n += int(p[1])
        if rc is None: self.run.say('harness: time limit'); return fs or None
        if rc != 0 and not fs: self.run.say('harness ended with', rc, err[-300:]); return None
        return fs
    def probes(self):
        if not self.exe: return {}
        rc, out, err = sh([self.exe, 'PROBE', 'all', '1', '1'], timeout=60)
        return {l.split('\t')[1]: l.split('\t')[2] for l in out.split('\n') if l.startswith('PROBE\t')}

def containers(m, g, types):
    """types whose values hold one of these"""
    h = harness.Harness(g, ['C01'])
    names = {t: h.names(t) for t in list(g.recs) + list(g.pdus) if t in m.structs}
    s = set(types)
    while True:
        n = {t for t, ns in names.items() if ns & s} - s
        if not n: return sorted(s)
        s |= n

def rederive(m, g, types):
    """layouts the code itself follows, for types that do not follow the frozen one"""
    d = lay.Deriver(m, lay.enum_table(m))
    ov, failed = {'records': {}, 'pdus': {}}, set()
    for t in types:
        try:
            if t in g.recs:
                if g.recs[t].get('special'): raise Unsupported('special')
                fs = d.record(t); d.counts(t, fs)
                if any(f['k'] == 'elem' or (f['k'] == 'vec') for f in fs): raise Unsupported('list without count')
                ov['records'][t] = {'fields': fs}
            elif t in g.pdus:
                fs = d.pdu(t)
                old = {f['n']: f for f in g.pdus[t]['fields']}
                ov['pdus'][t] = {'fields': [dict(f, lenby=old[f['n']]['lenby']) if 'lenby' in old.get(f['n'], {}) else f for f in fs]}
            else: raise Unsupported('primitive')
        except Exception as e: failed.add(t)
    return ov, failed

def findings(P):
    fs = []
    for l in open(f'{ROOT}/known-findings.txt'):
        m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', l)
        if m and m.group(1) == P: fs.append((m.group(2), m.group(3).strip()))
    return fs

def main(P, tier):
    run = Run()
    try: return decide(run, P, tier)
    finally: run.close()

def decide(run, P, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    for f in (f'{ROOT}/replay/{P}.json',):
        if os.path.exists(f): os.remove(f)
    m = run.extract()
    run.say('expanded and parsed')
    g = pdus.Gen(m)
    conc = Concrete(run, P)
    ev = {'property': P, 'tier': tier, 'seed': seed, 'level': 'proof', 'violations': 0, 'assumptions': [], 'coverage': {}}
    viol = None       # (name, text, input or None)
    base = {'quick': 400, 'thorough': 8000}[tier]
    run.deadline = t0 + {'quick': 560, 'thorough': 3000}[tier]
    def bounded():
        conc.build()
        h = conc.go([], seed, base, 120 if tier == 'quick' else 500)
        if h: run.hit.set()
        return h
    kf = None
    with cf.ThreadPoolExecutor(3) as ex:
        fh = ex.submit(bounded)
        if P == 'C05': ff = ex.submit(kani.flags, run, enums.Gen(m))
        if P == 'C08':
            kr = kani.check(run)
            crates = []
        else:
            crates = run_all(run, plan(P, m, g))
            kr = None
        hits = fh.result()
        if P == 'C05':
            try: kf = ff.result()
            except Exception as e: run.say('kani: flag records:', e)
    kasm = None
    if tier == 'thorough' and not hits:
        run.deadline = max(run.deadline, time.time() + 900)
        for c in crates: c.smoke(run)
        if not kr: kasm = kani.assumed(run)
    prim = set(PRIMARY[P])
    fails = [f for c in crates for f in c.fails]
    for c in crates:
        for t, f, k in c.vacuous: c.undecided.append((t, f, k, 'vacuous: assert(false) is accepted at its end'))
    und = [(c.name,) + tuple(u) for c in crates for u in c.undecided]
    broken = [(c.name, c.broken) for c in crates if c.broken]
    if any(c.name == 'pdus' for c in crates): names = None
    definite, dep = [], []
    efail = {f.ty for f in fails if 'E' in f.facets}
    if not hits and P in RELAYOUT and efail and (P in NEEDS_E or any(f.facets & prim for f in fails)):
        run.say('layout differs from the frozen one in', sorted(efail), '- deriving the layout the code follows')
        ov, failed = rederive(m, g, efail)
        if not failed and len(efail) <= 20:
            cs = []
            for c in crates:
                if c.name.startswith('enums') and not c.fails: continue
                k = dict(c.kw)
                cs.append(Crate(c.name + '-relayout', c.cls, c.method, only=c.only, override=ov, threads=c.threads, **k))
            run_all(run, cs)
            if all(not c.broken for c in cs):
                crates += cs
                fails = [f for c in cs for f in c.fails]
                und += [(c.name,) + tuple(u) for c in cs for u in c.undecided]
                efail = {f.ty for f in fails if 'E' in f.facets}
    for f in fails:
        if P in RELAYOUT and f.ty in efail: dep.append(f)     # judged against a layout that is not the code's: concrete runs decide
        elif f.facets & prim: definite.append(f)
        else: dep.append(f)
    kind = {}
    open_fn = [u for u in und if fn_facets(u[3], u[2] in g.pdus) & (prim | ({'E'} if P in NEEDS_E else set()))]
    if kf:
        for x in kf['failed']: definite.append(Fail('kani', x['name'].split('::')[0], x['name'].split('::')[1], 'kani', 'V', x['msg'], x['text']))
        if kf['broken']: run.say('flag records: ' + kf['broken'][:300])
    if kr:
        for x in kr['failed']: definite.append(Fail('kani', 'PduStatusRecord', x['name'], 'kani', 'S', x['msg'], x['text']))
        if kr['broken']: broken.append(('kani', kr['broken']))
    # ---- concrete runs
    if hits is None: run.say('no concrete run')
    sus = {f.ty for f in definite + dep} | {u[1] for u in und}
    if not hits and (sus or broken):
        known = {t for t in sus if t in g.recs or t in g.pdus or t in g.enums}
        types = containers(m, g, known) if known == sus and not broken else []
        for k in range(2):
            h2 = conc.go(types, seed + 100 + k, 3000 if types else 1200, 150)
            hits = (hits or []) + (h2 or [])
            if hits: break
    replay = f'{ROOT}/replay/{P}.json'
    os.makedirs(f'{ROOT}/replay', exist_ok=True)
    rc = 0
    if definite or hits:
        own = [h for h in hits or [] if not definite or h[0] in sus] or (hits or [])
        f = definite[0] if definite else None
        rep = {'property': P, 'obligations': [{'obligation': x.name(), 'crate': x.crate, 'verifier': x.text} for x in definite],
               'depends': [x.name() for x in dep][:40],
               'failing_inputs': [{'type': a, 'what': b, 'input': c} for a, b, c in (own or [])[:20]],
               'replay': f'python3 {ROOT}/tool/check.py {P} {tier}' + (f'; concrete input replayed by the harness with types={own[0][0]} ({own[0][2]})' if own else '')}
        json.dump(rep, open(replay, 'w'), indent=1)
        for x in definite[:10]: print('obligation not accepted:', x.name()); print('   ' + x.text.replace('\n', '\n   ')[:1500])
        for a, b, c in (own or [])[:5]: print(f'failing input: {a}: {b}: {c[:600]}')
        print(f'VIOLATION property={P} replay={replay}' + ('' if own else ' no-failing-input-found'), flush=True)
        rc, ev['violations'] = 1, 1
    # ---- known findings
    if rc == 0:
        fs = findings(P)
        if fs:
            pr = conc.probes()
            for i, w in fs:
                if pr.get(i, 'fail') == 'fail': print(f'KNOWN-FINDING: property={P} {w}')
                else: print(f'(finding {i} no longer fails)')
    # ---- vacuity
    nverified = sum(c.verified for c in crates) + (kr['verified'] if kr else 0) + (kf['verified'] if kf else 0)
    if rc == 0 and nverified == 0:
        ev['level'] = 'other'
        run.say('nothing was proved on this tree: only the bounded concrete run stands')
        if conc.exe is None: raise Broken('neither proof nor concrete run possible')
    elif open_fn or broken or [x for x in dep]: ev['level_note'] = 'partly bounded'
    funs = sorted({(t, f) for c in crates for t, f, k in c.functions if (t, f) not in c.skip})
    rel = sorted({(t, f) for c in crates for t, f, k in c.functions if fn_facets(k, t in g.pdus) & prim})
    trust = sorted(set().union(*(c.trusted for c in crates))) if crates else []
    other = set(g.enums) | set(g.recs)
    if kf and not kf['broken']: trust = [x for x in trust if x.split('::')[0] not in {F for F, u, a in enums.Gen(m).flag_types()}]
    ev['coverage'] = {
        'obligations': nverified + len(fails) + len(und) + (len(kr['failed']) if kr else 0) + (len(kf['failed']) if kf else 0), 'discharged': nverified,
        'checker_cmd': kr['cmd'] if kr else 'verus <crate>.rs --multiple-errors 4 --output-json --error-format=json (crates generated from /repo by tool/vgen on this run)',
        'back_ends': {'kani/cbmc': kr['verified'], 'seconds': kr['secs']} if kr else {'verus/z3': nverified, 'solver_seconds': round(run.smt_ms / 1000, 1), 'verifier_runs': run.calls, **({'kani/cbmc': kf['verified'], 'kani_functions': kf['functions'], 'kani_seconds': kf['secs'], 'kani_error': kf['broken']} if kf else {})},
        'trusted_base': (kr['trust'] if kr else TRUST + TRUST_P.get(P, [])),
        'facets': {k: FACET[k] for k in sorted(prim)} if prim else {},
        'crates': [{'crate': c.name, 'verified': c.verified, 'not_accepted': [f.name() for f in c.fails], 'undecided': [list(map(str, u)) for u in c.undecided], 'broken': c.broken} for c in crates],
        'functions_under_contract': len(funs) if not kr else len(kr['functions']), 'functions_with_obligations_of_this_property': [f'{t}::{f}' for t, f in rel] if not kr else kr['functions'],
        'bounded_functions': [f'{u[1]}::{u[2]}: {u[4]}'[:300] for u in und] + [f'{a}: {b}'[:300] for a, b in broken],
        'undischarged_dependencies': [f.name() for f in dep],
        'trusted_functions': sorted({re.sub(r'^undeclared_.*', 'undeclared_* (a value of a Rust enum is a declared one)', x) for x in trust if x.split('::')[0] not in other}),
        'contracts_decided_by_another_property': {'C05 (codes, flags)': sorted({x.split('::')[0] for x in trust} & set(g.enums)), 'C08': [x for x in trust if x.startswith('PduStatusRecord')], 'C03, C04, C06 (octets)': sorted({x.split('::')[0] for x in trust} & set(g.recs) - set(g.enums) - {'PduStatusRecord'})},
        'vacuity': [{'crate': c.name, 'functions': c.smoked, 'refuse_false': c.smoked - len(c.vacuous)} for c in crates if c.smoked] or 'thorough tier only',
        'assumed_contracts_bounded_check': kasm or ('thorough tier only' if not kr else 'not needed: no assumed contracts'),
        'concrete_runs': {'cases': conc.n, 'error': conc.err, 'role': 'bounded cross-check of the extraction and of the assumed contracts on the compiled crate; search for failing inputs; never counted as proved'},
    }
    if ev['level'] == 'other': ev['coverage']['explanation'] = 'no obligation could be generated or discharged on this tree; only the bounded concrete run was done'
    ev['assumptions'] = ev['coverage']['trusted_base']
    ev['wall_s'] = round(time.time() - t0, 1)
    os.makedirs(f'{ROOT}/evidence', exist_ok=True)
    json.dump(ev, open(f'{ROOT}/evidence/{P}.json', 'w'), indent=1)
    print(f'{P} {tier}: {nverified} obligations discharged, {len(definite)} violated, {len(und)} undecided{"".join(f", crate {a} not read" for a, _ in broken)}, {conc.n} concrete cases, {ev["wall_s"]} s; exit {rc}')
    return rc

if __name__ == '__main__':
    try: rc = deep(lambda: main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick'))
    except Broken as e:
        print('NO ANSWER:', e); rc = 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        print('NO ANSWER: internal error'); rc = 2
    sys.stdout.flush()
    os._exit(rc)
