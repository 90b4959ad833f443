"""Derives the wire layout of every record and PDU from its serialize code (symbolic reading of
put_* / serialize calls in order). `python3 layout.py AST OUT` writes the draft that was reviewed and
frozen as spec/layout.json; checks C01..C04 also use it to re-derive a layout after a consistent change."""
import sys, json
from model import load, Unsupported, tname
from lower import strip_ref, walk, pushes

W = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'u64': 8, 'i64': 8, 'f64': 8}
SPECIAL = {'EntityMarking', 'VariableDatumRecord', 'GridAxisDescriptor', 'GridDataRecord', 'AntennaPattern', 'ModulationParameters', 'PduStatusRecord'}

def selffield(e):
    while e['k'] in ('ref', 'cast') or (e['k'] == 'un' and e['op'] == '*'): e = e['e']
    if e['k'] == 'mcall' and e['m'] in ('to_u8', 'bits', 'as_bytes', 'iter', 'as_slice'): return selffield(e['r'])
    if e['k'] == 'field' and e['e']['k'] == 'path' and e['e']['segs'][-1]['id'] == 'self': return e['m']
    return None

class Deriver:
    def __init__(self, m, enums): self.m, self.enums = m, enums

    def ftype(self, T, f):
        for x in self.m.structs[T]['fields']['fs']:
            if x['id'] == f: return x['t']
        raise Unsupported(f'{T}.{f}')

    def field(self, T, f):
        t = strip_ref(self.ftype(T, f))
        n = tname(t)
        if t['k'] == 'array': return {'n': f, 'k': 'arr', 't': tname(t['t']), 'len': int(t['len']['v'])}
        if n in W: return {'n': f, 'k': 'prim', 't': n}
        if n == 'Vec': return {'n': f, 'k': 'vec', 't': tname(t['segs'][-1]['args'][0])}
        if n == 'Option': return {'n': f, 'k': 'opt', 't': tname(t['segs'][-1]['args'][0])}
        return {'n': f, 'k': 'typ', 't': n}

    def one(self, T, e, loopvar, out):
        """one put/serialize call"""
        m = e['m']
        if m.startswith('put_') and m[4:] in W:
            a = e['args'][0]
            if a['k'] == 'int': out.append({'n': None, 'k': 'const', 't': m[4:], 'v': int(a['v'])}); return
            x = a
            while x['k'] in ('cast', 'ref') or (x['k'] == 'un' and x['op'] == '*'): x = x['e']
            if loopvar:
                out.append({'k': 'elem', 'w': m[4:]}); return
            f = selffield(a)
            if f is None: raise Unsupported('put of ' + str(a)[:60])
            d = self.field(T, f)
            if d['k'] == 'prim':
                if d['t'] != m[4:]: d = dict(d, w=m[4:])
            elif d['t'] in self.enums: d = dict(d, k='enum', w=W[m[4:]])
            elif d['t'] == 'PduStatusRecord': pass
            else: raise Unsupported('put of field')
            out.append(d); return
        if m in ('serialize', 'serialize_field') and loopvar: out.append({'k': 'elem'}); return
        if m in ('serialize', 'serialize_field', 'put_slice'):
            f = selffield(e['r'] if m != 'put_slice' else e['args'][0])
            if f is None: raise Unsupported('serialize of ' + str(e['r'])[:60])
            out.append(self.field(T, f)); return
        raise Unsupported('call ' + m)

    def body(self, T, stmts, out, seen):
        for s in stmts:
            if s['k'] == 'let': continue
            e = s['e'] if s['k'] == 'expr' else None
            if e is None: continue
            if e['k'] == 'other' and not e['src'].strip(): continue
            if e['k'] == 'for':
                sub = []
                for t in e['b']:
                    if t['k'] == 'expr': self.one(T, t['e'], True, sub)
                f = None
                def find(x):
                    nonlocal f
                    g = selffield(x) if x.get('k') == 'field' else None
                    if g: f = g
                walk(e['e'], find)
                if f is None: raise Unsupported('loop over no field')
                out.append(self.field(T, f))
            elif e['k'] == 'mcall':
                # self.serialize(buf) -> follow
                if e['m'] == 'serialize' and e['r']['k'] == 'path' and e['r']['segs'][-1]['id'] == 'self':
                    fn = self.m.inherent.get(T, {}).get('serialize') or self.m.tfn('GenericHeader', T, 'serialize')
                    self.body(T, fn['body'], out, seen); continue
                if e['r']['k'] == 'path' and e['r']['segs'][-1]['id'] == 'self':
                    fn = self.m.inherent.get(T, {}).get(e['m'])
                    if fn and e['m'] not in seen: self.body(T, fn['body'], out, seen | {e['m']}); continue
                self.one(T, e, False, out)
            elif e['k'] == 'call' and e['f']['k'] == 'path' and e['f']['segs'][-1]['id'] in ('serialize_field', 'serialize'):
                self.one(T, {'m': 'serialize', 'r': e['args'][0], 'args': e['args'][1:]}, False, out)
            else: raise Unsupported('statement ' + e['k'])

    def record(self, T):
        fn = self.m.inherent.get(T, {}).get('serialize') or self.m.tfn('GenericHeader', T, 'serialize') or self.m.tfn('FieldSerialize', T, 'serialize_field')
        out = []
        self.body(T, fn['body'], out, set())
        return out

    def pdu(self, T):
        fn = self.m.tfn('Pdu', T, 'serialize')
        out = []
        for s in fn['body']:
            if s['k'] != 'expr' or s['e']['k'] not in ('call', 'mcall'): continue
            e = s['e']
            n = e['f']['segs'][-1]['id'] if e['k'] == 'call' and e['f']['k'] == 'path' else e.get('m')
            a = e['args'][0] if e['k'] == 'call' else e['r']
            if n in ('serialize_field', 'serialize'):
                f = selffield(a)
                if f and f != 'header': out.append(self.field(T, f))
        return out

    def counts(self, T, fs):
        """which earlier field counts a list of a record, from its deserialize code"""
        fn = self.m.tfn('FieldDeserialize', T, 'deserialize_field')
        cands = [self.m.inherent.get(T, {}).get('deserialize'), fn]
        for fn in cands:
            if not fn: continue
            defs = {}
            def f(x):
                if x.get('k') == 'let' and x['p'].get('k') in ('ident', 'typed') and x['e']:
                    p = x['p'] if x['p']['k'] == 'ident' else x['p']['p']
                    if p['k'] == 'ident': defs[p['id']] = x['e']
                if x.get('k') == 'for' and x['e']['k'] == 'range':
                    for v in pushes(x['b']):
                        names = set()
                        def g(y):
                            if y.get('k') == 'path' and len(y['segs']) == 1: names.add(y['segs'][0]['id'])
                        walk(x['e']['h'], g)
                        for n in list(names):
                            if n in defs and n not in [q['n'] for q in fs]: names.discard(n); walk(defs[n], g)
                        names &= {q['n'] for q in fs}
                        for q in fs:
                            if q['k'] == 'vec' and (q['n'] == v or (v == 'records' and q is fs[-1])): q['k'] = 'list'; q['count'] = sorted(names, key=[z['n'] for z in fs].index)
            walk(fn['body'], f)

def enum_table(m):
    """C-like enums: codes, default variant, wire width and sign"""
    out = {}
    for n, e in m.enums.items():
        if not all(v['fields']['k'] == 'unit' for v in e['variants']): continue
        codes, last, dflt = {}, -1, None
        for v in e['variants']:
            if v['disc'] is not None:
                d = v['disc']
                neg = d['k'] == 'un' and d['op'] == '-'
                if neg: d = d['e']
                if d['k'] != 'int': codes = None; break
                last = -int(d['v']) if neg else int(d['v'])
            else: last += 1
            codes[v['id']] = last
        if codes is None: continue
        df = m.tfn('Default', n, 'default')
        if df:
            t = df['body'][-1]
            if t['k'] == 'expr' and t['e']['k'] == 'path': dflt = t['e']['segs'][-1]['id']
        w = None
        fn = m.inherent.get(n, {}).get('deserialize') or m.tfn('FieldDeserialize', n, 'deserialize_field')
        if fn:
            def f(x):
                nonlocal w
                if x.get('k') == 'mcall' and x['m'].startswith('get_') and x['m'][4:] in W: w = x['m'][4:]
            walk(fn['body'], f)
        out[n] = {'codes': codes, 'default': dflt, 'w': w}
    return out

def draft(m):
    en = enum_table(m)
    d = Deriver(m, en)
    recs, pdus, problems = {}, {}, []
    names = {t for t, f in m.inherent.items() if 'serialize' in f and t in m.structs} | {'PduHeader', 'LiveEntityPduHeader'}
    for T in sorted(names):
        if T in SPECIAL: recs[T] = {'special': True}; continue
        try:
            fs = d.record(T); d.counts(T, fs)
            recs[T] = {'fields': fs}
        except Unsupported as e: problems.append((T, str(e)))
    for (tr, T, *_) in m.timpls:
        if tr == 'Pdu': pdus[T] = {'fields': d.pdu(T)}
    return {'records': recs, 'pdus': pdus}, en, problems

if __name__ == '__main__':
    import threading
    sys.setrecursionlimit(1000000); threading.stack_size(512 * 1024 * 1024)
    def main():
        m = load(sys.argv[1])
        lay, en, prob = draft(m)
        print(prob, file=sys.stderr)
        json.dump({'layout': lay, 'enums': en}, open(sys.argv[2], 'w'), indent=1)
    t = threading.Thread(target=main); t.start(); t.join()
