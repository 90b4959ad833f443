"""Writes the Verus crates: extracted code of /repo + contracts from /verif/spec."""
import json, os, re, sys
from model import Model, Unsupported, tname
from lower import Lower, strip_ref, PRIM
import prims

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, '../../spec')
W = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'u64': 8, 'i64': 8, 'f64': 8}
LIM = {1: '0x100', 2: '0x1_0000', 4: '0x1_0000_0000', 8: '0x1_0000_0000_0000_0000'}
FIELDTR = {'serialize_field': 'FieldSerialize', 'deserialize_field': 'FieldDeserialize', 'field_len': 'FieldLen'}

class Out:
    """text with a register of which lines belong to which function"""
    def __init__(self):
        self.lines, self.reg, self.open = [], [], None
    def add(self, text):
        self.lines += text.split('\n')
    def begin(self, ty, fn, kind):
        self.open = (len(self.lines) + 1, ty, fn, kind)
    def end(self):
        a, ty, fn, kind = self.open
        self.reg.append({'a': a, 'b': len(self.lines), 'ty': ty, 'fn': fn, 'kind': kind})

class Gen:
    def __init__(self, m, spec=SPEC, skip=(), override=None):
        self.m = m
        self.layout = json.load(open(f'{spec}/layout.json'))
        for k, d in (override or {}).items():    # layouts re-derived from the code (checks C01..C04 after a C06 failure)
            for t, x in d.items(): self.layout[k][t] = dict(self.layout[k][t], **x)
        self.enums = json.load(open(f'{spec}/enums.json'))
        self.recs, self.pdus = self.layout['records'], self.layout['pdus']
        self.spectext = open(f'{spec}/special.rs').read() if os.path.exists(f'{spec}/special.rs') else ''
        for d in list(self.recs.values()) + list(self.pdus.values()):
            for f in d.get('fields', []):
                # an enum written at its own width is a field of that type
                if f['k'] == 'enum' and W.get(self.enums[f['t']]['w']) == f['w']: f['k'] = 'typ'
        self.special = self.parse_special(self.spectext)
        self.fns = self.parse_special(open(f'{spec}/fns.rs').read())
        self.ctors = json.load(open(f'{spec}/ctors.json'))
        self.skip = set(skip)            # (type, fn): contract assumed (outside the verifier's reach)
        self.vacuity = False             # every function ends in assert(false): each must be refused
        self.isolate = True              # loops are verified from their invariants alone
        self.stubbed = set()             # types whose functions are verified in another crate
        self.diserr = self.dis_errors()
        from layout import enum_table
        self.cur = enum_table(m)         # enumerators and codes of the current code
        self.codes = {n: e['codes'] or {} for n, e in self.cur.items()}
        self.contracted = set()
        for n, e in self.enums.items():
            self.contracted |= {(n, f) for f, tr in FIELDTR.items() if m.tfn(tr, n, f)}
            self.contracted |= {(n, 'deserialize'), (n, 'from_u8'), (n, 'from_u16'), (n, 'from_u32')}
        self.contracted |= {('PduStatusRecord', f) for f in ('to_u8', 'from_u8', 'new_zero')}
        for t in self.recs:
            for f in ('serialize', 'deserialize', 'new', 'field_len', 'serialize_field', 'deserialize_field', 'deserialize_with_len'):
                if self.fn(t, f): self.contracted.add((t, f))
        for t, d in self.fns.items():
            self.contracted |= {(t, n) for n in d['fns'] if '::' not in n and n[0] != '+'}
            self.contracted |= {(t, n[15:]) for n in d['fns'] if n.startswith('GenericHeader::') and m.tfn('GenericHeader', t, n[15:])}
        self.contracted |= {(t, n) for t, d in self.ctors.items() for n in d}
        for sp in self.special.values():
            for l in sp['wire']:
                if l.startswith('//@enum ') and self.fn(l[8:].strip(), 'field_len'): self.contracted.add((l[8:].strip(), 'field_len'))
        self.minc = {}
        self.defaults = json.load(open(f'{spec}/defaults.json')) if os.path.exists(f'{spec}/defaults.json') else {}
        self.notes = []

    # ------------------------------------------------------------ the code of /repo
    def fn(self, ty, name):
        """(function, trait or None) that `ty` has under this name"""
        f = self.m.inherent.get(ty, {}).get(name)
        if f: return f, None
        for tr in ('FieldSerialize', 'FieldDeserialize', 'FieldLen', 'FieldDeserializeWithLen', 'GenericHeader', 'Default', 'Pdu'):
            f = self.m.tfn(tr, ty, name)
            if f: return f, tr
        return None

    def dis_errors(self):
        d = {}
        for v in self.m.enums['DISError']['variants']:
            fs = v['fields'].get('fs', [])
            d[v['id']] = [f['id'] for f in fs if v['fields']['k'] == 'named' and tname(f['t']) in PRIM]
        return d

    def parse_special(self, text):
        """spec/special.rs: sections `//@T name` with subsections `//@fn name`"""
        d, cur = {}, None
        for l in text.split('\n'):
            if l.startswith('//@T '):
                cur = l[5:].strip(); d[cur] = {'wire': [], 'fns': {}}; sec = d[cur]['wire']
            elif l.startswith('//@raw'): sec = d[cur]['fns'].setdefault('+raw', [])
            elif l.startswith('//@ens '): sec = d[cur]['fns'].setdefault('+' + l[7:].strip(), [])
            elif l.startswith('//@fn '):
                sec = d[cur]['fns'].setdefault(l[6:].strip(), [])
            elif cur: sec.append(l)
        return d

    # ------------------------------------------------------------ layout facts
    def width(self, t): return W[t]

    def fmin(self, f):
        k = f['k']
        if k == 'prim': return W[f.get('w', f['t'])]
        if k == 'const': return W[f['t']]
        if k == 'enum': return f['w']
        if k == 'arr': return f['len'] * W[f['t']]
        if k in ('vec', 'list', 'opt'): return 0
        return self.min(f['t'])

    def min(self, t):
        if t not in self.minc:
            if t in self.enums: self.minc[t] = W[self.enums[t]['w']]
            elif t in self.recs and self.recs[t].get('special'): self.minc[t] = self.recs[t]['min']
            elif t in self.recs: self.minc[t] = sum(self.fmin(f) for f in self.recs[t]['fields'])
            elif t in self.pdus: self.minc[t] = sum(self.fmin(f) for f in self.pdus[t]['fields'])
            elif t in self.layout.get('flags', {}): self.minc[t] = self.layout['flags'][t]['w']
            else: raise Unsupported('no layout for ' + t)
        return self.minc[t]

    def fixed(self, t):
        """decoder reads exactly min octets"""
        if t in self.recs: return self.recs[t].get('fixed', True) if self.recs[t].get('special') else all(f['k'] != 'list' and (f['k'] != 'typ' or self.fixed(f['t'])) for f in self.recs[t]['fields'])
        if t in self.pdus: return all(f['k'] != 'list' and 'lenby' not in f and (f['k'] != 'typ' or self.fixed(f['t'])) for f in self.pdus[t]['fields'])
        return True
    def sfix(self, t):
        """every value has the same size"""
        if t in self.recs: return self.recs[t].get('sfix', True) if self.recs[t].get('special') else all(f['k'] not in ('list', 'vec', 'opt') and (f['k'] != 'typ' or self.sfix(f['t'])) for f in self.recs[t]['fields'])
        if t in self.pdus: return all(f['k'] not in ('list', 'vec', 'opt') and (f['k'] != 'typ' or self.sfix(f['t'])) for f in self.pdus[t]['fields'])
        return True

    def ftype(self, T, f):
        for x in self.m.structs[T]['fields']['fs']:
            if x['id'] == f: return x['t']
        raise Unsupported(f'field {T}.{f}')

    # ------------------------------------------------------------ Wire of a record / PDU body
    def wire(self, T, fields, prim_names=True):
        low = Lower(self, T, {'ins': []})
        def enc(f, t):
            k, a = f['k'], f'self.{f["n"]}'
            if k == 'const': return f'be({W[f["t"]]}, {f["v"]}, {t})'
            if k == 'enum': return f'be({f["w"]}, ({a}.d as int % {LIM[f["w"]]}) as nat, {t})'
            if k == 'prim' and 'w' in f: return f'be({W[f["w"]]}, {a} as nat, {t})'
            if k == 'list': return f'enc_list({a}@, 0, {t})'
            return f'{a}.enc({t})'
        def fty(f): return low.ty(self.ftype(T, f['n']))
        def size(f):
            k, a = f['k'], f'self.{f["n"]}'
            if k in ('const', 'enum', 'prim', 'arr') or (k == 'typ' and self.sfix(f['t'])): return str(self.fmin(f))
            if k == 'list': return f'size_list({a}@, 0)'
            return f'{a}.size()'
        def wf(f):
            k, a = f['k'], f'self.{f["n"]}'
            if k in ('const', 'prim'): return []
            if k == 'enum': return [f'dec_{f["t"]}({a}.d as nat) == {a}.d && 0 <= {a}.d < {LIM[f["w"]]}']
            if 'lenby' in f: return [f'match {a} {{ None => self.{f["lenby"]} == 0, Some(v_) => 0 < v_.size() <= 255 && self.{f["lenby"]} == v_.size() }}']
            if k == 'list':
                return [f'{a}@.len() == ' + ' * '.join(f'(self.{c} as nat)' for c in f['count']), f'wf_list({a}@)']
            return [f'{a}.wf()']
        def same(f):
            k, a, b = f['k'], f'self.{f["n"]}', f'o.{f["n"]}'
            if k == 'const': return []
            if k == 'list': return [f'same_list({a}@, {b}@)']
            if k == 'enum': return [f'{a}.d == {b}.d']
            return [f'{a}.same(&{b})']
        body = 't'
        for f in reversed(fields): body = enc(f, body)
        named = [f['n'] for f in fields if f['n']]
        others = [x['id'] for x in self.m.structs[T]['fields']['fs'] if x['id'] not in named and x['id'] != 'header']
        o = [f'impl Wire for {T} {{']
        o.append(f'    open spec fn enc(&self, t: Bytes) -> Bytes {{ {body} }}')
        o.append(f'    open spec fn size(&self) -> nat {{ ({" + ".join(size(f) for f in fields) or "0"}) as nat }}')
        o.append('    open spec fn wf(&self) -> bool { ' + (' && '.join(x for f in fields for x in wf(f)) or 'true') + ' }')
        o.append('    open spec fn same(&self, o: &Self) -> bool { ' + (' && '.join(x for f in fields for x in same(f)) or 'true') + ' }')
        mn, fx = self.min(T), self.fixed(T)
        # prefix sums for fixed; nested reading for the rest
        if fx:
            o.append(f'    open spec fn rest(s: Bytes) -> Option<Bytes> {{ drop_n(s, {mn}) }}')
        else:
            txt, close = '', ''
            where = {}
            for i, f in enumerate(fields):
                where[f['n']] = (i, f)
                txt += f'match {self.frest(T, f, i, where, fty)} {{ None => None, Some(s{i+1}) => '
                close += ' }'
            o.append(f'    open spec fn rest(s: Bytes) -> Option<Bytes> {{ let s0 = s; {txt}Some(s{len(fields)}){close} }}')
        o.append(f'    open spec fn min() -> nat {{ {mn} }}')
        o.append(f'    open spec fn fixed() -> bool {{ {str(fx).lower()} }}')
        o.append(f'    open spec fn sfix() -> bool {{ {str(self.sfix(T)).lower()} }}')
        # lemmas
        ll, lc = '', ''
        t, ta, tab = 't', 'a', 'a + b'
        for i, f in reversed(list(enumerate(fields))):
            k, a = f['k'], f'self.{f["n"]}'
            if k in ('enum', 'const') or (k == 'prim' and 'w' in f):
                w, v = (W[f['t']], f['v']) if k == 'const' else (f['w'], f'({a}.d as int % {LIM[f["w"]]}) as nat') if k == 'enum' else (W[f['w']], f'{a} as nat')
                ll += f' lemma_be_len({w}, {v}, {t});'; lc += f' lemma_be_cat({w}, {v}, {ta}, b);'
            elif k == 'list':
                ll += f' lemma_list_len({a}@, 0, {t});'; lc += f' lemma_list_cat({a}@, 0, {ta}, b);'
            else:
                ll += f' {a}.lemma_len({t});'; lc += f' {a}.lemma_cat({ta}, b);'
                if k == 'arr': ll += f' lemma_prim_arr_size_{f["t"]}({a}@, 0);'
            n, na = f't{i}', f'a{i}'
            ll += f' let {n} = {enc(f, t)};'; lc += f' let {na} = {enc(f, ta)};'
            t, ta = n, na
        o.append('    proof fn lemma_len(&self, t: Bytes) {' + ll + ' }')
        o.append('    proof fn lemma_cat(&self, a: Bytes, b: Bytes) {' + lc + ' }')
        if fx: o.append('    proof fn lemma_rest(s: Bytes) { }')
        else:
            p, close = '', ''
            where = {}
            for i, f in enumerate(fields):
                where[f['n']] = (i, f)
                r = self.frest(T, f, i, where, fty)
                if f['k'] == 'list':
                    p += f' lemma_list_rest::<{self.elem(T, f)}>(s{i}, {self.count(f, where)});'
                elif 'lenby' in f: pass
                elif f['k'] not in ('enum', 'const') and not (f['k'] == 'prim' and 'w' in f): p += f' <{fty(f)} as Wire>::lemma_rest(s{i});'
                p += f' if {r} is Some {{ let s{i+1} = {r}->0;'; close += ' }'
            o.append('    proof fn lemma_rest(s: Bytes) { let s0 = s;' + p + close + ' }')
        o.append('}')
        return '\n'.join(o)

    def elem(self, T, f):
        t = strip_ref(self.ftype(T, f['n']))
        return Lower(self, T, {'ins': []}).ty(t['segs'][-1]['args'][0])

    def count(self, f, where):
        c = []
        for n in f['count']:
            i, g = where[n]
            c.append(f'bev(s{i}, {W[g["t"]]})')
        return '(' + ' * '.join(c) + ') as nat'

    def frest(self, T, f, i, where, fty):
        k = f['k']
        if k == 'enum': return f'drop_n(s{i}, {f["w"]})'
        if k == 'const': return f'drop_n(s{i}, {W[f["t"]]})'
        if k == 'prim': return f'drop_n(s{i}, {W[f.get("w", f["t"])]})'
        if k == 'list': return f'rest_list::<{self.elem(T, f)}>(s{i}, {self.count(f, where)})'
        if 'lenby' in f: return f'drop_n(s{i}, bev(s{where[f["lenby"]][0]}, 1))'
        return f'<{fty(f)} as Wire>::rest(s{i})'

    # ------------------------------------------------------------ types
    def structdef(self, T):
        s = self.m.structs[T]
        low = Lower(self, T, {'ins': []})
        copy = ('Copy', T) in self.m.timpls
        return ('#[derive(Clone, Copy)]\n' if copy else '') + f'pub struct {T} {{\n' + ''.join(f'    pub {f["id"]}: {low.ty(f["t"])},\n' for f in s['fields']['fs']) + '}'

    def enumdef(self, E):
        low = Lower(self, E, {'ins': []})
        o = [f'pub enum {E} {{']
        for v in self.m.enums[E]['variants']:
            o.append(f'    {v["id"]} {{ ' + ', '.join(f'{f["id"]}: {low.ty(f["t"])}' for f in v['fields']['fs']) + ' },')
        return '\n'.join(o + ['}'])

    def enumstub(self, E):
        e = self.enums[E]
        o = [f'#[derive(Clone, Copy)]\npub struct {E} {{ pub d: u32 }}',
             f'impl Num for {E} {{ open spec fn num(&self) -> int {{ self.d as int }} fn wide(self) -> (r: i128) {{ self.d as i128 }} }}',
             f'#[verifier::external_body] pub fn undeclared_{E}<R>(e: {E}) -> (r: R) ensures false {{ unimplemented!() }}']
        if not e['w']: return '\n'.join(o)
        w = W[e['w']]
        o.append(f'pub uninterp spec fn dec_{E}(c: nat) -> nat;\npub open spec fn dflt_{E}() -> nat {{ {e['codes'][e['default']]} }}')
        o.append(self.enumwire(E, w))
        o.append(f'''impl VDefault for {E} {{ open spec fn is_dflt(&self) -> bool {{ self.d == dflt_{E}() }} #[verifier::external_body] fn default() -> (r: Self) {{ unimplemented!() }} }}
impl {E} {{
    #[verifier::external_body] {self.sig_enum_de(E, w)} {{ unimplemented!() }}''')
        for u in ('u8', 'u16', 'u32'):
            o.append(f'    #[verifier::external_body] pub fn from_{u}(n: {u}) -> (r: Option<{E}>) ensures match r {{ Some(e) => e.d == n && dec_{E}(n as nat) == n, None => dec_{E}(n as nat) == dflt_{E}() }} {{ unimplemented!() }}')
        o.append('}')
        for f, tr in FIELDTR.items():
            if self.m.tfn(tr, E, f): o.append(self.stub_trait(E, tr, f))
        return '\n'.join(o)

    def enumwire(self, E, w):
        v = f'(self.d as int % {LIM[w]}) as nat'
        return f'''impl Wire for {E} {{
    open spec fn enc(&self, t: Bytes) -> Bytes {{ be({w}, {v}, t) }}
    open spec fn size(&self) -> nat {{ {w} }}
    open spec fn wf(&self) -> bool {{ dec_{E}(self.d as nat) == self.d && 0 <= self.d < {LIM[w]} }}
    open spec fn same(&self, o: &Self) -> bool {{ self.d == o.d }}
    open spec fn rest(s: Bytes) -> Option<Bytes> {{ drop_n(s, {w}) }}
    open spec fn min() -> nat {{ {w} }}
    open spec fn fixed() -> bool {{ true }}
    open spec fn sfix() -> bool {{ true }}
    proof fn lemma_len(&self, t: Bytes) {{ lemma_be_len({w}, {v}, t); }}
    proof fn lemma_cat(&self, a: Bytes, b: Bytes) {{ lemma_be_cat({w}, {v}, a, b); }}
    proof fn lemma_rest(s: Bytes) {{ }}
}}'''

    def stub_trait(self, T, tr, f):
        sig = {'serialize_field': 'fn serialize_field(&self, buf: &mut BytesMut)', 'deserialize_field': 'fn deserialize_field<B: Buf>(buf: &mut B) -> (r: Self)', 'field_len': 'fn field_len(&self) -> (r: usize)'}[f]
        return f'impl {tr} for {T} {{ #[verifier::external_body] {sig} {{ unimplemented!() }} }}'

    def recstub(self, T):
        """a record as the PDU crate sees it: its contract, proved in the record crate"""
        mn, b = self.min(T), lambda x: str(x).lower()
        o = [f'#[verifier::external_body]\npub struct {T} {{ x: u8 }}', f'''impl Wire for {T} {{
    uninterp spec fn enc(&self, t: Bytes) -> Bytes;
    uninterp spec fn size(&self) -> nat;
    uninterp spec fn wf(&self) -> bool;
    uninterp spec fn same(&self, o: &Self) -> bool;
    uninterp spec fn rest(s: Bytes) -> Option<Bytes>;
    open spec fn min() -> nat {{ {mn} }}
    open spec fn fixed() -> bool {{ {b(self.fixed(T))} }}
    open spec fn sfix() -> bool {{ {b(self.sfix(T))} }}
    #[verifier::external_body] proof fn lemma_len(&self, t: Bytes) {{ }}
    #[verifier::external_body] proof fn lemma_cat(&self, a: Bytes, b: Bytes) {{ }}
    #[verifier::external_body] proof fn lemma_rest(s: Bytes) {{ }}
}}
impl VDefault for {T} {{ uninterp spec fn is_dflt(&self) -> bool; #[verifier::external_body] fn default() -> (r: Self) {{ unimplemented!() }} }}''']
        for f, tr in FIELDTR.items():
            if self.m.tfn(tr, T, f): o.append(self.stub_trait(T, tr, f))
        if self.m.tfn('FieldDeserializeWithLen', T, 'deserialize_with_len'):
            o.append(f'impl FieldDeserializeWithLen for {T} {{ open spec fn lmax() -> nat {{ {self.special[T]["fns"]["lmax"][0]} }} open spec fn wfl(&self) -> bool {{ true }} #[verifier::external_body] fn deserialize_with_len<B: Buf>(buf: &mut B, len: usize) -> (r: Self) {{ unimplemented!() }} }}')
        if not self.sfix(T): o.append(self.dflt_size(T, True))
        return '\n'.join(o)


    # ------------------------------------------------------------ contracts
    def sig_ser(self, name='serialize', p='buf'):
        return f'''pub fn {name}(&self, {p}: &mut BytesMut)
        ensures forall|t: Bytes| #[trigger] cat(final({p})@, t) == cat(old({p})@, self.enc(t)), //@F E
   '''
    def sig_de(self, name='deserialize', p='buf'):
        return f'''pub fn {name}<B: Buf>({p}: &mut B) -> (r: Self)
        requires Self::rest(old({p}).view()) is Some, //@F P
        ensures
            final({p}).view() == Self::rest(old({p}).view())->0, //@F P
            forall|v: Self, t: Bytes| #![trigger v.enc(t)] old({p}).view() == v.enc(t) && v.wf() ==> r.same(&v) && final({p}).view() == t, //@F D
   '''

    def sig_enum_de(self, E, w, p='buf'):
        return self.sig_de('deserialize', p) + f'''         r.d == dec_{E}(bev(old({p}).view(), {w})), //@F D
   '''

    def params(self, low, sig):
        ps = []
        for i in sig['ins']:
            p = i['p']
            n = p['id'] if p['k'] == 'ident' else '_'
            ps.append(('mut ' if p.get('mut') else '') + n + ': ' + low.ty(i['t']))
        return ps

    def body(self, T, f, out, key, ren=None):
        """lowered body of f, or a marker when it is outside the fragment"""
        low = Lower(self, T, f['sig'], rename=ren)
        return low.fnbody(f['body'], 2)

    def emit_fn(self, out, T, name, sigtext, f, pro='', epi='', kind=None, owner=None, ren=None):
        """one function under contract inside an open impl"""
        key = (T, name)
        out.begin(T, name, kind or name)
        if key in self.skip or T in self.stubbed:
            out.add('    #[verifier::external_body]\n    ' + sigtext + '{ unimplemented!() }')
        else:
            try:
                body = self.body(T, f, out, key, ren)
                rl = 150 if T in self.pdus and name.startswith('deser') else None
                text = (pro + '\n' if pro else '') + body + ('\n' + epi if epi else '')
                if self.vacuity: text, rl = '        let vac_r = {\n' + text + '\n        };\n        proof { assert(false); } //@vacuity\n        vac_r', 5
                out.add('    ' + ('#[verifier::loop_isolation(false)]\n    ' if not self.isolate else '') + (f'#[verifier::rlimit({rl})]\n    ' if rl else '') + sigtext + '{\n' + text + '\n    }')
            except (Unsupported, KeyError, TypeError, IndexError, AttributeError, ValueError) as e:      # the last ones: a shape the lowering does not foresee
                self.notes.append((T, name, str(e) if isinstance(e, Unsupported) else f'{type(e).__name__}: {e}'))
                out.add('    #[verifier::external_body] //@unsupported\n    ' + sigtext + '{ unimplemented!() }')
        out.end()

    def pname(self, f, i=0):
        p = f['sig']['ins'][i]['p']
        return p['id'] if p['k'] == 'ident' else '_'

    def record(self, out, T, stub=False):
        sp = self.special.get(T)
        fx = self.fns.get(T)
        extra = [l[8:].strip() for x in (sp, fx) if x for l in x['wire'] if l.startswith('//@bcast')]
        out.add(f'pub mod rec_{T} {{ use super::*; broadcast use {{{", ".join(["group_be"] + extra)}}};')
        if sp:
            for l in sp['wire']:
                if l.startswith('//@enum '): out.add(self.enumdef(l[8:].strip()))
                elif l == '//@struct': out.add(self.structdef(T))
                else: out.add(l)
        else:
            out.add(self.structdef(T))
            out.begin(T, '(lemmas)', 'lemma')
            out.add(self.wire(T, self.recs[T]['fields']))
            out.end()
        if T == 'PduStatusRecord':
            out.add('}\npub use rec_%s::*;' % T)
            return
        if fx and '+raw' in fx['fns']: out.add('\n'.join(fx['fns']['+raw']))
        out.add(f'impl {T} {{')
        spf = sp['fns'] if sp else {}
        for n in ('serialize', 'deserialize'):
            f = self.fn(T, n)
            if not f or f[1] not in (None, 'GenericHeader'): continue
            p = self.pname(f[0])
            sig = '\n'.join(spf[n]).strip('\n') + '\n   ' if n in spf else self.sig_ser(n, p) if n == 'serialize' else self.sig_de(n, p)
            if fx and '+' + n in fx['fns']: sig += '\n'.join(fx['fns']['+' + n]).strip('\n') + '\n   '
            self.emit_fn(out, T, n, sig, f[0])
        out.add('}')
        for n, tr in FIELDTR.items():
            f = self.m.tfn(tr, T, n)
            if not f: continue
            self.trait_impl(out, T, n, tr, f, f'impl {tr} for {T}')
        f = self.m.tfn('FieldDeserializeWithLen', T, 'deserialize_with_len')
        if f:
            p = [self.pname(f, i) for i in range(2)]
            out.add(f'impl FieldDeserializeWithLen for {T} {{ open spec fn lmax() -> nat {{ {spf["lmax"][0]} }} open spec fn wfl(&self) -> bool {{ true }}')
            self.emit_fn(out, T, 'deserialize_with_len', f'fn deserialize_with_len<B: Buf>({p[0]}: &mut B, {p[1]}: usize) -> (r: Self) ', f)
            out.add('}')
        for E in [l[8:].strip() for l in (sp['wire'] if sp else []) if l.startswith('//@enum ')]:
            f = self.m.tfn('FieldLen', E, 'field_len')
            if f: self.trait_impl(out, E, 'field_len', 'FieldLen', f, f'impl FieldLen for {E}')
        self.default_impl(out, T)
        self.functions(out, T)
        c = self.m.tconsts.get((T, 'LENGTH'))
        if c is not None and self.sfix(T):
            try:
                low = Lower(self, T, {'ins': []})
                v = low.const(c)
                if v is None: raise Unsupported('constant expression')
                txt = str(v)
                out.begin(T, 'LENGTH', 'length')
                out.add(f'proof fn length_const() {{ assert({txt} == {self.min(T)}); //@F L\n}}')
                out.end()
            except Unsupported as e: self.notes.append((T, 'LENGTH', str(e)))
        out.add('}\npub use rec_%s::*;' % T)

    # ------------------------------------------------------------ Default and constructors
    def default_impl(self, out, T):
        f = self.m.tfn('Default', T, 'default')
        if not f or T == 'PduStatusRecord': return
        ov = self.defaults.get(T, {})
        fs = [x['id'] for x in self.m.structs[T]['fields']['fs']]
        def one(n):
            if n in ov:
                if ov[n] is None: return []
                return [ov[n].replace('$', f'self.{n}')]
            return [f'self.{n}.is_dflt()']
        out.add(f'impl VDefault for {T} {{')
        out.add('    open spec fn is_dflt(&self) -> bool { ' + (' && '.join(x for n in fs for x in one(n)) or 'true') + ' }')
        ex = self.fns.get(T, {'fns': {}})['fns'].get('+default', [])
        self.emit_fn(out, T, 'default', 'fn default() -> (r: Self) ' + ''.join(l + '\n' for l in ex), f)
        out.add('}')
        if T in self.recs and 'pdu_type' in fs:
            out.add(f'pub open spec fn hdr_dflt_{T}(h: {T}) -> bool {{ ' + ' && '.join(x for n in fs if n not in ('pdu_type', 'protocol_family', 'length') for x in one(n)).replace('self.', 'h.') + ' }')
        if T in self.recs and not self.sfix(T) and T not in self.stubbed:
            out.begin(T, 'default size', 'ctor')
            out.add(self.dflt_size(T, False))
            out.end()

    def functions(self, out, T):
        """constructors (spec/ctors.json) and further functions (spec/fns.rs)"""
        out.add(f'impl {T} {{')
        for n, c in self.ctors.get(T, {}).items():
            f = self.m.inherent.get(T, {}).get(n)
            if not f: self.notes.append((T, n, 'missing')); continue
            low = Lower(self, T, f['sig'])
            ins = f['sig']['ins']
            if len(ins) != len(c['params']) or any(i['p']['k'] != 'ident' for i in ins): self.notes.append((T, n, 'parameters')); continue
            ren = {i['p']['id']: q for i, q in zip(ins, c['params']) if i['p']['id'] != q}
            ps = ', '.join(('mut ' if i['p']['mut'] else '') + q + ': ' + low.ty(i['t']) for i, q in zip(ins, c['params']))
            sig = f'pub fn {n}({ps}) -> (r: {T})\n        ensures\n' + ''.join(f'            {e[2:]}, //@F T\n' if e[:2] == 'T:' else f'            {e}, //@F N\n' for e in c['ens']) + '   '
            self.emit_fn(out, T, n, sig, f, ren=ren, kind='ctor')
        for n, lines in self.fns.get(T, {'fns': {}})['fns'].items():
            if n[0] == '+': continue
            f = self.m.tfn(*n.split('::')[:1], T, n.split('::')[1]) if '::' in n else self.m.inherent.get(T, {}).get(n)
            if not f: self.notes.append((T, n, 'missing')); continue
            txt = '\n'.join(lines).rstrip('\n')
            pre = ''
            if '\n    pub fn' in txt: pre, txt = txt.split('\n    pub fn', 1); txt = '    pub fn' + txt; out.add(pre)
            # parameters by position
            want = [x.split(':')[0].strip() for x in re.search(r'\((.*?)\) ->', txt).group(1).split(',') if ':' in x and 'clock' not in x and 'self' not in x]
            ins = [i['p']['id'] for i in f['sig']['ins'] if i['p']['k'] == 'ident']
            self.emit_fn(out, T, n, txt.strip() + '\n    ', f, ren={a: b for a, b in zip(ins, want) if a != b}, kind='accessor' if n.startswith('GenericHeader::') else 'fn')
        out.add('}')

    def trait_impl(self, out, T, n, tr, f, head, owner=None):
        low = Lower(self, T, f['sig'])
        sig = f'fn {n}' + ('<B: Buf>' if n == 'deserialize_field' else '') + '(' + ', '.join((['&self'] if f['sig']['self'] else []) + self.params(low, f['sig'])) + ')' + {'serialize_field': '', 'deserialize_field': ' -> (r: Self)', 'field_len': ' -> (r: usize)'}[n] + ' '
        out.add(head + ' {')
        if T in prims.PRIMS and n == 'deserialize_field': sig += f'ensures {prims.val(T, "r")} == bev(old({self.pname(f)}).view(), {prims.PRIMS[T][0]}), //@F D\n'
        sig += ''.join(l + '\n' for l in self.fns.get(T, {'fns': {}})['fns'].get('+' + n, []))
        self.emit_fn(out, T, n, sig, f)
        out.add('}')

    def carriers(self, out):
        """Field impls of primitives, Vec<T>, Option<T>, String: extracted from pdu_macro.rs"""
        out.add('pub mod carriers { use super::*; broadcast use group_be;')
        for T in list(prims.PRIMS) + ['Vec', 'Option', 'String']:
            for n, tr in FIELDTR.items():
                f = self.m.tfn(tr, T, n)
                if not f: continue
                g = T in ('Vec', 'Option')
                self.trait_impl(out, T, n, tr, f, f'impl<T: {tr}> {tr} for {T}<T>' if g else f'impl {tr} for {"VString" if T == "String" else T}')
        f = self.m.tfn('FieldDeserializeWithLen', 'Option', 'deserialize_with_len')
        if f:
            p = [self.pname(f, i) for i in range(2)]
            out.add('impl<T: FieldDeserializeWithLen> FieldDeserializeWithLen for Option<T> { open spec fn lmax() -> nat { T::lmax() } open spec fn wfl(&self) -> bool { match *self { Some(v) => v.wfl() && v.size() > 0, None => true } }')
            self.emit_fn(out, 'Option', 'deserialize_with_len', f'fn deserialize_with_len<B: Buf>({p[0]}: &mut B, {p[1]}: usize) -> (r: Self) ', f)
            out.add('}')
        out.add('}')

    def refs(self, roots):
        """types reachable from the roots through fields and bodies"""
        seen, todo = [], list(roots)
        while todo:
            t = todo.pop()
            if t in seen: continue
            seen.append(t)
            names = set()
            def f(x):
                if isinstance(x, list):
                    for y in x: f(y)
                elif isinstance(x, dict):
                    if 'id' in x and 'args' in x: names.add(x['id'])
                    for v in x.values(): f(v)
            if t in self.m.structs: f(self.m.structs[t])
            if t in self.m.enums and t not in self.enums: f(self.m.enums[t])
            if t in self.recs:
                for n in self.m.inherent.get(t, {}).values(): f(n['body'])
                for (tr, ty, *_), i in self.m.timpls.items():
                    if ty == t and tr.startswith(('Field', 'Generic')): f(i['items'])
            for n in names:
                if (n in self.recs or n in self.enums or n in self.layout.get('flags', {})) and n not in seen: todo.append(n)
        return seen

    def crate_records(self, only=None):
        out = Out()
        out.add(prims.prelude(open(f'{SPEC}/prelude.rs').read()))
        roots = only or list(self.recs)
        ts = self.refs(roots)
        self.carriers(out)
        for t in sorted(t for t in ts if t in self.enums): out.add(self.enumstub(t))
        for t in sorted(t for t in ts if t in self.recs):
            n, r = len(out.lines), len(out.reg)
            try:
                if (t, '(type)') in self.skip: raise Unsupported('the verifier does not read its contract')
                self.record(out, t)
            except (Unsupported, KeyError, TypeError, IndexError, AttributeError, ValueError) as e:      # the type as a whole is outside the fragment: only its contract
                del out.lines[n:]; del out.reg[r:]
                self.notes.append((t, '(type)', f'{type(e).__name__}: {e}'))
                if t in self.m.structs: out.add(self.recstub(t))
        out.add('} // verus!\nfn main() {}')
        return out

    def dflt_size(self, T, stub):
        a = '#[verifier::external_body] ' if stub else ''
        return f'{a}pub broadcast proof fn dflt_size_{T}(x: {T}) requires #[trigger] x.is_dflt() ensures x.size() == {self.min(T)} {{ }}'
