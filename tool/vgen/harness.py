"""Writes the concrete harness (main.rs): spec/harness_rt.rs plus what follows from the frozen layout, the
enumeration tables and the constructor contracts. It runs the crate of /repo itself."""
import re
from model import tname
from gen import SPEC, W, FIELDTR
from lower import strip_ref
import prims

def rname(n): return n

class Harness:
    def __init__(self, g, props, types=None):
        self.g, self.m, self.props, self.types = g, g.m, set(props), types
        self.o, self.done, self.encs = [], set(), {}
        self.frozen = g.frozen_enums if hasattr(g, 'frozen_enums') else g.enums

    def path(self, T): return 'open_dis_rust::' + self.m.modof[T] + '::' + T

    def tystr(self, t):
        """a field type, in full paths"""
        t = strip_ref(t)
        if t['k'] == 'array': return f"[{self.tystr(t['t'])}; {t['len']['v']}]"
        if t['k'] == 'path':
            s = t['segs'][-1]
            a = [x for x in (s.get('args') or [])]
            n = s['id'] if s['id'] in prims.PRIMS or s['id'] in ('Vec', 'Option', 'String', 'usize', 'bool') else self.path(s['id']) if s['id'] in self.m.modof else s['id']
            return n + ('<' + ', '.join(self.tystr(x) for x in a) + '>' if a else '')
        raise Exception('type ' + str(t)[:80])

    def roots(self):
        g = self.g
        recs = {t for t in g.recs if t in self.m.structs}
        pdus = {t for t in g.pdus if t in self.m.structs} if self.props & {'C01', 'C02', 'C06', 'C09', 'C10', 'C11', 'C12'} else set()
        enums = set()
        for T in recs | pdus: enums |= self.names(T)
        enums = {e for e in enums if e in self.frozen} | {'PduType', 'ProtocolFamily'}
        for e in ('GridAxisDescriptorAxisType', 'GriddedDataDataRepresentation', 'DetonationTypeIndicator', 'RadioAttachedIndicator', 'IntercomAttachedIndicator', 'FireTypeIndicator', 'PduStatusIFFSimulationMode', 'ActiveInterrogationIndicator', 'TransferredEntityIndicator', 'LVCIndicator', 'CoupledExtensionIndicator'): enums.add(e)
        if 'C05' in self.props: enums = set(self.frozen)
        return recs, pdus, {e for e in enums if e in self.m.enums and self.frozen.get(e, {}).get('w')}

    def literals(self):
        r = set()
        def f(x):
            if isinstance(x, list):
                for y in x: f(y)
            elif isinstance(x, dict):
                if x.get('k') == 'int': r.add(int(x['v']) % 2**64)
                for v in x.values(): f(v)
        for x in self.m.fns.values(): f(x.get('body'))
        for d in self.m.inherent.values():
            for x in d.values(): f(x['body'])
        for k, i in self.m.timpls.items():
            if k[0] not in ('FromPrimitive', 'ToPrimitive') and k[1] not in self.g.enums: f(i['items'])
        for c in self.m.consts.values(): f(c.get('e'))
        return sorted(r)

    def names(self, T):
        ns = set()
        def f(x):
            if isinstance(x, list):
                for y in x: f(y)
            elif isinstance(x, dict):
                if 'id' in x and 'args' in x: ns.add(x['id'])
                for v in x.values(): f(v)
        f(self.m.structs[T]['fields'])
        for E in ('GridAxisType', 'DataRepresentationType'):
            if E in self.m.enums: f(self.m.enums[E])
        return ns

    # ------------------------------------------------------------ X
    def x_struct(self, T, fields):
        m, g = self.m, self.g
        P = self.path(T)
        fs = [f for f in m.structs[T]['fields']['fs'] if f['id'] != 'header']
        pub = {f['id'] for f in fs if f.get('pub')}
        lay = {f['n']: f for f in fields if f['n']}
        gen, enc, eqv, isd, used, fix = [], [], [], [], [], []
        for f in fs:
            n = f['id']
            if n not in pub: continue
            l = lay.get(n)
            if l and l['k'] == 'list': e = 'g.list()'
            elif l and 'lenby' in l: e = 'gen_lenby(g)'
            else: e = 'X::mk(g)'
            gen.append(f'x.{n} = {e};')
            if not (l and 'lenby' in l): fix.append(f'self.{n}.fix();') if not l or l['k'] == 'typ' else None
            if l and l['k'] == 'list': fix.append(f'for x in self.{n}.iter_mut() {{ x.fix(); }}')
        stamp = []
        for f in fields:
            if f['k'] == 'list':
                if len(f['count']) == 1:
                    c = f['count'][0]
                    fix.append(f'{{ let cap = (1usize << {8 * min(W[lay[c]["t"]], 4)}) - 1; self.{f["n"]}.truncate(cap); self.{c} = self.{f["n"]}.len() as _; }}')
                else:
                    a, b = f['count']
                    fix.append(f'{{ let n = self.{f["n"]}.len(); let k = if n % 3 == 0 {{ 3 }} else if n % 2 == 0 {{ 2 }} else {{ 1 }}; if n / k > 65535 {{ self.{f["n"]}.truncate(65535 * k); }} let n = self.{f["n"]}.len(); self.{a} = (n / k) as _; self.{b} = k as _; if n == 0 {{ self.{a} = self.{b} as u16 * 7; self.{b} = 0; }} }}')
            if 'lenby' in f:
                stamp.append(f'{{ let mut o = vec![]; if let Some(v) = &self.{f["n"]} {{ v.enc(&mut o); }} self.{f["lenby"]} = if o.len() < 256 {{ o.len() as u8 }} else {{ 0 }}; }}')
                fix.append(stamp[-1])
        pos = {}
        for i, f in enumerate(fields):
            k, n = f['k'], f['n']
            pos[n] = (i, f)
            a = f'self.{n}'
            w = W[f['t']] if k == 'const' else f['w'] if k == 'enum' else W[f['w']] if k == 'prim' and 'w' in f else None
            if k == 'const': enc.append(f'be_w(o, {w}, {f["v"]});')
            elif n not in pub: enc.append(f'o.extend_from_slice(&[0u8; {g.fmin(f)}]);')
            elif k == 'enum': enc.append(f'be_w(o, {w}, {a} as i64 as u64);')
            elif w: enc.append(f'be_w(o, {w}, {a} as u64);')
            elif k == 'prim' and tname(g.ftype(T, n)) != f['t'] and tname(g.ftype(T, n)) in W: enc.append(f'be_w(o, {W[f["t"]]}, {a} as u64);')
            else: enc.append(f'{a}.enc(o);')
            self.encs.setdefault(T, []).append(enc[-1])
            if k != 'const' and n in pub: eqv.append(f'self.{n}.eqv(&o.{n})')
            if k == 'const' or k == 'enum' or k == 'prim' or k == 'arr' or (k == 'typ' and n not in pub): used.append(f'let p{i+1} = take(s, p{i}, {g.fmin(f)})?;')
            elif k == 'typ': used.append(f'let p{i+1} = p{i} + <{self.ft(T, n)} as X>::used(&s[p{i}..])?;')
            elif k == 'list':
                c = ' * '.join(f'num(s, p{pos[q][0]}, {W[pos[q][1]["t"]]})' for q in f['count'])
                used.append(f'let p{i+1} = take_list::<{self.ft(T, n)[4:-1]}>(s, p{i}, {c})?;')
            elif 'lenby' in f: used.append(f'let p{i+1} = take(s, p{i}, num(s, p{pos[f["lenby"]][0]}, 1) as usize)?;')
            else: used.append(f'let p{i+1} = p{i};')
        ov = g.defaults.get(T, {})
        for f in fs:
            n = f['id']
            if n not in pub: continue
            if n in ov:
                e = ov[n]
                if e is None or 'is_now' in e: continue
                isd.append(e.replace('$.d', f'(self.{n} as i64)').replace('$', f'self.{n}'))
            else: isd.append(f'self.{n}.isd()')
        if len(fs) + ('header' in [f['id'] for f in m.structs[T]['fields']['fs']]) and (('Default', T) in m.timpls): mk = f'<{P}>::default()'
        elif all(f['id'] in pub for f in fs): mk = None
        else: mk = f'<{P} as FieldDeserialize>::deserialize_field(&mut &[0u8; 512][..])'
        if mk: body = f'let mut x = {mk}; ' + ' '.join(gen) + ' x'
        else: body = f'{P} {{ ' + ', '.join(re.sub(r'^x\.(\w+) = (.*);$', r'\1: \2', l) for l in gen) + ' }'
        if T in g.recs and 'pdu_type' in pub:
            self.o.append(f'pub fn hdrdflt_{T}(h: &{P}) -> bool {{ ' + ' && '.join(x.replace('self.', 'h.') for x in isd if not re.search(r'self\.(pdu_type|protocol_family|length)\b', x)) + ' }')
        self.o.append(f'''impl X for {P} {{
    fn mk(g: &mut G) -> Self {{ {body} }}
    fn enc(&self, o: &mut Vec<u8>) {{ {' '.join(enc)} }}
    fn eqv(&self, o: &Self) -> bool {{ {' && '.join(eqv) or 'true'} }}
    fn isd(&self) -> bool {{ {' && '.join(isd) or 'true'} }}
    fn used(s: &[u8]) -> Option<usize> {{ let p0 = 0; {' '.join(used)} Some(p{len(fields)}) }}
    fn fix(&mut self) {{ {' '.join(x for x in fix if x)} }}
    fn stampfix(&mut self) {{ {' '.join(stamp)} }}
}}''')

    def ft(self, T, n): return self.tystr(self.g.ftype(T, n))

    def x_enum(self, E):
        fz, P = self.frozen[E], self.path(E)
        cur = self.g.codes.get(E, {})
        vs = ', '.join(f'{P}::{v}' for v in cur)
        d = fz['codes'].get(fz['default'], 0)
        self.o.append(f'''impl X for {P} {{
    fn mk(g: &mut G) -> Self {{ const V: &[{P}] = &[{vs}]; V[g.below(V.len() as u64) as usize] }}
    fn enc(&self, o: &mut Vec<u8>) {{ be_w(o, {W[fz['w']]}, *self as i64 as u64); }}
    fn eqv(&self, o: &Self) -> bool {{ *self as i64 == *o as i64 }}
    fn isd(&self) -> bool {{ *self as i64 == {d} }}
    fn used(s: &[u8]) -> Option<usize> {{ take(s, 0, {W[fz['w']]}) }}
}}''')

    def x_flags(self, F, d):
        w = d['w']; u = {1: 'u8', 2: 'u16', 4: 'u32'}[w]
        P = self.path(F) if F in self.m.modof else 'open_dis_rust::common::enums::' + F
        self.o.append(f'''impl X for {P} {{
    fn mk(g: &mut G) -> Self {{ {P}::from_bits_truncate(g.int() as {u}) }}
    fn enc(&self, o: &mut Vec<u8>) {{ be_w(o, {w}, self.bits() as u64); }}
    fn eqv(&self, o: &Self) -> bool {{ self.bits() == o.bits() }}
    fn isd(&self) -> bool {{ self.bits() == 0 }}
    fn used(s: &[u8]) -> Option<usize> {{ take(s, 0, {w}) }}
}}''')

    # ------------------------------------------------------------ operations
    def plain(self, T, seen=()):
        """no hand-written layout inside"""
        g = self.g
        d = g.recs.get(T) or g.pdus.get(T)
        if not d: return True
        if d.get('special'): return T == 'PduStatusRecord'
        return all(f['k'] in ('const', 'prim', 'enum', 'arr') or (f['k'] in ('vec', 'opt') and 'lenby' not in f) or ('lenby' not in f and self.plain(f['t'])) for f in d['fields'])

    def ops(self, T, P=None, name=None, layout='"C06"', back='"C03"'):
        m, g = self.m, self.g
        P = P or self.path(T)
        ser, de = [], []
        if 'serialize' in m.inherent.get(T, {}): ser.append(f'("serialize", |x: &{P}, b: &mut BytesMut| x.serialize(b))')
        if m.tfn('GenericHeader', T, 'serialize'): ser.append(f'("serialize", |x: &{P}, b: &mut BytesMut| GenericHeader::serialize(x, b))')
        if m.tfn('FieldSerialize', T, 'serialize_field'): ser.append(f'("serialize_field", |x: &{P}, b: &mut BytesMut| FieldSerialize::serialize_field(x, b))')
        f = m.inherent.get(T, {}).get('deserialize')
        if f and len(f['sig']['ins']) == 1: de.append(f'("deserialize", |b: &mut &[u8]| <{P}>::deserialize(b), |b: &mut Ch| <{P}>::deserialize(b))')
        if m.tfn('GenericHeader', T, 'deserialize'): de.append(f'("deserialize", |b: &mut &[u8]| <{P} as GenericHeader>::deserialize(b), |b: &mut Ch| <{P} as GenericHeader>::deserialize(b))')
        if m.tfn('FieldDeserialize', T, 'deserialize_field'): de.append(f'("deserialize_field", |b: &mut &[u8]| <{P} as FieldDeserialize>::deserialize_field(b), |b: &mut Ch| <{P} as FieldDeserialize>::deserialize_field(b))')
        dewl = 'None'
        if m.tfn('FieldDeserializeWithLen', T, 'deserialize_with_len'):
            dewl = f'Some((|b: &mut &[u8], n: usize| <Option<{P}> as FieldDeserializeWithLen>::deserialize_with_len(b, n), {g.special[T]["fns"]["lmax"][0]}))'
        fl = f'Some(|x: &{P}| FieldLen::field_len(x))' if m.tfn('FieldLen', T, 'field_len') else 'None'
        ln = f'Some(<{P} as SerializedLength>::LENGTH)' if (T, 'LENGTH') in m.tconsts and T in g.recs and g.sfix(T) and ('SerializedLength', T) in m.timpls else 'None'
        df = f'Some(|| <{P}>::default())' if ('Default', T) in m.timpls and T in g.recs else 'None'
        mn = g.min(T) if T in g.recs else 0
        return f'Ops::<{P}> {{ ser: vec![{", ".join(ser)}], de: vec![{", ".join(de)}], dewl: {dewl}, flen: {fl}, length: {ln}, layout: &[{layout}], back: &[{back}], lens: "C04", again: {str(self.plain(T)).lower()}, dflt: {df}, min: {mn} }}'

    def ctor(self, T, n, c, out):
        f = self.m.inherent.get(T, {}).get(n)
        if not f: return
        ins = f['sig']['ins']
        if len(ins) != len(c['params']): return
        P = self.path(T)
        tests = []
        for e in c['ens']:
            if e[:2] == 'T:': continue
            if 'forall' in e: tests.append(('r.dead_reckoning_other_parameters.isd()', e)); continue
            if e.endswith('.is_dflt()'): tests.append((e[:-10] + '.isd()', e)); continue
            if e.endswith('@.len() == 0'): tests.append((e[:-12] + '.isd()' if T not in ('AntennaPattern', 'ModulationParameters') else 'r.isd()', e)); continue
            mm = re.fullmatch(r'r\.([\w.]+) == (\w+)', e)
            if mm and mm.group(2) in c['params']: tests.append((f'r.{mm.group(1)}.eqv(&a_{mm.group(2)})', e)); continue
            e2 = re.sub(r'\.d ==', ' as i64 ==', e).replace('r.status_record.b', 'r.status_record.to_u8()')
            fld = re.match(r'r\.(\w+)', e2).group(1)
            pub = next((x.get('pub') for x in self.m.structs[T]['fields']['fs'] if x['id'] == fld), False)
            if pub: tests.append((e2, e))
        lets = ' '.join(f'let a_{q}: {self.tystr(i["t"])} = X::mk(&mut g);' for i, q in zip(ins, c['params']))
        cl = ', '.join(f'a_{q}.clone()' for q in c['params'])
        ts = ' '.join(f'if !({t}) {{ cx.fail("C12", "{T}", {self.q(f"{n}: {e} does not hold")}, &format!("seed={{seed:#x}} {{r:?}}")); }}' for t, e in tests)
        out.append(f'    if cx.wants("{T}") {{ for it in 0..60 {{ cx.n += 1; let seed = sub(cx.seed, "{T}", it); let mut g = G::new(seed, false); g.depth = 1; {lets} let r = <{P}>::{n}({cl}); {ts} }} }}')

    def q(self, s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('{', '{{').replace('}', '}}') + '"' if False else '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'

    def main(self):
        m, g, props = self.m, self.g, self.props
        recs, pdus, enums = self.roots()
        self.o.append(open(f'{SPEC}/harness_rt.rs').read())
        self.o.append('/// integer literals of the functions of the crate\npub const DICT: &[u64] = &[' + ', '.join(map(str, self.literals())) + '];')
        for E in sorted(enums): self.x_enum(E)
        for F, d in g.layout['flags'].items():
            if 'bits' in d: self.x_flags(F, d)
        for T in sorted(recs):
            if not g.recs[T].get('special'): self.x_struct(T, g.recs[T]['fields'])
        for T in sorted(pdus): self.x_struct(T, g.pdus[T]['fields'])
        blocks = []
        hdr = ('PduHeader', 'LiveEntityPduHeader')
        if props & {'C03', 'C04', 'C06', 'C07', 'C11', 'C12'}:
            for T in sorted(recs):
                if T == 'PduStatusRecord': continue
                if props <= {'C07'} and T not in hdr: continue
                lay, back = ('"C06", "C07"', '"C03", "C07"') if T in hdr else ('"C06"', '"C03"')
                o = f'    {{ let o = {self.ops(T, layout=lay, back=back)}; rec(cx, "{T}", &o);'
                if 'C12' in props and ('Default', T) in m.timpls: o += f' rec_dflt(cx, "{T}", &o);'
                blocks.append(o + ' }')
        if props & {'C03', 'C04', 'C11'}:
            for t in prims.PRIMS: blocks.append(f'    {{ let o = {self.ops(t, P=t)}; rec(cx, "{t}", &o); }}')
            if 'C04' in props:
                blocks.append('''    if cx.wants("Vec") || cx.wants("Option") || cx.wants("String") { for it in 0..cx.iters { cx.n += 1;
        let seed = sub(cx.seed, "Vec", it); let mut g = G::new(seed, false);
        let v: Vec<u16> = X::mk(&mut g); let w: Vec<open_dis_rust::common::data_types::entity_id::EntityId> = X::mk(&mut g); let s: String = X::mk(&mut g); let p: Option<u32> = X::mk(&mut g); let q: Vec<VariableDatumRecord> = X::mk(&mut g);
        macro_rules! one { ($t:expr, $x:expr) => { { let mut e = vec![]; $x.enc(&mut e); let mut b = BytesMut::from(&[1u8, 2][..]); let r = quiet(|| { FieldSerialize::serialize_field(&$x, &mut b); FieldLen::field_len(&$x) });
            match r { Err(p) => cx.fail("C04", $t, &format!("panics: {p}"), &format!("seed={seed:#x}")), Ok(n) => { if n != b.len() - 2 { cx.fail("C04", $t, &format!("field_len = {n}, {} octets emitted", b.len() - 2), &format!("seed={seed:#x}")); } if b[..2] != [1, 2] { cx.fail("C04", $t, "alters octets already in the buffer", &format!("seed={seed:#x}")); } if b[2..] != e[..] { cx.fail("C06", $t, &format!("emitted {} expected {}", hex(&b[2..]), hex(&e)), &format!("seed={seed:#x}")); } } } } } }
        one!("Vec", v); one!("Vec", w); one!("String", s); one!("Option", p); one!("Vec", q);
    } }''')
        if 'C05' in props or 'C04' in props:
            for E in sorted(enums):
                fz, P, cur = self.frozen[E], self.path(E), g.codes.get(E, {})
                rows = ', '.join(f'("{v}", {P}::{v}, {c})' for v, c in fz['codes'].items() if v in cur)
                miss = ''.join(f' cx.fail("C05", "{E}", "no enumerator {v}", "{E}::{v}");' for v in fz['codes'] if v not in cur)
                if miss: miss = f' if cx.wants("{E}") {{{miss} }}'
                de = f'|b: &mut &[u8]| <{P}>::deserialize(b)' if 'deserialize' in m.inherent.get(E, {}) else f'|b: &mut &[u8]| <{P} as FieldDeserialize>::deserialize_field(b)' if m.tfn('FieldDeserialize', E, 'deserialize_field') else None
                if not de: continue
                df = f'Some(|| <{P}>::default())' if ('Default', E) in m.timpls else 'None'
                fl = f'Some(|x: &{P}| FieldLen::field_len(x))' if m.tfn('FieldLen', E, 'field_len') else 'None'
                sf = f'Some(|x: &{P}, b: &mut BytesMut| FieldSerialize::serialize_field(x, b))' if m.tfn('FieldSerialize', E, 'serialize_field') else 'None'
                df2 = f'Some(|b: &mut &[u8]| <{P} as FieldDeserialize>::deserialize_field(b))' if m.tfn('FieldDeserialize', E, 'deserialize_field') else 'None'
                blocks.append(f'    {{{miss} enumeration::<{P}>(cx, "{E}", {W[fz["w"]]}, &[{rows}], {fz["codes"].get(fz["default"], 0)}, |x| x as i64, {de}, {df2}, {df}, {sf}, {fl}); }}')
            for u, E in m.froms:
                if E not in self.frozen or E not in enums or u not in ('u8', 'u16', 'u32'): continue
                fz, P, cur = self.frozen[E], self.path(E), g.codes.get(E, {})
                top = (1 << max(fz['codes'].values()).bit_length()) - 1
                cs = ' | '.join(str(c) for c in sorted({c for v, c in fz['codes'].items() if v in cur}))
                if not cs: continue
                blocks.append(f'    if cx.wants("{E}") {{ for v in 0..={top}{u} {{ let want = match v {{ {cs} => v as i64, _ => {fz["codes"].get(fz["default"], 0)} }}; let got = {P}::from(v) as i64; if got != want {{ cx.fail("C05", "{E}", &format!("{E}::from({{v}}) has code {{got}}, not {{want}}"), &format!("code={{v}}")); }} }} }}')
            for F, d in g.layout['flags'].items():
                if 'bits' not in d: continue
                P, w = 'open_dis_rust::common::enums::' + F, d['w']
                u = {1: 'u8', 2: 'u16', 4: 'u32'}[w]
                cur = {n for (t, n), e in m.tconsts.items() if t == F and e['k'] == 'call'}
                o = f'    if cx.wants("{F}") {{'
                for n, c in d['bits'].items():
                    o += f' if {P}::{n}.bits() != {c} {{ cx.fail("C05", "{F}", "{n} has another mask than {c}", "{n}"); }}' if n in cur else f' cx.fail("C05", "{F}", "no flag {n}", "{n}");'
                al = 0
                for c in d['bits'].values(): al |= c
                de = f'<{P} as FieldDeserialize>::deserialize_field(&mut s)' if m.tfn('FieldDeserialize', F, 'deserialize_field') else f'<{P}>::deserialize(&mut s)' if 'deserialize' in m.inherent.get(F, {}) else f'{{ s = &s[{w}..]; <{P}>::from_{u}(v).unwrap_or_default() }}' if f'from_{u}' in m.inherent.get(F, {}) else '{ s = &s[%d..]; x }' % w
                o += f''' let mut g = G::new(cx.seed, false); for it in 0..20000u64 {{ cx.n += 1; let v = if {w} <= 2 {{ it as {u} & {P}::all().bits() }} else {{ g.int() as {u} & {P}::all().bits() }};
            let x = {P}::from_bits_truncate(v); let mut e = vec![]; x.enc(&mut e); let mut b = BytesMut::new(); let mut n = e.len();
            '''
                if m.tfn('FieldSerialize', F, 'serialize_field'): o += f'FieldSerialize::serialize_field(&x, &mut b); if b[..] != e[..] {{ cx.fail("C05", "{F}", &format!("flags {{v:#x}} encode to {{}}", hex(&b)), "serialize_field"); }} n = b.len();'
                if m.tfn('FieldLen', F, 'field_len'): o += f'if FieldLen::field_len(&x) != n {{ cx.fail("C04", "{F}", &format!("field_len = {{}} of {{n}} octets", FieldLen::field_len(&x)), "field_len"); }}'
                o += f' let mut s = &e[..]; match quiet(|| {{ let y = {de}; (y.bits(), s.len()) }}) {{ Ok((y, l)) => if y != v || l != 0 {{ cx.fail("C05", "{F}", &format!("flags {{v:#x}} decode to {{y:#x}}"), &format!("octets={{}}", hex(&e))); }}, Err(p) => cx.fail("C05", "{F}", &format!("decoding flags {{v:#x}} panics: {{p}}"), &format!("octets={{}}", hex(&e))) }} }} }}'
                blocks.append(o)
        if 'C12' in props:
            for T, d in g.ctors.items():
                for n, c in d.items(): self.ctor(T, n, c, blocks)
        for T in sorted(pdus):
            if not props & {'C01', 'C02', 'C06', 'C09', 'C10', 'C11', 'C12'}: break
            d, P = g.pdus[T], self.path(T)
            H = self.path(d['header'])
            tyv = next((v for v, c in self.frozen['PduType']['codes'].items() if c == d['type']), None)
            fav = next((v for v, c in self.frozen['ProtocolFamily']['codes'].items() if c == d['family']), None)
            grow = 'None'
            for f in d['fields']:
                if f['k'] == 'vec' and (f['t'] in W or (f['t'] in g.recs and g.sfix(f['t']))) and next((x.get('pub') for x in m.structs[T]['fields']['fs'] if x['id'] == f['n']), False):
                    el = W.get(f['t']) or g.min(f['t'])
                    grow = f'Some((|p: &mut {P}, n: usize| {{ let mut g = G::new(9, true); p.{f["n"]} = (0..n).map(|_| X::mk(&mut g)).collect(); }}, {el}))'
                    break
            splice = 'None'
            lb = [f for f in d['fields'] if 'lenby' in f]
            if len(lb) == 1:
                keep = {lb[0]['n'], lb[0]['lenby']}
                e = [f'be_w(o, 1, b.len() as u64);' if f['n'] == lb[0]['lenby'] else 'o.extend_from_slice(b);' if f['n'] == lb[0]['n'] else self.encs[T][i] for i, f in enumerate(d['fields'])]
                splice = f'Some(|x: &{P}, o: &mut Vec<u8>, b: &[u8]| {{ ' + ' '.join(e).replace('self.', 'x.').replace('.enc(o)', '.enc(&mut *o)').replace('be_w(o,', 'be_w(&mut *o,') + ' })'
            new = f'Some(|| <{P}>::new())' if 'new' in m.inherent.get(T, {}) else 'None'
            blocks.append(f'''    {{ let o = POps::<{P}, {H}> {{ hdr: |p| Pdu::header(p), hdr_mut: |p| Pdu::header_mut(p),
        stamped: |h| (h.pdu_type as i64, h.protocol_family as i64, h.length), stamp: |h, n| {{ h.pdu_type = ptype({d['type']}); h.protocol_family = pfam({d['family']}); h.length = n; }},
        new: {new}, dflt: || <{P}>::default(), ty: {d['type']}, fam: {d['family']}, min: {g.min(T)}, fixed: {str(g.fixed(T)).lower()}, grow: {grow}, other: |h, t| {{ h.pdu_type = ptype(t); }}, hdrdflt: |h| hdrdflt_{d['header']}(h), again: {str(self.plain(T)).lower()}, splice: {splice} }}; pdu(cx, "{T}", &o); }}''')
        def table(fn, E):
            self.o.append(f'pub fn {fn}(c: i64) -> {self.path(E)} {{ match c {{ ' + ' '.join(f'{c} => {self.path(E)}::{v},' for v, c in self.uniq(g.codes[E]).items()) + f' _ => <{self.path(E)}>::default() }} }}')
        table('ptype', 'PduType'); table('pfam', 'ProtocolFamily')
        for p, fn in (('C07', 'peek'), ('C08', 'status'), ('C13', 'vectors'), ('C14', 'clock')):
            if p in props: blocks.append(f'    {fn}(cx);')
        f = m.fns.get('validate_pdu_size')
        if 'C10' in props and f and f.get('pub') and len(f['sig']['ins']) == 1 and m.modof.get('validate_pdu_size', '').startswith('common::constants'):
            blocks.append('''    if cx.wants("constants") { let mut g = G::new(cx.seed, false);
        for i in 0..20_000u64 {
            let n = match i % 4 { 0 => i as usize, 1 => 8180 + i as usize % 30 + ((g.u() >> g.below(64)) as usize & !0x1fff), _ => g.int() as usize };
            cx.n += 1;
            if open_dis_rust::common::constants::validate_pdu_size(n) != (n <= 8192) { cx.fail("C10", "constants", "validate_pdu_size is not size <= 8192", &n.to_string()); break; }
        } }''')
        fns = []
        fns.append(self.probes(pdus))
        for i in range(0, len(blocks), 12):
            fns.append(f'fn run_{i}(cx: &mut Cx) {{\n' + '\n'.join(blocks[i:i + 12]) + '\n}')
        self.o += fns
        self.o.append('''fn main() {
    std::panic::set_hook(Box::new(|i| { let t = i.to_string(); LAST.with(|l| *l.borrow_mut() = t); }));
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "PROBE" { probes(); return; }
    let list = |s: &str| s.split(',').filter(|x| !x.is_empty() && *x != "all").map(|x| x.to_string()).collect::<Vec<_>>();
    let mut cx = Cx { props: list(&a[1]), only: list(&a[2]), seed: a[3].parse().unwrap(), iters: a[4].parse().unwrap(), seen: Default::default(), n: 0, types: 0 };
    let cx = &mut cx;
''' + '\n'.join(f'    run_{i}(cx);' for i in range(0, len(blocks), 12)) + '''
    println!("DONE\\t{}\\t{}", cx.n, cx.types);
}''')
        return '\n'.join(self.o)

    def probes(self, pdus):
        """the inputs of known-findings.txt: prints PROBE id fail|ok"""
        g, m, o = self.g, self.m, []
        def p(id, ok): o.append(f'    {{ let r = quiet(|| -> bool {{ {ok} }}); println!("PROBE\\t{id}\\t{{}}", if matches!(r, Ok(true)) {{ "ok" }} else {{ "fail" }}); }}')
        if 'C02' in self.props:
            for T in sorted(pdus):
                P = self.path(T)
                pub = {x['id'] for x in m.structs[T]['fields']['fs'] if x.get('pub')}
                for f in g.pdus[T]['fields']:
                    if f['k'] not in ('vec', 'opt') or 'lenby' in f or f['n'] not in pub: continue
                    ft = self.ft(T, f['n'])
                    one = f'vec![{ft[4:-1]}::mk(&mut g)]' if False else None
                    p(f'{f["k"]}.{T}.{f["n"]}', f'let mut g = G::new(5, false); let mut k = 0; let mut x = <{P}>::default(); x.{f["n"]} = loop {{ k += 1; if k > 100000 {{ return true; }} let v: {ft} = X::mk(&mut g); let mut e = vec![]; v.enc(&mut e); if !e.is_empty() && e.len() < 4000 {{ break v; }} }}; let mut b = BytesMut::new(); x.serialize(&mut b).unwrap(); let v = b.to_vec(); let mut s = &v[..]; let y = <{P} as Pdu>::deserialize(&mut s).unwrap(); y.{f["n"]}.eqv(&x.{f["n"]}) && s.is_empty()')
                    for f2 in g.pdus[T]['fields']: pass
                lb = next((f for f in g.pdus[T]['fields'] if 'lenby' in f), None)
                if lb:
                    ft = self.ft(T, lb['n'])
                    for id, cond in (('empty', 'e.is_empty() && v.is_some()'),):
                        p(f'{id}.{T}.{lb["n"]}', f'let mut g = G::new(5, false); let mut x = <{P}>::default(); let mut k = 0; x.{lb["n"]} = loop {{ k += 1; if k > 200000 {{ return true; }} let v: {ft} = X::mk(&mut g); let mut e = vec![]; v.enc(&mut e); if {cond} {{ break v; }} }}; let mut b = BytesMut::new(); x.serialize(&mut b).unwrap(); let v = b.to_vec(); let mut s = &v[..]; let y = <{P} as Pdu>::deserialize(&mut s).unwrap(); y.{lb["n"]}.eqv(&x.{lb["n"]}) && s.is_empty()')
        if 'C11' in self.props:
            for T in sorted(pdus):
                if g.fixed(T): continue
                P = self.path(T)
                p(f'trunc.{T}', f'for k in 0..400u64 {{ let mut g = G::new(k, true); let mut x = <{P} as X>::mk(&mut g); x.fix(); let mut b = BytesMut::new(); if x.serialize(&mut b).is_err() || b.len() <= 12 + {g.min(T)} {{ continue; }} let v = b.to_vec(); for n in 12 + {g.min(T)}..v.len() {{ let _ = <{P} as Pdu>::deserialize(&mut &v[..n]); }} }} true')
        if 'C03' in self.props:
            o.append(open(f'{SPEC}/probes_c03.rs').read())
        if 'C05' in self.props:
            for E in ('GriddedDataFieldNumber', 'CivilianSubmarineSubcategories', 'CivilianSubmersibleSubcategories'):
                if E in m.modof and 'deserialize' in m.inherent.get(E, {}): p(f'uninhabited.{E}', f'let _ = <{self.path(E)}>::deserialize(&mut BytesMut::from(&[0u8; 8][..])); true')
        return 'fn probes() {\n' + '\n'.join(o) + '\n}'

    def uniq(self, codes):
        seen, r = set(), {}
        for v, c in codes.items():
            if c not in seen: seen.add(c); r[v] = c
        return r
