"""Crate A: every enumeration and flag record of common/enums.rs under contract (property C05)."""
import json
import prims
from model import Unsupported, tname
from lower import Lower
from gen import Gen as GenB, Out, SPEC, FIELDTR, W, LIM
from layout import enum_table

CHUNK = 24

def ranges(codes):
    rs = []
    for c in sorted(codes):
        if rs and rs[-1][1] == c - 1: rs[-1][1] = c
        else: rs.append([c, c])
    return rs
def inset(codes, x):
    return ' || '.join(f'{x} == {a}' if a == b else f'{a} <= {x} <= {b}' for a, b in ranges(codes)) or 'false'

def arms(body, n):
    """arms of the derived `if n == E::V as i64 { Some(E::V) } else if ... else { None }`"""
    out = []
    if len(body) != 1 or body[0]['k'] != 'expr': raise Unsupported('from_i64 of unknown shape')
    e = body[0]['e']
    while e['k'] == 'if':
        if not e.get('e'): raise Unsupported('from_i64 of unknown shape')
        out.append((e['c'], e['t']))
        x = e['e']
        if x['k'] == 'block' and len(x['b']) == 1 and x['b'][0]['k'] == 'expr': x = x['b'][0]['e']
        e = x
    return out, e

class Gen(GenB):
    def crate_enums(self, only=None, part=None, light=False):
        """light: codes and from_* by contract only (verified in full by C05)"""
        out = Out()
        self.light = light
        out.add(prims.prelude(open(f'{SPEC}/prelude.rs').read()))
        self.stubbed |= set(prims.PRIMS) | {'Vec', 'Option', 'String'}
        self.carriers(out)
        self.contracted |= {(n, f) for n in self.enums for f in ('from_i64', 'from_u64', 'default')}
        es = [n for n, e in self.enums.items() if e['w']]
        if part: es = es[part[0]::part[1]]
        es = [n for n in es if only is None or n in only]
        for E in es: self.enum(out, E)
        if not part or part[0] == 0:
            for F, d in self.layout['flags'].items():
                if 'bits' in d and (only is None or F in only): self.flags(out, F, d)
        out.add('} // verus!\nfn main() {}')
        return out

    def enum(self, out, E):
        m, fz, cur = self.m, self.enums[E], self.cur.get(E)
        w = W[fz['w']]
        if self.light: return self.enum_light(out, E, fz, w)
        out.add(f'pub mod enum_{E} {{ use super::*; broadcast use group_be;')
        out.begin(E, '(codes)', 'enum')
        out.add('proof fn frozen_codes() {')
        missing = 0
        for v, c in fz['codes'].items():
            x = cur['codes'].get(v) if cur and cur['codes'] else None
            if x is None: missing += 1
            out.add(f'    assert({x} == {c}); //@F V {v}' if x is not None else f'    assert(false); //@F V {v} (no such enumerator)')
        out.add('}')
        out.end()
        if not cur or not cur['codes']:
            self.notes.append((E, 'enum', 'missing')); out.add('}'); return
        codes = list(cur['codes'].values())
        chunks = [codes[i:i + CHUNK] for i in range(0, len(codes), CHUNK)]
        dflt = fz['codes'][fz['default']]
        o = [f'#[derive(Clone, Copy)]\npub struct {E} {{ pub d: u32 }}', f'impl Num for {E} {{ open spec fn num(&self) -> int {{ self.d as int }} fn wide(self) -> (r: i128) {{ self.d as i128 }} }}']
        for k, c in enumerate(chunks): o.append(f'#[verifier::opaque] pub open spec fn decl_{k}(c: int) -> bool {{ {inset(c, "c")} }}')
        o.append('pub open spec fn decl(c: int) -> bool { ' + ' || '.join(f'decl_{k}(c)' for k in range(len(chunks))) + ' }')
        o.append(f'pub open spec fn dflt_{E}() -> nat {{ {dflt} }}')
        o.append(f'pub open spec fn dec_{E}(c: nat) -> nat {{ if decl(c as int) {{ c }} else {{ dflt_{E}() }} }}')
        o.append(self.enumwire(E, w))
        out.add('\n'.join(o))
        rv = ' '.join(f'reveal(decl_{k});' for k in range(len(chunks)))
        out.begin(E, '(codes)', 'enum')
        out.add(f'/// every enumerator survives the wire\nproof fn survive(x: {E}) requires decl(x.d as int) ensures x.wf() {{ {rv} }} //@F V')
        out.end()
        f = m.tfn('Default', E, 'default')
        if f:
            out.add(f'impl VDefault for {E} {{ open spec fn is_dflt(&self) -> bool {{ self.d == dflt_{E}() }}')
            self.emit_fn(out, E, 'default', 'fn default() -> (r: Self) ', f, kind='enum')
            out.add('}')
        out.add(f'impl {E} {{')
        f = m.tfn('FromPrimitive', E, 'from_i64')
        C = lambda u: f'\n        ensures (match r {{ Some(e) => e.d == n && decl(n as int), None => !decl(n as int) }}) //@F V\n   '
        if f:
            n = self.pname(f)
            try:
                a, last = arms(f['body'], n)
                if len(a) == len(codes) and last['k'] == 'path':
                    for k in range(len(chunks)):
                        part = a[k * CHUNK:(k + 1) * CHUNK]
                        e = last
                        for c, t in reversed(part): e = {'k': 'if', 'c': c, 't': t, 'e': {'k': 'block', 'b': [{'k': 'expr', 'e': e, 'semi': False}]}}
                        out.begin(E, f'from_i64', 'enum')
                        low = Lower(self, E, f['sig'], rename={n: 'n'})
                        txt = low.block([{'k': 'expr', 'e': e, 'semi': False}], 2)
                        out.add(f'    fn from_i64_{k}(n: i64) -> (r: Option<{E}>)\n        ensures (match r {{ Some(e) => e.d == n && decl_{k}(n as int), None => !decl_{k}(n as int) }}) //@F V\n    {{ proof {{ reveal(decl_{k}); }}\n{txt}\n    }}')
                        out.end()
                    out.begin(E, 'from_i64', 'enum')
                    b = ' '.join(f'if let Some(e) = {E}::from_i64_{k}(n) {{ return Some(e); }}' for k in range(len(chunks)))
                    out.add(f'    pub fn from_i64(n: i64) -> (r: Option<{E}>){C("i64")} {{ {b} None }}')
                    out.end()
                else:
                    self.emit_fn(out, E, 'from_i64', f'pub fn from_i64(n: i64) -> (r: Option<{E}>){C("i64")}', f, ren={n: 'n'} if n != 'n' else {}, pro='proof { ' + rv + ' }', kind='enum')
            except Unsupported as x:
                self.notes.append((E, 'from_i64', str(x)))
                out.add(f'    #[verifier::external_body] pub fn from_i64(n: i64) -> (r: Option<{E}>){C("i64")} {{ unimplemented!() }}')
        f = m.tfn('FromPrimitive', E, 'from_u64')
        if f:
            n = self.pname(f)
            self.emit_fn(out, E, 'from_u64', f'pub fn from_u64(n: u64) -> (r: Option<{E}>)\n        requires n <= 0xffff_ffff\n        ensures (match r {{ Some(e) => e.d == n && decl(n as int), None => !decl(n as int) }}) //@F V\n   ', f, ren={n: 'n'} if n != 'n' else {}, kind='enum')
        # provided methods of num_traits::FromPrimitive: from_uN(n) is from_u64(n as u64)
        for u in ('u8', 'u16', 'u32'):
            f = m.tfn('FromPrimitive', E, 'from_' + u)
            if f:       # the impl has its own
                n = self.pname(f)
                self.emit_fn(out, E, 'from_' + u, f'pub fn from_{u}(n: {u}) -> (r: Option<{E}>)\n        ensures (match r {{ Some(e) => e.d == n && decl(n as int), None => !decl(n as int) }}) //@F V\n   ', f, ren={n: 'n'} if n != 'n' else {}, pro='proof { ' + rv + ' }', kind='enum')
                continue
            out.add(f'    pub fn from_{u}(n: {u}) -> (r: Option<{E}>) ensures (match r {{ Some(e) => e.d == n && decl(n as int), None => !decl(n as int) }}) {{ {E}::from_u64(n as u64) }}')
        f = m.inherent.get(E, {}).get('deserialize')
        if f: self.emit_fn(out, E, 'deserialize', self.sig_enum_de(E, w, self.pname(f)), f, kind='enumde')
        out.add('}')
        for n, tr in FIELDTR.items():
            f = m.tfn(tr, E, n)
            if f: self.trait_impl(out, E, n, tr, f, f'impl {tr} for {E}')
        out.add('}')

    def enum_light(self, out, E, fz, w):
        m = self.m
        if E not in m.enums: self.notes.append((E, 'enum', 'missing')); return
        C = '(match r { Some(e) => e.d == n && decl(n as int), None => !decl(n as int) })'
        out.add(f'''pub mod enum_{E} {{ use super::*; broadcast use group_be;
#[derive(Clone, Copy)]
pub struct {E} {{ pub d: u32 }}
impl Num for {E} {{ open spec fn num(&self) -> int {{ self.d as int }} fn wide(self) -> (r: i128) {{ self.d as i128 }} }}
pub uninterp spec fn decl(c: int) -> bool;
pub open spec fn dflt_{E}() -> nat {{ {fz['codes'][fz['default']]} }}
pub open spec fn dec_{E}(c: nat) -> nat {{ if decl(c as int) {{ c }} else {{ dflt_{E}() }} }}
{self.enumwire(E, w)}''')
        if m.tfn('Default', E, 'default'): out.add(f'impl VDefault for {E} {{ open spec fn is_dflt(&self) -> bool {{ self.d == dflt_{E}() }} #[verifier::external_body] fn default() -> (r: Self) {{ unimplemented!() }} }}')
        out.add(f'impl {E} {{')
        for u in ('u8', 'u16', 'u32', 'u64', 'i64'):
            if u[0] == 'u' or m.tfn('FromPrimitive', E, 'from_i64'):
                out.add(f'    #[verifier::external_body] pub fn from_{u}(n: {u}) -> (r: Option<{E}>){" requires n <= 0xffff_ffff" if u == "u64" else ""} ensures {C} {{ unimplemented!() }}')
        f = m.inherent.get(E, {}).get('deserialize')
        if f: self.emit_fn(out, E, 'deserialize', self.sig_enum_de(E, w, self.pname(f)), f, kind='enumde')
        out.add('}')
        for n, tr in FIELDTR.items():
            f = m.tfn(tr, E, n)
            if f: self.trait_impl(out, E, n, tr, f, f'impl {tr} for {E}')
        out.add('}')

    def flag_consts(self, F, low):
        cur = {}
        for (t, n), e in self.m.tconsts.items():
            if t != F: continue
            if e['k'] == 'call' and e['f']['k'] == 'path' and e['f']['segs'][-1]['id'] == 'from_bits_retain': cur[n] = low.const(e['args'][0])
        return cur
    def flag_types(self):
        """[(record, carrier, union of its flags)]"""
        r = []
        for F, d in self.layout['flags'].items():
            if 'bits' not in d or F not in self.m.structs: continue
            al = 0
            for c in self.flag_consts(F, Lower(self, F, {'ins': []})).values(): al |= c or 0
            r.append((F, {1: 'u8', 2: 'u16', 4: 'u32'}[d['w']], al))
        return r
    def flags(self, out, F, d):
        """flag records: the methods bitflags! provides are assumed (bits, from_bits, empty); all is the union of the declared flags"""
        m, w = self.m, d['w']
        u = {1: 'u8', 2: 'u16', 4: 'u32'}[w]
        out.add(f'pub mod flags_{F} {{ use super::*; broadcast use group_be;')
        low = Lower(self, F, {'ins': []})
        cur = self.flag_consts(F, low)
        out.begin(F, '(flags)', 'enum')
        out.add('proof fn frozen_flags() {')
        for n, c in d['bits'].items():
            x = cur.get(n)
            out.add(f'    assert({x} == {c}); //@F V {n}' if x is not None else f'    assert(false); //@F V {n} (no such flag)')
        out.add('}')
        out.end()
        al = 0
        for c in cur.values(): al |= c or 0
        out.add(f'''#[derive(Clone, Copy)]
pub struct {F} {{ pub b: {u} }}
pub open spec fn all_() -> {u} {{ {al} }}
pub open spec fn known(b: {u}) -> bool {{ b & all_() == b }}
impl Wire for {F} {{
    open spec fn enc(&self, t: Bytes) -> Bytes {{ be({w}, self.b as nat, t) }}
    open spec fn size(&self) -> nat {{ {w} }}
    open spec fn wf(&self) -> bool {{ known(self.b) }}
    open spec fn same(&self, o: &Self) -> bool {{ self.b == o.b }}
    open spec fn rest(s: Bytes) -> Option<Bytes> {{ drop_n(s, {w}) }}
    open spec fn min() -> nat {{ {w} }}
    open spec fn fixed() -> bool {{ true }}
    open spec fn sfix() -> bool {{ true }}
    proof fn lemma_len(&self, t: Bytes) {{ lemma_be_len({w}, self.b as nat, t); }}
    proof fn lemma_cat(&self, a: Bytes, b: Bytes) {{ lemma_be_cat({w}, self.b as nat, a, b); }}
    proof fn lemma_rest(s: Bytes) {{ }}
}}
impl {F} {{
    #[verifier::external_body] pub fn bits(&self) -> (r: {u}) ensures r == self.b {{ unimplemented!() }}
    #[verifier::external_body] pub fn empty() -> (r: {F}) ensures r.b == 0 {{ unimplemented!() }}
    #[verifier::external_body] pub fn all() -> (r: {F}) ensures r.b == all_() {{ unimplemented!() }}
    #[verifier::external_body] pub fn from_bits(bits: {u}) -> (r: Option<{F}>) ensures r is Some <==> known(bits), r is Some ==> r->0.b == bits {{ unimplemented!() }}
    #[verifier::external_body] pub fn from_bits_truncate(bits: {u}) -> (r: {F}) ensures r.b == bits & all_() {{ unimplemented!() }}
    #[verifier::external_body] pub fn from_bits_retain(bits: {u}) -> (r: {F}) ensures r.b == bits {{ unimplemented!() }}''')
        self.contracted |= {(F, x) for x in ('bits', 'empty', 'all', 'from_bits', 'from_bits_truncate', 'from_bits_retain')}
        for n, sig in ((f'as_{u}', f'pub fn as_{u}(&self) -> (r: {u}) ensures r == self.b //@F V\n    '),
                       (f'from_{u}', f'pub fn from_{u}(bits: {u}) -> (r: Option<{F}>)\n        ensures\n            known(bits) ==> r is Some && r->0.b == bits, //@F V\n            !known(bits) ==> r is None || r->0.b == bits & all_(), //@F V\n    ')):
            f = m.inherent.get(F, {}).get(n)
            if f:
                self.contracted.add((F, n))
                self.emit_fn(out, F, n, sig, f, ren={self.pname(f): 'bits'} if f['sig']['ins'] else {}, kind='enum')
        out.add('}')
        f = m.tfn('Default', F, 'default')
        if f:
            out.add(f'impl VDefault for {F} {{ open spec fn is_dflt(&self) -> bool {{ self.b == 0 }}')
            self.emit_fn(out, F, 'default', 'fn default() -> (r: Self) ', f, kind='enum')
            out.add('}')
        for n, tr in FIELDTR.items():
            f = m.tfn(tr, F, n)
            if f: self.trait_impl(out, F, n, tr, f, f'impl {tr} for {F}')
        out.add('}')
