"""Crate C: the code define_pdu! generates for every PDU, under contract. Records and enumerations appear
by the contracts proved in crates B and A."""
import prims
from model import Unsupported
from gen import Gen as GenB, Out, SPEC, FIELDTR

class Gen(GenB):
    def field_types(self, T):
        names = set()
        def f(x):
            if isinstance(x, list):
                for y in x: f(y)
            elif isinstance(x, dict):
                if 'id' in x and 'args' in x: names.add(x['id'])
                for v in x.values(): f(v)
        for x in self.m.structs[T]['fields']['fs']: f(x['t'])
        return names

    def crate_pdus(self, only=None, part=None):
        out = Out()
        out.add(prims.prelude(open(f'{SPEC}/prelude.rs').read()))
        out.add(self.diserror())
        mine = list(self.pdus)[part[0]::part[1]] if part else list(self.pdus)
        ts = [t for t in mine if (only is None or t in only) and t in self.m.structs]
        for t in mine:
            if t not in self.m.structs: self.notes.append((t, '(type)', 'missing'))
        names = set().union(*(self.field_types(t) for t in ts))
        hdrs = {'PduHeader', 'LiveEntityPduHeader'}
        enums = {n for n in names if n in self.enums} | {'PduType', 'ProtocolFamily'}
        for h in hdrs: enums |= {n for n in self.refs([h]) if n in self.enums}
        self.stubbed |= set(prims.PRIMS) | {'Vec', 'Option', 'String'} | hdrs
        self.carriers(out)
        for t in sorted(enums): out.add(self.enumstub(t))
        for h in ['PduStatusRecord'] + sorted(hdrs):
            n, r = len(out.lines), len(out.reg)
            try:
                if (h, '(type)') in self.skip: raise Unsupported('the verifier does not read its contract')
                self.record(out, h)
            except (Unsupported, KeyError, TypeError, IndexError, AttributeError, ValueError) as e:
                del out.lines[n:]; del out.reg[r:]
                self.notes.append((h, '(type)', f'{type(e).__name__}: {e}'))
                out.add(self.recstub(h))
        for t in sorted(n for n in names if (n in self.recs or n in self.layout['flags']) and n not in hdrs): out.add(self.recstub(t))
        for t in ts: self.contracted |= {(t, f) for f in ('calculate_length', 'finalize', 'serialize', 'deserialize', 'deserialize_without_header', 'new', 'check_body_remaining', 'deserialize_body', 'default', 'header', 'header_mut')}
        for t in ts:
            n, r = len(out.lines), len(out.reg)
            try:
                if (t, '(type)') in self.skip: raise Unsupported('the verifier does not read its contract')
                self.pdu(out, t)
            except (Unsupported, KeyError, TypeError, IndexError, AttributeError, ValueError) as e:
                del out.lines[n:]; del out.reg[r:]
                self.notes.append((t, '(type)', f'{type(e).__name__}: {e}'))
        if not part or part[0] == 0: self.sizecheck(out)
        out.add('} // verus!\nfn main() {}')
        return out

    def sizecheck(self, out):
        """the public size check is the limit of C10 for every size, not only for those a PDU can have"""
        f = self.m.fns.get('validate_pdu_size')
        if not f or len(f['sig']['ins']) != 1 or not f['sig']['out'] or 'constants' in self.stubbed: return
        p = self.pname(f)
        self.emit_fn(out, 'constants', 'validate_pdu_size', f'pub fn validate_pdu_size({p}: usize) -> (r: bool) ensures r == ({p} <= 8192), //@F Z\n', f)

    def diserror(self):
        o = ['pub enum DISError {']
        for v, keep in self.diserr.items(): o.append(f'    {v} {{ ' + ', '.join(f'{k}: usize' for k in keep) + ' },')
        return '\n'.join(o + ['}'])

    def pdu(self, out, T):
        d, m = self.pdus[T], self.m
        fs, H, mn, fixed = d['fields'], d['header'], self.min(T), self.fixed(T)
        have = [x['id'] for x in m.structs[T]['fields']['fs'] if x['id'] != 'header']
        if sorted(f['n'] for f in fs) != sorted(have): raise Unsupported(f'fields of {T} differ from its layout')
        nonfix = sorted({f['t'] for f in fs if f['k'] == 'typ' and not self.sfix(f['t'])})
        bc = ['group_be', 'axiom_sfix', 'axiom_fixed'] + [f'dflt_size_{t}' for t in nonfix]
        out.add(f'pub mod type_{T} {{ use super::*; broadcast use {{{", ".join(bc)}}};')
        out.add(self.structdef(T))
        out.begin(T, '(lemmas)', 'lemma')
        out.add(self.wire(T, fs))
        out.add(f'pub broadcast proof fn body_len_{T}(x: {T}, t: Bytes) ensures (#[trigger] x.enc(t)).len() == x.size() + t.len(), x.size() >= {mn} {{ x.lemma_len(t); }}')
        out.end()
        out.begin(T, 'default size', 'ctor')
        out.add(self.dflt_size(T, False))
        out.end()
        self.default_impl(out, T)
        bc += [f'dflt_size_{T}', f'body_len_{T}']
        out.add(f'}}\npub use type_{T}::*;\npub mod pdu_{T} {{ use super::*; broadcast use {{{", ".join(bc)}}};')
        lenby = {f['lenby']: f['n'] for f in fs if 'lenby' in f}
        TY, FAM = d['type'], d['family']
        err = lambda x: f'DISError::PduSizeExceeded {{ size: (12 + {x}.size()) as usize, max_size: 8192 }}'
        under = lambda a, v: f'DISError::BufferUnderflow {{ attempted: {a}, available: ({v}) as usize }}'
        body_same = [f'final(self).{n} == old(self).{n}' for n in have if n not in lenby]
        for l, n in lenby.items(): body_same.append(f'final(self).{l} as int == (match old(self).{n} {{ Some(v_) => if v_.size() <= 255 {{ v_.size() as int }} else {{ 0 }}, None => 0 }})')
        stamp = f'final(self).header == ({H} {{ pdu_type: PduType {{ d: {TY} }}, protocol_family: ProtocolFamily {{ d: {FAM} }}, length: final(self).header.length, ..old(self).header }})'
        fits = '12 + old(self).size() <= isize::MAX'
        H_ = lambda xs: ''.join(f'            {x}, //@F H\n' for x in xs)
        C = {}
        C['calculate_length'] = lambda p: f'''pub fn calculate_length(&self) -> (r: Result<u16, DISError>)
        requires 12 + self.size() <= isize::MAX
        ensures
            r is Ok <==> 12 + self.size() <= 8192, //@F Z
            r is Ok ==> r->Ok_0 == 12 + self.size(), //@F L
            r is Err ==> r->Err_0 == ({err('self')}), //@F Z
   '''
        C['finalize'] = lambda p: f'''pub fn finalize(&mut self)
        requires {fits}
        ensures
{H_(f'final(self).{n} == old(self).{n}' for n in have)}            final(self).header == ({H} {{ length: final(self).header.length, ..old(self).header }}), //@F H
            final(self).header.length == (if 12 + old(self).size() <= 8192 {{ 12 + old(self).size() }} else {{ 0 }}), //@F L
   '''
        C['serialize'] = lambda p: f'''pub fn serialize(&mut self, {p[0]}: &mut BytesMut) -> (r: Result<(), DISError>)
        requires {fits}
        ensures
            r is Ok <==> 12 + old(self).size() <= 8192, //@F Z
            r is Err ==> r->Err_0 == ({err('old(self)')}), //@F Z
            r is Err ==> final({p[0]})@ == old({p[0]})@, //@F Z
{H_(body_same)}            {stamp}, //@F H
            r is Ok ==> final(self).header.length == 12 + old(self).size(), //@F L
            r is Ok ==> forall|t: Bytes| #[trigger] cat(final({p[0]})@, t) == cat(old({p[0]})@, final(self).header.enc(final(self).enc(t))), //@F E
   '''
        C['check_body_remaining'] = lambda p: f'''pub fn check_body_remaining<B: Buf>({p[0]}: &B) -> (r: Result<(), DISError>)
        ensures
            r is Ok <==> {p[0]}.view().len() >= {mn}, //@F U
            r is Err ==> r->Err_0 == ({under(mn, p[0] + '.view().len()')}), //@F U
   '''
        C['deserialize_body'] = lambda p: self.sig_de('deserialize_body', p[0])
        def c_de(p, wh):
            b = p[0]
            o = f'old({b}).view()'
            if wh: v, skip, own, long = o, 0, f'{p[1]}.pdu_type.d == {TY}', 'true'
            else: v, skip, own, long = f'{o}.skip(12)', 12, f'dec_PduType(bev({o}.skip(2), 1)) == {TY}', f'{o}.len() >= 12'
            need = f'{o}.len() >= {mn + skip}'
            s = f'pub fn deserialize{"_without_header" if wh else ""}<B: Buf>({b}: &mut B{f", {p[1]}: {H}" if wh else ""}) -> (r: Result<Self, DISError>)\n'
            if not fixed: s += f'        requires {own} && {need} ==> Self::rest({v}) is Some //@F P\n'
            s += '        ensures\n'
            if not wh: s += f'            !({long}) ==> r is Err && r->Err_0 == ({under(12, o + ".len()")}), //@F U\n'
            s += f'''            {long} && !({own}) ==> r is Err && r->Err_0 is InvalidHeader, //@F H
            {long} && {own} && !({need}) ==> r is Err && r->Err_0 == ({under(mn, f'{o}.len() - {skip}')}), //@F U
            {long} && {own} && {need} ==> r is Ok, //@F H
            r is Ok ==> final({b}).view() == Self::rest({v})->0, //@F P
'''
            if wh: s += f'            r is Ok ==> r->Ok_0.header == {p[1]}, //@F H\n'
            else: s += f'            forall|h: {H}, t: Bytes| #![trigger h.enc(t)] {o} == h.enc(t) && h.wf() && r is Ok ==> r->Ok_0.header.same(&h), //@F H\n'
            full, more = ('w.enc(t)', own) if wh else ('w.header.enc(w.enc(t))', f'w.header.wf() && w.header.pdu_type.d == {TY}')
            s += f'''            forall|w: Self, t: Bytes| #![trigger w.enc(t)] {o} == {full} && w.wf() && {more} ==> r is Ok && r->Ok_0.same(&w) && final({b}).view() == t, //@F D
'''
            if not wh: s += f'            forall|w: Self, t: Bytes| #![trigger w.enc(t)] {o} == {full} && w.wf() && {more} ==> r->Ok_0.header.same(&w.header), //@F D\n'
            return s + '   '
        C['deserialize'] = lambda p: c_de(p, False)
        C['deserialize_without_header'] = lambda p: c_de(p, True)
        C['new'] = lambda p: f'''pub fn new() -> (r: Self)
        ensures
            r.header.pdu_type.d == {TY}, //@F H
            r.header.protocol_family.d == {FAM}, //@F H
            r.header.length == {12 + mn}, //@F N
            hdr_dflt_{H}(r.header), //@F N
{''.join(f"            r.{n}.is_dflt(), //@F N" + chr(10) for n in have)}   '''
        C['header'] = lambda p: f'''pub fn header(&self) -> (r: &{H})
        ensures *r == self.header, //@F H
   '''
        C['header_mut'] = lambda p: f'''pub fn header_mut(&mut self) -> (r: &mut {H})
        ensures
            *r == old(self).header, //@F H
            final(self).header == *final(r), //@F H
{H_(f'final(self).{n} == old(self).{n}' for n in have)}   '''
        out.add(f'impl {T} {{')
        for n, c in C.items():
            f = m.inherent.get(T, {}).get(n) or m.tfn('Pdu', T, n)
            if not f and n == 'finalize': f = next((x for x in m.traits['Pdu']['items'] if x['k'] == 'fn' and x['sig']['name'] == n and x['body'] is not None), None)
            if not f:
                self.notes.append((T, n, 'missing')); continue
            # the decoder of the body needs few facts: the others only slow it down (they come back in the portfolio)
            alone = n == 'deserialize_body' and self.isolate and not fixed
            if alone: out.add(f'}}\n}}\npub mod body_{T} {{ use super::*; broadcast use {{group_be}};\nimpl {T} {{')
            self.emit_fn(out, T, n, c([self.pname(f, i) for i in range(len(f['sig']['ins']))]), f)
            if alone: out.add(f'}}\n}}\npub mod pdu2_{T} {{ use super::*; broadcast use {{{", ".join(bc)}}};\nimpl {T} {{')
        out.add('}\n}')
