"""Text of the primitive carriers, generated (10 primitive types, same shape each)."""
PRIMS = {  # rust type: (width, nat value of x, getter)
    'u8': (1, '({x}) as nat'), 'u16': (2, '({x}) as nat'), 'u32': (4, '({x}) as nat'), 'u64': (8, '({x}) as nat'),
    'i8': (1, 'i8b({x})'), 'i16': (2, 'i16b({x})'), 'i32': (4, 'i32b({x})'), 'i64': (8, 'i64b({x})'),
    'f32': (4, 'f32_bits({x})'), 'f64': (8, 'f64_bits({x})'),
}
def val(ty, x): return PRIMS[ty][1].format(x=x)

def puts():
    o = ['impl BytesMut {']
    for ty, (n, _) in PRIMS.items():
        o.append(f'    #[verifier::external_body]\n    pub fn put_{ty}(&mut self, v: {ty})\n'
                 f'        ensures forall|t: Bytes| #[trigger] cat(final(self)@, t) == cat(old(self)@, be({n}, {val(ty,"v")}, t))\n'
                 '    { unimplemented!() }')
    o.append('''    #[verifier::external_body]
    pub fn put_slice(&mut self, s: &[u8])
        ensures forall|t: Bytes| #[trigger] cat(final(self)@, t) == cat(old(self)@, enc_list::<u8>(s@, 0, t))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn put_bytes(&mut self, b: u8, n: usize)
        ensures b == 0 ==> forall|t: Bytes| #[trigger] cat(final(self)@, t) == cat(old(self)@, zseq(n as nat, t))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(), r == cat(self@, nil()).len(), r <= isize::MAX
    { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize) ensures r >= self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@ { unimplemented!() }
}
/// the assumed forms above follow from: put_uN appends the N bytes be(N, v, nil())
pub proof fn lemma_put_form(n: nat, v: nat, o: Bytes, f: Bytes, t: Bytes)
    requires f == o + be(n, v, nil())
    ensures cat(f, t) == cat(o, be(n, v, t))
{ lemma_be_cat(n, v, nil(), t); assert(nil() + t =~= t); assert((o + be(n, v, nil())) + t =~= o + (be(n, v, nil()) + t)); }''')
    return '\n'.join(o)

def gets():
    o = []
    for ty, (n, _) in PRIMS.items():
        o.append(f'    fn get_{ty}(&mut self) -> (r: {ty})\n        requires old(self).view().len() >= {n} //@F P\n'
                 f'        ensures {val(ty,"r")} == bev(old(self).view(), {n}), final(self).view() == old(self).view().skip({n});')
    return '\n'.join(o)

def slicebuf():
    o = ['// ASSUMED: a slice of octets is a Buf', "impl<'a> Buf for &'a [u8] {", '    open spec fn view(&self) -> Bytes { (**self)@ }']
    for sig in ['remaining(&self) -> (r: usize)', 'has_remaining(&self) -> (r: bool)', 'advance(&mut self, n: usize)', 'chunk(&self) -> (r: &[u8])', 'copy_to_slice<D: AsU8>(&mut self, dst: &mut D)'] + [f'get_{t}(&mut self) -> (r: {t})' for t in PRIMS]:
        o.append(f'    #[verifier::external_body] fn {sig} {{ unimplemented!() }}')
    return '\n'.join(o + ['}'])

def prims():
    o = []
    for ty, (n, _) in PRIMS.items():
        same = f'{val(ty,"*self")} == {val(ty,"*o")}' if ty[0] == 'f' else '*self == *o'
        o.append(f'''impl Wire for {ty} {{
    open spec fn enc(&self, t: Bytes) -> Bytes {{ be({n}, {val(ty,"*self")}, t) }}
    open spec fn size(&self) -> nat {{ {n} }}
    open spec fn wf(&self) -> bool {{ true }}
    open spec fn same(&self, o: &Self) -> bool {{ {same} }}
    open spec fn rest(s: Bytes) -> Option<Bytes> {{ drop_n(s, {n}) }}
    open spec fn min() -> nat {{ {n} }}
    open spec fn fixed() -> bool {{ true }}
    open spec fn sfix() -> bool {{ true }}
    proof fn lemma_len(&self, t: Bytes) {{ lemma_be_len({n}, {val(ty,"*self")}, t); }}
    proof fn lemma_cat(&self, a: Bytes, b: Bytes) {{ lemma_be_cat({n}, {val(ty,"*self")}, a, b); }}
    proof fn lemma_rest(s: Bytes) {{ }}
}}
impl VDefault for {ty} {{ open spec fn is_dflt(&self) -> bool {{ {val(ty,"*self")} == 0 }} {"fn default() -> (r: Self) { 0 }" if ty[0] in "ui" else "#[verifier::external_body] fn default() -> (r: Self) { unimplemented!() }"} }}
pub proof fn lemma_prim_arr_size_{ty}(s: Seq<{ty}>, i: int)
    requires 0 <= i <= s.len()
    ensures size_list(s, i) == {n} * (s.len() - i)
    decreases s.len() - i
{{ if i < s.len() {{ lemma_prim_arr_size_{ty}(s, i + 1); }} }}
pub broadcast proof fn axiom_size_{ty}(s: Seq<{ty}>) ensures #[trigger] size_list(s, 0) == {n} * s.len() {{ lemma_prim_arr_size_{ty}(s, 0); }}''')
    return '\n'.join(o)

INTB = {'u8': (0, 2**8-1), 'u16': (0, 2**16-1), 'u32': (0, 2**32-1), 'u64': (0, 2**64-1), 'usize': (0, 2**64-1),
        'i8': (-2**7, 2**7-1), 'i16': (-2**15, 2**15-1), 'i32': (-2**31, 2**31-1), 'i64': (-2**63, 2**63-1), 'isize': (-2**63, 2**63-1)}
def casts():
    o = []
    for ty, (lo, hi) in INTB.items():
        m = hi - lo + 1
        o.append(f'impl Num for {ty} {{ open spec fn num(&self) -> int {{ *self as int }} fn wide(self) -> (r: i128) {{ self as i128 }} }}')
        # the casts are those of the language, with their wrap-around decided bit by bit
        if lo == 0:
            o.append(f"""pub fn cast_{ty}<T: Num>(x: T) -> (r: {ty}) ensures r == x.num() % {m}, 0 <= x.num() <= {hi} ==> r == x.num()
{{
    let w = x.wide();
    let r = #[verifier::truncate] (w as {ty});
    assert(r as i128 == w & {hi}) by (bit_vector) requires r == w as {ty};
    assert(w & {hi} == w % {m}) by (bit_vector);
    r
}}""")
        else:
            o.append(f"""pub fn cast_{ty}<T: Num>(x: T) -> (r: {ty}) ensures {lo} <= x.num() <= {hi} ==> r == x.num(), {hi} < x.num() <= {2*hi+1} ==> r == x.num() - {m}
{{
    let w = x.wide();
    let r = #[verifier::truncate] (w as {ty});
    assert({hi} < w <= {2*hi+1} ==> r as i128 == w - {m}) by (bit_vector) requires r == w as {ty};
    r
}}""")
        o.append(f'pub struct TryErr_{ty};')
        o.append(f'pub fn try_{ty}<T: Num>(x: T) -> (r: Result<{ty}, TryErr_{ty}>) ensures r is Ok <==> {lo} <= x.num() <= {hi}, r is Ok ==> r->Ok_0 == x.num() {{ let w = x.wide(); if {lo} <= w && w <= {hi} {{ Ok(w as {ty}) }} else {{ Err(TryErr_{ty}) }} }}')
        o.append(f'impl IntNum for {ty} {{ open spec fn lo() -> int {{ {lo} }} open spec fn hi() -> int {{ {hi} }} proof fn lemma_in(&self) {{ }} fn narrow(w: i128) -> (r: Self) {{ w as {ty} }} fn least() -> (r: i128) {{ {lo} }} fn most() -> (r: i128) {{ {hi} }} }}')
        if lo < 0 and ty != 'isize': o.append(f'pub fn v_unsigned_abs_{ty}(x: {ty}) -> (r: u{ty[1:]}) ensures r == (if x >= 0 {{ x as int }} else {{ -x }}) {{ let w = x as i128; if w >= 0 {{ w as u{ty[1:]} }} else {{ (0 - w) as u{ty[1:]} }} }}')
    o.append('impl Num for bool { open spec fn num(&self) -> int { if *self { 1 } else { 0 } } fn wide(self) -> (r: i128) { self as i128 } }')
    return '\n'.join(o)

def prelude(text):
    text = text.replace('//@CASTS', casts()).replace('//@SIZES', ', '.join(f'axiom_size_{t}' for t in PRIMS))
    return text.replace('//@SLICEBUF', slicebuf()).replace('//@PUTS', puts()).replace('//@GETS', gets()).replace('//@PRIMS', prims())
if __name__ == '__main__':
    import os
    t = prelude(open(os.path.join(os.path.dirname(__file__), '../../spec/prelude.rs')).read())
    print(t + '\n} // verus!\nfn main(){}')
