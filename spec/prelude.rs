// Hand-written part of the verified text: the byte-level model, the contracts ASSUMED on
// dependencies (marked external_body / uninterp), the contract traits, and the contracts and
// lemmas of the generic carriers (primitives, Vec<T>, Option<T>, [T; N], String).
// Everything else in the generated file is the code of /repo with contracts injected.
#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, non_camel_case_types, non_snake_case, non_upper_case_globals, unreachable_code, unused_must_use)]
use vstd::prelude::*;

verus! {
// ASSUMED: the target is a 64-bit one
global size_of usize == 8;

pub type Bytes = Seq<u8>;

// ---------------------------------------------------------------- byte strings
/// big-endian value of the first n bytes
#[verifier::opaque]
pub open spec fn bev(s: Bytes, n: nat) -> nat decreases n {
    if n == 0 { 0 } else { bev(s, (n - 1) as nat) * 256 + s[n - 1] as nat }
}
/// the n-byte big-endian form of v, put in front of t
#[verifier::opaque]
pub open spec fn be(n: nat, v: nat, t: Bytes) -> Bytes decreases n {
    if n == 0 { t } else { be((n - 1) as nat, v / 256, seq![(v % 256) as u8] + t) }
}
pub open spec fn lim(n: nat) -> nat {
    if n == 1 { 0x100 } else if n == 2 { 0x1_0000 } else if n == 4 { 0x1_0000_0000 } else { 0x1_0000_0000_0000_0000 }
}
pub open spec fn p256(n: nat) -> nat decreases n { if n == 0 { 1 } else { 256 * p256((n - 1) as nat) } }
pub open spec fn cat(a: Bytes, b: Bytes) -> Bytes { a + b }
pub open spec fn nil() -> Bytes { Seq::empty() }
/// n zero bytes in front of t
pub open spec fn zseq(n: nat, t: Bytes) -> Bytes decreases n { if n == 0 { t } else { be(1, 0, zseq((n - 1) as nat, t)) } }
/// what is left after n bytes, None if there are not so many
pub open spec fn drop_n(s: Bytes, n: nat) -> Option<Bytes> { if s.len() >= n { Some(s.skip(n as int)) } else { None } }

pub proof fn lemma_be_cat(n: nat, v: nat, a: Bytes, b: Bytes)
    ensures be(n, v, a + b) == be(n, v, a) + b
    decreases n
{ reveal(be); reveal(bev);
    if n > 0 {
        assert(seq![(v % 256) as u8] + (a + b) =~= (seq![(v % 256) as u8] + a) + b);
        lemma_be_cat((n - 1) as nat, v / 256, seq![(v % 256) as u8] + a, b);
    }
}
pub proof fn lemma_be_len(n: nat, v: nat, t: Bytes)
    ensures be(n, v, t).len() == n + t.len()
    decreases n
{ reveal(be); reveal(bev); if n > 0 { lemma_be_len((n - 1) as nat, v / 256, seq![(v % 256) as u8] + t); } }
pub proof fn lemma_be_skip(n: nat, v: nat, t: Bytes)
    ensures be(n, v, t).skip(n as int) == t
    decreases n
{ reveal(be); reveal(bev);
    lemma_be_len(n, v, t);
    if n > 0 {
        let u = seq![(v % 256) as u8] + t;
        lemma_be_skip((n - 1) as nat, v / 256, u);
        lemma_be_len((n - 1) as nat, v / 256, u);
        assert(be(n, v, t).skip(n as int) =~= be(n, v, t).skip(n - 1).skip(1));
        assert(u.skip(1) =~= t);
    } else { assert(t.skip(0) =~= t); }
}
pub proof fn lemma_bev_prefix(s: Bytes, r: Bytes, n: nat)
    requires s.len() >= n, r.len() >= n, forall|i: int| 0 <= i < n ==> s[i] == r[i]
    ensures bev(s, n) == bev(r, n)
    decreases n
{ reveal(be); reveal(bev); if n > 0 { lemma_bev_prefix(s, r, (n - 1) as nat); } }
pub proof fn lemma_be_bev(n: nat, v: nat, t: Bytes)
    ensures bev(be(n, v, t), n) == v % p256(n)
    decreases n
{ reveal(be); reveal(bev);
    if n > 0 {
        let m = (n - 1) as nat;
        let u = seq![(v % 256) as u8] + t;
        lemma_be_bev(m, v / 256, u);
        lemma_be_skip(m, v / 256, u);
        lemma_be_len(m, v / 256, u);
        let s = be(n, v, t);
        assert(s == be(m, v / 256, u));
        assert(s[n - 1] == s.skip(m as int)[0]);
        assert(s[n - 1] == (v % 256) as u8);
        let w = p256(m) as int;
        lemma_p256_pos(m);
        assert(((v as int / 256) % w) * 256 + v as int % 256 == v as int % (256 * w)) by {
            vstd::arithmetic::div_mod::lemma_breakdown(v as int, 256, w);
        }
    }
}
pub proof fn lemma_p256_pos(n: nat) ensures p256(n) > 0 decreases n { if n > 0 { lemma_p256_pos((n - 1) as nat); } }
pub proof fn lemma_bev_lt(s: Bytes, n: nat)
    requires s.len() >= n
    ensures bev(s, n) < p256(n)
    decreases n
{ reveal(be); reveal(bev);
    if n > 0 {
        lemma_bev_lt(s, (n - 1) as nat);
        assert(bev(s, n) < 256 * p256((n - 1) as nat)) by (nonlinear_arith)
            requires bev(s, n) == bev(s, (n - 1) as nat) * 256 + s[n - 1] as nat, bev(s, (n - 1) as nat) < p256((n - 1) as nat), s[n - 1] < 256;
    }
}
pub proof fn lemma_lim(n: nat)
    requires n == 1 || n == 2 || n == 4 || n == 8
    ensures p256(n) == lim(n)
{ reveal_with_fuel(p256, 9); }

/// only the low n octets of the value count
pub proof fn lemma_be_mod(n: nat, v: nat, t: Bytes)
    ensures be(n, v % p256(n), t) == be(n, v, t) decreases n
{ reveal(be);
    lemma_p256_pos(n);
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_p256_pos(m);
        let w = v % p256(n);
        vstd::arithmetic::div_mod::lemma_mod_mod(v as int, 256, p256(m) as int);
        vstd::arithmetic::div_mod::lemma_mod_breakdown(v as int, 256, p256(m) as int);
        assert(w as int == 256 * ((v / 256) % p256(m)) + v % 256);
        assert(w / 256 == (v / 256) % p256(m));
        assert(w % 256 == v % 256);
        lemma_be_mod(m, v / 256, seq![(v % 256) as u8] + t);
    }
}
/// n + m octets of v are the n octets of v / 256^m before the m octets of v
pub proof fn lemma_be_split(n: nat, m: nat, v: nat, t: Bytes)
    ensures p256(m) > 0, be(n + m, v, t) == be(n, v / p256(m), be(m, v, t)) decreases m
{ reveal(be);
    lemma_p256_pos(m);
    if m > 0 {
        let k = (m - 1) as nat;
        lemma_p256_pos(k);
        lemma_be_split(n, k, v / 256, seq![(v % 256) as u8] + t);
        vstd::arithmetic::div_mod::lemma_div_denominator(v as int, 256, p256(k) as int);
        let u = seq![(v % 256) as u8] + t;
        assert(be(n + m, v, t) == be((n + k) as nat, v / 256, u)) by { assert(((n + m) - 1) as nat == n + k); }
        assert(be(m, v, t) == be(k, v / 256, u));
        assert((v / 256) / p256(k) == v / p256(m));
    } else { assert(v / 1 == v); }
}
pub proof fn lemma_bev_split(s: Bytes, n: nat, m: nat)
    requires n + m <= s.len()
    ensures bev(s, n + m) == bev(s, n) * p256(m) + bev(s.skip(n as int), m) decreases m
{ reveal(bev);
    if m > 0 {
        let k = (m - 1) as nat;
        lemma_bev_split(s, n, k);
        assert(bev(s, n + m) == bev(s, n + k) * 256 + s[(n + k) as int] as nat);
        assert((bev(s, n) * p256(k)) * 256 == bev(s, n) * p256(m)) by (nonlinear_arith) requires p256(m) == 256 * p256(k);
        assert(bev(s.skip(n as int), m) == bev(s.skip(n as int), k) * 256 + s.skip(n as int)[k as int] as nat);
        assert((bev(s, n) * p256(k) + bev(s.skip(n as int), k)) * 256 == (bev(s, n) * p256(k)) * 256 + bev(s.skip(n as int), k) * 256) by (nonlinear_arith);
    } else { assert(bev(s, n) * 1 == bev(s, n)); }
}
/// both directions, for every value, for functions that take integers apart or put them together
pub proof fn lemma_octets()
    ensures
        forall|v: nat, t: Bytes| #[trigger] be(2, v, t) == be(1, v / 256, be(1, v % 256, t)),
        forall|v: nat, t: Bytes| #[trigger] be(4, v, t) == be(2, v / 65536, be(2, v % 65536, t)),
        forall|v: nat, t: Bytes| #[trigger] be(8, v, t) == be(4, v / 0x1_0000_0000, be(4, v % 0x1_0000_0000, t)),
        forall|s: Bytes| s.len() >= 2 ==> #[trigger] bev(s, 2) == bev(s, 1) * 256 + bev(s.skip(1), 1),
        forall|s: Bytes| s.len() >= 4 ==> #[trigger] bev(s, 4) == bev(s, 2) * 65536 + bev(s.skip(2), 2),
        forall|s: Bytes| s.len() >= 8 ==> #[trigger] bev(s, 8) == bev(s, 4) * 0x1_0000_0000 + bev(s.skip(4), 4),
        forall|s: Bytes| s.len() >= 2 ==> #[trigger] s.skip(2) == s.skip(1).skip(1),
        forall|s: Bytes| s.len() >= 4 ==> #[trigger] s.skip(4) == s.skip(2).skip(2),
        forall|s: Bytes| s.len() >= 8 ==> #[trigger] s.skip(8) == s.skip(4).skip(4),
{
    reveal_with_fuel(p256, 5);
    assert(p256(1) == 256 && p256(2) == 65536 && p256(4) == 0x1_0000_0000) by (compute);
    assert forall|v: nat, t: Bytes| #[trigger] be(2, v, t) == be(1, v / 256, be(1, v % 256, t)) by { lemma_be_split(1, 1, v, t); lemma_be_mod(1, v, t); }
    assert forall|v: nat, t: Bytes| #[trigger] be(4, v, t) == be(2, v / 65536, be(2, v % 65536, t)) by { lemma_be_split(2, 2, v, t); lemma_be_mod(2, v, t); }
    assert forall|v: nat, t: Bytes| #[trigger] be(8, v, t) == be(4, v / 0x1_0000_0000, be(4, v % 0x1_0000_0000, t)) by { lemma_be_split(4, 4, v, t); lemma_be_mod(4, v, t); }
    assert forall|s: Bytes| s.len() >= 2 implies #[trigger] bev(s, 2) == bev(s, 1) * 256 + bev(s.skip(1), 1) by { lemma_bev_split(s, 1, 1); }
    assert forall|s: Bytes| s.len() >= 4 implies #[trigger] bev(s, 4) == bev(s, 2) * 65536 + bev(s.skip(2), 2) by { lemma_bev_split(s, 2, 2); }
    assert forall|s: Bytes| s.len() >= 8 implies #[trigger] bev(s, 8) == bev(s, 4) * 0x1_0000_0000 + bev(s.skip(4), 4) by { lemma_bev_split(s, 4, 4); }
    assert forall|s: Bytes| s.len() >= 2 implies #[trigger] s.skip(2) == s.skip(1).skip(1) by { assert(s.skip(2) =~= s.skip(1).skip(1)); }
    assert forall|s: Bytes| s.len() >= 4 implies #[trigger] s.skip(4) == s.skip(2).skip(2) by { assert(s.skip(4) =~= s.skip(2).skip(2)); }
    assert forall|s: Bytes| s.len() >= 8 implies #[trigger] s.skip(8) == s.skip(4).skip(4) by { assert(s.skip(8) =~= s.skip(4).skip(4)); }
}
pub broadcast proof fn axiom_be_bev(n: nat, v: nat, t: Bytes)
    requires n == 1 || n == 2 || n == 4 || n == 8, v < lim(n)
    ensures #[trigger] bev(be(n, v, t), n) == v
{
    lemma_be_bev(n, v, t); lemma_lim(n);
    vstd::arithmetic::div_mod::lemma_small_mod(v, lim(n));
}
pub broadcast proof fn axiom_be_skip(n: nat, v: nat, t: Bytes)
    ensures #[trigger] be(n, v, t).skip(n as int) == t
{ lemma_be_skip(n, v, t); }
pub broadcast proof fn axiom_be_len(n: nat, v: nat, t: Bytes)
    ensures #[trigger] be(n, v, t).len() == n + t.len()
{ lemma_be_len(n, v, t); }
pub broadcast proof fn axiom_bev_lt(s: Bytes, n: nat)
    requires n == 1 || n == 2 || n == 4 || n == 8, s.len() >= n
    ensures #[trigger] bev(s, n) < lim(n)
{ lemma_bev_lt(s, n); lemma_lim(n); }
pub broadcast group group_be { axiom_be_bev, axiom_be_skip, axiom_be_len, axiom_bev_lt, axiom_skip_skip, axiom_skip_len, //@SIZES
}

pub broadcast proof fn axiom_skip_skip(s: Bytes, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len()
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
/// a prefix of a text, then zeros: the padded text
pub broadcast proof fn axiom_pad_prefix(s: Bytes, k: int, m: nat, t: Bytes)
    requires 0 <= k <= s.len(), k == s.len() || m == 0
    ensures #[trigger] enc_list::<u8>(s.subrange(0, k), 0, zseq(m, t)) == enc_list::<u8>(padz(s, (k + m) as nat), 0, t)
{
    let p = padz(s, (k + m) as nat);
    lemma_enc_octets(s.subrange(0, k), 0, zseq(m, t));
    lemma_enc_octets(p, 0, t);
    lemma_zseq_plain(m, t);
    assert(s.subrange(0, k).skip(0) + (Seq::new(m, |i: int| 0u8) + t) =~= p.skip(0) + t);
}
pub proof fn lemma_zseq_plain(n: nat, t: Bytes)
    ensures zseq(n, t) == Seq::new(n, |i: int| 0u8) + t
    decreases n
{
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_zseq_plain(m, t);
        reveal_with_fuel(be, 3);
        assert(be(1, 0, zseq(m, t)) == seq![0u8] + zseq(m, t));
        assert(seq![0u8] + (Seq::new(m, |i: int| 0u8) + t) =~= Seq::new(n, |i: int| 0u8) + t);
    } else { assert(Seq::new(0, |i: int| 0u8) + t =~= t); }
}
pub broadcast proof fn axiom_bev_take(s: Bytes, n: nat)
    requires n <= s.len()
    ensures #[trigger] bev(s.take(n as int), n) == bev(s, n)
{ lemma_bev_prefix(s, s.take(n as int), n); }
pub broadcast proof fn axiom_skip_len(s: Bytes, a: int)
    requires 0 <= a <= s.len()
    ensures (#[trigger] s.skip(a)).len() == s.len() - a
{ }

pub proof fn lemma_zeros_len(n: nat, t: Bytes) ensures zseq(n, t).len() == n + t.len() decreases n
{ if n > 0 { lemma_zeros_len((n - 1) as nat, t); lemma_be_len(1, 0, zseq((n - 1) as nat, t)); } }
pub proof fn lemma_zeros_cat(n: nat, a: Bytes, b: Bytes) ensures zseq(n, a + b) == zseq(n, a) + b decreases n
{ if n > 0 { lemma_zeros_cat((n - 1) as nat, a, b); lemma_be_cat(1, 0, zseq((n - 1) as nat, a), b); } }
pub proof fn lemma_zeros_skip(n: nat, t: Bytes) ensures zseq(n, t).skip(n as int) == t decreases n
{
    lemma_zeros_len(n, t);
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_zeros_skip(m, t); lemma_be_skip(1, 0, zseq(m, t)); lemma_zeros_len(m, t);
        assert(zseq(n, t).skip(n as int) =~= zseq(n, t).skip(1).skip(m as int));
    } else { assert(t.skip(0) =~= t); }
}

// ---------------------------------------------------------------- floats, opaque but for their bits
pub uninterp spec fn f32_raw(x: f32) -> int;
pub uninterp spec fn f64_raw(x: f64) -> int;
pub open spec fn f32_bits(x: f32) -> nat { (f32_raw(x) % 0x1_0000_0000) as nat }
pub open spec fn f64_bits(x: f64) -> nat { (f64_raw(x) % 0x1_0000_0000_0000_0000) as nat }

/// two's complement bit patterns
pub open spec fn i8b(x: i8) -> nat { if x < 0 { (x + 0x100) as nat } else { x as nat } }
pub open spec fn i16b(x: i16) -> nat { if x < 0 { (x + 0x1_0000) as nat } else { x as nat } }
pub open spec fn i32b(x: i32) -> nat { if x < 0 { (x + 0x1_0000_0000) as nat } else { x as nat } }
pub open spec fn i64b(x: i64) -> nat { if x < 0 { (x + 0x1_0000_0000_0000_0000) as nat } else { x as nat } }

// ---------------------------------------------------------------- ASSUMED: crate `bytes`
#[verifier::external_body]
pub struct BytesMut { x: u8 }
impl View for BytesMut { type V = Bytes; uninterp spec fn view(&self) -> Bytes; }

//@PUTS
pub trait Buf: Sized {
    spec fn view(&self) -> Bytes;
    fn remaining(&self) -> (r: usize) ensures r == self.view().len();
    fn has_remaining(&self) -> (r: bool) ensures r == (self.view().len() > 0);
    fn advance(&mut self, n: usize)
        requires old(self).view().len() >= n
        ensures final(self).view() == old(self).view().skip(n as int);
    fn chunk(&self) -> (r: &[u8])
        ensures r@.len() <= self.view().len(), r@ == self.view().take(r@.len() as int), self.view().len() > 0 ==> r@.len() > 0;
//@GETS
    fn copy_to_slice<D: AsU8>(&mut self, dst: &mut D)
        requires old(self).view().len() >= old(dst).octets().len() //@F P
        ensures final(dst).octets() == old(self).view().take(old(dst).octets().len() as int), final(self).view() == old(self).view().skip(old(dst).octets().len() as int);
}
/// the first n octets of s, where s is n octets and more
pub proof fn lemma_take(s: Bytes, n: int)
    requires 0 <= n <= s.len()
    ensures forall|w: Bytes, t: Bytes| #![trigger enc_list::<u8>(w, 0, t)] w.len() == n && s == enc_list::<u8>(w, 0, t) ==> s.take(n) == w && s.skip(n) == t
{
    assert forall|w: Bytes, t: Bytes| #![trigger enc_list::<u8>(w, 0, t)] w.len() == n && s == enc_list::<u8>(w, 0, t) implies s.take(n) == w && s.skip(n) == t by {
        lemma_enc_octets(w, 0, t); assert(w.skip(0) =~= w); assert((w + t).take(n) =~= w); assert((w + t).skip(n) =~= t);
    }
}

// ---------------------------------------------------------------- contract traits
/// Specification functions of a type with a wire form. `enc` is the frozen layout of spec/layout.json.
pub trait Wire: Sized {
    /// the encoding of self, put in front of t
    spec fn enc(&self, t: Bytes) -> Bytes;
    /// octets of the encoding
    spec fn size(&self) -> nat;
    /// value a decoder can recover: counts agree with lists, enum codes and flags are declared ones
    spec fn wf(&self) -> bool;
    /// equality of everything observable (floats by bits)
    spec fn same(&self, o: &Self) -> bool;
    /// what decoding leaves of s, None if s is too short
    spec fn rest(s: Bytes) -> Option<Bytes>;
    /// octets that decoding reads at least; exactly those when fixed()
    spec fn min() -> nat;
    spec fn fixed() -> bool;
    /// every value has min() octets
    spec fn sfix() -> bool;
    proof fn lemma_len(&self, t: Bytes) ensures self.enc(t).len() == self.size() + t.len(), self.size() >= Self::min(), Self::sfix() ==> self.size() == Self::min();
    proof fn lemma_cat(&self, a: Bytes, b: Bytes) ensures self.enc(a + b) == self.enc(a) + b;
    proof fn lemma_rest(s: Bytes)
        ensures
            Self::rest(s) is Some ==> s.len() >= Self::min() && Self::rest(s)->0.len() + Self::min() <= s.len(),
            Self::fixed() ==> Self::rest(s) == drop_n(s, Self::min());
}

pub broadcast proof fn axiom_fixed<T: Wire>(s: Bytes) ensures T::fixed() ==> #[trigger] T::rest(s) == drop_n(s, T::min()) { T::lemma_rest(s); }
pub broadcast proof fn axiom_sfix<T: Wire>(x: T) ensures T::sfix() ==> #[trigger] x.size() == T::min() { x.lemma_len(nil()); }

pub trait FieldSerialize: Wire {
    fn serialize_field(&self, buf: &mut BytesMut)
        ensures forall|t: Bytes| #[trigger] cat(final(buf)@, t) == cat(old(buf)@, self.enc(t)); //@F E
}
pub trait FieldDeserialize: Wire {
    fn deserialize_field<B: Buf>(buf: &mut B) -> (r: Self)
        requires Self::rest(old(buf).view()) is Some //@F P
        ensures
            final(buf).view() == Self::rest(old(buf).view())->0, //@F P
            forall|v: Self, t: Bytes| #![trigger v.enc(t)] old(buf).view() == v.enc(t) && v.wf() ==> r.same(&v) && final(buf).view() == t; //@F D
}
pub trait FieldLen: Wire {
    fn field_len(&self) -> (r: usize)
        requires self.size() <= isize::MAX
        ensures r == self.size(); //@F L
}
/// decoding with the number of octets given
pub trait FieldDeserializeWithLen: Wire {
    spec fn lmax() -> nat;
    /// value that decoding with its length recovers
    spec fn wfl(&self) -> bool;
    fn deserialize_with_len<B: Buf>(buf: &mut B, len: usize) -> (r: Self)
        requires
            len <= Self::lmax(), //@F P
            old(buf).view().len() >= len //@F P
        ensures
            final(buf).view() == old(buf).view().skip(len as int), //@F P
            forall|v: Self, t: Bytes| #![trigger v.enc(t)] old(buf).view() == v.enc(t) && v.wfl() && v.size() == len ==> r.same(&v) && final(buf).view() == t; //@F D
}
/// stand-in for core::default::Default (the standard trait cannot carry this contract)
pub trait VDefault: Sized {
    spec fn is_dflt(&self) -> bool;
    fn default() -> (r: Self)
        ensures r.is_dflt(); //@F N
}

// ---------------------------------------------------------------- lists
pub open spec fn enc_list<T: Wire>(s: Seq<T>, i: int, t: Bytes) -> Bytes decreases s.len() - i {
    if i < 0 || i >= s.len() { t } else { s[i].enc(enc_list(s, i + 1, t)) }
}
pub open spec fn size_list<T: Wire>(s: Seq<T>, i: int) -> nat decreases s.len() - i {
    if i < 0 || i >= s.len() { 0 } else { s[i].size() + size_list(s, i + 1) }
}
pub open spec fn wf_list<T: Wire>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf() }
pub open spec fn same_list<T: Wire>(a: Seq<T>, b: Seq<T>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).same(&b[i])
}
pub open spec fn rest_list<T: Wire>(s: Bytes, n: nat) -> Option<Bytes> decreases n {
    if n == 0 { Some(s) } else { match T::rest(s) { Some(u) => rest_list::<T>(u, (n - 1) as nat), None => None } }
}
pub proof fn lemma_list_len<T: Wire>(s: Seq<T>, i: int, t: Bytes)
    requires 0 <= i
    ensures enc_list(s, i, t).len() == size_list(s, i) + t.len()
    decreases s.len() - i
{ if i < s.len() { lemma_list_len(s, i + 1, t); s[i].lemma_len(enc_list(s, i + 1, t)); } }
pub proof fn lemma_list_cat<T: Wire>(s: Seq<T>, i: int, a: Bytes, b: Bytes)
    requires 0 <= i
    ensures enc_list(s, i, a + b) == enc_list(s, i, a) + b
    decreases s.len() - i
{ if i < s.len() { lemma_list_cat(s, i + 1, a, b); s[i].lemma_cat(enc_list(s, i + 1, a), b); } }
pub proof fn lemma_list_rest<T: Wire>(s: Bytes, n: nat)
    ensures
        rest_list::<T>(s, n) is Some ==> rest_list::<T>(s, n)->0.len() <= s.len() && s.len() >= n * T::min() && rest_list::<T>(s, n)->0.len() <= s.len() - n * T::min(),
        T::fixed() ==> rest_list::<T>(s, n) == drop_n(s, n * T::min()),
    decreases n
{
    if n > 0 {
        let m = (n - 1) as nat;
        T::lemma_rest(s);
        assert(n * T::min() == m * T::min() + T::min()) by (nonlinear_arith) requires n == m + 1;
        assert(m * T::min() >= 0) by (nonlinear_arith);
        if T::rest(s) is Some { lemma_list_rest::<T>(T::rest(s)->0, m); }
        if T::fixed() && s.len() >= n * T::min() { assert(s.skip(T::min() as int).skip((m * T::min()) as int) =~= s.skip((n * T::min()) as int)); }
    } else { assert(n * T::min() == 0) by (nonlinear_arith) requires n == 0; assert(s.skip(0) =~= s); }
}
/// what is left after an array, where all elements have one size
pub proof fn lemma_fill<T: Wire>(s: Bytes, a: Seq<T>)
    ensures T::fixed() ==> rest_list::<T>(s, a.len()) == drop_n(s, a.len() * T::min())
{ lemma_list_rest::<T>(s, a.len()); }
pub proof fn lemma_dec<T: Wire>(s: Bytes, a: Seq<T>, n: nat)
    ensures T::fixed() ==> rest_list::<T>(s, n) == drop_n(s, n * T::min()), n * 1 == n
{ lemma_list_rest::<T>(s, n); }
/// products of 16-bit and 32-bit numbers
pub proof fn lemma_mul_bound(a: int, b: int)
    ensures 0 <= a <= 0xffff && 0 <= b <= 0xffff ==> 0 <= a * b <= 0xfffe_0001, a * b == b * a, 0 <= a <= 0xffff_ffff && 0 <= b <= 0xffff_ffff ==> 0 <= a * b <= 0xffff_fffe_0000_0001
{
    assert(a * b == b * a) by (nonlinear_arith);
    assert(0 <= a <= 0xffff && 0 <= b <= 0xffff ==> 0 <= a * b <= 0xfffe_0001) by (nonlinear_arith);
    assert(0 <= a <= 0xffff_ffff && 0 <= b <= 0xffff_ffff ==> 0 <= a * b <= 0xffff_fffe_0000_0001) by (nonlinear_arith);
}
pub proof fn lemma_list_min<T: Wire>(s: Seq<T>, i: int)
    requires 0 <= i <= s.len()
    ensures size_list(s, i) >= (s.len() - i) * T::min()
    decreases s.len() - i
{
    if i < s.len() {
        lemma_list_min(s, i + 1);
        s[i].lemma_len(nil());
        assert((s.len() - i) * T::min() == (s.len() - (i + 1)) * T::min() + T::min()) by (nonlinear_arith) requires i < s.len();
    } else { assert((s.len() - i) * T::min() == 0) by (nonlinear_arith) requires i == s.len(); }
}
pub proof fn lemma_list_sfix<T: Wire>(s: Seq<T>, i: int)
    requires T::sfix(), 0 <= i <= s.len()
    ensures size_list(s, i) == (s.len() - i) * T::min()
    decreases s.len() - i
{
    if i < s.len() {
        lemma_list_sfix(s, i + 1);
        s[i].lemma_len(nil());
        assert((s.len() - i) * T::min() == (s.len() - (i + 1)) * T::min() + T::min()) by (nonlinear_arith) requires i < s.len();
    } else { assert((s.len() - i) * T::min() == 0) by (nonlinear_arith) requires i == s.len(); }
}
//@PRIMS

// ---------------------------------------------------------------- Vec<T> as the body of a PDU field:
// the decoder of the crate yields an empty list (known finding C02), so the only decodable value is the empty one.
impl<T: Wire> Wire for Vec<T> {
    open spec fn enc(&self, t: Bytes) -> Bytes { enc_list(self@, 0, t) }
    open spec fn size(&self) -> nat { size_list(self@, 0) }
    open spec fn wf(&self) -> bool { self@.len() == 0 }
    open spec fn same(&self, o: &Self) -> bool { same_list(self@, o@) }
    open spec fn rest(s: Bytes) -> Option<Bytes> { Some(s) }
    open spec fn min() -> nat { 0 }
    open spec fn fixed() -> bool { true }
    open spec fn sfix() -> bool { false }
    proof fn lemma_len(&self, t: Bytes) { lemma_list_len(self@, 0, t); }
    proof fn lemma_cat(&self, a: Bytes, b: Bytes) { lemma_list_cat(self@, 0, a, b); }
    proof fn lemma_rest(s: Bytes) { }
}
impl<T: Wire> VDefault for Vec<T> { open spec fn is_dflt(&self) -> bool { self@.len() == 0 } fn default() -> (r: Self) { Vec::new() } }

impl<T: Wire> Wire for Option<T> {
    open spec fn enc(&self, t: Bytes) -> Bytes { match *self { Some(v) => v.enc(t), None => t } }
    open spec fn size(&self) -> nat { match *self { Some(v) => v.size(), None => 0 } }
    open spec fn wf(&self) -> bool { *self is None }
    open spec fn same(&self, o: &Self) -> bool { match (*self, *o) { (Some(a), Some(b)) => a.same(&b), (None, None) => true, _ => false } }
    open spec fn rest(s: Bytes) -> Option<Bytes> { Some(s) }
    open spec fn min() -> nat { 0 }
    open spec fn fixed() -> bool { true }
    open spec fn sfix() -> bool { false }
    proof fn lemma_len(&self, t: Bytes) { if let Some(v) = *self { v.lemma_len(t); } }
    proof fn lemma_cat(&self, a: Bytes, b: Bytes) { if let Some(v) = *self { v.lemma_cat(a, b); } }
    proof fn lemma_rest(s: Bytes) { }
}
impl<T: Wire> VDefault for Option<T> { open spec fn is_dflt(&self) -> bool { *self is None } fn default() -> (r: Self) { None } }

impl<T: Wire, const N: usize> Wire for [T; N] {
    open spec fn enc(&self, t: Bytes) -> Bytes { enc_list(self@, 0, t) }
    open spec fn size(&self) -> nat { size_list(self@, 0) }
    open spec fn wf(&self) -> bool { wf_list(self@) }
    open spec fn same(&self, o: &Self) -> bool { same_list(self@, o@) }
    open spec fn rest(s: Bytes) -> Option<Bytes> { rest_list::<T>(s, N as nat) }
    open spec fn min() -> nat { N as nat * T::min() }
    open spec fn fixed() -> bool { T::fixed() }
    open spec fn sfix() -> bool { T::sfix() }
    proof fn lemma_len(&self, t: Bytes) { lemma_list_len(self@, 0, t); lemma_list_min(self@, 0); if T::sfix() { lemma_list_sfix(self@, 0); } }
    proof fn lemma_cat(&self, a: Bytes, b: Bytes) { lemma_list_cat(self@, 0, a, b); }
    proof fn lemma_rest(s: Bytes) { lemma_list_rest::<T>(s, N as nat); }
}

// the standard library's [T; N]::default (N <= 32): every element is the default one
impl<T: VDefault + Copy, const N: usize> VDefault for [T; N] {
    open spec fn is_dflt(&self) -> bool { forall|i: int| 0 <= i < N ==> (#[trigger] self@[i]).is_dflt() }
    fn default() -> (r: Self) { [T::default(); N] }
}

// ---------------------------------------------------------------- loop invariants (one per loop shape)
/// octets written so far: element i onwards of c is still to come
pub open spec fn ser_inv<T: Wire>(s0: Bytes, cur: Bytes, c: Seq<T>, i: int) -> bool {
    forall|t: Bytes| #![trigger enc_list(c, 0, t)] cat(s0, enc_list(c, 0, t)) == cat(cur, enc_list(c, i, t))
}
/// i of n elements read from s0, cur is what is left, v what was read
pub open spec fn dec_inv<T: Wire>(s0: Bytes, cur: Bytes, n: nat, i: nat, v: Seq<T>) -> bool {
    &&& v.len() == i && i <= n
    &&& rest_list::<T>(s0, n) is Some && rest_list::<T>(s0, n) == rest_list::<T>(cur, (n - i) as nat)
    &&& forall|w: Seq<T>, t: Bytes| #![trigger enc_list(w, 0, t)] w.len() == n && wf_list(w) && s0 == enc_list(w, 0, t)
            ==> cur == enc_list(w, i as int, t) && (forall|j: int| 0 <= j < i ==> (#[trigger] v[j]).same(&w[j]))
}
/// the same for an array filled in place
pub open spec fn fill_inv<T: Wire>(s0: Bytes, cur: Bytes, n: nat, i: nat, v: Seq<T>) -> bool {
    &&& v.len() == n && i <= n
    &&& rest_list::<T>(s0, n) is Some && rest_list::<T>(s0, n) == rest_list::<T>(cur, (n - i) as nat)
    &&& forall|w: Seq<T>, t: Bytes| #![trigger enc_list(w, 0, t)] w.len() == n && wf_list(w) && s0 == enc_list(w, 0, t)
            ==> cur == enc_list(w, i as int, t) && (forall|j: int| 0 <= j < i ==> (#[trigger] v[j]).same(&w[j]))
}
pub proof fn lemma_fill_u8(s0: Bytes, cur: Bytes, v: Seq<u8>)
    requires fill_inv(s0, cur, v.len(), v.len(), v)
    ensures forall|w: Bytes, t: Bytes| #![trigger enc_list::<u8>(w, 0, t)] w.len() == v.len() && s0 == enc_list::<u8>(w, 0, t) ==> v == w && cur == t
{
    assert forall|w: Bytes, t: Bytes| #![trigger enc_list::<u8>(w, 0, t)] w.len() == v.len() && s0 == enc_list::<u8>(w, 0, t) implies v == w && cur == t by {
        assert(wf_list(w)); assert forall|j: int| 0 <= j < v.len() implies v[j] == w[j] by { assert(v[j].same(&w[j])); } assert(v =~= w);
    }
}
/// the first n octets of s, zeros where it has none
pub open spec fn padz(s: Bytes, n: nat) -> Bytes { Seq::new(n, |i: int| if i < s.len() { s[i] } else { 0u8 }) }
pub open spec fn text_inv(s0: Bytes, cur: Bytes, c: Bytes, n: nat, i: int) -> bool { ser_inv(s0, cur, padz(c, n), i) }
/// i of n zero octets written
pub open spec fn zero_inv(s0: Bytes, cur: Bytes, i: nat, n: nat) -> bool {
    i <= n && forall|t: Bytes| #![trigger zseq(n, t)] cat(s0, zseq(n, t)) == cat(cur, zseq((n - i) as nat, t))
}
/// all octets from s0 on are read into v, after v0
pub open spec fn drain_inv(s0: Bytes, cur: Bytes, v0: Seq<u8>, v: Seq<u8>) -> bool {
    cur.len() <= s0.len() && v.len() == v0.len() + (s0.len() - cur.len()) && cur == s0.skip(s0.len() - cur.len())
    && (v0.len() == 0 ==> forall|j: int| 0 <= j < v.len() ==> v[j] == s0[j])
}
pub broadcast proof fn axiom_bev1(s: Bytes) requires s.len() > 0 ensures #[trigger] bev(s, 1) == s[0] { reveal_with_fuel(bev, 2); }
/// the number whose octets these are
pub proof fn lemma_bev_octets(s: Bytes)
    ensures
        s.len() >= 2 ==> bev(s, 2) == s[0] * 256 + s[1],
        s.len() >= 4 ==> bev(s, 4) == s[0] * 0x100_0000 + s[1] * 0x1_0000 + s[2] * 0x100 + s[3],
        s.len() >= 8 ==> bev(s, 8) == s[0] * 0x100_0000_0000_0000 + s[1] * 0x1_0000_0000_0000 + s[2] * 0x100_0000_0000 + s[3] * 0x1_0000_0000 + s[4] * 0x100_0000 + s[5] * 0x1_0000 + s[6] * 0x100 + s[7],
{ reveal_with_fuel(bev, 9); }
pub broadcast proof fn axiom_enc_list_u8(s: Bytes, t: Bytes) ensures #[trigger] enc_list::<u8>(s, 0, t) == s + t { lemma_enc_octets(s, 0, t); assert(s.skip(0) =~= s); }
pub broadcast proof fn axiom_enc_octets_nil(s: Bytes) ensures #[trigger] enc_list::<u8>(s, 0, nil()) == s { lemma_enc_octets(s, 0, nil()); assert(s.skip(0) + nil() =~= s); }
pub broadcast group group_drain { axiom_bev1, axiom_enc_octets_nil }

// ---------------------------------------------------------------- casts and arithmetic of the standard library
/// anything `as` can convert to an integer: integers, bool, C-like enums
pub trait Num: Sized { spec fn num(&self) -> int; fn wide(self) -> (r: i128) ensures r == self.num(); }
pub trait IntNum: Num + Copy {
    spec fn lo() -> int;
    spec fn hi() -> int;
    proof fn lemma_in(&self) ensures Self::lo() <= self.num() <= Self::hi(), Self::lo() <= 0 <= Self::hi() <= 0xffff_ffff_ffff_ffff, Self::lo() >= -0x8000_0000_0000_0000;
    fn narrow(w: i128) -> (r: Self) requires Self::lo() <= w <= Self::hi() ensures r.num() == w;
    fn least() -> (r: i128) ensures r == Self::lo();
    fn most() -> (r: i128) ensures r == Self::hi();
}
//@CASTS
pub fn v_div_ceil<T: IntNum>(a: T, b: T) -> (r: T)
    requires a.num() >= 0, b.num() > 0
    ensures r.num() == (a.num() + b.num() - 1) / b.num()
{
    proof { a.lemma_in(); b.lemma_in(); }
    let (x, y) = (a.wide(), b.wide());
    let q = (x + y - 1) / y;
    proof { assert(0 <= (x + y - 1) / (y as int) <= x) by (nonlinear_arith) requires x >= 0, y >= 1; }
    T::narrow(q)
}
pub fn v_saturating_sub<T: IntNum>(a: T, b: T) -> (r: T)
    ensures r.num() == clampz(a.num() - b.num(), T::lo(), T::hi())
{
    proof { a.lemma_in(); b.lemma_in(); }
    let w = a.wide() - b.wide();
    if w < T::least() { T::narrow(T::least()) } else if w > T::most() { T::narrow(T::most()) } else { T::narrow(w) }
}
pub open spec fn clampz(x: int, lo: int, hi: int) -> int { if x < lo { lo } else if x > hi { hi } else { x } }
pub open spec fn wrapz(x: int, lo: int, hi: int) -> int { if x < lo { x + (hi - lo + 1) } else if x > hi { x - (hi - lo + 1) } else { x } }
pub fn v_saturating_add<T: IntNum>(a: T, b: T) -> (r: T) ensures r.num() == clampz(a.num() + b.num(), T::lo(), T::hi())
{
    proof { a.lemma_in(); b.lemma_in(); }
    let w = a.wide() + b.wide();
    if w < T::least() { T::narrow(T::least()) } else if w > T::most() { T::narrow(T::most()) } else { T::narrow(w) }
}
pub fn v_wrapping_add<T: IntNum>(a: T, b: T) -> (r: T) ensures r.num() == wrapz(a.num() + b.num(), T::lo(), T::hi())
{
    proof { a.lemma_in(); b.lemma_in(); }
    let (w, n) = (a.wide() + b.wide(), T::most() - T::least() + 1);
    if w < T::least() { T::narrow(w + n) } else if w > T::most() { T::narrow(w - n) } else { T::narrow(w) }
}
pub fn v_wrapping_sub<T: IntNum>(a: T, b: T) -> (r: T) ensures r.num() == wrapz(a.num() - b.num(), T::lo(), T::hi())
{
    proof { a.lemma_in(); b.lemma_in(); }
    let (w, n) = (a.wide() - b.wide(), T::most() - T::least() + 1);
    if w < T::least() { T::narrow(w + n) } else if w > T::most() { T::narrow(w - n) } else { T::narrow(w) }
}
pub fn v_wrapping_neg<T: IntNum>(a: T) -> (r: T) ensures r.num() == wrapz(-a.num(), T::lo(), T::hi())
{
    proof { a.lemma_in(); }
    let (w, n) = (0 - a.wide(), T::most() - T::least() + 1);
    if w < T::least() { T::narrow(w + n) } else if w > T::most() { T::narrow(w - n) } else { T::narrow(w) }
}
pub fn v_checked_add<T: IntNum>(a: T, b: T) -> (r: Option<T>) ensures r is Some <==> T::lo() <= a.num() + b.num() <= T::hi(), r is Some ==> r->0.num() == a.num() + b.num()
{
    proof { a.lemma_in(); b.lemma_in(); }
    let w = a.wide() + b.wide();
    if w < T::least() || w > T::most() { None } else { Some(T::narrow(w)) }
}
pub fn v_checked_sub<T: IntNum>(a: T, b: T) -> (r: Option<T>) ensures r is Some <==> T::lo() <= a.num() - b.num() <= T::hi(), r is Some ==> r->0.num() == a.num() - b.num()
{
    proof { a.lemma_in(); b.lemma_in(); }
    let w = a.wide() - b.wide();
    if w < T::least() || w > T::most() { None } else { Some(T::narrow(w)) }
}
pub fn v_abs_diff<T: IntNum>(a: T, b: T) -> (r: T) requires T::lo() == 0 ensures r.num() == (if a.num() >= b.num() { a.num() - b.num() } else { b.num() - a.num() })
{
    proof { a.lemma_in(); b.lemma_in(); }
    let (x, y) = (a.wide(), b.wide());
    if x >= y { T::narrow(x - y) } else { T::narrow(y - x) }
}
pub fn v_rem_euclid<T: IntNum>(a: T, b: T) -> (r: T)
    requires b.num() > 0
    ensures r.num() == a.num() % b.num()
{
    proof { a.lemma_in(); b.lemma_in(); }
    let (x, y) = (a.wide(), b.wide());
    if x >= 0 {
        proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x as int, y as int); assert(0 <= (x as int) % (y as int) <= x) by (nonlinear_arith) requires x >= 0, y >= 1; }
        T::narrow(x % y)
    } else {
        let (q, m) = ((0 - x) / y, (0 - x) % y);
        proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(-x as int, y as int); }
        if m == 0 {
            proof {
                assert(x == (-(q as int)) * (y as int)) by (nonlinear_arith) requires -(x as int) == (y as int) * (q as int);
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x as int, y as int, -(q as int), 0);
            }
            T::narrow(0)
        } else {
            proof {
                assert(x == (-(q as int) - 1) * (y as int) + (y - m)) by (nonlinear_arith) requires -(x as int) == (y as int) * (q as int) + m;
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x as int, y as int, -(q as int) - 1, (y - m) as int);
            }
            T::narrow(y - m)
        }
    }
}
pub fn v_is_multiple_of<T: IntNum>(a: T, b: T) -> (r: bool)
    requires a.num() >= 0, b.num() >= 0
    ensures r == (if b.num() == 0 { a.num() == 0 } else { a.num() % b.num() == 0 })
{
    proof { a.lemma_in(); b.lemma_in(); }
    let (x, y) = (a.wide(), b.wide());
    if y == 0 { x == 0 } else {
        proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x as int, y as int); assert(0 <= (x as int) % (y as int) <= x) by (nonlinear_arith) requires x >= 0, y >= 1; }
        x % y == 0
    }
}
pub fn v_min<T: IntNum>(a: T, b: T) -> (r: T) ensures r == (if a.num() <= b.num() { a } else { b }) { if a.wide() <= b.wide() { a } else { b } }
pub fn v_max<T: IntNum>(a: T, b: T) -> (r: T) ensures r == (if a.num() > b.num() { a } else { b }) { if a.wide() > b.wide() { a } else { b } }
/// Option<T> and Result<T, E>
pub trait Carrier<T>: Sized { spec fn got(&self) -> Option<T>; fn take_out(self) -> (r: Option<T>) ensures r == self.got(); }
impl<T> Carrier<T> for Option<T> { open spec fn got(&self) -> Option<T> { *self } fn take_out(self) -> (r: Option<T>) { self } }
impl<'a, T> Carrier<&'a T> for &'a Option<T> { open spec fn got(&self) -> Option<&'a T> { match **self { Some(v) => Some(&v), None => None } } fn take_out(self) -> (r: Option<&'a T>) { match self { Some(v) => Some(v), None => None } } }
impl<T, E> Carrier<T> for Result<T, E> { open spec fn got(&self) -> Option<T> { match *self { Ok(v) => Some(v), Err(_) => None } } fn take_out(self) -> (r: Option<T>) { match self { Ok(v) => Some(v), Err(_) => None } } }
pub fn v_unwrap_or<T, C: Carrier<T>>(o: C, d: T) -> (r: T) ensures r == (if o.got() is Some { o.got()->0 } else { d }) { match o.take_out() { Some(v) => v, None => d } }
pub fn v_unwrap_or_default<T: VDefault, C: Carrier<T>>(o: C) -> (r: T) ensures o.got() is Some ==> r == o.got()->0, o.got() is None ==> r.is_dflt() { match o.take_out() { Some(v) => v, None => T::default() } }
pub fn v_expect<T, C: Carrier<T>>(o: C) -> (r: T) requires o.got() is Some ensures r == o.got()->0 { match o.take_out() { Some(v) => v, None => v_panic() } }
pub fn v_get_range(s: &[u8], lo: usize, hi: usize) -> (r: Option<&[u8]>) ensures lo <= hi <= s@.len() ==> r is Some && (r->0)@ == s@.subrange(lo as int, hi as int), !(lo <= hi <= s@.len()) ==> r is None { if lo <= hi && hi <= s.len() { Some(slice_of(s, lo, hi)) } else { None } }
pub fn v_split_at(s: &[u8], n: usize) -> (r: (&[u8], &[u8])) requires n <= s@.len() ensures r.0@ == s@.subrange(0, n as int), r.1@ == s@.subrange(n as int, s@.len() as int) { (slice_of(s, 0, n), slice_of(s, n, s.len())) }
pub fn v_get<T>(s: &[T], i: usize) -> (r: Option<&T>) ensures i < s@.len() ==> r == Some(&s@[i as int]), i >= s@.len() ==> r is None { if i < s.len() { Some(&s[i]) } else { None } }
/// the octets of x in the other order (put_uN_le, get_uN_le, swap_bytes): not known to be anything else
pub uninterp spec fn swapped(x: nat) -> nat;
#[verifier::external_body] pub fn v_swapped_u16(x: u16) -> (r: u16) ensures r == swapped(x as nat) { unimplemented!() }
#[verifier::external_body] pub fn v_swapped_u32(x: u32) -> (r: u32) ensures r == swapped(x as nat) { unimplemented!() }
#[verifier::external_body] pub fn v_swapped_u64(x: u64) -> (r: u64) ensures r == swapped(x as nat) { unimplemented!() }
#[verifier::external_body] pub fn v_from_bits_f32(x: u32) -> (r: f32) ensures f32_bits(r) == x { unimplemented!() }
#[verifier::external_body] pub fn v_from_bits_f64(x: u64) -> (r: f64) ensures f64_bits(r) == x { unimplemented!() }
#[verifier::external_body] pub fn v_to_bits_f32(x: f32) -> (r: u32) ensures r == f32_bits(x) { unimplemented!() }
#[verifier::external_body] pub fn v_to_bits_f64(x: f64) -> (r: u64) ensures r == f64_bits(x) { unimplemented!() }
#[verifier::external_body] pub fn v_from_be_u16(x: [u8; 2]) -> (r: u16) ensures r == bev(x@, 2) { unimplemented!() }
#[verifier::external_body] pub fn v_from_be_u32(x: [u8; 4]) -> (r: u32) ensures r == bev(x@, 4) { unimplemented!() }
#[verifier::external_body] pub fn v_from_be_u64(x: [u8; 8]) -> (r: u64) ensures r == bev(x@, 8) { unimplemented!() }
pub fn v_take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0
{
    let mut r: Vec<T> = Vec::new();
    core::mem::swap(&mut r, v);
    r
}
pub fn v_resize<T: Copy>(v: &mut Vec<T>, n: usize, x: T)
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(v)@[i] == (if i < old(v)@.len() { old(v)@[i] } else { x })
{
    if n < v.len() { v.truncate(n); }
    while v.len() < n
        invariant v@.len() <= n, v@.len() >= old(v)@.len() || v@.len() == n, forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] == (if i < old(v)@.len() { old(v)@[i] } else { x })
        decreases n - v@.len()
    { v.push(x); }
}
#[verifier::external_body]
pub fn v_panic<R>() -> (r: R) requires false { unimplemented!() }
pub fn v_sum_field_len<T: FieldLen>(v: &Vec<T>) -> (r: usize)
    requires size_list(v@, 0) <= isize::MAX
    ensures r == size_list(v@, 0)
{
    let mut i: usize = 0;
    let mut r: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), r + size_list(v@, i as int) == size_list(v@, 0), size_list(v@, 0) <= isize::MAX
        decreases v@.len() - i
    {
        r = r + v[i].field_len();
        i = i + 1;
    }
    r
}
/// vec![0u8; n]
pub fn vec_from_elem(x: u8, n: usize) -> (r: Vec<u8>)
    ensures r@.len() == n, forall|j: int| 0 <= j < n ==> r@[j] == x, x == 0 ==> forall|t: Bytes| #![trigger enc_list(r@, 0, t)] #![trigger zseq(n as nat, t)] enc_list(r@, 0, t) == zseq(n as nat, t)
{
    let mut v: Vec<u8> = Vec::new();
    let mut i: usize = 0;
    while i < n
        invariant i <= n, v@.len() == i, forall|j: int| 0 <= j < i ==> v@[j] == x
        decreases n - i
    { v.push(x); i = i + 1; }
    proof { if x == 0 { assert forall|t: Bytes| #[trigger] enc_list(v@, 0, t) == zseq(n as nat, t) by { lemma_zero_list(v@, 0, t); } } }
    v
}
pub proof fn lemma_zero_list(s: Seq<u8>, i: int, t: Bytes)
    requires 0 <= i <= s.len(), forall|j: int| 0 <= j < s.len() ==> s[j] == 0
    ensures enc_list(s, i, t) == zseq((s.len() - i) as nat, t)
    decreases s.len() - i
{ if i < s.len() { lemma_zero_list(s, i + 1, t); } }
/// what derefs to a slice of octets
pub trait AsU8 { spec fn octets(&self) -> Bytes; fn sl(&self) -> (r: &[u8]) ensures r@ == self.octets(); }
impl<const N: usize> AsU8 for [u8; N] { open spec fn octets(&self) -> Bytes { self@ } fn sl(&self) -> (r: &[u8]) { self.as_slice() } }
impl AsU8 for Vec<u8> { open spec fn octets(&self) -> Bytes { self@ } fn sl(&self) -> (r: &[u8]) { self.as_slice() } }
impl<S: AsU8 + ?Sized> AsU8 for &S { open spec fn octets(&self) -> Bytes { (**self).octets() } fn sl(&self) -> (r: &[u8]) { (**self).sl() } }
impl AsU8 for [u8] { open spec fn octets(&self) -> Bytes { self@ } fn sl(&self) -> (r: &[u8]) { self } }
pub fn as_u8_slice<S: AsU8 + ?Sized>(s: &S) -> (r: &[u8]) ensures r@ == s.octets() { s.sl() }

/// s[lo..hi]
pub fn slice_of<S: AsU8 + ?Sized>(s: &S, lo: usize, hi: usize) -> (r: &[u8]) requires lo <= hi <= s.octets().len() ensures r@ == s.octets().subrange(lo as int, hi as int), lo == 0 && hi == s.octets().len() ==> r@ == s.octets()
{
    proof { if lo == 0 && hi == s.octets().len() { assert(s.octets().subrange(lo as int, hi as int) =~= s.octets()); } }
    vstd::slice::slice_subrange(s.sl(), lo, hi)
}
/// the leading octets of y over those of x
pub open spec fn overlay(x: Bytes, y: Bytes) -> Bytes { Seq::new(x.len(), |i: int| if i < y.len() { y[i] } else { x[i] }) }
pub fn v_overlay<const N: usize>(x: &mut [u8; N], y: &[u8])
    ensures final(x)@ == overlay(old(x)@, y@), (forall|i: int| 0 <= i < N ==> old(x)@[i] == 0) ==> final(x)@ == padz(y@, N as nat)
{
    let mut i: usize = 0;
    let ghost x0 = x@;
    while i < x.len() && i < y.len()
        invariant i <= x@.len(), i <= y@.len(), x@.len() == x0.len(), forall|j: int| 0 <= j < x0.len() ==> #[trigger] x@[j] == if j < i { y@[j] } else { x0[j] }
        decreases x@.len() - i
    { x[i] = y[i]; i = i + 1; }
    proof { assert(x@ =~= overlay(x0, y@)); if forall|i: int| 0 <= i < N ==> x0[i] == 0 { assert(x@ =~= padz(y@, N as nat)); } }
}
pub fn v_copy_range<const N: usize>(x: &mut [u8; N], lo: usize, hi: usize, y: &[u8])
    requires lo <= hi <= N, y@.len() == hi - lo
    ensures final(x)@ == old(x)@.take(lo as int) + y@ + old(x)@.skip(hi as int), lo == 0 && hi == N ==> final(x)@ == y@, lo == 0 && (forall|i: int| 0 <= i < N ==> old(x)@[i] == 0) ==> final(x)@ == padz(y@, N as nat)
{
    let mut i: usize = 0;
    let ghost x0 = x@;
    while i < y.len()
        invariant i <= y@.len(), x@.len() == x0.len(), x@.len() == N, lo <= hi <= N, y@.len() == hi - lo, forall|j: int| 0 <= j < x0.len() ==> #[trigger] x@[j] == if lo <= j < lo + i { y@[j - lo] } else { x0[j] }
        decreases y@.len() - i
    { x[lo + i] = y[i]; i = i + 1; }
    proof {
        assert(x@ =~= x0.take(lo as int) + y@ + x0.skip(hi as int));
        if lo == 0 && hi == N { assert(x@ =~= y@); }
        if lo == 0 && (forall|i: int| 0 <= i < N ==> x0[i] == 0) { assert(x@ =~= padz(y@, N as nat)); }
    }
}
pub fn v_copy_all<const N: usize>(x: &mut [u8; N], y: &[u8]) requires y@.len() == N ensures final(x)@ == y@ { v_copy_range(x, 0, N, y) }
/// padding what was cut to at most n octets is padding the whole
pub broadcast proof fn axiom_padz_cut(s: Bytes, k: int, n: nat)
    requires 0 <= k <= s.len(), k == s.len() || k == n
    ensures #[trigger] padz(s.subrange(0, k), n) == padz(s, n)
{ assert(padz(s.subrange(0, k), n) =~= padz(s, n)); }
//@SLICEBUF

// ---------------------------------------------------------------- String, as its UTF-8 octets
#[verifier::external_body]
pub struct VString { x: u8 }
impl View for VString { type V = Bytes; uninterp spec fn view(&self) -> Bytes; }
pub uninterp spec fn utf8(s: Bytes) -> bool;
/// s without the zero octets at its end
pub open spec fn trim0(s: Bytes) -> Bytes decreases s.len() { if s.len() > 0 && s.last() == 0 { trim0(s.drop_last()) } else { s } }
/// ASSUMED: a text followed by zero octets is a text
#[verifier::external_body]
pub broadcast proof fn axiom_utf8_pad(s: Bytes, n: nat) requires utf8(s), s.len() <= n ensures #[trigger] utf8(padz(s, n)) { }
pub broadcast proof fn axiom_trim0_pad(s: Bytes, n: nat)
    requires s.len() <= n, s.len() > 0 ==> s.last() != 0
    ensures #[trigger] trim0(padz(s, n)) == s
    decreases n - s.len()
{
    if n > s.len() { let m = (n - 1) as nat; axiom_trim0_pad(s, m); assert(padz(s, n).drop_last() =~= padz(s, m)); assert(padz(s, n).last() == 0); }
    else { assert(padz(s, n) =~= s); }
}
pub broadcast proof fn axiom_enc_octets(s: Bytes, n: nat, t: Bytes)
    ensures #![trigger enc_list::<u8>(padz(s, n), 0, t)] enc_list::<u8>(padz(s, n), 0, t).take(n as int) == padz(s, n), enc_list::<u8>(padz(s, n), 0, t).skip(n as int) == t
{ lemma_enc_octets(padz(s, n), 0, t); assert(padz(s, n).skip(0) =~= padz(s, n)); assert((padz(s, n) + t).take(n as int) =~= padz(s, n)); assert((padz(s, n) + t).skip(n as int) =~= t); }
pub proof fn lemma_enc_octets(s: Bytes, i: int, t: Bytes)
    requires 0 <= i <= s.len()
    ensures enc_list::<u8>(s, i, t) == s.skip(i) + t
    decreases s.len() - i
{
    if i < s.len() {
        lemma_enc_octets(s, i + 1, t);
        reveal_with_fuel(be, 3);
        assert(enc_list::<u8>(s, i, t) == be(1, s[i] as nat, enc_list::<u8>(s, i + 1, t)));
        assert(s.skip(i) + t =~= seq![s[i]] + (s.skip(i + 1) + t));
    } else { assert(s.skip(i) + t =~= t); }
}
pub broadcast proof fn axiom_zseq_skip(n: nat, t: Bytes) ensures #[trigger] zseq(n, t).skip(n as int) == t { lemma_zeros_skip(n, t); }
pub broadcast group group_text { axiom_pad_prefix, axiom_padz_cut, axiom_utf8_pad, axiom_trim0_pad, axiom_enc_octets }
impl VString {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    /// a valid text is kept as it is
    #[verifier::external_body] pub fn from_utf8_lossy<S: AsU8 + ?Sized>(s: &S) -> (r: Self) ensures utf8(s.octets()) ==> r@ == s.octets() { unimplemented!() }
    /// trim_end_matches('\0')
    #[verifier::external_body] pub fn v_trim_end_matches(&self) -> (r: Self) ensures r@ == trim0(self@) { unimplemented!() }
    #[verifier::external_body] pub fn v_to_string(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
// a text as the body of a PDU field is decoded to the empty text (no PDU has one)
impl Wire for VString {
    open spec fn enc(&self, t: Bytes) -> Bytes { enc_list(self@, 0, t) }
    open spec fn size(&self) -> nat { self@.len() }
    open spec fn wf(&self) -> bool { self@.len() == 0 }
    open spec fn same(&self, o: &Self) -> bool { self@ =~= o@ }
    open spec fn rest(s: Bytes) -> Option<Bytes> { Some(s) }
    open spec fn min() -> nat { 0 }
    open spec fn fixed() -> bool { true }
    open spec fn sfix() -> bool { false }
    proof fn lemma_len(&self, t: Bytes) { lemma_list_len(self@, 0, t); lemma_prim_arr_size_u8(self@, 0); }
    proof fn lemma_cat(&self, a: Bytes, b: Bytes) { lemma_list_cat(self@, 0, a, b); }
    proof fn lemma_rest(s: Bytes) { }
}
impl VDefault for VString { open spec fn is_dflt(&self) -> bool { self@.len() == 0 } fn default() -> (r: Self) { VString::new() } }

// ---------------------------------------------------------------- float arithmetic: opaque operations of IEEE 754
pub trait Flt: Sized { spec fn fbits(&self) -> nat; spec fn pick(a: nat, b: nat) -> nat; }
impl Flt for f32 { open spec fn fbits(&self) -> nat { f32_bits(*self) } open spec fn pick(a: nat, b: nat) -> nat { a } }
impl Flt for f64 { open spec fn fbits(&self) -> nat { f64_bits(*self) } open spec fn pick(a: nat, b: nat) -> nat { b } }
pub uninterp spec fn flit<F>(bits: nat) -> F;
pub uninterp spec fn fadd(a: f32, b: f32) -> f32;
pub uninterp spec fn fsub(a: f32, b: f32) -> f32;
pub uninterp spec fn fmul(a: f32, b: f32) -> f32;
pub uninterp spec fn fdiv(a: f32, b: f32) -> f32;
pub uninterp spec fn ffma(a: f32, b: f32, c: f32) -> f32;
pub uninterp spec fn fneg(a: f32) -> f32;
pub uninterp spec fn fsqrt(a: f32) -> f32;
pub uninterp spec fn feq(a: f32, b: f32) -> bool;
pub uninterp spec fn flt(a: f32, b: f32) -> bool;
pub uninterp spec fn fle(a: f32, b: f32) -> bool;
/// ASSUMED (IEEE 754): addition, multiplication and the product of a fused multiply-add commute, a negated factor negates the product, equality is symmetric
#[verifier::external_body] pub broadcast proof fn axiom_fadd(a: f32, b: f32) ensures #[trigger] fadd(a, b) == fadd(b, a) { }
#[verifier::external_body] pub broadcast proof fn axiom_fmul(a: f32, b: f32) ensures #[trigger] fmul(a, b) == fmul(b, a) { }
#[verifier::external_body] pub broadcast proof fn axiom_ffma(a: f32, b: f32, c: f32) ensures #[trigger] ffma(a, b, c) == ffma(b, a, c) { }
#[verifier::external_body] pub broadcast proof fn axiom_feq(a: f32, b: f32) ensures #[trigger] feq(a, b) == feq(b, a) { }
#[verifier::external_body] pub broadcast proof fn axiom_fsub(a: f32, b: f32) ensures #[trigger] fsub(a, b) == fadd(a, fneg(b)) { }
#[verifier::external_body] pub broadcast proof fn axiom_fnegmul(a: f32, b: f32) ensures #[trigger] fmul(fneg(a), b) == fneg(fmul(a, b)) { }
pub broadcast group group_float { axiom_fadd, axiom_fnegmul, axiom_fmul, axiom_ffma, axiom_feq, axiom_fsub }
#[verifier::external_body] pub fn v_flit<F: Flt>(b32: u32, b64: u64) -> (r: F) ensures r == flit::<F>(F::pick(b32 as nat, b64 as nat)), r.fbits() == F::pick(b32 as nat, b64 as nat) { unimplemented!() }
#[verifier::external_body] pub fn v_fadd(a: f32, b: f32) -> (r: f32) ensures r == fadd(a, b) { unimplemented!() }
#[verifier::external_body] pub fn v_fsub(a: f32, b: f32) -> (r: f32) ensures r == fsub(a, b) { unimplemented!() }
#[verifier::external_body] pub fn v_fmul(a: f32, b: f32) -> (r: f32) ensures r == fmul(a, b) { unimplemented!() }
#[verifier::external_body] pub fn v_fdiv(a: f32, b: f32) -> (r: f32) ensures r == fdiv(a, b) { unimplemented!() }
#[verifier::external_body] pub fn v_fneg(a: f32) -> (r: f32) ensures r == fneg(a) { unimplemented!() }
#[verifier::external_body] pub fn v_feq(a: f32, b: f32) -> (r: bool) ensures r == feq(a, b) { unimplemented!() }
#[verifier::external_body] pub fn v_flt(a: f32, b: f32) -> (r: bool) ensures r == flt(a, b) { unimplemented!() }
#[verifier::external_body] pub fn v_fle(a: f32, b: f32) -> (r: bool) ensures r == fle(a, b) { unimplemented!() }
#[verifier::external_body] pub fn v_mul_add(a: f32, b: f32, c: f32) -> (r: f32) ensures r == ffma(a, b, c) { unimplemented!() }
#[verifier::external_body] pub fn v_sqrt(a: f32) -> (r: f32) ensures r == fsqrt(a) { unimplemented!() }

/// the content of a global cell: anything
#[verifier::external_body] pub fn v_any<T>() -> (r: T) { unimplemented!() }

// ---------------------------------------------------------------- the clock (crate chrono)
/// t is the result of a call of calculate_dis_timestamp
pub uninterp spec fn is_now(t: u32) -> bool;
/// a reading of the wall clock; nanosecond() is up to 1 999 999 999 in a leap second
#[derive(Clone, Copy)]
pub struct VTime { pub d: u32, pub h: u32, pub m: u32, pub s: u32, pub n: u32 }
impl VTime {
    pub open spec fn ok(&self) -> bool { self.d < 100_000_000 && self.h < 24 && self.m < 60 && self.s < 60 && self.n < 2_000_000_000 }
    pub fn hour(&self) -> (r: u32) ensures r == self.h { self.h }
    pub fn minute(&self) -> (r: u32) ensures r == self.m { self.m }
    pub fn second(&self) -> (r: u32) ensures r == self.s { self.s }
    pub fn nanosecond(&self) -> (r: u32) ensures r == self.n { self.n }
    pub fn num_seconds_from_midnight(&self) -> (r: u32) requires self.ok() ensures r == (self.h * 60 + self.m) * 60 + self.s { (self.h * 60 + self.m) * 60 + self.s }
    pub fn timestamp_subsec_nanos(&self) -> (r: u32) ensures r == self.n { self.n }
    pub fn timestamp_subsec_micros(&self) -> (r: u32) ensures r == self.n / 1000 { self.n / 1000 }
    pub fn timestamp_subsec_millis(&self) -> (r: u32) ensures r == self.n / 1000000 { self.n / 1000000 }
    /// seconds since 1970 (d days, whole): Utc::now() is never earlier
    pub fn timestamp(&self) -> (r: i64) requires self.ok() ensures r == self.d * 86400 + (self.h * 60 + self.m) * 60 + self.s, r % 3600 == self.m * 60 + self.s, r >= 0 { self.d as i64 * 86400 + ((self.h * 60 + self.m) * 60 + self.s) as i64 }
    pub fn timestamp_millis(&self) -> (r: i64) requires self.ok() ensures r == (self.d * 86400 + (self.h * 60 + self.m) * 60 + self.s) * 1000 + self.n / 1000000, r >= 0 { (self.d as i64 * 86400 + ((self.h * 60 + self.m) * 60 + self.s) as i64) * 1000 + (self.n / 1000000) as i64 }
    pub fn timestamp_micros(&self) -> (r: i64) requires self.ok() ensures r == (self.d * 86400 + (self.h * 60 + self.m) * 60 + self.s) * 1000000 + self.n / 1000, r >= 0 { (self.d as i64 * 86400 + ((self.h * 60 + self.m) * 60 + self.s) as i64) * 1000000 + (self.n / 1000) as i64 }
    pub fn time(&self) -> (r: VTime) ensures r == *self { *self }
}
/// the successive readings of the clock
#[verifier::external_body]
pub struct VClock { x: u8 }
impl VClock {
    pub uninterp spec fn at(&self) -> nat;
    pub uninterp spec fn reading(i: nat) -> VTime;
    #[verifier::external_body] pub fn now(&mut self) -> (r: VTime) ensures r == Self::reading(old(self).at()), r.ok(), final(self).at() == old(self).at() + 1 { unimplemented!() }
}
/// nanoseconds past the hour; a leap second may lie past it
pub open spec fn past_hour(t: VTime) -> int { ((t.m * 60 + t.s) * 1_000_000_000 + t.n) % 3_600_000_000_000 }
/// r counts units of 3600 / 2^31 seconds past the hour, within the rounding of a single-precision computation
/// (128 units: half the distance of single-precision numbers below 2^31 is 64)
pub open spec fn dis_near(r: int, t: VTime) -> bool {
    &&& 0 <= r < 0x8000_0000
    &&& -128 * 3_600_000_000_000 <= r * 3_600_000_000_000 - past_hour(t) * 0x8000_0000 <= 128 * 3_600_000_000_000
}
