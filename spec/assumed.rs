//! The contracts that spec/prelude.rs ASSUMES on crate bytes and on core/alloc, checked by Kani against the
//! real code. Proofs over integers are complete; those over buffers are bounded: at most PRE octets already in
//! the output buffer, at most IN octets of input, and (Chain) one split at any place.
#![allow(unused)]
use bytes::{Buf, BufMut, BytesMut};
const PRE: usize = 2;

/// the n-octet big-endian form (prelude: be)
fn be(n: usize, v: u64, i: usize) -> u8 { (v >> (8 * (n - 1 - i))) as u8 }

macro_rules! put { ($name:ident, $m:ident, $t:ty, $w:expr, $x:ident => $bits:expr) => {
    #[kani::proof] #[kani::unwind(12)]
    fn $name() {
        let pre: [u8; PRE] = kani::any();
        let k: usize = kani::any(); kani::assume(k <= PRE);
        let mut b = BytesMut::new(); b.extend_from_slice(&pre[..k]);
        let $x: $t = kani::any();
        b.$m($x);
        assert!(b.len() == k + $w);
        let v: u64 = $bits;
        for i in 0..PRE { if i < k { assert!(b[i] == pre[i]); } }
        for i in 0..$w { assert!(b[k + i] == be($w, v, i)); }
    }
} }
put!(put_u8, put_u8, u8, 1, x => x as u64);
put!(put_u16, put_u16, u16, 2, x => x as u64);
put!(put_u32, put_u32, u32, 4, x => x as u64);
put!(put_u64, put_u64, u64, 8, x => x);
put!(put_i8, put_i8, i8, 1, x => x as u8 as u64);
put!(put_i16, put_i16, i16, 2, x => x as u16 as u64);
put!(put_i32, put_i32, i32, 4, x => x as u32 as u64);
put!(put_i64, put_i64, i64, 8, x => x as u64);
put!(put_f32, put_f32, f32, 4, x => x.to_bits() as u64);
put!(put_f64, put_f64, f64, 8, x => x.to_bits());

#[kani::proof] #[kani::unwind(8)]
fn put_slice() {
    let pre: [u8; PRE] = kani::any(); let s: [u8; 3] = kani::any();
    let k: usize = kani::any(); kani::assume(k <= PRE); let n: usize = kani::any(); kani::assume(n <= 3);
    let mut b = BytesMut::new(); b.extend_from_slice(&pre[..k]);
    b.put_slice(&s[..n]);
    assert!(b.len() == k + n);
    for i in 0..PRE { if i < k { assert!(b[i] == pre[i]); } }
    for i in 0..3 { if i < n { assert!(b[k + i] == s[i]); } }
}
#[kani::proof] #[kani::unwind(8)]
fn put_bytes() {
    let pre: [u8; PRE] = kani::any(); let v: u8 = kani::any();
    let k: usize = kani::any(); kani::assume(k <= PRE); let n: usize = kani::any(); kani::assume(n <= 3);
    let mut b = BytesMut::new(); b.extend_from_slice(&pre[..k]);
    b.put_bytes(v, n);
    assert!(b.len() == k + n);
    for i in 0..PRE { if i < k { assert!(b[i] == pre[i]); } }
    for i in 0..3 { if i < n { assert!(b[k + i] == v); } }
}

const IN: usize = 10;
macro_rules! get { ($slice:ident, $chain:ident, $m:ident, $t:ty, $w:expr, $r:ident => $bits:expr) => {
    #[kani::proof] #[kani::unwind(12)]
    fn $slice() {
        let a: [u8; IN] = kani::any();
        let n: usize = kani::any(); kani::assume($w <= n && n <= IN);
        let mut s = &a[..n];
        let $r: $t = s.$m();
        let v: u64 = $bits;
        for i in 0..$w { assert!(a[i] == be($w, v, i)); }
        assert!(s.len() == n - $w && s.remaining() == n - $w && s.has_remaining() == (n > $w));
        for i in 0..IN { if i >= $w && i < n { assert!(s[i - $w] == a[i]); } }
    }
    #[kani::proof] #[kani::unwind(12)]
    fn $chain() {
        let a: [u8; IN] = kani::any();
        let n: usize = kani::any(); kani::assume($w <= n && n <= IN);
        let at: usize = kani::any(); kani::assume(at <= n);
        let mut s = (&a[..at]).chain(&a[at..n]);
        let $r: $t = s.$m();
        let v: u64 = $bits;
        for i in 0..$w { assert!(a[i] == be($w, v, i)); }
        assert!(s.remaining() == n - $w && s.has_remaining() == (n > $w));
    }
} }
get!(get_u8, chain_u8, get_u8, u8, 1, r => r as u64);
get!(get_u16, chain_u16, get_u16, u16, 2, r => r as u64);
get!(get_u32, chain_u32, get_u32, u32, 4, r => r as u64);
get!(get_u64, chain_u64, get_u64, u64, 8, r => r);
get!(get_i8, chain_i8, get_i8, i8, 1, r => r as u8 as u64);
get!(get_i16, chain_i16, get_i16, i16, 2, r => r as u16 as u64);
get!(get_i32, chain_i32, get_i32, i32, 4, r => r as u32 as u64);
get!(get_i64, chain_i64, get_i64, i64, 8, r => r as u64);
get!(get_f32, chain_f32, get_f32, f32, 4, r => r.to_bits() as u64);
get!(get_f64, chain_f64, get_f64, f64, 8, r => r.to_bits());

#[kani::proof] #[kani::unwind(8)]
fn copy_to_slice() {
    let a: [u8; 4] = kani::any();
    let n: usize = kani::any(); kani::assume(n <= 4);
    let at: usize = kani::any(); kani::assume(at <= n);
    let k: usize = kani::any(); kani::assume(k <= n);
    let mut d = [0u8; 4];
    let mut s = (&a[..at]).chain(&a[at..n]);
    s.copy_to_slice(&mut d[..k]);
    for i in 0..4 { if i < k { assert!(d[i] == a[i]); } }
    assert!(s.remaining() == n - k);
}
#[kani::proof] #[kani::unwind(8)]
fn advance_chunk() {
    let a: [u8; 4] = kani::any();
    let n: usize = kani::any(); kani::assume(n <= 4);
    let at: usize = kani::any(); kani::assume(at <= n);
    let k: usize = kani::any(); kani::assume(k <= n);
    let mut s = (&a[..at]).chain(&a[at..n]);
    s.advance(k);
    assert!(s.remaining() == n - k && s.has_remaining() == (k < n));
    let c = s.chunk();
    assert!(c.len() <= n - k && (k == n || !c.is_empty()));
    for i in 0..4 { if i < c.len() { assert!(c[i] == a[k + i]); } }
}

// ---- integer conversions: `as` and try_from (prelude: cast_T, try_T)
macro_rules! conv { ($name:ident, $($a:ty => $b:ty, $m:expr);*) => {
    #[kani::proof] fn $name() { $( {
        let x: $a = kani::any(); let r = x as $b;
        let (xi, ri) = (x as i128, r as i128);
        let (lo, hi) = (<$b>::MIN as i128, <$b>::MAX as i128);
        if lo <= xi && xi <= hi { assert!(ri == xi); }
        if lo == 0 { assert!(ri == xi & hi); } else if hi < xi && xi <= 2 * hi + 1 { assert!(ri == xi - 2 * (hi + 1)); }
        match <$b>::try_from(x) { Ok(t) => { assert!(lo <= xi && xi <= hi && t as i128 == xi); } Err(_) => { assert!(xi < lo || xi > hi); } }
    } )* }
} }
macro_rules! all { ($($name:ident $a:ty;)*) => { $( conv!($name, $a => u8, 0; $a => u16, 0; $a => u32, 0; $a => u64, 0; $a => usize, 0; $a => i8, 0; $a => i16, 0; $a => i32, 0; $a => i64, 0; $a => isize, 0); )* } }
all! { conv_u8 u8; conv_u16 u16; conv_u32 u32; conv_u64 u64; conv_usize usize; conv_i8 i8; conv_i16 i16; conv_i32 i32; conv_i64 i64; conv_isize isize; }

#[kani::proof]
fn bits() {
    let x: u32 = kani::any(); assert!(f32::from_bits(x).to_bits() == x);
    let y: u64 = kani::any(); assert!(f64::from_bits(y).to_bits() == y);
    let a: [u8; 2] = kani::any(); let v = u16::from_be_bytes(a) as u64; assert!(a[0] == be(2, v, 0) && a[1] == be(2, v, 1));
    let a: [u8; 4] = kani::any(); let v = u32::from_be_bytes(a) as u64; for i in 0..4 { assert!(a[i] == be(4, v, i)); }
    let a: [u8; 8] = kani::any(); let v = u64::from_be_bytes(a); for i in 0..8 { assert!(a[i] == be(8, v, i)); }
}
#[kani::proof]
fn ceil_div() {
    let a: u8 = kani::any(); let b: u8 = kani::any(); kani::assume(b > 0);
    let q = (a as usize).div_ceil(b as usize);
    assert!(q * b as usize >= a as usize && (q == 0 || (q - 1) * (b as usize) < a as usize));
}
#[kani::proof]
fn arith() {
    let (a, b): (usize, usize) = (kani::any(), kani::any());
    assert!(a.saturating_sub(b) == if a >= b { a - b } else { 0 });
    assert!(a.min(b) == if a <= b { a } else { b } && a.max(b) == if a > b { a } else { b });
}
#[kani::proof]
fn defaults() {
    assert!(u8::default() == 0 && u16::default() == 0 && u32::default() == 0 && u64::default() == 0 && i8::default() == 0 && i16::default() == 0 && i32::default() == 0 && i64::default() == 0);
    assert!(f32::default().to_bits() == 0 && f64::default().to_bits() == 0 && String::default().is_empty() && !bool::default());
}
// ---- f32 identities of group_float, on finite inputs (Kani reports a NaN result of an operation as a failure): equal bits
fn same(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan() }
#[kani::proof] fn fadd() { let (a, b): (f32, f32) = (kani::any(), kani::any()); kani::assume(a.is_finite() && b.is_finite()); assert!(same(a + b, b + a)); assert!((a == b) == (b == a)); }
#[kani::proof] fn fsub() { let (a, b): (f32, f32) = (kani::any(), kani::any()); kani::assume(a.is_finite() && b.is_finite()); assert!(same(a - b, a + (-b))); }
// ---- strings: trailing zeros, octets of text
#[kani::proof] #[kani::unwind(8)]
fn trim() {
    let a: [u8; 3] = kani::any(); kani::assume(a.iter().all(|x| *x < 128));
    let n: usize = kani::any(); kani::assume(n <= 3);
    let s = core::str::from_utf8(&a[..n]).unwrap();
    let t = s.trim_end_matches('\0');
    let mut k = n; while k > 0 && a[k - 1] == 0 { k -= 1; }
    assert!(t.len() == k && t.as_bytes() == &a[..k]);
}
// ---- num_traits::FromPrimitive: what the methods an impl does not define do with a type that defines from_i64 and from_u64
struct N(u64);
impl num_traits::FromPrimitive for N { fn from_i64(n: i64) -> Option<Self> { if n >= 0 { Some(N(n as u64)) } else { None } } fn from_u64(n: u64) -> Option<Self> { if n & 1 == 0 { Some(N(n)) } else { None } } }
#[kani::proof]
fn from_primitive() {
    use num_traits::FromPrimitive;
    let n: u64 = kani::any();
    assert!(N::from_u8(n as u8).map(|x| x.0) == N::from_u64(n as u8 as u64).map(|x| x.0));
    assert!(N::from_u16(n as u16).map(|x| x.0) == N::from_u64(n as u16 as u64).map(|x| x.0));
    assert!(N::from_u32(n as u32).map(|x| x.0) == N::from_u64(n as u32 as u64).map(|x| x.0));
}
