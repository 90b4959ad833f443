// Run-time part of the concrete harness: value generator, reference encoder over the frozen layout,
// observable equality, and the concrete form of each property. It looks for failing inputs of failed
// obligations, and stands in (labelled bounded) for functions outside the verifier's reach.
#![allow(dead_code, unreachable_code, unused_must_use, unused_imports, unused_variables, unused_mut, unused_assignments, non_snake_case, clippy::all, deprecated)]
use bytes::{Buf, BufMut, BytesMut};
use open_dis_rust::common::*;
use open_dis_rust::pdu_macro::*;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct G { s: u64, pub wf: bool, pub depth: u32 }
impl G {
    pub fn new(seed: u64, wf: bool) -> G { let mut g = G { s: seed ^ 0x9E37_79B9_7F4A_7C15, wf, depth: 0 }; for _ in 0..3 { g.u(); } g }
    pub fn u(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.u() % n } }
    /// an integer pattern: all-distinct octets, extremes, small and random numbers
    pub fn int(&mut self) -> u64 {
        match self.below(11) { 8 => BOUND[self.below(BOUND.len() as u64) as usize], 9 | 10 if !DICT.is_empty() => DICT[self.below(DICT.len() as u64) as usize].wrapping_add(self.below(3)).wrapping_sub(1), 0 => 0, 1 => u64::MAX, 2 => self.below(16), 3 => 1 << self.below(64), 4 => 0x8000_0000_0000_0000 | self.below(4) | 0x80 | 0x8000 | 0x8000_0000, _ => self.u() }
    }
    pub fn len(&mut self, w: u64) -> usize {
        let top = if w == 1 { 40 } else { 5 };
        match self.below(20) { 0 | 1 => 0, 2 => 1, 16 if self.depth == 0 => [11, 12, 13, 16, 64, 127, 128, 129, 200, 254, 255, 256, 257][self.below(13) as usize],
            17 if self.depth == 0 && !DICT.is_empty() => { let n = DICT[self.below(DICT.len() as u64) as usize].wrapping_add(self.below(3)).wrapping_sub(1); if n < if w == 1 { 70000 } else { 3000 } { n as usize } else { 2 } }
            3 if self.depth == 0 => 200 + self.below(120) as usize, 4 if self.depth == 0 && w == 1 => if self.below(2) == 0 { 65500 + self.below(80) as usize } else { BOUND[self.below(28) as usize] as usize }, _ => self.below(top) as usize }
    }
    pub fn list<T: X>(&mut self) -> Vec<T> { let n = self.len(T::ELEM); self.listn(n) }
    pub fn listn<T: X>(&mut self, n: usize) -> Vec<T> { self.depth += 1; let v = (0..n).map(|_| T::mk(self)).collect(); self.depth -= 1; v }
    pub fn opt<T: X>(&mut self) -> Option<T> { if self.below(3) == 0 { None } else { Some(T::mk(self)) } }
}
/// numbers at which one-octet and two-octet arithmetic changes, and the size limit
pub const BOUND: &[u64] = &[11, 12, 13, 127, 128, 129, 200, 254, 255, 256, 257, 1023, 1024, 4095, 4096, 8179, 8180, 8181, 8191, 8192, 8193, 32767, 32768, 65523, 65524, 65535, 65536, 65537, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff];
pub trait X: Sized {
    const ELEM: u64 = 8;
    fn mk(g: &mut G) -> Self;
    fn enc(&self, o: &mut Vec<u8>);
    fn eqv(&self, o: &Self) -> bool;
    fn isd(&self) -> bool { true }
    /// octets that decoding takes from s, None if s is too short
    fn used(s: &[u8]) -> Option<usize>;
    fn fix(&mut self) { }
    /// decodable only at the end of the buffer
    fn last(&self) -> bool { false }
    /// what serialize writes into the value itself
    fn stampfix(&mut self) { }
}
pub fn num(s: &[u8], at: usize, w: usize) -> u64 { let mut v = 0; for i in 0..w { v = v << 8 | s[at + i] as u64; } v }
pub fn take(s: &[u8], at: usize, n: usize) -> Option<usize> { if s.len() >= at && s.len() - at >= n { Some(at + n) } else { None } }
pub fn take_list<T: X>(s: &[u8], at: usize, n: u64) -> Option<usize> {
    let mut p = at;
    for _ in 0..n { p += T::used(&s[p..])?; }
    Some(p)
}
macro_rules! xi { ($($t:ty),*) => { $(impl X for $t {
    const ELEM: u64 = std::mem::size_of::<$t>() as u64;
    fn mk(g: &mut G) -> Self { g.int() as $t }
    fn enc(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.to_be_bytes()); }
    fn eqv(&self, o: &Self) -> bool { self == o }
    fn isd(&self) -> bool { *self == 0 }
    fn used(s: &[u8]) -> Option<usize> { take(s, 0, std::mem::size_of::<$t>()) }
})* } }
xi!(u8, u16, u32, u64, i8, i16, i32, i64);
macro_rules! xf { ($($t:ty, $b:ty);*) => { $(impl X for $t {
    fn mk(g: &mut G) -> Self { if g.below(2) == 0 { <$t>::from_bits(g.int() as $b) } else { (g.int() as i16) as $t / 8.0 } }
    fn enc(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.to_bits().to_be_bytes()); }
    fn eqv(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() }
    fn isd(&self) -> bool { self.to_bits() == 0 }
    fn used(s: &[u8]) -> Option<usize> { take(s, 0, std::mem::size_of::<$t>()) }
})* } }
xf!(f32, u32; f64, u64);
impl<T: X, const N: usize> X for [T; N] {
    fn mk(g: &mut G) -> Self { std::array::from_fn(|_| T::mk(g)) }
    fn enc(&self, o: &mut Vec<u8>) { for x in self { x.enc(o); } }
    fn eqv(&self, o: &Self) -> bool { self.iter().zip(o.iter()).all(|(a, b)| a.eqv(b)) }
    fn isd(&self) -> bool { self.iter().all(|x| x.isd()) }
    fn used(s: &[u8]) -> Option<usize> { take_list::<T>(s, 0, N as u64) }
}
/// a list without a count is decoded to the empty list
impl<T: X> X for Vec<T> {
    fn mk(g: &mut G) -> Self { if g.wf { vec![] } else { g.list() } }
    fn enc(&self, o: &mut Vec<u8>) { for x in self { x.enc(o); } }
    fn eqv(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a.eqv(b)) }
    fn isd(&self) -> bool { self.is_empty() }
    fn used(s: &[u8]) -> Option<usize> { Some(0) }
}
impl<T: X> X for Option<T> {
    fn mk(g: &mut G) -> Self { if g.wf { None } else { g.opt() } }
    fn enc(&self, o: &mut Vec<u8>) { if let Some(x) = self { x.enc(o); } }
    fn eqv(&self, o: &Self) -> bool { match (self, o) { (None, None) => true, (Some(a), Some(b)) => a.eqv(b), _ => false } }
    fn isd(&self) -> bool { self.is_none() }
    fn used(s: &[u8]) -> Option<usize> { Some(0) }
}
impl X for String {
    fn mk(g: &mut G) -> Self {
        let n = if g.wf { g.below(12) } else { g.below(16) } as usize;
        let mut s = String::new();
        for _ in 0..n {
            let c = if !g.wf && g.below(10) == 0 { ['é', '€', '\u{1F600}', '\0'][g.below(4) as usize] } else { (b' ' + g.below(95) as u8) as char };
            s.push(c);
        }
        s
    }
    fn enc(&self, o: &mut Vec<u8>) { o.extend_from_slice(self.as_bytes()); }
    fn eqv(&self, o: &Self) -> bool { self == o }
    fn isd(&self) -> bool { self.is_empty() }
    fn used(s: &[u8]) -> Option<usize> { Some(0) }
}
impl X for PduStatusRecord {
    fn mk(g: &mut G) -> Self { PduStatusRecord::from_u8(g.u() as u8) }
    fn enc(&self, o: &mut Vec<u8>) { o.push(self.to_u8()); }
    fn eqv(&self, o: &Self) -> bool { self.to_u8() == o.to_u8() }
    fn isd(&self) -> bool { self.to_u8() == 0 }
    fn used(s: &[u8]) -> Option<usize> { take(s, 0, 1) }
}
use open_dis_rust::common::pdu_header::PduStatusRecord;
pub fn be_w(o: &mut Vec<u8>, w: usize, v: u64) { o.extend_from_slice(&v.to_be_bytes()[8 - w..]); }

// ---------------------------------------------------------------- records with a hand-written layout
use open_dis_rust::common::data_types::{entity_marking::*, datum_records::*, antenna_pattern::*, modulation_parameters::*, grid_axis_descriptor::*, grid_data_record::*};
impl X for EntityMarking {
    fn mk(g: &mut G) -> Self { EntityMarking { entity_marking_character_set: X::mk(g), entity_marking_string: X::mk(g) } }
    fn enc(&self, o: &mut Vec<u8>) { self.entity_marking_character_set.enc(o); let b = self.entity_marking_string.as_bytes(); for i in 0..11 { o.push(*b.get(i).unwrap_or(&0)); } }
    fn eqv(&self, o: &Self) -> bool { self.entity_marking_character_set.eqv(&o.entity_marking_character_set) && self.entity_marking_string == o.entity_marking_string }
    fn isd(&self) -> bool { self.entity_marking_character_set.isd() && self.entity_marking_string.is_empty() }
    fn used(s: &[u8]) -> Option<usize> { take(s, 0, 12) }
    fn fix(&mut self) { while self.entity_marking_string.len() > 11 || self.entity_marking_string.ends_with('\0') { self.entity_marking_string.pop(); } }
}
fn vpad(bits: u32) -> usize { ((64 - bits as usize % 64) % 64) / 8 }
impl X for VariableDatumRecord {
    fn mk(g: &mut G) -> Self {
        let id = X::mk(g);
        let value: Vec<u8> = if g.depth == 0 && g.below(8) == 0 { g.listn(8190) } else { let n = g.below(40) as usize; g.listn(n) };
        let bits = if g.wf { let k = value.len() as u32 * 8; if k == 0 { 0 } else { k - g.below(8) as u32 } } else { g.int() as u32 };
        VariableDatumRecord { datum_id: id, length_bits: bits, value }
    }
    fn enc(&self, o: &mut Vec<u8>) { self.datum_id.enc(o); self.length_bits.enc(o); self.value.enc(o); for _ in 0..vpad(self.length_bits) { o.push(0); } }
    fn eqv(&self, o: &Self) -> bool { self.datum_id == o.datum_id && self.length_bits == o.length_bits && self.value == o.value }
    fn isd(&self) -> bool { self.datum_id == 0 && self.length_bits == 0 && self.value.is_empty() }
    fn used(s: &[u8]) -> Option<usize> { let p = take(s, 0, 8)?; let b = num(s, 4, 4) as u32; take(s, p, (b as usize + 7) / 8 + vpad(b)) }
}
/// contents of a list field that only Debug shows
pub fn dbg_bytes(x: &impl std::fmt::Debug) -> Vec<u8> {
    let t = format!("{x:?}");
    let (Some(a), Some(b)) = (t.find('['), t.rfind(']')) else { return vec![] };
    t[a + 1..b].split(',').filter_map(|n| n.trim().parse().ok()).collect()
}
macro_rules! xblob { ($t:ident) => { impl X for $t {
    fn mk(g: &mut G) -> Self { let n = if g.wf { 0 } else { g.below(300) as usize }; if n == 0 || n > 255 { return <$t>::new(); } let v: Vec<u8> = g.listn(n); <$t as FieldDeserializeWithLen>::deserialize_with_len(&mut &v[..], n) }
    fn enc(&self, o: &mut Vec<u8>) { o.extend(dbg_bytes(self)); }
    fn eqv(&self, o: &Self) -> bool { dbg_bytes(self) == dbg_bytes(o) }
    fn isd(&self) -> bool { dbg_bytes(self).is_empty() }
    fn used(s: &[u8]) -> Option<usize> { Some(0) }
} } }
xblob!(AntennaPattern);
xblob!(ModulationParameters);
/// a value for a field whose octet count another field of one octet holds
pub fn gen_lenby<T: X>(g: &mut G) -> Option<T> {
    if !g.wf { return g.opt(); }
    if g.below(2) == 0 { return None; }
    g.wf = false;
    let mut r = None;
    for _ in 0..20 { let x = T::mk(g); let mut o = vec![]; x.enc(&mut o); if (1..256).contains(&o.len()) { r = Some(x); break; } }
    g.wf = true;
    r
}
impl X for GridAxisType {
    fn mk(g: &mut G) -> Self {
        if g.wf && g.below(2) == 0 { let n = g.below(5) as usize; return GridAxisType::VariableSpacing { number_of_points_on_x_axis: n as u16, initial_index: X::mk(g), coordinate_scale_x: X::mk(g), coordinate_offset_x: X::mk(g), x_values: g.listn(n), padding: g.list() }; }
        if g.wf || g.below(2) == 0 { GridAxisType::FixedSpacing { number_of_points_on_x_axis: X::mk(g), initial_index: X::mk(g) } }
        else { GridAxisType::VariableSpacing { number_of_points_on_x_axis: X::mk(g), initial_index: X::mk(g), coordinate_scale_x: X::mk(g), coordinate_offset_x: X::mk(g), x_values: g.list(), padding: g.list() } }
    }
    fn enc(&self, o: &mut Vec<u8>) { match self {
        GridAxisType::FixedSpacing { number_of_points_on_x_axis, initial_index } => { number_of_points_on_x_axis.enc(o); initial_index.enc(o); }
        GridAxisType::VariableSpacing { number_of_points_on_x_axis, initial_index, coordinate_scale_x, coordinate_offset_x, x_values, padding } => {
            number_of_points_on_x_axis.enc(o); initial_index.enc(o); coordinate_scale_x.enc(o); coordinate_offset_x.enc(o); x_values.enc(o); padding.enc(o); }
    } }
    fn eqv(&self, o: &Self) -> bool { let (mut a, mut b) = (vec![], vec![]); self.enc(&mut a); o.enc(&mut b); std::mem::discriminant(self) == std::mem::discriminant(o) && a == b }
    fn used(s: &[u8]) -> Option<usize> { None }
}
impl X for GridAxisDescriptor {
    fn mk(g: &mut G) -> Self {
        let mut r = GridAxisDescriptor { domain_initial: X::mk(g), domain_final: X::mk(g), domain_points: X::mk(g), interleaf_factor: X::mk(g), axis_type: X::mk(g), data: X::mk(g) };
        if g.wf { r.axis_type = if r.last() { open_dis_rust::common::enums::GridAxisDescriptorAxisType::IrregularAxis } else { open_dis_rust::common::enums::GridAxisDescriptorAxisType::RegularAxis }; }
        r
    }
    fn last(&self) -> bool { matches!(self.data, GridAxisType::VariableSpacing { .. }) }
    fn enc(&self, o: &mut Vec<u8>) { self.domain_initial.enc(o); self.domain_final.enc(o); self.domain_points.enc(o); self.interleaf_factor.enc(o); self.axis_type.enc(o); self.data.enc(o); }
    fn eqv(&self, o: &Self) -> bool { self.domain_initial.eqv(&o.domain_initial) && self.domain_final.eqv(&o.domain_final) && self.domain_points == o.domain_points && self.interleaf_factor == o.interleaf_factor && self.axis_type.eqv(&o.axis_type) && self.data.eqv(&o.data) }
    fn used(s: &[u8]) -> Option<usize> {
        take(s, 0, 24)?;
        if s[19] != 1 { return Some(24); }
        let p = take(s, 0, 40)?;
        take(s, p, num(s, 20, 2) as usize * 2)?;
        Some(s.len())
    }
}
impl X for DataRepresentationType {
    fn mk(g: &mut G) -> Self {
        if g.wf { let n = g.below(6) as usize; match g.below(4) {
            0 => return DataRepresentationType::Type0 { number_of_octets: n as u16, data_values: g.listn(n), padding: g.list() },
            1 => return DataRepresentationType::Type1 { field_scale: X::mk(g), field_offset: X::mk(g), number_of_values: n as u16, data_values: g.listn(n), padding: g.list() },
            _ => {} }
            return DataRepresentationType::Type2 { number_of_values: n as u16, padding: X::mk(g), data_values: g.listn(n) }; }
        match g.below(3) {
            0 => DataRepresentationType::Type0 { number_of_octets: X::mk(g), data_values: g.list(), padding: g.list() },
            1 => DataRepresentationType::Type1 { field_scale: X::mk(g), field_offset: X::mk(g), number_of_values: X::mk(g), data_values: g.list(), padding: g.list() },
            _ => DataRepresentationType::Type2 { number_of_values: X::mk(g), padding: X::mk(g), data_values: g.list() },
        }
    }
    fn enc(&self, o: &mut Vec<u8>) { match self {
        DataRepresentationType::Type0 { number_of_octets, data_values, padding } => { number_of_octets.enc(o); data_values.enc(o); padding.enc(o); }
        DataRepresentationType::Type1 { field_scale, field_offset, number_of_values, data_values, padding } => { field_scale.enc(o); field_offset.enc(o); number_of_values.enc(o); data_values.enc(o); padding.enc(o); }
        DataRepresentationType::Type2 { number_of_values, padding, data_values } => { number_of_values.enc(o); padding.enc(o); data_values.enc(o); }
    } }
    fn eqv(&self, o: &Self) -> bool { let (mut a, mut b) = (vec![], vec![]); self.enc(&mut a); o.enc(&mut b); std::mem::discriminant(self) == std::mem::discriminant(o) && a == b }
    fn used(s: &[u8]) -> Option<usize> { None }
}
impl X for GridDataRecord {
    fn mk(g: &mut G) -> Self {
        let mut r = GridDataRecord { sample_type: X::mk(g), data_representation: X::mk(g), data: X::mk(g) };
        if g.wf { use open_dis_rust::common::enums::GriddedDataDataRepresentation as R; r.data_representation = match r.data { DataRepresentationType::Type0 { .. } => R::Type0, DataRepresentationType::Type1 { .. } => R::Type1, _ => R::Type2 }; }
        r
    }
    fn last(&self) -> bool { !matches!(self.data, DataRepresentationType::Type2 { .. }) }
    fn enc(&self, o: &mut Vec<u8>) { self.sample_type.enc(o); self.data_representation.enc(o); self.data.enc(o); }
    fn eqv(&self, o: &Self) -> bool { self.sample_type.eqv(&o.sample_type) && self.data_representation.eqv(&o.data_representation) && self.data.eqv(&o.data) }
    fn used(s: &[u8]) -> Option<usize> {
        take(s, 0, 6)?;
        match num(s, 2, 2) {
            1 => { take(s, 0, 14)?; take(s, 14, 2 * num(s, 12, 2) as usize)?; Some(s.len()) }
            2 => take(s, 8.min(s.len() + 1), 4 * num(s, 4, 2) as usize),
            _ => { take(s, 6, num(s, 4, 2) as usize)?; Some(s.len()) }
        }
    }
}

// ---------------------------------------------------------------- reporting
pub struct Cx { pub seed: u64, pub iters: u64, pub only: Vec<String>, pub props: Vec<String>, pub seen: HashMap<(String, String), u64>, pub n: u64, pub types: u64 }
pub fn hex(b: &[u8]) -> String { let k = b.len().min(400); b[..k].iter().map(|x| format!("{x:02x}")).collect::<String>() + if k < b.len() { "..." } else { "" } }
impl Cx {
    pub fn wants(&mut self, name: &str) -> bool { let r = self.only.is_empty() || self.only.iter().any(|x| x == name); if r { self.types += 1; } r }
    pub fn fail(&mut self, prop: &str, ty: &str, what: &str, input: &str) {
        if !self.props.is_empty() && !self.props.iter().any(|p| p == prop) { return; }
        let c = self.seen.entry((prop.into(), ty.into())).or_insert(0);
        *c += 1;
        if *c <= 2 { println!("FAIL\t{prop}\t{ty}\t{}\t{input}", what.replace(['\n', '\t'], " ")); }
    }
}
pub fn sub(seed: u64, name: &str, it: u64) -> u64 { let mut h = seed ^ 0xcbf2_9ce4_8422_2325; for b in name.bytes() { h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3); } h.wrapping_add(it.wrapping_mul(0x9E37_79B9_7F4A_7C15)) }
thread_local! { pub static LAST: std::cell::RefCell<String> = Default::default(); }
pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| l.borrow().clone()))
}
fn diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("emitted {} octets, layout says {}; first difference at octet {i}: {:?} / {:?}", a.len(), b.len(), a.get(i), b.get(i))
}

// ---------------------------------------------------------------- records, enumerations, primitives
/// what the output buffer holds before: mostly a few octets, sometimes as many as make any limit on the buffer's own length show
fn prefill(g: &mut G, it: u64) -> Vec<u8> {
    let n = match it % 8 { 3 => [65535, 65534, 65536, 65520, 65500, 70000][g.below(6) as usize], 6 => [8180, 8191, 8192, 8193, 8000, 4096, 1500, 1400, 255, 256][g.below(10) as usize], _ => g.below(5) as usize };
    (0..n).map(|_| g.u() as u8).collect()
}
/// a buffer with those octets in it and some spare room, or none
fn outbuf(g: &mut G, pre: &[u8]) -> BytesMut {
    let mut b = BytesMut::with_capacity(pre.len() + [0, 0, 12, 64, 9000, 70000][g.below(6) as usize]);
    b.extend_from_slice(pre); b
}
pub type Ch<'a> = bytes::buf::Chain<&'a [u8], &'a [u8]>;
pub struct Ops<T> {
    pub ser: Vec<(&'static str, fn(&T, &mut BytesMut))>,
    pub de: Vec<(&'static str, fn(&mut &[u8]) -> T, fn(&mut Ch) -> T)>,
    pub dewl: Option<(fn(&mut &[u8], usize) -> Option<T>, usize)>,
    pub flen: Option<fn(&T) -> usize>,
    pub length: Option<usize>,
    pub layout: &'static [&'static str],
    pub back: &'static [&'static str],
    pub lens: &'static str,
    pub again: bool, // no hand-written layout inside
    pub dflt: Option<fn() -> T>, pub min: usize,
}
pub fn rec<T: X + std::fmt::Debug>(cx: &mut Cx, name: &str, o: &Ops<T>) {
    if !cx.wants(name) { return; }
    for it in 0..cx.iters {
        cx.n += 1;
        let seed = sub(cx.seed, name, it);
        let inp = format!("seed={seed:#x}");
        let mut g = G::new(seed, false);
        let x = T::mk(&mut g);
        let mut want = vec![]; x.enc(&mut want);
        let pre = prefill(&mut g, it as u64);
        for (sn, ser) in &o.ser {
            let mut b = outbuf(&mut g, &pre);
            if let Err(p) = quiet(|| ser(&x, &mut b)) { cx.fail(o.lens, name, &format!("{sn} panics: {p}"), &format!("{inp} value={}", hex(&want))); continue; }
            if !b.starts_with(&pre) { cx.fail(o.lens, name, &format!("{sn} alters octets already in the buffer"), &inp); continue; }
            let got = &b[pre.len()..];
            if got != &want[..] { for p in o.layout { cx.fail(p, name, &format!("{sn}: {}", diff(got, &want)), &format!("{inp} value={} emitted={}", hex(&want), hex(got))); } }
            if let Some(f) = o.flen { match quiet(|| f(&x)) {
                Err(p) => cx.fail(o.lens, name, &format!("field_len panics: {p}"), &format!("{inp} value={}", hex(&want))),
                Ok(n) => if n != got.len() { cx.fail(o.lens, name, &format!("field_len = {n}, {sn} emits {} octets", got.len()), &format!("{inp} value={}", hex(&want))) }
            } }
            if let Some(n) = o.length { if n != got.len() { cx.fail(o.lens, name, &format!("LENGTH = {n}, {sn} emits {} octets", got.len()), &format!("{inp} value={}", hex(&want))) } }
        }
        // round trip
        let mut g = G::new(seed, true);
        let mut x = T::mk(&mut g); x.fix();
        let mut tail: Vec<u8> = (0..g.below(7)).map(|_| g.u() as u8).collect();
        if x.last() { tail.clear(); }
        for (sn, ser) in &o.ser {
            let mut b = BytesMut::new();
            if quiet(|| ser(&x, &mut b)).is_err() { continue; }
            let n = b.len();
            let hx = hex(&b);
            b.extend_from_slice(&tail);
            let v = b.to_vec();
            for (dn, ds, dc) in &o.de {
                let mut s = &v[..];
                match quiet(|| ds(&mut s)) {
                    Err(p) => { for q in o.back { cx.fail(q, name, &format!("{dn} of {sn} panics: {p}"), &format!("octets={hx}")); } cx.fail("C11", name, &format!("{dn} of {sn} panics: {p}"), &format!("octets={hx}")); }
                    Ok(y) => {
                        let mut e = vec![]; y.enc(&mut e);
                        if !y.eqv(&x) { for q in o.back { cx.fail(q, name, &format!("{dn} of {sn} gives another value"), &format!("octets={hx} decoded={}", hex(&e))); } }
                        else if s != &tail[..] { for q in o.back { cx.fail(q, name, &format!("{dn} of {sn} leaves {} octets of {}", s.len(), tail.len()), &format!("octets={hx} followed by {}", hex(&tail))); } }
                    }
                }
                let at = g.below(v.len() as u64 + 1) as usize;
                let mut c = (&v[..at]).chain(&v[at..]);
                match quiet(|| dc(&mut c)) {
                    Err(p) => { for q in o.back { cx.fail(q, name, &format!("{dn} of {sn} from a buffer in two pieces panics: {p}"), &format!("octets={hx} split at {at}")); } cx.fail("C11", name, &format!("{dn} from a buffer in two pieces panics: {p}"), &format!("octets={hx} split at {at}")); }
                    Ok(y) => if !y.eqv(&x) || c.remaining() != tail.len() { for q in o.back { cx.fail(q, name, &format!("{dn} of {sn} from a buffer in two pieces gives another value"), &format!("octets={hx} split at {at}")); } }
                }
            }
        }
        if let Some((dl, max)) = &o.dewl {
            {
                // n octets are kept as they are
                let mut g = G::new(seed ^ 5, false);
                let n = match it { 0..=300 => it as usize, _ => g.len(1) }.min(*max).min(3000);
                let v: Vec<u8> = (0..n).map(|_| g.u() as u8).chain(tail.iter().copied()).collect();
                let mut s = &v[..];
                match quiet(|| dl(&mut s, n)) {
                    Err(p) => for q in ["C03", "C11"] { cx.fail(q, name, &format!("decoding {n} octets panics: {p}"), &format!("octets={}", hex(&v))) },
                    Ok(y) => {
                        let mut e = vec![]; if let Some(y) = &y { y.enc(&mut e); }
                        if e != v[..n] || y.is_some() != (n > 0) { cx.fail("C03", name, &format!("decoding {n} octets gives a record of {}", e.len()), &format!("octets={}", hex(&v))); }
                        else if s != &tail[..] { for q in ["C03", "C11"] { cx.fail(q, name, &format!("decoding {n} octets leaves {} of {} octets", s.len(), tail.len()), &format!("octets={}", hex(&v))); } }
                    }
                }
            }
            let mut g = G::new(seed, false);
            let x = T::mk(&mut g);
            for (sn, ser) in &o.ser {
                let mut b = BytesMut::new();
                if quiet(|| ser(&x, &mut b)).is_err() || b.len() > *max { continue; }
                let n = b.len();
                let hx = hex(&b);
                b.extend_from_slice(&tail);
                let v = b.to_vec();
                let mut s = &v[..];
                match quiet(|| dl(&mut s, n)) {
                    Err(p) => { cx.fail("C03", name, &format!("decoding {n} octets panics: {p}"), &format!("octets={hx}")); cx.fail("C11", name, &format!("decoding {n} octets panics: {p}"), &format!("octets={hx}")); }
                    Ok(y) => {
                        let ok = match &y { Some(y) => y.eqv(&x), None => n == 0 };
                        if !ok || s != &tail[..] { cx.fail("C03", name, "decoding gives another value", &format!("octets={hx}")); }
                    }
                }
            }
        }
        // any octets
        let mut g = G::new(seed ^ 77, false);
        let n = g.below(if it % 7 == 0 { 700 } else { 130 }) as usize;
        let dense = g.below(3);
        let mut v: Vec<u8> = (0..n).map(|_| if dense == 0 { g.u() as u8 } else if g.below(4) == 0 { g.below(6) as u8 } else { 0 }).collect();
        if it % 5 == 4 {
            // an encoding with one octet changed
            let mut g2 = G::new(seed, true); g2.depth = 1; let mut x = T::mk(&mut g2); x.fix(); v.clear(); x.enc(&mut v);
            if !v.is_empty() { let i = g.below(v.len() as u64) as usize; v[i] = g.int() as u8; }
        }
        if let Some(n) = T::used(&v) {
            for (dn, ds, dc) in &o.de {
                let mut s = &v[..];
                match quiet(|| ds(&mut s)) {
                    Err(p) => cx.fail("C11", name, &format!("{dn} panics on complete input: {p}"), &format!("octets={}", hex(&v))),
                    Ok(y) => if s.len() == v.len() - n { if o.again { for (sn, ser) in &o.ser {
                        let mut b = BytesMut::new();
                        if quiet(|| ser(&y, &mut b)).is_err() { continue; }
                        let mut s = &b[..];
                        match quiet(|| ds(&mut s)) {
                            Ok(z) => if format!("{y:?}") != format!("{z:?}") || !s.is_empty() { for q in o.back { cx.fail(q, name, &format!("{dn} of {sn} gives another value"), &format!("value decoded from octets={} encoded={}", hex(&v[..n]), hex(&b))); } },
                            Err(p) => for q in o.back { cx.fail(q, name, &format!("{dn} of {sn} panics: {p}"), &format!("value decoded from octets={} encoded={}", hex(&v[..n]), hex(&b))); }
                        }
                    } } } else { cx.fail("C11", name, &format!("{dn} takes {} octets, {} make up the record", v.len() - s.len(), n), &format!("octets={}", hex(&v))); for q in o.back { cx.fail(q, name, &format!("{dn} takes {} octets, {} make up the record", v.len() - s.len(), n), &format!("octets={}", hex(&v))); } }
                }
                // nothing beyond the record is needed
                let mut s = &v[..n];
                if let Err(p) = quiet(|| ds(&mut s)) { cx.fail("C11", name, &format!("{dn} reads past the end of complete input: {p}"), &format!("octets={}", hex(&v[..n]))); }
            }
        }
    }
}
pub fn rec_dflt<T: X + std::fmt::Debug>(cx: &mut Cx, name: &str, o: &Ops<T>) {
    if !cx.wants(name) { return; }
    if let Some(f) = o.dflt {
        let x = f(); let mut e = vec![]; x.enc(&mut e);
        if !x.isd() { cx.fail("C12", name, &format!("default gives a field other than its default: {x:?}"), "default()"); }
        if e.len() != o.min { cx.fail("C12", name, &format!("the default takes {} octets, the minimum is {}", e.len(), o.min), "default()"); }
    }
}
/// one enumeration: frozen codes, default, width
pub fn enumeration<T: X + Copy>(cx: &mut Cx, name: &str, w: usize, table: &[(&str, T, i64)], dflt: i64, num_: fn(T) -> i64, de: fn(&mut &[u8]) -> T, de2: Option<fn(&mut &[u8]) -> T>, def: Option<fn() -> T>, ser: Option<fn(&T, &mut BytesMut)>, flen: Option<fn(&T) -> usize>) {
    if !cx.wants(name) { return; }
    for (n, v, c) in table {
        cx.n += 1;
        if num_(*v) != *c { cx.fail("C05", name, &format!("{n} has code {}, the table says {c}", num_(*v)), &format!("{name}::{n}")); }
        let mut b = vec![]; be_w(&mut b, w, *c as u64);
        let mut em = w;
        if let Some(f) = ser { let mut o = BytesMut::new(); match quiet(|| f(v, &mut o)) { Err(p) => for q in ["C05", "C04"] { cx.fail(q, name, &format!("encoding {n} panics: {p}"), n) }, Ok(()) => { em = o.len(); if o[..] != b[..] { cx.fail("C05", name, &format!("{n} encodes to {}, its code is {c}", hex(&o)), n) } } } }
        if let Some(f) = flen { match quiet(|| f(v)) { Err(p) => cx.fail("C04", name, &format!("field_len panics: {p}"), n), Ok(k) => if k != em { cx.fail("C04", name, &format!("field_len = {k} for {em} octets"), n) } } }
        if let Some(f) = de2 { let mut s = &b[..]; match quiet(|| f(&mut s)) { Err(p) => cx.fail("C05", name, &format!("decoding code {c} panics: {p}"), n), Ok(y) => if num_(y) != *c || !s.is_empty() { cx.fail("C05", name, &format!("code {c} of {n} decodes to code {}, {} octets left", num_(y), s.len()), &format!("octets={}", hex(&b))) } } }
        let mut s = &b[..];
        match quiet(|| de(&mut s)) {
            Err(p) => cx.fail("C05", name, &format!("decoding code {c} panics: {p}"), &format!("octets={}", hex(&b))),
            Ok(y) => if num_(y) != *c || !s.is_empty() { cx.fail("C05", name, &format!("code {c} of {n} decodes to code {}, {} octets left", num_(y), s.len()), &format!("octets={}", hex(&b))) }
        }
    }
    let cur: std::collections::HashSet<i64> = table.iter().map(|t| num_(t.1)).collect();
    let mut g = G::new(cx.seed ^ 5, false);
    let mut codes: Vec<u64> = vec![];
    if w <= 2 { codes.extend(0..1u64 << (8 * w)); } else {
        for c in &cur { codes.push((*c as u64).wrapping_add(1)); codes.push((*c as u64).wrapping_sub(1)); codes.push(*c as u64 | 1 << 31); codes.push(*c as u64 | 1 << 16); }
        for _ in 0..cx.iters { codes.push(g.int()); }
    }
    for c in codes {
        let c = c & (u64::MAX >> (64 - 8 * w));
        cx.n += 1;
        let mut b = vec![]; be_w(&mut b, w, c); b.push(0xA5);
        let mut s = &b[..];
        let want = |y: i64| if cur.contains(&(c as i64)) { y == c as i64 } else { y == dflt || (y == c as i64) };
        match quiet(|| de(&mut s)) {
            Err(p) => cx.fail("C05", name, &format!("decoding code {c} panics: {p}"), &format!("octets={}", hex(&b))),
            Ok(y) => if !want(num_(y)) || s.len() != 1 { cx.fail("C05", name, &format!("code {c} decodes to code {}, {} octets left of 1", num_(y), s.len()), &format!("octets={}", hex(&b))) }
        }
    }
    if let Some(f) = def { if num_(f()) != dflt { cx.fail("C05", name, &format!("default has code {}, expected {dflt}", num_(f())), name); } }
}

// ---------------------------------------------------------------- PDUs
pub struct POps<P, H> {
    pub hdr: fn(&P) -> &H, pub hdr_mut: fn(&mut P) -> &mut H,
    pub stamped: fn(&H) -> (i64, i64, u16), // type, family, length
    pub stamp: fn(&mut H, u16),            // what serialize has to write
    pub new: Option<fn() -> P>, pub dflt: fn() -> P,
    pub ty: i64, pub fam: i64, pub min: usize, pub fixed: bool,
    pub grow: Option<(fn(&mut P, usize), usize)>, // put n elements in the first list; octets per element
    pub other: fn(&mut H, i64), pub hdrdflt: fn(&H) -> bool,
    pub again: bool,
    pub splice: Option<fn(&P, &mut Vec<u8>, &[u8])>, // the body with these octets for the counted field
}
pub fn pdu<P, H>(cx: &mut Cx, name: &str, o: &POps<P, H>) where P: X + std::fmt::Debug + Pdu<Header = H>, H: X + Copy + GenericHeader + Default {
    if !cx.wants(name) { return; }
    let mk = |seed: u64, wf: bool| { let mut g = G::new(seed, wf); let mut x = P::mk(&mut g); if wf { x.fix(); } x };
    let size = |p: &P| { let mut e = vec![]; p.enc(&mut e); 12 + e.len() };
    for it in 0..cx.iters.max(40) / 2 {
        cx.n += 1;
        let seed = sub(cx.seed, name, it);
        let inp = format!("seed={seed:#x}");
        let mut g = G::new(seed ^ 3, false);
        let mut x = mk(seed, false);
        if it % 4 != 0 {
            let mut h: H = X::mk(&mut g); if it % 4 == 2 { (o.other)(&mut h, o.ty); }
            *(o.hdr_mut)(&mut x) = h;
        }
        let h0 = *(o.hdr)(&x);
        let inp = format!("{inp} header before={}", { let mut e = vec![]; h0.enc(&mut e); hex(&e) });
        let mut y = mk(seed, false); y.stampfix(); // what serialize may touch
        let mut body = vec![]; y.enc(&mut body);
        let n = 12 + body.len();
        let pre = prefill(&mut g, it as u64);
        let len = quiet(|| x.calculate_length());
        check_len(cx, name, n, &len, &inp);
        let mut b = outbuf(&mut g, &pre);
        let r = quiet(|| x.serialize(&mut b));
        let r = match r { Err(p) => { for q in ["C01", "C10"] { cx.fail(q, name, &format!("serialize panics: {p}"), &inp); } continue; } Ok(r) => r };
        let inp = if pre.len() > 5 { format!("{inp} buffer holding {} octets before", pre.len()) } else { inp };
        if !b.starts_with(&pre) { cx.fail("C01", name, "serialize alters octets already in the buffer", &inp); continue; }
        let got = b[pre.len()..].to_vec();
        let mut want_h = h0; (o.stamp)(&mut want_h, if n <= 8192 { n as u16 } else { (o.stamped)(&h0).2 });
        let h1 = *(o.hdr)(&x);
        match &r {
            Ok(()) => {
                if n > 8192 { cx.fail("C10", name, &format!("serialize accepts {n} octets"), &inp); continue; }
                if got.len() != (o.stamped)(&h1).2 as usize { cx.fail("C01", name, &format!("header length {} for {} octets emitted", (o.stamped)(&h1).2, got.len()), &inp); }
                if let Ok(Ok(l)) = &len { if *l as usize != got.len() { cx.fail("C01", name, &format!("calculate_length = {l}, {} octets emitted", got.len()), &inp); } }
                if got.len() >= 12 && num(&got, 8, 2) as usize != got.len() { cx.fail("C01", name, &format!("length octets say {}, {} octets emitted", num(&got, 8, 2), got.len()), &inp); }
                let mut hb = vec![]; want_h.enc(&mut hb);
                let mut h1z = h1; (o.stamp)(&mut h1z, 0); let mut wz = want_h; (o.stamp)(&mut wz, 0);
                if (o.stamped)(&h1).0 != o.ty || (o.stamped)(&h1).1 != o.fam { cx.fail("C09", name, &format!("header stamped type {} family {}, expected {} {}", (o.stamped)(&h1).0, (o.stamped)(&h1).1, o.ty, o.fam), &inp); }
                else if !h1z.eqv(&wz) { cx.fail("C09", name, "serialize changes other header fields", &inp); }
                let mut whole = hb.clone(); whole.extend_from_slice(&body);
                let mut sh = BytesMut::new(); GenericHeader::serialize(&h1, &mut sh);
                if got.len() >= 12 && got[..12] != sh[..] { cx.fail("C09", name, &format!("header octets {} of a header that encodes to {}", hex(&got[..12]), hex(&sh)), &inp); }
                if got != whole { cx.fail("C06", name, &diff(&got, &whole), &format!("{inp} expected={} emitted={}", hex(&whole), hex(&got))); }
            }
            Err(e) => {
                if n <= 8192 { cx.fail("C10", name, &format!("serialize of {n} octets fails: {e}"), &inp); }
                else { size_err(cx, name, n, e, &inp); }
                if !got.is_empty() { cx.fail("C10", name, &format!("failed serialize leaves {} octets in the buffer", got.len()), &inp); }
            }
        }
        if !x.eqv(&y) { cx.fail("C09", name, "serialize changes the body", &inp); }
        // ---- round trip
        let mut x = mk(seed, true);
        let ref_ = { let mut r = mk(seed, true); *(o.hdr_mut)(&mut r) = *(o.hdr)(&x); r };
        let mut b = BytesMut::new();
        match quiet(|| x.serialize(&mut b)) { Ok(Ok(())) => {}, _ => continue }
        let tail: Vec<u8> = (0..g.below(7)).map(|_| g.u() as u8).collect();
        let n = b.len(); let hx = hex(&b);
        b.extend_from_slice(&tail);
        let v = b.to_vec();
        let h = *(o.hdr)(&x);
        for how in 0..4 {
            let at = g.below(v.len() as u64 + 1) as usize;
            let w = ["deserialize", "deserialize_without_header", "deserialize from two pieces", "deserialize_without_header from two pieces"][how];
            let mut left = 0;
            let r = quiet(|| match how {
                0 => { let mut s = &v[..]; let r = P::deserialize(&mut s); left = s.len(); r }
                1 => { let mut s = &v[12..]; let r = P::deserialize_without_header(&mut s, h); left = s.len(); r }
                2 => { let mut s = (&v[..at]).chain(&v[at..]); let r = P::deserialize(&mut s); left = s.remaining(); r }
                _ => { let at = at.max(12); let mut s = (&v[12..at]).chain(&v[at..]); let r = P::deserialize_without_header(&mut s, h); left = s.remaining(); r }
            });
            match r {
                Err(p) => { cx.fail("C02", name, &format!("{w} panics: {p}"), &format!("octets={hx}")); cx.fail("C11", name, &format!("{w} panics on a complete PDU: {p}"), &format!("octets={hx}")); }
                Ok(Err(e)) => { cx.fail("C02", name, &format!("{w} refuses its own encoding: {e}"), &format!("octets={hx}")); cx.fail("C09", name, &format!("{w} refuses its own type: {e}"), &format!("octets={hx}")); }
                Ok(Ok(y)) => {
                    if !y.eqv(&x) { cx.fail("C02", name, &format!("{w} gives another body"), &format!("octets={hx}")); }
                    if !(o.hdr)(&y).eqv(&h) { cx.fail("C02", name, &format!("{w} gives another header"), &format!("octets={hx}")); cx.fail("C09", name, &format!("{w} does not keep the received header"), &format!("octets={hx}")); }
                    if left != tail.len() { cx.fail("C02", name, &format!("{w} leaves {left} octets of {}", tail.len()), &format!("octets={hx}")); }
                }
            }
        }
        // ---- any header of this type is kept, whatever its other fields say
        for k in 0..3 {
            let mut h2: H = X::mk(&mut g); (o.other)(&mut h2, o.ty);
            if (o.stamped)(&h2).0 != o.ty { continue; }
            let mut v2 = vec![]; h2.enc(&mut v2); v2.extend_from_slice(&v[12..]);
            let hx = hex(&v2);
            let mut left = 0;
            let r = quiet(|| if k == 0 { let mut s = &v2[12..]; let r = P::deserialize_without_header(&mut s, h2); left = s.len(); r } else { let mut s = &v2[..]; let r = P::deserialize(&mut s); left = s.len(); r });
            let w = if k == 0 { "deserialize_without_header" } else { "deserialize" };
            match r {
                Err(p) => for q in ["C02", "C09", "C11"] { cx.fail(q, name, &format!("{w} panics: {p}"), &format!("octets={hx}")); },
                Ok(Err(e)) => for q in ["C09", "C11"] { cx.fail(q, name, &format!("{w} refuses a header of its own type: {e}"), &format!("octets={hx}")); },
                Ok(Ok(y)) => {
                    if !(o.hdr)(&y).eqv(&h2) { let mut e = vec![]; (o.hdr)(&y).enc(&mut e); for q in ["C02", "C09"] { cx.fail(q, name, &format!("{w} does not keep the received header: {}", hex(&e)), &format!("octets={hx}")); } }
                    if !y.eqv(&x) { cx.fail("C02", name, &format!("{w} gives another body"), &format!("octets={hx}")); }
                    if left != tail.len() { cx.fail("C02", name, &format!("{w} leaves {left} octets of {}", tail.len()), &format!("octets={hx}")); }
                }
            }
        }
        // ---- octets of a field whose octet count stands in another field
        if let Some(sp) = o.splice {
            let n = match it { 0..=30 => [1, 2, 3, 11, 12, 13, 64, 126, 127, 128, 129, 130, 199, 200, 253, 254, 255][it as usize % 17], _ => 1 + g.below(255) } as usize;
            let blob: Vec<u8> = (0..n).map(|_| g.u() as u8).collect();
            let mut e = vec![]; sp(&x, &mut e, &blob);
            let mut v2 = v[..12].to_vec(); v2.extend_from_slice(&e); v2.extend_from_slice(&tail);
            let mut left = 0;
            match quiet(|| { let mut s = &v2[..]; let r = P::deserialize(&mut s); left = s.len(); r }) {
                Err(p) => for q in ["C02", "C11"] { cx.fail(q, name, &format!("deserialize panics: {p}"), &format!("octets={}", hex(&v2))); },
                Ok(Err(er)) => for q in ["C02", "C11"] { cx.fail(q, name, &format!("deserialize refuses a complete PDU: {er}"), &format!("octets={}", hex(&v2))); },
                Ok(Ok(y)) => { let mut e2 = vec![]; y.enc(&mut e2);
                    if e2 != e { cx.fail("C02", name, &format!("a field of {n} octets is not kept: {}", diff(&e2, &e)), &format!("octets={}", hex(&v2))); }
                    else if left != tail.len() { for q in ["C02", "C11"] { cx.fail(q, name, &format!("deserialize leaves {left} octets of {}", tail.len()), &format!("octets={}", hex(&v2))); } } }
            }
        }
        // ---- another type in the header
        let mut others: Vec<i64> = vec![(o.ty + 1) % 73, (o.ty + 66) % 73, g.below(73) as i64];
        others.retain(|t| *t != o.ty);
        for t in others {
            let mut h2 = h; (o.other)(&mut h2, t);
            if (o.stamped)(&h2).0 == o.ty { continue; }
            let mut v2 = vec![]; h2.enc(&mut v2); v2.extend_from_slice(&v[12..]);
            let r1 = quiet(|| { let mut s = &v2[..]; P::deserialize(&mut s).map(|_| ()) });
            let r2 = quiet(|| { let mut s = &v2[12..]; P::deserialize_without_header(&mut s, h2).map(|_| ()) });
            for (w, r) in [("deserialize", r1), ("deserialize_without_header", r2)] { match r {
                Ok(Err(DISError::InvalidHeader { .. })) => {}
                Ok(Ok(())) => cx.fail("C09", name, &format!("{w} accepts a header of type {t}"), &format!("octets={}", hex(&v2))),
                Ok(Err(e)) => cx.fail("C09", name, &format!("{w} of a header of type {t}: {e}"), &format!("octets={}", hex(&v2))),
                Err(p) => cx.fail("C09", name, &format!("{w} of a header of type {t} panics: {p}"), &format!("octets={}", hex(&v2))),
            } }
        }
        // ---- too short
        let lens: Vec<usize> = if it < 2 { (0..(12 + o.min).min(v.len())).collect() } else { vec![g.below((12 + o.min).min(v.len()) as u64) as usize] };
        for k in lens {
            let (att, av) = if k < 12 { (12, k) } else { (o.min, k - 12) };
            let r1 = quiet(|| { let mut s = &v[..k]; P::deserialize(&mut s).map(|_| ()) });
            under(cx, name, "deserialize", r1, att, av, &v[..k]);
            if k >= 12 { let r2 = quiet(|| { let mut s = &v[12..k]; P::deserialize_without_header(&mut s, h).map(|_| ()) }); under(cx, name, "deserialize_without_header", r2, o.min, k - 12, &v[..k]); }
        }
        // ---- any octets
        let m = g.below(400) as usize;
        let dense = g.below(3);
        let mut v: Vec<u8> = (0..m).map(|_| if dense == 0 { g.u() as u8 } else if g.below(4) == 0 { g.below(6) as u8 } else { 0 }).collect();
        if v.len() > 2 && g.below(8) != 0 { v[2] = o.ty as u8; }
        let complete = v.len() >= 12 && P::used(&v[12..]).is_some();
        let short = v.len() < 12 + o.min;
        if o.fixed || complete || short || v.get(2) != Some(&(o.ty as u8)) {
            if o.again && complete && v[2] == o.ty as u8 {
                if let Ok(Ok(mut y)) = quiet(|| P::deserialize(&mut &v[..])) {
                    let mut b = BytesMut::new();
                    if let Ok(Ok(())) = quiet(|| y.serialize(&mut b)) {
                        let mut s = &b[..];
                        match quiet(|| P::deserialize(&mut s)) {
                            Ok(Ok(z)) => if format!("{y:?}") != format!("{z:?}") || !s.is_empty() { cx.fail("C02", name, "decoding gives another value", &format!("PDU decoded from octets={} encoded={}", hex(&v), hex(&b))) },
                            Ok(Err(e)) => cx.fail("C02", name, &format!("refuses its own encoding: {e}"), &format!("octets={}", hex(&b))),
                            Err(e) => cx.fail("C02", name, &format!("panics on its own encoding: {e}"), &format!("octets={}", hex(&b))),
                        }
                    }
                }
            }
            let r = quiet(|| { let mut s = &v[..]; let r = P::deserialize(&mut s).map(|_| ()); (r, s.len()) });
            match r {
                Err(p) => cx.fail("C11", name, &format!("deserialize panics: {p}"), &format!("octets={}", hex(&v))),
                Ok((Ok(()), left)) => if complete && left != v.len() - 12 - P::used(&v[12..]).unwrap() { cx.fail("C11", name, &format!("deserialize leaves {left} octets of {}", v.len()), &format!("octets={}", hex(&v))) },
                Ok((Err(e), _)) => if complete && v[2] == o.ty as u8 { cx.fail("C11", name, &format!("deserialize of complete input fails: {e}"), &format!("octets={}", hex(&v))) },
            }
        }
    }
    // ---- sizes around the limit, and where 16 bits wrap
    if let Some((grow, el)) = &o.grow {
        let mut p = (o.dflt)();
        let base = size(&p);
        let mut counts: Vec<usize> = vec![];
        for target in [8192usize, 65536, 65536 + 8192, 131072, 65536 + 12] { if target > base { let k = (target - base) / el; for d in 0..4 { counts.push((k + d).saturating_sub(1)); } } }
        for k in counts {
            cx.n += 1;
            let mut p = (o.dflt)(); grow(&mut p, k);
            let n = size(&p);
            let inp = format!("default {name} with {k} list elements, {n} octets");
            let len = quiet(|| p.calculate_length()); check_len(cx, name, n, &len, &inp);
            let mut b = BytesMut::from(&[0xEE][..]);
            match quiet(|| p.serialize(&mut b)) {
                Err(e) => cx.fail("C10", name, &format!("serialize panics: {e}"), &inp),
                Ok(Ok(())) => if n > 8192 { cx.fail("C10", name, &format!("serialize accepts {n} octets"), &inp) } else if b.len() != n + 1 || num(&b, 9, 2) as usize != n { cx.fail("C01", name, &format!("{} octets emitted, length says {}", b.len() - 1, num(&b, 9, 2)), &inp) },
                Ok(Err(e)) => { if n <= 8192 { cx.fail("C10", name, &format!("serialize fails: {e}"), &inp) } else { size_err(cx, name, n, &e, &inp) } if b[..] != [0xEE] { cx.fail("C10", name, "failed serialize touches the buffer", &inp) } }
            }
        }
    }
    // ---- constructors
    for (w, p) in [("new", o.new.map(|f| f())), ("default", Some((o.dflt)()))] {
        let Some(p) = p else { continue };
        let st = (o.stamped)((o.hdr)(&p));
        if !p.isd() { cx.fail("C12", name, &format!("{w} gives a body field other than its default"), w); }
        if w == "new" {
            if st.0 != o.ty || st.1 != o.fam { cx.fail("C09", name, &format!("new stamps type {} family {}, expected {} {}", st.0, st.1, o.ty, o.fam), "new()"); }
            if st.2 as usize != 12 + o.min || size(&p) != 12 + o.min { cx.fail("C12", name, &format!("new states length {}, its size is {}, the minimum {}", st.2, size(&p), 12 + o.min), "new()"); }
            let h = *(o.hdr)(&p);
            if !(o.hdrdflt)(&h) { cx.fail("C12", name, "new gives a header field other than its default", "new()"); }
        }
    }
}
fn check_len(cx: &mut Cx, name: &str, n: usize, len: &Result<Result<u16, DISError>, String>, inp: &str) {
    match len {
        Err(p) => for q in ["C01", "C10"] { cx.fail(q, name, &format!("calculate_length panics: {p}"), inp) },
        Ok(Ok(l)) => { if n > 8192 { cx.fail("C10", name, &format!("calculate_length of {n} octets gives {l}"), inp) } else if *l as usize != n { cx.fail("C01", name, &format!("calculate_length = {l} for {n} octets"), inp) } }
        Ok(Err(e)) => if n <= 8192 { cx.fail("C10", name, &format!("calculate_length of {n} octets fails: {e}"), inp) } else { size_err(cx, name, n, e, inp) },
    }
}
fn size_err(cx: &mut Cx, name: &str, n: usize, e: &DISError, inp: &str) {
    match e { DISError::PduSizeExceeded { size, max_size } if *size == n && *max_size == 8192 => {}, e => cx.fail("C10", name, &format!("error for {n} octets: {e}"), inp) }
}
fn under(cx: &mut Cx, name: &str, w: &str, r: Result<Result<(), DISError>, String>, att: usize, av: usize, v: &[u8]) {
    let inp = format!("octets={}", hex(v));
    match r {
        Ok(Err(DISError::BufferUnderflow { attempted, available })) => if attempted != att || available != av { cx.fail("C11", name, &format!("{w} of {} octets reports {attempted}/{available}, expected {att}/{av}", v.len()), &inp) },
        Ok(Err(e)) => cx.fail("C11", name, &format!("{w} of {} octets: {e}", v.len()), &inp),
        Ok(Ok(())) => cx.fail("C11", name, &format!("{w} accepts {} octets, short of {}", v.len(), att), &inp),
        Err(p) => cx.fail("C11", name, &format!("{w} of {} octets panics: {p}", v.len()), &inp),
    }
}

// ---------------------------------------------------------------- peek, status bits, vectors, clock
use open_dis_rust::common::enums as en;
pub fn peek(cx: &mut Cx) {
    if !cx.wants("PduHeader") { return; }
    for it in 0..4000u64 {
        cx.n += 1;
        let mut g = G::new(sub(cx.seed, "peek", it), false);
        let n = match it { 0..=40 => it, _ => g.below(40) } as usize;
        let mut v: Vec<u8> = (0..n).map(|_| g.u() as u8).collect();
        if v.len() > 2 { v[2] = if it < 2000 { g.below(80) as u8 } else { g.u() as u8 }; }
        match quiet(|| PduHeader::get_pdu_type(&v)) {
            Err(p) => cx.fail("C07", "PduHeader", &format!("get_pdu_type panics: {p}"), &format!("octets={}", hex(&v))),
            Ok(r) => { let want = if v.len() < 12 { None } else { Some(<PduHeader as GenericHeader>::deserialize(&mut &v[..]).pdu_type as i64) };
                let want2 = if v.len() < 12 { None } else { let c = v[2] as i64; Some(ptype(c) as i64) };
                let r = r.map(|t| t as i64);
                if r != want { cx.fail("C07", "PduHeader", &format!("get_pdu_type gives {r:?}, decoding the header {want:?}"), &format!("octets={}", hex(&v))) }
                else if r != want2 { cx.fail("C07", "PduHeader", &format!("get_pdu_type gives {r:?}, the type octet is {:?}", v.get(2)), &format!("octets={}", hex(&v))) } }
        }
    }
}
pub fn status(cx: &mut Cx) {
    if !cx.wants("PduStatusRecord") { return; }
    for b in 0..=255u8 {
        cx.n += 1;
        let inp = format!("status octet {b:#04x}");
        let x = PduStatusRecord::from_u8(b);
        if x.to_u8() != b { cx.fail("C08", "PduStatusRecord", &format!("from_u8 then to_u8 gives {:#04x}", x.to_u8()), &inp); }
        macro_rules! ind { ($n:expr, $t:ty, $at:expr, $w:expr, $get:expr, $set:expr) => { {
            let mask = ((1u32 << $w) - 1) as u8;
            let mut decl = [false; 256]; { let mut g = G::new(1, false); for _ in 0..64 { let v: $t = X::mk(&mut g); decl[v as u64 as u8 as usize] = true; } }
            let here = (b >> $at) & mask;
            match quiet(|| ($get)(&x) as u64 as u8) { Ok(v) => if v != here && (decl[here as usize] || v != <$t>::default() as u64 as u8) { cx.fail("C08", "PduStatusRecord", &format!("{} reads {v}, its bits hold {}", $n, (b >> $at) & mask), &inp); }, Err(p) => cx.fail("C08", "PduStatusRecord", &format!("{} panics: {p}", $n), &inp) }
            let mut seen = [false; 256];
            let mut g = G::new(1, false);
            for _ in 0..64 { let v: $t = X::mk(&mut g); let c = v as u64 as u8; if c & !mask != 0 || seen[c as usize] { continue; } seen[c as usize] = true;
                let r = quiet(|| { let mut y = x; ($set)(&mut y, v); (y.to_u8(), ($get)(&y) as u64 as u8) });
                match r { Err(p) => cx.fail("C08", "PduStatusRecord", &format!("setting {} panics: {p}", $n), &inp),
                    Ok((o, back)) => { if back != c { cx.fail("C08", "PduStatusRecord", &format!("{} set to {c} reads {back}", $n), &inp); } let want = b & !(mask << $at) | c << $at; if o != want { cx.fail("C08", "PduStatusRecord", &format!("setting {} to {c} gives octet {o:#04x}, expected {want:#04x}", $n), &inp); } } }
            }
        } } }
        type S = PduStatusRecord;
        ind!("tei", en::TransferredEntityIndicator, 0, 1, |x: &S| x.tei(), |x: &mut S, v| x.set_tei(v));
        ind!("lvc", en::LVCIndicator, 1, 2, |x: &S| x.lvc(), |x: &mut S, v| x.set_lvc(v));
        ind!("cei", en::CoupledExtensionIndicator, 3, 1, |x: &S| x.cei(), |x: &mut S, v| x.set_cei(v));
        ind!("dti", en::DetonationTypeIndicator, 4, 2, |x: &S| x.get_dti(), |x: &mut S, v| x.set_dti(v));
        ind!("rai", en::RadioAttachedIndicator, 4, 2, |x: &S| x.get_rai(), |x: &mut S, v| x.set_rai(v));
        ind!("iai", en::IntercomAttachedIndicator, 4, 2, |x: &S| x.get_iai(), |x: &mut S, v| x.set_iai(v));
        ind!("fti", en::FireTypeIndicator, 4, 1, |x: &S| x.get_fti(), |x: &mut S, v| x.set_fti(v));
        ind!("ism", en::PduStatusIFFSimulationMode, 4, 1, |x: &S| x.get_ism(), |x: &mut S, v| x.set_ism(v));
        ind!("aii", en::ActiveInterrogationIndicator, 5, 1, |x: &S| x.get_aii(), |x: &mut S, v| x.set_aii(v));
    }
    if PduStatusRecord::new_zero().to_u8() != 0 || PduStatusRecord::default().to_u8() != 0 { cx.fail("C08", "PduStatusRecord", "the zero record is not zero", "new_zero()"); }
}
pub fn vectors(cx: &mut Cx) {
    use open_dis_rust::common::data_types::vector3_float::Vector3Float as V;
    if !cx.wants("Vector3Float") { return; }
    let same = |a: f32, b: f32| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan());
    let v3 = |x, y, z| V { x, y, z };
    let sv = |a: &V, b: &V| same(a.x, b.x) && same(a.y, b.y) && same(a.z, b.z);
    for it in 0..cx.iters.max(2000) {
        cx.n += 1;
        let seed = sub(cx.seed, "vec", it);
        let mut g = G::new(seed, false);
        let mut fl = |g: &mut G| -> f32 { match g.below(8) { 0 => 0.0, 1 => -0.0, 2 => 1e-30, 3 => f32::from_bits(g.int() as u32), 4 => 3e38, 5 => (g.u() % 2001) as f32 - 1000.0, 6 => 1e-42, _ => (g.u() as i32) as f32 / 1e4 } };
        let (a, b, k) = (v3(fl(&mut g), fl(&mut g), fl(&mut g)), v3(fl(&mut g), fl(&mut g), fl(&mut g)), fl(&mut g));
        let inp = format!("a={a:?} b={b:?} k={k:?}");
        let mag = a.z.mul_add(a.z, a.x.mul_add(a.x, a.y * a.y)).sqrt();
        let mut chk = |n: &str, ok: bool, cx: &mut Cx| if !ok { cx.fail("C13", "Vector3Float", &format!("{n} differs from its formula"), &inp) };
        chk("+", sv(&(a + b), &v3(a.x + b.x, a.y + b.y, a.z + b.z)), cx);
        chk("-", sv(&(a - b), &v3(a.x - b.x, a.y - b.y, a.z - b.z)), cx);
        chk("*", sv(&(a * k), &v3(a.x * k, a.y * k, a.z * k)), cx);
        chk("/", sv(&(a / k), &v3(a.x / k, a.y / k, a.z / k)), cx);
        chk("dot", same(a.dot(&b), a.z.mul_add(b.z, a.x.mul_add(b.x, a.y * b.y))), cx);
        chk("cross", sv(&a.cross(&b), &v3(a.y.mul_add(b.z, -(a.z * b.y)), a.z.mul_add(b.x, -(a.x * b.z)), a.x.mul_add(b.y, -(a.y * b.x)))), cx);
        chk("magnitude", same(a.magnitude(), mag), cx);
        match a.normalize() { None => chk("normalize", mag == 0.0, cx), Some(n) => chk("normalize", mag != 0.0 && sv(&n, &v3(a.x / mag, a.y / mag, a.z / mag)), cx) }
    }
    for (n, v, w) in [("zero", V::zero(), v3(0.0, 0.0, 0.0)), ("one", V::one(), v3(1.0, 1.0, 1.0)), ("unit_x", V::unit_x(), v3(1.0, 0.0, 0.0)), ("unit_y", V::unit_y(), v3(0.0, 1.0, 0.0)), ("unit_z", V::unit_z(), v3(0.0, 0.0, 1.0))] {
        if !sv(&v, &w) { cx.fail("C13", "Vector3Float", &format!("{n} is {v:?}"), n); }
    }
}
// the wall clock of this process: successive readings come from READ, as (seconds, nanoseconds)
thread_local! { pub static READ: std::cell::RefCell<(Vec<(i64, i64)>, usize)> = Default::default(); }
#[repr(C)] pub struct Ts { s: i64, n: i64 }
unsafe extern "C" { fn syscall(n: i64, ...) -> i64; }
#[unsafe(no_mangle)] pub extern "C" fn clock_gettime(id: i32, t: *mut Ts) -> i32 {
    if id == 0 {
        let r = READ.with(|r| { let mut r = r.borrow_mut(); if r.0.is_empty() { return None; } let i = r.1.min(r.0.len() - 1); r.1 += 1; Some(r.0[i]) });
        if let Some((s, n)) = r { unsafe { (*t).s = s; (*t).n = n; } return 0; }
    }
    unsafe { syscall(228, id as i64, t) as i32 }
}
pub fn clock(cx: &mut Cx) {
    const H: i128 = 3_600_000_000_000;
    unsafe { std::env::set_var("TZ", "<+0545>-5:45"); } // the hour is that of UTC, not of the time zone
    let mut used = false;
    for it in 0..cx.iters.max(4000) {
        cx.n += 1;
        let seed = sub(cx.seed, "clock", it);
        let mut g = G::new(seed, false);
        let base = 1_700_000_000 / 3600 * 3600i64;
        let mut s = base + match g.below(6) { 0 => 3599, 1 => 0, 2 => 3540 + g.below(60) as i64, 3 => g.below(24) as i64 * 3600 + 59 * 60 + 59, 4 => 3598, _ => g.below(86400) as i64 };
        let mut n = match g.below(5) { 0 => 999_999_999, 1 => 999_999_990 + g.below(10) as i64, 2 => 0, _ => g.below(1_000_000_000) as i64 };
        let mut reads = vec![];
        for _ in 0..8 { reads.push((s, n)); match g.below(4) { 0 => { n += 1; if n > 999_999_999 { n = 0; s += 1; } } 1 => { s += 1; n = 0; } 2 => { s += g.below(4000) as i64; n = g.below(1_000_000_000) as i64; } _ => { s += 60; n = 0; } } }
        for (what, ty, f) in [("PduHeader::calculate_dis_timestamp", "PduHeader", (|| PduHeader::calculate_dis_timestamp()) as fn() -> u32), ("LiveEntityPduHeader::calculate_dis_timestamp", "LiveEntityPduHeader", || LiveEntityPduHeader::calculate_dis_timestamp()),
            ("PduHeader::default", "PduHeader", || PduHeader::default().timestamp), ("LiveEntityPduHeader::default", "LiveEntityPduHeader", || LiveEntityPduHeader::default().timestamp),
            ("PduHeader::new", "PduHeader", || PduHeader::new(ptype(1), pfam(1), 1, 12).timestamp), ("LiveEntityPduHeader::new", "LiveEntityPduHeader", || LiveEntityPduHeader::new(ptype(1), pfam(1), 1, 12).timestamp)] {
            if !cx.only.is_empty() && !cx.only.iter().any(|x| x == ty) { continue; }
            READ.with(|r| *r.borrow_mut() = (reads.clone(), 0));
            let r = quiet(f);
            let k = READ.with(|r| { let mut r = r.borrow_mut(); let k = r.1; *r = (vec![], 0); k });
            used |= k > 0;
            let inp = format!("TZ=<+0545>-5:45, clock readings (s, ns) = {:?}", &reads[..k.max(1)]);
            match r {
                Err(p) => cx.fail("C14", ty, &format!("{what} panics: {p}"), &inp),
                Ok(t) => {
                    let ok = |r: &(i64, i64)| { let p = (r.0.rem_euclid(3600) as i128 * 1_000_000_000 + r.1 as i128) % H; (t as i128 * H - p * 0x8000_0000i128).abs() <= 128 * H };
                    if t >= 0x8000_0000 { cx.fail("C14", ty, &format!("{what} gives {t:#x}, the absolute-time bit is set"), &inp); }
                    else if !reads[..k].iter().any(ok) { cx.fail("C14", ty, &format!("{what} gives {t}, expected {}", ((reads[0].0.rem_euclid(3600) as i128 * 1_000_000_000 + reads[0].1 as i128) % H * 0x8000_0000 / H)), &inp); }
                }
            }
        }
    }
    if !used { println!("NOTE\tclock not read through clock_gettime"); }
}
