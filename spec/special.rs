// Contracts of the records whose wire form is not a plain sequence of fields.
// `//@T name` starts a type, `//@struct` stands for its definition as extracted, `//@fn name` overrides
// the signature and contract of one function. Everything after the signature is extracted code.
//@T PduStatusRecord
// one octet; the bit layout is checked by the Kani harnesses (property C08) and is opaque here
#[derive(Clone, Copy)]
pub struct PduStatusRecord { pub b: u8 }
impl Wire for PduStatusRecord {
    open spec fn enc(&self, t: Bytes) -> Bytes { be(1, self.b as nat, t) }
    open spec fn size(&self) -> nat { 1 }
    open spec fn wf(&self) -> bool { true }
    open spec fn same(&self, o: &Self) -> bool { self.b == o.b }
    open spec fn rest(s: Bytes) -> Option<Bytes> { drop_n(s, 1) }
    open spec fn min() -> nat { 1 }
    open spec fn fixed() -> bool { true }
    open spec fn sfix() -> bool { true }
    proof fn lemma_len(&self, t: Bytes) { lemma_be_len(1, self.b as nat, t); }
    proof fn lemma_cat(&self, a: Bytes, b: Bytes) { lemma_be_cat(1, self.b as nat, a, b); }
    proof fn lemma_rest(s: Bytes) { }
}
impl VDefault for PduStatusRecord {
    open spec fn is_dflt(&self) -> bool { self.b == 0 }
    #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() }
}
impl PduStatusRecord {
    #[verifier::external_body] pub fn to_u8(&self) -> (r: u8) ensures r == self.b { unimplemented!() }
    #[verifier::external_body] pub fn from_u8(b: u8) -> (r: Self) ensures r.b == b { unimplemented!() }
    #[verifier::external_body] pub fn new_zero() -> (r: Self) ensures r.b == 0 { unimplemented!() }
}
//@T EntityMarking
//@bcast group_text
//@struct
impl Wire for EntityMarking {
    open spec fn enc(&self, t: Bytes) -> Bytes { self.entity_marking_character_set.enc(enc_list::<u8>(padz(self.entity_marking_string@, 11), 0, t)) }
    open spec fn size(&self) -> nat { 12 }
    open spec fn wf(&self) -> bool {
        let s = self.entity_marking_string@;
        self.entity_marking_character_set.wf() && s.len() <= 11 && utf8(s) && (s.len() > 0 ==> s.last() != 0)
    }
    open spec fn same(&self, o: &Self) -> bool { self.entity_marking_character_set.same(&o.entity_marking_character_set) && self.entity_marking_string@ == o.entity_marking_string@ }
    open spec fn rest(s: Bytes) -> Option<Bytes> { drop_n(s, 12) }
    open spec fn min() -> nat { 12 }
    open spec fn fixed() -> bool { true }
    open spec fn sfix() -> bool { true }
    proof fn lemma_len(&self, t: Bytes) { let p = padz(self.entity_marking_string@, 11); lemma_list_len::<u8>(p, 0, t); self.entity_marking_character_set.lemma_len(enc_list::<u8>(p, 0, t)); }
    proof fn lemma_cat(&self, a: Bytes, b: Bytes) { let p = padz(self.entity_marking_string@, 11); lemma_list_cat::<u8>(p, 0, a, b); self.entity_marking_character_set.lemma_cat(enc_list::<u8>(p, 0, a), b); }
    proof fn lemma_rest(s: Bytes) { }
}
//@T VariableDatumRecord
//@bcast axiom_zseq_skip
//@struct
/// octets of padding up to the next multiple of 64 bits
pub open spec fn vdr_pad(bits: nat) -> nat { (((64 - bits % 64) % 64) / 8) as nat }
pub open spec fn vdr_octets(bits: nat) -> nat { (bits + 7) / 8 }
impl Wire for VariableDatumRecord {
    open spec fn enc(&self, t: Bytes) -> Bytes { self.datum_id.enc(self.length_bits.enc(enc_list(self.value@, 0, zseq(vdr_pad(self.length_bits as nat), t)))) }
    open spec fn size(&self) -> nat { 8 + size_list(self.value@, 0) + vdr_pad(self.length_bits as nat) }
    open spec fn wf(&self) -> bool { self.value@.len() == vdr_octets(self.length_bits as nat) }
    open spec fn same(&self, o: &Self) -> bool { self.datum_id == o.datum_id && self.length_bits == o.length_bits && same_list(self.value@, o.value@) }
    open spec fn rest(s: Bytes) -> Option<Bytes> {
        if s.len() < 8 { None } else {
            let bits = bev(s.skip(4), 4);
            match rest_list::<u8>(s.skip(8), vdr_octets(bits)) { None => None, Some(u) => drop_n(u, vdr_pad(bits)) }
        }
    }
    open spec fn min() -> nat { 8 }
    open spec fn fixed() -> bool { false }
    open spec fn sfix() -> bool { false }
    proof fn lemma_len(&self, t: Bytes) {
        let p = vdr_pad(self.length_bits as nat);
        lemma_zeros_len(p, t); lemma_list_len(self.value@, 0, zseq(p, t));
        let u = enc_list(self.value@, 0, zseq(p, t));
        self.length_bits.lemma_len(u); self.datum_id.lemma_len(self.length_bits.enc(u));
    }
    proof fn lemma_cat(&self, a: Bytes, b: Bytes) {
        let p = vdr_pad(self.length_bits as nat);
        lemma_zeros_cat(p, a, b); lemma_list_cat(self.value@, 0, zseq(p, a), b);
        let u = enc_list(self.value@, 0, zseq(p, a));
        self.length_bits.lemma_cat(u, b); self.datum_id.lemma_cat(self.length_bits.enc(u), b);
    }
    proof fn lemma_rest(s: Bytes) { if s.len() >= 8 { lemma_list_rest::<u8>(s.skip(8), vdr_octets(bev(s.skip(4), 4))); } }
}
//@T AntennaPattern
//@struct
impl Wire for AntennaPattern {
    open spec fn enc(&self, t: Bytes) -> Bytes { enc_list(self.record_specific_fields@, 0, t) }
    open spec fn size(&self) -> nat { size_list(self.record_specific_fields@, 0) }
    open spec fn wf(&self) -> bool { self.record_specific_fields@.len() == 0 }
    open spec fn same(&self, o: &Self) -> bool { same_list(self.record_specific_fields@, o.record_specific_fields@) }
    open spec fn rest(s: Bytes) -> Option<Bytes> { Some(s) }
    open spec fn min() -> nat { 0 }
    open spec fn fixed() -> bool { true }
    open spec fn sfix() -> bool { false }
    proof fn lemma_len(&self, t: Bytes) { lemma_list_len(self.record_specific_fields@, 0, t); }
    proof fn lemma_cat(&self, a: Bytes, b: Bytes) { lemma_list_cat(self.record_specific_fields@, 0, a, b); }
    proof fn lemma_rest(s: Bytes) { assert(s.skip(0) =~= s); }
}
//@fn deserialize
    pub fn deserialize<B: Buf>(buf: &mut B, length: u16) -> (r: Option<Self>)
        requires old(buf).view().len() >= length //@F P
        ensures
            final(buf).view() =~= old(buf).view().skip(length as int), //@F P
            (r is None) == (length == 0), //@F D
            forall|v: Self, t: Bytes| #![trigger v.enc(t)] old(buf).view() == v.enc(t) && v.size() == length && length > 0 ==> r->0.same(&v) && final(buf).view() == t, //@F D
//@fn lmax
65535
//@T ModulationParameters
//@struct
impl Wire for ModulationParameters {
    open spec fn enc(&self, t: Bytes) -> Bytes { enc_list(self.record_specific_fields@, 0, t) }
    open spec fn size(&self) -> nat { size_list(self.record_specific_fields@, 0) }
    open spec fn wf(&self) -> bool { self.record_specific_fields@.len() == 0 }
    open spec fn same(&self, o: &Self) -> bool { same_list(self.record_specific_fields@, o.record_specific_fields@) }
    open spec fn rest(s: Bytes) -> Option<Bytes> { Some(s) }
    open spec fn min() -> nat { 0 }
    open spec fn fixed() -> bool { true }
    open spec fn sfix() -> bool { false }
    proof fn lemma_len(&self, t: Bytes) { lemma_list_len(self.record_specific_fields@, 0, t); }
    proof fn lemma_cat(&self, a: Bytes, b: Bytes) { lemma_list_cat(self.record_specific_fields@, 0, a, b); }
    proof fn lemma_rest(s: Bytes) { assert(s.skip(0) =~= s); }
}
//@fn deserialize
    pub fn deserialize<B: Buf>(buf: &mut B, length: u8) -> (r: Option<Self>)
        requires old(buf).view().len() >= length //@F P
        ensures
            final(buf).view() =~= old(buf).view().skip(length as int), //@F P
            (r is None) == (length == 0), //@F D
            forall|v: Self, t: Bytes| #![trigger v.enc(t)] old(buf).view() == v.enc(t) && v.size() == length && length > 0 ==> r->0.same(&v) && final(buf).view() == t, //@F D
//@fn lmax
255
//@T GridAxisDescriptor
//@bcast group_drain
//@enum GridAxisType
//@struct
impl Wire for GridAxisType {
    open spec fn enc(&self, t: Bytes) -> Bytes {
        match *self {
            GridAxisType::FixedSpacing { number_of_points_on_x_axis, initial_index } => number_of_points_on_x_axis.enc(initial_index.enc(t)),
            GridAxisType::VariableSpacing { number_of_points_on_x_axis, initial_index, coordinate_scale_x, coordinate_offset_x, x_values, padding } =>
                number_of_points_on_x_axis.enc(initial_index.enc(coordinate_scale_x.enc(coordinate_offset_x.enc(enc_list(x_values@, 0, enc_list(padding@, 0, t)))))),
        }
    }
    open spec fn size(&self) -> nat {
        match *self {
            GridAxisType::FixedSpacing { .. } => 4,
            GridAxisType::VariableSpacing { x_values, padding, .. } => 20 + size_list(x_values@, 0) + size_list(padding@, 0),
        }
    }
    open spec fn wf(&self) -> bool {
        match *self {
            GridAxisType::FixedSpacing { .. } => true,
            GridAxisType::VariableSpacing { number_of_points_on_x_axis, x_values, .. } => x_values@.len() == number_of_points_on_x_axis,
        }
    }
    open spec fn same(&self, o: &Self) -> bool {
        match (*self, *o) {
            (GridAxisType::FixedSpacing { number_of_points_on_x_axis: a, initial_index: b }, GridAxisType::FixedSpacing { number_of_points_on_x_axis: c, initial_index: d }) => a == c && b == d,
            (GridAxisType::VariableSpacing { number_of_points_on_x_axis: a, initial_index: b, coordinate_scale_x: e, coordinate_offset_x: g, x_values: i, padding: k },
             GridAxisType::VariableSpacing { number_of_points_on_x_axis: c, initial_index: d, coordinate_scale_x: f, coordinate_offset_x: h, x_values: j, padding: l }) =>
                a == c && b == d && e.same(&f) && g.same(&h) && same_list(i@, j@) && same_list(k@, l@),
            _ => false,
        }
    }
    open spec fn rest(s: Bytes) -> Option<Bytes> { None }
    open spec fn min() -> nat { 4 }
    open spec fn fixed() -> bool { false }
    open spec fn sfix() -> bool { false }
    proof fn lemma_len(&self, t: Bytes) {
        match *self {
            GridAxisType::FixedSpacing { number_of_points_on_x_axis, initial_index } => { initial_index.lemma_len(t); number_of_points_on_x_axis.lemma_len(initial_index.enc(t)); }
            GridAxisType::VariableSpacing { number_of_points_on_x_axis, initial_index, coordinate_scale_x, coordinate_offset_x, x_values, padding } => {
                lemma_list_len(padding@, 0, t); let u = enc_list(padding@, 0, t); lemma_list_len(x_values@, 0, u); let u = enc_list(x_values@, 0, u);
                coordinate_offset_x.lemma_len(u); let u = coordinate_offset_x.enc(u); coordinate_scale_x.lemma_len(u); let u = coordinate_scale_x.enc(u);
                initial_index.lemma_len(u); number_of_points_on_x_axis.lemma_len(initial_index.enc(u));
            }
        }
    }
    proof fn lemma_cat(&self, a: Bytes, b: Bytes) {
        match *self {
            GridAxisType::FixedSpacing { number_of_points_on_x_axis, initial_index } => { initial_index.lemma_cat(a, b); number_of_points_on_x_axis.lemma_cat(initial_index.enc(a), b); }
            GridAxisType::VariableSpacing { number_of_points_on_x_axis, initial_index, coordinate_scale_x, coordinate_offset_x, x_values, padding } => {
                lemma_list_cat(padding@, 0, a, b); let u = enc_list(padding@, 0, a); lemma_list_cat(x_values@, 0, u, b); let u = enc_list(x_values@, 0, u);
                coordinate_offset_x.lemma_cat(u, b); let u = coordinate_offset_x.enc(u); coordinate_scale_x.lemma_cat(u, b); let u = coordinate_scale_x.enc(u);
                initial_index.lemma_cat(u, b); number_of_points_on_x_axis.lemma_cat(initial_index.enc(u), b);
            }
        }
    }
    proof fn lemma_rest(s: Bytes) { }
}
impl Wire for GridAxisDescriptor {
    open spec fn enc(&self, t: Bytes) -> Bytes { self.domain_initial.enc(self.domain_final.enc(self.domain_points.enc(self.interleaf_factor.enc(self.axis_type.enc(self.data.enc(t)))))) }
    open spec fn size(&self) -> nat { 20 + self.data.size() }
    // an irregular axis is decodable only at the end of the buffer: see wf_last
    open spec fn wf(&self) -> bool { self.axis_type.wf() && self.axis_type.d == 0 && self.data is FixedSpacing }
    open spec fn same(&self, o: &Self) -> bool { self.domain_initial.same(&o.domain_initial) && self.domain_final.same(&o.domain_final) && self.domain_points == o.domain_points && self.interleaf_factor == o.interleaf_factor && self.axis_type.same(&o.axis_type) && self.data.same(&o.data) }
    open spec fn rest(s: Bytes) -> Option<Bytes> {
        if s.len() < 24 { None } else if dec_GridAxisDescriptorAxisType(bev(s.skip(19), 1)) == 0 { Some(s.skip(24)) } else {
            match drop_n(s, 40) { None => None, Some(u) => match rest_list::<u16>(u, bev(s.skip(20), 2)) { None => None, Some(_) => Some(nil()) } }
        }
    }
    open spec fn min() -> nat { 24 }
    open spec fn fixed() -> bool { false }
    open spec fn sfix() -> bool { false }
    proof fn lemma_len(&self, t: Bytes) {
        self.data.lemma_len(t); let u = self.data.enc(t); self.axis_type.lemma_len(u); let u = self.axis_type.enc(u); self.interleaf_factor.lemma_len(u); let u = self.interleaf_factor.enc(u);
        self.domain_points.lemma_len(u); let u = self.domain_points.enc(u); self.domain_final.lemma_len(u); self.domain_initial.lemma_len(self.domain_final.enc(u));
    }
    proof fn lemma_cat(&self, a: Bytes, b: Bytes) {
        self.data.lemma_cat(a, b); let u = self.data.enc(a); self.axis_type.lemma_cat(u, b); let u = self.axis_type.enc(u); self.interleaf_factor.lemma_cat(u, b); let u = self.interleaf_factor.enc(u);
        self.domain_points.lemma_cat(u, b); let u = self.domain_points.enc(u); self.domain_final.lemma_cat(u, b); self.domain_initial.lemma_cat(self.domain_final.enc(u), b);
    }
    proof fn lemma_rest(s: Bytes) { if s.len() >= 40 { lemma_list_rest::<u16>(s.skip(40), bev(s.skip(20), 2)); } }
}
pub open spec fn gad_wf_last(v: GridAxisDescriptor) -> bool { v.axis_type.wf() && v.axis_type.d == 1 && v.data is VariableSpacing && v.data.wf() }
//@fn deserialize
    #[verifier::rlimit(60)]
    pub fn deserialize<B: Buf>(buf: &mut B) -> (r: Self)
        requires Self::rest(old(buf).view()) is Some, //@F P
        ensures
            final(buf).view() =~= Self::rest(old(buf).view())->0, //@F P
            forall|v: Self, t: Bytes| #![trigger v.enc(t)] old(buf).view() == v.enc(t) && v.wf() ==> r.same(&v) && final(buf).view() == t, //@F D
            forall|v: Self| #![trigger v.enc(nil())] old(buf).view() == v.enc(nil()) && gad_wf_last(v) ==> r.same(&v), //@F D
//@T GridDataRecord
//@bcast group_drain
//@enum DataRepresentationType
//@struct
impl Wire for DataRepresentationType {
    open spec fn enc(&self, t: Bytes) -> Bytes {
        match *self {
            DataRepresentationType::Type0 { number_of_octets, data_values, padding } => number_of_octets.enc(enc_list(data_values@, 0, enc_list(padding@, 0, t))),
            DataRepresentationType::Type1 { field_scale, field_offset, number_of_values, data_values, padding } =>
                field_scale.enc(field_offset.enc(number_of_values.enc(enc_list(data_values@, 0, enc_list(padding@, 0, t))))),
            DataRepresentationType::Type2 { number_of_values, padding, data_values } => number_of_values.enc(padding.enc(enc_list(data_values@, 0, t))),
        }
    }
    open spec fn size(&self) -> nat {
        match *self {
            DataRepresentationType::Type0 { data_values, padding, .. } => 2 + size_list(data_values@, 0) + size_list(padding@, 0),
            DataRepresentationType::Type1 { data_values, padding, .. } => 10 + size_list(data_values@, 0) + size_list(padding@, 0),
            DataRepresentationType::Type2 { data_values, .. } => 4 + size_list(data_values@, 0),
        }
    }
    open spec fn wf(&self) -> bool {
        match *self {
            DataRepresentationType::Type0 { number_of_octets, data_values, .. } => data_values@.len() == number_of_octets,
            DataRepresentationType::Type1 { number_of_values, data_values, .. } => data_values@.len() == number_of_values,
            DataRepresentationType::Type2 { number_of_values, data_values, .. } => data_values@.len() == number_of_values,
        }
    }
    open spec fn same(&self, o: &Self) -> bool {
        match (*self, *o) {
            (DataRepresentationType::Type0 { number_of_octets: a, data_values: b, padding: c }, DataRepresentationType::Type0 { number_of_octets: d, data_values: e, padding: f }) =>
                a == d && same_list(b@, e@) && same_list(c@, f@),
            (DataRepresentationType::Type1 { field_scale: a, field_offset: b, number_of_values: c, data_values: d, padding: e }, DataRepresentationType::Type1 { field_scale: f, field_offset: g, number_of_values: h, data_values: i, padding: j }) =>
                a.same(&f) && b.same(&g) && c == h && same_list(d@, i@) && same_list(e@, j@),
            (DataRepresentationType::Type2 { number_of_values: a, padding: b, data_values: c }, DataRepresentationType::Type2 { number_of_values: d, padding: e, data_values: f }) =>
                a == d && b == e && same_list(c@, f@),
            _ => false,
        }
    }
    open spec fn rest(s: Bytes) -> Option<Bytes> { None }
    open spec fn min() -> nat { 2 }
    open spec fn fixed() -> bool { false }
    open spec fn sfix() -> bool { false }
    proof fn lemma_len(&self, t: Bytes) {
        match *self {
            DataRepresentationType::Type0 { number_of_octets, data_values, padding } => { lemma_list_len(padding@, 0, t); let u = enc_list(padding@, 0, t); lemma_list_len(data_values@, 0, u); number_of_octets.lemma_len(enc_list(data_values@, 0, u)); }
            DataRepresentationType::Type1 { field_scale, field_offset, number_of_values, data_values, padding } => {
                lemma_list_len(padding@, 0, t); let u = enc_list(padding@, 0, t); lemma_list_len(data_values@, 0, u); let u = enc_list(data_values@, 0, u);
                number_of_values.lemma_len(u); let u = number_of_values.enc(u); field_offset.lemma_len(u); field_scale.lemma_len(field_offset.enc(u));
            }
            DataRepresentationType::Type2 { number_of_values, padding, data_values } => { lemma_list_len(data_values@, 0, t); let u = enc_list(data_values@, 0, t); padding.lemma_len(u); number_of_values.lemma_len(padding.enc(u)); }
        }
    }
    proof fn lemma_cat(&self, a: Bytes, b: Bytes) {
        match *self {
            DataRepresentationType::Type0 { number_of_octets, data_values, padding } => { lemma_list_cat(padding@, 0, a, b); let u = enc_list(padding@, 0, a); lemma_list_cat(data_values@, 0, u, b); number_of_octets.lemma_cat(enc_list(data_values@, 0, u), b); }
            DataRepresentationType::Type1 { field_scale, field_offset, number_of_values, data_values, padding } => {
                lemma_list_cat(padding@, 0, a, b); let u = enc_list(padding@, 0, a); lemma_list_cat(data_values@, 0, u, b); let u = enc_list(data_values@, 0, u);
                number_of_values.lemma_cat(u, b); let u = number_of_values.enc(u); field_offset.lemma_cat(u, b); field_scale.lemma_cat(field_offset.enc(u), b);
            }
            DataRepresentationType::Type2 { number_of_values, padding, data_values } => { lemma_list_cat(data_values@, 0, a, b); let u = enc_list(data_values@, 0, a); padding.lemma_cat(u, b); number_of_values.lemma_cat(padding.enc(u), b); }
        }
    }
    proof fn lemma_rest(s: Bytes) { }
}
impl Wire for GridDataRecord {
    open spec fn enc(&self, t: Bytes) -> Bytes { self.sample_type.enc(self.data_representation.enc(self.data.enc(t))) }
    open spec fn size(&self) -> nat { 4 + self.data.size() }
    // types 0 and 1 are decodable only at the end of the buffer: see gdr_wf_last
    open spec fn wf(&self) -> bool { self.sample_type.wf() && self.data_representation.wf() && self.data_representation.d == 2 && self.data is Type2 && self.data.wf() }
    open spec fn same(&self, o: &Self) -> bool { self.sample_type.same(&o.sample_type) && self.data_representation.same(&o.data_representation) && self.data.same(&o.data) }
    open spec fn rest(s: Bytes) -> Option<Bytes> {
        if s.len() < 6 { None } else {
            let k = dec_GriddedDataDataRepresentation(bev(s.skip(2), 2));
            if k == 0 { match rest_list::<u8>(s.skip(6), bev(s.skip(4), 2)) { None => None, Some(_) => Some(nil()) } }
            else if k == 1 { if s.len() < 14 { None } else { match rest_list::<u16>(s.skip(14), bev(s.skip(12), 2)) { None => None, Some(_) => Some(nil()) } } }
            else { if s.len() < 8 { None } else { rest_list::<f32>(s.skip(8), bev(s.skip(4), 2)) } }
        }
    }
    open spec fn min() -> nat { 6 }
    open spec fn fixed() -> bool { false }
    open spec fn sfix() -> bool { false }
    proof fn lemma_len(&self, t: Bytes) { self.data.lemma_len(t); let u = self.data.enc(t); self.data_representation.lemma_len(u); self.sample_type.lemma_len(self.data_representation.enc(u)); }
    proof fn lemma_cat(&self, a: Bytes, b: Bytes) { self.data.lemma_cat(a, b); let u = self.data.enc(a); self.data_representation.lemma_cat(u, b); self.sample_type.lemma_cat(self.data_representation.enc(u), b); }
    proof fn lemma_rest(s: Bytes) {
        if s.len() >= 6 { lemma_list_rest::<u8>(s.skip(6), bev(s.skip(4), 2)); }
        if s.len() >= 8 { lemma_list_rest::<f32>(s.skip(8), bev(s.skip(4), 2)); }
        if s.len() >= 14 { lemma_list_rest::<u16>(s.skip(14), bev(s.skip(12), 2)); }
    }
}
pub open spec fn gdr_wf_last(v: GridDataRecord) -> bool { v.sample_type.wf() && v.data_representation.wf() && v.data.wf() && (v.data_representation.d == 0 && v.data is Type0 || v.data_representation.d == 1 && v.data is Type1) }
//@fn deserialize
    #[verifier::rlimit(60)]
    pub fn deserialize<B: Buf>(buf: &mut B) -> (r: Self)
        requires Self::rest(old(buf).view()) is Some, //@F P
        ensures
            final(buf).view() =~= Self::rest(old(buf).view())->0, //@F P
            forall|v: Self, t: Bytes| #![trigger v.enc(t)] old(buf).view() == v.enc(t) && v.wf() ==> r.same(&v) && final(buf).view() == t, //@F D
            forall|v: Self| #![trigger v.enc(nil())] old(buf).view() == v.enc(nil()) && gdr_wf_last(v) ==> r.same(&v), //@F D
