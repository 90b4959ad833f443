// Contracts of further public functions, one section per function: `//@T type`, `//@bcast group`,
// `//@fn name` (or `//@fn Trait::method`, emitted as the inherent method op_method). The signature is
// the one in /repo with the result named; the body is the extracted one.
//@T Vector3Float
//@bcast group_float
//@fn zero
    pub fn zero() -> (r: Self) ensures r == (Vector3Float { x: flit(0), y: flit(0), z: flit(0) }) //@F F
//@fn one
    pub fn one() -> (r: Self) ensures r == (Vector3Float { x: flit(0x3f80_0000), y: flit(0x3f80_0000), z: flit(0x3f80_0000) }) //@F F
//@fn unit_x
    pub fn unit_x() -> (r: Self) ensures r == (Vector3Float { x: flit(0x3f80_0000), y: flit(0), z: flit(0) }) //@F F
//@fn unit_y
    pub fn unit_y() -> (r: Self) ensures r == (Vector3Float { x: flit(0), y: flit(0x3f80_0000), z: flit(0) }) //@F F
//@fn unit_z
    pub fn unit_z() -> (r: Self) ensures r == (Vector3Float { x: flit(0), y: flit(0), z: flit(0x3f80_0000) }) //@F F
//@fn dot
    pub fn dot(&self, other: &Self) -> (r: f32) ensures r == ffma(self.z, other.z, ffma(self.x, other.x, fmul(self.y, other.y))) //@F F
//@fn cross
    pub fn cross(&self, other: &Self) -> (r: Self)
        ensures
            r.x == ffma(self.y, other.z, fneg(fmul(self.z, other.y))), //@F F
            r.y == ffma(self.z, other.x, fneg(fmul(self.x, other.z))), //@F F
            r.z == ffma(self.x, other.y, fneg(fmul(self.y, other.x))), //@F F
//@fn magnitude
    pub fn magnitude(&self) -> (r: f32) ensures r == v3_mag(*self) //@F F
//@fn normalize
    pub fn normalize(&self) -> (r: Option<Self>)
        ensures
            r is None <==> feq(v3_mag(*self), flit(0)), //@F F
            r is Some ==> r->0 == (Vector3Float { x: fdiv(self.x, v3_mag(*self)), y: fdiv(self.y, v3_mag(*self)), z: fdiv(self.z, v3_mag(*self)) }), //@F F
//@fn Add::add
    pub fn op_add(self, other: Self) -> (r: Self) ensures r == (Vector3Float { x: fadd(self.x, other.x), y: fadd(self.y, other.y), z: fadd(self.z, other.z) }) //@F F
//@fn Sub::sub
    pub fn op_sub(self, other: Self) -> (r: Self) ensures r == (Vector3Float { x: fsub(self.x, other.x), y: fsub(self.y, other.y), z: fsub(self.z, other.z) }) //@F F
//@fn Mul::mul
    pub fn op_mul(self, scalar: f32) -> (r: Self) ensures r == (Vector3Float { x: fmul(self.x, scalar), y: fmul(self.y, scalar), z: fmul(self.z, scalar) }) //@F F
//@fn Div::div
    pub fn op_div(self, scalar: f32) -> (r: Self) ensures r == (Vector3Float { x: fdiv(self.x, scalar), y: fdiv(self.y, scalar), z: fdiv(self.z, scalar) }) //@F F
//@raw
pub open spec fn v3_mag(v: Vector3Float) -> f32 { fsqrt(ffma(v.z, v.z, ffma(v.x, v.x, fmul(v.y, v.y)))) }
//@T PduHeader
//@bcast axiom_bev1
//@ens default
        ensures is_now(r.timestamp), //@F T
//@fn calculate_dis_timestamp
    #[verifier::external_body] pub fn calculate_dis_timestamp() -> (r: u32) ensures is_now(r) { unimplemented!() }
    pub fn calculate_dis_timestamp_(clock: &mut VClock) -> (r: u32)
        ensures
            exists|i: nat| old(clock).at() <= i < final(clock).at() && dis_near(r as int, #[trigger] VClock::reading(i)), //@F T
            r < 0x8000_0000, //@F T
//@ens deserialize_field
        ensures r.pdu_type.d == dec_PduType(bev(old(buf).view().skip(2), 1)), //@F D
//@ens deserialize
            r.pdu_type.d == dec_PduType(bev(old(buf).view().skip(2), 1)), //@F D
//@fn get_pdu_type
    pub fn get_pdu_type(bytes: &[u8]) -> (r: Option<PduType>)
        ensures
            r is None <==> bytes@.len() < 12, //@F K
            bytes@.len() >= 12 ==> r->0.d == dec_PduType(bytes@[2] as nat), //@F K
//@fn GenericHeader::pdu_type
    pub fn pdu_type(&self) -> (r: PduType) ensures r == self.pdu_type //@F HR
//@fn GenericHeader::set_pdu_type
    pub fn set_pdu_type(&mut self, value: PduType) -> (r: ()) ensures final(self).pdu_type == value, *final(self) == (PduHeader { pdu_type: value, ..*old(self) }) //@F HS
//@fn GenericHeader::protocol_family
    pub fn protocol_family(&self) -> (r: ProtocolFamily) ensures r == self.protocol_family //@F H
//@fn GenericHeader::set_protocol_family
    pub fn set_protocol_family(&mut self, value: ProtocolFamily) -> (r: ()) ensures final(self).protocol_family == value, *final(self) == (PduHeader { protocol_family: value, ..*old(self) }) //@F HS
//@fn GenericHeader::length
    pub fn length(&self) -> (r: u16) ensures r == self.length //@F H
//@fn GenericHeader::set_length
    pub fn set_length(&mut self, value: u16) -> (r: ()) ensures final(self).length == value, *final(self) == (PduHeader { length: value, ..*old(self) }) //@F HS
//@T LiveEntityPduHeader
//@fn GenericHeader::pdu_type
    pub fn pdu_type(&self) -> (r: PduType) ensures r == self.pdu_type //@F HR
//@fn GenericHeader::set_pdu_type
    pub fn set_pdu_type(&mut self, value: PduType) -> (r: ()) ensures final(self).pdu_type == value, *final(self) == (LiveEntityPduHeader { pdu_type: value, ..*old(self) }) //@F HS
//@fn GenericHeader::protocol_family
    pub fn protocol_family(&self) -> (r: ProtocolFamily) ensures r == self.protocol_family //@F H
//@fn GenericHeader::set_protocol_family
    pub fn set_protocol_family(&mut self, value: ProtocolFamily) -> (r: ()) ensures final(self).protocol_family == value, *final(self) == (LiveEntityPduHeader { protocol_family: value, ..*old(self) }) //@F HS
//@fn GenericHeader::length
    pub fn length(&self) -> (r: u16) ensures r == self.length //@F H
//@fn GenericHeader::set_length
    pub fn set_length(&mut self, value: u16) -> (r: ()) ensures final(self).length == value, *final(self) == (LiveEntityPduHeader { length: value, ..*old(self) }) //@F HS
//@ens default
        ensures is_now(r.timestamp), //@F T
//@fn calculate_dis_timestamp
    #[verifier::external_body] pub fn calculate_dis_timestamp() -> (r: u32) ensures is_now(r) { unimplemented!() }
    pub fn calculate_dis_timestamp_(clock: &mut VClock) -> (r: u32)
        ensures
            exists|i: nat| old(clock).at() <= i < final(clock).at() && dis_near(r as int, #[trigger] VClock::reading(i)), //@F T
            r < 0x8000_0000, //@F T
