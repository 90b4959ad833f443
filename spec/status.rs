//! C08: contracts of the PDU status record, checked by Kani on the compiled code of /repo, the code that
//! modular_bitfield generates included. Each proof passes an arbitrary status octet (and an arbitrary
//! indicator value) through the real functions and asserts their contract. The code has no loop whose number
//! of rounds depends on data, so the proofs are complete, not bounded.
#![allow(unused)]
use open_dis_rust::common::enums as en;
use open_dis_rust::common::pdu_header::PduStatusRecord as S;

/// the value an indicator of `w` bits at bit `at` has in octet `b`
const fn field(b: u8, at: u32, w: u32) -> u8 { (b >> at) & ((1 << w) - 1) }
const fn put(b: u8, at: u32, w: u32, v: u8) -> u8 { b & !(((1 << w) - 1) << at) | v << at }

#[kani::proof]
fn octet_round_trip() { let b: u8 = kani::any(); assert!(S::from_u8(b).to_u8() == b, "a status octet survives the record"); }

#[kani::proof]
fn zero() { assert!(S::new_zero().to_u8() == 0 && S::default().to_u8() == 0, "the zero record is octet zero"); }

macro_rules! indicator {
    ($get:ident, $set:ident, $at:expr, $w:expr, $getter:ident, $setter:ident, $max:expr, $dflt:expr, [$($v:expr),*]) => {
        #[kani::proof]
        fn $get() {
            let b: u8 = kani::any();
            let r = S::from_u8(b).$getter() as u8;
            // ensures
            assert!(r == (if field(b, $at, $w) <= $max { field(b, $at, $w) } else { $dflt }), "the indicator is read from its bits; a code no enumerator has reads as the default");
        }
        #[kani::proof]
        fn $set() {
            let (b, v): (u8, u8) = (kani::any(), kani::any());
            kani::assume(v <= $max); // requires
            let mut x = S::from_u8(b);
            let e = [$($v),*][v as usize];
            x.$setter(e);
            // ensures
            assert!(x.$getter() as u8 == v, "the indicator reads back what was set");
            assert!(x.to_u8() == put(b, $at, $w, v), "the other bits stay as they were");
        }
    };
}
indicator!(get_tei, set_tei, 0, 1, tei, set_tei, 1, 0, [en::TransferredEntityIndicator::NoDifference, en::TransferredEntityIndicator::Difference]);
indicator!(get_lvc, set_lvc, 1, 2, lvc, set_lvc, 3, 0, [en::LVCIndicator::NoStatement, en::LVCIndicator::Live, en::LVCIndicator::Virtual, en::LVCIndicator::Constructive]);
indicator!(get_cei, set_cei, 3, 1, cei, set_cei, 1, 0, [en::CoupledExtensionIndicator::NotCoupled, en::CoupledExtensionIndicator::Coupled]);
indicator!(get_fti, set_fti, 4, 1, get_fti, set_fti, 1, 0, [en::FireTypeIndicator::Munition, en::FireTypeIndicator::Expendable]);
indicator!(get_ism, set_ism, 4, 1, get_ism, set_ism, 1, 0, [en::PduStatusIFFSimulationMode::Regeneration, en::PduStatusIFFSimulationMode::Interactive]);
indicator!(get_dti, set_dti, 4, 2, get_dti, set_dti, 2, 0, [en::DetonationTypeIndicator::Munition, en::DetonationTypeIndicator::Expendable, en::DetonationTypeIndicator::NonMunitionExplosion]);
indicator!(get_rai, set_rai, 4, 2, get_rai, set_rai, 2, 0, [en::RadioAttachedIndicator::NoStatement, en::RadioAttachedIndicator::Unattached, en::RadioAttachedIndicator::Attached]);
indicator!(get_iai, set_iai, 4, 2, get_iai, set_iai, 2, 0, [en::IntercomAttachedIndicator::NoStatement, en::IntercomAttachedIndicator::Unattached, en::IntercomAttachedIndicator::Attached]);
indicator!(get_aii, set_aii, 5, 1, get_aii, set_aii, 1, 0, [en::ActiveInterrogationIndicator::NotActive, en::ActiveInterrogationIndicator::Active]);
