    use open_dis_rust::common::enums as pe;
    {
        let r = quiet(|| -> bool {
            let x = GridAxisDescriptor { domain_initial: 0.0, domain_final: 1.0, domain_points: 1, interleaf_factor: 0, axis_type: pe::GridAxisDescriptorAxisType::IrregularAxis, data: GridAxisType::VariableSpacing { number_of_points_on_x_axis: 1, initial_index: 0, coordinate_scale_x: 1.0, coordinate_offset_x: 0.0, x_values: vec![7], padding: vec![0; 6] } };
            let mut b = BytesMut::new(); x.serialize(&mut b); b.extend_from_slice(&[1, 2, 3]);
            let mut s = &b[..]; let y = GridAxisDescriptor::deserialize(&mut s); y.eqv(&x) && s == [1, 2, 3]
        });
        println!("PROBE\taxis.irregular\t{}", if matches!(r, Ok(true)) { "ok" } else { "fail" });
    }
    for (id, k, d) in [("grid.type0", pe::GriddedDataDataRepresentation::Type0, DataRepresentationType::Type0 { number_of_octets: 1, data_values: vec![7], padding: vec![0] }),
                   ("grid.type1", pe::GriddedDataDataRepresentation::Type1, DataRepresentationType::Type1 { field_scale: 1.0, field_offset: 0.0, number_of_values: 1, data_values: vec![7], padding: vec![0, 0] })] {
        let r = quiet(|| -> bool {
            let x = GridDataRecord { sample_type: Default::default(), data_representation: k, data: d.clone() };
            let mut b = BytesMut::new(); x.serialize(&mut b); b.extend_from_slice(&[1, 2, 3]);
            let mut s = &b[..]; let y = GridDataRecord::deserialize(&mut s); y.eqv(&x) && s == [1, 2, 3]
        });
        println!("PROBE\t{id}\t{}", if matches!(r, Ok(true)) { "ok" } else { "fail" });
    }
