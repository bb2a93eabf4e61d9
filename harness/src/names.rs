static NAMES: &[(&str, extern "C-unwind" fn())] = &[
    ("h_c06", harness::alloc::h_c06 as extern "C-unwind" fn()),
    ("h_c06l", harness::alloc::h_c06l as extern "C-unwind" fn()),
    ("h_c07s", harness::alloc::h_c07s as extern "C-unwind" fn()),
    ("h_c07l", harness::alloc::h_c07l as extern "C-unwind" fn()),
    ("h_c07", harness::alloc::h_c07 as extern "C-unwind" fn()),
    ("h_c09", harness::alloc::h_c09 as extern "C-unwind" fn()),
    ("h_c19", harness::asyn::h_c19 as extern "C-unwind" fn()),
    ("h_c12", harness::conc::h_c12 as extern "C-unwind" fn()),
    ("h_c08", harness::conc::h_c08 as extern "C-unwind" fn()),
    ("h_c26", harness::conc::h_c26 as extern "C-unwind" fn()),
    ("h_c16", harness::crud::h_c16 as extern "C-unwind" fn()),
    ("h_c16b", harness::crud::h_c16b as extern "C-unwind" fn()),
    ("h_c17", harness::crud::h_c17 as extern "C-unwind" fn()),
    ("h_c17n", harness::crud::h_c17n as extern "C-unwind" fn()),
    ("h_c23", harness::measurers::h_c23 as extern "C-unwind" fn()),
    ("h_c24", harness::panics::h_c24 as extern "C-unwind" fn()),
    ("h_c24c", harness::panics::h_c24c as extern "C-unwind" fn()),
    ("h_c24i", harness::panics::h_c24i as extern "C-unwind" fn()),
    ("h_c24a", harness::panics::h_c24a as extern "C-unwind" fn()),
    ("h_c14", harness::passes::h_c14 as extern "C-unwind" fn()),
    ("h_c14b", harness::passes::h_c14b as extern "C-unwind" fn()),
    ("h_c15", harness::passes::h_c15 as extern "C-unwind" fn()),
    ("h_c15i", harness::passes::h_c15i as extern "C-unwind" fn()),
    ("h_c20", harness::reports::h_c20 as extern "C-unwind" fn()),
    ("h_c20t", harness::reports::h_c20t as extern "C-unwind" fn()),
    ("h_c20r", harness::reports::h_c20r as extern "C-unwind" fn()),
    ("h_c21", harness::reports::h_c21 as extern "C-unwind" fn()),
    ("h_c21u", harness::reports::h_c21u as extern "C-unwind" fn()),
    ("h_c10", harness::ring::h_c10 as extern "C-unwind" fn()),
    ("h_c11", harness::ring::h_c11 as extern "C-unwind" fn()),
    ("h_c25", harness::rows::h_c25 as extern "C-unwind" fn()),
    ("h_c25c", harness::rows::h_c25c as extern "C-unwind" fn()),
    ("h_c18", harness::runners::h_c18 as extern "C-unwind" fn()),
    ("h_c22", harness::texts::h_c22 as extern "C-unwind" fn()),
    ("h_c22r", harness::texts::h_c22r as extern "C-unwind" fn()),
    ("h_c01", harness::verdict::h_c01 as extern "C-unwind" fn()),
    ("h_c02", harness::verdict::h_c02 as extern "C-unwind" fn()),
    ("h_c03", harness::verdict::h_c03 as extern "C-unwind" fn()),
    ("h_c04", harness::verdict::h_c04 as extern "C-unwind" fn()),
    ("h_c05", harness::verdict::h_c05 as extern "C-unwind" fn()),
];
