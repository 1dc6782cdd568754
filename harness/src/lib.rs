#[cfg(feature = "diff")]
pub mod diff;
#[cfg(feature = "driver")]
pub mod driver;
#[cfg(feature = "edits")]
pub mod edits;
#[cfg(feature = "given")]
pub mod given;
pub mod gram;
#[cfg(feature = "grammars")]
pub mod grammars;
#[cfg(feature = "parts")]
pub mod parts;
#[cfg(feature = "readers")]
pub mod readers;
pub mod scripts;
#[cfg(feature = "shown")]
pub mod shown;
#[cfg(feature = "structs")]
pub mod structs;
pub mod sx;
pub mod texts;
#[cfg(feature = "vmcheck")]
pub mod vmcheck;

pub type Entry = fn(u64);

#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_smoke(_l: u64) {
    use henriks_parsing_project::script_parser::Parser;
    use henriks_parsing_project::vms::{NullVm, VM};
    let vm = NullVm::new();
    let mut st = NullVm::create_new_state();
    let mut p = Parser::new_from_text("start -> a b; a -> \"x\" | #; b -> \"yz\";", &vm);
    let mut s = String::new();
    let n = sx::pick(4);
    for _ in 0..n {
        s.push(sx::any_char());
    }
    let r = p.parse(Box::leak(s.into_boxed_str()), &mut st);
    sx::log(r.is_ok() as u64);
    if r.is_ok() { sx::cover(1); }
    sx::check(r.is_err() || n >= 2, 1);
}

// Each part of the harness is a feature of its own: where a change of the crate's interface keeps one
// from building, the checks of the others still run.
pub static ENTRIES: &[(&str, extern "C-unwind" fn(u64))] = &[
    ("h_smoke", h_smoke),
    #[cfg(feature = "grammars")]
    ("h_c04", grammars::h_c04),
    #[cfg(feature = "grammars")]
    ("h_c05", grammars::h_c05),
    #[cfg(feature = "grammars")]
    ("h_c06", grammars::h_c06),
    #[cfg(feature = "grammars")]
    ("h_c20", grammars::h_c20),
    ("h_c01", scripts::h_c01),
    ("h_c02", scripts::h_c02),
    ("h_c03", scripts::h_c03),
    ("h_c11", scripts::h_c11),
    #[cfg(feature = "structs")]
    ("h_c15", structs::h_c15),
    #[cfg(feature = "structs")]
    ("h_c16", structs::h_c16),
    #[cfg(feature = "structs")]
    ("h_c21", structs::h_c21),
    #[cfg(feature = "structs")]
    ("h_c19a", structs::h_c19a),
    #[cfg(feature = "structs")]
    ("h_c19b", structs::h_c19b),
    #[cfg(feature = "readers")]
    ("h_c17", readers::h_c17),
    #[cfg(feature = "readers")]
    ("h_c18", readers::h_c18),
    #[cfg(feature = "vmcheck")]
    ("h_c13", vmcheck::h_c13),
    #[cfg(feature = "vmcheck")]
    ("h_c14", vmcheck::h_c14),
    #[cfg(feature = "vmcheck")]
    ("h_c13s", vmcheck::h_c13s),
    #[cfg(feature = "vmcheck")]
    ("h_c14s", vmcheck::h_c14s),
    #[cfg(feature = "vmcheck")]
    ("h_c14t", vmcheck::h_c14t),
    #[cfg(feature = "vmcheck")]
    ("h_c27", vmcheck::h_c27),
    #[cfg(feature = "diff")]
    ("h_c07", diff::h_c07),
    #[cfg(feature = "diff")]
    ("h_c07r", diff::h_c07r),
    #[cfg(feature = "diff")]
    ("h_c19c", diff::h_c19c),
    #[cfg(feature = "diff")]
    ("h_c19d", diff::h_c19d),
    ("h_c08", texts::h_c08),
    ("h_c09", texts::h_c09),
    ("h_c10", texts::h_c10),
    ("h_c10d", texts::h_c10d),
    ("h_c12", texts::h_c12),
    #[cfg(feature = "edits")]
    ("h_c22", edits::h_c22),
    #[cfg(feature = "edits")]
    ("h_c23", edits::h_c23),
    #[cfg(feature = "given")]
    ("h_c24", given::h_c24),
    #[cfg(feature = "given")]
    ("h_c24b", given::h_c24b),
    #[cfg(feature = "driver")]
    ("h_c25", driver::h_c25),
    #[cfg(feature = "parts")]
    ("h_c26", parts::h_c26),
    #[cfg(feature = "shown")]
    ("h_c28", shown::h_c28),
];
