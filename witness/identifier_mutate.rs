//! E0594 E0596
extern crate html5_fuser as h;
pub fn f(mut a: h::text::Identifier) {
    /*BAD*/ (*a).make_ascii_uppercase();
    /*GOOD*/ (*a).to_ascii_uppercase();
    let _ = &mut a;
}
