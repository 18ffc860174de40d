//! E0624 E0599
extern crate html5_fuser as h;
pub fn f(s: &str) -> h::text::Data {
    /*BAD*/ h::text::Data::from_raw(s)
    /*GOOD*/ h::text::Data::from_unencoded_str(s)
}
