//! E0624 E0599
extern crate html5_fuser as h;
pub fn f(s: &str) -> h::text::Value {
    /*BAD*/ h::text::Value::from_raw(s)
    /*GOOD*/ h::text::Value::from_unencoded_str(s)
}
