//! E0521 E0621 E0759 E0277 E0597 E0716 LIFETIME
// Only text that lives forever may be stored by reference.
extern crate html5_fuser as h;
pub fn f(s: String) -> h::text::Value {
    /*BAD*/ h::text::Value::from_unencoded_static_str(&s)
    /*GOOD*/ h::text::Value::from_unencoded_str(&s)
}
