//! E0451 E0423
extern crate html5_fuser as h;
pub fn f(a: h::text::Value) -> h::text::Value {
    /*BAD*/ h::text::Value { ..a }
    /*GOOD*/ a.clone()
}
