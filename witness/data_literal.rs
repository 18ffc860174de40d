//! E0451 E0423
extern crate html5_fuser as h;
pub fn f(a: h::text::Data) -> h::text::Data {
    /*BAD*/ h::text::Data { ..a }
    /*GOOD*/ a.clone()
}
