//! E0451 E0423
extern crate html5_fuser as h;
pub fn f(a: h::select::Tag) -> h::select::Tag {
    /*BAD*/ h::select::Tag { ..a }
    /*GOOD*/ a.clone()
}
