//! E0451 E0423
extern crate html5_fuser as h;
pub fn f(a: h::Template) -> h::Template {
    /*BAD*/ h::Template { ..a }
    /*GOOD*/ a.clone()
}
