//! E0451 E0423
extern crate html5_fuser as h;
pub fn f(a: h::text::Identifier) -> h::text::Identifier {
    /*BAD*/ h::text::Identifier { ..a }
    /*GOOD*/ a.clone()
}
