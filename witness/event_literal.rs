//! E0451 E0423 E0603
extern crate html5_fuser as h;
pub fn f(a: h::event::Event) -> h::event::Event {
    /*BAD*/ h::event::Event { ..a }
    /*GOOD*/ a.clone()
}
