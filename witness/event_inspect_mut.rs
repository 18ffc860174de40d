//! E0616
extern crate html5_fuser as h;
pub fn f(a: &mut h::event::Event) {
    /*BAD*/ let _k = &mut a.0;
    /*GOOD*/ let _k = a.description();
}
