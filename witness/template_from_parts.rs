//! E0624 E0599
extern crate html5_fuser as h;
pub fn f(s: Box<dyn h::Stream>) {
    /*BAD*/ let _ = h::Template::from_stream(s);
    /*GOOD*/ let _ = (h::Template::with_element("a"), s);
}
