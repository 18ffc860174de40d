//! E0624 E0599
// The stream inside of a handle cannot be taken out.
extern crate html5_fuser as h;
pub fn f<'t>(a: h::transform::BoxedApi<'t>) {
    /*BAD*/ let _s = a.unpack();
    /*GOOD*/ let _s = a.into_boxed();
}
