//! E0624 E0599
// Streams cannot be wrapped into a handle by client code.
extern crate html5_fuser as h;
pub fn f<'t>(a: h::transform::Api<'t, Box<dyn h::Stream>>, s: Box<dyn h::Stream>) -> h::transform::BoxedApi<'t> {
    /*BAD*/ h::transform::Api::pack(s)
    /*GOOD*/ { drop(s); a }
}
