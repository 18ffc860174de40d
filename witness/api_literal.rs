//! E0451 E0423 E0063 E0560 E0026
// A handle has no public constructor syntax (functional update would need private fields).
extern crate html5_fuser as h;
pub fn f<'t>(a: h::transform::BoxedApi<'t>) -> h::transform::BoxedApi<'t> {
    /*BAD*/ h::transform::Api { ..a }
    /*GOOD*/ a
}
