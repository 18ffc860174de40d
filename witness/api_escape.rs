//! E0521 E0308 LIFETIME
// A handle must not be kept beyond the builder call it was handed to.
extern crate html5_fuser as h;
pub fn f(t: &h::Template) {
    let mut kept = None;
    let _ = t.transform(|html| {
        /*BAD*/ kept = Some(html);
        /*GOOD*/ kept = Some(1u8);
        /*BAD*/ panic!() as h::transform::BoxedApi<'_>
        /*GOOD*/ html.into_boxed()
    });
    drop(kept);
}
