//! E0521 E0308 E0271 E0716 E0597 LIFETIME
// The handle of one call must not be returned from another call.
extern crate html5_fuser as h;
use h::transform::Api;
use h::template::TemplateStream;
pub fn f<'a>(t: &h::Template, other: Api<'a, TemplateStream>) {
    let mut o = Some(other);
    let _ = t.transform(|html| {
        let x = o.take().unwrap();
        /*BAD*/ x
        /*GOOD*/ drop(x); html
    });
}
