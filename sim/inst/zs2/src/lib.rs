use simcore::strm::{In, S2};
pub fn set() {
    let _ = S2::slots().zoo.set(zoo::text::<S2>);
}
