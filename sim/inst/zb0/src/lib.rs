use simcore::strm::{In, B0};
pub fn set() {
    let _ = B0::slots().zoo.set(zoo::bytes::<B0>);
}
