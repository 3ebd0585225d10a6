use simcore::strm::{In, B2};
pub fn set() {
    let _ = B2::slots().zoo.set(zoo::bytes::<B2>);
}
