use simcore::mk::{install, special_bytes};
use simcore::strm::B1;
pub fn set() {
    install::<B1>(special_bytes::<B1>);
}
