use simcore::mk::{install, special_bytes};
use simcore::strm::B0;
pub fn set() {
    install::<B0>(special_bytes::<B0>);
}
