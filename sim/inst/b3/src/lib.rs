use simcore::mk::{install, special_bytes};
use simcore::strm::B3;
pub fn set() {
    install::<B3>(special_bytes::<B3>);
}
