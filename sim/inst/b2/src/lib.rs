use simcore::mk::{install, special_bytes};
use simcore::strm::B2;
pub fn set() {
    install::<B2>(special_bytes::<B2>);
}
