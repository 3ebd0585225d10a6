use simcore::mk::{install, special_text};
use simcore::strm::S2;
pub fn set() {
    install::<S2>(special_text::<S2>);
}
