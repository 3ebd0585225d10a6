use simcore::mk::{install, special_text};
use simcore::strm::S0;
pub fn set() {
    install::<S0>(special_text::<S0>);
}
