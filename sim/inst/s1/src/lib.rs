use simcore::mk::{install, special_text};
use simcore::strm::S1;
pub fn set() {
    install::<S1>(special_text::<S1>);
}
