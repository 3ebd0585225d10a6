use simcore::mk::{install, special_text};
use simcore::strm::S3;
pub fn set() {
    install::<S3>(special_text::<S3>);
}
