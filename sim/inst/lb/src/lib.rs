use simcore::look::{R0, R1, R4, MB};
use simcore::mk::{install, special_tokens_u8};
pub fn set() {
    install::<R0>(special_tokens_u8::<R0>);
    install::<R1>(special_tokens_u8::<R1>);
    install::<R4>(special_tokens_u8::<R4>);
    install::<MB>(special_tokens_u8::<MB>);
}
