use simcore::look::{R2, R3, R5, MC};
use simcore::mk::{install, special_tokens_char};
pub fn set() {
    install::<R2>(special_tokens_char::<R2>);
    install::<R3>(special_tokens_char::<R3>);
    install::<R5>(special_tokens_char::<R5>);
    install::<MC>(special_tokens_char::<MC>);
}
