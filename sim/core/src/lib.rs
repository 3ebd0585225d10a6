#![allow(clippy::all)]
#![allow(dead_code)]
pub mod ast;
pub mod bufr;
pub mod case;
pub mod codec;
pub mod ctx;
pub mod dec;
pub mod drv;
pub mod gen;
pub mod genzoo;
pub mod look;
pub mod mem;
pub mod mk;
pub mod props;
pub mod refm;
pub mod rng;
pub mod run;
pub mod src;
pub mod strm;
pub mod sup;
pub mod zootext;
