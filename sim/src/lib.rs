#![allow(clippy::all)]
pub mod common;
pub mod crypt;
pub mod docs;
pub mod kv;
pub mod neb;
pub mod pubsub;
pub mod backup;
pub mod blk;
pub mod files;
pub mod mix;
pub mod net;
pub mod owner;
pub mod users;
pub mod schema;
mod cli;
pub use cli::main;
pub mod lin;
pub mod admin;
