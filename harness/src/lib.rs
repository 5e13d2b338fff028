//! Property-based checks for protofish.

pub mod alloc;
pub mod engine;
pub mod evolve;
pub mod huge;
pub mod json;
pub mod props;
pub mod render;
pub mod schema;
pub mod tape;
pub mod view;
pub mod wire;
pub mod world;
pub mod xcheck;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;
