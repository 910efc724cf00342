pub mod alloc;
pub mod checks;
pub mod engine;
pub mod gen;
pub mod hist;
pub mod io;
pub mod model;
pub mod supervise;
pub mod util;

#[global_allocator]
static ALLOC: alloc::Checking = alloc::Checking;
