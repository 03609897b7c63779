// Compiled, never tested: the tests in these files, or none at all, need modules that are left out.
#![feature(let_chains)]
#![allow(dead_code)]

#[path = "/repo/src/memory_pool.rs"]
pub mod memory_pool;

pub mod cli {
    #[path = "/repo/src/cli/commands.rs"]
    pub mod commands;
    #[path = "/repo/src/cli/helper.rs"]
    pub mod helper;
}

pub mod frontend {
    #[path = "/repo/src/frontend/http_utils.rs"]
    pub mod http_utils;
}

pub mod object_store {
    #[path = "/repo/src/object_store/utils.rs"]
    pub mod utils;
}
