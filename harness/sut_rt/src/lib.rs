// Partial crate root: provider.rs needs the connectorx fork, and factory.rs needs provider.rs.
#[path = "/repo/datafusion_remote_tables/src/filter_pushdown.rs"]
pub mod filter_pushdown;
