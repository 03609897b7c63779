//! The parts of the iceberg crate the modules under test use.
#[cfg(feature = "tables")]
mod tables;
#[cfg(feature = "tables")]
pub use tables::*;

/// The FileIO property names, as the iceberg crate spells them.
pub mod io {
    pub const S3_ENDPOINT: &str = "s3.endpoint";
    pub const S3_ACCESS_KEY_ID: &str = "s3.access-key-id";
    pub const S3_SECRET_ACCESS_KEY: &str = "s3.secret-access-key";
    pub const S3_REGION: &str = "s3.region";
    pub const S3_SESSION_TOKEN: &str = "s3.session-token";
    pub const S3_ALLOW_ANONYMOUS: &str = "s3.allow-anonymous";
    pub const S3_DISABLE_EC2_METADATA: &str = "s3.disable-ec2-metadata";
    pub const S3_DISABLE_CONFIG_LOAD: &str = "s3.disable-config-load";
    pub const S3_PATH_STYLE_ACCESS: &str = "s3.path-style-access";
    #[cfg(feature = "tables")]
    pub use crate::tables::file_io::*;
}
