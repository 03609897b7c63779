use crate::{DeltaResult, Path};
use dashmap::DashMap;
use object_store::ObjectStore;
use std::collections::HashMap;
use std::sync::Arc;
use url::Url;

pub type ObjectStoreRef = Arc<dyn ObjectStore>;

#[derive(Debug, Clone, Default, PartialEq)]
pub struct StorageOptions(pub HashMap<String, String>);

pub trait ObjectStoreFactory: Send + Sync {
    fn parse_url_opts(&self, url: &Url, options: &StorageOptions) -> DeltaResult<(ObjectStoreRef, Path)>;
}

pub type FactoryRegistry = Arc<DashMap<Url, Arc<dyn ObjectStoreFactory>>>;

lazy_static::lazy_static! {
    static ref FACTORIES: FactoryRegistry = Arc::new(DashMap::new());
}

pub fn factories() -> FactoryRegistry {
    FACTORIES.clone()
}
