//! An object store that fails on demand.
use futures::stream::{BoxStream, StreamExt};
use object_store::path::Path;
use object_store::*;
use std::fmt::{Debug, Display};
use std::ops::Range;
use std::sync::{Arc, Mutex};

pub type Plan = Box<dyn FnMut(&str, &str) -> bool + Send>;

pub struct FaultStore {
    pub inner: Arc<dyn ObjectStore>,
    /// (operation, location) to whether it fails
    pub plan: Mutex<Option<Plan>>,
    /// (operation, location, failed)
    pub log: Mutex<Vec<(String, String, bool)>>,
}

pub fn injected(op: &str) -> Error {
    Error::Generic { store: "injected", source: format!("injected fault in {op}").into() }
}

impl FaultStore {
    pub fn new(inner: Arc<dyn ObjectStore>) -> Arc<Self> {
        Arc::new(FaultStore { inner, plan: Mutex::new(None), log: Default::default() })
    }
    pub fn arm(&self, plan: Option<Plan>) {
        *self.plan.lock().unwrap() = plan;
    }
    pub fn taken(&self) -> Vec<(String, String, bool)> {
        std::mem::take(&mut self.log.lock().unwrap())
    }
    fn at(&self, op: &str, location: &str) -> Result<()> {
        let fail = self.plan.lock().unwrap().as_mut().is_some_and(|p| p(op, location));
        self.log.lock().unwrap().push((op.into(), location.into(), fail));
        if fail {
            Err(injected(op))
        } else {
            Ok(())
        }
    }
}

impl Debug for FaultStore {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "FaultStore")
    }
}

impl Display for FaultStore {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "FaultStore")
    }
}

#[async_trait::async_trait]
impl ObjectStore for FaultStore {
    async fn put_opts(&self, location: &Path, payload: PutPayload, opts: PutOptions) -> Result<PutResult> {
        self.at("put", location.as_ref())?;
        self.inner.put_opts(location, payload, opts).await
    }
    async fn put_multipart_opts(&self, location: &Path, opts: PutMultipartOpts) -> Result<Box<dyn MultipartUpload>> {
        self.at("put_multipart", location.as_ref())?;
        self.inner.put_multipart_opts(location, opts).await
    }
    async fn get_opts(&self, location: &Path, options: GetOptions) -> Result<GetResult> {
        self.at("get", location.as_ref())?;
        self.inner.get_opts(location, options).await
    }
    async fn get_range(&self, location: &Path, range: Range<usize>) -> Result<bytes::Bytes> {
        self.at("get", location.as_ref())?;
        self.inner.get_range(location, range).await
    }
    async fn head(&self, location: &Path) -> Result<ObjectMeta> {
        self.at("head", location.as_ref())?;
        self.inner.head(location).await
    }
    async fn delete(&self, location: &Path) -> Result<()> {
        self.at("delete", location.as_ref())?;
        self.inner.delete(location).await
    }
    fn list(&self, prefix: Option<&Path>) -> BoxStream<'_, Result<ObjectMeta>> {
        // asked before every entry, and at the end
        let at = prefix.map(|p| p.to_string()).unwrap_or_default();
        let all: BoxStream<'_, Result<Option<ObjectMeta>>> = self.inner.list(prefix).map(|r| r.map(Some)).chain(futures::stream::iter([Ok(None)])).boxed();
        all.filter_map(move |r| {
            let out = match self.at("list", &at) {
                Err(e) => Some(Err(e)),
                Ok(()) => r.transpose(),
            };
            async move { out }
        })
        .boxed()
    }
    async fn list_with_delimiter(&self, prefix: Option<&Path>) -> Result<ListResult> {
        self.at("list", &prefix.map(|p| p.to_string()).unwrap_or_default())?;
        self.inner.list_with_delimiter(prefix).await
    }
    async fn copy(&self, from: &Path, to: &Path) -> Result<()> {
        self.at("copy", from.as_ref())?;
        self.inner.copy(from, to).await
    }
    async fn copy_if_not_exists(&self, from: &Path, to: &Path) -> Result<()> {
        self.at("copy", from.as_ref())?;
        self.inner.copy_if_not_exists(from, to).await
    }
}
