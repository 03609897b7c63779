use crate::errors::DeltaTableError;
use crate::kernel::{Action, CommitInfo};
use crate::storage::{ObjectStoreRef, StorageOptions};
use crate::{DeltaResult, Path};
use futures::stream::BoxStream;
use futures::{StreamExt, TryStreamExt};
use object_store::{
    GetOptions, GetResult, ListResult, MultipartUpload, ObjectMeta, ObjectStore, PutMode, PutMultipartOpts, PutOptions,
    PutPayload, PutResult, UploadPart,
};
use std::fmt::{Debug, Display};
use std::sync::Arc;
use url::Url;

pub type LogStoreRef = Arc<dyn LogStore>;

#[async_trait::async_trait]
pub trait LogStore: Debug + Send + Sync {
    fn object_store(&self) -> Arc<dyn ObjectStore>;
    fn root_uri(&self) -> String;

    async fn is_delta_table_location(&self) -> DeltaResult<bool> {
        Ok(!self.versions().await?.is_empty())
    }

    /// (version, time of its commit in ms), in version order
    async fn versions(&self) -> DeltaResult<Vec<(i64, i64)>> {
        let objects: Vec<_> = self.object_store().list(Some(&Path::from("_delta_log"))).try_collect().await?;
        let mut versions: Vec<_> = objects
            .iter()
            .filter_map(|o| {
                let v: i64 = o.location.filename()?.strip_suffix(".json")?.parse().ok()?;
                Some((v, o.last_modified.timestamp_millis()))
            })
            .collect();
        versions.sort();
        Ok(versions)
    }

    async fn read_commit(&self, version: i64) -> DeltaResult<Vec<Action>> {
        let data = self.object_store().get(&commit_path(version)).await?.bytes().await?;
        serde_json::Deserializer::from_slice(&data)
            .into_iter::<Action>()
            .collect::<Result<_, _>>()
            .map_err(DeltaTableError::Json)
    }

    /// `false` if the version was there already
    async fn write_commit(&self, version: i64, actions: &[Action], operation: &str) -> DeltaResult<bool> {
        let mut out = vec![];
        let now = chrono::Utc::now().timestamp_millis();
        let info = |base: CommitInfo| {
            Action::CommitInfo(CommitInfo { timestamp: Some(now), operation: Some(operation.to_string()), ..base })
        };
        let mut seen = false;
        for a in actions {
            match a {
                Action::CommitInfo(i) => {
                    seen = true;
                    serde_json::to_writer(&mut out, &info(i.clone()))?;
                }
                a => serde_json::to_writer(&mut out, a)?,
            }
            out.push(b'\n');
        }
        if !seen {
            serde_json::to_writer(&mut out, &info(Default::default()))?;
            out.push(b'\n');
        }
        let opts = PutOptions { mode: PutMode::Create, ..Default::default() };
        match self.object_store().put_opts(&commit_path(version), out.into(), opts).await {
            Ok(_) => Ok(true),
            Err(object_store::Error::AlreadyExists { .. }) => Ok(false),
            Err(e) => Err(e.into()),
        }
    }
}

fn commit_path(version: i64) -> Path {
    Path::from(format!("_delta_log/{version:020}.json"))
}

#[derive(Debug)]
struct DefaultLogStore {
    store: ObjectStoreRef,
    location: Url,
}

#[async_trait::async_trait]
impl LogStore for DefaultLogStore {
    fn object_store(&self) -> Arc<dyn ObjectStore> {
        self.store.clone()
    }
    fn root_uri(&self) -> String {
        let uri = self.location.to_string();
        let uri = uri.strip_prefix("file://").unwrap_or(&uri);
        uri.trim_end_matches('/').to_string()
    }
}

pub fn default_logstore(store: ObjectStoreRef, location: &Url, _options: &StorageOptions) -> Arc<dyn LogStore> {
    Arc::new(DefaultLogStore { store: Arc::new(HookedStore(store)), location: location.clone() })
}

/// Decides whether an operation (its name, its path inside the table) fails.
pub type Hook = Box<dyn FnMut(&str, &str) -> bool>;
thread_local! {
    static HOOK: std::cell::RefCell<Option<Hook>> = const { std::cell::RefCell::new(None) };
}
/// Installs a hook for the table stores used from this thread; gives back the previous one.
pub fn set_hook(h: Option<Hook>) -> Option<Hook> {
    HOOK.with(|c| c.replace(h))
}
/// Says how many times an operation gives way to other tasks before it runs.
pub type Yielder = Box<dyn FnMut() -> usize>;
thread_local! {
    static YIELD: std::cell::RefCell<Option<Yielder>> = const { std::cell::RefCell::new(None) };
}
pub fn set_yield(y: Option<Yielder>) -> Option<Yielder> {
    YIELD.with(|c| c.replace(y))
}
async fn step(op: &str, path: &Path) -> object_store::Result<()> {
    let n = YIELD.with(|c| c.borrow_mut().as_mut().map_or(0, |y| y()));
    for _ in 0..n {
        let mut done = false;
        futures::future::poll_fn(|cx| {
            if std::mem::replace(&mut done, true) {
                return std::task::Poll::Ready(());
            }
            cx.waker().wake_by_ref();
            std::task::Poll::Pending
        })
        .await;
    }
    hook(op, path)
}
fn hook(op: &str, path: &Path) -> object_store::Result<()> {
    let fail = HOOK.with(|c| c.borrow_mut().as_mut().is_some_and(|h| h(op, path.as_ref())));
    match fail {
        true => Err(object_store::Error::Generic { store: "injected", source: format!("injected fault in {op}").into() }),
        false => Ok(()),
    }
}

/// Asks the hook before every operation.
#[derive(Debug)]
struct HookedStore(ObjectStoreRef);

impl std::fmt::Display for HookedStore {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Display::fmt(&self.0, f)
    }
}

#[derive(Debug)]
struct HookedUpload(Box<dyn MultipartUpload>, Path);

#[async_trait::async_trait]
impl MultipartUpload for HookedUpload {
    fn put_part(&mut self, data: PutPayload) -> UploadPart {
        match hook("put_part", &self.1) {
            Ok(()) => self.0.put_part(data),
            Err(e) => Box::pin(async move { Err(e) }),
        }
    }
    async fn complete(&mut self) -> object_store::Result<PutResult> {
        step("complete", &self.1).await?;
        self.0.complete().await
    }
    async fn abort(&mut self) -> object_store::Result<()> {
        self.0.abort().await
    }
}

#[async_trait::async_trait]
impl ObjectStore for HookedStore {
    async fn put_opts(&self, p: &Path, d: PutPayload, o: PutOptions) -> object_store::Result<PutResult> {
        step("put", p).await?;
        self.0.put_opts(p, d, o).await
    }
    async fn put_multipart_opts(
        &self,
        p: &Path,
        o: PutMultipartOpts,
    ) -> object_store::Result<Box<dyn MultipartUpload>> {
        step("put_multipart", p).await?;
        Ok(Box::new(HookedUpload(self.0.put_multipart_opts(p, o).await?, p.clone())))
    }
    async fn get_opts(&self, p: &Path, o: GetOptions) -> object_store::Result<GetResult> {
        step("get", p).await?;
        self.0.get_opts(p, o).await
    }
    async fn delete(&self, p: &Path) -> object_store::Result<()> {
        step("delete", p).await?;
        self.0.delete(p).await
    }
    fn list(&self, p: Option<&Path>) -> BoxStream<'_, object_store::Result<ObjectMeta>> {
        if let Err(e) = hook("list", p.unwrap_or(&Path::default())) {
            return futures::stream::once(async move { Err(e) }).boxed();
        }
        self.0.list(p)
    }
    async fn list_with_delimiter(&self, p: Option<&Path>) -> object_store::Result<ListResult> {
        self.0.list_with_delimiter(p).await
    }
    async fn copy(&self, a: &Path, b: &Path) -> object_store::Result<()> {
        step("copy", b).await?;
        self.0.copy(a, b).await
    }
    async fn copy_if_not_exists(&self, a: &Path, b: &Path) -> object_store::Result<()> {
        step("copy", b).await?;
        self.0.copy_if_not_exists(a, b).await
    }
    async fn rename_if_not_exists(&self, a: &Path, b: &Path) -> object_store::Result<()> {
        step("rename", b).await?;
        self.0.rename_if_not_exists(a, b).await
    }
}
