//! C21: a fast upload moves the file's exact bytes to its target, or fails and loses nothing.
//! Everything happens inside scratch directories, one in memory and one on disk, so that both ways of moving are taken.
use pbt::*;
use seafowl_untested::object_store::utils::fast_upload;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

static N: AtomicUsize = AtomicUsize::new(0);

/// Every file below, with its bytes (directories as None).
fn tree(root: &Path) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
    fn go(root: &Path, d: &Path, out: &mut BTreeMap<PathBuf, Option<Vec<u8>>>) {
        for e in std::fs::read_dir(d).unwrap().flatten() {
            let p = e.path();
            let k = p.strip_prefix(root).unwrap().to_path_buf();
            let t = e.file_type().unwrap();
            if t.is_dir() {
                out.insert(k, None);
                go(root, &p, out);
            } else if t.is_symlink() {
                out.insert(k, Some(format!("-> {:?}", std::fs::read_link(&p)).into_bytes()));
            } else {
                out.insert(k, Some(std::fs::read(&p).unwrap()));
            }
        }
    }
    let mut out = BTreeMap::new();
    go(root, root, &mut out);
    out
}

fn bytes(s: &mut Src) -> Vec<u8> {
    let n = match s.below(8) {
        0 => 0,
        1 => *s.pick(&[1, 2, 4095, 4096, 4097, 65536, 131073]),
        2 => s.urange(0, 300_000),
        _ => s.urange(0, 400),
    };
    let (a, b) = (s.below(256) as u8, s.below(256) as usize | 1);
    (0..n).map(|i| a.wrapping_add((i * b >> 3) as u8)).collect()
}

const SEGS: &[&str] = &["a", "b", "tbl", "0189-uuid", "a b", "é", "a%20b", "x.parquet", "=", "..."];

fn case(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let mem = tempfile::tempdir_in("/dev/shm").or_else(|_| tempfile::tempdir()).expect("scratch");
    let disk = tempfile::tempdir_in(disk_root()).expect("scratch");
    let (src_root, dst_root) = match s.below(4) {
        0 => (mem.path().join("s"), mem.path().join("d")),
        1 => (disk.path().join("s"), disk.path().join("d")),
        2 => (mem.path().join("s"), disk.path().join("d")),
        _ => (disk.path().join("s"), mem.path().join("d")),
    };
    std::fs::create_dir_all(&src_root).unwrap();
    std::fs::create_dir_all(&dst_root).unwrap();
    use std::os::unix::fs::MetadataExt;
    let cross = std::fs::metadata(&src_root).unwrap().dev() != std::fs::metadata(&dst_root).unwrap().dev();
    let from = src_root.join(s.pick(&["part-1.parquet", "tmp x", "é"]));
    let data = bytes(s);
    let have_source = !s.chance(1, 12);
    if have_source {
        std::fs::write(&from, &data).unwrap();
    }
    let n = s.urange(1, 4);
    let segs: Vec<String> = (0..n).map(|_| s.pick(SEGS).to_string()).collect();
    let rel: PathBuf = segs.iter().collect();
    let target = dst_root.join(&rel);
    // what is in the way
    let way = *s.pick(&["nothing", "nothing", "nothing", "parents", "parents", "older", "older", "bystander", "empty dir", "dir", "parent is a file", "full device"]);
    let mut must_fail = !have_source;
    let mut old = None;
    match way {
        "parents" => std::fs::create_dir_all(target.parent().unwrap()).unwrap(),
        "older" => {
            std::fs::create_dir_all(target.parent().unwrap()).unwrap();
            old = Some(bytes(s));
            std::fs::write(&target, old.as_ref().unwrap()).unwrap();
        }
        "bystander" => {
            std::fs::create_dir_all(target.parent().unwrap()).unwrap();
            std::fs::write(target.with_file_name("bystander"), b"keep").unwrap();
        }
        "empty dir" => {
            std::fs::create_dir_all(&target).unwrap();
            must_fail = true;
        }
        "dir" => {
            std::fs::create_dir_all(target.join("sub")).unwrap();
            std::fs::write(target.join("sub/file"), b"keep").unwrap();
            must_fail = true;
        }
        "parent is a file" => {
            if segs.len() > 1 {
                std::fs::write(dst_root.join(&segs[0]), b"keep").unwrap();
                must_fail = true;
            }
        }
        "full device" => {
            std::fs::create_dir_all(target.parent().unwrap()).unwrap();
            if Path::new("/dev/full").exists() {
                std::os::unix::fs::symlink("/dev/full", &target).unwrap();
                // within one file system the link is replaced; across, the bytes go through it and nothing fits
                must_fail |= cross && !data.is_empty();
            }
        }
        _ => {}
    }
    let spelled = match s.below(4) {
        0 => format!("{}//./{}", dst_root.display(), rel.display()),
        1 => format!("{}/../d/{}", dst_root.display(), rel.display()),
        _ => target.display().to_string(),
    };
    ctx.describe(format!("{} bytes from {from:?} to {spelled}; in the way: {way}; other file system: {cross}; source exists: {have_source}", data.len()));
    ctx.label(format!("{way}, {}", if cross { "other file system" } else { "same file system" }));
    let before_dst = tree(&dst_root);
    let r = block_on(fast_upload(&from, spelled.clone()));
    let after_dst = tree(&dst_root);
    let after_src = tree(&src_root);
    let at = |t: &BTreeMap<PathBuf, Option<Vec<u8>>>| t.get(&rel).cloned().flatten();
    // nothing but the target may change, whatever happens
    for (k, v) in &before_dst {
        if *k != rel {
            ensure_eq!(after_dst.get(k), Some(v), "bystander", "{k:?} beside the target");
        }
    }
    match r {
        Ok(()) => {
            ensure!(have_source, "ghost", "an upload of a file that does not exist was reported as done");
            ensure!(!must_fail, "impossible", "an upload over {way} was reported as done");
            if way == "full device" && cross {
                // nothing to write
                return Ok(());
            }
            ensure_eq!(at(&after_dst).map(|b| (b.len(), b == data)), Some((data.len(), true)), "content", "length and content at the target");
            ensure_eq!(after_src.len(), 0, "source", "files left in the source directory");
            for k in after_dst.keys() {
                ensure!(before_dst.contains_key(k) || rel.starts_with(k), "litter", "{k:?} was left beside the target");
            }
            if cross || way != "nothing" {
                ctx.nontrivial(&format!("{way}{cross}{rel:?}{}", data.len()));
            }
        }
        Err(e) => {
            ensure!(must_fail, "refused", "the upload failed: {e}");
            if have_source {
                let kept = after_src.values().next().cloned().flatten() == Some(data.clone()) || at(&after_dst) == Some(data.clone());
                ensure!(kept, "lost", "the upload failed ({e}) and neither side holds the content");
            } else {
                ensure_eq!(at(&after_dst), at(&before_dst), "older", "what the target held before an upload of nothing (older content {:?})", old.map(|o| o.len()));
            }
            ctx.nontrivial(&format!("failed {way}{cross}{rel:?}{}", data.len()));
        }
    }
    Ok(())
}

/// A target named relative to the working directory, without any parent.
fn relative(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let d = tempfile::tempdir().expect("scratch");
    let from = d.path().join("f");
    let data = bytes(s);
    std::fs::write(&from, &data).unwrap();
    let k = N.fetch_add(1, Ordering::Relaxed);
    let to = match s.below(3) {
        0 => format!("t{k}"),
        1 => format!("./t{k}"),
        _ => format!("d{k}/t"),
    };
    ctx.describe(format!("{} bytes to {}", data.len(), to.replace(&k.to_string(), "N")));
    let r = block_on(fast_upload(&from, to.clone()));
    let got = std::fs::read(&to);
    let _ = std::fs::remove_file(&to);
    ensure!(r.is_ok(), "refused", "{r:?}");
    ensure!(got.ok() == Some(data.clone()) && !from.exists(), "content", "the target or the source is not as it should be");
    ctx.nontrivial(&(data.len(), to.len()));
    Ok(())
}

fn disk_root() -> PathBuf {
    let p = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/tmp".into())).join("harness/target/c21-scratch");
    std::fs::create_dir_all(&p).expect("scratch");
    p
}

fn main() {
    let cwd = tempfile::tempdir_in(disk_root()).expect("scratch");
    std::env::set_current_dir(cwd.path()).expect("scratch");
    let p = cwd.into_path();
    struct Gone(PathBuf);
    impl Drop for Gone {
        fn drop(&mut self) {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
    let _gone = Gone(p);
    pbt::main(Property {
        id: "C21",
        rule: "non-trivial: across file systems, or with something already at or around the target, or a failed upload. Distinct by placement, target and size.",
        assumptions: &["/dev/shm and the directory of the checks are different file systems (where they are not, the labels show it)", "only faults a local file system shows: missing, conflicting and full targets"],
        legs: vec![leg("upload", 120_000, 500_000, case), leg("relative", 2000, 50_000, relative)],
    })
}
