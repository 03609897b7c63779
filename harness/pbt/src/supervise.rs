//! Runs the cases in a child process, so that a case that kills its process (abort, stack
//! overflow) or never ends is a finding with a replay file like any other.
use super::*;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, ExitStatus};

const SLOT: u64 = 32;
const SLOTS: u64 = 64;

/// What the child is working on, kept in a file that outlives it.
pub struct Progress {
    file: Option<File>,
    dir: PathBuf,
}

fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

impl Progress {
    pub fn open() -> Self {
        let dir = std::env::var_os("PBT_DIR").map(PathBuf::from).unwrap_or_default();
        let file = File::options().write(true).open(dir.join("progress")).ok();
        Progress { file, dir }
    }
    fn put(&self, slot: u64, rec: [u64; 4]) {
        if let Some(f) = &self.file {
            let bytes: Vec<u8> = rec.iter().flat_map(|v| v.to_le_bytes()).collect();
            let _ = f.write_at(&bytes, slot * SLOT);
        }
    }
    pub fn begin(&self, worker: usize, leg: usize, k: usize) {
        self.put(worker as u64, [1, leg as u64, k as u64, now_ms()]);
    }
    pub fn end(&self, worker: usize) {
        self.put(worker as u64, [0; 4]);
    }
    /// a failure is about to be shrunk, which may crash or hang in its turn
    pub fn found(&self, leg: usize, k: usize, f: &Fail, tape: &[u64]) {
        let doc = json!({"leg": leg, "index": k, "sig": f.sig, "msg": f.msg, "tape": tape});
        let _ = std::fs::write(self.dir.join("found"), doc.to_string());
        self.put(SLOTS - 1, [2, 0, 0, now_ms()]);
    }
}

pub fn read_tape(p: &str) -> Vec<u64> {
    std::fs::read(p).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

fn active(dir: &PathBuf) -> Vec<(u64, usize, usize, u64)> {
    slots(dir).into_iter().map(|s| s.1).filter(|r| r.0 != 0).collect()
}

fn slots(dir: &PathBuf) -> Vec<(usize, (u64, usize, usize, u64))> {
    let bytes = std::fs::read(dir.join("progress")).unwrap_or_default();
    let words: Vec<u64> = bytes.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    words.chunks_exact(4).map(|r| (r[0], r[1] as usize, r[2] as usize, r[3])).enumerate().collect()
}

/// None: it did not end in time
fn wait(child: &mut std::process::Child, limit: Duration) -> Option<ExitStatus> {
    let (mut spent, mut last) = (Duration::ZERO, Instant::now());
    loop {
        spent += last.elapsed().min(Duration::from_millis(100));
        last = Instant::now();
        if let Ok(Some(st)) = child.try_wait() {
            return Some(st);
        }
        if spent > limit {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn crash_sig(st: Option<ExitStatus>) -> Option<String> {
    match st {
        None => Some("hang".into()),
        Some(st) => st.signal().map(|n| format!("crash:signal-{n}")),
    }
}

pub fn run(id: &str, legs: &[&str]) {
    let exe = std::env::current_exe().expect("own path");
    let args: Vec<String> = std::env::args().skip(1).collect();
    let thorough = args.iter().any(|a| a == "--thorough") || std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let hang = Duration::from_secs(if thorough { 300 } else { 60 });
    let name = format!("pbt-{}-{}", id, std::process::id());
    // memory-backed scratch space when there is some
    let mut dir = PathBuf::from("/dev/shm").join(&name);
    if std::fs::create_dir_all(&dir).and_then(|_| std::fs::write(dir.join("progress"), vec![0u8; 1 << 20])).is_err() {
        dir = std::env::temp_dir().join(&name);
    }
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join("progress"), vec![0u8; (SLOT * SLOTS) as usize]).expect("progress file");
    let finish = |code: i32| -> ! {
        let _ = std::fs::remove_dir_all(&dir);
        std::process::exit(code)
    };
    // scratch files of the child go below the same directory and disappear with it
    let tmp = dir.join("tmp");
    let _ = std::fs::create_dir_all(&tmp);
    let mut child = Command::new(&exe)
        .args(&args)
        .env("PBT_CHILD", "1")
        .env("PBT_DIR", &dir)
        .env("TMPDIR", &tmp)
        .spawn()
        .expect("start the cases");
    let mut hung = false;
    // time is counted in polls: neither a clock that is set nor a machine that sleeps is a hang
    let mut seen: std::collections::HashMap<usize, ((u64, usize, usize, u64), Duration)> = Default::default();
    let mut last = Instant::now();
    let status = loop {
        if let Ok(Some(st)) = child.try_wait() {
            break Some(st);
        }
        let step = last.elapsed().min(Duration::from_millis(100));
        last = Instant::now();
        for (slot, a) in slots(&dir) {
            let e = seen.entry(slot).or_insert((a, Duration::ZERO));
            if e.0 == a {
                e.1 += step;
            } else {
                *e = (a, Duration::ZERO);
            }
            hung |= a.0 != 0 && e.1 > hang;
        }
        if hung {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    if let (Some(st), false) = (status, hung) {
        if let Some(code) = st.code() {
            finish(code);
        }
    }
    // the child died or hangs
    let what = crash_sig(status).unwrap_or_default();
    if args.iter().any(|a| a == "--replay") {
        println!("[{what}]");
        let file = args.iter().skip_while(|a| *a != "--replay").nth(1).cloned().unwrap_or_default();
        println!("VIOLATION property={id} replay={file}");
        finish(1);
    }
    if let Some(v) = std::fs::read_to_string(dir.join("found")).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
        let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
        let fail = Fail::new(v["sig"].as_str().unwrap(), v["msg"].as_str().unwrap());
        report(id, legs[v["leg"].as_u64().unwrap() as usize], v["index"].as_u64().unwrap() as usize, &tape, &fail);
        finish(1);
    }
    let mut cases: Vec<(usize, usize)> = active(&dir).iter().filter(|a| a.0 == 1).map(|a| (a.1, a.2)).collect();
    cases.sort();
    let tape_file = dir.join("tape");
    let one = |case: String, limit: Duration| -> Option<String> {
        let mut c = Command::new(&exe)
            .env("PBT_CHILD", "1")
            .env("PBT_DIR", "/nonexistent")
            .env("PBT_CASE", case)
            .env("PBT_TAPE", &tape_file)
            .env("TMPDIR", &tmp)
            .stderr(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .spawn()
            .expect("start one case");
        crash_sig(wait(&mut c, limit))
    };
    for (li, k) in cases {
        if let Some(sig) = one(format!("{li} {k}"), hang) {
            let mut best = read_tape(tape_file.to_str().unwrap());
            if sig != "hang" {
                best = shrink(best, |t| {
                    let bytes: Vec<u8> = t.iter().flat_map(|v| v.to_le_bytes()).collect();
                    std::fs::write(&tape_file, bytes).expect("tape");
                    one(format!("{li}"), Duration::from_secs(20)) == Some(sig.clone())
                });
            }
            let msg = if sig == "hang" {
                format!("the case does not end within {} s", hang.as_secs())
            } else {
                format!("the case kills its process ({sig})")
            };
            report(id, legs[li], k, &best, &Fail::new(sig, msg));
            finish(1);
        }
    }
    eprintln!("ERROR: the cases ended with {what}, which no single case reproduces (inconclusive)");
    finish(3)
}

fn shrink(mut best: Vec<u64>, mut fails: impl FnMut(&[u64]) -> bool) -> Vec<u64> {
    let start = Instant::now();
    let over = |s: &Instant| s.elapsed() > Duration::from_secs(30);
    let mut size = (best.len() / 2).max(1);
    while size >= 1 && !over(&start) {
        let mut i = best.len().saturating_sub(size);
        loop {
            if over(&start) {
                break;
            }
            if i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if fails(&c) {
                    best = c;
                }
            }
            if i == 0 {
                break;
            }
            i = i.saturating_sub(size);
        }
        if size == 1 {
            break;
        }
        size /= 2;
    }
    best
}

fn report(id: &str, leg: &str, k: usize, tape: &[u64], fail: &Fail) {
    let path = write_replay(id, leg, seed(), k, tape, fail, "");
    println!("leg {leg} case {k} fails: [{}] {}", fail.sig, truncate(&fail.msg, 3000));
    println!("VIOLATION property={id} replay={}", path.display());
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let ev = json!({
        "property": id, "tier": "quick", "seed": seed(), "level": "exploration",
        "coverage": {"evaluations": k + 1, "distinct_nontrivial": 0, "nontrivial": 0, "rule": "the run was cut short by a crash or hang", "samples": [], "legs": [], "known_findings": []},
        "assumptions": [], "wall_s": 0.0, "violations": 1,
        "violation": {"signature": fail.sig, "message": fail.msg, "replay": path.display().to_string()},
    });
    let _ = std::fs::write(dir.join(format!("{id}.json")), ev.to_string());
}
