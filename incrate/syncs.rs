// Records which bytes of which files the sync calls made durable, and scratch directories for runs
// on a real disk.
use std::{
    collections::{BTreeMap, HashMap},
    ffi::c_int,
    path::{Path as StdPath, PathBuf},
    sync::{
        Mutex,
        atomic::{AtomicU64, Ordering},
    },
};

/// What the sync calls made durable: length of each watched file at its last sync, and the number
/// of sync calls. Filled by the `fsync`/`fdatasync` definitions below, which take the place of
/// libc's in the harness.
#[derive(Default)]
pub struct Synced {
    pub len: HashMap<PathBuf, u64>,
    pub calls: HashMap<PathBuf, u64>,
    /// Directories in which the n-th sync call from now on fails (and all after it).
    pub fail: HashMap<PathBuf, i64>,
    pub failed: HashMap<PathBuf, u64>,
}
static SYNCED: Mutex<Option<Synced>> = Mutex::new(None);
const MARK: &str = "tonbo-verif-wal-";

pub fn watch<R>(f: impl FnOnce(&mut Synced) -> R) -> R {
    f(SYNCED.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(Synced::default))
}
unsafe extern "C" {
    fn syscall(num: std::ffi::c_long, ...) -> std::ffi::c_long;
    fn __errno_location() -> *mut c_int;
}
fn on_sync(fd: c_int, number: std::ffi::c_long) -> c_int {
    if let Ok(p) = std::fs::read_link(format!("/proc/self/fd/{fd}")) {
        if p.to_string_lossy().contains(MARK) {
            let len = std::fs::metadata(&p).map(|m| m.len()).unwrap_or(0);
            let bad = watch(|w| {
                let dir = p.parent().map(PathBuf::from).unwrap_or_default();
                if let Some(n) = w.fail.get_mut(&dir) {
                    *n -= 1;
                    if *n < 0 {
                        *w.failed.entry(dir).or_default() += 1;
                        return true;
                    }
                }
                w.len.insert(p.clone(), len);
                *w.calls.entry(p.clone()).or_default() += 1;
                false
            });
            if bad {
                unsafe { *__errno_location() = 5 };
                return -1;
            }
            // The scratch files need not survive anything: the record is what is judged.
            return 0;
        }
    }
    unsafe { syscall(number, fd) as c_int }
}
#[unsafe(no_mangle)]
pub extern "C" fn fsync(fd: c_int) -> c_int {
    on_sync(fd, 74)
}
#[unsafe(no_mangle)]
pub extern "C" fn fdatasync(fd: c_int) -> c_int {
    on_sync(fd, 75)
}

/// A scratch directory, removed when dropped; files below it are watched.
pub struct Scratch(pub PathBuf);
static NEXT: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    pub fn new(seed: u64) -> std::io::Result<Self> {
        let n = NEXT.fetch_add(1, Ordering::SeqCst);
        let shm = StdPath::new("/dev/shm");
        let base = if shm.is_dir() { shm.to_path_buf() } else { std::env::temp_dir() };
        let p = base.join(format!("{MARK}{}-{n}-{seed:x}", std::process::id()));
        std::fs::create_dir_all(p.join("wal"))?;
        Ok(Scratch(std::fs::canonicalize(p)?))
    }
    pub fn wal(&self) -> PathBuf {
        self.0.join("wal")
    }
    /// Segment files by sequence: path, content, bytes made durable, sync calls.
    pub fn segments(&self) -> BTreeMap<u64, (PathBuf, Vec<u8>, u64, u64)> {
        Self::segments_in(&self.wal())
    }
    pub fn segments_in(dir: &StdPath) -> BTreeMap<u64, (PathBuf, Vec<u8>, u64, u64)> {
        let mut out = BTreeMap::new();
        if let Ok(d) = std::fs::read_dir(dir) {
            for e in d.flatten() {
                let p = e.path();
                let name = p.file_name().map(|n| n.to_string_lossy().to_string()).unwrap_or_default();
                if let Some(n) = name.strip_prefix("wal-").and_then(|n| n.strip_suffix(".tonwal")).and_then(|n| n.parse().ok()) {
                    let data = std::fs::read(&p).unwrap_or_default();
                    let (l, c) = watch(|w| (w.len.get(&p).copied().unwrap_or(0), w.calls.get(&p).copied().unwrap_or(0)));
                    out.insert(n, (p, data, l, c));
                }
            }
        }
        out
    }
}
/// Remove what runs that were killed left behind.
pub fn sweep_stale() {
    for base in [StdPath::new("/dev/shm").to_path_buf(), std::env::temp_dir()] {
        let Ok(d) = std::fs::read_dir(base) else { continue };
        for e in d.flatten() {
            let name = e.file_name().to_string_lossy().to_string();
            let Some(pid) = name.strip_prefix(MARK).and_then(|r| r.split('-').next()).and_then(|p| p.parse::<u32>().ok()) else { continue };
            if !StdPath::new(&format!("/proc/{pid}")).exists() {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        watch(|w| {
            let me = &self.0;
            w.len.retain(|p, _| !p.starts_with(me));
            w.calls.retain(|p, _| !p.starts_with(me));
            w.fail.retain(|p, _| !p.starts_with(me));
            w.failed.retain(|p, _| !p.starts_with(me));
        });
        if self.0.to_string_lossy().contains(MARK) {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
}
