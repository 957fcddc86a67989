// Simulated filesystem: in-memory store with a mutation journal (crash images at every mutation
// boundary, torn writes), fault injection and seeded scheduling yields.
use std::{
    collections::{BTreeMap, HashMap},
    io::{Error as IoError, ErrorKind},
    pin::Pin,
    sync::{
        Arc, Mutex,
        atomic::{AtomicU64, Ordering},
    },
};

use fusio::{
    IoBuf, IoBufMut, MaybeSend, Read, Write,
    dynamic::MaybeSendFuture,
    durability::FileCommit,
    error::Error,
    fs::{CasCondition, FileMeta, FileSystemTag, Fs, FsCas, OpenOptions},
    path::Path,
};
use futures::stream::{self, Stream};

use super::report::{Rng, yields};

/// Persistent content of one object.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Blob {
    pub data: Vec<u8>,
    pub meta: HashMap<String, String>,
}
pub type Image = BTreeMap<String, Blob>;

/// A persistent-state mutation.
#[derive(Clone, Debug)]
pub enum Mutation {
    Create(String),
    Truncate(String),
    Append(String, Vec<u8>),
    Put(String, Blob),
    Remove(String),
}

impl Mutation {
    pub fn brief(&self) -> String {
        match self {
            Mutation::Create(p) => format!("create {p}"),
            Mutation::Truncate(p) => format!("truncate {p}"),
            Mutation::Append(p, b) => format!("append {p} {} bytes", b.len()),
            Mutation::Put(p, _) => format!("put {p}"),
            Mutation::Remove(p) => format!("remove {p}"),
        }
    }
    pub fn path(&self) -> &str {
        match self {
            Mutation::Create(p)
            | Mutation::Truncate(p)
            | Mutation::Append(p, _)
            | Mutation::Put(p, _)
            | Mutation::Remove(p) => p,
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Mutation::Create(_) => "create",
            Mutation::Truncate(_) => "truncate",
            Mutation::Append(..) => "append",
            Mutation::Put(..) => "put",
            Mutation::Remove(_) => "remove",
        }
    }
    pub fn apply(&self, image: &mut Image) {
        match self {
            Mutation::Create(p) => {
                image.entry(p.clone()).or_default();
            }
            Mutation::Truncate(p) => {
                image.insert(p.clone(), Blob::default());
            }
            Mutation::Append(p, d) => {
                image.entry(p.clone()).or_default().data.extend_from_slice(d);
            }
            Mutation::Put(p, d) => {
                image.insert(p.clone(), d.clone());
            }
            Mutation::Remove(p) => {
                image.remove(p);
            }
        }
    }
    /// Apply only a prefix of an append (a torn write); no effect for atomic mutations.
    pub fn apply_torn(&self, image: &mut Image, prefix: usize) {
        if let Mutation::Append(p, d) = self {
            let n = prefix.min(d.len());
            image.entry(p.clone()).or_default().data.extend_from_slice(&d[..n]);
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OpKind {
    Open,
    Read,
    Append,
    Put,
    Load,
    List,
    Remove,
    Commit,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    /// Fail without applying.
    Before,
    /// Apply, then report failure.
    After,
    /// Apply a prefix, then report failure (appends only).
    Torn(usize),
}

pub type FaultFn = Arc<dyn Fn(OpKind, &str, u64) -> Option<Fault> + Send + Sync>;
pub type GateFn = Arc<dyn Fn(OpKind, &str) -> u32 + Send + Sync>;

#[derive(Default)]
struct Obj {
    data: Vec<u8>,
    meta: HashMap<String, String>,
    etag: String,
}

#[derive(Default)]
struct State {
    objects: BTreeMap<String, Obj>,
    journal: Vec<Mutation>,
    removed: Vec<String>,
    tag: u64,
    base: Image,
}

struct Shared {
    state: Mutex<State>,
    ops: AtomicU64,
    fault: Mutex<Option<FaultFn>>,
    gate: Mutex<Option<GateFn>>,
    rng: Mutex<Option<(Rng, u32)>>,
    dead: std::sync::atomic::AtomicBool,
    record: std::sync::atomic::AtomicBool,
    faults_fired: AtomicU64,
    s3: std::sync::atomic::AtomicBool,
    stale: Mutex<std::collections::BTreeSet<String>>,
    reads: Mutex<BTreeMap<String, u64>>,
}

#[derive(Clone)]
pub struct SimFs {
    s: Arc<Shared>,
}

impl Default for SimFs {
    fn default() -> Self {
        Self::new()
    }
}

impl SimFs {
    pub fn new() -> Self {
        Self::from_image(Image::new())
    }
    pub fn from_image(image: Image) -> Self {
        let mut st = State::default();
        for (k, v) in &image {
            st.tag += 1;
            st.objects.insert(
                k.clone(),
                Obj {
                    data: v.data.clone(),
                    meta: v.meta.clone(),
                    etag: format!("t{}", st.tag),
                },
            );
        }
        st.base = image;
        Self {
            s: Arc::new(Shared {
                state: Mutex::new(st),
                ops: AtomicU64::new(0),
                fault: Mutex::new(None),
                gate: Mutex::new(None),
                rng: Mutex::new(None),
                dead: std::sync::atomic::AtomicBool::new(false),
                record: std::sync::atomic::AtomicBool::new(true),
                faults_fired: AtomicU64::new(0),
                s3: std::sync::atomic::AtomicBool::new(false),
                stale: Mutex::default(),
                reads: Mutex::new(BTreeMap::new()),
            }),
        }
    }
    /// Inject up to `max` scheduler yields before and after each operation.
    pub fn with_yields(self, seed: u64, max: u32) -> Self {
        *self.s.rng.lock().unwrap() = Some((Rng::new(seed), max));
        self
    }
    pub fn set_fault(&self, f: Option<FaultFn>) {
        *self.s.fault.lock().unwrap() = f;
    }
    /// Present as an object store whose listings under a prefix may lag: `stale` paths are left out
    /// of every listing but that of the whole bucket.
    pub fn set_object_store(&self, stale: impl IntoIterator<Item = String>) {
        self.s.s3.store(true, Ordering::SeqCst);
        *self.s.stale.lock().unwrap() = stale.into_iter().collect();
    }
    pub fn set_gate(&self, f: Option<GateFn>) {
        *self.s.gate.lock().unwrap() = f;
    }
    pub fn set_recording(&self, on: bool) {
        self.s.record.store(on, Ordering::SeqCst);
    }
    pub fn faults_fired(&self) -> u64 {
        self.s.faults_fired.load(Ordering::SeqCst)
    }
    /// Every later operation fails (the process lost its disk / was killed).
    pub fn kill(&self) {
        self.s.dead.store(true, Ordering::SeqCst);
    }
    pub fn ops(&self) -> u64 {
        self.s.ops.load(Ordering::SeqCst)
    }
    pub fn journal_len(&self) -> usize {
        self.s.state.lock().unwrap().journal.len()
    }
    pub fn journal(&self) -> (Image, Vec<Mutation>) {
        let st = self.s.state.lock().unwrap();
        (st.base.clone(), st.journal.clone())
    }
    pub fn image(&self) -> Image {
        let st = self.s.state.lock().unwrap();
        st.objects.iter().map(|(k, o)| (k.clone(), Blob { data: o.data.clone(), meta: o.meta.clone() })).collect()
    }
    pub fn paths(&self) -> Vec<String> {
        self.s.state.lock().unwrap().objects.keys().cloned().collect()
    }
    pub fn has(&self, path: &str) -> bool {
        self.s.state.lock().unwrap().objects.contains_key(path)
    }
    pub fn get(&self, path: &str) -> Option<Vec<u8>> {
        self.s.state.lock().unwrap().objects.get(path).map(|o| o.data.clone())
    }
    pub fn put(&self, path: &str, data: Vec<u8>) {
        let mut st = self.s.state.lock().unwrap();
        st.tag += 1;
        let etag = format!("t{}", st.tag);
        st.objects.insert(path.to_string(), Obj { data, meta: HashMap::new(), etag });
    }
    pub fn removed(&self) -> Vec<String> {
        self.s.state.lock().unwrap().removed.clone()
    }
    pub fn reads_of(&self, path: &str) -> u64 {
        *self.s.reads.lock().unwrap().get(path).unwrap_or(&0)
    }
    /// Paths of objects opened or read since the counters were last cleared.
    pub fn read_paths(&self) -> Vec<String> {
        self.s.reads.lock().unwrap().keys().cloned().collect()
    }
    pub fn clear_reads(&self) {
        self.s.reads.lock().unwrap().clear();
    }

    async fn step(&self, kind: OpKind, path: &str) -> Result<Option<Fault>, Error> {
        let n = self.s.ops.fetch_add(1, Ordering::SeqCst);
        let pre = {
            let mut g = self.s.rng.lock().unwrap();
            match g.as_mut() {
                Some((r, max)) if *max > 0 => {
                    if r.chance(1, 3) {
                        r.below(u64::from(*max) + 1) as u32
                    } else {
                        0
                    }
                }
                _ => 0,
            }
        };
        let gate = self.s.gate.lock().unwrap().clone();
        let extra = gate.map(|g| g(kind, path)).unwrap_or(0);
        yields(pre + extra).await;
        if self.s.dead.load(Ordering::SeqCst) {
            return Err(injected("simulated process death"));
        }
        let f = self.s.fault.lock().unwrap().clone();
        let fault = f.and_then(|f| f(kind, path, n));
        if fault.is_some() {
            self.s.faults_fired.fetch_add(1, Ordering::SeqCst);
        }
        if fault == Some(Fault::Before) {
            return Err(injected("injected fault"));
        }
        Ok(fault)
    }
    async fn post(&self) {
        let n = {
            let mut g = self.s.rng.lock().unwrap();
            match g.as_mut() {
                Some((r, max)) if *max > 0 => {
                    if r.chance(1, 4) { r.below(u64::from(*max) + 1) as u32 } else { 0 }
                }
                _ => 0,
            }
        };
        yields(n).await;
    }
    fn log(&self, st: &mut State, m: Mutation) {
        if let Mutation::Remove(p) = &m {
            st.removed.push(p.clone());
        }
        if self.s.record.load(Ordering::SeqCst) {
            st.journal.push(m);
        }
    }
}

fn injected(msg: &str) -> Error {
    Error::Io(IoError::new(ErrorKind::Other, msg.to_string()))
}
fn not_found(key: &str) -> Error {
    Error::Io(IoError::new(ErrorKind::NotFound, format!("path {key} not found")))
}

pub struct SimFile {
    fs: SimFs,
    key: String,
    read: bool,
    write: bool,
    /// A truncating open of a non-empty object: like an object store, the old content stays
    /// visible until the first write replaces it (or the handle is flushed or closed).
    trunc: bool,
}

impl SimFile {
    fn settle(&mut self) {
        if std::mem::take(&mut self.trunc) && !self.fs.s.dead.load(Ordering::SeqCst) {
            let mut st = self.fs.s.state.lock().unwrap();
            if let Some(o) = st.objects.get_mut(&self.key) {
                o.data.clear();
            }
            self.fs.log(&mut st, Mutation::Truncate(self.key.clone()));
        }
    }
}

impl Read for SimFile {
    async fn read_exact_at<B: IoBufMut>(&mut self, mut buf: B, pos: u64) -> (Result<(), Error>, B) {
        if !self.read {
            return (
                Err(Error::Unsupported { message: "file opened without read permissions".into() }),
                buf,
            );
        }
        if let Err(e) = self.fs.step(OpKind::Read, &self.key).await {
            return (Err(e), buf);
        }
        let st = self.fs.s.state.lock().unwrap();
        let Some(obj) = st.objects.get(&self.key) else {
            return (Err(not_found(&self.key)), buf);
        };
        let pos = pos as usize;
        let len = buf.bytes_init();
        if pos + len > obj.data.len() {
            return (Err(IoError::new(ErrorKind::UnexpectedEof, "read past end").into()), buf);
        }
        buf.as_slice_mut().copy_from_slice(&obj.data[pos..pos + len]);
        drop(st);
        *self.fs.s.reads.lock().unwrap().entry(self.key.clone()).or_default() += 1;
        (Ok(()), buf)
    }

    async fn read_to_end_at(&mut self, mut buf: Vec<u8>, pos: u64) -> (Result<(), Error>, Vec<u8>) {
        if !self.read {
            return (
                Err(Error::Unsupported { message: "file opened without read permissions".into() }),
                buf,
            );
        }
        if let Err(e) = self.fs.step(OpKind::Read, &self.key).await {
            return (Err(e), buf);
        }
        let st = self.fs.s.state.lock().unwrap();
        let Some(obj) = st.objects.get(&self.key) else {
            return (Err(not_found(&self.key)), buf);
        };
        let pos = pos as usize;
        if pos > obj.data.len() {
            return (Err(IoError::new(ErrorKind::UnexpectedEof, "read past end").into()), buf);
        }
        buf.extend_from_slice(&obj.data[pos..]);
        drop(st);
        *self.fs.s.reads.lock().unwrap().entry(self.key.clone()).or_default() += 1;
        (Ok(()), buf)
    }

    async fn size(&self) -> Result<u64, Error> {
        self.fs.step(OpKind::Read, &self.key).await?;
        let st = self.fs.s.state.lock().unwrap();
        st.objects
            .get(&self.key)
            .map(|o| o.data.len() as u64)
            .ok_or_else(|| not_found(&self.key))
    }
}

impl Write for SimFile {
    async fn write_all<B: IoBuf>(&mut self, buf: B) -> (Result<(), Error>, B) {
        if !self.write {
            return (
                Err(Error::Unsupported { message: "file opened without write permissions".into() }),
                buf,
            );
        }
        let fault = match self.fs.step(OpKind::Append, &self.key).await {
            Ok(f) => f,
            Err(e) => return (Err(e), buf),
        };
        {
            let mut st = self.fs.s.state.lock().unwrap();
            let data = match fault {
                Some(Fault::Torn(n)) => buf.as_slice()[..n.min(buf.as_slice().len())].to_vec(),
                _ => buf.as_slice().to_vec(),
            };
            if std::mem::take(&mut self.trunc) {
                if !matches!(fault, Some(Fault::Torn(_))) {
                    st.tag += 1;
                    let etag = format!("t{}", st.tag);
                    st.objects.insert(
                        self.key.clone(),
                        Obj { data: data.clone(), meta: HashMap::new(), etag },
                    );
                    let m = Mutation::Put(self.key.clone(), Blob { data, meta: HashMap::new() });
                    self.fs.log(&mut st, m);
                }
            } else {
            match st.objects.get_mut(&self.key) {
                Some(o) => o.data.extend_from_slice(&data),
                None => {
                    st.tag += 1;
                    let etag = format!("t{}", st.tag);
                    st.objects.insert(
                        self.key.clone(),
                        Obj { data: data.clone(), meta: HashMap::new(), etag },
                    );
                }
            }
            self.fs.log(&mut st, Mutation::Append(self.key.clone(), data));
            }
        }
        self.fs.post().await;
        if fault.is_some() {
            return (Err(injected("injected write fault")), buf);
        }
        (Ok(()), buf)
    }
    async fn flush(&mut self) -> Result<(), Error> {
        self.settle();
        Ok(())
    }
    async fn close(&mut self) -> Result<(), Error> {
        self.settle();
        Ok(())
    }
}

impl FileCommit for SimFile {
    async fn commit(&mut self) -> Result<(), Error> {
        let fault = self.fs.step(OpKind::Commit, &self.key).await?;
        {
            let mut st = self.fs.s.state.lock().unwrap();
            st.tag += 1;
            let etag = format!("t{}", st.tag);
            if let Some(o) = st.objects.get_mut(&self.key) {
                o.etag = etag;
            }
        }
        if fault.is_some() {
            return Err(injected("injected commit fault"));
        }
        Ok(())
    }
}

impl Fs for SimFs {
    type File = SimFile;

    fn file_system(&self) -> FileSystemTag {
        if self.s.s3.load(Ordering::SeqCst) { FileSystemTag::S3 } else { FileSystemTag::Memory }
    }

    async fn open_options(&self, path: &Path, mut options: OpenOptions) -> Result<SimFile, Error> {
        if !options.read && !options.write {
            options.read = true;
        }
        let key = path.as_ref().to_string();
        let fault = self.step(OpKind::Open, &key).await?;
        let trunc;
        {
            let mut st = self.s.state.lock().unwrap();
            if !st.objects.contains_key(&key) {
                if !options.create {
                    return Err(not_found(&key));
                }
                st.tag += 1;
                let etag = format!("t{}", st.tag);
                st.objects.insert(
                    key.clone(),
                    Obj { data: Vec::new(), meta: HashMap::new(), etag },
                );
                self.log(&mut st, Mutation::Create(key.clone()));
            }
            trunc = options.truncate
                && st.objects.get(&key).map(|o| !o.data.is_empty()).unwrap_or(false);
        }
        self.post().await;
        if fault.is_some() {
            return Err(injected("injected open fault"));
        }
        Ok(SimFile { fs: self.clone(), key, read: options.read, write: options.write, trunc })
    }

    async fn create_dir_all(_path: &Path) -> Result<(), Error> {
        Ok(())
    }

    async fn list(
        &self,
        path: &Path,
    ) -> Result<impl Stream<Item = Result<FileMeta, Error>> + MaybeSend, Error> {
        let prefix = path.as_ref().to_string();
        self.step(OpKind::List, &prefix).await?;
        let items: Vec<Result<FileMeta, Error>> = {
            let stale = self.s.stale.lock().unwrap().clone();
            let st = self.s.state.lock().unwrap();
            st.objects
                .iter()
                .filter(|(k, _)| prefix.is_empty() || (k.starts_with(&prefix) && !stale.contains(*k)))
                .map(|(k, o)| Ok(FileMeta { path: Path::from(k.clone()), size: o.data.len() as u64 }))
                .collect()
        };
        Ok(stream::iter(items))
    }

    async fn remove(&self, path: &Path) -> Result<(), Error> {
        let key = path.as_ref().to_string();
        let fault = self.step(OpKind::Remove, &key).await?;
        {
            let mut st = self.s.state.lock().unwrap();
            if st.objects.remove(&key).is_some() {
                self.log(&mut st, Mutation::Remove(key));
            }
        }
        if fault.is_some() {
            return Err(injected("injected remove fault"));
        }
        Ok(())
    }

    async fn copy(&self, from: &Path, to: &Path) -> Result<(), Error> {
        let from = from.as_ref().to_string();
        let to = to.as_ref().to_string();
        self.step(OpKind::Put, &to).await?;
        let mut st = self.s.state.lock().unwrap();
        let Some(data) = st.objects.get(&from).map(|o| o.data.clone()) else {
            return Err(not_found(&from));
        };
        st.tag += 1;
        let etag = format!("t{}", st.tag);
        st.objects.insert(to.clone(), Obj { data: data.clone(), meta: HashMap::new(), etag });
        self.log(&mut st, Mutation::Put(to, Blob { data, meta: HashMap::new() }));
        Ok(())
    }

    async fn link(&self, _from: &Path, _to: &Path) -> Result<(), Error> {
        Err(Error::Unsupported { message: "simfs does not support links".into() })
    }

    async fn exists(&self, path: &Path) -> Result<bool, Error> {
        let key = path.as_ref().to_string();
        self.step(OpKind::List, &key).await?;
        Ok(self.s.state.lock().unwrap().objects.contains_key(&key))
    }
}

impl FsCas for SimFs {
    fn load_with_tag(
        &self,
        path: &Path,
    ) -> Pin<Box<dyn MaybeSendFuture<Output = Result<Option<(Vec<u8>, String)>, Error>> + '_>> {
        let key = path.as_ref().to_string();
        Box::pin(async move {
            self.step(OpKind::Load, &key).await?;
            let out = {
                let st = self.s.state.lock().unwrap();
                st.objects.get(&key).map(|o| (o.data.clone(), o.etag.clone()))
            };
            self.post().await;
            Ok(out)
        })
    }

    fn put_conditional(
        &self,
        path: &Path,
        payload: &[u8],
        _content_type: Option<&str>,
        metadata: Option<Vec<(String, String)>>,
        condition: CasCondition,
    ) -> Pin<Box<dyn MaybeSendFuture<Output = Result<String, Error>> + '_>> {
        let key = path.as_ref().to_string();
        let payload = payload.to_vec();
        Box::pin(async move {
            let fault = self.step(OpKind::Put, &key).await?;
            let tag = {
                let mut st = self.s.state.lock().unwrap();
                match (&condition, st.objects.get(&key)) {
                    (CasCondition::IfNotExists, Some(_)) => return Err(Error::PreconditionFailed),
                    (CasCondition::IfMatch(_), None) => return Err(Error::PreconditionFailed),
                    (CasCondition::IfMatch(want), Some(o)) if *want != o.etag => {
                        return Err(Error::PreconditionFailed);
                    }
                    _ => {}
                }
                st.tag += 1;
                let etag = format!("t{}", st.tag);
                let meta: HashMap<String, String> =
                    metadata.unwrap_or_default().into_iter().collect();
                st.objects.insert(
                    key.clone(),
                    Obj { data: payload.clone(), meta: meta.clone(), etag: etag.clone() },
                );
                self.log(&mut st, Mutation::Put(key.clone(), Blob { data: payload, meta }));
                etag
            };
            self.post().await;
            if fault.is_some() {
                return Err(injected("injected put fault"));
            }
            Ok(tag)
        })
    }
}

impl fusio_manifest::ObjectHead for SimFs {
    fn head_metadata<'a>(
        &'a self,
        path: &'a Path,
    ) -> Pin<
        Box<dyn MaybeSendFuture<Output = Result<Option<HashMap<String, String>>, Error>> + 'a>,
    > {
        let key = path.as_ref().to_string();
        Box::pin(async move {
            self.step(OpKind::Load, &key).await?;
            let st = self.s.state.lock().unwrap();
            Ok(st.objects.get(&key).map(|o| o.meta.clone()))
        })
    }
}
