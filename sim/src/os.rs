//! The simulated operating system: an in-memory file system with a durable /
//! volatile split, a simulated clock, a seeded entropy source and a fault plan.
//! `interpose.rs` routes the libc calls the real std (and through it the real
//! crate and the real jrsonnet) makes to this module while a run is active.

use crate::rng::{Fnv, Rng};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, VecDeque};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FaultKind {
    /// open(2) fails with this errno
    OpenErr(i32),
    /// the first n open(2) calls return EINTR (std retries them)
    OpenEintr(u32),
    /// read(2) fails with errno once `at` bytes were delivered
    ReadErr { at: usize, errno: i32 },
    /// every `every`-th read(2) returns EINTR first
    ReadEintr { every: u32 },
    /// no read(2) delivers more than `max` bytes
    Short { max: usize },
    /// the file appears to end after `at` bytes (lost tail)
    EarlyEof { at: usize },
    /// statx on the open descriptor fails
    FstatErr(i32),
    /// statx reports this size instead of the true one
    SizeLie(u64),
    /// path-based stat fails
    StatErr(i32),
    /// realpath(3) fails
    RealpathErr(i32),
    /// getcwd(3) fails
    GetcwdErr(i32),
    /// write(2) accepts at most this many bytes at a time
    ShortWrite { max: usize },
    /// write(2) returns EINTR every n-th call
    WriteEintr { every: u32 },
    /// write(2) fails with errno once `at` bytes were accepted
    WriteErr { at: usize, errno: i32 },
    /// fsync fails
    FsyncErr(i32),
}

impl FaultKind {
    pub fn name(&self) -> &'static str {
        match self {
            FaultKind::OpenErr(_) => "open_error",
            FaultKind::OpenEintr(_) => "open_eintr",
            FaultKind::ReadErr { .. } => "read_error",
            FaultKind::ReadEintr { .. } => "read_eintr",
            FaultKind::Short { .. } => "short_read",
            FaultKind::EarlyEof { .. } => "early_eof",
            FaultKind::FstatErr(_) => "fstat_error",
            FaultKind::SizeLie(_) => "size_lie",
            FaultKind::StatErr(_) => "stat_error",
            FaultKind::RealpathErr(_) => "realpath_error",
            FaultKind::GetcwdErr(_) => "getcwd_error",
            FaultKind::ShortWrite { .. } => "short_write",
            FaultKind::WriteEintr { .. } => "write_eintr",
            FaultKind::WriteErr { .. } => "write_error",
            FaultKind::FsyncErr(_) => "fsync_error",
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    /// path the fault is bound to
    pub path: String,
    /// which open (or stat / realpath) of that path, counted from 0; None = all
    pub nth: Option<u32>,
    pub kind: FaultKind,
}

/// What another node (the pack updater, an operator) does to storage.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FsAction {
    /// atomic replacement: a new inode, readers holding the old one keep it
    Replace { path: String, data: Bytes },
    /// in-place overwrite: same inode is truncated
    Truncate { path: String, len: usize },
    /// in-place write at offset, extends with zeros if needed
    WriteAt { path: String, off: usize, data: Bytes },
    Remove { path: String },
    Chdir { path: String },
}

impl FsAction {
    pub fn name(&self) -> &'static str {
        match self {
            FsAction::Replace { .. } => "updater_replace",
            FsAction::Truncate { .. } => "updater_truncate",
            FsAction::WriteAt { .. } => "updater_write",
            FsAction::Remove { .. } => "updater_remove",
            FsAction::Chdir { .. } => "chdir",
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Event {
    /// fires immediately before the at-th file-system call after arming
    pub at: u64,
    pub act: FsAction,
}

/// Byte string that serialises as text where it is text.
#[derive(Clone, PartialEq, Eq)]
pub struct Bytes(pub Vec<u8>);
impl std::fmt::Debug for Bytes {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", String::from_utf8_lossy(&self.0))
    }
}
impl Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match std::str::from_utf8(&self.0) {
            Ok(t) => s.serialize_str(t),
            Err(_) => {
                let mut h = String::from("\u{0}hex:");
                for b in &self.0 {
                    h.push_str(&format!("{b:02x}"));
                }
                s.serialize_str(&h)
            }
        }
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        if let Some(h) = s.strip_prefix("\u{0}hex:") {
            let h = h.as_bytes();
            let mut v = Vec::with_capacity(h.len() / 2);
            for c in h.chunks(2) {
                let t = std::str::from_utf8(c).unwrap_or("0");
                v.push(u8::from_str_radix(t, 16).unwrap_or(b'?'));
            }
            Ok(Bytes(v))
        } else {
            Ok(Bytes(s.into_bytes()))
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    File(usize),
    Dir,
    Symlink(String),
}

#[derive(Clone, Debug, Default)]
struct Inode {
    data: Vec<u8>,
    durable: Vec<u8>,
}

#[derive(Clone, Debug)]
struct Fd {
    ino: Option<usize>, // None: directory
    pos: usize,
    rec: usize,
    nreads: u32,
    nwrites: u32,
    written: usize,
    faults: Vec<usize>,
    path: String,
    write: bool,
    append: bool,
    eintr_pending: bool,
}

/// One open(2) attempt and everything delivered through it.
#[derive(Clone, Debug)]
pub struct OpenRec {
    pub path: String,
    pub ok: bool,
    pub errno: i32,
    pub delivered: Vec<u8>,
    pub eof: bool,
    pub read_errno: i32,
    pub write: bool,
    /// events fired before this open / before its EOF
    pub op_open: u64,
    pub op_last: u64,
    /// simulated task that opened it
    pub task: usize,
}

pub struct Os {
    nodes: BTreeMap<String, Node>,
    renames: Vec<(String, String)>,
    durable_nodes: BTreeMap<String, Node>,
    inodes: Vec<Inode>,
    fds: BTreeMap<i32, Fd>,
    next_fd: i32,
    pub cwd: String,
    pub faults: Vec<Fault>,
    fault_hits: Vec<u64>,
    events: VecDeque<Event>,
    counts: BTreeMap<(u8, String), u32>,
    pub ops: u64,
    arm_base: u64,
    pub now_ns: u64,
    lat: Rng,
    entropy: Rng,
    pub entropy_draws: u64,
    pub log: Vec<String>,
    pub log_hash: Fnv,
    pub fired: BTreeMap<String, u64>,
    pub opens: Vec<OpenRec>,
    /// questions about a path (stat, realpath) that were answered "not there" or failed
    pub denied: Vec<(String, usize)>,
    /// (directory, names, by whom)
    pub listed: Vec<(String, Vec<String>, usize)>,
    dirs: Vec<String>,
    pub open_dirs: usize,
    /// what was asked for that would change the disk or the process, and by whom
    pub changed: Vec<(String, usize)>,
}

const FD_BASE: i32 = 1 << 20;
const DIR_BASE: i32 = 1 << 28;
pub const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EACCES: i32 = 13;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const EMFILE: i32 = 24;
pub const ENOSPC: i32 = 28;
pub const ELOOP: i32 = 40;
pub const ESTALE: i32 = 116;

pub fn is_sim_fd(fd: i32) -> bool {
    fd >= FD_BASE
}

#[derive(Clone, Copy)]
pub struct StatOut {
    pub is_dir: bool,
    pub is_link: bool,
    pub size: u64,
    pub ino: u64,
}

impl Os {
    pub fn new(hash_seed: u64, lat_seed: u64) -> Self {
        let mut nodes = BTreeMap::new();
        nodes.insert("/".to_string(), Node::Dir);
        Os {
            durable_nodes: nodes.clone(),
            renames: vec![],
            nodes,
            inodes: vec![],
            fds: BTreeMap::new(),
            next_fd: FD_BASE,
            cwd: "/".into(),
            faults: vec![],
            fault_hits: vec![],
            events: VecDeque::new(),
            counts: BTreeMap::new(),
            ops: 0,
            arm_base: 0,
            now_ns: 0,
            lat: Rng::new(lat_seed),
            entropy: Rng::new(hash_seed),
            entropy_draws: 0,
            log: vec![],
            log_hash: Fnv::new(),
            fired: BTreeMap::new(),
            opens: vec![],
            denied: vec![],
            listed: vec![],
            dirs: vec![],
            open_dirs: 0,
            changed: vec![],
        }
    }

    fn change(&mut self, what: String) {
        self.note(what.clone());
        self.changed.push((what, crate::sched::root()));
    }
    pub fn note(&mut self, s: String) {
        self.log_hash.add(s.as_bytes());
        if self.log.len() < 4000 {
            self.log.push(s);
        }
    }
    pub fn fire(&mut self, k: &str) {
        *self.fired.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn reseed_entropy(&mut self, s: u64) {
        self.entropy = Rng::new(s);
    }
    pub fn fill_random(&mut self, buf: &mut [u8]) {
        self.entropy_draws += 1;
        for c in buf.chunks_mut(8) {
            let r = self.entropy.u64().to_le_bytes();
            c.copy_from_slice(&r[..c.len()]);
        }
    }

    // ---- harness-side set-up (not counted as system calls) ----
    pub fn mkdirs(&mut self, path: &str) {
        let mut cur = String::new();
        for c in path.split('/').filter(|c| !c.is_empty()) {
            cur.push('/');
            cur.push_str(c);
            self.nodes.entry(cur.clone()).or_insert(Node::Dir);
            self.durable_nodes.entry(cur.clone()).or_insert(Node::Dir);
        }
    }
    pub fn put(&mut self, path: &str, data: &[u8]) {
        if let Some((d, _)) = path.rsplit_once('/') {
            self.mkdirs(d);
        }
        let ino = self.inodes.len();
        self.inodes.push(Inode {
            data: data.to_vec(),
            durable: data.to_vec(),
        });
        self.nodes.insert(path.to_string(), Node::File(ino));
        self.durable_nodes.insert(path.to_string(), Node::File(ino));
    }
    pub fn symlink(&mut self, path: &str, target: &str) {
        if let Some((d, _)) = path.rsplit_once('/') {
            self.mkdirs(d);
        }
        self.nodes
            .insert(path.to_string(), Node::Symlink(target.to_string()));
        self.durable_nodes
            .insert(path.to_string(), Node::Symlink(target.to_string()));
    }
    pub fn get(&self, path: &str) -> Option<Vec<u8>> {
        match self.nodes.get(path) {
            Some(Node::File(i)) => Some(self.inodes[*i].data.clone()),
            _ => None,
        }
    }
    pub fn remove(&mut self, path: &str) {
        self.nodes.remove(path);
        self.durable_nodes.remove(path);
    }
    pub fn files(&self) -> Vec<String> {
        self.nodes
            .iter()
            .filter(|(_, n)| matches!(n, Node::File(_)))
            .map(|(p, _)| p.clone())
            .collect()
    }
    /// Arm a fault plan and storage events for the next operation.
    pub fn arm(&mut self, faults: &[Fault], events: &[Event]) {
        self.faults = faults.to_vec();
        self.fault_hits = vec![0; faults.len()];
        let mut ev = events.to_vec();
        ev.sort_by_key(|e| e.at);
        self.events = ev.into();
        self.counts.clear();
        self.arm_base = self.ops;
    }
    /// Fire whatever has not fired yet (the updater finishes after the reader).
    pub fn drain_events(&mut self) {
        while let Some(e) = self.events.pop_front() {
            self.apply(&e.act);
        }
    }
    pub fn drop_events(&mut self) {
        self.events.clear();
    }
    pub fn apply(&mut self, a: &FsAction) {
        self.fire(a.name());
        match a {
            FsAction::Replace { path, data } => {
                self.note(format!("updater replace {path} {}B", data.0.len()));
                self.put(path, &data.0);
            }
            FsAction::Truncate { path, len } => {
                self.note(format!("updater truncate {path} to {len}"));
                if let Some(Node::File(i)) = self.nodes.get(path).cloned() {
                    self.inodes[i].data.truncate(*len);
                    self.inodes[i].durable.truncate(*len);
                }
            }
            FsAction::WriteAt { path, off, data } => {
                self.note(format!("updater write {path} @{off} {}B", data.0.len()));
                if let Some(Node::File(i)) = self.nodes.get(path).cloned() {
                    let d = &mut self.inodes[i].data;
                    if d.len() < off + data.0.len() {
                        d.resize(off + data.0.len(), 0);
                    }
                    d[*off..off + data.0.len()].copy_from_slice(&data.0);
                    self.inodes[i].durable = self.inodes[i].data.clone();
                }
            }
            FsAction::Remove { path } => {
                self.note(format!("updater remove {path}"));
                self.remove(path);
            }
            FsAction::Chdir { path } => {
                self.note(format!("chdir {path}"));
                self.cwd = path.clone();
            }
        }
    }

    /// Power loss: volatile state is dropped. Un-synced file content survives as
    /// a prefix of what was written (possibly nothing), un-synced renames either
    /// happened or did not.
    pub fn crash(&mut self, rng: &mut Rng) {
        self.fds.clear();
        for i in &mut self.inodes {
            if i.data != i.durable {
                let common = 0;
                let keep = if rng.chance(0.3) {
                    i.data.len()
                } else {
                    common + rng.idx(i.data.len() + 1)
                };
                let mut v = i.data[..keep].to_vec();
                if rng.chance(0.3) && !v.is_empty() {
                    // size was journalled, tail blocks were not: zeros
                    let z = rng.idx(v.len());
                    for b in &mut v[z..] {
                        *b = 0;
                    }
                }
                if rng.chance(0.3) {
                    v = i.durable.clone();
                }
                i.data = v.clone();
                i.durable = v;
            }
        }
        let paths: Vec<String> = self
            .nodes
            .keys()
            .chain(self.durable_nodes.keys())
            .cloned()
            .collect();
        // a rename reached the disk or did not: both its names agree
        let mut group: BTreeMap<String, String> = BTreeMap::new();
        for (a, b) in std::mem::take(&mut self.renames) {
            let g = group.get(&a).or_else(|| group.get(&b)).cloned().unwrap_or_else(|| a.clone());
            group.insert(a, g.clone());
            group.insert(b, g);
        }
        let mut coin: BTreeMap<String, bool> = BTreeMap::new();
        for p in paths {
            if self.nodes.get(&p) != self.durable_nodes.get(&p) {
                let g = group.get(&p).cloned().unwrap_or_else(|| p.clone());
                let back = *coin.entry(g).or_insert_with(|| rng.chance(0.5));
                if back {
                    match self.durable_nodes.get(&p).cloned() {
                        Some(n) => {
                            self.nodes.insert(p, n);
                        }
                        None => {
                            self.nodes.remove(&p);
                        }
                    }
                } else {
                    match self.nodes.get(&p).cloned() {
                        Some(n) => {
                            self.durable_nodes.insert(p, n);
                        }
                        None => {
                            self.durable_nodes.remove(&p);
                        }
                    }
                }
            }
        }
        self.fire("crash");
        self.note("crash".into());
    }

    // ---- system call side ----
    fn tick(&mut self) {
        self.ops += 1;
        self.now_ns += 2_000 + self.lat.below(400_000);
        let rel = self.ops - self.arm_base - 1;
        while let Some(e) = self.events.front() {
            if e.at <= rel {
                let e = self.events.pop_front().unwrap();
                self.apply(&e.act);
            } else {
                break;
            }
        }
    }

    fn count(&mut self, class: u8, path: &str) -> u32 {
        let c = self.counts.entry((class, path.to_string())).or_insert(0);
        *c += 1;
        *c - 1
    }

    fn hit(&mut self, i: usize) {
        self.fault_hits[i] += 1;
        let n = self.faults[i].kind.name();
        self.fire(n);
    }

    /// Resolve a path to (canonical path, node); follows symlinks.
    pub fn resolve(&self, path: &str, follow_last: bool) -> Result<(String, Option<Node>), i32> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        let mut pending: VecDeque<String> = VecDeque::new();
        if !path.starts_with('/') {
            for c in self.cwd.split('/') {
                pending.push_back(c.to_string());
            }
        }
        for c in path.split('/') {
            pending.push_back(c.to_string());
        }
        let mut cur = String::from("/");
        let mut links = 0;
        let mut node = Node::Dir;
        while let Some(c) = pending.pop_front() {
            if c.is_empty() || c == "." {
                // "file/" and "file/." need a directory
                if c == "." && !matches!(node, Node::Dir) {
                    return Err(ENOTDIR);
                }
                continue;
            }
            if !matches!(node, Node::Dir) {
                return Err(ENOTDIR);
            }
            if c == ".." {
                cur = match cur.rsplit_once('/') {
                    Some(("", _)) | None => "/".into(),
                    Some((d, _)) => d.to_string(),
                };
                continue;
            }
            let next = if cur == "/" {
                format!("/{c}")
            } else {
                format!("{cur}/{c}")
            };
            let last = pending.iter().all(|c| c.is_empty());
            match self.nodes.get(&next) {
                None => {
                    if last {
                        return Ok((next, None));
                    }
                    return Err(ENOENT);
                }
                Some(Node::Symlink(t)) if !last || follow_last => {
                    links += 1;
                    if links > 20 {
                        return Err(ELOOP);
                    }
                    let mut v: Vec<String> = t.split('/').map(str::to_string).collect();
                    v.reverse();
                    for c in v {
                        pending.push_front(c);
                    }
                    if t.starts_with('/') {
                        cur = "/".into();
                    }
                    node = Node::Dir;
                }
                Some(n) => {
                    node = n.clone();
                    cur = next;
                }
            }
        }
        if path.ends_with('/') && !matches!(node, Node::Dir) {
            return Err(ENOTDIR);
        }
        Ok((cur, Some(node)))
    }

    pub fn open(&mut self, path: &str, flags: i32) -> Result<i32, i32> {
        self.tick();
        let canon = match self.resolve(path, true) {
            Ok((p, _)) => p,
            Err(_) => path.to_string(),
        };
        let acc = flags & libc::O_ACCMODE;
        let write = acc != libc::O_RDONLY;
        if write || flags & (libc::O_CREAT | libc::O_TRUNC) != 0 {
            self.changed.push((format!("open for writing {canon}"), crate::sched::root()));
        }
        let nth = {
            let c = self.counts.get(&(0, canon.clone())).copied().unwrap_or(0);
            c
        };
        // EINTR on open does not consume the attempt
        let mut fd_faults = vec![];
        let mut fail = None;
        for i in 0..self.faults.len() {
            if self.faults[i].path != canon || self.faults[i].nth.is_some_and(|n| n != nth) {
                continue;
            }
            match self.faults[i].kind.clone() {
                FaultKind::OpenEintr(n) if self.fault_hits[i] < u64::from(n) => {
                    self.hit(i);
                    self.note(format!("open {canon} -> EINTR"));
                    return Err(EINTR);
                }
                FaultKind::OpenErr(e) => {
                    if fail.is_none() {
                        self.hit(i);
                        fail = Some(e);
                    }
                }
                _ => fd_faults.push(i),
            }
        }
        self.count(0, &canon);
        let mut rec = OpenRec {
            path: canon.clone(),
            ok: false,
            errno: 0,
            delivered: vec![],
            eof: false,
            read_errno: 0,
            write,
            op_open: self.ops,
            op_last: self.ops,
            task: crate::sched::root(),
        };
        let res = match fail {
            Some(e) => Err(e),
            None => match self.resolve(path, true) {
                Err(e) => Err(e),
                Ok((p, None)) => {
                    if write && flags & libc::O_CREAT != 0 {
                        let ino = self.inodes.len();
                        self.inodes.push(Inode::default());
                        self.nodes.insert(p, Node::File(ino));
                        Ok(Some(ino))
                    } else {
                        Err(ENOENT)
                    }
                }
                Ok((_, Some(Node::Dir))) => {
                    if write {
                        Err(EISDIR)
                    } else {
                        Ok(None)
                    }
                }
                Ok((_, Some(Node::Symlink(_)))) => Err(ELOOP),
                Ok((_, Some(Node::File(i)))) => {
                    if flags & libc::O_EXCL != 0 && flags & libc::O_CREAT != 0 {
                        Err(17)
                    } else {
                        if write && flags & libc::O_TRUNC != 0 {
                            self.inodes[i].data.clear();
                        }
                        Ok(Some(i))
                    }
                }
            },
        };
        let out = match res {
            Ok(ino) => {
                rec.ok = true;
                let fd = self.next_fd;
                self.next_fd += 1;
                self.fds.insert(
                    fd,
                    Fd {
                        ino,
                        pos: 0,
                        rec: self.opens.len(),
                        nreads: 0,
                        nwrites: 0,
                        written: 0,
                        faults: fd_faults,
                        path: canon.clone(),
                        write,
                        append: flags & libc::O_APPEND != 0,
                        eintr_pending: false,
                    },
                );
                self.note(format!("open {canon} -> fd{}", fd - FD_BASE));
                Ok(fd)
            }
            Err(e) => {
                rec.errno = e;
                self.note(format!("open {canon} -> errno {e}"));
                Err(e)
            }
        };
        self.opens.push(rec);
        out
    }

    pub fn read(&mut self, fd: i32, buf: &mut [u8], at: Option<usize>) -> Result<usize, i32> {
        self.tick();
        let Some(mut f) = self.fds.get(&fd).cloned() else {
            return Err(EBADF);
        };
        let Some(ino) = f.ino else {
            return Err(EISDIR);
        };
        f.nreads += 1;
        let was_pending = std::mem::take(&mut f.eintr_pending);
        let pos = at.unwrap_or(f.pos);
        let mut max = buf.len();
        let mut end = self.inodes[ino].data.len();
        let mut fail = None;
        for i in f.faults.clone() {
            match self.faults[i].kind.clone() {
                FaultKind::ReadEintr { every } => {
                    if every > 0 && f.nreads % every == 0 && !was_pending {
                        self.hit(i);
                        f.eintr_pending = true;
                        fail = Some(EINTR);
                    }
                }
                FaultKind::Short { max: m } => {
                    if max > m.max(1) && pos + m.max(1) < end {
                        self.hit(i);
                        max = m.max(1);
                    }
                }
                FaultKind::EarlyEof { at } => {
                    if at < end {
                        if pos >= at {
                            self.hit(i);
                        }
                        end = at;
                    }
                }
                FaultKind::ReadErr { at, errno } => {
                    if pos >= at {
                        self.hit(i);
                        fail = Some(errno);
                    } else {
                        max = max.min(at - pos);
                    }
                }
                _ => {}
            }
        }
        let r = if let Some(e) = fail {
            if e != EINTR {
                self.opens[f.rec].read_errno = e;
            }
            self.note(format!("read fd{} -> errno {e}", fd - FD_BASE));
            Err(e)
        } else {
            let n = end.saturating_sub(pos).min(max);
            if n > 0 {
                buf[..n].copy_from_slice(&self.inodes[ino].data[pos..pos + n]);
            }
            if at.is_none() {
                f.pos += n;
            }
            let ops = self.ops;
            let rec = &mut self.opens[f.rec];
            rec.delivered.extend_from_slice(&buf[..n]);
            rec.op_last = ops;
            if n == 0 && !buf.is_empty() {
                rec.eof = true;
            }
            self.note(format!("read fd{} -> {n}", fd - FD_BASE));
            Ok(n)
        };
        self.fds.insert(fd, f);
        r
    }

    pub fn write(&mut self, fd: i32, buf: &[u8]) -> Result<usize, i32> {
        self.tick();
        let Some(mut f) = self.fds.get(&fd).cloned() else {
            return Err(EBADF);
        };
        let Some(ino) = f.ino else {
            return Err(EBADF);
        };
        if !f.write {
            return Err(EBADF);
        }
        f.nwrites += 1;
        let was_pending = std::mem::take(&mut f.eintr_pending);
        let mut max = buf.len();
        let mut fail = None;
        for i in f.faults.clone() {
            match self.faults[i].kind.clone() {
                FaultKind::ShortWrite { max: m } => {
                    if max > m.max(1) {
                        self.hit(i);
                        max = m.max(1);
                    }
                }
                FaultKind::WriteEintr { every } => {
                    if every > 0 && f.nwrites % every == 0 && !was_pending {
                        self.hit(i);
                        f.eintr_pending = true;
                        fail = Some(EINTR);
                    }
                }
                FaultKind::WriteErr { at, errno } => {
                    if f.written >= at {
                        self.hit(i);
                        fail = Some(errno);
                    } else {
                        max = max.min(at - f.written);
                    }
                }
                _ => {}
            }
        }
        let r = if let Some(e) = fail {
            self.note(format!("write fd{} -> errno {e}", fd - FD_BASE));
            Err(e)
        } else {
            let n = max;
            let d = &mut self.inodes[ino].data;
            if f.append {
                f.pos = d.len();
            }
            if d.len() < f.pos + n {
                d.resize(f.pos + n, 0);
            }
            d[f.pos..f.pos + n].copy_from_slice(&buf[..n]);
            f.pos += n;
            f.written += n;
            self.note(format!("write fd{} -> {n}", fd - FD_BASE));
            Ok(n)
        };
        self.fds.insert(fd, f);
        r
    }

    pub fn fsync(&mut self, fd: i32) -> Result<(), i32> {
        self.tick();
        let Some(f) = self.fds.get(&fd).cloned() else {
            return Err(EBADF);
        };
        for i in f.faults.clone() {
            if let FaultKind::FsyncErr(e) = self.faults[i].kind {
                self.hit(i);
                self.note(format!("fsync fd{} -> errno {e}", fd - FD_BASE));
                return Err(e);
            }
        }
        match f.ino {
            Some(i) => {
                self.inodes[i].durable = self.inodes[i].data.clone();
                if let Some(Node::File(j)) = self.nodes.get(&f.path).cloned() {
                    if j == i {
                        self.durable_nodes.insert(f.path.clone(), Node::File(i));
                    }
                }
            }
            None => {
                let pre = if f.path == "/" {
                    "/".to_string()
                } else {
                    format!("{}/", f.path)
                };
                let direct = |p: &str| p.starts_with(&pre) && !p[pre.len()..].contains('/');
                let cur: Vec<(String, Node)> = self
                    .nodes
                    .iter()
                    .filter(|(p, _)| direct(p))
                    .map(|(p, n)| (p.clone(), n.clone()))
                    .collect();
                self.durable_nodes.retain(|p, _| !direct(p));
                self.durable_nodes.extend(cur);
            }
        }
        self.note(format!("fsync fd{}", fd - FD_BASE));
        Ok(())
    }

    pub fn rename(&mut self, a: &str, b: &str) -> Result<(), i32> {
        self.tick();
        self.changed.push((format!("rename {a} {b}"), crate::sched::root()));
        let (pa, na) = self.resolve(a, false)?;
        let (pb, _) = self.resolve(b, false)?;
        let Some(n) = na else { return Err(ENOENT) };
        self.nodes.remove(&pa);
        self.nodes.insert(pb.clone(), n);
        self.renames.push((pa.clone(), pb.clone()));
        self.note(format!("rename {pa} {pb}"));
        Ok(())
    }
    pub fn unlink(&mut self, a: &str) -> Result<(), i32> {
        self.tick();
        self.changed.push((format!("unlink {a}"), crate::sched::root()));
        let (pa, na) = self.resolve(a, false)?;
        if na.is_none() {
            return Err(ENOENT);
        }
        self.nodes.remove(&pa);
        self.note(format!("unlink {pa}"));
        Ok(())
    }
    pub fn chdir(&mut self, a: &str) -> Result<(), i32> {
        self.tick();
        self.change(format!("chdir {a}"));
        match self.resolve(a, true)? {
            (p, Some(Node::Dir)) => {
                self.cwd = p;
                Ok(())
            }
            (_, None) => Err(ENOENT),
            _ => Err(ENOTDIR),
        }
    }
    pub fn rmdir(&mut self, a: &str) -> Result<(), i32> {
        self.tick();
        self.change(format!("rmdir {a}"));
        match self.resolve(a, false)? {
            (p, Some(Node::Dir)) => {
                if self.nodes.keys().any(|k| k.starts_with(&format!("{p}/"))) {
                    return Err(39);
                }
                self.nodes.remove(&p);
                Ok(())
            }
            (_, None) => Err(ENOENT),
            _ => Err(ENOTDIR),
        }
    }
    /// a link of either kind
    pub fn link(&mut self, a: &str, b: &str, soft: bool) -> Result<(), i32> {
        self.tick();
        self.change(format!("link {a} {b}"));
        let (pb, nb) = self.resolve(b, false)?;
        if nb.is_some() {
            return Err(17);
        }
        let n = if soft { Node::Symlink(a.to_string()) } else { self.resolve(a, false)?.1.ok_or(ENOENT)? };
        self.nodes.insert(pb, n);
        Ok(())
    }
    /// rights, times, owners: asked for, but nothing here depends on them
    pub fn touch(&mut self, what: &str, a: &str) -> Result<(), i32> {
        self.tick();
        self.change(format!("{what} {a}"));
        match self.resolve(a, true)? {
            (_, None) => Err(ENOENT),
            _ => Ok(()),
        }
    }
    pub fn path_of(&self, fd: i32) -> Option<String> {
        self.fds.get(&fd).map(|f| f.path.clone())
    }
    pub fn mkdir(&mut self, a: &str) -> Result<(), i32> {
        self.tick();
        self.change(format!("mkdir {a}"));
        let (pa, na) = self.resolve(a, false)?;
        if na.is_some() {
            return Err(17);
        }
        self.nodes.insert(pa, Node::Dir);
        Ok(())
    }
    pub fn ftruncate(&mut self, fd: i32, len: usize) -> Result<(), i32> {
        self.tick();
        let Some(f) = self.fds.get(&fd) else {
            return Err(EBADF);
        };
        let Some(i) = f.ino else { return Err(EBADF) };
        self.inodes[i].data.resize(len, 0);
        Ok(())
    }

    pub fn close(&mut self, fd: i32) -> Result<(), i32> {
        match self.fds.remove(&fd) {
            Some(_) => Ok(()),
            None => Err(EBADF),
        }
    }

    pub fn lseek(&mut self, fd: i32, off: i64, whence: i32) -> Result<i64, i32> {
        let Some(f) = self.fds.get_mut(&fd) else {
            return Err(EBADF);
        };
        let len = f.ino.map_or(0, |i| self.inodes[i].data.len()) as i64;
        let p = match whence {
            0 => off,
            1 => f.pos as i64 + off,
            2 => len + off,
            _ => return Err(EINVAL),
        };
        if p < 0 {
            return Err(EINVAL);
        }
        f.pos = p as usize;
        Ok(p)
    }

    pub fn fstat(&mut self, fd: i32) -> Result<StatOut, i32> {
        self.tick();
        let Some(f) = self.fds.get(&fd).cloned() else {
            return Err(EBADF);
        };
        let mut out = StatOut {
            is_dir: f.ino.is_none(),
            is_link: false,
            size: f.ino.map_or(4096, |i| self.inodes[i].data.len() as u64),
            ino: f.ino.map_or(1, |i| i as u64 + 10),
        };
        for i in f.faults.clone() {
            match self.faults[i].kind {
                FaultKind::FstatErr(e) => {
                    self.hit(i);
                    self.note(format!("fstat fd{} -> errno {e}", fd - FD_BASE));
                    return Err(e);
                }
                FaultKind::SizeLie(s) => {
                    self.hit(i);
                    out.size = s;
                }
                _ => {}
            }
        }
        Ok(out)
    }

    pub fn stat(&mut self, path: &str, follow: bool) -> Result<StatOut, i32> {
        self.tick();
        let r = self.resolve(path, follow);
        let canon = match &r {
            Ok((p, _)) => p.clone(),
            Err(_) => path.to_string(),
        };
        let nth = self.count(1, &canon);
        for i in 0..self.faults.len() {
            if self.faults[i].path == canon && !self.faults[i].nth.is_some_and(|n| n != nth) {
                if let FaultKind::StatErr(e) = self.faults[i].kind {
                    self.hit(i);
                    self.note(format!("stat {canon} -> errno {e}"));
                    self.denied.push((canon, crate::sched::root()));
                    return Err(e);
                }
            }
        }
        if !matches!(r, Ok((_, Some(_)))) {
            self.denied.push((canon, crate::sched::root()));
        }
        let (p, n) = r?;
        self.note(format!("stat {p} -> {}", n.is_some()));
        match n {
            None => Err(ENOENT),
            Some(n) => Ok(StatOut {
                is_dir: matches!(n, Node::Dir),
                is_link: matches!(n, Node::Symlink(_)),
                size: match &n {
                    Node::File(i) => self.inodes[*i].data.len() as u64,
                    Node::Symlink(t) => t.len() as u64,
                    Node::Dir => 4096,
                },
                ino: match &n {
                    Node::File(i) => *i as u64 + 10,
                    _ => 1,
                },
            }),
        }
    }

    pub fn realpath(&mut self, path: &str) -> Result<String, i32> {
        self.tick();
        let r = self.resolve(path, true);
        let canon = match &r {
            Ok((p, _)) => p.clone(),
            Err(_) => path.to_string(),
        };
        let nth = self.count(2, &canon);
        for i in 0..self.faults.len() {
            if self.faults[i].path == canon && !self.faults[i].nth.is_some_and(|n| n != nth) {
                if let FaultKind::RealpathErr(e) = self.faults[i].kind {
                    self.hit(i);
                    self.note(format!("realpath {canon} -> errno {e}"));
                    self.denied.push((canon, crate::sched::root()));
                    return Err(e);
                }
            }
        }
        if !matches!(r, Ok((_, Some(_)))) {
            self.denied.push((canon, crate::sched::root()));
        }
        let (p, n) = r?;
        self.note(format!("realpath {p} -> {}", n.is_some()));
        if n.is_none() {
            return Err(ENOENT);
        }
        Ok(p)
    }

    /// numbers under which directories being listed are known
    pub fn dir_fd(&mut self, path: &str) -> i32 {
        if let Some(i) = self.dirs.iter().position(|d| d == path) {
            return DIR_BASE + i as i32;
        }
        self.dirs.push(path.to_string());
        DIR_BASE + self.dirs.len() as i32 - 1
    }
    pub fn dir_of(&self, fd: i32) -> Option<String> {
        self.dirs.get(usize::try_from(fd - DIR_BASE).ok()?).cloned()
    }
    /// the entries of a directory, in no particular order
    pub fn list(&mut self, path: &str) -> Result<Vec<(String, bool, bool)>, i32> {
        self.tick();
        let (p, n) = self.resolve(path, true)?;
        self.note(format!("opendir {p} -> {}", n.is_some()));
        match n {
            None => return Err(ENOENT),
            Some(Node::Dir) => {}
            Some(_) => return Err(ENOTDIR),
        }
        let pre = if p == "/" { p } else { format!("{p}/") };
        let mut v: Vec<(String, bool, bool)> = self
            .nodes
            .iter()
            .filter_map(|(k, n)| {
                let k = k.strip_prefix(&pre)?;
                (!k.is_empty() && !k.contains('/')).then(|| (k.to_string(), matches!(n, Node::Dir), matches!(n, Node::Symlink(_))))
            })
            .collect();
        self.lat.shuffle(&mut v);
        let dir = pre.trim_end_matches('/').to_string();
        self.listed.push((dir, v.iter().map(|x| x.0.clone()).collect(), crate::sched::root()));
        Ok(v)
    }
    pub fn readlink(&mut self, path: &str) -> Result<String, i32> {
        self.tick();
        match self.resolve(path, false)? {
            (_, Some(Node::Symlink(t))) => Ok(t),
            (_, Some(_)) => Err(EINVAL),
            _ => Err(ENOENT),
        }
    }

    pub fn getcwd(&mut self) -> Result<String, i32> {
        self.tick();
        let nth = self.count(3, "cwd");
        for i in 0..self.faults.len() {
            if !self.faults[i].nth.is_some_and(|n| n != nth) {
                if let FaultKind::GetcwdErr(e) = self.faults[i].kind {
                    self.hit(i);
                    self.note(format!("getcwd -> errno {e}"));
                    return Err(e);
                }
            }
        }
        let c = self.cwd.clone();
        if !matches!(self.nodes.get(&c), Some(Node::Dir)) {
            return Err(ENOENT);
        }
        self.note(format!("getcwd -> {c}"));
        Ok(c)
    }
    pub fn has_fd(&self, fd: i32) -> bool {
        self.fds.contains_key(&fd)
    }
    pub fn open_fds(&self) -> usize {
        self.fds.len()
    }
}
