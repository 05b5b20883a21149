//! The code under test, driven by specification steps.
use crate::{grid, model::*, space, util::*};
use ic_stable_structures::{
    memory_manager::{MemoryId, MemoryManager},
    Memory, VectorMemory,
};
use serde::{Deserialize, Serialize};
use stable_fs::{
    error::Error,
    fs::{
        Advice, ChunkSize, ChunkType, DstBuf, Fd, FdFlags, FdStat, FileSystem, OpenFlags, SrcBuf,
        Whence,
    },
    storage::{
        stable::StableStorage,
        transient::TransientStorage,
        types::{FileType, Metadata, MountedFileSizePolicy},
        Storage,
    },
};
use std::collections::{BTreeMap as Map, BTreeSet, HashMap, HashSet};

/// the memories of StableStorage::new
const OWN_BASE: u8 = 229;
const RIGHT_READ: u64 = 1 << 1;
const RIGHT_WRITE: u64 = 1 << 6;
const ALL_RIGHTS: u64 = (1 << 28) - 1;
const BALLAST: &str = "~ballast";

/// One way to run a behaviour.
#[derive(Clone, Debug, Deserialize, Serialize, Default)]
pub struct Variant {
    /// "v2", "v1", "mix" or "transient"
    pub backend: String,
    /// chunk size in KB
    #[serde(default)]
    pub cs: u64,
    #[serde(default)]
    pub grids: Vec<String>,
    /// observe the state through the running instance every `each` steps (0: at the end only)
    #[serde(default)]
    pub each: usize,
    /// observe the state through a second instance every `second` steps
    #[serde(default)]
    pub second: usize,
    /// look up all names every `lookup` steps
    #[serde(default)]
    pub lookup: usize,
    /// check the ownership of space every `space` steps
    #[serde(default)]
    pub space: usize,
    /// age the image at upgrades
    #[serde(default)]
    pub legacy: bool,
    /// percentage of steps after which caches are disturbed
    #[serde(default)]
    pub noise: u64,
    /// unrelated objects to create first
    #[serde(default)]
    pub ballast: usize,
    /// "plain", "long" or "odd"
    #[serde(default)]
    pub names: String,
    /// percentage of steps before which the storage (and with it every cache)
    /// is created anew below the running file system (while nothing is mounted)
    #[serde(default)]
    pub cold: u64,
    /// percentage of steps before which the caches are emptied and then filled
    /// up to (nearly) what they hold
    #[serde(default)]
    pub brim: u64,
    /// chunk size in KB the grid is made for (0: the own one, 1: random)
    #[serde(default)]
    pub gcs: u64,
    /// choose `each` at random
    #[serde(default)]
    pub cadence: bool,
    /// at an upgrade, keep the storage object
    #[serde(default)]
    pub soft: bool,
    /// the behaviour sets chunk size and chunk type: compare them
    #[serde(default)]
    pub conf: bool,
    /// begin with an image of an earlier version ("load"), or with the same made by calls ("make")
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub image: String,
    #[serde(default)]
    pub weight: u64,
}

#[derive(Clone, Debug, Deserialize, Serialize, Default)]
pub struct Shape {
    pub ng: usize,
    pub max_idx: usize,
    pub wide: Vec<usize>,
    pub mem0: Vec<usize>,
}

pub struct World<'a> {
    pub pat: &'a Pattern,
    pub var: Variant,
    pub g: Vec<u128>,
    /// choices that belong to the call
    pub rng: Rng,
    /// choices of the configuration
    pub vrng: Rng,
    /// choices of the observer
    orng: Rng,
    base: u8,
    neighbours: Vec<u8>,
    raw: VectorMemory,
    pub fs: Option<FileSystem>,
    pub mems: Vec<VectorMemory>,
    pub fd_of: HashMap<usize, Fd>,
    pub used_fds: Vec<Fd>,
    node_of: HashMap<usize, u64>,
    pub seen: HashSet<u64>,
    idx: HashMap<(u64, String), (u64, u32)>,
    was_mounted: HashSet<u64>,
    ballast_nodes: Vec<u64>,
    ballast_node: u64,
    last_space: Option<space::Space>,
    pub upgraded: bool,
    /// the memory as the last upgrade found it
    pub snapshot: Option<Vec<u8>>,
    pub aged: bool,
    pub last_op_failed: bool,
    /// what a unit of time of the specification is
    pub ts: u64,
}

fn fresh_mem() -> VectorMemory {
    std::rc::Rc::new(std::cell::RefCell::new(Vec::new()))
}

pub fn err_name(e: &Error) -> String {
    format!("{e:?}")
}

fn whole(e: &Error) -> Res {
    Res { e: err_name(e), v: vec![] }
}

fn manager(raw: &VectorMemory) -> MemoryManager<VectorMemory> {
    MemoryManager::init_with_bucket_size(raw.clone(), 1)
}
/// The storage on this memory; the constructor with its own memory manager
/// stands for the one given the memories it would take.
fn open_storage(raw: &VectorMemory, base: u8) -> StableStorage<VectorMemory> {
    let mm = manager(raw);
    if base == OWN_BASE {
        drop(mm);
        return StableStorage::new(raw.clone());
    }
    StableStorage::new_with_memory_manager(&mm, base..base + 10)
}

impl<'a> World<'a> {
    pub fn new(pat: &'a Pattern, var: &Variant, shape: &Shape, seed: u64) -> World<'a> {
        let mut rng = Rng::new(seed);
        let family = rng.pick(&var.grids).clone();
        let mut var = var.clone();
        if var.cadence {
            var.each = *rng.pick(&[1, 1, 3, 0]);
        }
        let own = match var.backend.as_str() {
            "v2" | "mix" => var.cs * 1024,
            _ => 4096,
        };
        let any = *rng.pick(&[4096, 8192, 16384, 32768, 65536]);
        let cs = match var.gcs {
            0 => own,
            1 => any,
            k => k * 1024,
        };
        let mut vrng = Rng::new(seed ^ 0x55);
        if var.names == "any" {
            var.names = vrng.pick(&["odd", "blank", "case", "uni", "num"]).to_string();
        }
        let spec = grid::GridSpec { ng: shape.ng, max_idx: shape.max_idx, wide: shape.wide.clone() };
        let g = grid::make(&family, &spec, cs, &mut rng);
        let raw = fresh_mem();
        let base = *vrng.pick(&[0u8, 7, 100, 229, 244]);
        let mems = shape
            .mem0
            .iter()
            .map(|i| {
                let m = fresh_mem();
                m.grow((g[*i] / 65536) as u64);
                m
            })
            .collect();
        // memories of the application on both sides of those of the storage
        let neighbours: Vec<u8> = if var.space > 0 { [base.wrapping_sub(1), base + 10].into_iter().filter(|i| *i < 254).collect() } else { vec![] };
        for i in &neighbours {
            let m = manager(&raw).get(MemoryId::new(*i));
            m.grow(1);
            m.write(0, &vec![*i ^ 0x5A; 65536]);
        }
        let mut w = World {
            pat, var: var.clone(), g, rng, vrng, orng: Rng::new(seed ^ 0x77), base, raw, neighbours, fs: None, mems,
            fd_of: HashMap::new(), used_fds: vec![], node_of: HashMap::new(), seen: HashSet::new(),
            idx: HashMap::new(), was_mounted: HashSet::new(), ballast_nodes: vec![], ballast_node: 0,
            last_space: None, snapshot: None, upgraded: false, aged: false, last_op_failed: false,
            ts: if var.image.is_empty() { *Rng::new(seed ^ 0x99).pick(&[1, 1_000_000_007, (1 << 33) + 1]) } else { 1 },
        };
        w.fs = Some(if var.backend == "transient" {
            FileSystem::new(Box::new(TransientStorage::new())).unwrap()
        } else {
            let mut st = open_storage(&w.raw, base);
            if var.backend != "v1" || w.vrng.pct(50) {
                let kb = if var.cs == 0 { 16 } else { var.cs };
                st.set_chunk_size(chunk_size(kb * 1024)).unwrap();
            }
            if var.backend == "v1" {
                st.set_chunk_type(ChunkType::V1);
            }
            FileSystem::new(Box::new(st)).unwrap()
        });
        let root = w.fs().root_fd();
        w.fd_of.insert(1, root);
        let rn = w.fs().storage.root_node();
        w.node_of.insert(1, rn);
        w.seen.insert(rn);
        if var.ballast > 0 {
            w.make_ballast();
        }
        w
    }

    pub fn describe(&self) -> serde_json::Value {
        serde_json::json!({"variant": self.var, "grid": self.g.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "memory_base": self.base})
    }

    pub fn fs(&mut self) -> &mut FileSystem {
        self.fs.as_mut().unwrap()
    }
    pub fn stable(&self) -> bool {
        self.var.backend != "transient"
    }

    fn make_ballast(&mut self) {
        let n = self.var.ballast;
        let fs = self.fs.as_mut().unwrap();
        let d = fs.create_open_directory(fs.root_fd(), BALLAST, FdStat::default(), 5).unwrap();
        self.ballast_node = fs.metadata(d).unwrap().node;
        self.ballast_nodes.push(self.ballast_node);
        for i in 0..n {
            let f = fs.open(d, &format!("f{i}"), FdStat::default(), OpenFlags::CREATE, 0).unwrap();
            self.ballast_nodes.push(fs.metadata(f).unwrap().node);
            if i == 0 {
                fs.set_file_size(f, 11500 * 65536).unwrap();
            }
            fs.close(f).unwrap();
        }
        fs.close(d).unwrap();
        self.seen.extend(self.ballast_nodes.iter().copied());
    }

    /// Touch many unrelated things so that every internal cache turns over.
    pub fn noise(&mut self) -> Check {
        let kind = self.vrng.below(4);
        let n = if self.vrng.pct(50) { 101 + self.vrng.below(60) } else { 88 + self.vrng.below(13) };
        let cs = self.fs().storage.chunk_size() as u64;
        let bn = self.ballast_nodes.clone();
        let fs = self.fs.as_mut().unwrap();
        let root = fs.root_fd();
        if kind == 0 || bn.is_empty() {
            let mut p = String::from(".");
            for _ in 0..n {
                fs.open_metadata(root, &p).map_err(|e| Diff { class: "lookup:noise".into(), detail: format!("{p}: {e:?}") })?;
                p.push_str("/.");
            }
        }
        if bn.is_empty() {
            return Ok(());
        }
        if kind == 1 || kind == 3 {
            for b in &bn {
                fs.metadata_from_node(*b).map_err(|e| Diff { class: "lookup:noise".into(), detail: format!("ballast node {b}: {e:?}") })?;
            }
        }
        if kind == 2 || kind == 3 {
            let mut b = [0u8; 1];
            for i in 0..11 {
                fs.storage.read(bn[1], i * 1024 * cs, &mut b).map_err(|e| Diff { class: "lookup:noise".into(), detail: format!("{e:?}") })?;
            }
        }
        Ok(())
    }

    pub fn name(&self, c: &str) -> String {
        match (self.var.names.as_str(), c) {
            (_, "") | (_, ".") | (_, "..") => c.to_string(),
            ("odd", "a") => "x".into(),
            ("odd", "b") => "x y".into(),
            ("odd", "c") => "\u{e9}\u{4e2d}~\u{1}".into(),
            ("odd", "d") => "...".into(),
            ("odd", "e") => ".x".into(),
            ("blank", "a") => "x".into(),
            ("blank", "b") => "x ".into(),
            ("blank", "c") => " x".into(),
            ("blank", "d") => "\tx".into(),
            ("blank", "e") => " ".into(),
            ("case", "a") => "x".into(),
            ("case", "b") => "X".into(),
            ("case", "c") => "x.".into(),
            ("case", "d") => "x\0".into(),
            ("case", "e") => "x\\".into(),
            ("uni", "a") => "\u{e9}".into(),
            ("uni", "b") => "e\u{301}".into(),
            ("uni", "c") => "..x".into(),
            ("uni", "d") => "\u{7f}".into(),
            ("uni", "e") => "...".into(),
            ("num", "a") => "1".into(),
            ("num", "b") => "01".into(),
            ("num", "c") => "11".into(),
            ("num", "d") => "*".into(),
            ("num", "e") => "%2e%2e".into(),
            ("long", "LONG") => "L".repeat(254) + "\u{e9}",
            ("long", c) => format!("{}{}", "n".repeat(254), &c[..1]),
            ("prefix", "a") => "n".repeat(254),
            ("prefix", "b") => "n".repeat(255),
            ("prefix", "c") => "n".repeat(253),
            ("prefix", "LONG") => "n".repeat(256),
            (_, "LONG") => "L".repeat(256 + (self.base as usize)),
            (_, c) => c.to_string(),
        }
    }
    fn path(&self, p: &[String]) -> String {
        path(p, &|c| self.name(c))
    }

    pub fn at(&self, i: usize) -> u64 {
        u64::try_from(self.g[i]).unwrap_or(u64::MAX)
    }

    /// a number that follows all ordinary ones given out so far
    pub fn next_fd(&self) -> Fd {
        self.used_fds.iter().filter(|f| **f < 1000).max().copied().unwrap_or(3).max(3) + 1
    }

    /// the number for an operation on a closed or open descriptor slot
    pub fn fd(&mut self, slot: usize, std_ok: bool) -> Fd {
        if let Some(f) = self.fd_of.get(&slot) {
            return *f;
        }
        let open: BTreeSet<Fd> = self.fd_of.values().copied().collect();
        let closed: Vec<Fd> = self.used_fds.iter().copied().filter(|f| !open.contains(f)).collect();
        let mut c: Vec<Fd> = vec![self.next_fd(), u32::MAX, 1000 + slot as u32];
        if std_ok {
            c.extend([0, 1, 2]);
        }
        c.retain(|f| !open.contains(f));
        let closed: Vec<Fd> = closed.into_iter().filter(|f| std_ok || *f > 3).collect();
        if !closed.is_empty() && self.rng.pct(70) {
            if self.rng.pct(50) { closed[closed.len() - 1] } else { *self.rng.pick(&closed) }
        } else {
            *self.rng.pick(&c)
        }
    }

    fn renum_target(&mut self, slot: usize, cls: &str) -> Fd {
        if let Some(f) = self.fd_of.get(&slot) {
            return *f;
        }
        let open: BTreeSet<Fd> = self.fd_of.values().copied().collect();
        let closed: Vec<Fd> = self.used_fds.iter().copied().filter(|f| !open.contains(f)).collect();
        let next = self.next_fd();
        let r = match cls {
            "freed" if !closed.is_empty() => *self.rng.pick(&closed),
            "next" => next,
            "std" => *self.rng.pick(&[0u32, 1, 2]),
            "next2" => next + self.rng.range(1, 3) as u32,
            "far" => *self.rng.pick(&[1000u32, 1 << 20, u32::MAX, u32::MAX - 1]),
            _ => next,
        };
        if open.contains(&r) { next } else { r }
    }

    /// 1, 2: the rights to read and write; 4, 8: APPEND, NONBLOCK; 16, 32, 64:
    /// the flags without a meaning here; 128: no other right, 256: no
    /// inheriting right, 512: every bit of the rights
    fn stat(st: u64) -> FdStat {
        let all = if st & 512 != 0 { u64::MAX } else { ALL_RIGHTS };
        let mut r = if st & 128 != 0 { 0 } else { all & !(RIGHT_READ | RIGHT_WRITE) };
        if st & 1 != 0 {
            r |= RIGHT_READ;
        }
        if st & 2 != 0 {
            r |= RIGHT_WRITE;
        }
        let mut f = FdFlags::empty();
        if st & 4 != 0 {
            f |= FdFlags::APPEND;
        }
        if st & 8 != 0 {
            f |= FdFlags::NONBLOCK;
        }
        for (b, x) in [(16, FdFlags::DSYNC), (32, FdFlags::RSYNC), (64, FdFlags::SYNC)] {
            if st & b != 0 {
                f |= x;
            }
        }
        FdStat { flags: f, rights_base: r, rights_inheriting: if st & 256 != 0 { 0 } else { all } }
    }

    /// a descriptor was returned for spec slot v[0]
    fn new_fd(&mut self, op: &Op, exp: &Res, got: Result<Fd, Error>) -> Result<Res, Diff> {
        match got {
            Err(e) => Ok(whole(&e)),
            Ok(fd) => {
                if exp.e != "ok" {
                    return Ok(Res { e: "ok".into(), v: vec![] });
                }
                if fd <= 3 || self.fd_of.values().any(|f| *f == fd) {
                    return diff(format!("fdnum:{}", op.o), format!("returned descriptor {fd} is in use already"));
                }
                self.fd_of.insert(exp.v[0] as usize, fd);
                self.used_fds.retain(|f| *f != fd);
                self.used_fds.push(fd);
                Ok(exp.clone())
            }
        }
    }

    fn unit(r: Result<(), Error>) -> Res {
        match r {
            Ok(()) => Res { e: "ok".into(), v: vec![] },
            Err(e) => whole(&e),
        }
    }

    /// Performs the call of `op`; the result is in terms of the specification
    /// (equal to `exp` when the code agrees).
    pub fn call(&mut self, op: &Op, exp: &Res, before: Option<&State>) -> Result<Res, Diff> {
        let t = op.t * self.ts;
        match op.o.as_str() {
            "open" => {
                let (fd, p) = (self.fd(op.fd, true), self.path(&op.p));
                let mut fl = OpenFlags::empty();
                for (b, f) in [(1, OpenFlags::CREATE), (2, OpenFlags::DIRECTORY), (4, OpenFlags::EXCLUSIVE), (8, OpenFlags::TRUNCATE)] {
                    if op.fl & b != 0 {
                        fl |= f;
                    }
                }
                let r = self.fs().open(fd, &p, Self::stat(op.st), fl, t);
                self.new_fd(op, exp, r)
            }
            "mkdir" => {
                let (fd, p) = (self.fd(op.fd, true), self.path(&op.p));
                Ok(Self::unit(self.fs().mkdir(fd, &p, FdStat::default(), t)))
            }
            "mkdiro" => {
                let (fd, p) = (self.fd(op.fd, true), self.path(&op.p));
                let r = self.fs().create_open_directory(fd, &p, Self::stat(op.st), t);
                self.new_fd(op, exp, r)
            }
            "close" => {
                let fd = self.fd(op.fd, true);
                let r = self.fs().close(fd);
                if exp.e == "ok" && r.is_ok() && op.fd != 1 {
                    self.fd_of.remove(&op.fd);
                }
                Ok(Self::unit(r))
            }
            "renum" => {
                let a = self.fd(op.fd, true);
                let b = if op.fd == op.to { a } else { self.renum_target(op.to, &op.cls) };
                if a == b && op.fd != op.to {
                    // both closed, happen to be the same number: still a closed descriptor
                }
                let r = self.fs().renumber(a, b);
                if exp.e == "ok" && r.is_ok() && op.fd != op.to {
                    self.fd_of.remove(&op.fd);
                    self.fd_of.insert(op.to, b);
                    self.used_fds.retain(|f| *f != b);
                    self.used_fds.push(b);
                }
                Ok(Self::unit(r))
            }
            "write" => self.write(op, exp, before),
            "read" => self.read(op, exp, before),
            "seek" => self.seek(op, exp, before),
            "tell" => {
                let fd = self.fd(op.fd, true);
                match self.fs().tell(fd) {
                    Err(e) => Ok(whole(&e)),
                    Ok(x) => {
                        if exp.e == "ok" && x != self.at(exp.v[0] as usize) {
                            return diff("value:tell", format!("tell gives {x}, expected {}", self.at(exp.v[0] as usize)));
                        }
                        Ok(exp_or(exp, "ok"))
                    }
                }
            }
            "flush" => {
                let fd = self.fd(op.fd, true);
                Ok(Self::unit(self.fs().flush(fd)))
            }
            "advise" => {
                let fd = self.fd(op.fd, false);
                let (a, b) = (self.rng.next(), self.rng.next());
                let adv = Advice::try_from((a % 6) as u8).unwrap();
                Ok(Self::unit(if a % 2 == 0 { self.fs().advice(fd, a, b, adv) } else { self.fs().allocate(fd, a, b) }))
            }
            "setsize" => {
                let (fd, z) = (self.fd(op.fd, true), self.at(op.to));
                Ok(Self::unit(self.fs().set_file_size(fd, z)))
            }
            "setmeta" => {
                let (fd, z) = (self.fd(op.fd, false), self.at(op.to));
                let fs = self.fs();
                let m = fs.metadata(fd);
                Ok(Self::unit(match m {
                    Ok(mut m) => {
                        if m.file_type == FileType::Directory {
                            // not a call the interface offers for directories in any useful way
                            return Ok(exp.clone());
                        }
                        m.size = z;
                        fs.set_metadata(fd, m)
                    }
                    Err(e) => Err(e),
                }))
            }
            "setall" => {
                let fd = self.fd(op.fd, false);
                let (z, lim) = (self.at(op.to), if op.lim < 0 { None } else { Some(self.at(op.lim as usize)) });
                let junk = self.rng.next();
                let fs = self.fs();
                Ok(Self::unit(match fs.metadata(fd) {
                    Ok(mut m) => {
                        // attributes the caller may remember wrongly
                        if junk & 1 != 0 {
                            m.link_count = junk >> 40 & 7;
                        }
                        if junk & 2 != 0 {
                            m.first_dir_entry = if junk & 16 != 0 { None } else { Some(3) };
                            m.last_dir_entry = if junk & 32 != 0 { None } else { Some(1) };
                        }
                        if junk & 4 != 0 {
                            m.chunk_type = [None, Some(ChunkType::V1), Some(ChunkType::V2)][(junk >> 50) as usize % 3];
                        }
                        let dir = m.file_type == FileType::Directory;
                        if !dir || junk & 8 != 0 {
                            m.size = z;
                            m.maximum_size_allowed = lim;
                        }
                        m.times.modified = t;
                        m.times.accessed = t;
                        match op.k.as_str() {
                            "type" => m.file_type = if dir { FileType::RegularFile } else if junk & 64 != 0 { FileType::SymbolicLink } else { FileType::Directory },
                            "node" => m.node = m.node.wrapping_add(if junk & 64 != 0 { 1 } else { u64::MAX }),
                            _ => {}
                        }
                        fs.set_metadata(fd, m)
                    }
                    Err(e) => Err(e),
                }))
            }
            "setlim" => {
                let (fd, z) = (self.fd(op.fd, true), self.at(op.to));
                Ok(Self::unit(self.fs().set_file_size_limit(fd, z)))
            }
            "settime" => {
                let fd = self.fd(op.fd, true);
                let fs = self.fs();
                Ok(Self::unit(if op.w == 2 { fs.set_modified_time(fd, t) } else { fs.set_accessed_time(fd, t) }))
            }
            "setstat" => {
                let fd = self.fd(op.fd, true);
                Ok(Self::unit(self.fs().set_stat(fd, Self::stat(op.st))))
            }
            "unlink" => {
                let (fd, p) = (self.fd(op.fd, true), self.path(&op.p));
                Ok(Self::unit(self.fs().remove_file(fd, &p)))
            }
            "rmdir" => {
                let (fd, p) = (self.fd(op.fd, true), self.path(&op.p));
                Ok(Self::unit(self.fs().remove_dir(fd, &p)))
            }
            "rmrec" => {
                let (fd, p) = (self.fd(op.fd, true), self.path(&op.p));
                Ok(Self::unit(self.fs().remove_recursive(fd, &p)))
            }
            "link" | "rename" => {
                let (fd, p) = (self.fd(op.fd, true), self.path(&op.p));
                let (fd2, p2) = (self.fd(op.fd2, true), self.path(&op.p2));
                let fs = self.fs();
                let r = if op.o == "link" { fs.create_hard_link(fd, &p, fd2, &p2) } else { fs.rename(fd, &p, fd2, &p2) };
                self.new_fd(op, exp, r)
            }
            "mount" => {
                let p = self.path(&op.p);
                let m = op.m.as_u64().unwrap() as usize;
                let pol = match op.pol.as_str() {
                    "zero" => MountedFileSizePolicy::PreviousOrZero,
                    "prevpages" => MountedFileSizePolicy::PreviousOrMemoryPages,
                    "explicit" => MountedFileSizePolicy::Explicit(self.at(op.to)),
                    _ => MountedFileSizePolicy::MemoryPages,
                };
                let mem = Box::new(self.mems[m - 1].clone());
                Ok(Self::unit(self.fs().mount_memory_file(&p, mem, pol)))
            }
            "unmount" => {
                let p = self.path(&op.p);
                match self.fs().unmount_memory_file(&p) {
                    Err(e) => Ok(whole(&e)),
                    Ok(mem) => {
                        if exp.e == "ok" {
                            let want = &self.mems[exp.v[0] as usize - 1];
                            // the very same memory: a byte written to one is seen in the other
                            let same = mem.size() == want.size() && (mem.size() == 0 || {
                                let (mut a, mut b) = ([0u8], [0u8]);
                                want.read(0, &mut a);
                                want.write(0, &[a[0] ^ 0xff]);
                                mem.read(0, &mut b);
                                want.write(0, &a);
                                b[0] == a[0] ^ 0xff
                            });
                            if !same {
                                return diff("mount:unmount", "another memory was returned");
                            }
                        }
                        Ok(exp_or(exp, "ok"))
                    }
                }
            }
            "initm" => {
                let p = self.path(&op.p);
                Ok(Self::unit(self.fs().init_memory_file(&p)))
            }
            "storem" => {
                let p = self.path(&op.p);
                Ok(Self::unit(self.fs().store_memory_file(&p)))
            }
            "upgrade" => {
                self.upgrade(before)?;
                Ok(exp.clone())
            }
            "setcs" => {
                let k = self.chunk_size_at(op.to);
                if !self.stable() {
                    return Ok(exp.clone());
                }
                Ok(match self.fs().storage.set_chunk_size(k) {
                    Ok(()) => exp_or(&Res { e: "ok".into(), v: vec![op.to as i64] }, "ok"),
                    Err(e) => whole(&e),
                })
            }
            "setct" => {
                if self.stable() {
                    self.fs().storage.set_chunk_type(if op.to == 1 { ChunkType::V1 } else { ChunkType::V2 });
                }
                Ok(exp.clone())
            }
            "bulk" => {
                let fd = self.fd(op.fd, false);
                self.bulk(fd, &op.k, "~bulk-")?;
                self.last_space = None;
                Ok(exp.clone())
            }
            o => panic!("unknown operation {o}"),
        }
    }

    /// the chunk size k places after that of the configuration
    pub fn chunk_size_at(&self, k: usize) -> ChunkSize {
        let own = if self.var.cs == 0 { 16 } else { self.var.cs };
        let i = [4, 8, 16, 32, 64].iter().position(|x| *x == own).unwrap();
        chunk_size([4096u64, 8192, 16384, 32768, 65536][(i + k) % 5])
    }

    fn observe_conf(&mut self, s: &State, o: &str) -> Check {
        let cs = self.chunk_size_at(s.cf.cs) as usize;
        let st = &self.fs.as_ref().unwrap().storage;
        if st.chunk_size() != cs {
            return diff(format!("conf:{o}"), format!("the chunk size is {}, expected {cs}", st.chunk_size()));
        }
        let ct = match st.chunk_type() {
            ChunkType::V1 => 1,
            ChunkType::V2 => 2,
        };
        if ct != s.cf.ct {
            return diff(format!("conf:{o}"), format!("new files get chunk type V{ct}, expected V{}", s.cf.ct));
        }
        if s.cf.used && self.second().chunk_size() != cs {
            return diff(format!("persist-conf:{o}"), format!("the persisted chunk size is {}, expected {cs}", self.second().chunk_size()));
        }
        for (id, n) in &s.n {
            let ck = match self.fs.as_ref().unwrap().storage.get_metadata(self.node_of[id]) {
                Ok(m) if n.ty == "f" => m.chunk_type,
                _ => continue,
            };
            let want = if n.ck == 1 { ChunkType::V1 } else { ChunkType::V2 };
            if ck != Some(want) {
                return diff(format!("conf:{o}"), format!("node {} has chunk type {ck:?}, expected {want:?}", self.node_of[id]));
            }
        }
        Ok(())
    }

    /// places where a buffer is cut into several ones
    pub fn pieces(&mut self, len: usize) -> Vec<usize> {
        // (now and then more than the 1024 buffers that other systems allow)
        let n = if self.rng.pct(2) { *self.rng.pick(&[1023u64, 1025, 2100]) } else { *self.rng.pick(&[1u64, 2, 3, 5, 9, 40, 130]) };
        (0..n).map(|_| self.rng.below(len as u64 + 1) as usize).collect()
    }

    fn write(&mut self, op: &Op, exp: &Res, _before: Option<&State>) -> Result<Res, Diff> {
        let fd = self.fd(op.fd, true);
        let (b0, bl) = (op.bs[0], *op.bs.last().unwrap());
        let len = usize::try_from(self.g[bl] - self.g[b0]).unwrap();
        assert!(len < 1 << 28, "write of {len} bytes");
        let start = self.at(b0);
        let mut data = vec![0u8; len];
        self.pat.fill(op.v, start, &mut data);
        let mut bufs = vec![];
        let mut cuts: Vec<usize> = op.bs.iter().map(|b| (self.g[*b] - self.g[b0]) as usize).collect();
        if self.rng.pct(25) {
            // (a write that fails may stop between two buffers)
            let fits = match self.fs.as_mut().unwrap().metadata(fd) {
                Ok(m) => (self.g[bl]) <= m.maximum_size_allowed.unwrap_or(u64::MAX).min(grid::MAX_FILE_SIZE) as u128,
                _ => false,
            };
            let more = self.pieces(len);
            if fits {
                cuts.extend(more);
                cuts.sort();
            }
        }
        for w in cuts.windows(2) {
            let (x, y) = (w[0], w[1]);
            bufs.push(SrcBuf { buf: data[x..y].as_ptr(), len: y - x });
        }
        let mut off = start;
        let single = bufs.len() == 1 && self.rng.pct(50);
        let fs = self.fs.as_mut().unwrap();
        let r = if op.m == "off" {
            // in append mode the given offset does not matter
            if matches!(fs.get_stat(fd), Ok((_, st)) if st.flags.contains(FdFlags::APPEND)) {
                let near = start.saturating_add(self.rng.below(20_000));
                off = *self.rng.pick(&[start, 0, near, near, start / 2, self.g[self.g.len() - 1] as u64, u64::MAX]);
            }
            fs.write_vec_with_offset(fd, &bufs, off)
        } else if single {
            fs.write(fd, &data)
        } else {
            fs.write_vec(fd, &bufs)
        };
        match r {
            Err(e) => Ok(whole(&e)),
            Ok(n) => {
                if exp.e == "ok" && n != len as u64 {
                    return diff("value:write", format!("write reports {n} bytes, {len} were given"));
                }
                Ok(exp_or(exp, "ok"))
            }
        }
    }

    fn read(&mut self, op: &Op, exp: &Res, _before: Option<&State>) -> Result<Res, Diff> {
        let fd = self.fd(op.fd, true);
        let (b0, bl) = (op.bs[0], *op.bs.last().unwrap());
        let len = usize::try_from(self.g[bl] - self.g[b0]).unwrap();
        assert!(len < 1 << 28, "read of {len} bytes");
        let start = self.at(b0);
        let mut data = vec![0xEEu8; len];
        let base = data.as_mut_ptr();
        let mut bufs = vec![];
        let mut cuts: Vec<usize> = op.bs.iter().map(|b| (self.g[*b] - self.g[b0]) as usize).collect();
        if self.rng.pct(25) {
            cuts.extend(self.pieces(len));
            cuts.sort();
        }
        for w in cuts.windows(2) {
            let (x, y) = (w[0], w[1]);
            bufs.push(DstBuf { buf: unsafe { base.add(x) }, len: y - x });
        }
        let single = bufs.len() == 1 && self.rng.pct(50);
        let fs = self.fs.as_mut().unwrap();
        let r = if op.m == "off" {
            fs.read_vec_with_offset(fd, &bufs, start)
        } else if single {
            fs.read(fd, &mut data)
        } else {
            fs.read_vec(fd, &bufs)
        };
        match r {
            Err(e) => Ok(whole(&e)),
            Ok(n) => {
                if exp.e != "ok" {
                    return Ok(Res { e: "ok".into(), v: vec![] });
                }
                let (a, b) = (exp.v[0] as usize, exp.v[1] as usize);
                let want = (self.g[b] - self.g[a]) as u64;
                if n != want {
                    return diff("value:read", format!("read at {start} reports {n} bytes, expected {want}"));
                }
                for i in a..b {
                    let x = (self.g[i] - self.g[a]) as usize;
                    let y = (self.g[i + 1] - self.g[a]) as usize;
                    let tag = exp.v[2 + i - a];
                    if let Some(p) = self.pat.check(tag, self.at(i), &data[x..y]) {
                        return diff("value:read", format!("byte {p} read as {}, expected tag {tag} (cell {} of grid)", data[p.wrapping_sub(self.at(a)) as usize], i + 1));
                    }
                }
                Ok(exp.clone())
            }
        }
    }

    fn seek(&mut self, op: &Op, exp: &Res, _before: Option<&State>) -> Result<Res, Diff> {
        let fd = self.fd(op.fd, true);
        let w = op.w.as_str().unwrap().to_string();
        let target = self.at(op.to);
        let extreme = self.rng.pct(30);
        let fs = self.fs.as_mut().unwrap();
        let cur = fs.tell(fd).unwrap_or(0);
        let size = fs.metadata(fd).map(|m| m.size).unwrap_or(0);
        let (delta, whence) = match w.as_str() {
            "set" => {
                if op.bad == 1 {
                    (if extreme { i64::MIN } else { -(1 + (target % 100) as i64) }, Whence::SET)
                } else {
                    match i64::try_from(target) {
                        Ok(d) => (d, Whence::SET),
                        Err(_) => {
                            // not reachable in one step from the start
                            if let Err(e) = fs.seek(fd, i64::MAX, Whence::SET) {
                                return Ok(whole(&e));
                            }
                            ((target - i64::MAX as u64) as i64, Whence::CUR)
                        }
                    }
                }
            }
            "cur" => {
                if op.bad == 1 {
                    let over = cur > i64::MAX as u64 + 1;
                    if over && extreme {
                        (i64::MAX, Whence::CUR)
                    } else if cur >= 1 << 63 {
                        return Ok(exp.clone()); // no such position
                    } else if extreme {
                        (i64::MIN, Whence::CUR)
                    } else {
                        (-(cur as i64) - 1, Whence::CUR)
                    }
                } else {
                    let mut c = cur;
                    loop {
                        let d = target as i128 - c as i128;
                        if let Ok(d) = i64::try_from(d) {
                            break (d, Whence::CUR);
                        }
                        let d = if d > 0 { i64::MAX } else { -i64::MAX };
                        match fs.seek(fd, d, Whence::CUR) {
                            Ok(x) => c = x,
                            Err(e) => return Ok(whole(&e)),
                        }
                    }
                }
            }
            _ => {
                if op.bad == 1 {
                    (if extreme || size > i64::MAX as u64 - 1 { i64::MIN } else { -(size as i64) - 1 }, Whence::END)
                } else {
                    let d = target as i128 - size as i128;
                    (i64::try_from(d).unwrap_or(i64::MAX), Whence::END)
                }
            }
        };
        match fs.seek(fd, delta, whence) {
            Err(e) => Ok(whole(&e)),
            Ok(x) => {
                if exp.e == "ok" && x != target {
                    return diff("value:seek", format!("seek reports {x}, expected {target}"));
                }
                Ok(exp_or(exp, "ok"))
            }
        }
    }

    fn upgrade(&mut self, before: Option<&State>) -> Check {
        self.upgraded = true;
        self.fd_of.retain(|k, _| *k == 1);
        self.used_fds.clear();
        if !self.stable() || self.var.soft {
            // the transient storage has no stable memory: start over on the same storage object
            let mut nodes = vec![];
            self.walk_real(0, &mut nodes, 0);
            let FileSystem { mut storage, .. } = self.fs.take().unwrap();
            for n in nodes {
                let _ = storage.unmount_node(n);
            }
            self.fs = Some(FileSystem::new(storage).unwrap());
        } else {
            let metas = if self.var.legacy { self.all_metas(before) } else { vec![] };
            self.fs = None;
            if self.var.legacy {
                self.aged = true;
                space::age(&manager(&self.raw), self.base, &metas, &mut self.vrng);
            }
            self.snapshot = Some(self.raw.borrow().clone());
            let mut st = open_storage(&self.raw, self.base);
            if self.var.backend == "v1" {
                st.set_chunk_type(ChunkType::V1);
            }
            self.fs = Some(FileSystem::new(Box::new(st)).unwrap());
        }
        let root = self.fs().root_fd();
        self.fd_of.insert(1, root);
        Ok(())
    }

    /// host and mounted attributes of all objects, as the running instance knows them
    fn all_metas(&mut self, _before: Option<&State>) -> Vec<(Metadata, Option<Metadata>)> {
        let mut nodes = vec![];
        self.walk_real(0, &mut nodes, 0);
        let mut r = vec![];
        for n in nodes {
            let fs = self.fs.as_mut().unwrap();
            let mounted = if fs.storage.is_mounted(n) {
                let m = fs.storage.get_metadata(n).ok();
                let _ = fs.storage.unmount_node(n);
                m
            } else {
                None
            };
            if let Ok(m) = fs.storage.get_metadata(n) {
                r.push((m, mounted));
            }
        }
        r
    }
    fn walk_real(&mut self, n: u64, out: &mut Vec<u64>, depth: usize) {
        if out.contains(&n) || depth > 40 {
            return;
        }
        out.push(n);
        let mut kids = vec![];
        self.fs().storage.with_direntries(n, Some(0), &mut |_, e| {
            kids.push(e.node);
            true
        });
        for k in kids {
            self.walk_real(k, out, depth + 1);
        }
    }

    /// Every cache of the storage starts empty again.
    fn swap_storage(&mut self) {
        let mut nodes = vec![];
        self.walk_real(0, &mut nodes, 0);
        let fs = self.fs.as_mut().unwrap();
        if nodes.iter().any(|n| fs.storage.is_mounted(*n)) {
            return;
        }
        let ct = fs.storage.chunk_type();
        fs.storage = Box::new(stable_fs::storage::transient::TransientStorage::new());
        let mut st = open_storage(&self.raw, self.base);
        st.set_chunk_type(ct);
        fs.storage = Box::new(st);
    }

    // ---------------------------------------------------------------- steps

    /// what may happen between two calls without any effect
    pub fn disturb(&mut self) {
        if self.var.backend == "mix" && self.vrng.pct(30) {
            let t = if self.vrng.pct(50) { ChunkType::V1 } else { ChunkType::V2 };
            self.fs().storage.set_chunk_type(t);
        }
        if self.var.cold > 0 && self.stable() && self.vrng.pct(self.var.cold) {
            self.swap_storage();
        }
        if self.var.brim > 0 && self.stable() && self.vrng.pct(self.var.brim) {
            self.swap_storage();
            self.fill();
        }
    }

    /// Fills the cache of attributes up to its capacity (1000) or a little less.
    fn fill(&mut self) {
        let left = self.vrng.below(8) as usize;
        let bn = self.ballast_nodes.clone();
        for b in bn.iter().take(1000usize.saturating_sub(left)) {
            let _ = self.fs().metadata_from_node(*b);
        }
    }

    /// Runs one step and compares its result.
    pub fn step(&mut self, step: &Step, before: Option<&State>, n: usize, last: bool) -> Check {
        self.disturb();
        self.last_op_failed = step.r.e != "ok";
        let clears_root = step.op.o == "rmrec" && before.map_or(step.op.fd == 1, |b| b.fd(step.op.fd).is_some_and(|f| f.n == 1)) && denotes_start(&step.op.p);
        let got = self.call(&step.op, &step.r, before)?;
        if clears_root && self.var.ballast > 0 {
            // the unrelated objects are below the root, too
            let n = self.ballast_node;
            if self.fs().storage.get_metadata(n).is_err() {
                self.var.ballast = 0;
                self.ballast_nodes.clear();
            }
        }
        let root_busy = self.var.ballast > 0
            && step.r.e == "TextFileBusy"
            && got.e == "DirectoryNotEmpty"
            && [(step.op.fd, &step.op.p), (step.op.fd2, &step.op.p2)].iter().any(|(fd, p)| {
                denotes_start(p) && before.map_or(*fd == 1, |b| b.fd(*fd).is_some_and(|f| f.n == 1))
            });
        // (the unrelated objects make the root directory non-empty)
        if got.e != step.r.e && !root_busy {
            let kind = if got.e == "ok" { "accept" } else if step.r.e == "ok" { "reject" } else { "error" };
            return diff(format!("{kind}:{}", step.op.o), format!("{} returned {}, expected {}", step.op.o, got.e, step.r.e));
        }
        if self.var.noise > 0 && self.vrng.pct(self.var.noise) {
            self.noise()?;
        }
        let due = |k: usize| k != 0 && (n % k == 0 || last);
        if let Some(s) = &step.s {
            let v = self.var.clone();
            self.observe_deaths(s, &step.op)?;
            if due(v.space) || due(v.each) || due(v.second) || due(v.lookup) || last {
                // identities first
                self.observe_tree(s, &step.op)?;
            }
            if due(v.each) || last {
                self.observe_fds(s, &step.op)?;
                self.observe_live(s, &step.op, "")?;
                self.observe_mems(s, &step.op)?;
                if v.conf && self.stable() {
                    self.observe_conf(s, &step.op.o)?;
                }
            }
            if self.stable() && (due(v.second) || (last && v.each + v.second > 0)) {
                self.observe_second(s, &step.op)?;
            }
            if due(v.lookup) {
                self.observe_names(s, &step.op)?;
            }
            if due(v.space) && self.stable() {
                self.observe_space(s)?;
            }
        }
        Ok(())
    }

    /// Objects that are gone according to the specification are gone.
    fn observe_deaths(&mut self, s: &State, op: &Op) -> Check {
        let o = &op.o;
        for (id, n) in &s.n {
            if n.mem != 0 {
                if let Some(x) = self.node_of.get(id) {
                    self.was_mounted.insert(*x);
                }
            }
        }
        let dead: Vec<usize> = self.node_of.keys().copied().filter(|id| s.node(*id).is_none()).collect();
        for id in dead {
            let n = self.node_of.remove(&id).unwrap();
            self.was_mounted.remove(&n);
            if self.fs().storage.get_metadata(n).is_ok() {
                return diff(format!("zombie:{o}"), format!("node {n} has no name any more but still exists"));
            }
        }
        Ok(())
    }

    /// Directory structure: entries, order, identities.
    fn observe_tree(&mut self, s: &State, op: &Op) -> Check {
        let o = &op.o;
        // breadth first from the root
        let mut queue = vec![1usize];
        let mut done = HashSet::new();
        let mut idx_now: HashMap<(u64, String), (u64, u32)> = HashMap::new();
        while let Some(id) = queue.pop() {
            if !done.insert(id) {
                continue;
            }
            let Some(n) = s.node(id) else { continue };
            if n.ty != "d" {
                continue;
            }
            let dir = self.node_of[&id];
            let real = self.list(dir, Some(0));
            let names: Vec<String> = real.iter().map(|x| x.1.clone()).collect();
            let want: Vec<String> = n.ents.iter().map(|e| self.name(&e.0)).collect();
            if names != want {
                let (mut a, mut b) = (names.clone(), want.clone());
                a.sort();
                b.sort();
                let c = if a == b { "order" } else { "tree" };
                return diff(format!("{c}:{o}"), format!("directory {dir} lists {names:?}, expected {want:?}"));
            }
            let mut prev = 0;
            for ((i, name, node), (_, cid)) in real.iter().zip(&n.ents) {
                if *i <= prev {
                    return diff(format!("order:{o}"), format!("entry indices of directory {dir} do not increase"));
                }
                prev = *i;
                match self.node_of.get(cid) {
                    Some(x) if x == node => {}
                    Some(x) => return diff(format!("tree:{o}"), format!("{name} refers to node {node}, expected {x}")),
                    None => {
                        if !self.seen.insert(*node) {
                            return diff(format!("nodeid:{o}"), format!("new object {name} has the identity {node} of another object"));
                        }
                        self.node_of.insert(*cid, *node);
                    }
                }
                idx_now.insert((dir, name.clone()), (*node, *i));
                queue.push(*cid);
            }
        }
        // entries that stayed keep their index
        for (k, (node, i)) in &idx_now {
            if let Some((n0, i0)) = self.idx.get(k) {
                if n0 == node && i0 != i && self.var.each == 1 && op.o != "rename" {
                    return diff(format!("order:{o}"), format!("entry {k:?} moved from index {i0} to {i}"));
                }
            }
        }
        self.idx = idx_now;
        Ok(())
    }

    pub fn list(&mut self, dir: u64, from: Option<u32>) -> Vec<(u32, String, u64)> {
        let mut real: Vec<(u32, String, u64)> = vec![];
        self.fs().storage.with_direntries(dir, from, &mut |i, e| {
            real.push((*i, String::from_utf8_lossy(&e.name.bytes[..e.name.length as usize]).into_owned(), e.node));
            true
        });
        real.retain(|x| x.1 != BALLAST);
        real
    }

    /// Resuming a listing, listing through descriptors, looking names up.
    fn observe_names(&mut self, s: &State, op: &Op) -> Check {
        let o = op.o.clone();
        let dirs: Vec<(usize, Fd, u64, usize)> = s.f.iter().filter(|x| x.1.k == "d").map(|(sl, f)| (*sl, self.fd_of[sl], self.node_of[&f.n], f.n)).collect();
        for (_, fd, node, id) in dirs {
            let all = self.list(node, Some(0));
            // listing through the descriptor with the two special entries
            let mut l = vec![];
            let r = self.fs().with_direntries(fd, None, &mut |i, e| {
                l.push((*i, String::from_utf8_lossy(&e.name.bytes[..e.name.length as usize]).into_owned(), e.node));
                true
            });
            if let Err(e) = r {
                return diff(format!("listing:{o}"), format!("listing descriptor {fd} fails with {e:?}"));
            }
            l.retain(|x| x.1 != BALLAST);
            if l.len() != all.len() + 2 || l[0].1 != "." || l[1].1 != ".." || l[2..] != all[..] || l[0].2 != node {
                return diff(format!("listing:{o}"), format!("listing of directory {node} through descriptor {fd}: {l:?}, entries {all:?}"));
            }
            // resumed at a special entry
            for (from, skip) in [(u32::MAX - 5, 0), (u32::MAX - 4, 1)] {
                if l.len() > 1 && l[skip].0 == from {
                    let r = self.list(node, Some(from));
                    if r != l[skip..] {
                        return diff(format!("listing:{o}"), format!("directory {node} resumed at {:?}: {r:?}, expected {:?}", l[skip].1, &l[skip..]));
                    }
                }
            }
            // resume at and behind an entry
            for k in [self.orng.below(all.len() as u64 + 1) as usize, 0] {
                if k < all.len() {
                    let i = all[k].0;
                    for (from, want) in [(i, &all[k..]), (i + 1, &all[k + 1..])] {
                        let l = self.list(node, Some(from));
                        if l != want {
                            return diff(format!("listing:{o}"), format!("directory {node} resumed at {from}: {l:?}, expected {want:?}"));
                        }
                    }
                    match self.fs().get_direntry(fd, i) {
                        Ok(e) if e.node == all[k].2 && e.name.bytes[..e.name.length as usize] == *all[k].1.as_bytes() => {}
                        e => return diff(format!("listing:{o}"), format!("entry {i} of directory {node}: {e:?}, expected {:?}", all[k])),
                    }
                    // stop early
                    let mut c = 0;
                    self.fs().storage.with_direntries(node, Some(0), &mut |_, _| {
                        c += 1;
                        false
                    });
                    if c != 1 {
                        return diff(format!("listing:{o}"), format!("listing went on after it was told to stop ({c})"));
                    }
                }
            }
            // any index at all
            let x = self.orng.below(1 << 32) as u32;
            for i in [u32::MAX, u32::MAX - 4, u32::MAX - 5, u32::MAX - 9, u32::MAX - 10, u32::MAX - 11, 1 << 31, 0, x] {
                if all.iter().any(|e| e.0 == i) || !self.ballast_nodes.is_empty() {
                    continue;
                }
                if let Ok(e) = self.fs().get_direntry(fd, i) {
                    return diff(format!("listing:{o}"), format!("directory {node} has {e:?} at {i}"));
                }
                if i < u32::MAX - 5 || i > u32::MAX - 4 {
                    let mut l = vec![];
                    let r = self.fs().with_direntries(fd, Some(i), &mut |i, e| {
                        l.push((*i, e.node));
                        true
                    });
                    if r.is_err() || l != all.iter().filter(|e| e.0 >= i).map(|e| (e.0, e.2)).collect::<Vec<_>>() {
                        return diff(format!("listing:{o}"), format!("directory {node} resumed at {i}: {r:?} {l:?}"));
                    }
                }
            }
            // every name below this directory, and absent names
            self.lookups(s, &o, fd, id, String::new(), 0)?;
        }
        self.probe(s, &o)
    }

    /// Questions about what does not exist.
    fn probe(&mut self, s: &State, o: &str) -> Check {
        let mut bad: Vec<Fd> = vec![u32::MAX, 1 << 31, 5000 + self.orng.below(1000) as u32];
        bad.extend(self.used_fds.iter().copied().filter(|f| *f > 2 && !self.fd_of.values().any(|x| x == f)).take(3));
        let open: HashSet<Fd> = self.fd_of.values().copied().collect();
        bad.retain(|f| !open.contains(f));
        let files: Vec<Fd> = s.f.iter().filter(|x| x.1.k == "f").map(|x| self.fd_of[&x.0]).collect();
        let dirs: Vec<Fd> = s.f.iter().filter(|x| x.1.k == "d").map(|x| self.fd_of[&x.0]).collect();
        let fs = self.fs();
        for n in [u64::MAX, u64::MAX - 1, i64::MAX as u64, 1 << 32, 1 << 40] {
            if let Ok(m) = fs.metadata_from_node(n) {
                return diff(format!("lookup:{o}"), format!("there is an object {n}: {m:?}"));
            }
        }
        let mut b = [0u8; 3];
        for fd in bad {
            let l = [
                fs.get_stat(fd).is_ok(), fs.metadata(fd).is_ok(), fs.tell(fd).is_ok(), fs.read(fd, &mut b).is_ok(), fs.write(fd, &b).is_ok(), fs.flush(fd).is_ok(),
                fs.with_direntries(fd, None, &mut |_, _| true).is_ok(), fs.get_direntry(fd, 1).is_ok(), fs.open_metadata(fd, "a").is_ok(), fs.set_file_size(fd, 0).is_ok(),
                fs.set_file_size_limit(fd, 1 << 40).is_ok(), fs.set_accessed_time(fd, 1).is_ok(), fs.set_modified_time(fd, 1).is_ok(), fs.set_stat(fd, FdStat::default()).is_ok(),
                fs.seek(fd, 0, Whence::CUR).is_ok(), fs.close(fd).is_ok(), fs.mkdir(fd, "a", FdStat::default(), 1).is_ok(), fs.remove_file(fd, "a").is_ok(),
                fs.remove_dir(fd, "a").is_ok(), fs.remove_recursive(fd, "a").is_ok(), fs.open(fd, "a", FdStat::default(), OpenFlags::CREATE, 1).is_ok(),
            ];
            if let Some(i) = l.iter().position(|x| *x) {
                return diff(format!("fdstate:{o}"), format!("call {i} works with descriptor {fd} that is not open"));
            }
        }
        for fd in files {
            let l = [fs.with_direntries(fd, None, &mut |_, _| true).is_ok(), fs.get_direntry(fd, 1).is_ok(), fs.open_metadata(fd, "a").is_ok(), fs.mkdir(fd, "a", FdStat::default(), 1).is_ok()];
            if let Some(i) = l.iter().position(|x| *x) {
                return diff(format!("fdstate:{o}"), format!("directory call {i} works with the descriptor {fd} of a file"));
            }
        }
        for fd in dirs {
            let l = [fs.read(fd, &mut b).is_ok(), fs.write(fd, &b).is_ok(), fs.tell(fd).is_ok(), fs.seek(fd, 0, Whence::END).is_ok()];
            if let Some(i) = l.iter().position(|x| *x) {
                return diff(format!("fdstate:{o}"), format!("file call {i} works with the descriptor {fd} of a directory"));
            }
        }
        if fs.root_path() != "/" || fs.root_fd() != 3 {
            return diff(format!("fdstate:{o}"), "the root directory has moved");
        }
        Ok(())
    }

    fn lookups(&mut self, s: &State, o: &str, fd: Fd, id: usize, prefix: String, depth: usize) -> Check {
        if depth > 3 {
            return Ok(());
        }
        let Some(n) = s.node(id) else { return Ok(()) };
        let here: Vec<(String, usize)> = n.ents.clone();
        for (c, cid) in &here {
            let p = format!("{prefix}{}", self.name(c));
            let want = self.node_of[cid];
            match self.fs().open_metadata(fd, &p) {
                Ok(m) if m.node == want => self.asked(&m, o, &format!("by name {p:?}"))?,
                Ok(m) => return diff(format!("lookup:{o}"), format!("{p:?} finds node {}, expected {want}", m.node)),
                Err(e) => return diff(format!("lookup:{o}"), format!("{p:?} not found ({e:?}), expected node {want}")),
            }
            self.lookups(s, o, fd, *cid, format!("{p}/"), depth + 1)?;
        }
        for c in ["a", "b", "c"] {
            if !here.iter().any(|e| e.0 == c) {
                let p = format!("{prefix}{}", self.name(c));
                match self.fs().open_metadata(fd, &p) {
                    Err(Error::NoSuchFileOrDirectory) => {}
                    r => return diff(format!("lookup:{o}"), format!("{p:?} does not exist, lookup gives {r:?}")),
                }
            }
        }
        Ok(())
    }

    /// Every way of asking for the attributes gives the same.
    fn asked(&mut self, m: &stable_fs::storage::types::Metadata, o: &str, how: &str) -> Check {
        let show = |m: &stable_fs::storage::types::Metadata| format!("{:?}", (m.node, m.file_type, m.link_count, m.size, &m.times, m.maximum_size_allowed));
        let fs = self.fs();
        for x in [fs.metadata_from_node(m.node), fs.storage.get_metadata(m.node)] {
            match x {
                Ok(x) if show(&x) == show(m) => {}
                x => return diff(format!("asked:{o}"), format!("attributes {how}: {}, by identity: {:?}", show(m), x.map(|x| show(&x)))),
            }
        }
        Ok(())
    }

    fn observe_fds(&mut self, s: &State, op: &Op) -> Check {
        let o = &op.o;
        for (slot, f) in &s.f {
            let fd = self.fd_of[slot];
            let node = self.node_of[&f.n];
            let want = Self::stat(f.st);
            let at = self.at(f.cur);
            let fs = self.fs();
            let (ty, st) = match fs.get_stat(fd) {
                Ok(x) => x,
                Err(e) => return diff(format!("fdstate:{o}"), format!("descriptor {fd} is not open any more ({e:?})")),
            };
            if (ty == FileType::Directory) != (f.k == "d") {
                return diff(format!("fdstate:{o}"), format!("descriptor {fd} is of type {ty:?}"));
            }
            if st.flags != want.flags || (*slot != 1 || f.st != 3) && (st.rights_base, st.rights_inheriting) != (want.rights_base, want.rights_inheriting) {
                return diff(format!("fdstat:{o}"), format!("descriptor {fd} has {st:?}, expected {want:?}"));
            }
            match fs.metadata(fd) {
                Ok(m) if m.node == node => self.asked(&m, o, &format!("by descriptor {fd}"))?,
                r => return diff(format!("fdstate:{o}"), format!("descriptor {fd} refers to {:?}, expected node {node}", r.map(|m| m.node))),
            }
            if f.k == "f" {
                match self.fs().tell(fd) {
                    Ok(x) if x == at => {}
                    r => return diff(format!("cursor:{o}"), format!("cursor of descriptor {fd} is {r:?}, expected {at}")),
                }
            }
        }
        let open: HashSet<Fd> = self.fd_of.values().copied().collect();
        let closed: Vec<Fd> = self.used_fds.iter().copied().filter(|f| !open.contains(f)).collect();
        for fd in closed {
            if self.fs().get_stat(fd).is_ok() {
                return diff(format!("fdstate:{o}"), format!("descriptor {fd} was closed but is valid"));
            }
        }
        Ok(())
    }

    fn observe_live(&mut self, s: &State, op: &Op, pre: &str) -> Check {
        let mut fs = self.fs.take().unwrap();
        let r = self.observe_nodes(&mut *fs.storage, s, op, pre, false);
        self.fs = Some(fs);
        r
    }

    /// Attributes and content of all objects.  host: as seen without mounts.
    fn observe_nodes(&mut self, st: &mut dyn Storage, s: &State, op: &Op, pre: &str, host: bool) -> Check {
        let o = &op.o;
        for (id, n) in &s.n {
            let node = self.node_of[id];
            let m = match st.get_metadata(node) {
                Ok(m) => m,
                Err(e) => return diff(format!("{pre}lost:{o}"), format!("node {node} is gone ({e:?})")),
            };
            let mounted = n.mem != 0 && !host;
            let (sz, lim, tm) = if mounted { (n.mm[0].sz, n.mm[0].lim, n.mm[0].tm) } else { (n.sz, n.lim, n.tm) };
            if m.node != node || (m.file_type == FileType::Directory) != (n.ty == "d") {
                return diff(format!("{pre}nodeid:{o}"), format!("attributes of node {node} are those of {m:?}"));
            }
            if m.link_count != n.lc {
                return diff(format!("{pre}lc:{o}"), format!("node {node} has link count {}, expected {}", m.link_count, n.lc));
            }
            if [m.times.created, m.times.modified, m.times.accessed] != tm.map(|t| t * self.ts) {
                return diff(format!("{pre}times:{o}"), format!("node {node} has {:?}, expected {:?}", m.times, tm.map(|t| t * self.ts)));
            }
            if n.ty == "d" {
                let want = n.ents.len() as u64 + if *id == 1 && self.var.ballast > 0 { 1 } else { 0 };
                if m.size != want {
                    return diff(format!("{pre}dirsize:{o}"), format!("directory {node} has size {}, expected {want}", m.size));
                }
                continue;
            }
            let wl = if lim < 0 { None } else { Some(self.at(lim as usize)) };
            if m.maximum_size_allowed != wl {
                return diff(format!("{pre}limit:{o}"), format!("node {node} has limit {:?}, expected {wl:?}", m.maximum_size_allowed));
            }
            if m.size != self.at(sz) {
                return diff(format!("{pre}size:{o}"), format!("node {node} has size {}, expected {}", m.size, self.at(sz)));
            }
            if mounted {
                // compared with the memories; reads go there
                continue;
            }
            for i in 0..sz {
                let (a, b) = (self.g[i] as u64, self.g[i + 1] as u64);
                self.check_cell(st, node, a, b, n.dat[i]).map_err(|d| Diff { class: format!("{pre}{}:{o}", d.class), detail: d.detail })?;
            }
            // nothing beyond the end
            let mut b = [0u8; 8];
            match st.read(node, self.at(sz), &mut b) {
                Ok(0) => {}
                r => return diff(format!("{pre}content:{o}"), format!("reading node {node} at its end {} gives {r:?}", self.at(sz))),
            }
        }
        Ok(())
    }

    fn check_cell(&mut self, st: &mut dyn Storage, node: u64, a: u64, b: u64, tag: i64) -> Check {
        let mut spans: Vec<(u64, u64)> = vec![];
        if b - a <= 1 << 20 {
            spans.push((a, b));
        } else {
            // edges and samples
            spans.push((a, a + 5000));
            spans.push((b - 5000, b));
            for _ in 0..3 {
                let x = self.orng.range(a, b - 64);
                spans.push((x, x + 64));
            }
            let k = self.orng.range(a / 65536 + 1, b / 65536) * 65536;
            if k > a + 64 && k + 64 < b {
                spans.push((k - 64, k + 64));
            }
        }
        for (x, y) in spans {
            let mut buf = vec![0xEEu8; (y - x) as usize];
            match st.read(node, x, &mut buf) {
                Ok(n) if n == y - x => {}
                r => return diff("content", format!("reading node {node} at {x}..{y} gives {r:?}")),
            }
            if let Some(p) = self.pat.check(tag, x, &buf) {
                return diff("content", format!("node {node}: byte {p} is {}, expected tag {tag} (range {a}..{b})", buf[(p - x) as usize]));
            }
        }
        Ok(())
    }

    fn observe_mems(&mut self, s: &State, op: &Op) -> Check {
        let o = &op.o;
        for (i, m) in s.m.iter().enumerate() {
            let mem = self.mems[i].clone();
            if mem.size() != self.at(m.pg) / 65536 {
                return diff(format!("mempages:{o}"), format!("memory {} has {} pages, expected {}", i + 1, mem.size(), self.at(m.pg) / 65536));
            }
            for c in 0..m.pg {
                let (a, b) = (self.at(c), self.at(c + 1));
                let mut buf = vec![0u8; (b - a) as usize];
                mem.read(a, &mut buf);
                if let Some(p) = self.pat.check(m.c[c], a, &buf) {
                    return diff(format!("mem:{o}"), format!("memory {}: byte {p} is {}, expected tag {}", i + 1, buf[(p - a) as usize], m.c[c]));
                }
            }
        }
        for (id, n) in &s.n {
            let node = self.node_of[id];
            let is = self.fs().storage.is_mounted(node);
            if is != (n.mem != 0) {
                return diff(format!("mount:{o}"), format!("node {node} is{} mounted", if is { "" } else { " not" }));
            }
        }
        Ok(())
    }

    /// another instance on a copy of the memory
    pub fn copy(&self) -> StableStorage<VectorMemory> {
        let copy: VectorMemory = std::rc::Rc::new(std::cell::RefCell::new(self.raw.borrow().clone()));
        open_storage(&copy, self.base)
    }
    /// the configuration of an image
    pub fn placement(&self) -> (Variant, u8, Vec<u128>) {
        (self.var.clone(), self.base, self.g.clone())
    }
    pub fn new_mems(&mut self, mem0: &[usize]) {
        self.mems = mem0
            .iter()
            .map(|i| {
                let m = fresh_mem();
                m.grow((self.g[*i] / 65536) as u64);
                m
            })
            .collect();
    }
    /// Goes on with this memory.
    pub fn load(&mut self, bytes: Vec<u8>, base: u8) {
        self.fs = None;
        self.raw = std::rc::Rc::new(std::cell::RefCell::new(bytes));
        self.base = base;
        self.reopen();
    }
    pub fn reopen(&mut self) {
        self.fs = None;
        let st = open_storage(&self.raw, self.base);
        self.fs = Some(FileSystem::new(Box::new(st)).unwrap());
        let root = self.fs().root_fd();
        self.fd_of.insert(1, root);
        self.used_fds.clear();
    }

    /// another instance on the same memory
    pub fn second(&self) -> StableStorage<VectorMemory> {
        open_storage(&self.raw, self.base)
    }

    /// What an upgrade at this point would find.
    fn observe_second(&mut self, s: &State, op: &Op) -> Check {
        let mut st = self.second();
        let o = &op.o;
        if st.get_version() != 1 || self.fs().get_storage_version() != 1 {
            return diff(format!("persist-version:{o}"), format!("the storage has version {} now", st.get_version()));
        }
        for (id, n) in &s.n {
            if n.ty != "d" {
                continue;
            }
            let dir = self.node_of[id];
            let mut real = vec![];
            st.with_direntries(dir, Some(0), &mut |_, e| {
                let nm = String::from_utf8_lossy(&e.name.bytes[..e.name.length as usize]).into_owned();
                if nm != BALLAST {
                    real.push((nm, e.node));
                }
                true
            });
            let want: Vec<(String, u64)> = n.ents.iter().map(|e| (self.name(&e.0), self.node_of[&e.1])).collect();
            if real != want {
                return diff(format!("persist-tree:{o}"), format!("persisted directory {dir} lists {real:?}, expected {want:?}"));
            }
        }
        self.observe_nodes(&mut st, s, op, "persist-", true)?;
        for (id, n) in &s.n {
            // the remembered state of mounts
            if let (Some(mm), true) = (n.mm.first(), n.ty == "f") {
                let node = self.node_of[id];
                let mem = fresh_mem();
                let want = self.at(mm.sz);
                mem.grow(want.div_ceil(65536));
                // mounting writes the attributes it read: do it on a copy
                let copy: VectorMemory = std::rc::Rc::new(std::cell::RefCell::new(self.raw.borrow().clone()));
                let mut st2 = open_storage(&copy, self.base);
                if let Err(e) = st2.mount_node(node, Box::new(mem), MountedFileSizePolicy::PreviousOrZero) {
                    return diff(format!("persist-mount:{o}"), format!("node {node} cannot be mounted after an upgrade: {e:?}"));
                }
                let m = st2.get_metadata(node).unwrap();
                let wl = if mm.lim < 0 { None } else { Some(self.at(mm.lim as usize)) };
                if m.size != want || m.maximum_size_allowed != wl || [m.times.created, m.times.modified, m.times.accessed] != mm.tm.map(|t| t * self.ts) || m.link_count != n.lc {
                    return diff(format!("persist-mount:{o}"), format!("remembered mount attributes of node {node}: {m:?}, expected size {want}, limit {wl:?}, times {:?}, {} links", mm.tm, n.lc));
                }
            }
        }
        Ok(())
    }

    pub fn scan(&self) -> space::Space {
        space::scan(&manager(&self.raw), self.base)
    }

    fn observe_space(&mut self, s: &State) -> Check {
        let mut live: space::Live = Map::new();
        for (id, n) in &s.n {
            let node = self.node_of[id];
            live.insert(node, (if n.ty == "f" { self.at(n.sz) } else { 0 }, !n.mm.is_empty() || self.was_mounted.contains(&node)));
        }
        for (i, b) in self.ballast_nodes.iter().enumerate() {
            live.insert(*b, (if i == 1 { 11500 * 65536 } else { 0 }, false));
        }
        for i in &self.neighbours {
            let m = manager(&self.raw).get(MemoryId::new(*i));
            let mut b = vec![0; 65536];
            if m.size() == 1 {
                m.read(0, &mut b);
            }
            if b.iter().any(|x| *x != *i ^ 0x5A) {
                return diff("space:neighbour", format!("memory {i} of the application was changed, it has {} pages", m.size()));
            }
        }
        let sp = self.scan();
        sp.check(&live, self.aged)?;
        if let Some(old) = &self.last_space {
            if self.var.space == 1 && !self.var.legacy {
                sp.check_growth(old)?;
            }
        }
        self.last_space = Some(sp);
        Ok(())
    }
}

/// the path goes nowhere
fn denotes_start(p: &[String]) -> bool {
    let mut depth = 0;
    for c in p {
        match c.as_str() {
            "" | "." => {}
            ".." => depth -= 1,
            _ => depth += 1,
        }
    }
    depth == 0
}

fn exp_or(exp: &Res, e: &str) -> Res {
    if exp.e == e { exp.clone() } else { Res { e: e.into(), v: vec![] } }
}

pub fn chunk_size(b: u64) -> ChunkSize {
    match b {
        4096 => ChunkSize::CHUNK4K,
        8192 => ChunkSize::CHUNK8K,
        16384 => ChunkSize::CHUNK16K,
        32768 => ChunkSize::CHUNK32K,
        _ => ChunkSize::CHUNK64K,
    }
}
#[allow(unused)]
fn _keep(_: MemoryId) {}
