//! Reads the persistent structures of a stable storage and checks who owns which space.
use crate::util::*;
use ic_stable_structures::{
    memory_manager::{MemoryId, MemoryManager},
    storable::Bound,
    BTreeMap, Memory, Storable, VectorMemory,
};
use stable_fs::storage::types::{DirEntry, FileChunk, FileName, Metadata};
use std::collections::{BTreeMap as Map, BTreeSet, HashSet};

pub const META: u32 = u32::MAX - 1;
pub const MOUNT_META: u32 = u32::MAX - 2;

pub type VM = ic_stable_structures::memory_manager::VirtualMemory<VectorMemory>;
pub fn vm(mm: &MemoryManager<VectorMemory>, base: u8, i: u8) -> VM {
    mm.get(MemoryId::new(base + i))
}

/// little-endian words of the allocator memory
pub fn word(m: &VM, i: u64) -> u64 {
    let mut b = [0u8; 8];
    if i * 8 + 8 > m.size() * 65536 {
        // the list ends outside of its memory
        return u64::MAX;
    }
    m.read(i * 8, &mut b);
    u64::from_le_bytes(b)
}
pub fn set_word(m: &VM, i: u64, v: u64) {
    let need = (i * 8 + 8).div_ceil(65536);
    if m.size() < need {
        m.grow(need - m.size());
    }
    m.write(i * 8, &v.to_le_bytes());
}

#[derive(Clone, Debug, Default)]
pub struct Space {
    pub cs: u64,
    pub max_ptr: u64,
    pub free: Vec<u64>,
    pub owned: Map<(u64, u32), u64>,
    pub v1: BTreeSet<(u64, u32)>,
    pub meta_old: BTreeSet<u64>,
    pub mounted_old: BTreeSet<u64>,
    pub dirents: Map<(u64, u32), (Vec<u8>, u64)>,
    pub lookup: Map<(u64, Vec<u8>), u32>,
    pub chunk_pages: u64,
}

pub fn name_bytes(n: &FileName) -> Vec<u8> {
    n.bytes[..n.length as usize].to_vec()
}

/// image of the persistent structures (nothing is changed)
pub fn scan(mm: &MemoryManager<VectorMemory>, base: u8) -> Space {
    let alloc = vm(mm, base, 6);
    let mut s = Space { cs: word(&alloc, 1), max_ptr: word(&alloc, 3), ..Default::default() };
    for i in 0..word(&alloc, 2).min(alloc.size() * 8192 + 1) {
        s.free.push(word(&alloc, 16 + i));
    }
    let ptrs: BTreeMap<(u64, u32), u64, VM> = BTreeMap::init(vm(mm, base, 5));
    for e in ptrs.iter() {
        s.owned.insert(*e.key(), e.value());
    }
    let v1: BTreeMap<(u64, u32), FileChunk, VM> = BTreeMap::init(vm(mm, base, 3));
    s.v1 = v1.keys().collect();
    let m1: BTreeMap<u64, Metadata, VM> = BTreeMap::init(vm(mm, base, 1));
    s.meta_old = m1.keys().collect();
    let m4: BTreeMap<u64, Metadata, VM> = BTreeMap::init(vm(mm, base, 4));
    s.mounted_old = m4.keys().collect();
    let de: BTreeMap<(u64, u32), DirEntry, VM> = BTreeMap::init(vm(mm, base, 2));
    for e in de.iter() {
        let v = e.value();
        s.dirents.insert(*e.key(), (name_bytes(&v.name), v.node));
    }
    let lk: BTreeMap<(u64, FileName), u32, VM> = BTreeMap::init(vm(mm, base, 9));
    for e in lk.iter() {
        let k = e.key();
        s.lookup.insert((k.0, name_bytes(&k.1)), e.value());
    }
    s.chunk_pages = vm(mm, base, 7).size();
    s
}

/// size of every live node, and whether it may have a mount record
pub type Live = Map<u64, (u64, bool)>;

impl Space {
    pub fn check(&self, live: &Live, legacy: bool) -> Check {
        let cs = self.cs;
        let mut seen: HashSet<u64> = HashSet::new();
        for (k, p) in &self.owned {
            if p % cs != 0 || *p >= self.max_ptr {
                return diff("space:range", format!("chunk {k:?} lies at {p}, chunk size {cs}, end of space {}", self.max_ptr));
            }
            if !seen.insert(*p) {
                return diff("space:shared", format!("address {p} is owned twice (second owner {k:?})"));
            }
            let Some((size, mounted)) = live.get(&k.0) else {
                return diff("space:leak", format!("chunk {k:?} belongs to an object that does not exist"));
            };
            if k.1 == META || (k.1 == MOUNT_META && *mounted) {
                continue;
            }
            if k.1 == MOUNT_META {
                return diff("space:leak", format!("mount attributes of node {} that was never mounted", k.0));
            }
            if k.1 as u64 >= size.div_ceil(cs) {
                return diff("space:leak", format!("chunk {k:?} lies beyond the size {size} of its file"));
            }
        }
        for p in &self.free {
            if p % cs != 0 || *p >= self.max_ptr {
                return diff("space:range", format!("free address {p}, end of space {}", self.max_ptr));
            }
            if !seen.insert(*p) {
                return diff("space:shared", format!("address {p} is free although it is owned or free already"));
            }
        }
        if seen.len() as u64 * cs != self.max_ptr {
            return diff("space:lost", format!("{} chunks are owned or free, {} were handed out", seen.len(), self.max_ptr / cs));
        }
        for k in &self.v1 {
            let Some((size, _)) = live.get(&k.0) else {
                return diff("space:leak", format!("old-type chunk {k:?} belongs to an object that does not exist"));
            };
            if k.1 as u64 >= size.div_ceil(4096) {
                return diff("space:leak", format!("old-type chunk {k:?} lies beyond the size {size} of its file"));
            }
        }
        for n in self.meta_old.iter().chain(&self.mounted_old) {
            if !live.contains_key(n) {
                return diff("space:leak", format!("attributes of node {n}, which does not exist"));
            }
        }
        for (k, (name, node)) in &self.dirents {
            if !live.contains_key(&k.0) || !live.contains_key(node) {
                return diff("space:leak", format!("directory entry {k:?} -> {node} of objects that do not exist"));
            }
            match self.lookup.get(&(k.0, name.clone())) {
                None if legacy => {}
                Some(i) if *i == k.1 => {}
                x => return diff("space:index", format!("name index of entry {k:?} is {x:?}")),
            }
        }
        for (k, i) in &self.lookup {
            match self.dirents.get(&(k.0, *i)) {
                Some((n, _)) if *n == k.1 => {}
                x => return diff("space:index", format!("name index {:?} -> {i} finds {x:?}", (k.0, String::from_utf8_lossy(&k.1)))),
            }
        }
        let pages = (self.max_ptr).div_ceil(65536);
        if self.chunk_pages > pages {
            return diff("space:pages", format!("{} pages taken for {} bytes of chunks", self.chunk_pages, self.max_ptr));
        }
        Ok(())
    }

    /// growth since `old`: only when nothing was free
    pub fn check_growth(&self, old: &Space) -> Check {
        let new = self.owned.keys().filter(|k| !old.owned.contains_key(k)).count() as u64;
        let limit = old.max_ptr.max((old.owned.len() as u64 + new) * self.cs);
        if self.max_ptr > limit {
            return diff("space:growth", format!("space grew from {} to {} with {} chunks free, {new} new chunks",
                old.max_ptr / self.cs, self.max_ptr / self.cs, old.free.len()));
        }
        Ok(())
    }
}

/// attributes as an early version stored them
#[derive(Clone)]
struct OldMeta(Vec<u8>);
impl Storable for OldMeta {
    fn to_bytes(&self) -> std::borrow::Cow<'_, [u8]> {
        std::borrow::Cow::Borrowed(&self.0)
    }
    fn into_bytes(self) -> Vec<u8> {
        self.0
    }
    fn from_bytes(b: std::borrow::Cow<[u8]>) -> Self {
        OldMeta(b.to_vec())
    }
    const BOUND: Bound = Bound::Unbounded;
}

#[derive(serde::Serialize)]
struct MetaV0 {
    node: u64,
    file_type: stable_fs::storage::types::FileType,
    link_count: u64,
    size: u64,
    times: stable_fs::storage::types::Times,
    first_dir_entry: Option<u32>,
    last_dir_entry: Option<u32>,
}
#[derive(serde::Serialize)]
struct MetaV1 {
    node: u64,
    file_type: stable_fs::storage::types::FileType,
    link_count: u64,
    size: u64,
    times: stable_fs::storage::types::Times,
    first_dir_entry: Option<u32>,
    last_dir_entry: Option<u32>,
    chunk_type: Option<stable_fs::fs::ChunkType>,
}

/// stored as it lies in memory
#[allow(dead_code)]
struct MetaJournal {
    node: u64,
    file_type: stable_fs::storage::types::FileType,
    link_count: u64,
    size: u64,
    times: stable_fs::storage::types::Times,
    first_dir_entry: Option<u32>,
    last_dir_entry: Option<u32>,
    chunk_type: Option<stable_fs::fs::ChunkType>,
}

fn cbor<T: serde::Serialize>(x: &T) -> OldMeta {
    let mut b = vec![];
    ciborium::ser::into_writer(x, &mut b).unwrap();
    OldMeta(b)
}

/// Rewrites the persisted image as an earlier version would have left it.
/// `metas`: the attributes (host, mounted) of the live nodes.
pub fn age(
    mm: &MemoryManager<VectorMemory>,
    base: u8,
    metas: &[(Metadata, Option<Metadata>)],
    rng: &mut Rng,
) {
    let alloc = vm(mm, base, 6);
    let mut ptrs: BTreeMap<(u64, u32), u64, VM> = BTreeMap::init(vm(mm, base, 5));
    let mut m1: BTreeMap<u64, OldMeta, VM> = BTreeMap::init(vm(mm, base, 1));
    let mut m4: BTreeMap<u64, OldMeta, VM> = BTreeMap::init(vm(mm, base, 4));
    let release = |ptrs: &mut BTreeMap<(u64, u32), u64, VM>, k: (u64, u32)| {
        if let Some(p) = ptrs.remove(&k) {
            let len = word(&alloc, 2);
            set_word(&alloc, 16 + len, p);
            set_word(&alloc, 2, len + 1);
        }
    };
    let style = rng.below(3);
    let mut in_journal = false;
    for (m, mounted) in metas {
        let has_old = m1.get(&m.node).is_some();
        // the attributes of a mounted file began as a copy of its host's: neither of the two
        // records the chunk type alone
        let keep_type = mounted.is_none() && (m4.get(&m.node).is_some() || ptrs.get(&(m.node, MOUNT_META)).is_some());
        let mut typeless = false;
        if rng.pct(85) || has_old {
            let link = if m.file_type == stable_fs::storage::types::FileType::Directory && m.size > 0 {
                Some(rng.range(1, 5) as u32)
            } else {
                None
            };
            // the chunk type was not recorded at first; a file without data in the
            // other kind of chunk can lose it
            let rec = if style == 0 && m.maximum_size_allowed.is_none() && !keep_type {
                typeless = true;
                cbor(&MetaV0 { node: m.node, file_type: m.file_type, link_count: m.link_count, size: m.size, times: m.times, first_dir_entry: link, last_dir_entry: link })
            } else if style == 1 && m.maximum_size_allowed.is_none() && !keep_type {
                typeless = rng.pct(50);
                cbor(&MetaV1 { node: m.node, file_type: m.file_type, link_count: m.link_count, size: m.size, times: m.times, first_dir_entry: link, last_dir_entry: link,
                    chunk_type: if typeless { None } else { m.chunk_type } })
            } else {
                let mut x = m.clone();
                x.first_dir_entry = link;
                x.last_dir_entry = link;
                if !keep_type && rng.pct(70) {
                    typeless = true;
                    x.chunk_type = None;
                }
                cbor(&x)
            };
            m1.insert(m.node, rec);
            release(&mut ptrs, (m.node, META));
        }
        if let Some(x) = mounted {
            // the attributes of the active mount, kept in the journal memory
            if !in_journal && x.maximum_size_allowed.is_none() && rng.pct(40) {
                in_journal = true;
                let journal = vm(mm, base, 8);
                if journal.size() == 0 {
                    journal.grow(1);
                    journal.write(0, b"FSJ1");
                }
                let rec = MetaJournal { node: m.node, file_type: x.file_type, link_count: x.link_count, size: x.size, times: x.times, first_dir_entry: None,
                    last_dir_entry: None, chunk_type: if typeless { None } else { x.chunk_type } };
                let bytes = unsafe { std::slice::from_raw_parts(&rec as *const _ as *const u8, std::mem::size_of::<MetaJournal>()) };
                journal.write(16, &m.node.to_le_bytes());
                journal.write(24, bytes);
                release(&mut ptrs, (m.node, MOUNT_META));
                if rng.pct(50) {
                    m4.remove(&m.node);
                } else {
                    // what it was when it was mounted
                    let mut y = x.clone();
                    y.size = 0;
                    y.times.modified ^= 5;
                    m4.insert(m.node, cbor(&y));
                }
                continue;
            }
            if typeless || rng.pct(85) || m4.get(&m.node).is_some() {
                let mut x = x.clone();
                if typeless {
                    x.chunk_type = None;
                }
                m4.insert(m.node, cbor(&x));
                release(&mut ptrs, (m.node, MOUNT_META));
            }
        }
    }
    // entries without a name index and without a type
    let mut de: BTreeMap<(u64, u32), DirEntry, VM> = BTreeMap::init(vm(mm, base, 2));
    let mut lk: BTreeMap<(u64, FileName), u32, VM> = BTreeMap::init(vm(mm, base, 9));
    let all: Vec<_> = de.iter().map(|e| (*e.key(), e.value())).collect();
    let some = rng.pct(30);
    for (k, mut e) in all {
        if some && rng.pct(50) {
            continue;
        }
        lk.remove(&(k.0, e.name.clone()));
        e.entry_type = None;
        de.insert(k, e);
    }
    if rng.pct(70) {
        alloc.write(0, b"ALO1");
    }
}
