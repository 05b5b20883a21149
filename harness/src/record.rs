//! Runs of the real file system that nobody derived from the specification:
//! interleaved small application jobs.  Every call is written down with its
//! result and with what it changed in the projected state; spec/Trace.tla
//! decides whether the specification allows the run.
use crate::{model::*, util::*, world::*};
use ic_stable_structures::{Memory, VectorMemory};
use serde::Deserialize;
use serde_json::{json, Value};
use stable_fs::fs::{DstBuf, FdFlags};
use stable_fs::storage::{stable::StableStorage, types::FileType, Storage};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::io::Write;

#[derive(Deserialize)]
pub struct Config {
    shape: Shape,
    variants: Vec<Variant>,
    seed: u64,
    runs: usize,
    steps: usize,
    max_nodes: usize,
    max_fds: usize,
    names: usize,
    /// every run is made with every variant
    #[serde(default)]
    paired: bool,
    /// observe through a second instance on the same memory
    #[serde(default)]
    second: bool,
    /// write down the persistent layout after every so many calls
    #[serde(default)]
    space: usize,
    /// how often (percent) a listing is written down
    #[serde(default)]
    lists: u64,
    /// which jobs (all: empty)
    #[serde(default)]
    jobs: Vec<String>,
    /// images of earlier versions to begin with
    #[serde(default)]
    images: Vec<String>,
    /// write down the image at the end of each run (%: the number of the run)
    #[serde(default)]
    image_out: Option<String>,
    out: String,
}

/// A stable memory and what is in it.
#[derive(Deserialize, serde::Serialize)]
pub struct Image {
    variant: Variant,
    base: u8,
    grid: Vec<String>,
    /// the objects as the specification has them, with their identities in the code
    nodes: Vec<(usize, u64, NodeRec)>,
    len: usize,
    bytes: Vec<(usize, String)>,
}
impl Image {
    fn load(f: &str) -> Image {
        serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap()
    }
    fn memory(&self) -> Vec<u8> {
        let mut m = vec![0u8; self.len];
        for (at, hex) in &self.bytes {
            for i in 0..hex.len() / 2 {
                m[at + i] = u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap();
            }
        }
        m
    }
    fn grid(&self) -> Vec<u128> {
        self.grid.iter().map(|x| x.parse().unwrap()).collect()
    }
}

#[derive(Clone, PartialEq, Debug, Default)]
struct Node {
    ty: String,
    lc: u64,
    sz: i64,
    lim: i64,
    dat: Vec<i64>,
    ents: Vec<(String, usize)>,
    tm: [u64; 3],
    mt: u64,
}
#[derive(Clone, PartialEq, Debug, Default)]
struct FdS {
    k: String,
    n: usize,
    cur: i64,
    st: u64,
}

/// The new entries of a big directory as those that are gone and those that came.
fn change(old: &[(String, usize)], new: &[(String, usize)]) -> Option<(Vec<String>, Vec<(String, usize)>)> {
    if old.len() < 20 {
        return None;
    }
    let (mut j, mut gone) = (0, vec![]);
    for e in old {
        if j < new.len() && new[j] == *e {
            j += 1;
        } else {
            gone.push(e.0.clone());
        }
    }
    let distinct = old.iter().map(|e| &e.0).collect::<HashSet<_>>().len() == old.len();
    if distinct && gone.len() + new.len() - j < 20 { Some((gone, new[j..].to_vec())) } else { None }
}

/// the names of the specification
fn spec_name(i: usize) -> String {
    if i < 5 { "abcde"[i..=i].to_string() } else { format!("n{i}") }
}

struct Rec<'a> {
    w: World<'a>,
    ids: HashMap<u64, usize>,
    nodes: BTreeMap<usize, Node>,
    fds: BTreeMap<usize, FdS>,
    mems: Vec<(Vec<i64>, i64)>,
    max_nodes: usize,
    max_fds: usize,
    nnames: usize,
    tag: i64,
    tags: BTreeSet<i64>,
    clock: u64,
    rng: Rng,
    lines: Vec<String>,
    left: usize,
    /// objects that were mounted at some time
    was_mt: BTreeSet<usize>,
    /// the stat of the root descriptor was set (its rights are not defined before)
    root_set: bool,
    second: bool,
    space: usize,
    lists: u64,
    /// the names in the code and in the specification
    names: HashMap<String, String>,
    /// where the entries were: (directory, name) to (identity, index)
    places: HashMap<(usize, String), (u64, u32)>,
    /// every identity there ever was
    met: HashSet<u64>,
    /// entries that are elsewhere now, new objects that have the identity of an old one
    moved: Vec<(usize, String)>,
    reused: Vec<usize>,
}

const BAD: i64 = -9;
/// the call in progress, and the number of calls so far
static AT: std::sync::Mutex<(String, u64)> = std::sync::Mutex::new((String::new(), 0));

impl<'a> Rec<'a> {
    fn idx(&self, x: u64) -> i64 {
        self.w.g.iter().position(|g| *g == x as u128).map(|i| i as i64).unwrap_or(BAD)
    }

    /// the tag of a cell's bytes
    fn tag_of(&self, pos: u64, b: &[u8], guess: i64) -> i64 {
        for t in [guess, self.tag, 0] {
            if t >= 0 && self.w.pat.check(t, pos, b).is_none() {
                return t;
            }
        }
        for t in &self.tags {
            if self.w.pat.check(*t, pos, b).is_none() {
                return *t;
            }
        }
        BAD
    }

    fn cells(&mut self, mut st: Option<&mut StableStorage<VectorMemory>>, node: u64, size: u64, old: Option<&Node>) -> Vec<i64> {
        let ng = self.w.g.len();
        let mut r = vec![0; ng - 1];
        for c in 0..ng - 1 {
            let (a, b) = (self.w.at(c), self.w.at(c + 1));
            if b > size {
                break;
            }
            let mut buf = vec![0xEEu8; (b - a) as usize];
            // (reading a mounted file may enlarge its memory: look at the memory itself)
            let n = match self.w.fs().storage.get_mounted_memory(node) {
                Some(m) => {
                    let k = buf.len().min((m.size() * 65536).saturating_sub(a) as usize);
                    buf.fill(0);
                    if k > 0 {
                        m.read(a, &mut buf[..k]);
                    }
                    b - a
                }
                None => match &mut st {
                    Some(s) => s.read(node, a, &mut buf).unwrap_or(u64::MAX),
                    None => self.w.fs().storage.read(node, a, &mut buf).unwrap_or(u64::MAX),
                },
            };
            let guess = old.and_then(|o| o.dat.get(c)).copied().unwrap_or(0);
            r[c] = if n != b - a { BAD } else { self.tag_of(a, &buf, guess) };
        }
        r
    }

    /// Reads the state of the real file system; returns what changed.
    fn project(&mut self) -> (Vec<Value>, Vec<Value>, Vec<Value>) {
        // through another instance, so that observing does not disturb the caches
        let mut second = if self.second && self.w.stable() { Some(self.w.second()) } else { None };
        macro_rules! st {
            () => {
                match &second {
                    Some(s) => s as &dyn Storage,
                    None => &*self.w.fs().storage,
                }
            };
        }
        // reachable objects in the order of their creation
        let root = self.w.fs().storage.root_node();
        let mut lists: BTreeMap<u64, Vec<(u32, String, u64)>> = BTreeMap::new();
        let mut todo = vec![root];
        let mut found = BTreeSet::from([root]);
        while let Some(n) = todo.pop() {
            let dir = st!().get_metadata(n).map(|m| m.file_type == FileType::Directory).unwrap_or(false);
            if dir {
                let mut l = vec![];
                st!().with_direntries(n, Some(0), &mut |i, e| {
                    l.push((*i, String::from_utf8_lossy(&e.name.bytes[..e.name.length as usize]).into_owned(), e.node));
                    true
                });
                for e in &l {
                    if found.insert(e.2) {
                        todo.push(e.2);
                    }
                }
                lists.insert(n, l);
            }
        }
        self.ids.retain(|k, _| found.contains(k));
        for n in &found {
            if !self.ids.contains_key(n) {
                let used: BTreeSet<usize> = self.ids.values().copied().collect();
                let id = (1..).find(|i| !used.contains(i)).unwrap();
                self.ids.insert(*n, id);
                if !self.met.insert(*n) {
                    self.reused.push(id);
                }
            }
        }
        let names = std::mem::take(&mut self.names);
        let ids = self.ids.clone();
        let mut places = HashMap::new();
        for (d, l) in &lists {
            for (i, name, node) in l {
                let k = (ids[d], names.get(name).cloned().unwrap_or_else(|| format!("?{name}")));
                if self.places.get(&k).is_some_and(|p| p.0 == *node && p.1 != *i) {
                    self.moved.push(k.clone());
                }
                places.insert(k, (*node, *i));
            }
        }
        self.places = places;
        let mut nodes = BTreeMap::new();
        for n in &found {
            let id = self.ids[n];
            let old = self.nodes.get(&id).cloned();
            let rec = match st!().get_metadata(*n) {
                Err(e) => Node { ty: format!("{e:?}"), ..Default::default() },
                Ok(m) => {
                    let d = m.file_type == FileType::Directory;
                    let rev = &ids;
                    let ents: Vec<(String, usize)> = lists.get(n).map(|l| l.iter().map(|e| (names.get(&e.1).cloned().unwrap_or_else(|| format!("?{}", e.1)), rev[&e.2])).collect()).unwrap_or_default();
                    Node {
                        ty: if d { "d".into() } else { "f".into() },
                        lc: m.link_count,
                        sz: if d { m.size as i64 } else { self.idx(m.size) },
                        lim: m.maximum_size_allowed.map(|x| self.idx(x)).unwrap_or(-1),
                        dat: if d { vec![] } else { self.cells(second.as_mut(), *n, m.size, old.as_ref()) },
                        ents,
                        tm: [m.times.created, m.times.modified, m.times.accessed].map(|t| if t % self.w.ts == 0 { t / self.w.ts } else { 999_999_999 }),
                        mt: self.w.fs().storage.is_mounted(*n) as u64,
                    }
                }
            };
            nodes.insert(id, rec);
        }
        self.names = names;
        let mut fds = BTreeMap::new();
        for (slot, fd) in self.w.fd_of.clone() {
            let ids = self.ids.clone();
            let root_set = self.root_set;
            let fs = self.w.fs();
            let r = match (fs.metadata(fd), fs.get_stat(fd)) {
                (Ok(m), Ok((ty, st))) => {
                    let f = ty == FileType::RegularFile;
                    let cur = if f { fs.tell(fd).unwrap_or(u64::MAX) } else { 0 };
                    let mut b = 0;
                    if (slot == 1 && !root_set) || st.rights_base & (1 << 1) != 0 {
                        b |= 1;
                    }
                    if (slot == 1 && !root_set) || st.rights_base & (1 << 6) != 0 {
                        b |= 2;
                    }
                    if st.flags.contains(FdFlags::APPEND) {
                        b |= 4;
                    }
                    if st.flags.contains(FdFlags::NONBLOCK) {
                        b |= 8;
                    }
                    FdS { k: if f { "f".into() } else { "d".into() }, n: ids.get(&m.node).copied().unwrap_or(0), cur: self.idx(cur), st: b }
                }
                (a, b) => FdS { k: format!("{:?} {:?}", a.err(), b.err()), ..Default::default() },
            };
            fds.insert(slot, r);
        }
        let mut mems = vec![];
        for i in 0..self.w.mems.len() {
            let m = self.w.mems[i].clone();
            let pg = self.idx(m.size() * 65536);
            let mut c = vec![0; self.w.g.len() - 1];
            for k in 0..c.len() {
                let (a, b) = (self.w.at(k), self.w.at(k + 1));
                if b > m.size() * 65536 {
                    break;
                }
                let mut buf = vec![0; (b - a) as usize];
                m.read(a, &mut buf);
                let g = self.mems.get(i).map(|x| x.0[k]).unwrap_or(0);
                c[k] = self.tag_of(a, &buf, g);
            }
            mems.push((c, pg));
        }
        // differences
        let mut dn = vec![];
        for (i, n) in &nodes {
            if self.nodes.get(i) != Some(n) {
                let mut d = json!({"i": i, "ty": n.ty, "lc": n.lc, "sz": n.sz, "lim": n.lim, "dat": n.dat, "tm": n.tm, "mt": n.mt});
                match self.nodes.get(i).and_then(|o| change(&o.ents, &n.ents)) {
                    Some((gone, new)) => {
                        d["er"] = json!(gone);
                        d["ea"] = json!(new);
                    }
                    None => d["ents"] = json!(n.ents),
                }
                dn.push(d);
            }
        }
        for i in self.nodes.keys() {
            if !nodes.contains_key(i) {
                dn.push(json!({"i": i, "ty": "x"}));
            }
        }
        let mut df = vec![];
        for (i, f) in &fds {
            if self.fds.get(i) != Some(f) {
                df.push(json!({"i": i, "k": f.k, "n": f.n, "cur": f.cur, "st": f.st}));
            }
        }
        for i in self.fds.keys() {
            if !fds.contains_key(i) {
                df.push(json!({"i": i, "k": "x", "n": 0, "cur": 0, "st": 0}));
            }
        }
        let mut dm = vec![];
        for (i, m) in mems.iter().enumerate() {
            if self.mems.get(i) != Some(m) {
                dm.push(json!({"i": i + 1, "c": m.0, "pg": m.1}));
            }
        }
        self.nodes = nodes;
        self.fds = fds;
        self.mems = mems;
        let nodes = &self.nodes;
        self.was_mt.retain(|i| nodes.contains_key(i));
        self.was_mt.extend(nodes.iter().filter(|x| x.1.mt == 1).map(|x| *x.0));
        (dn, df, dm)
    }

    /// A listing of some directory, one resumed somewhere, and one of the entries.
    fn listing(&mut self) -> Option<Value> {
        const DOT: u32 = u32::MAX - 5;
        let dirs: Vec<(u64, usize)> = self.ids.iter().filter(|x| self.nodes.get(x.1).is_some_and(|n| n.ty == "d")).map(|x| (*x.0, *x.1)).collect();
        let dirs = dirs.into_iter().collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>();
        // the one with the most entries, or any
        let (node, id) = if self.rng.pct(50) { *dirs.iter().max_by_key(|d| self.nodes[&d.1].ents.len())? } else { *self.rng.pick(&dirs) };
        let fd = self.fds.iter().find(|x| x.1.k == "d" && x.1.n == id).map(|x| self.w.fd_of[x.0]);
        let (names, ids) = (&self.names, &self.ids);
        let fs = self.w.fs.as_mut().unwrap();
        let list = |from: Option<u32>| {
            let mut l: Vec<(i64, String, i64)> = vec![];
            let mut take = |i: &u32, e: &stable_fs::storage::types::DirEntry| {
                let nm = String::from_utf8_lossy(&e.name.bytes[..e.name.length as usize]).into_owned();
                let x = *i as i64 - DOT as i64;
                l.push(match x {
                    0 => (-1, nm, ids.get(&e.node).map_or(BAD, |i| *i as i64)),
                    1 => (-2, nm, 0),
                    _ => (if *i < 1 << 30 { *i as i64 } else { BAD }, names.get(&nm).cloned().unwrap_or(format!("?{nm}")), ids.get(&e.node).map_or(BAD, |i| *i as i64)),
                });
                true
            };
            match fd {
                Some(fd) => {
                    if fs.with_direntries(fd, from, &mut take).is_err() {
                        l.push((BAD, "fails".into(), 0));
                    }
                }
                None => fs.storage.with_direntries(node, from, &mut take),
            }
            l
        };
        let all = list(Some(0));
        let last = all.last().map_or(0, |x| x.0.max(0));
        let from = match self.rng.below(8) {
            0 => -3,
            1 => -1,
            2 => -2,
            3 => self.rng.below(last as u64 + 3) as i64,
            4 => 1,
            k => {
                let i = if all.is_empty() { 0 } else { self.rng.pick(&all).0.max(0) };
                i + (k as i64 & 1)
            }
        };
        let got = list(match from {
            -3 => None,
            -1 => Some(DOT),
            -2 => Some(DOT + 1),
            i => Some(i as u32),
        });
        let at = if all.is_empty() || self.rng.pct(30) { self.rng.below(last as u64 + 3) as i64 } else { self.rng.pick(&all).0 };
        let one = match fd {
            Some(fd) => fs.get_direntry(fd, at.max(0) as u32),
            None => fs.storage.get_direntry(node, at.max(0) as u32),
        };
        let one = match one {
            Err(_) => json!([]),
            Ok(e) => {
                let nm = String::from_utf8_lossy(&e.name.bytes[..e.name.length as usize]).into_owned();
                json!([names.get(&nm).cloned().unwrap_or(format!("?{nm}")), ids.get(&e.node).map_or(BAD, |i| *i as i64)])
            }
        };
        Some(json!({"d": id, "all": all, "from": from, "got": got, "at": at, "one": one}))
    }

    /// The persistent layout in the terms of spec/Space.tla.
    fn layout(&mut self) -> Value {
        let sp = self.w.scan();
        let cs = sp.cs.max(1);
        let id = |n: &u64| self.ids.get(n).copied().unwrap_or(0);
        let unit = |p: &u64| if p % cs == 0 && p / cs < 1 << 30 { (p / cs) as i64 } else { -1 };
        let small = |x: u64| x.min(1 << 30);
        let part = |k: u32| match k {
            crate::space::META => -1,
            crate::space::MOUNT_META => -2,
            k => k.min(1 << 30) as i64,
        };
        let names: HashMap<Vec<u8>, String> = (0..self.nnames).map(|i| (self.w.name(&spec_name(i)).into_bytes(), spec_name(i))).collect();
        let name = |b: &Vec<u8>| names.get(b).cloned().unwrap_or_else(|| format!("?{}", String::from_utf8_lossy(b)));
        json!({
            "next": if sp.max_ptr % cs == 0 { small(sp.max_ptr / cs) as i64 } else { -1 },
            "own": sp.owned.iter().map(|(k, p)| json!([id(&k.0), part(k.1), unit(p)])).collect::<Vec<_>>(),
            "free": sp.free.iter().map(unit).collect::<Vec<_>>(),
            "v1": sp.v1.iter().map(|k| json!([id(&k.0), k.1.min(1 << 30)])).collect::<Vec<_>>(),
            "olds": sp.meta_old.iter().chain(&sp.mounted_old).map(id).collect::<BTreeSet<_>>(),
            "ents": sp.dirents.iter().map(|(k, e)| json!([id(&k.0), k.1.min(1 << 30), name(&e.0), id(&e.1)])).collect::<Vec<_>>(),
            "names": sp.lookup.iter().map(|(k, i)| json!([id(&k.0), name(&k.1), (*i).min(1 << 30)])).collect::<Vec<_>>(),
            "ch": self.w.g.iter().map(|g| small((*g as u64).div_ceil(cs))).collect::<Vec<_>>(),
            "ch1": self.w.g.iter().map(|g| small((*g as u64).div_ceil(4096))).collect::<Vec<_>>(),
            "csk": cs / 1024,
            "pg": small(sp.chunk_pages),
            "old": self.w.aged as u64,
        })
    }

    /// The objects as the specification has them (nothing is mounted).
    fn spec_nodes(&self) -> Vec<(usize, u64, NodeRec)> {
        let mut r = vec![];
        for (node, id) in &self.ids {
            let n = &self.nodes[id];
            let mut mm = vec![];
            if self.was_mt.contains(id) {
                let mut st = self.w.copy();
                let mem: VectorMemory = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
                mem.grow(64);
                st.mount_node(*node, Box::new(mem), stable_fs::storage::types::MountedFileSizePolicy::PreviousOrZero).unwrap();
                let m = st.get_metadata(*node).unwrap();
                mm.push(Mm { sz: self.idx(m.size) as usize, lim: m.maximum_size_allowed.map(|x| self.idx(x)).unwrap_or(-1), tm: [m.times.created, m.times.modified, m.times.accessed] });
            }
            let f = n.ty == "f";
            let ck = match self.w.fs.as_ref().unwrap().storage.get_metadata(*node).unwrap().chunk_type {
                Some(stable_fs::fs::ChunkType::V1) => 1,
                _ => 2,
            };
            r.push((*id, *node, NodeRec {
                ty: n.ty.clone(), lc: n.lc, sz: if f { n.sz as usize } else { 0 }, lim: n.lim, dat: n.dat.clone(), ents: n.ents.clone(), tm: n.tm, mem: 0, mm,
                ck: if f { ck } else { 0 },
            }));
        }
        r.sort_by_key(|x| x.0);
        r
    }

    /// The image that the last upgrade began with.
    fn image(&self) -> Image {
        let (variant, base, grid) = self.w.placement();
        let m = self.w.snapshot.clone().unwrap();
        let mut bytes = vec![];
        let mut i = 0;
        while i < m.len() {
            if m[i] == 0 {
                i += 1;
                continue;
            }
            // up to the next long run of zeros
            let mut e = i;
            let mut zeros = 0;
            while e < m.len() && zeros < 32 {
                zeros = if m[e] == 0 { zeros + 1 } else { 0 };
                e += 1;
            }
            bytes.push((i, m[i..e - zeros].iter().map(|b| format!("{b:02x}")).collect::<String>()));
            i = e;
        }
        Image { variant, base, grid: grid.iter().map(|x| x.to_string()).collect(), nodes: self.spec_nodes(), len: m.len(), bytes }
    }

    /// The known objects are those of the image.
    fn adopt(&mut self, img: &Image, made: Option<&HashMap<usize, u64>>) {
        self.ids = img.nodes.iter().map(|(id, n, _)| (made.map_or(*n, |m| m[id]), *id)).collect();
        self.nodes = img.nodes.iter().map(|(id, _, n)| (*id, Node {
            ty: n.ty.clone(), lc: n.lc, sz: if n.ty == "d" { n.ents.len() as i64 } else { n.sz as i64 }, lim: n.lim, dat: n.dat.clone(),
            ents: n.ents.clone(), tm: n.tm, mt: 0,
        })).collect();
        self.tags = img.nodes.iter().flat_map(|x| x.2.dat.iter().copied()).filter(|t| *t > 0).collect();
        self.tag = self.tags.iter().max().copied().unwrap_or(0);
        self.clock = 1000;
        self.was_mt = img.nodes.iter().filter(|x| !x.2.mm.is_empty()).map(|x| x.0).collect();
        self.fds.insert(1, FdS { k: "d".into(), n: 1, cur: 0, st: 3 });
    }

    /// the state of the specification in which the run begins
    fn start_state(&self, img: &Image, mem0: &[usize]) -> Value {
        let ng = self.w.g.len();
        let dead = json!({"ty": "x", "lc": 0, "sz": 0, "lim": -1, "dat": [], "ents": [], "tm": [0, 0, 0], "mem": 0, "mm": [], "ck": 0});
        let nodes: Vec<Value> = (1..=self.max_nodes).map(|i| img.nodes.iter().find(|x| x.0 == i).map(|x| serde_json::to_value(&x.2).unwrap()).unwrap_or(dead.clone())).collect();
        let fds: Vec<Value> = (1..=self.max_fds).map(|i| if i == 1 { json!({"k": "d", "n": 1, "cur": 0, "st": 3}) } else { json!({"k": "x", "n": 0, "cur": 0, "st": 0}) }).collect();
        let mem: Vec<Value> = mem0.iter().map(|p| json!({"c": vec![0; ng - 1], "pg": p})).collect();
        json!({"nodes": nodes, "fds": fds, "mem": mem, "cf": {"cs": 0, "used": true, "ct": 2}})
    }

    /// Builds what is in the image by calls of this version; the nodes of the objects.
    fn make(&mut self, img: &Image) -> HashMap<usize, u64> {
        use stable_fs::fs::{ChunkType, FdStat, OpenFlags, SrcBuf};
        use stable_fs::storage::types::MountedFileSizePolicy;
        let rec: HashMap<usize, &NodeRec> = img.nodes.iter().map(|x| (x.0, &x.2)).collect();
        let mut made: HashMap<usize, u64> = HashMap::new();
        let mut first: HashMap<usize, String> = HashMap::new();
        let g = self.w.g.clone();
        let at = |i: usize| g[i] as u64;
        let name = |w: &World, c: &str| w.name(c);
        let mut todo = vec![(1usize, String::new())];
        let root = self.w.fs().root_fd();
        made.insert(1, self.w.fs().storage.root_node());
        let mut dirs = vec![(1usize, root)];
        let mut k = 0;
        while k < todo.len() {
            let (d, prefix) = todo[k].clone();
            k += 1;
            for (c, id) in &rec[&d].ents {
                let n = rec[id];
                let p = format!("{prefix}{}", name(&self.w, c));
                let fs = self.w.fs();
                let fd;
                if let Some(q) = first.get(id) {
                    fd = fs.create_hard_link(root, q, root, &p).unwrap();
                } else if n.ty == "d" {
                    fd = fs.create_open_directory(root, &p, FdStat::default(), n.tm[0]).unwrap();
                    todo.push((*id, format!("{p}/")));
                    made.insert(*id, fs.metadata(fd).unwrap().node);
                    first.insert(*id, p);
                    dirs.push((*id, fd));
                    continue;
                } else {
                    fs.storage.set_chunk_type(if n.ck == 1 { ChunkType::V1 } else { ChunkType::V2 });
                    fd = fs.open(root, &p, FdStat::default(), OpenFlags::CREATE, n.tm[0]).unwrap();
                    made.insert(*id, fs.metadata(fd).unwrap().node);
                    if let Some(mm) = n.mm.first() {
                        let mem: VectorMemory = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
                        mem.grow(64);
                        fs.mount_memory_file(&p, Box::new(mem), MountedFileSizePolicy::Explicit(at(mm.sz))).unwrap();
                        if mm.lim >= 0 {
                            fs.set_file_size_limit(fd, at(mm.lim as usize)).unwrap();
                        }
                        fs.set_modified_time(fd, mm.tm[1]).unwrap();
                        fs.set_accessed_time(fd, mm.tm[2]).unwrap();
                        fs.unmount_memory_file(&p).unwrap();
                    }
                    for i in 0..n.sz {
                        if n.dat[i] != 0 {
                            let mut b = vec![0u8; (at(i + 1) - at(i)) as usize];
                            self.w.pat.fill(n.dat[i], at(i), &mut b);
                            self.w.fs().write_vec_with_offset(fd, &[SrcBuf { buf: b.as_ptr(), len: b.len() }], at(i)).unwrap();
                        }
                    }
                    let fs = self.w.fs();
                    fs.set_file_size(fd, at(n.sz)).unwrap();
                    if n.lim >= 0 {
                        fs.set_file_size_limit(fd, at(n.lim as usize)).unwrap();
                    }
                    fs.set_modified_time(fd, n.tm[1]).unwrap();
                    fs.set_accessed_time(fd, n.tm[2]).unwrap();
                    first.insert(*id, p);
                }
                self.w.fs().close(fd).unwrap();
            }
        }
        for (id, fd) in dirs {
            self.w.fs().set_modified_time(fd, rec[&id].tm[1]).unwrap();
            self.w.fs().set_accessed_time(fd, rec[&id].tm[2]).unwrap();
            if fd != root {
                self.w.fs().close(fd).unwrap();
            }
        }
        self.w.reopen();
        made
    }

    fn free_slot(&self) -> usize {
        (1..=self.max_fds).find(|i| !self.w.fd_of.contains_key(i)).unwrap_or(0)
    }

    /// Performs a call and writes it down; the number of the descriptor it opened, or 1 on success, 0 on failure
    fn go(&mut self, mut op: Op) -> usize {
        if self.left == 0 {
            return 0;
        }
        self.left -= 1;
        self.clock += 1;
        if op.t == 0 {
            op.t = self.clock;
        }
        if op.o == "write" {
            self.tag = self.tag % 250 + 1;
            self.tags.insert(self.tag);
            op.v = self.tag;
        }
        {
            let mut a = AT.lock().unwrap();
            *a = (op.o.clone(), a.1 + 1);
        }
        self.w.disturb();
        let slot = self.free_slot();
        let opening = ["open", "mkdiro", "link", "rename"].contains(&op.o.as_str());
        let exp = Res { e: "ok".into(), v: if opening { vec![slot as i64] } else { vec![] } };
        let r: Res = match op.o.as_str() {
            "read" => self.read(&op),
            "tell" => {
                let fd = self.w.fd(op.fd, true);
                match self.w.fs().tell(fd) {
                    Ok(x) => Res { e: "ok".into(), v: vec![self.idx(x)] },
                    Err(e) => Res { e: err_name(&e), v: vec![] },
                }
            }
            "unmount" => {
                let p = op.p.join("/");
                match self.w.fs().unmount_memory_file(&p) {
                    Err(e) => Res { e: err_name(&e), v: vec![] },
                    Ok(mem) => {
                        // which of the memories is it?
                        let which = self.w.mems.iter().position(|m| {
                            m.size() == mem.size() && {
                                m.grow(1);
                                let same = m.size() == mem.size();
                                let n = m.borrow().len() - 65536;
                                m.borrow_mut().truncate(n);
                                same
                            }
                        });
                        Res { e: "ok".into(), v: vec![which.map(|i| i as i64 + 1).unwrap_or(BAD)] }
                    }
                }
            }
            _ => match self.w.call(&op, &exp, None) {
                Ok(mut r) => {
                    match op.o.as_str() {
                        "write" if r.e == "ok" => r.v = vec![op.bs[0] as i64, *op.bs.last().unwrap() as i64],
                        "seek" if r.e == "ok" => r.v = vec![op.to as i64],
                        _ => {}
                    }
                    r
                }
                Err(d) => Res { e: d.class, v: vec![] },
            },
        };
        if self.w.var.noise > 0 && self.w.vrng.pct(self.w.var.noise) {
            let _ = self.w.noise();
        }
        match op.o.as_str() {
            "setstat" if op.fd == 1 && r.e == "ok" => self.root_set = true,
            "upgrade" => self.root_set = false,
            _ => {}
        }
        let (n, f, m) = self.project();
        let ok = r.e == "ok";
        let mut line = json!({"op": spec_op(&op), "r": r, "n": n, "f": f, "m": m});
        if !self.moved.is_empty() {
            line["mv"] = json!(std::mem::take(&mut self.moved));
        }
        if !self.reused.is_empty() {
            line["ni"] = json!(std::mem::take(&mut self.reused));
        }
        if self.lists > 0 && self.rng.pct(self.lists) {
            if let Some(l) = self.listing() {
                line["l"] = l;
            }
        }
        if self.space > 0 && self.left % self.space == 0 && self.w.stable() {
            line["y"] = self.layout();
        }
        self.lines.push(line.to_string());
        if !ok {
            0
        } else if opening {
            slot
        } else {
            1
        }
    }

    fn read(&mut self, op: &Op) -> Res {
        let fd = self.w.fd(op.fd, true);
        let (a, z) = (op.bs[0], *op.bs.last().unwrap());
        let start = self.w.at(a);
        let len = (self.w.at(z) - start) as usize;
        let mut data = vec![0xEEu8; len];
        let base = data.as_mut_ptr();
        let mut bufs = vec![];
        let mut cuts: Vec<usize> = op.bs.iter().map(|b| (self.w.at(*b) - start) as usize).collect();
        if self.rng.pct(25) {
            cuts.extend(self.w.pieces(len));
            cuts.sort();
        }
        for p in cuts.windows(2) {
            let (x, y) = (p[0], p[1]);
            bufs.push(DstBuf { buf: unsafe { base.add(x) }, len: y - x });
        }
        let r = if op.m == "off" { self.w.fs().read_vec_with_offset(fd, &bufs, start) } else { self.w.fs().read_vec(fd, &bufs) };
        match r {
            Err(e) => Res { e: err_name(&e), v: vec![] },
            Ok(n) => {
                let end = self.idx(start + n);
                let mut v = vec![a as i64, end];
                for c in a..(end.max(0) as usize) {
                    let (x, y) = ((self.w.at(c) - start) as usize, (self.w.at(c + 1) - start) as usize);
                    v.push(self.tag_of(self.w.at(c), &data[x..y], 0));
                }
                Res { e: "ok".into(), v }
            }
        }
    }

    // ------------------------------------------------------------- choosing

    fn name(&mut self) -> String {
        spec_name(self.rng.below(self.nnames as u64) as usize)
    }
    fn path_of(&self, id: usize) -> Option<Vec<String>> {
        self.path_to(id, 400)
    }
    fn path_to(&self, id: usize, left: usize) -> Option<Vec<String>> {
        if left == 0 {
            return None;
        }
        if id == 1 {
            return Some(vec![]);
        }
        for (d, n) in &self.nodes {
            if let Some(e) = n.ents.iter().find(|e| e.1 == id) {
                let mut p = self.path_to(*d, left - 1)?;
                p.push(e.0.clone());
                return Some(p);
            }
        }
        None
    }
    fn some(&mut self, ty: &str) -> Vec<String> {
        let v: Vec<usize> = self.nodes.iter().filter(|(i, n)| n.ty == ty && (ty == "f" || **i != 1)).map(|x| *x.0).collect();
        if v.is_empty() {
            return vec![self.name()];
        }
        let i = *self.rng.pick(&v);
        self.path_of(i).unwrap_or_default()
    }
    fn dir(&mut self) -> Vec<String> {
        if self.rng.pct(40) { vec![] } else { self.some("d") }
    }
    fn fresh(&mut self) -> Vec<String> {
        let mut d = self.dir();
        d.push(self.name());
        d
    }
    fn slots(&self, k: &str) -> Vec<usize> {
        self.fds.iter().filter(|x| x.1.k == k).map(|x| *x.0).collect()
    }
    fn size(&self, slot: usize) -> usize {
        self.fds.get(&slot).filter(|f| f.k == "f").and_then(|f| self.nodes.get(&f.n)).map(|n| n.sz.max(0) as usize).unwrap_or(0)
    }
    fn lo(&self) -> usize {
        self.w.g.len() - 1
    }
    fn room(&self) -> bool {
        self.max_nodes - self.nodes.len() >= 5 && self.max_fds - self.w.fd_of.len() >= 3
    }

    fn op(o: &str) -> Op {
        Op { o: o.into(), ..Default::default() }
    }
    /// relative to the root, or, sometimes, to an open directory on the way
    fn at_path(&mut self, p: &[String]) -> (usize, Vec<String>) {
        let mut best = (1usize, p.to_vec());
        if self.rng.pct(40) {
            let mut d = 1usize;
            for k in 0..p.len() {
                let Some(e) = self.nodes.get(&d).and_then(|n| n.ents.iter().find(|e| e.0 == p[k])) else { break };
                d = e.1;
                if self.nodes[&d].ty != "d" {
                    break;
                }
                if let Some((s, _)) = self.fds.iter().find(|(_, f)| f.k == "d" && f.n == d) {
                    best = (*s, p[k + 1..].to_vec());
                }
            }
        }
        best
    }
    fn open(&mut self, p: &[String], fl: u64, st: u64) -> usize {
        if !self.room() {
            return 0;
        }
        let (fd, p) = self.at_path(p);
        self.go(Op { fd, p, fl, st, ..Self::op("open") })
    }
    fn one(&mut self, o: &str, p: &[String]) -> usize {
        let (fd, p) = self.at_path(p);
        self.go(Op { fd, p, st: 3, ..Self::op(o) })
    }
    fn two(&mut self, o: &str, p: &[String], q: &[String]) -> usize {
        if !self.room() {
            return 0;
        }
        let (fd, p) = self.at_path(p);
        let (fd2, p2) = self.at_path(q);
        self.go(Op { fd, p, fd2, p2, ..Self::op(o) })
    }
    fn close(&mut self, fd: usize) {
        if fd > 1 {
            self.go(Op { fd, ..Self::op("close") });
        }
    }
    fn bounds(&mut self, from: usize, most: usize) -> Vec<usize> {
        let mut v = vec![from];
        for _ in 0..self.rng.range(1, 2) {
            let l = *v.last().unwrap();
            v.push((l + self.rng.range(0, most as u64) as usize).min(self.lo()));
        }
        v
    }
    fn write(&mut self, fd: usize, at: Option<usize>) -> usize {
        let Some(f) = self.fds.get(&fd).cloned() else { return 0 };
        let start = if f.st & 4 != 0 { self.size(fd) } else { at.unwrap_or(f.cur.max(0) as usize) };
        let bs = self.bounds(start, 3);
        self.go(Op { fd, bs, m: json!(if at.is_some() { "off" } else { "cur" }), ..Self::op("write") })
    }
    fn rd(&mut self, fd: usize, at: Option<usize>) -> usize {
        let Some(f) = self.fds.get(&fd).cloned() else { return 0 };
        let bs = self.bounds(at.unwrap_or(f.cur.max(0) as usize), 4);
        self.go(Op { fd, bs, m: json!(if at.is_some() { "off" } else { "cur" }), ..Self::op("read") })
    }
    fn seek(&mut self, fd: usize, to: usize) {
        let end = to <= self.size(fd) && self.rng.pct(50);
        let w = if end { "end" } else { *self.rng.pick(&["set", "cur"]) };
        self.go(Op { fd, to, w: json!(w), ..Self::op("seek") });
    }

    // ------------------------------------------------------------------ jobs

    /// save a file: write a new one aside and rename it over the old one
    fn job_save(&mut self) {
        let p = self.fresh();
        let mut t = p.clone();
        *t.last_mut().unwrap() = self.name();
        let fd = self.open(&t, 1 | 8, 3);
        for _ in 0..self.rng.range(1, 3) {
            self.write(fd, None);
        }
        if self.rng.pct(50) {
            let to = self.size(fd);
            self.go(Op { fd, to, ..Self::op("setsize") });
        }
        if self.rng.pct(70) {
            self.close(fd);
        }
        let r = self.two("rename", &t, &p);
        self.rd(r, Some(0));
        self.close(r);
        self.close(fd);
    }
    /// append to a log, rotate it when it is long
    fn job_log(&mut self) {
        let p = if self.rng.pct(60) { self.some("f") } else { self.fresh() };
        let fd = self.open(&p, 1, 7);
        let other = if self.rng.pct(40) { self.open(&p, 0, *self.rng.clone_pick(&[1, 7, 3])) } else { 0 };
        for _ in 0..self.rng.range(1, 4) {
            self.write(fd, None);
            if other > 1 && self.rng.pct(50) {
                self.rd(other, None);
                self.write(other, None);
            }
        }
        if self.size(fd) + 2 > self.lo() {
            let q = self.fresh();
            let r = self.two("rename", &p, &q);
            self.close(r);
        }
        self.close(fd);
        self.close(other);
    }
    /// pages of a database, with a journal beside it
    fn job_db(&mut self) {
        let p = if self.rng.pct(60) { self.some("f") } else { self.fresh() };
        let db = self.open(&p, 1, 3);
        let mut jp = p.clone();
        if let Some(l) = jp.last_mut() {
            *l = self.name();
        }
        let jn = self.open(&jp, 1 | 4, 3);
        for _ in 0..self.rng.range(2, 5) {
            let at = self.rng.below(self.lo() as u64) as usize;
            self.rd(db, Some(at));
            self.write(jn, None);
            self.write(db, Some(at));
            if self.rng.pct(20) {
                let to = self.rng.below(self.lo() as u64 + 1) as usize;
                self.seek(db, to);
                self.rd(db, None);
            }
        }
        if self.rng.pct(50) {
            let to = self.rng.below(self.lo() as u64 + 1) as usize;
            self.go(Op { fd: db, to, ..Self::op("setsize") });
            self.rd(db, Some(0));
        }
        if self.rng.pct(20) {
            self.one("unlink", &jp);
        }
        self.close(jn);
        if self.rng.pct(70) {
            self.one("unlink", &jp);
        }
        self.close(db);
    }
    /// unpack a tree, move it, remove parts of it
    fn job_tree(&mut self) {
        if !self.room() {
            return self.job_clean();
        }
        let mut p = self.fresh();
        self.one("mkdir", &p);
        for _ in 0..self.rng.range(1, 4) {
            if !self.room() {
                break;
            }
            let mut q = p.clone();
            q.push(self.name());
            match self.rng.below(4) {
                0 => {
                    q.push(self.name());
                    let fd = self.one("mkdiro", &q);
                    if self.rng.pct(60) {
                        self.close(fd);
                    }
                }
                1 => {
                    self.one("mkdir", &q);
                    if self.rng.pct(50) {
                        p = q;
                    }
                }
                _ => {
                    let fd = self.open(&q, 1, 3);
                    self.write(fd, None);
                    self.close(fd);
                }
            }
        }
        let q = self.fresh();
        let a = if self.rng.pct(70) { p[..p.len().min(1)].to_vec() } else { p.clone() };
        let r = self.two("rename", &a, &q);
        self.close(r);
        match self.rng.below(4) {
            0 => {
                self.one("rmrec", &q);
            }
            1 => {
                let d = self.some("d");
                self.one("rmdir", &d);
            }
            2 => {
                let f = self.some("f");
                self.one("unlink", &f);
            }
            _ => {}
        }
    }
    /// a backup by hard links
    fn job_backup(&mut self) {
        let d = self.dir();
        let id = self.nodes.iter().map(|x| *x.0).find(|i| self.path_of(*i).as_deref() == Some(&d[..])).unwrap_or(1);
        let t = self.fresh();
        if self.room() {
            self.one("mkdir", &t);
        }
        let es = self.nodes[&id].ents.clone();
        for e in es.iter().take(4) {
            let (mut a, mut b) = (d.clone(), t.clone());
            a.push(e.0.clone());
            b.push(e.0.clone());
            let fd = self.two("link", &a, &b);
            if self.rng.pct(30) {
                self.write(fd, Some(0));
            }
            if self.rng.pct(40) {
                self.one("unlink", &a);
            }
            self.close(fd);
        }
    }
    /// many descriptors of one object
    fn job_fds(&mut self) {
        let p = if self.rng.pct(80) { self.some("f") } else { self.some("d") };
        let st = [self.rng.below(16), 3, 1];
        let a = self.open(&p, 0, st[0]);
        let b = self.open(&p, self.rng.clone_pick(&[0u64, 0, 2, 8]).to_owned(), st[1]);
        for _ in 0..self.rng.range(1, 4) {
            let v = self.slots("f");
            let fd = if v.is_empty() { 1 } else { *self.rng.pick(&v) };
            match self.rng.below(7) {
                0 => {
                    let to = self.rng.range(1, self.max_fds as u64) as usize;
                    let cls = self.rng.pick(&["freed", "next", "next2", "far", "std"]).to_string();
                    self.go(Op { fd, to, cls, ..Self::op("renum") });
                }
                1 => {
                    let st = self.rng.below(16);
                    self.go(Op { fd, st, ..Self::op("setstat") });
                }
                2 => {
                    self.write(fd, None);
                }
                3 => {
                    self.rd(fd, None);
                }
                4 => {
                    let to = self.rng.below(self.lo() as u64 + 1) as usize;
                    self.seek(fd, to);
                }
                5 => {
                    self.go(Op { fd, ..Self::op("tell") });
                }
                _ => {
                    let to = self.rng.below(self.lo() as u64 + 1) as usize;
                    self.go(Op { fd, to, ..Self::op("setsize") });
                }
            }
        }
        if self.rng.pct(60) {
            self.close(a);
        }
        if self.rng.pct(60) {
            self.close(b);
        }
    }
    fn job_mount(&mut self) {
        if self.w.mems.is_empty() || !self.room() {
            return self.job_fds();
        }
        let p = if self.rng.pct(70) { self.some("f") } else { self.fresh() };
        let used: BTreeSet<u64> = self.mounted().into_iter().collect();
        let free: Vec<u64> = (1..=self.w.mems.len() as u64).filter(|m| !used.contains(m)).collect();
        if free.is_empty() || self.rng.pct(30) {
            let m: Vec<usize> = self.nodes.iter().filter(|x| x.1.mt == 1).map(|x| *x.0).collect();
            let q = if m.is_empty() { p } else { let i = *self.rng.pick(&m); self.path_of(i).unwrap() };
            let o = *self.rng.pick(&["unmount", "unmount", "initm", "storem"]);
            self.go(Op { p: q, ..Self::op(o) });
            return;
        }
        let m = *self.rng.pick(&free);
        let pol = self.rng.pick(&["zero", "prevpages", "explicit", "pages"]).to_string();
        let to = if pol == "explicit" { self.rng.below(self.lo() as u64 + 1) as usize } else { 0 };
        self.go(Op { p: p.clone(), m: json!(m), pol, to, ..Self::op("mount") });
        let fd = self.open(&p, 0, 3);
        for _ in 0..self.rng.range(1, 3) {
            let at = self.rng.below(self.lo() as u64) as usize;
            match self.rng.below(6) {
                0 | 1 => {
                    self.write(fd, Some(at));
                }
                2 => {
                    self.rd(fd, Some(at));
                }
                3 => {
                    self.go(Op { fd, to: at, ..Self::op("setsize") });
                }
                4 => {
                    self.go(Op { p: p.clone(), ..Self::op("initm") });
                }
                _ => {
                    self.go(Op { p: p.clone(), ..Self::op("storem") });
                }
            }
        }
        self.close(fd);
        if self.rng.pct(60) {
            self.go(Op { p: p.clone(), ..Self::op("unmount") });
            let fd = self.open(&p, 0, 1);
            self.rd(fd, Some(0));
            self.close(fd);
        }
    }
    /// the memories in use, as far as known: one that is mounted answers to its changes
    fn mounted(&self) -> Vec<u64> {
        let mut r = vec![];
        for (node, id) in &self.ids {
            if self.nodes.get(id).is_some_and(|n| n.mt == 1) {
                let fs = self.w.fs.as_ref().unwrap();
                let Some(mem) = fs.storage.get_mounted_memory(*node) else { continue };
                for (i, m) in self.w.mems.iter().enumerate() {
                    let n = m.borrow().len();
                    if mem.size() == m.size() {
                        m.borrow_mut().resize(n + 65536, 0);
                        if mem.size() == m.size() {
                            r.push(i as u64 + 1);
                        }
                        m.borrow_mut().truncate(n);
                    }
                }
            }
        }
        r
    }
    fn job_attr(&mut self) {
        let p = if self.rng.pct(80) { self.some("f") } else { self.some("d") };
        let fd = self.open(&p, 0, 3);
        if fd == 0 {
            return;
        }
        for _ in 0..2 {
            let to = self.rng.below(self.lo() as u64 + 1) as usize;
            match self.rng.below(5) {
                0 => {
                    self.go(Op { fd, w: json!(2 + self.clock % 2), ..Self::op("settime") });
                }
                1 => {
                    self.go(Op { fd, to, ..Self::op("setlim") });
                }
                2 => {
                    let lim = if self.rng.pct(70) { -1 } else { self.rng.below(self.lo() as u64 + 1) as i64 };
                    self.go(Op { fd, to, lim, k: "ok".into(), ..Self::op("setall") });
                }
                3 if self.fds.get(&fd).is_some_and(|f| f.k == "f") => {
                    self.go(Op { fd, to, ..Self::op("setmeta") });
                }
                _ => {
                    self.write(fd, None);
                }
            }
        }
        self.close(fd);
    }
    /// calls that make no sense
    fn job_junk(&mut self) {
        let mut p = if self.rng.pct(50) { self.some("f") } else { self.fresh() };
        let x = self.rng.pick(&["..", ".", "", "LONG"]).to_string();
        let i = self.rng.below(p.len() as u64 + 1) as usize;
        p.insert(i, x);
        let q = self.some("d");
        match self.rng.below(8) {
            0 => {
                self.open(&p, 1, 3);
            }
            1 => {
                self.one("unlink", &p);
            }
            2 => {
                self.one("rmdir", &p);
            }
            3 => {
                let r = self.two("rename", &p, &q);
                self.close(r);
            }
            4 => {
                let r = self.two("rename", &q, &p);
                self.close(r);
            }
            5 => {
                let r = self.two("link", &p, &q);
                self.close(r);
            }
            6 if self.room() => {
                self.one("mkdir", &p);
            }
            _ => {
                let fd = self.rng.range(1, self.max_fds as u64) as usize;
                let o = *self.rng.pick(&["close", "tell", "flush", "advise"]);
                self.go(Op { fd, ..Self::op(o) });
            }
        }
    }
    /// a directory with very many entries
    fn job_big(&mut self) {
        let p = if self.rng.pct(70) { self.fresh() } else { self.some("d") };
        self.one("mkdir", &p);
        let most = self.max_nodes.saturating_sub(self.nodes.len() + 8) as u64;
        let n = most / 2 + self.rng.below(most / 2 + 1);
        let keep = if self.rng.pct(30) { self.rng.below(n + 1) } else { n + 1 };
        let mut q = p.clone();
        q.push(String::new());
        for k in 0..n {
            if !self.room() {
                break;
            }
            *q.last_mut().unwrap() = self.name();
            if self.rng.pct(80) {
                let fd = self.open(&q, 1, 3);
                if self.rng.pct(5) {
                    self.write(fd, None);
                }
                if k != keep {
                    self.close(fd);
                }
            } else if self.rng.pct(50) {
                self.one("mkdir", &q);
            } else {
                let a = self.some("f");
                let fd = self.two("link", &a, &q);
                self.close(fd);
            }
        }
        for _ in 0..self.rng.below(40) {
            *q.last_mut().unwrap() = self.name();
            match self.rng.below(5) {
                0 => {
                    let r = self.fresh();
                    let fd = self.two("rename", &q, &r);
                    self.close(fd);
                }
                1 => {
                    let mut r = q.clone();
                    *r.last_mut().unwrap() = self.name();
                    let fd = self.two("rename", &q, &r);
                    self.close(fd);
                }
                2 => {
                    let fd = self.open(&q, 0, 3);
                    self.close(fd);
                }
                3 => {
                    let fd = self.one("mkdiro", &q);
                    self.close(fd);
                }
                _ => {
                    self.one("unlink", &q);
                }
            }
        }
        match self.rng.below(4) {
            0 => {
                self.one("rmdir", &p);
            }
            1 => {
                self.go(Self::op("upgrade"));
                self.one("rmrec", &p);
            }
            _ => {
                self.one("rmrec", &p);
            }
        }
    }
    /// hundreds of descriptors, of few objects
    fn job_manyfds(&mut self) {
        let n = self.rng.range(20, self.max_fds as u64 - 10);
        for _ in 0..n {
            let p = if self.rng.pct(70) { self.fresh() } else { self.some("d") };
            let dir = self.nodes.len() + 8 > self.max_nodes || p.is_empty();
            let st = *self.rng.pick(&[3u64, 3, 7, 1]);
            let fd = self.open(&p, if dir { 0 } else { 1 }, st);
            if fd > 1 && self.rng.pct(30) {
                self.write(fd, None);
            }
        }
        for _ in 0..self.rng.range(20, 2 * n) {
            let v: Vec<usize> = self.fds.keys().copied().collect();
            let fd = *self.rng.pick(&v);
            match self.rng.below(8) {
                0..=3 => self.close(fd),
                4 => {
                    let to = *self.rng.pick(&v);
                    let cls = self.rng.pick(&["freed", "next", "next2", "far"]).to_string();
                    self.go(Op { fd, to, cls, ..Self::op("renum") });
                }
                5 => {
                    let p = self.some("f");
                    self.open(&p, 0, 3);
                }
                6 => {
                    self.go(Op { fd, ..Self::op("tell") });
                }
                _ => {
                    self.write(fd, None);
                }
            }
        }
        if self.rng.pct(10) {
            self.go(Self::op("upgrade"));
        }
    }
    /// a directory with more than a thousand entries, of few objects
    fn job_wide(&mut self) {
        let p = vec![self.name()];
        if self.nodes[&1].ents.iter().any(|e| e.0 == p[0]) {
            self.one("rmrec", &p);
        }
        self.one("mkdir", &p);
        let mut a = vec![];
        for k in 0..4 {
            let f = vec![spec_name(k)];
            let fd = self.open(&f, 1, 3);
            if fd > 0 {
                self.write(fd, None);
                self.close(fd);
                a.push(f);
            }
        }
        let dfd = self.one("mkdiro", &[p[0].clone(), "e".into()]);
        self.close(dfd);
        let most = self.nnames.saturating_sub(10) as u64;
        let n = (most - self.rng.below(most / 8)) as usize;
        let mut q = vec![p[0].clone(), String::new()];
        if a.is_empty() {
            return self.job_clean();
        }
        for k in 5..n {
            q[1] = spec_name(k);
            let f = self.rng.pick(&a).clone();
            let fd = self.two("link", &f, &q);
            self.close(fd);
            if self.rng.pct(1) {
                q[1] = spec_name(5 + self.rng.below(k as u64) as usize);
                self.one("unlink", &q);
            }
        }
        // near the ends and the hundreds, or anywhere
        let some = |s: &mut Self| {
            let Some(d) = s.nodes.iter().find(|x| x.1.ents.len() > 100).map(|x| x.1.ents.clone()) else { return s.name() };
            let k = match s.rng.below(5) {
                0 => s.rng.below(3) as usize,
                1 => d.len() - 1 - s.rng.below(3) as usize,
                2 => (100 * s.rng.below(15) as usize + s.rng.below(5) as usize).min(d.len() - 1),
                3 => (1000 + s.rng.below(40) as usize).min(d.len() - 1),
                _ => s.rng.below(d.len() as u64) as usize,
            };
            d[k].0.clone()
        };
        for _ in 0..self.rng.range(100, 300) {
            q[1] = some(self);
            match self.rng.below(12) {
                0 | 1 => {
                    self.one("unlink", &q);
                }
                2 | 3 => {
                    let r = vec![p[0].clone(), some(self)];
                    let fd = self.two("rename", &q, &r);
                    self.close(fd);
                }
                4 => {
                    let r = vec![p[0].clone(), self.name()];
                    let fd = self.two("rename", &q, &r);
                    self.close(fd);
                }
                5 => {
                    let r = vec![self.name()];
                    let fd = self.two("rename", &q, &r);
                    self.close(fd);
                }
                6 => {
                    let r = vec![p[0].clone(), self.name()];
                    let fd = self.two("link", &q, &r);
                    self.close(fd);
                }
                7 => {
                    let st = if self.rng.pct(50) { 3 } else { 7 };
                    let fd = self.open(&q, 0, st);
                    self.write(fd, None);
                    self.close(fd);
                }
                8 => {
                    q[1] = self.name();
                    let o = *self.rng.pick(&["mkdir", "rmdir"]);
                    self.one(o, &q);
                }
                9 => {
                    q[1] = self.name();
                    let fd = self.open(&q, 1, 3);
                    self.close(fd);
                }
                10 if self.rng.pct(20) => {
                    self.go(Self::op("upgrade"));
                }
                _ => {
                    let fd = self.open(&q, 0, 1);
                    self.rd(fd, Some(0));
                    self.close(fd);
                }
            }
        }
        if self.rng.pct(70) {
            q[1] = some(self);
            let fd = self.open(&q, 0, 3);
            self.one("rmrec", &p);
            self.close(fd);
        }
        self.one("rmrec", &p);
    }
    /// a very deep tree
    fn job_deep(&mut self) {
        let mut p = self.some("d");
        if p.len() > 150 {
            let k = self.rng.below(p.len() as u64) as usize;
            p.truncate(k);
        }
        let top = p.len();
        for _ in 0..self.rng.range(5, 60) {
            if !self.room() {
                break;
            }
            p.push(self.name());
            if self.rng.pct(90) {
                self.one("mkdir", &p);
            } else {
                let fd = self.one("mkdiro", &p);
                if self.rng.pct(80) {
                    self.close(fd);
                }
            }
        }
        let mut f = p.clone();
        f.push(self.name());
        let fd = self.open(&f, 1, 3);
        self.write(fd, None);
        if self.rng.pct(85) {
            self.close(fd);
        }
        // in the middle of it
        let k = top + self.rng.below((p.len() - top).max(1) as u64) as usize;
        let mid = p[..k.max(1).min(p.len())].to_vec();
        let mut q = self.some("d");
        q.push(self.name());
        match self.rng.below(6) {
            0 | 1 => {
                let r = self.two("rename", &mid, &q);
                self.close(r);
            }
            2 => {
                // below itself
                let mut b = p.clone();
                b.push(self.name());
                let r = self.two("rename", &mid, &b);
                self.close(r);
            }
            3 => {
                let r = self.two("link", &f, &q);
                self.close(r);
                self.one("unlink", &f);
            }
            4 => {
                // a long way round
                let mut b = p.clone();
                for _ in 0..p.len() - top {
                    b.push("..".into());
                    if self.rng.pct(20) {
                        b.push(".".into());
                    }
                }
                b.extend(p[top..].iter().cloned());
                b.push(f.last().unwrap().clone());
                let r = self.open(&b, 0, 3);
                self.rd(r, Some(0));
                self.close(r);
            }
            _ => {}
        }
        if self.rng.pct(40) {
            self.one("rmrec", &mid);
        }
        if self.rng.pct(20) {
            self.go(Self::op("upgrade"));
        }
    }
    fn job_clean(&mut self) {
        for fd in self.w.fd_of.keys().copied().collect::<BTreeSet<_>>() {
            if fd > 1 && self.rng.pct(70) {
                self.close(fd);
            }
        }
        if self.max_nodes - self.nodes.len() < 12 {
            let e = self.nodes[&1].ents.clone();
            for x in e {
                if self.rng.pct(50) {
                    self.one("rmrec", &[x.0]);
                }
            }
        }
    }

    fn run(&mut self, jobs: &[String]) {
        let all: Vec<String> = if jobs.is_empty() {
            ["save", "log", "db", "tree", "tree", "backup", "fds", "mount", "attr", "junk", "upgrade"].iter().map(|s| s.to_string()).collect()
        } else {
            jobs.to_vec()
        };
        while self.left > 0 {
            if !self.room() {
                self.job_clean();
            }
            match self.rng.pick(&all).as_str() {
                "save" => self.job_save(),
                "log" => self.job_log(),
                "db" => self.job_db(),
                "tree" => self.job_tree(),
                "backup" => self.job_backup(),
                "fds" => self.job_fds(),
                "mount" => self.job_mount(),
                "attr" => self.job_attr(),
                "junk" => self.job_junk(),
                "big" => self.job_big(),
                "deep" => self.job_deep(),
                "wide" => self.job_wide(),
                "manyfds" => self.job_manyfds(),
                "unlink" => {
                    let f = self.some("f");
                    self.one("unlink", &f);
                }
                _ => {
                    if self.rng.pct(50) {
                        self.go(Self::op("upgrade"));
                    }
                }
            }
        }
    }
}

impl Rng {
    fn clone_pick<'b, T>(&self, v: &'b [T]) -> &'b T {
        &v[(self.peek() % v.len() as u64) as usize]
    }
}

/// only the fields the specification looks at
fn spec_op(op: &Op) -> Value {
    let mut v = serde_json::Map::new();
    v.insert("o".into(), json!(op.o));
    let mut put = |k: &str, x: Value| {
        v.insert(k.into(), x);
    };
    let (fd, p, t) = (json!(op.fd), json!(op.p), json!(op.t));
    match op.o.as_str() {
        "open" => {
            put("fd", fd);
            put("p", p);
            put("fl", json!(op.fl));
            put("st", json!(op.st));
            put("t", t);
        }
        "mkdir" | "mkdiro" => {
            put("fd", fd);
            put("p", p);
            put("st", json!(op.st));
            put("t", t);
        }
        "close" | "tell" | "flush" | "advise" => put("fd", fd),
        "renum" => {
            put("fd", fd);
            put("to", json!(op.to));
            put("cls", json!(op.cls));
        }
        "write" | "read" => {
            put("fd", fd);
            put("m", op.m.clone());
            put("bs", json!(op.bs));
            put("v", json!(op.v));
        }
        "seek" => {
            put("fd", fd);
            put("w", op.w.clone());
            put("to", json!(op.to));
            put("bad", json!(op.bad));
        }
        "setsize" | "setmeta" | "setlim" => {
            put("fd", fd);
            put("to", json!(op.to));
        }
        "setall" => {
            put("fd", fd);
            put("to", json!(op.to));
            put("lim", json!(op.lim));
            put("t", t);
            put("k", json!(op.k));
        }
        "settime" => {
            put("fd", fd);
            put("w", op.w.clone());
            put("t", t);
        }
        "setstat" => {
            put("fd", fd);
            put("st", json!(op.st));
        }
        "unlink" | "rmdir" | "rmrec" => {
            put("fd", fd);
            put("p", p);
        }
        "link" | "rename" => {
            put("fd", fd);
            put("p", p);
            put("fd2", json!(op.fd2));
            put("p2", json!(op.p2));
        }
        "mount" => {
            put("p", p);
            put("m", op.m.clone());
            put("pol", json!(op.pol));
            put("to", json!(op.to));
        }
        "unmount" | "initm" | "storem" => put("p", p),
        "setcs" | "setct" => put("to", json!(op.to)),
        _ => {}
    }
    Value::Object(v)
}

pub fn record(cfg: &str) {
    let cfg: Config = serde_json::from_str(&std::fs::read_to_string(cfg).unwrap()).unwrap();
    let pat = Pattern::new();
    std::thread::spawn(|| {
        let mut last = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(60));
            let a = AT.lock().unwrap().clone();
            if a.1 == last {
                println!("{}", json!({"hang": a.0}));
                std::process::exit(97);
            }
            last = a.1;
        }
    });
    let mut f = std::io::BufWriter::new(std::fs::File::create(&cfg.out).unwrap());
    let mut total = 0;
    let nv = cfg.variants.len();
    for k in 0..cfg.runs * if cfg.paired { nv } else { 1 } {
        let nth = if cfg.paired { k / nv } else { k };
        let seed = cfg.seed.wrapping_mul(1_000_003).wrapping_add(nth as u64);
        // (parts of a series of runs begin with different variants)
        let var = &cfg.variants[if cfg.paired { k % nv } else { (k + cfg.seed as usize) % nv }];
        let lines = std::sync::Arc::new(std::sync::Mutex::new((vec![], String::new(), false, None::<Value>)));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let img = if cfg.images.is_empty() { None } else { Some(Image::load(&cfg.images[nth % cfg.images.len()])) };
            let mut own = var.clone();
            if let Some(i) = &img {
                own = Variant { image: var.image.clone(), grids: vec![if cfg.shape.mem0.is_empty() { "tiny" } else { "page" }.into()], legacy: false, ..i.variant.clone() };
            }
            let mut w = World::new(&pat, &own, &cfg.shape, seed);
            if let Some(i) = &img {
                w.g = i.grid();
                w.new_mems(&cfg.shape.mem0);
                lines.lock().unwrap().1 = w.describe().to_string();
                if own.image == "load" {
                    lines.lock().unwrap().2 = true;
                    w.load(i.memory(), i.base);
                    lines.lock().unwrap().2 = false;
                }
            }
            let mut rec = Rec {
                w, ids: HashMap::new(), nodes: BTreeMap::new(), fds: BTreeMap::new(), mems: vec![], max_nodes: cfg.max_nodes,
                max_fds: cfg.max_fds, nnames: cfg.names, tag: 0, tags: BTreeSet::new(), clock: 0, rng: Rng::new(seed ^ 0xABC),
                lines: vec![], left: cfg.steps, root_set: false, second: cfg.second, space: cfg.space, was_mt: BTreeSet::new(),
                lists: cfg.lists, names: HashMap::new(), places: HashMap::new(), met: HashSet::new(), moved: vec![], reused: vec![],
            };
            if cfg.image_out.is_some() {
                rec.w.ts = 1;
            }
            rec.names = (0..cfg.names).map(|i| (rec.w.name(&spec_name(i)), spec_name(i))).collect();
            if let Some(i) = &img {
                let made = if own.image == "load" { None } else { Some(rec.make(i)) };
                rec.adopt(i, made.as_ref());
                rec.mems = vec![(vec![0; rec.w.g.len() - 1], 0); cfg.shape.mem0.len()];
                for (k, m) in rec.mems.iter_mut().enumerate() {
                    m.1 = cfg.shape.mem0[k] as i64;
                }
                lines.lock().unwrap().3 = Some(rec.start_state(i, &cfg.shape.mem0));
                // nothing may differ now
                let (n, f, m) = rec.project();
                rec.reused.clear();
                rec.lines.push(json!({"op": {"o": "upgrade"}, "r": {"e": "ok", "v": []}, "n": n, "f": f, "m": m}).to_string());
            } else {
                rec.project();
                rec.reused.clear();
            }
            rec.met.extend(rec.ids.keys().copied());
            rec.moved.clear();
            lines.lock().unwrap().1 = rec.w.describe().to_string();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rec.run(&cfg.jobs)));
            lines.lock().unwrap().0 = std::mem::take(&mut rec.lines);
            if let (Some(f), true) = (&cfg.image_out, r.is_ok()) {
                rec.left = 1;
                rec.go(Rec::op("upgrade"));
                std::fs::write(f.replace("%", &k.to_string()), serde_json::to_string(&rec.image()).unwrap()).unwrap();
            }
            if let Err(e) = r {
                std::panic::resume_unwind(e);
            }
        }));
        let (mut ls, desc, opening, state) = std::mem::take(&mut *lines.lock().unwrap());
        if let Err(e) = r {
            let place = crate::PLACE.with(|p| p.borrow().clone());
            let at = if opening { "upgrade".into() } else { AT.lock().unwrap().0.clone() };
            let msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            ls.push(json!({"op": {"o": "panic", "at": format!("{}:{at}", if place.starts_with("src/") { "recorder" } else { "panic" })}, "r": {"e": format!("{msg} at {place}"), "v": []}, "n": [], "f": [], "m": []}).to_string());
        }
        let mut first = json!({"op": {"o": "start"}, "r": {"e": desc, "v": [k]}, "n": [], "f": [], "m": []});
        if cfg.space > 1 {
            first["sampled"] = json!(1);
        }
        if let Some(s) = state {
            first["s"] = s;
        }
        writeln!(f, "{first}").unwrap();
        total += ls.len();
        for l in ls {
            writeln!(f, "{l}").unwrap();
        }
    }
    f.flush().unwrap();
    println!("{}", json!({"runs": cfg.runs, "steps": total}));
}
