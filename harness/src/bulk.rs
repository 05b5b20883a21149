//! Episodes: many calls in a row that, by the laws of spec/Bulk.tla, leave the
//! state as it was.  The laws are checked by TLC for small n; here n goes up to
//! what a test never tries.
use crate::util::*;
use crate::world::*;
use std::collections::HashSet;
use stable_fs::error::Error;
use ic_stable_structures::{Memory, VectorMemory};
use stable_fs::fs::*;
use stable_fs::storage::types::MountedFileSizePolicy;

fn go<T>(kind: &str, what: impl FnOnce() -> String, r: Result<T, Error>) -> Result<T, Diff> {
    r.map_err(|e| Diff { class: format!("bulk:{kind}"), detail: format!("{} fails with {e:?}", what()) })
}
fn no<T>(kind: &str, want: Option<Error>, what: impl FnOnce() -> String, r: Result<T, Error>) -> Check {
    match r {
        Ok(_) => diff(format!("bulk:{kind}"), format!("{} works", what())),
        Err(e) if want.as_ref().is_some_and(|w| *w != e) => diff(format!("bulk:{kind}"), format!("{} fails with {e:?}", what())),
        Err(_) => Ok(()),
    }
}
fn is<T: PartialEq + std::fmt::Debug>(kind: &str, what: impl FnOnce() -> String, got: T, want: T) -> Check {
    if got == want { Ok(()) } else { diff(format!("bulk:{kind}"), format!("{} is {got:?}, expected {want:?}", what())) }
}

const GONE: Option<Error> = Some(Error::NoSuchFileOrDirectory);
const BUSY: Option<Error> = Some(Error::TextFileBusy);

fn put(fs: &mut FileSystem, fd: Fd, b: &[u8], at: u64) -> Result<u64, Error> {
    fs.write_vec_with_offset(fd, &[SrcBuf { buf: b.as_ptr(), len: b.len() }], at)
}
fn get(fs: &mut FileSystem, fd: Fd, b: &mut [u8], at: u64) -> Result<u64, Error> {
    fs.read_vec_with_offset(fd, &[DstBuf { buf: b.as_mut_ptr(), len: b.len() }], at)
}

/// 0..n-1 forwards, backwards or mixed up
fn order(rng: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    match rng.below(3) {
        0 => {}
        1 => v.reverse(),
        _ => {
            for i in (1..n).rev() {
                v.swap(i, rng.below(i as u64 + 1) as usize);
            }
        }
    }
    v
}

impl World<'_> {
    /// `room`: how many objects with attributes of their own there is memory for
    fn amount(&mut self, objects: bool, names: bool) -> usize {
        let r = &mut self.rng;
        let n = match r.below(1000) {
            0..=299 => r.range(1, 4),
            300..=549 => r.range(5, 30),
            550..=749 => r.range(90, 130),
            750..=904 => r.range(250, 300),
            905..=974 => r.range(990, 1200),
            975..=993 => r.range(5000, 13000),
            _ => r.range(65530, 70000),
        };
        // the time that names in one directory take grows with the square of their number
        let n = if names && n > 300 { if r.pct(70) { r.range(250, 300) } else { r.range(990, 1200) } } else { n } as usize;
        if objects && self.var.backend != "transient" {
            let cs = if self.var.cs == 0 { 16 } else { self.var.cs } as usize;
            n.min((128 << 10) / cs)
        } else {
            n
        }
    }

    pub fn bulk(&mut self, dir: Fd, kind: &str, base: &str) -> Check {
        let st = FdStat::default();
        let n = self.amount(matches!(kind, "deep" | "wide" | "mounts"), kind == "wide");
        let n = if kind == "links" && n > 30_000 && !self.rng.pct(30) { n / 10 } else { n };
        let seed = self.rng.next();
        let mut rng = Rng::new(seed);
        let (z, y) = (format!("{base}z"), format!("{base}y"));
        let k = kind;
        let mut new_nodes: Vec<u64> = vec![];
        let rmode = rng.below(4);
        match kind {
            // the links of a file
            "links" => {
                let sub = format!("{base}d");
                let at = |i: usize| if i % 3 == 1 || i >= 90 { format!("{sub}/{}/{i}", i / 30) } else { format!("{z}{i}") };
                let fs = self.fs();
                for i in 0..=n / 30 {
                    let p = format!("{sub}/{i}");
                    go(k, || "mkdir".into(), fs.mkdir(dir, &p, st, 3))?;
                    if i == 0 {
                        new_nodes.push(go(k, || "finding".into(), fs.open_metadata(dir, &sub))?.node);
                    }
                    new_nodes.push(go(k, || "finding".into(), fs.open_metadata(dir, &p))?.node);
                }
                let fd = go(k, || "creating".into(), fs.open(dir, &z, st, OpenFlags::CREATE, 5))?;
                go(k, || "writing".into(), fs.write(fd, b"content"))?;
                let node = go(k, || "attributes".into(), fs.metadata(fd))?.node;
                new_nodes.push(node);
                if rmode > 1 {
                    go(k, || "closing".into(), fs.close(fd))?;
                }
                for i in 0..n {
                    let src = if i > 0 && i % 2 == 0 { at(i - 1) } else { z.clone() };
                    let g = go(k, || format!("link {i}"), fs.create_hard_link(dir, &src, dir, &at(i)))?;
                    go(k, || format!("closing link {i}"), fs.close(g))?;
                }
                for p in [z.clone(), at(0), at(n - 1), at(n / 2)] {
                    let m = go(k, || format!("finding {p}"), fs.open_metadata(dir, &p))?;
                    is(k, || format!("(object, links, size) of {p}"), (m.node, m.link_count, m.size), (node, n as u64 + 1, 7))?;
                }
                if rmode <= 1 {
                    go(k, || "closing".into(), fs.close(fd))?;
                }
                let o = order(&mut rng, n + 1);
                for (j, i) in o.iter().enumerate() {
                    let p = if *i == n { z.clone() } else { at(*i) };
                    if n - j < 3 || j % 61 == 0 {
                        let g = go(k, || format!("opening {p}"), fs.open(dir, &p, st, OpenFlags::empty(), 9))?;
                        let mut b = [0u8; 9];
                        is(k, || format!("read of {p}"), fs.read(g, &mut b).ok(), Some(7))?;
                        is(k, || format!("content of {p}"), &b[..7], &b"content"[..])?;
                        is(k, || format!("links of {p}"), go(k, || "attributes".into(), fs.metadata(g))?.link_count, (n + 1 - j) as u64)?;
                        if j < n {
                            // a name of an open file can go, the last one cannot
                            go(k, || format!("removing {p}"), fs.remove_file(dir, &p))?;
                            is(k, || "links".into(), go(k, || "attributes".into(), fs.metadata(g))?.link_count, (n - j) as u64)?;
                            go(k, || "closing".into(), fs.close(g))?;
                        } else {
                            no(k, BUSY, || "removing the last name of the open file".into(), fs.remove_file(dir, &p))?;
                            go(k, || "closing".into(), fs.close(g))?;
                            go(k, || format!("removing {p}"), fs.remove_file(dir, &p))?;
                        }
                    } else {
                        go(k, || format!("removing {p}"), fs.remove_file(dir, &p))?;
                    }
                    no(k, GONE, || format!("finding the removed {p}"), fs.open_metadata(dir, &p))?;
                }
                no(k, None, || "the removed file".into(), fs.metadata_from_node(node))?;
                for i in 0..=n / 30 {
                    go(k, || "removing the directory".into(), fs.remove_dir(dir, &format!("{sub}/{i}")))?;
                }
                go(k, || "removing the directory".into(), fs.remove_dir(dir, &sub))?;
            }
            // the descriptors of an object
            "opens" => {
                let isd = rng.pct(30);
                let taken: Vec<Fd> = self.fd_of.values().copied().collect();
                let fs = self.fs();
                let first = if isd { go(k, || "mkdir".into(), fs.create_open_directory(dir, &z, st, 3))? } else { go(k, || "creating".into(), fs.open(dir, &z, st, OpenFlags::CREATE, 5))? };
                let node = go(k, || "attributes".into(), fs.metadata(first))?.node;
                new_nodes.push(node);
                let mut fds = vec![first];
                for i in 0..n {
                    let g = go(k, || format!("opening {i}"), fs.open(dir, &z, st, OpenFlags::empty(), 9))?;
                    if !isd {
                        go(k, || "seek".into(), fs.seek(g, i as i64 + 1, Whence::SET))?;
                    }
                    fds.push(g);
                }
                let all: HashSet<Fd> = fds.iter().copied().collect();
                is(k, || "number of different descriptors".into(), all.len(), fds.len())?;
                is(k, || "descriptor in use already".into(), taken.iter().find(|f| all.contains(f)), None)?;
                let o = order(&mut rng, n + 1);
                for (j, i) in o.iter().enumerate() {
                    let g = fds[*i];
                    if !isd {
                        is(k, || format!("cursor of descriptor {g}"), fs.tell(g).ok(), Some(*i as u64))?;
                    }
                    is(k, || format!("object of descriptor {g}"), fs.metadata(g).map(|m| m.node).ok(), Some(node))?;
                    if j == n || j == 0 || j % 97 == 0 {
                        no(k, BUSY, || format!("removing the object with {} descriptors", n + 1 - j), if isd { fs.remove_dir(dir, &z) } else { fs.remove_file(dir, &z) })?;
                    }
                    go(k, || format!("closing {g}"), fs.close(g))?;
                    no(k, Some(Error::BadFileDescriptor), || format!("closing {g} again"), fs.close(g))?;
                }
                go(k, || "removing".into(), if isd { fs.remove_dir(dir, &z) } else { fs.remove_file(dir, &z) })?;
            }
            // a chain of directories
            "deep" => {
                let fs = self.fs();
                let mut p = z.clone();
                if rng.pct(60) {
                    p.push_str(&"/x".repeat(n));
                    go(k, || format!("mkdir {n} deep"), fs.mkdir(dir, &p, st, 3))?;
                } else {
                    // step by step
                    let mut at = dir;
                    for i in 0..n + 1 {
                        let c = go(k, || format!("mkdir {i}"), fs.create_open_directory(at, if i == 0 { &z } else { "x" }, st, 3))?;
                        if at != dir {
                            go(k, || "closing".into(), fs.close(at))?;
                        }
                        at = c;
                    }
                    if at != dir {
                        go(k, || "closing".into(), fs.close(at))?;
                    }
                    p.push_str(&"/x".repeat(n));
                }
                let f = format!("{p}/f");
                let fd = go(k, || "creating".into(), fs.open(dir, &f, st, OpenFlags::CREATE, 5))?;
                go(k, || "writing".into(), fs.write(fd, b"content"))?;
                let node = go(k, || "attributes".into(), fs.metadata(fd))?.node;
                let q = format!("{y}{}/f", "/x".repeat(n));
                // below itself
                no(k, Some(Error::InvalidArgument), || "moving below itself".into(), fs.rename(dir, &z, dir, &format!("{p}/g")))?;
                let g = go(k, || "moving".into(), fs.rename(dir, &z, dir, &y))?;
                go(k, || "closing".into(), fs.close(g))?;
                no(k, GONE, || "finding under the old name".into(), fs.open_metadata(dir, &f))?;
                is(k, || "object under the new name".into(), fs.open_metadata(dir, &q).map(|m| m.node).ok(), Some(node))?;
                no(k, None, || "removing with an open file".into(), fs.remove_recursive(dir, &y))?;
                is(k, || "object under the new name".into(), fs.open_metadata(dir, &q).map(|m| m.node).ok(), Some(node))?;
                go(k, || "closing".into(), fs.close(fd))?;
                go(k, || "removing".into(), fs.remove_recursive(dir, &y))?;
                no(k, GONE, || "finding the removed".into(), fs.open_metadata(dir, &y))?;
                no(k, None, || "the removed file".into(), fs.metadata_from_node(node))?;
            }
            // the entries of a directory
            "wide" => {
                let fs = self.fs();
                let d = go(k, || "mkdir".into(), fs.create_open_directory(dir, &z, st, 3))?;
                new_nodes.push(go(k, || "attributes".into(), fs.metadata(d))?.node);
                let mut nodes = vec![];
                for i in 0..n {
                    let p = if i % 2 == 0 { format!("{z}/{i}") } else { format!("{i}") };
                    let g = go(k, || format!("creating {i}"), fs.open(if i % 2 == 0 { dir } else { d }, &p, st, OpenFlags::CREATE, i as u64))?;
                    nodes.push(go(k, || "attributes".into(), fs.metadata(g))?.node);
                    go(k, || "closing".into(), fs.close(g))?;
                }
                new_nodes.extend(&nodes);
                is(k, || "size".into(), go(k, || "attributes".into(), fs.metadata(d))?.size, n as u64)?;
                let mut seen = vec![];
                go(k, || "listing".into(), fs.with_direntries(d, Some(0), &mut |i, e| {
                    seen.push((*i, String::from_utf8_lossy(&e.name.bytes[..e.name.length as usize]).into_owned(), e.node));
                    true
                }))?;
                is(k, || "number of entries listed".into(), seen.len(), n)?;
                let names: HashSet<&String> = seen.iter().map(|x| &x.1).collect();
                is(k, || "number of names listed".into(), names.len(), n)?;
                for (_, nm, node) in &seen {
                    is(k, || format!("object of {nm}"), nm.parse::<usize>().ok().and_then(|i| nodes.get(i)).copied(), Some(*node))?;
                }
                let at = rng.below(n as u64) as usize;
                let mut again = vec![];
                go(k, || "listing".into(), fs.with_direntries(d, Some(seen[at].0), &mut |i, e| {
                    again.push((*i, e.node));
                    again.len() < 5
                }))?;
                is(k, || format!("listing resumed at {at}"), again, seen[at..].iter().take(5).map(|x| (x.0, x.2)).collect())?;
                let some: Vec<usize> = if n > 2000 { (0..2000).map(|_| rng.below(n as u64) as usize).collect() } else { (0..n).collect() };
                for i in &some {
                    let m = go(k, || format!("finding {i}"), fs.open_metadata(dir, &format!("{z}/{i}")))?;
                    is(k, || format!("(object, creation time) of {i}"), (m.node, m.times.created), (nodes[*i], *i as u64))?;
                }
                let g = go(k, || "moving".into(), fs.rename(dir, &z, dir, &y))?;
                go(k, || "closing".into(), fs.close(g))?;
                for i in &some {
                    no(k, GONE, || format!("finding the moved {i}"), fs.open_metadata(dir, &format!("{z}/{i}")))?;
                    let m = go(k, || format!("finding {i}"), fs.open_metadata(dir, &format!("{y}/{i}")))?;
                    is(k, || format!("object of {i}"), m.node, nodes[*i])?;
                }
                no(k, None, || "removing a directory in use".into(), fs.remove_dir(dir, &y))?;
                go(k, || "closing".into(), fs.close(d))?;
                if rmode == 0 {
                    go(k, || "removing".into(), fs.remove_recursive(dir, &y))?;
                } else {
                    for (j, i) in order(&mut rng, n).into_iter().enumerate() {
                        if j == n - 1 || j % 89 == 0 {
                            no(k, Some(Error::DirectoryNotEmpty), || format!("removing a directory with {} entries", n - j), fs.remove_dir(dir, &y))?;
                        }
                        go(k, || format!("removing {i}"), fs.remove_file(dir, &format!("{y}/{i}")))?;
                        is(k, || "size".into(), go(k, || "attributes".into(), fs.open_metadata(dir, &y))?.size, (n - 1 - j) as u64)?;
                    }
                    go(k, || "removing".into(), fs.remove_dir(dir, &y))?;
                }
                for x in &nodes {
                    no(k, None, || format!("the removed object {x}"), fs.metadata_from_node(*x))?;
                }
            }
            // objects that come and go
            "churn" => {
                let fs = self.fs();
                let mut same = HashSet::new();
                for i in 0..n {
                    let node = if i % 5 == 3 {
                        go(k, || format!("mkdir {i}"), fs.mkdir(dir, &z, st, 3))?;
                        let m = go(k, || format!("finding {i}"), fs.open_metadata(dir, &z))?;
                        go(k, || format!("removing {i}"), fs.remove_dir(dir, &z))?;
                        m.node
                    } else {
                        let g = go(k, || format!("creating {i}"), fs.open(dir, &z, st, OpenFlags::CREATE, 5))?;
                        let m = go(k, || "attributes".into(), fs.metadata(g))?;
                        is(k, || format!("(links, size) of the new file {i}"), (m.link_count, m.size), (1, 0))?;
                        if i % 3 == 0 {
                            is(k, || "write".into(), put(fs, g, &[b'x'; 5], (i % 7) as u64 * 3000).ok(), Some(5))?;
                        }
                        go(k, || "closing".into(), fs.close(g))?;
                        go(k, || format!("removing {i}"), fs.remove_file(dir, &z))?;
                        m.node
                    };
                    is(k, || format!("identity {node} of object {i} new"), same.insert(node), true)?;
                    no(k, GONE, || format!("finding the removed {i}"), fs.open_metadata(dir, &z))?;
                }
                new_nodes.extend(same);
            }
            // a file moved to and fro, or replaced again and again
            "moves" => {
                let fs = self.fs();
                go(k, || "mkdir".into(), fs.mkdir(dir, &y, st, 3))?;
                let d = go(k, || "finding".into(), fs.open_metadata(dir, &y))?.node;
                let mut at = z.clone();
                let g = go(k, || "creating".into(), fs.open(dir, &at, st, OpenFlags::CREATE, 5))?;
                go(k, || "writing".into(), fs.write(g, b"content"))?;
                let mut node = go(k, || "attributes".into(), fs.metadata(g))?.node;
                go(k, || "closing".into(), fs.close(g))?;
                for i in 0..n {
                    if rmode == 0 {
                        // another file takes its place
                        let t = format!("{y}/n");
                        let g = go(k, || "creating".into(), fs.open(dir, &t, st, OpenFlags::CREATE, 5))?;
                        go(k, || "writing".into(), fs.write(g, b"content"))?;
                        let other = go(k, || "attributes".into(), fs.metadata(g))?.node;
                        go(k, || "closing".into(), fs.close(g))?;
                        let g = go(k, || format!("replacing {i}"), fs.rename(dir, &t, dir, &at))?;
                        go(k, || "closing".into(), fs.close(g))?;
                        no(k, None, || format!("the replaced object {node}"), fs.metadata_from_node(node))?;
                        node = other;
                    } else {
                        let to = if i % 2 == 0 { format!("{y}/{}", i % 11) } else { z.clone() };
                        let g = go(k, || format!("moving {i}"), fs.rename(dir, &at, dir, &to))?;
                        is(k, || "object returned".into(), fs.metadata(g).map(|m| m.node).ok(), Some(node))?;
                        go(k, || "closing".into(), fs.close(g))?;
                        no(k, GONE, || format!("finding the moved {i}"), fs.open_metadata(dir, &at))?;
                        at = to;
                    }
                    let m = go(k, || format!("finding {i}"), fs.open_metadata(dir, &at))?;
                    is(k, || format!("(object, links, size) after move {i}"), (m.node, m.link_count, m.size), (node, 1, 7))?;
                }
                let inside = at.starts_with(&format!("{y}/")) as u64;
                is(k, || "size of the directory".into(), fs.metadata_from_node(d).map(|m| m.size).ok(), Some(inside))?;
                go(k, || "removing".into(), fs.remove_file(dir, &at))?;
                go(k, || "removing".into(), fs.remove_dir(dir, &y))?;
                new_nodes.extend([d, node]);
            }
            // many short appends
            "appends" => {
                let (pat, mut len) = (self.pat, 0u64);
                let fs = self.fs();
                let app = FdStat { flags: FdFlags::APPEND, ..st };
                let g = go(k, || "creating".into(), fs.open(dir, &z, app, OpenFlags::CREATE, 5))?;
                new_nodes.push(go(k, || "attributes".into(), fs.metadata(g))?.node);
                let mut all: Vec<u8> = vec![];
                for i in 0..n {
                    let mut b = vec![0u8; 1 + rng.below(40) as usize];
                    pat.fill(3, len, &mut b);
                    is(k, || format!("append {i}"), fs.write(g, &b).ok(), Some(b.len() as u64))?;
                    len += b.len() as u64;
                    is(k, || format!("cursor after append {i}"), fs.tell(g).ok(), Some(len))?;
                    all.extend(b);
                }
                is(k, || "size".into(), go(k, || "attributes".into(), fs.metadata(g))?.size, len)?;
                let h = go(k, || "opening".into(), fs.open(dir, &z, st, OpenFlags::empty(), 5))?;
                let mut back: Vec<u8> = vec![];
                loop {
                    let mut b = vec![0u8; 1 + rng.below(9000) as usize];
                    let r = go(k, || "reading".into(), fs.read(h, &mut b))? as usize;
                    if r == 0 {
                        break;
                    }
                    back.extend(&b[..r]);
                }
                if back != all {
                    let i = back.iter().zip(&all).position(|(a, b)| a != b).unwrap_or(back.len().min(all.len()));
                    return diff(format!("bulk:{k}"), format!("{} bytes read back, {} written, the first difference at {i}", back.len(), all.len()));
                }
                for fd in [h, g] {
                    go(k, || "closing".into(), fs.close(fd))?;
                }
                go(k, || "removing".into(), fs.remove_file(dir, &z))?;
            }
            // a descriptor that gets new numbers
            "renums" => {
                let first = self.next_fd().max(self.used_fds.iter().copied().filter(|f| *f < u32::MAX / 2).max().unwrap_or(0)) + 1000;
                let fs = self.fs();
                let mut g = go(k, || "creating".into(), fs.open(dir, &z, st, OpenFlags::CREATE, 5))?;
                new_nodes.push(go(k, || "attributes".into(), fs.metadata(g))?.node);
                go(k, || "seek".into(), fs.seek(g, 77, Whence::SET))?;
                for i in 0..n {
                    let to = match rmode {
                        0 => first + i as u32,
                        1 => first + (i % 3) as u32,
                        _ => first + rng.below(500) as u32,
                    };
                    go(k, || format!("renumber {i}"), fs.renumber(g, to))?;
                    is(k, || format!("cursor after renumbering {i}"), fs.tell(to).ok(), Some(77))?;
                    if to != g {
                        no(k, Some(Error::BadFileDescriptor), || format!("the old descriptor {g}"), fs.tell(g))?;
                    }
                    g = to;
                    if i % 7 == 2 {
                        // numbers for others
                        let a = go(k, || "opening".into(), fs.open(dir, &z, st, OpenFlags::empty(), 5))?;
                        let b = go(k, || "opening".into(), fs.open(dir, &z, st, OpenFlags::empty(), 5))?;
                        is(k, || format!("descriptors {a} {b} {g} different"), a != b && a != g && b != g, true)?;
                        go(k, || "closing".into(), fs.close(a))?;
                        go(k, || "closing".into(), fs.close(b))?;
                    }
                }
                no(k, BUSY, || "removing the open file".into(), fs.remove_file(dir, &z))?;
                go(k, || "closing".into(), fs.close(g))?;
                go(k, || "removing".into(), fs.remove_file(dir, &z))?;
            }
            // a file that grows and shrinks
            "sizes" => {
                let cs = self.fs().storage.chunk_size() as u64;
                let v1 = matches!(self.fs().storage.chunk_type(), ChunkType::V1);
                let pat = self.pat;
                let n = n.min(1300);
                let fs = self.fs();
                let g = go(k, || "creating".into(), fs.open(dir, &z, st, OpenFlags::CREATE, 5))?;
                new_nodes.push(go(k, || "attributes".into(), fs.metadata(g))?.node);
                let mut size = 0u64;
                // what it contains
                let mut set: std::collections::BTreeMap<u64, u8> = Default::default();
                for i in 0..n {
                    let top = (1 + rng.below(12)) * cs + rng.below(3) - 1;
                    match rng.below(4) {
                        0 => {
                            go(k, || "resizing".into(), fs.set_file_size(g, top))?;
                            size = top;
                        }
                        1 => {
                            let top = top / 3;
                            go(k, || "resizing".into(), fs.set_file_size(g, top))?;
                            size = top;
                        }
                        _ => {
                            let b = 1 + rng.below(255) as u8;
                            is(k, || "write".into(), put(fs, g, &[b], top), Ok(1))?;
                            set.insert(top, b);
                            size = size.max(top + 1);
                        }
                    }
                    set.split_off(&size);
                    is(k, || format!("size after {i}"), fs.metadata(g).map(|m| m.size).ok(), Some(size))?;
                    if i % 4 == 0 || i == n - 1 {
                        let mut b = vec![7u8; size as usize + 3];
                        is(k, || "read".into(), get(fs, g, &mut b, 0).ok(), Some(size))?;
                        let got: Vec<(u64, u8)> = b[..size as usize].iter().enumerate().filter(|x| *x.1 != 0).map(|x| (x.0 as u64, *x.1)).collect();
                        is(k, || format!("content after {i}"), got, set.iter().map(|x| (*x.0, *x.1)).collect())?;
                    }
                }
                // many chunks at once
                if rng.pct(6) {
                    let unit = if v1 { 4096 } else { cs };
                    let total = (rng.range(1000, 6000) * unit).min(24 << 20) + rng.below(3) - 1;
                    let mut all = vec![0u8; total as usize];
                    pat.fill(2, 0, &mut all);
                    is(k, || "big write".into(), put(fs, g, &all, 0), Ok(total))?;
                    let same = |fs: &mut FileSystem, want: &[u8], what: &str| -> Check {
                        let mut b = vec![7u8; want.len() + 3];
                        is(kind, || format!("read of {what}"), get(fs, g, &mut b, 0).ok(), Some(want.len() as u64))?;
                        let d = b.iter().zip(want).position(|(a, b)| a != b);
                        is(kind, || format!("first difference of {what}"), d, None)
                    };
                    let size = size.max(total);
                    let mut want = vec![0u8; size as usize];
                    want[..all.len()].copy_from_slice(&all);
                    for (x, b) in set.range(total..) {
                        want[*x as usize] = *b;
                    }
                    same(fs, &want, "the big file")?;
                    for i in 0..2 {
                        let cut = if i == 0 { rng.below(9) * unit / 2 } else { rng.below(size) };
                        go(k, || "resizing".into(), fs.set_file_size(g, cut))?;
                        go(k, || "resizing".into(), fs.set_file_size(g, size))?;
                        want[cut as usize..].fill(0);
                        same(fs, &want, &format!("the big file cut at {cut}"))?;
                        is(k, || "big write".into(), put(fs, g, &all[..total as usize / 2], 0), Ok(total / 2))?;
                        want[..total as usize / 2].copy_from_slice(&all[..total as usize / 2]);
                        same(fs, &want, "the big file")?;
                    }
                }
                go(k, || "closing".into(), fs.close(g))?;
                go(k, || "removing".into(), fs.remove_file(dir, &z))?;
            }
            // many memories mounted at a time, or a big one
            "mounts" => {
                let big = rng.pct(12);
                let n = if big { rng.range(1, 2) as usize } else { n.min(60) };
                let root = self.fs().root_fd();
                let fs = self.fs();
                let name = |i: usize| format!("{base}m{i}");
                struct M {
                    mem: VectorMemory,
                    node: u64,
                    size: u64,
                    host: Option<u8>,
                    at: u64,
                }
                let one = |b: u8, at: u64, size: u64, fs: &mut FileSystem, i: usize, what: &str| -> Check {
                    // the byte that was written last, and the bytes around it
                    let g = go(kind, || format!("opening {i} ({what})"), fs.open(root, &name(i), st, OpenFlags::empty(), 5))?;
                    is(kind, || format!("size of {i} ({what})"), fs.metadata(g).map(|m| m.size).ok(), Some(size))?;
                    let mut x = [9u8; 1];
                    is(kind, || format!("read of {i} at {at} ({what})"), get(fs, g, &mut x, at).ok(), Some(1))?;
                    is(kind, || format!("byte {at} of {i} ({what})"), x[0], b)?;
                    is(kind, || format!("read behind the end of {i} ({what})"), get(fs, g, &mut x, size).ok(), Some(0))?;
                    go(kind, || "closing".into(), fs.close(g))
                };
                let tag = |i: usize| 1 + (i % 251) as u8;
                let mut all: Vec<M> = vec![];
                for i in 0..n {
                    let pages = if big { rng.range(255, 290) } else { rng.range(0, 3) };
                    let mem = VectorMemory::default();
                    mem.grow(pages);
                    let host = if rng.pct(50) {
                        let g = go(k, || "creating".into(), fs.open(root, &name(i), st, OpenFlags::CREATE, 5))?;
                        is(k, || "write of the host".into(), fs.write(g, &[tag(i) ^ 0xFF; 5]).ok(), Some(5))?;
                        go(k, || "closing".into(), fs.close(g))?;
                        Some(tag(i) ^ 0xFF)
                    } else {
                        None
                    };
                    let size = if pages == 0 { 0 } else { pages * 65536 };
                    let pol = match rng.below(3) {
                        0 => MountedFileSizePolicy::MemoryPages,
                        1 if host.is_none() && pages > 0 => MountedFileSizePolicy::Explicit(size),
                        _ => MountedFileSizePolicy::PreviousOrMemoryPages,
                    };
                    go(k, || format!("mount {i}"), fs.mount_memory_file(&name(i), Box::new(mem.clone()), pol))?;
                    no(k, Some(Error::DeviceOrResourceBusy), || format!("mounting {i} again"), fs.mount_memory_file(&name(i), Box::new(VectorMemory::default()), MountedFileSizePolicy::MemoryPages))?;
                    let node = go(k, || "finding".into(), fs.open_metadata(root, &name(i)))?.node;
                    new_nodes.push(node);
                    is(k, || format!("size of mount {i}"), fs.open_metadata(root, &name(i)).map(|m| m.size).ok(), Some(size))?;
                    let at = if size == 0 || rng.pct(30) { size + rng.below(3) } else { size - 1 - rng.below(70_000.min(size)) };
                    let g = go(k, || "opening".into(), fs.open(root, &name(i), st, OpenFlags::empty(), 5))?;
                    is(k, || format!("write to mount {i}"), put(fs, g, &[tag(i)], at).ok(), Some(1))?;
                    go(k, || "closing".into(), fs.close(g))?;
                    all.push(M { mem, node, size: size.max(at + 1), host, at });
                }
                for (i, m) in all.iter().enumerate() {
                    one(tag(i), m.at, m.size, fs, i, "all mounted")?;
                    let mut b = [0u8];
                    m.mem.read(m.at, &mut b);
                    is(k, || format!("byte {} of memory {i}", m.at), b[0], tag(i))?;
                    no(k, BUSY, || format!("removing mount {i}"), fs.remove_file(root, &name(i)))?;
                    no(k, BUSY, || format!("moving mount {i}"), fs.rename(root, &name(i), root, &name(n + i)))?;
                }
                let mut left: Vec<usize> = (0..n).collect();
                for i in order(&mut rng, n) {
                    let m = &all[i];
                    let stored = rng.pct(50);
                    if stored {
                        go(k, || format!("storing {i}"), fs.store_memory_file(&name(i)))?;
                        one(tag(i), m.at, m.size, fs, i, "stored")?;
                    }
                    let back = go(k, || format!("unmount {i}"), fs.unmount_memory_file(&name(i)))?;
                    let mut b = [0u8];
                    back.read(m.at, &mut b);
                    is(k, || format!("byte {} of the memory {i} returned", m.at), b[0], tag(i))?;
                    left.retain(|x| *x != i);
                    // the others are still what they were
                    if let Some(j) = left.get(rng.below(left.len().max(1) as u64) as usize) {
                        one(tag(*j), all[*j].at, all[*j].size, fs, *j, "still mounted")?;
                    }
                    // and the host is what it was, or what was stored
                    if stored {
                        one(tag(i), m.at, m.size, fs, i, "host, stored")?;
                        if rng.pct(50) {
                            // and back, into a memory of its own
                            let mem = VectorMemory::default();
                            go(k, || format!("mount {i}"), fs.mount_memory_file(&name(i), Box::new(mem.clone()), MountedFileSizePolicy::PreviousOrZero))?;
                            go(k, || format!("initialising {i}"), fs.init_memory_file(&name(i)))?;
                            one(tag(i), m.at, m.size, fs, i, "initialised")?;
                            mem.read(m.at, &mut b);
                            is(k, || format!("byte {} of the initialised memory {i}", m.at), b[0], tag(i))?;
                            is(k, || format!("pages of the initialised memory {i}"), mem.size(), m.size.div_ceil(65536))?;
                            go(k, || format!("unmount {i}"), fs.unmount_memory_file(&name(i)))?;
                        }
                    } else {
                        match m.host {
                            Some(b) => one(b, 4, 5, fs, i, "host")?,
                            None => is(k, || format!("size of the host {i}"), fs.open_metadata(root, &name(i)).map(|m| m.size).ok(), Some(0))?,
                        }
                    }
                    no(k, Some(Error::NoSuchDevice), || format!("unmounting {i} again"), fs.unmount_memory_file(&name(i)).map(|_| ()))?;
                }
                for i in order(&mut rng, n) {
                    is(k, || format!("object {i}"), fs.open_metadata(root, &name(i)).map(|m| m.node).ok(), Some(all[i].node))?;
                    go(k, || format!("removing {i}"), fs.remove_file(root, &name(i)))?;
                }
            }
            o => panic!("unknown episode {o}"),
        }
        for x in new_nodes {
            if !self.seen.insert(x) {
                return diff(format!("bulk:{k}"), format!("the identity {x} was another object's"));
            }
        }
        Ok(())
    }
}
