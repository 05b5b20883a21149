//! The JSON form of specification steps and states.
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Clone, Debug, Deserialize, Serialize, Default)]
pub struct Op {
    pub o: String,
    #[serde(default, skip_serializing_if = "is0")]
    pub fd: usize,
    #[serde(default, skip_serializing_if = "is0")]
    pub fd2: usize,
    #[serde(default)]
    pub p: Vec<String>,
    #[serde(default)]
    pub p2: Vec<String>,
    #[serde(default)]
    pub fl: u64,
    #[serde(default)]
    pub st: u64,
    #[serde(default)]
    pub t: u64,
    #[serde(default)]
    pub to: usize,
    #[serde(default)]
    pub cls: String,
    #[serde(default)]
    pub m: Value,
    #[serde(default)]
    pub bs: Vec<usize>,
    #[serde(default)]
    pub v: i64,
    #[serde(default)]
    pub w: Value,
    #[serde(default)]
    pub bad: u64,
    #[serde(default)]
    pub pol: String,
    #[serde(default)]
    pub k: String,
    #[serde(default)]
    pub lim: i64,
}
fn is0(x: &usize) -> bool {
    *x == 0
}

#[derive(Clone, Debug, Deserialize, Serialize)]
pub struct Res {
    pub e: String,
    pub v: Vec<i64>,
}

#[derive(Clone, Debug, Deserialize, Serialize, PartialEq)]
pub struct Mm {
    pub sz: usize,
    pub lim: i64,
    pub tm: [u64; 3],
}

#[derive(Clone, Debug, Deserialize, Serialize, PartialEq)]
pub struct NodeRec {
    pub ty: String,
    pub lc: u64,
    pub sz: usize,
    pub lim: i64,
    pub dat: Vec<i64>,
    pub ents: Vec<(String, usize)>,
    pub tm: [u64; 3],
    pub mem: usize,
    pub mm: Vec<Mm>,
    #[serde(default)]
    pub ck: u64,
}

#[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Default)]
pub struct Conf {
    pub cs: usize,
    pub used: bool,
    pub ct: u64,
}

#[derive(Clone, Debug, Deserialize, Serialize, PartialEq)]
pub struct FdRec {
    pub k: String,
    pub n: usize,
    pub cur: usize,
    pub st: u64,
}

#[derive(Clone, Debug, Deserialize, Serialize, PartialEq)]
pub struct MemRec {
    pub c: Vec<i64>,
    pub pg: usize,
}

#[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Default)]
pub struct State {
    pub n: Vec<(usize, NodeRec)>,
    pub f: Vec<(usize, FdRec)>,
    pub m: Vec<MemRec>,
    #[serde(default)]
    pub cf: Conf,
}
impl State {
    pub fn node(&self, id: usize) -> Option<&NodeRec> {
        self.n.iter().find(|x| x.0 == id).map(|x| &x.1)
    }
    pub fn fd(&self, slot: usize) -> Option<&FdRec> {
        self.f.iter().find(|x| x.0 == slot).map(|x| &x.1)
    }
}

#[derive(Clone, Debug, Deserialize, Serialize)]
pub struct OpRes {
    pub op: Op,
    pub r: Res,
}

#[derive(Clone, Debug, Deserialize, Serialize)]
pub struct Line {
    #[serde(default)]
    pub l: usize,
    pub h: Vec<OpRes>,
    pub s: State,
}

#[derive(Clone, Debug, Deserialize, Serialize)]
pub struct Step {
    pub op: Op,
    pub r: Res,
    pub s: Option<State>,
}

pub fn path(p: &[String], name: &dyn Fn(&str) -> String) -> String {
    p.iter().map(|c| name(c)).collect::<Vec<_>>().join("/")
}
