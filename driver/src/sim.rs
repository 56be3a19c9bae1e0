//! Scenario encoding, outcome decoding and the fork-server worker that runs one simulated process per scenario.
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::process::CommandExt;
use std::path::PathBuf;

#[derive(Clone, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Bytes(pub Vec<u8>);
impl std::fmt::Debug for Bytes {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", String::from_utf8_lossy(&self.0))
    }
}
impl Serialize for Bytes {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match std::str::from_utf8(&self.0) {
            Ok(t) if !t.starts_with("hex:") => s.serialize_str(t),
            _ => {
                let mut t = String::from("hex:");
                for b in &self.0 {
                    t.push_str(&format!("{:02x}", b));
                }
                s.serialize_str(&t)
            }
        }
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = String::deserialize(d)?;
        if let Some(h) = t.strip_prefix("hex:") {
            let v = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
            return Ok(Bytes(v));
        }
        Ok(Bytes(t.into_bytes()))
    }
}
impl From<&str> for Bytes {
    fn from(s: &str) -> Self {
        Bytes(s.as_bytes().to_vec())
    }
}
impl From<Vec<u8>> for Bytes {
    fn from(s: Vec<u8>) -> Self {
        Bytes(s)
    }
}
impl From<String> for Bytes {
    fn from(s: String) -> Self {
        Bytes(s.into_bytes())
    }
}

pub const CLS: &[&str] = &[
    "openr", "openw", "read", "write", "close", "fsync", "rename", "unlink", "stat", "opendir", "readdir", "spawn", "wait", "pread",
    "pwrite", "chmod", "link", "mkdir", "getcwd", "readlink", "thread", "stdin", "stdout", "stderr", "sync", "time", "ftrunc", "misc",
    "pipe", "kill", "rand", "any", "mut",
];
pub fn cls(name: &str) -> u64 {
    CLS.iter().position(|c| *c == name).unwrap_or_else(|| panic!("class {name}")) as u64
}
pub const ACTS: &[&str] = &[
    "errno", "short", "kill", "power", "stall", "setfile", "delete", "chmod", "rename", "mkdir", "clock", "capacity", "nop",
];
fn act(name: &str) -> u64 {
    ACTS.iter().position(|c| *c == name).unwrap_or_else(|| panic!("act {name}")) as u64
}
pub const BGS: &[&str] = &["short_read", "short_write", "eintr_read", "eintr_write", "eintr_misc", "dt_unknown", "spurious_wakeup", "stall", "clock_jump"];
pub const BG_N: usize = 9;
pub const BG_SHORT_READ: usize = 0;
pub const BG_SHORT_WRITE: usize = 1;
pub const BG_EINTR_READ: usize = 2;
pub const BG_EINTR_WRITE: usize = 3;
pub const BG_EINTR_MISC: usize = 4;
pub const BG_DT_UNKNOWN: usize = 5;
pub const BG_SPURIOUS: usize = 6;
pub const BG_STALL: usize = 7;
pub const BG_CLOCK: usize = 8;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Copy)]
pub enum Kind {
    File,
    Dir,
    Link,
    Chr,
    Fifo,
}
impl Kind {
    fn n(self) -> u64 {
        match self {
            Kind::File => 0,
            Kind::Dir => 1,
            Kind::Link => 2,
            Kind::Chr => 3,
            Kind::Fifo => 4,
        }
    }
    fn of(n: u64) -> Kind {
        [Kind::File, Kind::Dir, Kind::Link, Kind::Chr, Kind::Fifo][n as usize]
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Nd {
    pub path: String,
    pub kind: Kind,
    pub mode: u32,
    #[serde(default)]
    pub uid: u32,
    /// a directory where another file system begins
    #[serde(default)]
    pub mount: bool,
    #[serde(default)]
    pub hard: Option<String>,
    #[serde(default)]
    pub data: Bytes,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Fault {
    pub cls: String,
    pub path: String,
    pub skip: u64,
    pub times: u64,
    pub act: String,
    pub arg: i64,
    #[serde(default)]
    pub p2: String,
    #[serde(default)]
    pub blob: Bytes,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    pub op: String,
    #[serde(default)]
    pub a: u64,
    #[serde(default)]
    pub b: u64,
    #[serde(default)]
    pub data: Bytes,
}
const STEPS: &[&str] = &[
    "", "readall", "readn", "closein", "closeout", "closeerr", "sleep", "out", "err", "outx", "streamx", "exit", "signal", "hang",
    "daemon", "outflood", "ignpipe", "unless",
];
pub fn step(op: &str, a: u64, b: u64) -> Step {
    Step { op: op.into(), a, b, data: Bytes::default() }
}
pub fn stepd(op: &str, a: u64, data: Vec<u8>) -> Step {
    Step { op: op.into(), a, b: 0, data: Bytes(data) }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Script {
    pub prog: String,
    pub spawn_errno: u64,
    pub steps: Vec<Step>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Watch {
    pub path: String,
    pub may_be_missing: bool,
    pub allowed: Vec<Bytes>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub seed: u64,
    pub rand_seed: u64,
    pub strategy: u64,
    pub p_op: u32,
    pub p_fine: u32,
    pub p_block: u32,
    pub npct: u64,
    pub pct_len: u64,
    pub fine: bool,
    pub replay: bool,
    pub replay_bg: bool,
    pub sched: Vec<(u64, u64)>,
    pub bgl: Vec<(u64, u64)>,
    pub max_ops: u64,
    pub max_fine: u64,
    pub mono0: u64,
    pub real0: u64,
    pub ncpu: u64,
    pub op_cost: u64,
    pub capacity: Option<u64>,
    pub pipe_cap: u64,
    pub uid: u64,
    pub argv: Vec<String>,
    pub env: Vec<String>,
    pub cwd: String,
    pub stdin: Bytes,
    pub out_limit: Option<u64>,
    pub out_errno: u64,
    pub err_limit: Option<u64>,
    pub err_errno: u64,
    pub bgp: [u32; BG_N],
    pub shuffle: bool,
    #[serde(skip)]
    pub trace_max: u64,
    pub nodes: Vec<Nd>,
    pub faults: Vec<Fault>,
    pub scripts: Vec<Script>,
    #[serde(default)]
    pub watches: Vec<Watch>,
    /// files an earlier, interrupted run of the history left behind: no part of the user's tree
    #[serde(skip)]
    pub aux: std::collections::BTreeSet<String>,
}
impl Default for Scenario {
    fn default() -> Self {
        Scenario {
            seed: 1,
            rand_seed: 1,
            strategy: 0,
            p_op: 0,
            p_fine: 0,
            p_block: 0,
            npct: 0,
            pct_len: 0,
            fine: false,
            replay: false,
            replay_bg: false,
            sched: vec![],
            bgl: vec![],
            max_ops: 2_000_000,
            max_fine: 400_000_000,
            mono0: 5_000_000_000_000,
            real0: 1_700_000_000_000_000_000,
            ncpu: 1,
            op_cost: 1000,
            capacity: None,
            pipe_cap: 65536,
            uid: 1000,
            argv: vec!["hongdown".into()],
            env: vec!["HOME=/home/u".into(), "PATH=/usr/bin:/bin".into()],
            cwd: "/w".into(),
            stdin: Bytes::default(),
            out_limit: None,
            out_errno: 0,
            err_limit: None,
            err_errno: 0,
            bgp: [0; BG_N],
            shuffle: false,
            trace_max: 0,
            nodes: vec![],
            faults: vec![],
            scripts: vec![],
            aux: Default::default(),
            watches: vec![],
        }
    }
}

struct Enc(Vec<u8>);
impl Enc {
    fn u(&mut self, v: u64) {
        self.0.extend_from_slice(&v.to_le_bytes());
    }
    fn b(&mut self, v: &[u8]) {
        self.u(v.len() as u64);
        self.0.extend_from_slice(v);
    }
    fn s(&mut self, v: &str) {
        self.b(&odd_out(v.as_bytes()));
    }
}
/// names that are not valid UTF-8: the driver writes ODD for the byte 0xff
pub const ODD: &str = "\u{f7ff}";
fn subst(v: &[u8], from: &[u8], to: &[u8]) -> Vec<u8> {
    let mut r = Vec::with_capacity(v.len());
    let mut i = 0;
    while i < v.len() {
        if v[i..].starts_with(from) {
            r.extend_from_slice(to);
            i += from.len();
        } else {
            r.push(v[i]);
            i += 1;
        }
    }
    r
}
fn odd_out(v: &[u8]) -> Vec<u8> {
    if v.contains(&0xef) {
        subst(v, ODD.as_bytes(), &[0xff])
    } else {
        v.to_vec()
    }
}
fn odd_in(v: &[u8]) -> Vec<u8> {
    if v.contains(&0xff) {
        subst(v, &[0xff], ODD.as_bytes())
    } else {
        v.to_vec()
    }
}
/// such a name is displayed with a replacement character
fn odd_shown(v: &[u8]) -> Vec<u8> {
    let mut r = subst(v, "\u{fffd}".as_bytes(), ODD.as_bytes());
    let n = r.len();
    if r.ends_with(&[0xef, 0xbf]) {
        r[n - 1] = 0x9f;
    }
    r
}
impl Scenario {
    pub fn odd(&self) -> bool {
        self.nodes.iter().any(|n| n.path.contains(ODD)) || self.argv.iter().any(|a| a.contains(ODD))
    }
    pub fn file(&mut self, path: &str, data: impl Into<Bytes>) -> &mut Self {
        self.nodes.push(Nd { path: path.into(), kind: Kind::File, mode: 0o644, uid: self.uid as u32, mount: false, hard: None, data: data.into() });
        self
    }
    pub fn dir(&mut self, path: &str) -> &mut Self {
        self.nodes.push(Nd { path: path.into(), kind: Kind::Dir, mode: 0o755, uid: self.uid as u32, mount: false, hard: None, data: Bytes::default() });
        self
    }
    pub fn link(&mut self, path: &str, target: &str) -> &mut Self {
        self.nodes.push(Nd { path: path.into(), kind: Kind::Link, mode: 0o777, uid: self.uid as u32, mount: false, hard: None, data: target.into() });
        self
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut e = Enc(Vec::with_capacity(4096));
        e.0.extend_from_slice(b"SIMHSCN1");
        for v in [self.seed, self.rand_seed, self.strategy, self.p_op as u64, self.p_fine as u64, self.p_block as u64, self.npct, self.pct_len, self.fine as u64, self.replay as u64, self.replay_bg as u64] {
            e.u(v);
        }
        e.u(self.sched.len() as u64);
        for (a, b) in &self.sched {
            e.u(*a);
            e.u(*b);
        }
        e.u(self.bgl.len() as u64);
        for (a, b) in &self.bgl {
            e.u(*a);
            e.u(*b);
        }
        for v in [self.max_ops, self.max_fine, self.mono0, self.real0, self.ncpu, self.op_cost, self.capacity.unwrap_or(u64::MAX), self.pipe_cap, self.uid] {
            e.u(v);
        }
        e.u(self.argv.len() as u64);
        for a in &self.argv {
            e.s(a);
        }
        e.u(self.env.len() as u64);
        for a in &self.env {
            e.s(a);
        }
        e.s(&self.cwd);
        e.b(&self.stdin.0);
        e.u(self.out_limit.unwrap_or(u64::MAX));
        e.u(self.out_errno);
        e.u(self.err_limit.unwrap_or(u64::MAX));
        e.u(self.err_errno);
        for p in self.bgp {
            e.u(p as u64);
        }
        e.u(self.shuffle as u64);
        e.u(self.trace_max);
        // hard links refer to an earlier node; if that one is gone the entry becomes a file of its own
        e.u(self.nodes.len() as u64 + 1);
        e.s("/dev/null");
        e.u(3);
        e.u(0o666);
        e.u(0);
        e.u(u64::MAX);
        e.b(b"");
        for (i, n) in self.nodes.iter().enumerate() {
            e.s(&n.path);
            e.u(n.kind.n());
            e.u(n.mode as u64 | (n.mount as u64) << 20);
            e.u(n.uid as u64);
            let h = n.hard.as_ref().and_then(|h| self.nodes[..i].iter().position(|m| &m.path == h));
            e.u(h.map(|h| h as u64 + 1).unwrap_or(u64::MAX));
            if n.kind == Kind::Link {
                e.b(&odd_out(&n.data.0));
            } else {
                e.b(&n.data.0);
            }
        }
        e.u(self.faults.len() as u64);
        for f in &self.faults {
            e.u(cls(&f.cls));
            e.s(&f.path);
            e.u(f.skip);
            e.u(f.times);
            e.u(act(&f.act));
            e.u(f.arg as u64);
            e.s(&f.p2);
            if f.act == "rename" {
                e.b(&odd_out(&f.blob.0));
            } else {
                e.b(&f.blob.0);
            }
        }
        e.u(self.scripts.len() as u64);
        for s in &self.scripts {
            e.s(&s.prog);
            e.u(s.spawn_errno);
            e.u(s.steps.len() as u64);
            for t in &s.steps {
                e.u(STEPS.iter().position(|x| *x == t.op).unwrap_or_else(|| panic!("step {}", t.op)) as u64);
                e.u(t.a);
                e.u(t.b);
                e.b(&t.data.0);
            }
        }
        e.u(self.watches.len() as u64);
        for w in &self.watches {
            e.s(&w.path);
            e.u(w.may_be_missing as u64);
            e.u(w.allowed.len() as u64);
            for a in &w.allowed {
                e.b(&a.0);
            }
        }
        e.0.extend_from_slice(b"SENDSCN1");
        e.0
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize)]
pub enum Verdict {
    Exit,
    Killed,
    Power,
    Hang,
    Steps,
    Abort,
    Harness,
    Signal,
    Wall,
}
#[derive(Clone, Debug, Default)]
pub struct ChildRec {
    pub prog: String,
    pub argv: Vec<String>,
    pub zombie: bool,
    pub reaped: bool,
    pub status: u64,
    pub killed: bool,
    pub eof: bool,
    pub t_spawn: u64,
    pub t_exit: u64,
    pub t_reap: u64,
    pub by_tid: u64,
    pub nostdin: bool,
    pub got: Vec<u8>,
    pub sent: Vec<u8>,
    pub senterr: Vec<u8>,
    pub cwd: String,
    pub env: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct Fired {
    pub fault: u64,
    pub op: u64,
    pub t: u64,
    pub path: String,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Mutation {
    pub kind: u64,
    pub op: u64,
    pub tid: u64,
    pub p1: String,
    pub p2: String,
    pub ino: u64,
    pub initial: bool,
    pub victim: u64,
    pub victim_initial: bool,
    pub by_actor: bool,
}
pub const MUT: &[&str] = &["create", "write", "truncate", "rename", "unlink", "link", "symlink", "mkdir", "rmdir", "chmod", "times"];
#[derive(Clone, Debug)]
pub struct FinalNode {
    pub path: String,
    pub kind: Kind,
    pub mode: u32,
    pub uid: u32,
    pub ino: u64,
    pub initial: bool,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct Outcome {
    pub verdict: Verdict,
    pub code: i64,
    pub harness: String,
    pub now: u64,
    pub ops: u64,
    pub fine: u64,
    pub decisions: u64,
    pub ileave: u64,
    pub switches: u64,
    pub fine_switches: u64,
    pub idle_jumps: u64,
    pub threads: u64,
    pub clscount: Vec<u64>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub watch_viol: String,
    pub children: Vec<ChildRec>,
    pub peak_children: u64,
    pub peak_fds: u64,
    pub peak_threads: u64,
    pub fired: Vec<Fired>,
    pub bg: Vec<(u64, u64)>,
    pub sched: Vec<(u64, u64)>,
    pub muts: Vec<Mutation>,
    pub fs: Vec<FinalNode>,
    pub trace: String,
    pub waiting: String,
}
impl Outcome {
    fn blank(v: Verdict, code: i64) -> Outcome {
        Outcome { verdict: v, code, harness: String::new(), now: 0, ops: 0, fine: 0, decisions: 0, ileave: 0, switches: 0, fine_switches: 0, idle_jumps: 0, threads: 0, clscount: vec![0; CLS.len()], out: vec![], err: vec![], watch_viol: String::new(), children: vec![], peak_children: 0, peak_fds: 0, peak_threads: 0, fired: vec![], bg: vec![], sched: vec![], muts: vec![], fs: vec![], trace: String::new(), waiting: String::new() }
    }
    pub fn node(&self, p: &str) -> Option<&FinalNode> {
        self.fs.iter().find(|n| n.path == p)
    }
    /// everything observable, for determinism checks
    pub fn digest(&self) -> u64 {
        let mut s = format!("{:?} {} {} {} {} {} {:?} {:?} {:?} {:?}", self.verdict, self.code, self.now, self.ops, self.ileave, self.decisions, self.muts, self.fired, self.bg, self.clscount).into_bytes();
        s.extend_from_slice(&self.out);
        s.extend_from_slice(&self.err);
        for c in &self.children {
            s.extend_from_slice(format!("{:?}", c).as_bytes());
        }
        for n in &self.fs {
            s.extend_from_slice(format!("{:?}", n).as_bytes());
        }
        crate::rng::hash_bytes(&s)
    }
}
struct Dec<'a>(&'a [u8], usize);
impl<'a> Dec<'a> {
    fn u(&mut self) -> Option<u64> {
        let s = self.0.get(self.1..self.1 + 8)?;
        self.1 += 8;
        Some(u64::from_le_bytes(s.try_into().unwrap()))
    }
    fn b(&mut self) -> Option<Vec<u8>> {
        let n = self.u()? as usize;
        let s = self.0.get(self.1..self.1.checked_add(n)?)?;
        self.1 += n;
        Some(s.to_vec())
    }
    fn s(&mut self) -> Option<String> {
        Some(String::from_utf8_lossy(&odd_in(&self.b()?)).into_owned())
    }
}
fn decode(d: &[u8]) -> Option<Outcome> {
    if d.len() < 16 || &d[..8] != b"HSIMOUT1" || &d[d.len() - 8..] != b"HSIMEND1" {
        return None;
    }
    let mut r = Dec(d, 8);
    let v = [Verdict::Exit, Verdict::Killed, Verdict::Power, Verdict::Hang, Verdict::Steps, Verdict::Abort, Verdict::Harness][r.u()? as usize];
    let mut o = Outcome::blank(v, 0);
    o.code = r.u()? as i64;
    o.harness = r.s()?;
    o.now = r.u()?;
    o.ops = r.u()?;
    o.fine = r.u()?;
    o.decisions = r.u()?;
    o.ileave = r.u()?;
    o.switches = r.u()?;
    o.fine_switches = r.u()?;
    o.idle_jumps = r.u()?;
    o.threads = r.u()?;
    for i in 0..CLS.len() {
        o.clscount[i] = r.u()?;
    }
    o.out = r.b()?;
    o.err = r.b()?;
    o.watch_viol = r.s()?;
    let n = r.u()?;
    o.peak_children = r.u()?;
    o.peak_fds = r.u()?;
    o.peak_threads = r.u()?;
    for _ in 0..n {
        let mut c = ChildRec { prog: r.s()?, ..Default::default() };
        for _ in 0..r.u()? {
            let a = r.s()?;
            c.argv.push(a);
        }
        c.zombie = r.u()? != 0;
        c.reaped = r.u()? != 0;
        c.status = r.u()?;
        c.killed = r.u()? != 0;
        c.eof = r.u()? != 0;
        c.t_spawn = r.u()?;
        c.t_exit = r.u()?;
        c.t_reap = r.u()?;
        c.by_tid = r.u()?;
        c.nostdin = r.u()? != 0;
        c.got = r.b()?;
        c.sent = r.b()?;
        c.senterr = r.b()?;
        c.cwd = r.s()?;
        c.env = r.b()?;
        o.children.push(c);
    }
    for _ in 0..r.u()? {
        o.fired.push(Fired { fault: r.u()?, op: r.u()?, t: r.u()?, path: r.s()? });
    }
    for _ in 0..r.u()? {
        o.bg.push((r.u()?, r.u()?));
        r.u()?;
    }
    for _ in 0..r.u()? {
        o.sched.push((r.u()?, r.u()?));
    }
    for _ in 0..r.u()? {
        o.muts.push(Mutation { kind: r.u()?, op: r.u()?, tid: r.u()?, p1: r.s()?, p2: r.s()?, ino: r.u()?, initial: r.u()? != 0, victim: r.u()?, victim_initial: r.u()? != 0, by_actor: r.u()? != 0 });
    }
    for _ in 0..r.u()? {
        o.fs.push(FinalNode { path: r.s()?, kind: Kind::of(r.u()?), mode: r.u()? as u32, uid: r.u()? as u32, ino: r.u()?, initial: r.u()? != 0, data: r.b()? });
    }
    for n in o.fs.iter_mut().filter(|n| n.kind == Kind::Link) {
        n.data = odd_in(&n.data);
    }
    o.trace = r.s()?;
    o.waiting = r.s()?;
    Some(o)
}

extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn personality(p: u64) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn poll(f: *mut PollFd, n: u64, t: i32) -> i32;
}
#[repr(C)]
struct PollFd {
    fd: i32,
    ev: i16,
    rev: i16,
}

pub struct Worker {
    dir: PathBuf,
    child: std::process::Child,
    ctl: std::io::PipeWriter,
    st: std::io::PipeReader,
    build: PathBuf,
    pub runs: u64,
}
fn scratch_root() -> PathBuf {
    let shm = PathBuf::from("/dev/shm");
    let probe = shm.join(format!("hsim-probe-{}", std::process::id()));
    if std::fs::write(&probe, b"x").is_ok() {
        let _ = std::fs::remove_file(&probe);
        return shm;
    }
    std::env::temp_dir()
}
impl Worker {
    pub fn new(build: &PathBuf, n: usize) -> Worker {
        let dir = scratch_root().join(format!("hsim-{}-{}", std::process::id(), n));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).expect("scratch directory");
        std::fs::write(dir.join("cov"), vec![0u8; 1 << 20]).expect("coverage file");
        let (child, ctl, st) = Self::start(build, &dir);
        Worker { dir, child, ctl, st, build: build.clone(), runs: 0 }
    }
    fn start(build: &PathBuf, dir: &PathBuf) -> (std::process::Child, std::io::PipeWriter, std::io::PipeReader) {
        let (cr, cw) = std::io::pipe().expect("pipe");
        let (sr, sw) = std::io::pipe().expect("pipe");
        let (a, b) = (cr.as_raw_fd(), sw.as_raw_fd());
        let mut c = std::process::Command::new(build.join("hongdown"));
        c.env_clear().env("LD_PRELOAD", build.join("libsim.so")).env("HSIM_DIR", dir).env("LD_BIND_NOW", "1");
        c.current_dir("/").stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null());
        if std::env::var_os("HSIM_DEBUG").is_none() {
            c.stderr(std::process::Stdio::null());
        }
        unsafe {
            c.pre_exec(move || {
                personality(0x0040000); // no address space randomisation
                prctl(1, 9, 0, 0, 0); // die with the driver
                if dup2(a, 198) < 0 || dup2(b, 199) < 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
        let ch = c.spawn().expect("cannot start the system under test");
        (ch, cw, sr)
    }
    fn restart(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let (c, w, r) = Self::start(&self.build.clone(), &self.dir.clone());
        self.child = c;
        self.ctl = w;
        self.st = r;
    }
    pub fn run(&mut self, sc: &Scenario) -> Outcome {
        for attempt in 0..3 {
            if let Some(o) = self.try_run(sc) {
                self.runs += 1;
                // a run that exceeded the real-time limit (machine overloaded?) is tried again
                if o.verdict == Verdict::Wall && attempt < 1 {
                    continue;
                }
                return o;
            }
            self.restart();
        }
        let mut o = Outcome::blank(Verdict::Harness, 0);
        o.harness = "fork server does not answer".into();
        o
    }
    fn try_run(&mut self, sc: &Scenario) -> Option<Outcome> {
        let out = self.dir.join("out");
        let _ = std::fs::remove_file(&out);
        std::fs::write(self.dir.join("scn"), sc.encode()).ok()?;
        self.ctl.write_all(b"r").ok()?;
        let mut b = [0u8; 4];
        self.st.read_exact(&mut b).ok()?;
        let pid = i32::from_le_bytes(b);
        let mut wall = false;
        let mut p = PollFd { fd: self.st.as_raw_fd(), ev: 1, rev: 0 };
        if unsafe { poll(&mut p, 1, 90_000) } == 0 {
            wall = true;
            unsafe { kill(pid, 9) };
        }
        self.st.read_exact(&mut b).ok()?;
        let st = i32::from_le_bytes(b);
        if wall {
            return Some(Outcome::blank(Verdict::Wall, 0));
        }
        if let Ok(d) = std::fs::read(&out) {
            if let Some(mut o) = decode(&d) {
                if sc.odd() {
                    o.out = odd_shown(&o.out);
                    o.err = odd_shown(&o.err);
                }
                return Some(o);
            }
        }
        if st & 127 != 0 {
            return Some(Outcome::blank(Verdict::Signal, (st & 127) as i64));
        }
        let mut o = Outcome::blank(Verdict::Harness, (st >> 8) as i64);
        o.harness = format!("run left no outcome (wait status {st:#x})");
        Some(o)
    }
    pub fn coverage(&self) -> Vec<u8> {
        std::fs::read(self.dir.join("cov")).unwrap_or_default()
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
