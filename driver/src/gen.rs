//! Case generators: one family per kind of workload.  Everything derives from one seed.
use crate::case::*;
use crate::docs::*;
use crate::rng::Rng;
use crate::sim::*;

pub const FAMILIES: &[&str] = &["par", "crash", "hist", "fmt", "stream", "diff", "cfg", "walk", "incl", "many"];
const EIO: i64 = 5;
const EACCES: i64 = 13;
const ENOSPC: i64 = 28;
const P32: f64 = 4294967296.0;
pub const SEC: u64 = 1_000_000_000;

fn s(x: &str) -> String {
    x.to_string()
}
/// schedule, environment and buggify knobs
pub fn knobs(r: &mut Rng, sc: &mut Scenario, fine_pct: u64) {
    sc.seed = r.next();
    sc.rand_seed = r.next();
    sc.ncpu = *r.pick(&[1, 2, 2, 3, 4, 4, 6, 8]);
    match r.below(10) {
        0 => sc.strategy = 0,
        1..=6 => {
            sc.strategy = 1;
            sc.p_op = (*r.pick(&[0.003, 0.02, 0.1, 0.3, 0.7]) * P32) as u32;
            sc.p_block = (*r.pick(&[0.0, 0.3, 0.9]) * P32) as u32;
        }
        _ => {
            sc.strategy = 2;
            sc.npct = r.range(1, 8);
            sc.pct_len = *r.pick(&[200, 800, 3000, 12000]);
        }
    }
    if r.chance(fine_pct) {
        sc.fine = true;
        sc.strategy = 1;
        sc.p_op = (*r.pick(&[0.02, 0.2]) * P32) as u32;
        sc.p_fine = (*r.pick(&[0.00002, 0.0002, 0.002]) * P32) as u32;
    }
    sc.shuffle = r.chance(75);
    for k in 0..BG_N {
        if r.chance(20) {
            sc.bgp[k] = (*r.pick(&[0.01, 0.08, 0.4]) * P32) as u32;
        }
    }
    if sc.bgp[BG_STALL] > (0.05 * P32) as u32 {
        sc.bgp[BG_STALL] = (0.05 * P32) as u32;
    }
    // an interrupted call is retried; a stream that is always interrupted would never end
    for k in [BG_EINTR_READ, BG_EINTR_WRITE, BG_EINTR_MISC] {
        sc.bgp[k] = sc.bgp[k].min((0.3 * P32) as u32);
    }
}
/// ... at accesses to memory that threads share
fn shared(g: &mut G) {
    g.c.sc.strategy = 3;
    g.c.sc.npct = *g.r.pick(&[1, 3, 6, 12]);
    g.c.sc.p_fine = (if g.c.sc.npct == 1 { *g.r.pick(&[0.005, 0.03, 0.15]) } else { *g.r.pick(&[0.05, 0.3]) } * P32) as u32;
}
/// switch threads between the instructions of hongdown itself
fn fine(g: &mut G) {
    g.c.sc.fine = true;
    g.c.sc.p_op = (*g.r.pick(&[0.02, 0.2]) * P32) as u32;
    if g.r.chance(50) {
        g.c.sc.strategy = 1;
        g.c.sc.p_fine = (*g.r.pick(&[0.00002, 0.0002, 0.002]) * P32) as u32;
    } else {
        shared(g);
    }
}
fn fault(cls: &str, path: &str, skip: u64, act: &str, arg: i64) -> Fault {
    Fault { cls: cls.into(), path: path.into(), skip, times: 1, act: act.into(), arg, p2: String::new(), blob: Bytes::default() }
}
const NAMES: &[&str] = &["a.md", "b.md", "README.md", "notes.markdown", "Zed.MD", "two words.md", "ünï.md", "x.y.md", "c-d_e.md", "k.Markdown", "m1.md", "m2.md", "m3.md", "m4.md", "m5.md", "m6.md", "od\u{f7ff}d.md"];
fn tag(i: usize) -> String {
    const C: &[u8] = b"abcdefghijklmnopqrstuvwxyz";
    format!("doc{}{}", C[i / 26 % 26] as char, C[i % 26] as char)
}
struct G<'a, 'b> {
    cx: &'a mut Cx<'b>,
    r: Rng,
    c: Case,
    ndoc: usize,
    /// very many documents, most of them short
    short: bool,
}
impl G<'_, '_> {
    fn doc_opts(&mut self) -> DocOpts {
        let mut o = DocOpts::new(&tag(self.ndoc));
        self.ndoc += 1;
        o.paras = *self.r.pick(&[1, 3, 6, 12]);
        o.big = self.r.chance(6);
        match self.r.below(40_000) {
            0 => o.pad = 1_100_000,
            1..=120 => o.pad = *self.r.pick(&[9_000, 17_000, 33_000, 70_000, 140_000]),
            _ => {}
        }
        if self.r.chance(25) {
            o.codes = self.r.range(1, 2);
        }
        o
    }
    /// a new document with content of some kind
    fn doc(&mut self, cfg: &Cfg) -> Doc {
        let o = self.doc_opts();
        if self.short && self.r.chance(92) {
            let t = match self.r.below(8) {
                0 => format!("Nothing to do for {}.\n", o.tag),
                1 => format!("*  {} and [nothing {}]\n", o.tag, o.tag),
                _ => format!("*  {}\n", o.tag),
            };
            return Doc::raw(t.into_bytes());
        }
        let d = gen_doc(&mut self.r, &o);
        match self.r.below(20) {
            0 => Doc::raw(vec![]),
            1 => Doc::raw(b"\n\n".to_vec()),
            2 => {
                // no final line end
                let mut b = d.plain();
                while b.last() == Some(&b'\n') {
                    b.pop();
                }
                Doc::raw(b)
            }
            8 => {
                // few different lines, repeated
                let k = self.r.range(2, 5);
                let n = self.r.range(4, 40);
                let w = &["* item", "", "text", "    * nested", "> quote", "1. one", "## Head", "  text  "];
                let from = self.r.us(w.len());
                let mut b = vec![];
                for _ in 0..n {
                    let i = (from + self.r.us(k as usize)) % w.len();
                    b.extend_from_slice(w[i].as_bytes());
                    b.push(b'\n');
                    if self.r.chance(30) {
                        b.push(b'\n');
                    }
                }
                Doc::raw(b)
            }
            9 => {
                // the line ends of other systems, here and there or everywhere
                let pct = *self.r.pick(&[10, 60, 100]);
                let e = *self.r.pick(&["\r\n", "\r\n", "\r"]);
                let mut b = vec![];
                for c in d.plain() {
                    if c == b'\n' && self.r.chance(pct) {
                        b.extend_from_slice(e.as_bytes());
                    } else {
                        b.push(c);
                    }
                }
                Doc::raw(b)
            }
            10 => {
                // stays as it is, with or without a line end at its end
                let mut b = b"<!-- hongdown-disable-file -->\n\n".to_vec();
                b.extend_from_slice(&d.plain());
                if self.r.chance(70) {
                    while b.last() == Some(&b'\n') {
                        b.pop();
                    }
                }
                Doc::raw(b)
            }
            3..=7 => match self.cx.base(&d.plain(), cfg) {
                Ok(b) => Doc::raw(b.out.clone()),
                Err(_) => d,
            },
            _ => d,
        }
    }
    fn put(&mut self, path: &str, d: Doc) {
        self.c.sc.file(path, d.plain());
        self.c.docs.insert(path.into(), d);
    }
    fn mount(&mut self, path: &str) {
        if let Some(n) = self.c.sc.nodes.iter_mut().find(|n| n.path == path) {
            n.mount = true;
        }
    }
    fn mode(&mut self, path: &str, mode: u32) {
        if let Some(n) = self.c.sc.nodes.iter_mut().find(|n| n.path == path) {
            n.mode = mode;
        }
    }
    fn config(&mut self, path: &str, c: Cfg) {
        self.c.sc.file(path, c.render());
        self.c.cfgs.insert(path.into(), CfgState::Ok(c));
    }
    /// project configuration of a run without special interest in configuration
    fn some_config(&mut self, pct: u64) -> Cfg {
        if self.r.chance(55) {
            let c = gen_cfg(&mut self.r, pct);
            self.config("/w/.hongdown.toml", c.clone());
            c
        } else {
            Cfg::default()
        }
    }
    fn argv(&mut self, a: &[&str]) {
        self.c.sc.argv = std::iter::once("hongdown").chain(a.iter().copied()).map(s).collect();
    }
    fn display(&mut self, abs: &str) -> String {
        let rel = abs.strip_prefix("/w/").unwrap_or(abs).to_string();
        match self.r.below(8) {
            0 => abs.to_string(),
            1 => format!("./{rel}"),
            2 => format!("../w/{rel}"),
            _ => rel,
        }
    }
}
fn wm(r: &mut Rng) -> &'static str {
    if r.chance(65) {
        *r.pick(&["--write", "-w"])
    } else {
        *r.pick(&["--check", "-c"])
    }
}

/// a set of files, some of them bad, and the arguments that select them
fn files(g: &mut G, cfg: &Cfg, n: usize, bad_pct: u64, dirs: bool, clean_pct: u64) -> (Vec<String>, Vec<String>) {
    let mut names: Vec<String> = vec![];
    let mut pool: Vec<&str> = NAMES.to_vec();
    g.r.shuffle(&mut pool);
    for i in 0..n {
        names.push(if i < pool.len() { s(pool[i]) } else { format!("f{i}.md") });
    }
    let use_dir = dirs && g.r.chance(35);
    if !use_dir {
        // a file that is asked for by name may be called anything
        for (i, n) in names.iter_mut().enumerate() {
            if g.r.chance(8) {
                *n = match g.r.below(10) {
                    0 => format!("LICENSE{i}"),
                    1 => format!("notes{i}.txt"),
                    2 => format!("{}{i:03}.md", "n".repeat(249)),
                    3 => format!(" lead{i}.md "),
                    4 => format!("$HOME{i} `x`.md"),
                    5 => format!("q\"u'o{i}.md"),
                    6 => format!("%s{{}}{i}.md"),
                    7 => format!("*[a]{i}?.md"),
                    8 => format!(".rc{i}"),
                    _ => format!("a{i}.md.bak"),
                };
            }
        }
    }
    let mut args: Vec<String> = vec![];
    let mut paths = vec![];
    if use_dir {
        let d = g.r.pick(&["docs", ".", "docs/", "/w/docs", "./docs"]).to_string();
        args.push(d.clone());
        if g.r.chance(30) {
            g.put("/w/docs/skip.txt", Doc::raw(b"* not\n* markdown\n".to_vec()));
        }
        let root = "/w/docs";
        g.c.sc.dir(root);
        for n in &names {
            let sub = *g.r.pick(&["", "", "", "sub/", "sub/deeper/", ".hidden/"]);
            paths.push(format!("{root}/{sub}{n}"));
        }
    } else {
        for n in &names {
            let sub = *g.r.pick(&["", "", "", "sub/", "a b/"]);
            paths.push(format!("/w/{sub}{n}"));
        }
    }
    // documents that are formatted already, all or all but one
    let clean = g.r.chance(clean_pct);
    let odd = if g.r.chance(80) { g.r.us(paths.len()) } else { usize::MAX };
    for (i, p) in paths.iter().enumerate() {
        let d = if clean && i != odd {
            Doc::raw(g.r.pick(&["Nothing to do.\n", "One.\n\nTwo *three*.\n", "`a` b\n", "> Quoted.\n"]).as_bytes().to_vec())
        } else {
            g.doc(cfg)
        };
        let missing = !use_dir;
        if g.r.chance(bad_pct) {
            match g.r.below(if missing { 6 } else { 5 }) {
                0 if g.r.chance(35) => {
                    let b = deep_doc(&mut g.r);
                    g.put(p, Doc::raw(b));
                }
                0 => {
                    let mut b = d.plain();
                    let at = g.r.us(b.len() + 1);
                    b.insert(at, *[0xffu8, 0xc0, 0x80].get(g.r.us(3)).unwrap());
                    g.put(p, Doc::raw(b));
                }
                1 | 2 => {
                    g.put(p, d);
                    g.mode(p, 0o200);
                }
                3 | 4 => {
                    g.put(p, d);
                    let m = *g.r.pick(&[0o444u32, 0o400]);
                    g.mode(p, m);
                }
                _ => {}
            }
        } else {
            g.put(p, d);
            if g.r.chance(20) {
                let m = *g.r.pick(&[0o600u32, 0o640, 0o755, 0o664]);
                g.mode(p, m);
            }
        }
        if !use_dir {
            let a = g.display(p);
            args.push(a);
        }
    }
    if !use_dir && g.r.chance(5) {
        let a = g.r.pick(&args).clone();
        args.push(a);
    }
    (paths, args)
}
/// a document that exhausts the stack of a careless formatter
fn deep_doc(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[120usize, 700, 4000, 12000, 12000]);
    let u = *r.pick(&crate::case::DEEP);
    let mut t = String::from("A *deep* one.\n\n");
    if r.chance(20) {
        for i in 0..n.min(700) {
            t += &format!("{}- x\n", "  ".repeat(i));
        }
    } else {
        t += &format!("{}x", u.repeat(n));
        if u.contains('*') {
            let e = if u.contains("**") { "** c*" } else { "y* x_" };
            t += &e.repeat(n);
        }
        t.push('\n');
    }
    t.into_bytes()
}
fn io_faults(g: &mut G, paths: &[String], max: u64, write: bool) {
    let n = g.r.below(max + 1);
    for _ in 0..n {
        let cls = if write { *g.r.pick(&["openr", "openw", "read", "write", "fsync", "rename", "stat", "chmod", "unlink", "mut", "mut", "read"]) } else { *g.r.pick(&["openr", "read", "stat", "read"]) };
        let path = if g.r.chance(70) { g.r.pick(paths).clone() } else { String::new() };
        let e = *g.r.pick(&[EIO, EACCES, ENOSPC, EIO, 12, 24, 23, 30, 122]);
        let skip = if path.is_empty() { g.r.below(12) } else { g.r.below(3) };
        // without a path the call may concern anything; keep to classes that are only used on documents
        if path.is_empty() && !matches!(cls, "openw" | "write" | "fsync" | "rename" | "mut" | "chmod") {
            continue;
        }
        let mut f = fault(cls, &path, skip, "errno", e);
        f.times = *g.r.pick(&[1, 1, 1, 2, 100]);
        g.c.sc.faults.push(f);
    }
    if g.r.chance(15) {
        let p = g.r.pick(paths).clone();
        let k = g.r.below(3);
        let a = g.r.range(1, 40) as i64 * 1_000_000;
        g.c.sc.faults.push(fault(*[ "read", "openr", "any"].get(g.r.us(3)).unwrap(), &p, k, "stall", a));
    }
}
fn actor(g: &mut G, paths: &[String]) {
    let victim = g.r.pick(paths).clone();
    let at = g.r.pick(paths).clone();
    let (cls, skip) = *g.r.pick(&[("any", 0), ("any", 1), ("any", 2), ("any", 3), ("any", 4), ("mut", 0), ("mut", 1), ("mut", 2)]);
    let mut f = fault(cls, &at, skip, "", 0);
    f.p2 = victim.clone();
    match g.r.below(5) {
        0 | 1 => {
            f.act = s("setfile");
            let o = g.doc_opts();
            f.blob = Bytes(gen_doc(&mut g.r, &o).plain());
        }
        2 => f.act = s("delete"),
        3 => {
            f.act = s("rename");
            f.blob = Bytes(format!("{victim}.moved").into_bytes());
        }
        _ => {
            f.act = s("chmod");
            f.arg = 0o000;
        }
    }
    g.c.sc.faults.push(f);
}
fn std_limits(g: &mut G, pct: u64) {
    if g.r.chance(pct) {
        let lim = if g.r.chance(30) { 0 } else { g.r.below(400) };
        let e = *g.r.pick(&[32u64, 28, 5]);
        if g.r.chance(70) {
            g.c.sc.out_limit = Some(lim);
            g.c.sc.out_errno = e;
        } else {
            g.c.sc.err_limit = Some(lim / 2);
            g.c.sc.err_errno = e;
        }
    }
}

fn par(g: &mut G) {
    knobs(&mut g.r, &mut g.c.sc, 0);
    let cfg = g.some_config(30);
    let n = match g.r.below(60) {
        0 => {
            g.short = true;
            *g.r.pick(&[33, 65, 110, 150, 190])
        }
        1..=6 => g.r.range(10, 24),
        7..=12 => 1,
        _ => g.r.range(2, 7),
    } as usize;
    if g.r.chance(1) {
        // so many failures that a byte cannot count them
        let n = *g.r.pick(&[256usize, 256, 512, 255, 257]);
        let m = *g.r.pick(&["--write", "--check"]);
        let missing = m == "--write" || g.r.chance(50);
        let mut v = vec![s(m)];
        for i in 0..n {
            let p = format!("/w/f{i}.md");
            if !missing {
                g.put(&p, Doc::raw(b"*  many\n".to_vec()));
            }
            v.push(g.display(&p));
        }
        let v: Vec<&str> = v.iter().map(|x| x.as_str()).collect();
        g.argv(&v);
        return;
    }
    // undisturbed, with few short documents, but switching at the very instructions that use shared memory
    let race = !g.short && g.r.chance(35);
    let n = if race { g.r.range(2, 5) as usize } else { n };
    let disturb = if race { 9 } else { g.r.below(10) };
    let bad = if race { *g.r.pick(&[0, 0, 20]) } else { *g.r.pick(&[0, 0, 12, 25, 60]) };
    let (paths, args) = files(g, &cfg, n, bad, true, if race { 65 } else { 15 });
    let m = if race && g.r.chance(50) { "--check" } else { wm(&mut g.r) };
    let write = m.contains('w');
    if disturb < 4 {
        io_faults(g, &paths, 3, write);
    } else if disturb == 4 {
        actor(g, &paths);
    } else if disturb == 5 {
        std_limits(g, 100);
    } else if disturb == 6 && write {
        g.c.sc.capacity = Some(0);
        g.c.sc.faults.push(fault("any", "", 0, "capacity", *[0i64, 100, 1000, 5000].get(g.r.us(4)).unwrap()));
        g.c.sc.capacity = None;
    }
    if race {
        fine(g);
        shared(g);
        g.c.sc.ncpu = g.r.range(2, 4);
    } else if n <= 6 && g.r.chance(12) {
        fine(g);
    }
    // links to selected files must not confuse anybody
    if write && g.r.chance(12) {
        let t = g.r.pick(&paths).clone();
        if g.c.docs.contains_key(&t) {
            g.c.sc.link("/w/link.md", &t);
            let mut a = args.clone();
            if g.r.chance(50) {
                a.push(s("link.md"));
            }
            let mut v: Vec<&str> = vec![m];
            v.extend(a.iter().map(|x| x.as_str()));
            g.argv(&v);
            return;
        }
    }
    let mut v: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let at = g.r.us(v.len() + 1);
    v.insert(at, m);
    if g.r.chance(10) {
        v.extend(["--line-width", "47"]);
    }
    g.argv(&v);
}

fn crash(g: &mut G) {
    knobs(&mut g.r, &mut g.c.sc, 0);
    let cfg = g.some_config(20);
    if g.r.chance(50) {
        // somewhere to put temporary files, but on another file system
        g.c.sc.dir("/tmp");
        g.mode("/tmp", 0o777);
        g.mount("/tmp");
    }
    let n = *g.r.pick(&[1, 1, 1, 2, 3, 5]);
    let sub = *g.r.pick(&["/w", "/w", "/w/sub", "/w/a b"]);
    let mut paths = vec![];
    let mut args: Vec<String> = vec![s("--write")];
    for i in 0..n {
        let p = format!("{sub}/{}", NAMES[i]);
        let mut o = g.doc_opts();
        o.big = g.r.chance(25);
        if o.pad == 0 && g.r.chance(4) {
            o.pad = *g.r.pick(&[5_000, 9_000, 33_000, 70_000, 140_000, 270_000]);
        }
        let d = gen_doc(&mut g.r, &o);
        g.put(&p, d);
        let m = *g.r.pick(&[0o644u32, 0o644, 0o600, 0o664, 0o755, 0o640, 0o444, 0o666]);
        g.mode(&p, m);
        let mut a = g.display(&p);
        match g.r.below(10) {
            0 => {
                // through a symbolic link, relative or absolute, into another directory
                let l = format!("/w/links/l{i}.md");
                let t = if g.r.chance(50) { p.clone() } else { format!("..{}", &p[2..]) };
                g.c.sc.link(&l, &t);
                a = format!("links/l{i}.md");
                if g.r.chance(40) {
                    g.c.sc.link(&format!("/w/links/ll{i}.md"), &format!("l{i}.md"));
                    a = format!("links/ll{i}.md");
                }
            }
            1 => {
                let h = format!("/w/hard{i}.md");
                g.c.sc.nodes.push(Nd { path: h.clone(), kind: Kind::File, mode: m, uid: g.c.sc.uid as u32, mount: false, hard: Some(p.clone()), data: Bytes::default() });
            }
            _ => {}
        }
        args.push(a);
        paths.push(p);
    }
    if g.r.chance(8) {
        // a directory nobody may write to
        g.c.sc.dir(sub);
        if sub != "/w" {
            g.mode(sub, 0o555);
        }
    }
    let _ = cfg;
    let kind = g.r.below(12);
    match kind {
        0..=3 => {
            let (cls, k) = if g.r.chance(70) { ("mut", g.r.below(n as u64 * 7 + 1)) } else { ("any", g.r.below(120)) };
            let arg = if g.r.chance(40) { g.r.below(5000) as i64 } else { 0 };
            g.c.sc.faults.push(fault(cls, "", k, "kill", arg));
        }
        4..=6 => {
            let (cls, k) = if g.r.chance(70) { ("mut", g.r.below(n as u64 * 7 + 1)) } else { ("any", g.r.below(120)) };
            let arg = (g.r.next() >> 2) as i64;
            g.c.sc.faults.push(fault(cls, "", k, "power", arg));
            if g.r.chance(35) {
                // what could not be brought to disk before is not there afterwards
                let mut f = fault(*g.r.pick(&["fsync", "fsync", "mut"]), "", g.r.below(n as u64 + 1), "errno", *g.r.pick(&[EIO, ENOSPC, 122]));
                f.times = *g.r.pick(&[1, 1, 2, 50]);
                g.c.sc.faults.push(f);
            }
        }
        7..=9 => {
            let cls = *g.r.pick(&["mut", "mut", "write", "openw", "fsync", "rename", "chmod", "ftrunc", "unlink"]);
            let k = g.r.below(n as u64 * 5);
            let mut f = fault(cls, "", k, "errno", *g.r.pick(&[ENOSPC, EIO, EACCES, 30, 122, 27]));
            f.times = *g.r.pick(&[1, 1, 2, 50]);
            g.c.sc.faults.push(f);
        }
        10 => {
            g.c.sc.faults.push(fault(*["any", "mut"].get(g.r.us(2)).unwrap(), "", 0, "capacity", *[0i64, 50, 700, 4096].get(g.r.us(4)).unwrap()));
        }
        _ => {}
    }
    if g.r.chance(30) {
        g.c.sc.bgp[BG_SHORT_WRITE] = (0.5 * P32) as u32;
    }
    let v: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    g.argv(&v);
}

/// content whose formatted form is stable, so that histories of runs have one fixed point
fn stable_doc(g: &mut G, cfg: &Cfg) -> Doc {
    for _ in 0..6 {
        let d = g.doc(cfg);
        if let Ok(b) = g.cx.base(&d.plain(), cfg) {
            if let Ok(b2) = g.cx.base(&b.out.clone(), cfg) {
                if b2.out == b.out {
                    return d;
                }
            }
        }
    }
    Doc::raw(b"*  one\n*  two\n".to_vec())
}
fn hist(g: &mut G) {
    knobs(&mut g.r, &mut g.c.sc, 0);
    let mut cfg = gen_cfg(&mut g.r, 20);
    let how = g.r.below(3);
    if how == 0 {
        cfg.include = Some(g.r.pick(&[vec![s("*.md")], vec![s("**/*.md"), s("*.markdown")], vec![s("docs/")], vec![s("docs/**")], vec![s("docs/*")]]).clone());
        if g.r.chance(30) {
            cfg.exclude = Some(vec![s("skip*")]);
        }
    }
    g.config("/w/.hongdown.toml", cfg.clone());
    let n = g.r.range(1, 5) as usize;
    let mut args: Vec<String> = vec![s("--write")];
    g.c.sc.dir("/w/docs");
    for i in 0..n {
        let p = format!("/w/{}{}", if how == 1 || g.r.chance(60) { "docs/" } else { "" }, NAMES[i]);
        let d = stable_doc(g, &cfg);
        g.put(&p, d);
        if how == 2 {
            args.push(g.display(&p));
        }
    }
    if how == 1 {
        args.push(s("docs"));
    }
    let v: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    g.argv(&v);
    let argv = g.c.sc.argv.clone();
    let stages = g.r.range(0, 2);
    let bad = |g: &mut G| -> Vec<Fault> {
        let x = g.r.below(10);
        let k = g.r.below(n as u64 * 6 + 1);
        let cls = if g.r.chance(75) { "mut" } else { "any" };
        let k = if cls == "any" { g.r.below(150) } else { k };
        let arg = if g.r.chance(40) { g.r.below(3000) as i64 } else { 0 };
        match x {
            0..=4 => vec![fault(cls, "", k, "kill", arg)],
            5..=7 => vec![fault(cls, "", k, "power", (g.r.next() >> 2) as i64)],
            _ => {
                let mut f = fault(*["mut", "write", "fsync", "rename"].get(g.r.us(4)).unwrap(), "", k / 2, "errno", ENOSPC);
                f.times = *g.r.pick(&[1, 2, 60]);
                vec![f]
            }
        }
    };
    g.c.sc.faults = bad(g);
    for _ in 0..stages {
        let f = bad(g);
        let mut t = Scenario::default();
        knobs(&mut g.r, &mut t, 0);
        g.c.stages.push(Stage { argv: argv.clone(), faults: f, seed: t.seed, strategy: t.strategy, bgp: t.bgp, replay: None, clean: false });
    }
    let mut last = argv.clone();
    for (i, a) in ["--write", "--check", "--write"].iter().enumerate() {
        for x in last.iter_mut() {
            if x == "--write" || x == "--check" {
                *x = s(a);
            }
        }
        let seed = g.r.next();
        g.c.stages.push(Stage { argv: last.clone(), faults: vec![], seed, strategy: if i == 0 { 1 } else { 0 }, bgp: [0; BG_N], replay: None, clean: true });
    }
}

fn script(g: &mut G, prog: &str, lim: u64, hostile: bool) -> Script {
    let r = &mut g.r;
    let ms = 1_000_000u64;
    // well away from the limit on either side
    let quick = match r.below(20) {
        0..=4 => 0,
        5..=8 => r.below(200) * ms,
        // just in time
        9 | 10 if lim < 100_000 * ms => lim.saturating_sub(r.range(23, 49) * ms),
        _ => {
            let top = lim.saturating_sub(1_400 * ms).min(600_000 * ms);
            r.below(top / ms + 1) * ms
        }
    };
    let chunk = *r.pick(&[0u64, 1, 7, 100, 4096]);
    let tr = |r: &mut Rng| *r.pick(&[0u64, 1, 1, 2, 2, 3, 4 | 3 << 8]);
    let mut v: Vec<Step> = vec![];
    let errtext = |r: &mut Rng, p: &str| -> Vec<u8> {
        let n = *r.pick(&[0u64, 1, 3, 200, 500, 6000]);
        (0..n).map(|i| format!("{p} says {i}\n")).collect::<String>().into_bytes()
    };
    if !hostile {
        match r.below(16) {
            12 => {
                // most of the input stays in the pipe, which a descendant keeps open
                let k = r.range(1, 6);
                v.push(step("readn", chunk, k));
                v.push(stepd("out", chunk, format!("part {prog}\n").into_bytes()));
                let until = *r.pick(&[if lim < 10_000 * SEC { 0 } else { 5 * SEC }, 30 * SEC, 600 * SEC]);
                v.push(step("daemon", until, 1));
            }
            0 => {
                let x = tr(r);
                v.push(step("streamx", chunk.max(1), if x == 3 || x > 255 { 1 } else { x }));
            }
            1 => {
                v.push(stepd("out", chunk, format!("fixed {prog}\n").into_bytes()));
            }
            2 => {
                let k = r.range(1, 6);
                v.push(step("readn", chunk, k));
                v.push(stepd("out", chunk, format!("part {prog}\n").into_bytes()));
            }
            3 => {
                v.push(step("readall", chunk, 0));
                let e = errtext(r, prog);
                v.push(stepd("err", chunk, e));
                let x = tr(r);
                v.push(step("outx", chunk, x));
            }
            4 => {
                v.push(step("closein", 0, 0));
                if r.chance(50) {
                    v.push(step("sleep", quick, 0));
                }
                v.push(stepd("out", chunk, format!("blind {prog}\n").into_bytes()));
            }
            5 => {
                // a big answer before the input is read
                let n = *r.pick(&[10usize, 3000, 70000]);
                v.push(stepd("out", 0, format!("{prog} line of output\n").repeat(n / 20 + 1).into_bytes()));
                v.push(step("readall", chunk, 0));
            }
            6 => {
                v.push(step("readall", chunk, 0));
                let x = tr(r);
                v.push(step("outx", chunk, x));
                v.push(step("closeout", 0, 0));
            }
            7 => {
                // nothing at all
                if r.chance(70) {
                    v.push(step("readall", chunk, 0));
                }
            }
            8 | 13..=15 => {
                v.push(step("readall", chunk, 0));
                let odd = *r.pick(&["\n", "\n\nx\n\n", "no newline at the end", "a\r\nb\r\n", "~~~~\ninner\n~~~~\n", "~~~~\nx\n", "```\nx\n```\n", "a\n~~~\n", "\t tab\n  \n", "ünï 漢字\n", "    indented\n", "> quote\n# head\n", "~~~~~~~\nlong\n~~~~~~~\n", "a\n\n\n", " ", "-- \"x\"...\n", "\u{feff}marked\n", "a\u{b}\u{c}b\n", "\n\n", "<!-- hongdown-disable -->\n"]);
                v.push(stepd("out", chunk, odd.as_bytes().to_vec()));
                if r.chance(30) {
                    let e = errtext(r, prog);
                    v.push(stepd("err", chunk, e));
                }
            }
            _ => {
                v.push(step("readall", chunk, 0));
                let x = tr(r);
                v.push(step("outx", chunk, x));
            }
        }
        if r.chance(60) && !v.iter().any(|s| s.op == "sleep") {
            let at = r.us(v.len() + 1);
            v.insert(at, step("sleep", quick, 0));
        }
        if r.chance(8) {
            let until = *r.pick(&[if lim < 10_000 * SEC { 0 } else { 5 * SEC }, 300 * ms, 30 * SEC, 600 * SEC]);
            v.push(step("daemon", until, r.below(2)));
        }
        if r.chance(50) {
            v.push(step("exit", 0, 0));
        }
    } else {
        match r.below(14) {
            0 => v.push(step("hang", 0, 0)),
            1 => {
                v.push(step("readall", chunk, 0));
                v.push(step("hang", 0, 0));
            }
            2 => {
                v.push(step("readall", chunk, 0));
                v.push(step("outx", chunk, 1));
                v.push(step("hang", 0, 0));
            }
            3 => v.push(step("outflood", *r.pick(&[64, 4096]), *r.pick(&[10 * ms, 100 * ms]))),
            4 => {
                v.push(step("readall", chunk, 0));
                v.push(step("sleep", lim + 2_500 * ms + r.below(20_000) * ms, 0));
                v.push(step("outx", 0, 1));
            }
            5 | 6 => {
                if r.chance(60) {
                    v.push(step("readall", chunk, 0));
                    v.push(step("sleep", quick, 0));
                }
                if r.chance(50) {
                    v.push(stepd("out", chunk, b"half of the out".to_vec()));
                }
                let e = errtext(r, prog);
                v.push(stepd("err", chunk, e));
                v.push(step("exit", *r.pick(&[1, 2, 127, 255]), 0));
            }
            7 => {
                if r.chance(50) {
                    v.push(step("readall", chunk, 0));
                    v.push(step("outx", 0, 1));
                }
                v.push(step("signal", *r.pick(&[9, 11, 15, 6]), 0));
            }
            8 => {
                v.push(step("readall", chunk, 0));
                v.push(stepd("out", chunk, b"bad \xff\xfe bytes\n".to_vec()));
                v.push(step("exit", 0, 0));
            }
            9 => return Script { prog: prog.into(), spawn_errno: *r.pick(&[2, 13, 12, 8]), steps: vec![] },
            10 => {
                v.push(step("closein", 0, 0));
                v.push(step("hang", 0, 0));
            }
            11 => {
                v.push(step("closeout", 0, 0));
                v.push(step("closeerr", 0, 0));
                if r.chance(50) {
                    v.push(step("closein", 0, 0));
                }
                v.push(step("hang", 0, 0));
            }
            12 => {
                v.push(step("daemon", *r.pick(&[0, 900 * SEC]), 1));
                v.push(step("exit", *r.pick(&[1, 3]), 0));
            }
            _ => {
                v.push(step("ignpipe", 0, 0));
                v.push(step("readn", chunk, 3));
                v.push(stepd("err", 0, b"complaint\nmore\n".repeat(800)));
                v.push(step("exit", 4, 0));
            }
        }
    }
    Script { prog: prog.into(), spawn_errno: 0, steps: v }
}
/// a formatter that fails only for some code blocks
fn moody(g: &mut G, prog: &str, lim: u64) -> Script {
    let ms = 1_000_000u64;
    let r = &mut g.r;
    let chunk = *r.pick(&[0u64, 0, 4096]);
    let marker = match r.below(4) {
        0 => tag(g.ndoc),
        1 => tag(g.ndoc + 1),
        _ => format!("x{} = ", r.below(4)),
    };
    let mut bad = match r.below(7) {
        0 if lim < 10_000 * SEC => vec![step("hang", 0, 0)],
        1 if lim < 10_000 * SEC => vec![step("sleep", lim + 2_500 * ms, 0), step("outx", 0, 1), step("exit", 0, 0)],
        2 => vec![step("outx", chunk, 1), step("signal", *r.pick(&[9, 11, 15]), 0)],
        3 => vec![stepd("out", 0, b"bad \xff\n".to_vec()), step("exit", 0, 0)],
        4 => vec![step("closeout", 0, 0), step("sleep", 300 * ms, 0), step("exit", 3, 0)],
        _ => vec![stepd("err", 0, format!("{prog} complains\n").into_bytes()), step("exit", *r.pick(&[1, 2, 127]), 0)],
    };
    let n = bad.len() as u64;
    let mut v = vec![step("readall", chunk, 0)];
    let mut u = stepd("unless", 0, marker.into_bytes());
    u.a = n;
    v.push(u);
    v.append(&mut bad);
    if r.chance(40) {
        v.push(step("sleep", if lim > 3 * SEC { 700 * ms } else { 120 * ms }, 0));
    }
    v.push(step("outx", chunk, 1));
    Script { prog: prog.into(), spawn_errno: 0, steps: v }
}
fn fmt(g: &mut G) {
    knobs(&mut g.r, &mut g.c.sc, 0);
    g.c.sc.ncpu = *g.r.pick(&[1, 1, 2, 3, 4]);
    g.c.sc.pipe_cap = *g.r.pick(&[65536, 65536, 4096, 600]);
    let nf = *g.r.pick(&[1usize, 1, 2, 3]);
    let mut cfg = gen_cfg(&mut g.r, 12);
    let langs = *g.r.pick(&[["rust", "js", "python"], ["rust", "js", "python"], ["rust", "js", "python"], ["rust", "Rust", "RUST"], ["Js", "js", "jsx"], ["C", "c-like", "c"]]);
    let stdin = g.r.chance(20);
    let mut hostile_any = false;
    let mut much = false;
    for i in 0..nf {
        let prog = format!("fmt{}", ["one", "two", "three"][i]);
        let mut command = vec![prog.clone()];
        for _ in 0..g.r.below(3) {
            command.push(g.r.pick(&["-", "--quiet", "a b", "*", "--flag=x", "", "$HOME", "a\"b'c", "é;|&"]).to_string());
        }
        let hostile = g.r.chance(50);
        // a program that polls would need too many steps to sit out an hour
        let timeout = if hostile { *g.r.pick(&[None, None, Some(0), Some(1), Some(2), Some(3), Some(10), Some(60)]) } else { *g.r.pick(&[None, None, Some(2), Some(3), Some(10), Some(90), Some(3600), Some(i64::MAX as u64), Some(1 << 32), Some((1 << 32) + 1)]) };
        let f = Fmt { lang: s(langs[i]), command, timeout };
        hostile_any |= hostile;
        let sc = if g.r.chance(30) { moody(g, &prog, f.limit_ns()) } else { script(g, &prog, f.limit_ns(), hostile) };
        g.c.sc.scripts.push(sc);
        cfg.formatters.push(f);
    }
    if g.r.chance(15) {
        cfg.tables.entry(s("code_block")).or_default().insert(s("default_language"), format!("\"{}\"", langs[0]));
    }
    g.config("/w/.hongdown.toml", cfg.clone());
    let docs = if stdin { 1 } else { g.r.range(1, 3) as usize };
    let mut args: Vec<String> = vec![];
    for i in 0..docs {
        let mut o = DocOpts::new(&tag(g.ndoc));
        g.ndoc += 1;
        o.paras = 4;
        o.codes = g.r.range(1, 3);
        if g.r.chance(10) {
            o.codes = g.r.range(4, 9);
        }
        o.langs = langs[..nf].iter().map(|x| s(x)).collect();
        if cfg.tables.get("code_block").map(|t| t.contains_key("default_language")).unwrap_or(false) {
            o.langs.push(String::new());
        }
        let huge = if g.r.chance(20) { 6000 } else { 3 };
        o.code_size = *g.r.pick(&[1, 3, 3, 60, huge]);
        if i == 0 && g.r.chance(2) && g.c.sc.pipe_cap >= 4096 && g.c.sc.scripts.iter().all(|x| x.steps.iter().all(|t| t.op == "sleep" || t.op == "daemon" || [0, 4096].contains(&t.a))) {
            // more than a megabyte of code
            o.codes = 1;
            o.code_size = 160_000;
            much = true;
        }
        let d = gen_doc(&mut g.r, &o);
        if stdin {
            g.c.sc.stdin = Bytes(d.plain());
            g.c.docs.insert(s("<stdin>"), d);
        } else {
            let p = format!("/w/{}", NAMES[i]);
            g.put(&p, d);
            args.push(g.display(&p));
        }
    }
    if !stdin && g.r.chance(20) {
        // documents that fail while formatters of others are running
        for k in 0..g.r.range(1, 2) {
            let p = format!("/w/bad{k}.md");
            match g.r.below(5) {
                0 | 1 => g.put(&p, Doc::raw(b"* caf\xe9\n".to_vec())),
                2 => {
                    g.put(&p, Doc::raw(b"* secret\n".to_vec()));
                    g.mode(&p, 0o200);
                }
                3 => {
                    g.put(&p, Doc::raw(b"* read only\n".to_vec()));
                    g.mode(&p, 0o444);
                }
                _ => {
                    let d = deep_doc(&mut g.r);
                    g.put(&p, Doc::raw(d));
                }
            }
            let at = g.r.us(args.len() + 1);
            args.insert(at, format!("bad{k}.md"));
        }
        if g.r.chance(15) {
            args.push(s("gone.md"));
        }
    }
    let mut m = *g.r.pick(&["--write", "--write", "--write", "--check", "--check", "", "", "--diff"]);
    if much && m == "--diff" {
        m = ""; // would take long
    }
    if docs > 1 && m.len() > 6 && g.r.chance(20) {
        g.c.sc.ncpu = g.r.range(2, 4);
        fine(g);
    }
    let mut v: Vec<&str> = vec![];
    if stdin {
        v.push("--stdin");
    } else if !m.is_empty() {
        v.push(m);
    }
    v.extend(args.iter().map(|x| x.as_str()));
    g.argv(&v);
    match g.r.below(9) {
        0 => {
            let (c, e) = *g.r.pick(&[("spawn", 11), ("spawn", 12), ("pipe", 24), ("pread", 5), ("pread", 5), ("pread", 5), ("pwrite", 5), ("pwrite", 5), ("thread", 11), ("thread", 11), ("pipe", 23)]);
            let most = *g.r.pick(&[4, 4, 10]);
            let k = g.r.below(most);
            g.c.sc.faults.push(fault(c, if c == "thread" { "<formatter>" } else { "" }, k, "errno", e));
        }
        1 | 2 => {
            let k = g.r.below(40);
            let mut f = fault("any", "", k, "clock", (g.r.below(7200) as i64 - 3600) * SEC as i64);
            f.times = g.r.range(1, 3);
            g.c.sc.faults.push(f);
        }
        3 => {
            let k = g.r.below(30);
            let a = g.r.range(1, 60) as i64 * 1_000_000;
            g.c.sc.faults.push(fault(*["pread", "pwrite", "wait", "any"].get(g.r.us(4)).unwrap(), "", k, "stall", a));
        }
        _ => {}
    }
    let _ = hostile_any;
}

fn stream(g: &mut G, diff: bool) {
    knobs(&mut g.r, &mut g.c.sc, 0);
    let cfg = g.some_config(25);
    for k in [BG_SHORT_READ, BG_SHORT_WRITE] {
        if g.r.chance(40) {
            g.c.sc.bgp[k] = (0.3 * P32) as u32;
        }
    }
    let mut v: Vec<String> = vec![];
    if g.r.chance(45) {
        let d = g.doc(&cfg);
        let mut b = d.plain();
        if g.r.chance(8) {
            let at = g.r.us(b.len() + 1);
            b.insert(at, 0xfe);
        }
        g.c.sc.stdin = Bytes(b.clone());
        g.c.docs.insert(s("<stdin>"), if b == d.plain() { d } else { Doc::raw(b) });
        v.push(s(*g.r.pick(&["--stdin", "-"])));
        if diff {
            v.push(s("--diff"));
        } else if g.r.chance(30) {
            v.push(s("--check"));
        }
        if g.r.chance(5) {
            // both at once
            let d = g.doc(&cfg);
            g.put("/w/besides.md", d);
            let at = g.r.us(v.len() + 1);
            v.insert(at, s("besides.md"));
        }
        if g.r.chance(25) {
            let k = g.r.below(4);
            g.c.sc.faults.push(fault("stdin", "", k, "errno", *g.r.pick(&[EIO, 11, 12])));
        }
    } else {
        let mut n = *g.r.pick(&[1usize, 2, 3, 5]);
        if g.r.below(200) < 3 {
            g.short = true;
            n = *g.r.pick(&[20usize, 40, 70]);
        }
        let bad = *g.r.pick(&[0, 0, 10, 20]) / if g.short { 10 } else { 1 };
        let (paths, args) = files(g, &cfg, n, bad, true, 15);
        if diff {
            v.push(s(*g.r.pick(&["--diff", "-d"])));
        }
        v.extend(args);
        if g.r.chance(25) {
            let p = g.r.pick(&paths).clone();
            let k = g.r.below(3);
            g.c.sc.faults.push(fault(*["openr", "read", "read"].get(g.r.us(3)).unwrap(), &p, k, "errno", *[EIO, EACCES].get(g.r.us(2)).unwrap()));
        }
    }
    if g.r.chance(35) {
        let lim = match g.r.below(5) {
            0 => 0,
            1 => g.r.below(40),
            2 => {
                // close to the end of the output
                let docs: Vec<Vec<u8>> = g.c.docs.values().map(|d| d.plain()).collect();
                let total: usize = docs.iter().map(|d| g.cx.base(d, &cfg).map(|b| b.out.len()).unwrap_or(0)).sum();
                (total as u64).saturating_sub(1 + g.r.below(30))
            }
            _ => g.r.below(1500),
        };
        g.c.sc.out_limit = Some(lim);
        g.c.sc.out_errno = *g.r.pick(&[32, 28, 5, 104]);
    } else if g.r.chance(10) {
        g.c.sc.err_limit = Some(g.r.below(60));
        g.c.sc.err_errno = *g.r.pick(&[32, 28]);
    } else if g.r.chance(15) {
        let k = g.r.below(6);
        g.c.sc.faults.push(fault("stdout", "", k, "errno", *[EIO, ENOSPC, 32].get(g.r.us(3)).unwrap()));
    }
    let a: Vec<&str> = v.iter().map(|x| x.as_str()).collect();
    g.argv(&a);
}

fn broken(g: &mut G, path: &str) {
    let own_dir = path.ends_with("hongdown/config.toml") || path.contains("/conf/");
    let x = if own_dir && g.r.chance(25) { 8 } else { g.r.below(8) };
    let good = gen_cfg(&mut g.r, 60).render();
    let data: Vec<u8> = match x {
        0 => b"line_width = \n".to_vec(),
        1 => b"line_width = \"eighty\"\n".to_vec(),
        2 => format!("{good}\n[heading\nsetext_h1 = true\n").into_bytes(),
        3 => format!("line_width = 3\n{}", good.lines().filter(|l| !l.starts_with("line_width")).collect::<Vec<_>>().join("\n")).into_bytes(),
        4 => {
            let mut b = good.into_bytes();
            b.extend_from_slice(b"# \xff\xfe\n");
            b
        }
        5 => b"[code_block]\nmin_fence_length = 1\n".to_vec(),
        _ => good.into_bytes(),
    };
    match x {
        6 => {
            g.c.sc.dir(path);
        }
        7 => {
            g.c.sc.file(path, data);
            g.mode(path, 0o000);
        }
        8 => {
            // its directory may not be searched
            let d = crate::model::parent(path);
            g.c.sc.dir(&d);
            let m = *g.r.pick(&[0o600u32, 0o000, 0o444]);
            g.mode(&d, m);
            g.c.sc.file(path, data);
        }
        _ => {
            g.c.sc.file(path, data);
        }
    }
    g.c.cfgs.insert(path.into(), CfgState::Broken);
}
/// settings of one configuration file of the cascade
fn layer_cfg(g: &mut G, k: usize) -> Cfg {
    let mut c = gen_cfg(&mut g.r, 50);
    if g.r.chance(18) {
        for i in 0..g.r.range(1, 2) as usize {
            let prog = format!("fmt{k}{}", ["a", "b"][i]);
            let f = Fmt { lang: s(["rust", "js"][i]), command: if g.r.chance(if c.formatters.iter().any(|f| f.command.is_empty()) { 40 } else { 8 }) { vec![] } else { vec![prog.clone(), format!("--from={k}")] }, timeout: *g.r.pick(&[None, None, Some(2), Some(30)]) };
            let sc = script(g, &prog, f.limit_ns(), false);
            g.c.sc.scripts.push(sc);
            c.formatters.push(f);
        }
    }
    if g.r.chance(6) {
        // possibly the same as the one for em dashes, which may come from another file
        c.tables.entry(s("punctuation")).or_default().insert(s("en_dash"), s(*g.r.pick(&["\"--\"", "\"---\""])));
    }
    c
}
fn cfg(g: &mut G) {
    knobs(&mut g.r, &mut g.c.sc, 0);
    g.c.sc.bgp[BG_EINTR_MISC] = 0;
    let deep = g.r.below(3);
    g.c.sc.cwd = s(["/w", "/w/p", "/w/p/q"][deep as usize]);
    let cwd = g.c.sc.cwd.clone();
    g.c.sc.dir(&cwd);
    let mut env = vec![s("PATH=/usr/bin:/bin")];
    let mut home = s("/home/u");
    match g.r.below(6) {
        0 => home = s("/w"),
        1 => home = s("/w/p"),
        _ => {}
    }
    env.push(format!("HOME={home}"));
    g.c.sc.dir(&home);
    let mut xdg = format!("{home}/.config");
    if g.r.chance(40) {
        match g.r.below(4) {
            0 => env.push(s("XDG_CONFIG_HOME=")),
            1 => env.push(s("XDG_CONFIG_HOME=relative/path")),
            _ => {
                xdg = s("/xdg");
                env.push(s("XDG_CONFIG_HOME=/xdg"));
            }
        }
    }
    g.c.sc.env = env;
    let want_broken = g.r.chance(35);
    let use_include = g.r.chance(35);
    let (pi, pe, pg) = if use_include { (45, 40, 40) } else { (20, 10, 10) };
    let mut slots = vec![s(SYS), format!("{home}/.hongdown.toml"), format!("{xdg}/hongdown/config.toml"), s("/w/.hongdown.toml"), s("/w/p/.hongdown.toml"), s("/.hongdown.toml"), s("/w/p/q/.hongdown.toml")];
    slots.dedup();
    let mut seen = std::collections::BTreeSet::new();
    slots.retain(|x| seen.insert(x.clone()));
    let mut placed = vec![];
    for p in &slots {
        let project = p.ends_with("/.hongdown.toml");
        if !g.r.chance(if project { 30 } else { 55 }) {
            continue;
        }
        if want_broken && g.r.chance(35) {
            broken(g, p);
        } else {
            let mut c = layer_cfg(g, placed.len());
            if g.r.chance(15) {
                c.no_inherit = true;
            }
            if g.r.chance(pi) {
                c.include = Some(if g.r.chance(8) { vec![] } else { vec![s(*g.r.pick(&["*.md", "a*.md", "**/*.md", "*.md", "**/*.md"]))] });
            }
            if g.r.chance(pe) {
                c.exclude = Some(if g.r.chance(35) { vec![] } else { vec![s(*g.r.pick(&["b*", "a.md", "**/b.md", "*.markdown"]))] });
            }
            if g.r.chance(pg) {
                c.git_aware = Some(g.r.chance(50));
            }
            if g.r.chance(8) {
                // reached through a symbolic link
                let t = format!("/etc/alt/c{}.toml", placed.len());
                g.config(&t, c);
                g.c.sc.link(p, &t);
                placed.push(t);
                continue;
            }
            g.config(p, c);
        }
        placed.push(p.clone());
    }
    // documents
    let n = g.r.range(1, 4) as usize;
    let mut args: Vec<String> = vec![];
    for i in 0..n {
        let mut o = g.doc_opts();
        o.langs = vec![s("rust"), s("js")];
        if g.r.chance(40) {
            o.codes = g.r.range(1, 3);
        }
        let d = gen_doc(&mut g.r, &o);
        let p = format!("{cwd}/{}", NAMES[i]);
        g.put(&p, d);
        args.push(s(NAMES[i]));
    }
    let m = *g.r.pick(&["--write", "--write", "--write", "--check", "", "--diff"]);
    let mut v: Vec<String> = vec![];
    if !m.is_empty() {
        v.push(s(m));
    }
    if use_include && g.r.chance(60) {
        let d = *g.r.pick(&["/w", "/w", "/w/p"]);
        g.c.sc.file(&format!("{d}/.git/HEAD"), "ref: refs/heads/main\n");
        let t = format!("{}\n", *g.r.pick(&["a.md", "b.md", "*.md", "/a.md", "[ab].md"]));
        g.c.sc.file(&format!("{d}/{}", *g.r.pick(&[".gitignore", ".gitignore", ".git/info/exclude"])), t.as_str());
    }
    if !use_include {
        v.extend(args);
    }
    let mut explicit = None;
    if g.r.chance(30) {
        let (arg, real) = match g.r.below(5) {
            0 => (s("my.toml"), format!("{cwd}/my.toml")),
            1 => (s("conf/x.toml"), format!("{cwd}/conf/x.toml")),
            2 => (s("/etc/mine.toml"), s("/etc/mine.toml")),
            3 => (s("./my.toml"), format!("{cwd}/my.toml")),
            _ => (s("../up.toml"), crate::model::join(&crate::model::parent(&cwd), "up.toml")),
        };
        if g.r.chance(30) {
            if g.r.chance(75) {
                broken(g, &real);
            }
        } else {
            let mut c = layer_cfg(g, 9);
            if g.r.chance(50) {
                c.include = Some(vec![s("**/*.md")]);
            }
            g.config(&real, c);
        }
        placed.push(real.clone());
        explicit = Some(real);
        v.push(s("--config"));
        v.push(arg);
    }
    if g.r.chance(15) {
        v.push(s("--line-width"));
        v.push(format!("{}", g.r.range(20, 120)));
    }
    let _ = explicit;
    let a: Vec<&str> = v.iter().map(|x| x.as_str()).collect();
    g.argv(&a);
    let x = g.r.below(10);
    if x < 2 && !placed.is_empty() {
        let p = g.r.pick(&placed).clone();
        let k = g.r.below(2);
        g.c.sc.faults.push(fault(*["openr", "read", "read", "stat"].get(g.r.us(4)).unwrap(), &p, k, "errno", *[EIO, EACCES, 12, 24].get(g.r.us(4)).unwrap()));
    } else if x < 4 && !placed.is_empty() {
        // somebody edits, adds or removes a configuration file meanwhile
        let p = if g.r.chance(80) { g.r.pick(&placed).clone() } else { g.r.pick(&slots).clone() };
        let d = crate::model::parent(&p);
        let is_dir = g.c.sc.nodes.iter().any(|n| n.path == p && n.kind != Kind::File || n.path == d && n.mode & 0o100 == 0);
        if !is_dir {
            let k = g.r.below(60);
            let mut f = fault("any", "", k, "setfile", 0);
            f.p2 = p.clone();
            if g.r.chance(30) {
                f.act = s("delete");
                g.c.cfg_edit = Some((p, None));
            } else if g.r.chance(20) {
                f.blob = Bytes(b"line_width = [\n".to_vec());
                g.c.cfg_edit = Some((p, Some(CfgState::Broken)));
            } else {
                let c = gen_cfg(&mut g.r, 60);
                f.blob = Bytes(c.render().into_bytes());
                g.c.cfg_edit = Some((p, Some(CfgState::Ok(c))));
            }
            g.c.sc.faults.push(f);
        }
    }
}

/// a random directory tree with documents, links, cycles and unreadable parts
fn tree(g: &mut G, root: &str, cfg: &Cfg, n: usize, links: bool) -> (Vec<String>, Vec<String>) {
    let mut dirs = vec![s(root)];
    g.c.sc.dir(root);
    let nd = g.r.below(6);
    for i in 0..nd {
        let p = g.r.pick(&dirs).clone();
        let d = format!("{p}/{}", *g.r.pick(&["sub", "x", "deep", ".dot", "d.md", "node_modules", "Zeta", "b c", "build", "..data", "o\u{f7ff}d"]));
        // no directory is special when it is asked for
        let d = if g.c.family == "walk" && g.r.chance(30) { format!("{p}/{}", *g.r.pick(&[".git", "target", "vendor", "dist", ".github", "_x", "v1.0", "tests", ".cache"])) } else { d };
        if !dirs.contains(&d) {
            g.c.sc.dir(&d);
            dirs.push(d.clone());
        }
        if i == 0 && g.r.chance(15) {
            // very deep
            let mut q = d;
            for k in 0..g.r.range(5, 14) {
                q = format!("{q}/n{k}");
                g.c.sc.dir(&q);
                dirs.push(q.clone());
            }
        }
    }
    if g.r.chance(6) {
        // deeper than anybody counts
        let mut q = g.r.pick(&dirs).clone();
        for k in 0..*g.r.pick(&[20u64, 33, 65, 130, 260, 400]) {
            q = format!("{q}/{}", if k % 10 == 9 { "Z" } else { "n" });
            g.c.sc.dir(&q);
            if k % 16 == 15 {
                dirs.push(q.clone());
            }
        }
        dirs.push(q);
    }
    if g.r.chance(15) {
        for _ in 0..g.r.range(1, 2) {
            let d = g.r.pick(&dirs).clone();
            g.mount(&d);
        }
    }
    let mut files = vec![];
    let ext = ["md", "md", "md", "MD", "Md", "markdown", "MARKDOWN", "Markdown", "mdx", "txt", "md.bak", "mdown", "markdown~"];
    for i in 0..n {
        let d = g.r.pick(&dirs).clone();
        let base = *g.r.pick(&["a", "b", "c", "README", "note", "é", ".rc", "two words", "x.y", "b\u{f7ff}d", "_n", "#x", "~a", "CHANGELOG"]);
        let e = *g.r.pick(&ext);
        let p = match g.r.below(20) {
            0 => format!("{d}/md"),
            1 => format!("{d}/.md"),
            2 => format!("{d}/noext{i}"),
            _ => format!("{d}/{base}{}.{e}", if g.r.chance(60) { i.to_string() } else { String::new() }),
        };
        if g.c.docs.contains_key(&p) || dirs.contains(&p) {
            continue;
        }
        let mut o = g.doc_opts();
        o.big = false;
        o.paras = 2;
        if g.r.chance(2) {
            o.paras = 1;
            o.pad = *g.r.pick(&[9_000, 33_000, 70_000, 140_000]);
        }
        let d = if !g.short && g.r.chance(70) || o.pad > 0 { gen_doc(&mut g.r, &o) } else { g.doc(cfg) };
        g.put(&p, d);
        files.push(p);
    }
    // two names of one file
    if g.r.chance(8) && !files.is_empty() {
        let h = g.r.pick(&files).clone();
        let p = format!("{}/hard.md", g.r.pick(&dirs));
        if let Some(n) = g.c.sc.nodes.iter().find(|n| n.path == h && n.kind == Kind::File).cloned() {
            if !g.c.sc.nodes.iter().any(|n| n.path == p) {
                g.c.sc.nodes.push(Nd { path: p, hard: Some(h), data: Bytes::default(), ..n });
            }
        }
    }
    // things that are no regular files, whatever their name
    if g.r.chance(12) {
        for i in 0..g.r.range(1, 2) {
            let d = g.r.pick(&dirs).clone();
            let p = format!("{d}/{}{i}.md", *g.r.pick(&["dev", "a-pipe", "zdev"]));
            let kind = *g.r.pick(&[Kind::Chr, Kind::Chr, Kind::Fifo]);
            let uid = g.c.sc.uid as u32;
            g.c.sc.nodes.push(Nd { path: p.clone(), kind, mode: 0o666, uid, mount: false, hard: None, data: if kind == Kind::Chr { Bytes::from("*  from a device\n") } else { Bytes::default() } });
            if links && g.r.chance(50) {
                let d = g.r.pick(&dirs).clone();
                g.c.sc.link(&format!("{d}/ldev{i}.md"), &p);
            }
        }
    }
    if links {
        for i in 0..g.r.below(4) {
            let d = g.r.pick(&dirs).clone();
            let all: Vec<String> = dirs.iter().chain(files.iter()).cloned().collect();
            let mut t = g.r.pick(&all).clone();
            match g.r.below(12) {
                0 => t = s("nowhere/at/all"),
                1 => t = format!("l{i}.md"), // itself
                2 => {
                    t = s("/elsewhere");
                    if !g.c.sc.nodes.iter().any(|n| n.path == t) {
                        g.c.sc.dir(&t);
                        let o = g.doc_opts();
                        let x = gen_doc(&mut g.r, &o);
                        g.put("/elsewhere/far.md", x);
                    }
                }
                3 => t = s(".."),
                4 => t = s("."),
                _ => {}
            }
            g.c.sc.link(&format!("{d}/{}", if g.r.chance(50) { format!("l{i}.md") } else { format!("l{i}") }), &t);
        }
    }
    (dirs, files)
}
fn walk(g: &mut G) {
    knobs(&mut g.r, &mut g.c.sc, 0);
    if g.r.chance(40) {
        g.c.sc.bgp[BG_DT_UNKNOWN] = (0.6 * P32) as u32;
    }
    let cfg = g.some_config(10);
    let mut n = *g.r.pick(&[2usize, 5, 8, 14]);
    if g.r.below(50) == 0 {
        g.short = true;
        n = *g.r.pick(&[40usize, 70, 140]);
    }
    let links = g.r.chance(60);
    let (dirs, files) = tree(g, "/w/docs", &cfg, n, links);
    g.short = false;
    for d in dirs.iter().skip(1) {
        if g.r.chance(5) {
            let m = *g.r.pick(&[0o000u32, 0o300, 0o444, 0o111]);
            g.mode(d, m);
        }
    }
    let m = *g.r.pick(&["--write", "--write", "--check", "", "--diff"]);
    let mut v: Vec<String> = vec![];
    if !m.is_empty() {
        v.push(s(m));
    }
    v.push(s(*g.r.pick(&["docs", "docs", "./docs", "/w/docs", "docs/", ".", "../w/docs", "docs/."])));
    if g.r.chance(15) {
        g.put("/w/solo.md", Doc::raw(b"*  solo\n".to_vec()));
        v.push(s("solo.md"));
    }
    if g.r.chance(10) {
        g.c.sc.link("/w/dl", "docs");
        v.pop();
        v.push(s("dl"));
    } else if g.r.chance(12) {
        // a part of it, whatever it is called
        let d = g.r.pick(&dirs).trim_start_matches("/w/").to_string();
        v.pop();
        v.push(if d.starts_with('-') { s("docs") } else { d });
    }
    let (mut dirs, mut files) = (dirs, files);
    if g.r.chance(18) {
        // another directory, before or after
        let n = *g.r.pick(&[1usize, 3, 6]);
        let (d2, f2) = tree(g, "/w/more", &cfg, n, links);
        for d in d2.iter().skip(1) {
            if g.r.chance(8) {
                let m = *g.r.pick(&[0o000u32, 0o300, 0o444, 0o111]);
                g.mode(d, m);
            }
        }
        if !v.contains(&s(".")) {
            let at = v.iter().position(|x| !x.starts_with('-')).unwrap_or(v.len());
            let at = if g.r.chance(50) { at } else { v.len() };
            v.insert(at, s(*g.r.pick(&["more", "./more", "/w/more/"])));
        }
        dirs.extend(d2);
        files.extend(f2);
    }
    let a: Vec<&str> = v.iter().map(|x| x.as_str()).collect();
    g.argv(&a);
    let all: Vec<String> = dirs.iter().chain(files.iter()).cloned().collect();
    match g.r.below(10) {
        0..=2 => {
            for _ in 0..g.r.range(1, 2) {
                let c = *g.r.pick(&["opendir", "readdir", "stat", "stat"]);
                let p = if c == "stat" { g.r.pick(&all).clone() } else { g.r.pick(&dirs).clone() };
                let k = g.r.below(if c == "readdir" { 4 } else { 2 });
                g.c.sc.faults.push(fault(c, &p, k, "errno", *[EIO, EACCES, 12, 24].get(g.r.us(4)).unwrap()));
            }
        }
        3 => {
            // something vanishes or appears meanwhile
            let p = g.r.pick(&all[1..]).clone();
            let at = g.r.pick(&dirs).clone();
            let mut f = fault(*["opendir", "readdir", "any"].get(g.r.us(3)).unwrap(), &at, 0, *["delete", "rename", "setfile"].get(g.r.us(3)).unwrap(), 0);
            f.skip = g.r.below(3);
            f.p2 = p.clone();
            if f.act == "rename" {
                f.blob = Bytes(format!("{p}.gone").into_bytes());
            } else if f.act == "setfile" {
                f.p2 = format!("{at}/newcomer.txt");
                f.blob = Bytes::from("hello\n");
            } else if dirs.contains(&p) {
                f.act = s("rename");
                f.blob = Bytes(format!("{p}.gone").into_bytes());
            }
            g.c.sc.faults.push(f);
        }
        _ => {}
    }
}
fn incl(g: &mut G) {
    knobs(&mut g.r, &mut g.c.sc, 0);
    if g.r.chance(40) {
        g.c.sc.bgp[BG_DT_UNKNOWN] = (0.6 * P32) as u32;
    }
    let mut c = gen_cfg(&mut g.r, 10);
    let pats = ["*.md", "**/*.md", "docs/**/*.md", "sub/*.md", "*.markdown", "a*.md", "*.MD", "docs", "docs/", "sub/", "/a*.md", "**/README.md", "?.md", "[ab]*.md", "[!a]*.md", "docs/**", "x/**", "note*", "x/*.md", "*.txt", "deep/", "**/x/*.md", ".dot/*", "*"];
    let n = g.r.range(1, 3);
    c.include = Some((0..n).map(|_| s(*g.r.pick(&pats))).collect());
    if g.r.chance(55) {
        let n = g.r.range(1, 2);
        c.exclude = Some((0..n).map(|_| s(*g.r.pick(&["b*.md", "sub/", "x/", "**/deep/**", "README.md", "node_modules", "/a*.md", "docs/x", "*.txt", "**/a*", ".dot", "[b-z]*.md", "docs/sub/**"]))).collect());
    }
    if g.r.chance(25) {
        c.git_aware = Some(g.r.chance(40));
    }
    let repo = g.r.chance(65);
    if g.r.chance(15) {
        // ignore rules of the user, which are not the repository's
        let t = format!("{}\n", *g.r.pick(&["*.md", "a*", "b*.md", "docs", "sub/", "README.md"]));
        match g.r.below(3) {
            0 => {
                g.c.sc.file("/home/u/.config/git/ignore", t.as_str());
            }
            1 => {
                g.c.sc.file("/home/u/.gitconfig", "[core]\n\texcludesFile = /home/u/.myignore\n");
                g.c.sc.file("/home/u/.myignore", t.as_str());
            }
            _ => {
                g.c.sc.file("/home/u/.config/git/config", "[core]\n\texcludesfile = ~/globalignore\n");
                g.c.sc.file("/home/u/globalignore", t.as_str());
            }
        }
    }
    let base = "/w";
    let (sub, n, links) = (g.r.chance(40), *g.r.pick(&[4usize, 8, 14]), g.r.chance(40));
    let n = if g.r.below(50) == 0 {
        g.short = true;
        *g.r.pick(&[40usize, 70, 140])
    } else {
        n
    };
    let (dirs, files) = tree(g, if sub { "/w/docs" } else { "/w" }, &c.clone(), n, links);
    g.short = false;
    let mut ign: Vec<String> = vec![];
    if repo {
        let groot = if g.r.chance(15) { "" } else { base };
        g.put(&format!("{groot}/.git/description.md"), Doc::raw(b"*  internal\n".to_vec()));
        g.c.sc.file(&format!("{groot}/.git/HEAD"), "ref: refs/heads/main\n");
        if g.r.chance(45) {
            let t = format!("{}\n", *g.r.pick(&["b*.md", "/docs/sub/", "*.MD", "# none", "a*.md", "*.md\n!b*.md", "README.md", "x/"]));
            g.c.sc.file(&format!("{groot}/.git/info/exclude"), t.as_str());
            ign.push(format!("{groot}/.git/info/exclude"));
        }
        if g.r.chance(12) && groot == base {
            // a nested repository (for instance a submodule)
            let d = g.r.pick(&dirs).clone();
            if d != base {
                g.c.sc.file(&format!("{d}/.git/HEAD"), "ref: refs/heads/main\n");
            }
        }
    }
    let lines = ["a*.md", "/b*.md", "sub/", "x/", "*.md\n!a*.md", "!README.md", "build", "/docs/x", "**/deep", "# comment", "", "*.markdown", "!*.md", "node_modules/", "docs/**/a*.md", "README.md", "\\!x", "[ab].md", "*.txt", "/sub/*"];
    let sick = g.r.chance(5);
    for (i, d) in std::iter::once(s(base)).chain(dirs.iter().cloned()).enumerate() {
        let f = format!("{d}/.gitignore");
        if g.c.sc.nodes.iter().any(|n| n.path == f) || !g.r.chance(if i == 0 { 55 } else if sick { 50 } else { 20 }) {
            continue;
        }
        let n = g.r.range(1, 3);
        let t: String = (0..n).map(|_| format!("{}\n", g.r.pick(&lines))).collect();
        g.c.sc.file(&f, t);
        ign.push(f.clone());
        if g.r.chance(if sick { 50 } else { 5 }) {
            g.mode(&f, 0o000);
        }
    }
    for d in dirs.iter().filter(|d| *d != base) {
        if g.r.chance(3) {
            g.mode(d, 0o000);
        }
    }
    let m = *g.r.pick(&["--write", "--write", "--write", "--check", "", "--diff"]);
    let mut v: Vec<String> = vec![];
    if !m.is_empty() {
        v.push(s(m));
    }
    if g.r.chance(20) {
        g.config("/w/my.toml", c);
        v.push(s("--config"));
        v.push(s(*g.r.pick(&["my.toml", "./my.toml", "/w/my.toml"])));
    } else if sub && g.r.chance(40) {
        // the patterns belong to a part of the repository
        if g.r.chance(35) {
            g.config("/w/docs/my.toml", c);
            v.push(s("--config"));
            v.push(s(*g.r.pick(&["docs/my.toml", "./docs/my.toml", "/w/docs/my.toml"])));
        } else {
            g.config("/w/docs/.hongdown.toml", c);
            g.c.sc.cwd = s("/w/docs");
            if g.r.chance(30) {
                let d = g.r.pick(&dirs).clone();
                if d.starts_with("/w/docs") {
                    g.c.sc.cwd = d;
                }
            }
        }
    } else {
        g.config("/w/.hongdown.toml", c);
        if g.r.chance(20) {
            let d = g.r.pick(&dirs).clone();
            g.c.sc.cwd = d;
        }
    }
    let a: Vec<&str> = v.iter().map(|x| x.as_str()).collect();
    g.argv(&a);
    match g.r.below(10) {
        0 | 1 => {
            let ch = *g.r.pick(&["opendir", "readdir", "stat", "openr", "read"]);
            let p = match ch {
                "openr" | "read" => {
                    if ign.is_empty() {
                        return;
                    }
                    g.r.pick(&ign).clone()
                }
                "stat" => {
                    let all: Vec<String> = files.iter().chain(ign.iter()).chain(dirs.iter()).cloned().collect();
                    g.r.pick(&all).clone()
                }
                _ => g.r.pick(&dirs).clone(),
            };
            let k = g.r.below(if ch == "readdir" { 5 } else { 2 });
            g.c.sc.faults.push(fault(ch, &p, k, "errno", *[EIO, EACCES, 12, 24].get(g.r.us(4)).unwrap()));
        }
        2 => {
            if let Some(p) = files.first() {
                let mut f = fault("opendir", "", g.r.below(3), "delete", 0);
                f.p2 = p.clone();
                g.c.sc.faults.push(f);
            }
        }
        _ => {}
    }
}

/// long runs with few workers: whatever is not released adds up
fn many(g: &mut G) {
    knobs(&mut g.r, &mut g.c.sc, 0);
    g.c.sc.ncpu = *g.r.pick(&[1, 1, 2]);
    if g.c.sc.strategy == 2 {
        g.c.sc.strategy = 0; // no thread may be passed over for long
    }
    g.c.sc.bgp[BG_STALL] = 0;
    let mut cfg = gen_cfg(&mut g.r, 10);
    let kind = g.r.below(10);
    let blocks = kind < 5;
    if blocks {
        let prog = s("fmtone");
        let f = Fmt { lang: s("rust"), command: vec![prog.clone()], timeout: *g.r.pick(&[None, Some(1), Some(2)]) };
        let ms = 1_000_000u64;
        let mut v: Vec<Step> = vec![];
        let mut errno = 0;
        match g.r.below(10) {
            0..=2 => {
                v.push(step("readall", 0, 0));
                v.push(step("outx", 0, 1));
            }
            3 => v.push(step("hang", 0, 0)),
            4 => {
                v.push(step("readall", 0, 0));
                v.push(step("exit", 1, 0));
            }
            5 => {
                v.push(step("closein", 0, 0));
                v.push(step("sleep", 70 * ms, 0));
                v.push(stepd("out", 0, b"fixed\n".to_vec()));
            }
            6 => errno = 2,
            7 => {
                v.push(step("readall", 0, 0));
                v.push(stepd("out", 0, b"bad \xff\n".to_vec()));
            }
            8 => {
                v.push(step("readall", 0, 0));
                v.push(step("signal", *g.r.pick(&[9, 11, 15]), 0));
            }
            _ => v.push(step("outflood", 64, 100 * ms)),
        }
        let limit = f.limit_ns();
        let sc = if g.r.chance(30) {
            let mut sc = script(g, &prog, limit, true);
            // a hundred times many single bytes are too many steps
            for t in sc.steps.iter_mut().filter(|t| t.op == "out" || t.op == "err" || t.op == "readall" || t.op == "outx") {
                t.a = t.a.max(if t.a == 0 { 0 } else { 512 });
            }
            sc
        } else { Script { prog, spawn_errno: errno, steps: v } };
        g.c.sc.scripts.push(sc);
        cfg.formatters.push(f);
        if g.r.chance(30) {
            let (c, e) = *g.r.pick(&[("spawn", 11), ("spawn", 12), ("pipe", 24), ("pipe", 23), ("pread", 5), ("pwrite", 5), ("thread", 11), ("thread", 11)]);
            let k = g.r.below(12);
            let mut f = fault(c, if c == "thread" { "<formatter>" } else { "" }, k, "errno", e);
            f.times = *g.r.pick(&[10, 40, 1000]);
            g.c.sc.faults.push(f);
        }
    }
    g.config("/w/.hongdown.toml", cfg.clone());
    let mut v: Vec<String> = vec![];
    if blocks {
        // a few documents with many blocks
        let n = g.r.range(1, 2);
        let stdin = g.r.chance(20);
        for i in 0..n {
            let mut o = DocOpts::new(&tag(g.ndoc));
            g.ndoc += 1;
            o.codes = g.r.range(60, 110) / n;
            o.paras = o.codes;
            o.langs = vec![s("rust")];
            let d = gen_doc(&mut g.r, &o);
            if stdin {
                g.c.sc.stdin = Bytes(d.plain());
                g.c.docs.insert(s("<stdin>"), d);
                v = vec![s("--stdin")];
                break;
            }
            g.put(&format!("/w/{}", NAMES[i as usize]), d);
            v.push(s(NAMES[i as usize]));
        }
        if !stdin {
            let m = *g.r.pick(&["--write", "--write", "--check", "", "--diff"]);
            if !m.is_empty() {
                v.insert(0, s(m));
            }
        }
    } else {
        let n = g.r.range(60, 140);
        let flat = g.r.chance(50);
        let badtext = *g.r.pick(&[0, 0, 0, 60]);
        let gone = *g.r.pick(&[0, 0, 0, 50]);
        g.c.sc.dir("/w/docs");
        let mut paths = vec![];
        for i in 0..n {
            let mut o = DocOpts::new(&tag(g.ndoc));
            g.ndoc += 1;
            o.paras = 1;
            let p = if flat { format!("/w/docs/f{i}.md") } else { format!("/w/docs/d{i}/f.md") };
            let d = if g.r.chance(badtext) { Doc::raw(b"*  caf\xe9\n".to_vec()) } else { gen_doc(&mut g.r, &o) };
            if g.r.chance(gone) {
                paths.push(p);
                continue;
            }
            g.put(&p, d);
            paths.push(p);
        }
        match g.r.below(6) {
            0 => {
                for p in &paths {
                    g.mode(p, 0o444);
                }
            }
            1 => {
                for p in &paths {
                    let d = crate::model::parent(p);
                    if d != "/w/docs" && g.r.chance(70) {
                        g.mode(&d, 0o000);
                    }
                }
            }
            2 => {
                let (c, e) = *g.r.pick(&[("write", EIO), ("write", ENOSPC), ("fsync", EIO), ("rename", EACCES), ("read", EIO), ("openr", EACCES), ("stat", EACCES), ("openw", EACCES), ("chmod", 1), ("opendir", EACCES), ("readdir", EIO)]);
                let mut f = fault(c, "/w/docs/*", g.r.below(40), "errno", e);
                f.times = *g.r.pick(&[12, 40, 1000]);
                g.c.sc.faults.push(f);
            }
            _ => {}
        }
        let m = *g.r.pick(&["--write", "--write", "--write", "--check", "", "--diff"]);
        if !m.is_empty() {
            v.push(s(m));
        }
        if g.r.chance(50) {
            v.push(s("docs"));
        } else {
            v.extend(paths.iter().map(|p| p[3..].to_string()));
        }
    }
    let a: Vec<&str> = v.iter().map(|x| x.as_str()).collect();
    g.argv(&a);
}

pub fn gen(cx: &mut Cx, family: &str, seed: u64, index: u64) -> Case {
    let mut g = G { cx, r: Rng::new(seed), c: Case { family: family.into(), index, ..Default::default() }, ndoc: 0, short: false };
    g.c.sc.dir("/w");
    match family {
        "par" => par(&mut g),
        "crash" => crash(&mut g),
        "hist" => hist(&mut g),
        "fmt" => fmt(&mut g),
        "stream" => stream(&mut g, false),
        "diff" => stream(&mut g, true),
        "cfg" => cfg(&mut g),
        "walk" => walk(&mut g),
        "incl" => incl(&mut g),
        "many" => many(&mut g),
        _ => panic!("family {family}"),
    }
    if g.c.sc.bgp[BG_DT_UNKNOWN] > 0 {
        // whether an entry of a directory without search permission is seen at all would depend on the entry
        for n in &mut g.c.sc.nodes {
            if n.kind == Kind::Dir && n.mode == 0o444 {
                n.mode = 0;
            }
        }
    }
    g.c
}
