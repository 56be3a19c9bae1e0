//! Reference models over the initial simulated tree: path resolution, directory walk, patterns, ignore files.
use crate::sim::{Kind, Nd, Scenario};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

#[derive(Clone)]
pub struct Ent {
    pub kind: Kind,
    pub mode: u32,
    pub uid: u32,
    pub data: Vec<u8>,
}
#[derive(Clone)]
pub struct Tree {
    pub e: BTreeMap<String, Ent>,
    pub uid: u32,
    pub cwd: String,
    /// ignore files (or `.git`) a faulty run may have taken as missing
    pub blind: BTreeSet<String>,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Er {
    NoEnt,
    Access,
    Loop,
    NotDir,
}
pub fn parent(p: &str) -> String {
    match p.rfind('/') {
        Some(0) | None => "/".into(),
        Some(i) => p[..i].into(),
    }
}
pub fn join(d: &str, n: &str) -> String {
    if d == "/" {
        format!("/{n}")
    } else {
        format!("{d}/{n}")
    }
}
impl Tree {
    pub fn new(sc: &Scenario) -> Tree {
        let mut t = Tree { e: BTreeMap::new(), uid: sc.uid as u32, cwd: sc.cwd.clone(), blind: BTreeSet::new() };
        t.e.insert("/".into(), Ent { kind: Kind::Dir, mode: 0o755, uid: 0, data: vec![] });
        for (i, n) in sc.nodes.iter().enumerate() {
            if sc.aux.contains(&n.path) {
                continue;
            }
            t.put(n, &sc.nodes[..i]);
        }
        t
    }
    fn mkdirs(&mut self, p: &str) {
        if p == "/" || self.e.contains_key(p) {
            return;
        }
        self.mkdirs(&parent(p));
        self.e.insert(p.into(), Ent { kind: Kind::Dir, mode: 0o755, uid: self.uid, data: vec![] });
    }
    fn put(&mut self, n: &Nd, before: &[Nd]) {
        self.mkdirs(&parent(&n.path));
        let mut data = n.data.0.clone();
        let mut mode = n.mode;
        if let Some(h) = &n.hard {
            if let Some(m) = before.iter().find(|m| &m.path == h) {
                data = m.data.0.clone();
                mode = m.mode;
            }
        }
        self.e.insert(n.path.clone(), Ent { kind: n.kind, mode, uid: n.uid, data });
    }
    fn perm(&self, p: &str, want: u32) -> bool {
        if self.uid == 0 {
            return true;
        }
        let e = &self.e[p];
        let bits = if e.uid == self.uid { e.mode >> 6 } else { e.mode };
        bits & 7 & want == want
    }
    pub fn readable(&self, p: &str) -> bool {
        self.perm(p, 4)
    }
    pub fn writable(&self, p: &str) -> bool {
        self.perm(p, 2)
    }
    pub fn searchable(&self, p: &str) -> bool {
        self.perm(p, 1)
    }
    pub fn children(&self, d: &str) -> Vec<String> {
        let pre = if d == "/" { "/".to_string() } else { format!("{d}/") };
        self.e.range(pre.clone()..).take_while(|(k, _)| k.starts_with(&pre)).filter(|(k, _)| k.len() > pre.len() && !k[pre.len()..].contains('/')).map(|(k, _)| k[pre.len()..].to_string()).collect()
    }
    /// canonical path of an existing object
    pub fn resolve(&self, path: &str, follow: bool) -> Result<String, Er> {
        self.res(&self.cwd.clone(), path, follow, 0)
    }
    fn res(&self, base: &str, path: &str, follow: bool, depth: u32) -> Result<String, Er> {
        if depth > 40 {
            return Err(Er::Loop);
        }
        let mut d = if path.starts_with('/') { "/".to_string() } else { base.to_string() };
        let comps: Vec<&str> = path.split('/').filter(|c| !c.is_empty()).collect();
        for (i, c) in comps.iter().enumerate() {
            let last = i + 1 == comps.len();
            if self.e[&d].kind != Kind::Dir {
                return Err(Er::NotDir);
            }
            if !self.searchable(&d) {
                return Err(Er::Access);
            }
            match *c {
                "." => continue,
                ".." => {
                    d = parent(&d);
                    continue;
                }
                _ => {}
            }
            let p = join(&d, c);
            let Some(e) = self.e.get(&p) else { return Err(Er::NoEnt) };
            if e.kind == Kind::Link && (!last || follow || path.ends_with('/')) {
                let t = String::from_utf8_lossy(&e.data).into_owned();
                d = self.res(&d, &t, true, depth + 1)?;
            } else {
                d = p;
            }
        }
        if path.ends_with('/') && self.e[&d].kind != Kind::Dir {
            return Err(Er::NotDir);
        }
        Ok(d)
    }
    pub fn is_dir(&self, p: &str) -> bool {
        self.resolve(p, true).map(|r| self.e[&r].kind == Kind::Dir).unwrap_or(false)
    }
}
pub fn is_markdown(name: &str) -> bool {
    Path::new(name).extension().is_some_and(|e| e.eq_ignore_ascii_case("md") || e.eq_ignore_ascii_case("markdown"))
}
#[derive(Clone, Debug)]
pub struct Sel {
    pub display: String,
    /// canonical path, if it could be resolved
    pub real: Result<String, ()>,
    /// where the walk finds it, even if it cannot be resolved
    pub raw: String,
}
#[derive(Default, Clone, Debug)]
pub struct Walk {
    pub files: Vec<Sel>,
    /// directories (display, real) that cannot be listed
    pub unreadable: Vec<(String, String)>,
}
pub fn walk(t: &Tree, arg: &str) -> Walk {
    let mut w = Walk::default();
    let Ok(root) = t.resolve(arg, true) else { return w };
    let mut found: Vec<(PathBuf, String)> = vec![];
    let mut stack = vec![];
    rec(t, Path::new(arg), &root, &mut stack, &mut found, &mut w.unreadable);
    found.sort();
    for (d, r) in found {
        let real = if t.searchable(&parent(&r)) { Ok(r.clone()) } else { Err(()) };
        w.files.push(Sel { display: d.to_string_lossy().into_owned(), real, raw: r });
    }
    w
}
fn rec(t: &Tree, disp: &Path, real: &str, stack: &mut Vec<String>, out: &mut Vec<(PathBuf, String)>, bad: &mut Vec<(String, String)>) {
    if !t.readable(real) {
        bad.push((disp.to_string_lossy().into_owned(), real.to_string()));
        return;
    }
    stack.push(real.to_string());
    for n in t.children(real) {
        let d = disp.join(&n);
        let p = join(real, &n);
        let e = &t.e[&p];
        if !t.searchable(real) {
            // its entries are visible by name only
            if e.kind == Kind::Dir {
                bad.push((d.to_string_lossy().into_owned(), p));
            } else if e.kind == Kind::File && is_markdown(&n) {
                out.push((d, p));
            } else if e.kind == Kind::Link {
                bad.push((d.to_string_lossy().into_owned(), p));
            }
            continue;
        }
        let r = if e.kind == Kind::Link {
            match t.res(real, &n, true, 0) {
                Ok(r) => r,
                Err(Er::NoEnt) | Err(Er::Loop) | Err(Er::NotDir) => continue,
                Err(Er::Access) => {
                    bad.push((d.to_string_lossy().into_owned(), p));
                    continue;
                }
            }
        } else {
            p
        };
        match t.e[&r].kind {
            Kind::Dir => {
                // a link to a directory the walk is in is not followed
                if e.kind != Kind::Link || !stack.contains(&r) {
                    rec(t, &d, &r, stack, out, bad);
                }
            }
            Kind::File => {
                if is_markdown(&n) {
                    out.push((d, r));
                }
            }
            _ => {}
        }
    }
    stack.pop();
}

// ---- patterns with gitignore syntax
fn seg_match(p: &[u8], s: &[u8]) -> bool {
    if p.is_empty() {
        return s.is_empty();
    }
    match p[0] {
        b'*' => (0..=s.len()).any(|i| seg_match(&p[1..], &s[i..])),
        b'?' => !s.is_empty() && seg_match(&p[1..], &s[1..]), // one byte, as with git
        b'[' => {
            let Some(end) = p.iter().position(|c| *c == b']') else { return false };
            if s.is_empty() {
                return false;
            }
            let mut set = &p[1..end];
            let neg = !set.is_empty() && (set[0] == b'!' || set[0] == b'^');
            if neg {
                set = &set[1..];
            }
            let mut hit = false;
            let mut i = 0;
            while i < set.len() {
                if i + 2 < set.len() && set[i + 1] == b'-' {
                    hit |= set[i] <= s[0] && s[0] <= set[i + 2];
                    i += 3;
                } else {
                    hit |= set[i] == s[0];
                    i += 1;
                }
            }
            hit != neg && seg_match(&p[end + 1..], &s[1..])
        }
        b'\\' if p.len() > 1 => !s.is_empty() && s[0] == p[1] && seg_match(&p[2..], &s[1..]),
        c => !s.is_empty() && s[0] == c && seg_match(&p[1..], &s[1..]),
    }
}
fn segs_match(p: &[&str], s: &[&str]) -> bool {
    if p.is_empty() {
        return s.is_empty();
    }
    if p[0] == "**" {
        if p.len() == 1 {
            return !s.is_empty(); // everything inside
        }
        return (0..=s.len()).any(|i| segs_match(&p[1..], &s[i..]));
    }
    !s.is_empty() && seg_match(p[0].as_bytes(), s[0].as_bytes()) && segs_match(&p[1..], &s[1..])
}
/// does the pattern match the path `rel` (relative to the pattern's base)?
pub fn pat_match(pat: &str, rel: &str, is_dir: bool) -> bool {
    let mut p = pat;
    let dir_only = p.ends_with('/');
    if dir_only {
        p = &p[..p.len() - 1];
        if !is_dir {
            return false;
        }
    }
    let anchored = p.contains('/');
    let p = p.strip_prefix('/').unwrap_or(p);
    let ps: Vec<&str> = p.split('/').collect();
    let ss: Vec<&str> = rel.split('/').collect();
    if anchored {
        segs_match(&ps, &ss)
    } else {
        seg_match(p.as_bytes(), ss[ss.len() - 1].as_bytes())
    }
}
fn rules(text: &str) -> Vec<(bool, String)> {
    text.lines()
        .filter_map(|l| {
            let l = l.trim_end();
            if l.is_empty() || l.starts_with('#') {
                return None;
            }
            match l.strip_prefix('!') {
                Some(r) => Some((true, r.to_string())),
                None => Some((false, l.strip_prefix('\\').filter(|x| x.starts_with('#') || x.starts_with('!')).unwrap_or(l).to_string())),
            }
        })
        .collect()
}
fn last_rule(text: &str, rel: &str, is_dir: bool) -> Option<bool> {
    // Some(true): ignored
    rules(text).iter().rev().find(|(_, p)| pat_match(p, rel, is_dir)).map(|(neg, _)| !neg)
}
/// the directory that holds `.git` and governs `dir`, if any
fn git_root(t: &Tree, dir: &str) -> Option<String> {
    let mut d = dir.to_string();
    loop {
        if t.e.contains_key(&join(&d, ".git")) && !t.blind.contains(&join(&d, ".git")) {
            return Some(d);
        }
        if d == "/" {
            return None;
        }
        d = parent(&d);
    }
}
fn rel_to<'a>(p: &'a str, d: &str) -> &'a str {
    if d == "/" {
        &p[1..]
    } else {
        &p[d.len() + 1..]
    }
}
fn ignored_here(t: &Tree, p: &str, is_dir: bool) -> bool {
    let Some(root) = git_root(t, &parent(p)) else { return false };
    let mut d = parent(p);
    loop {
        if let Some(e) = t.e.get(&join(&d, ".gitignore")) {
            if e.kind == Kind::File && t.readable(&join(&d, ".gitignore")) && !t.blind.contains(&join(&d, ".gitignore")) {
                if let Some(x) = last_rule(&String::from_utf8_lossy(&e.data), rel_to(p, &d), is_dir) {
                    return x;
                }
            }
        }
        if d == root {
            break;
        }
        d = parent(&d);
    }
    let ex = join(&join(&root, ".git"), "info/exclude");
    if let Some(e) = t.e.get(&ex).filter(|_| t.resolve(&ex, true).is_ok() && t.readable(&ex) && !t.blind.contains(&ex)) {
        if let Some(x) = last_rule(&String::from_utf8_lossy(&e.data), rel_to(p, &root), is_dir) {
            return x;
        }
    }
    false
}
/// an ignore file that exists but cannot be read
fn opaque(t: &Tree, p: &str) -> bool {
    match t.resolve(p, true) {
        Ok(r) => t.e[&r].kind == Kind::File && !t.readable(&r),
        Err(e) => e == Er::Access,
    }
}
#[derive(Default, Clone, Debug)]
pub struct Incl {
    pub files: Vec<Sel>,
    /// something that decides about the selection cannot be read: the run must fail
    pub must_fail: bool,
    /// an ignore file cannot be opened
    pub may_fail: bool,
    /// directories visited by the reference
    pub dirs: BTreeSet<String>,
}
/// selection by include/exclude patterns below `base` (a real directory), displayed as `disp`
pub fn include_select(t: &Tree, base: &str, disp: &str, inc: &[String], exc: &[String], git: bool) -> Incl {
    let mut r = Incl::default();
    let mut found: Vec<(PathBuf, String)> = vec![];
    incl_rec(t, base, Path::new(disp), base, inc, exc, git, &mut r, &mut found);
    if git {
        if let Some(root) = git_root(t, base) {
            let mut d = base.to_string();
            while d != root {
                d = parent(&d);
                r.must_fail |= opaque(t, &join(&d, ".gitignore"));
            }
            r.must_fail |= opaque(t, &join(&root, ".git/info/exclude"));
        }
        // repositories further down
        r.may_fail = t.e.keys().any(|p| p.ends_with("/.git/info/exclude") && opaque(t, p));
    }
    found.sort();
    r.files = found.into_iter().map(|(d, p)| Sel { display: d.to_string_lossy().into_owned(), real: Ok(p.clone()), raw: p }).collect();
    r
}
#[allow(clippy::too_many_arguments)]
fn incl_rec(t: &Tree, dir: &str, disp: &Path, base: &str, inc: &[String], exc: &[String], git: bool, r: &mut Incl, out: &mut Vec<(PathBuf, String)>) {
    r.dirs.insert(dir.to_string());
    if !t.readable(dir) || !t.searchable(dir) {
        r.must_fail = true;
        return;
    }
    if git {
        r.must_fail |= opaque(t, &join(dir, ".gitignore"));
    }
    for n in t.children(dir) {
        let p = join(dir, &n);
        let d = disp.join(&n);
        let rel = rel_to(&p, base).to_string();
        let e = &t.e[&p];
        let is_dir = e.kind == Kind::Dir;
        if git && n == ".git" {
            continue;
        }
        if exc.iter().any(|x| pat_match(x, &rel, is_dir)) {
            continue;
        }
        if git && ignored_here(t, &p, is_dir) {
            continue;
        }
        if is_dir {
            incl_rec(t, &p, &d, base, inc, exc, git, r, out);
            continue;
        }
        let real = match t.resolve(&p, true) {
            Ok(x) => x,
            Err(Er::Access) => {
                r.must_fail |= inc.iter().any(|x| pat_match(x, &rel, false));
                continue;
            }
            Err(_) => continue,
        };
        if t.e[&real].kind != Kind::File {
            continue;
        }
        if inc.iter().any(|x| pat_match(x, &rel, false)) {
            out.push((d, real));
        }
    }
}
