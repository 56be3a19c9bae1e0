//! A case: everything needed to run one simulated execution (or a history of them) and to judge it.
use crate::docs::{Cfg, Doc};
use crate::model::{Sel, Tree};
use crate::sim::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum CfgState {
    Ok(Cfg),
    Broken,
}
/// one further run of a history: what differs from the first scenario
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Stage {
    pub argv: Vec<String>,
    pub faults: Vec<Fault>,
    pub seed: u64,
    pub strategy: u64,
    pub bgp: [u32; BG_N],
    #[serde(default)]
    pub replay: Option<(Vec<(u64, u64)>, Vec<(u64, u64)>)>,
    /// undisturbed run with the full set of expectations
    pub clean: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Case {
    pub family: String,
    pub index: u64,
    pub sc: Scenario,
    pub docs: BTreeMap<String, Doc>,
    pub cfgs: BTreeMap<String, CfgState>,
    /// configuration an external actor installs during the run (by path), None = deletes it
    #[serde(default)]
    pub cfg_edit: Option<(String, Option<CfgState>)>,
    #[serde(default)]
    pub stages: Vec<Stage>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Write,
    Check,
    Diff,
    Print,
}
#[derive(Clone, Debug)]
pub struct Args {
    pub mode: Mode,
    pub stdin: bool,
    pub files: Vec<String>,
    pub config: Option<String>,
    pub line_width: Option<String>,
}
pub fn parse_args(argv: &[String]) -> Args {
    let mut a = Args { mode: Mode::Print, stdin: false, files: vec![], config: None, line_width: None };
    let mut i = 1;
    while i < argv.len() {
        match argv[i].as_str() {
            "--write" | "-w" => a.mode = Mode::Write,
            "--check" | "-c" => a.mode = Mode::Check,
            "--diff" | "-d" => a.mode = Mode::Diff,
            "--stdin" | "-" => a.stdin = true,
            "--config" => {
                i += 1;
                a.config = argv.get(i).cloned();
            }
            "--line-width" => {
                i += 1;
                a.line_width = argv.get(i).cloned();
            }
            f => a.files.push(f.into()),
        }
        i += 1;
    }
    a
}

#[derive(Clone, Debug)]
pub struct Base {
    pub out: Vec<u8>,
    /// warnings: everything after the document name, in order
    pub warns: Vec<String>,
}
#[derive(Default)]
pub struct Memo(Mutex<HashMap<(u64, u64), Result<Arc<Base>, String>>>);
pub struct Cx<'a> {
    pub w: &'a mut Worker,
    pub memo: &'a Memo,
    pub baselines: u64,
}
impl Cx<'_> {
    /// one of the documents that are refused, with a message, because of how deeply they are nested
    pub fn refused(&mut self, content: &[u8], cfg: &Cfg) -> bool {
        too_deep(content) && matches!(self.base(content, cfg), Err(m) if m.starts_with("formatting one document alone ends with Exit 1 Error"))
    }
    /// the result of formatting one document alone, undisturbed
    pub fn base(&mut self, content: &[u8], cfg: &Cfg) -> Result<Arc<Base>, String> {
        let key = cfg.format_key();
        let k = (crate::rng::hash_bytes(content), crate::rng::hash_bytes(key.as_bytes()) ^ content.len() as u64);
        if let Some(b) = self.memo.0.lock().unwrap().get(&k) {
            return b.clone();
        }
        let mut sc = solo_scenario(content, &key);
        sc.rand_seed = 7;
        self.baselines += 1;
        let o = self.w.run(&sc);
        let r = if o.verdict == Verdict::Exit && o.code == 0 {
            let mut warns: Vec<String> = vec![];
            for l in String::from_utf8_lossy(&o.err).lines() {
                match l.strip_prefix("<stdin>") {
                    Some(x) => warns.push(x.to_string()),
                    None => warns.push(format!("?{l}")),
                }
            }
            Ok(Arc::new(Base { out: o.out, warns }))
        } else {
            Err(format!("formatting one document alone ends with {:?} {} {}", o.verdict, o.code, String::from_utf8_lossy(&o.err)))
        };
        self.memo.0.lock().unwrap().insert(k, r.clone());
        r
    }
}
/// nested far beyond anything a document needs: formatting it may be refused (but nothing worse may happen)
pub fn too_deep(content: &[u8]) -> bool {
    let t = String::from_utf8_lossy(content);
    DEEP.iter().any(|d| t.contains(&d.repeat(100))) || t.lines().any(|l| l.starts_with(&"  ".repeat(100)))
}
pub const DEEP: [&str; 5] = ["> ", "*a **b ", "- ", "> - ", "_x *y "];
pub fn solo_scenario(content: &[u8], cfg: &str) -> Scenario {
    let mut sc = Scenario { cwd: "/b".into(), stdin: Bytes(content.to_vec()), ..Default::default() };
    sc.dir("/b").file("/b/c.toml", cfg);
    sc.argv = ["hongdown", "--stdin", "--config", "/b/c.toml"].iter().map(|s| s.to_string()).collect();
    sc
}

// ------------------------------------------------------------------ configuration of a run
pub const SYS: &str = "/etc/hongdown/config.toml";
pub fn env_of(sc: &Scenario, k: &str) -> Option<String> {
    sc.env.iter().find_map(|e| e.strip_prefix(&format!("{k}=")).map(|s| s.to_string())).filter(|v| !v.is_empty())
}
/// configuration files in the order of priority (lowest first), the last one being the project file if there is one
pub struct Layers {
    pub paths: Vec<String>,
    pub project: Option<String>,
    pub explicit: Option<String>,
}
pub fn layers(case: &Case, t: &Tree, a: &Args, gone: Option<&str>, added: Option<&str>) -> Layers {
    if let Some(c) = &a.config {
        return Layers { paths: vec![c.clone()], project: None, explicit: Some(c.clone()) };
    }
    let home = env_of(&case.sc, "HOME").unwrap_or_else(|| "/home/u".into());
    let xdg = env_of(&case.sc, "XDG_CONFIG_HOME").filter(|x| x.starts_with('/')).unwrap_or_else(|| format!("{home}/.config"));
    // a path that cannot be examined counts as existing: the run must not carry on without it
    let exists = |p: &str| {
        Some(p) == added
            || match t.resolve(p, true) {
                Ok(r) => gone != Some(r.as_str()) && gone != Some(p),
                Err(crate::model::Er::Access | crate::model::Er::Loop) => gone != Some(p),
                _ => false,
            }
    };
    let mut paths: Vec<String> = vec![SYS.into(), format!("{home}/.hongdown.toml"), format!("{xdg}/hongdown/config.toml")];
    paths.retain(|p| exists(p));
    let mut d = t.cwd.clone();
    let mut project = None;
    loop {
        let p = crate::model::join(&d, ".hongdown.toml");
        if exists(&p) {
            project = Some(p.clone());
            // the legacy user file may be the same file as the project file
            paths.push(p);
            break;
        }
        if d == "/" {
            break;
        }
        d = crate::model::parent(&d);
    }
    Layers { paths, project, explicit: None }
}
/// one possible configuration of the run
#[derive(Clone, Debug)]
pub struct Eff {
    /// the unusable configuration files; an error has to name one of them
    pub bad: Vec<String>,
    /// None: the run has to fail; the path is the file to blame
    pub cfg: Result<Cfg, String>,
    /// directory the patterns are relative to: (real, displayed)
    pub dir: (String, String),
}
pub fn effective(case: &Case, t: &Tree, a: &Args, edit: Option<&(String, Option<CfgState>)>) -> Eff {
    let mut e = merged(case, t, a, edit);
    if let Some((what, names)) = e.cfg.as_ref().ok().and_then(|c| c.unusable()) {
        e.cfg = Err(what);
        e.bad = names;
    }
    e
}
fn merged(case: &Case, t: &Tree, a: &Args, edit: Option<&(String, Option<CfgState>)>) -> Eff {
    let gone = edit.and_then(|(p, s)| if s.is_none() { Some(p.as_str()) } else { None });
    let state = |p: &str, real: &str| -> CfgState {
        if let Some((ep, Some(s))) = edit {
            if ep == real {
                return s.clone();
            }
        }
        let _ = p;
        match t.e.get(real) {
            Some(e) if e.kind == Kind::File && t.readable(real) && t.searchable(&crate::model::parent(real)) => case.cfgs.get(real).cloned().unwrap_or(CfgState::Ok(Cfg::default())),
            _ => CfgState::Broken,
        }
    };
    let added = edit.and_then(|(p, s)| if s.is_some() { Some(p.as_str()) } else { None });
    let l = layers(case, t, a, gone, added);
    let dirof = |p: &Option<String>| -> (String, String) {
        match p {
            None => (t.cwd.clone(), t.cwd.clone()),
            Some(p) => {
                let d = match p.rfind('/') {
                    None => String::new(),
                    Some(0) => "/".into(),
                    Some(i) => p[..i].to_string(),
                };
                let real = if d.is_empty() { t.cwd.clone() } else { t.resolve(&d, true).unwrap_or_default() };
                let disp = if d.is_empty() { t.cwd.clone() } else { d };
                (real, disp)
            }
        }
    };
    let dir = dirof(&l.explicit.clone().or(l.project.clone()));
    let apply_w = |mut c: Cfg| {
        if let Some(w) = &a.line_width {
            c.top.insert("line_width".into(), w.clone());
        }
        c
    };
    if let Some(e) = &l.explicit {
        // the file the path names once somebody has created it
        let (ed, en) = match e.rfind('/') {
            None => (".", e.as_str()),
            Some(0) => ("/", &e[1..]),
            Some(i) => (&e[..i], &e[i + 1..]),
        };
        let new = added.filter(|p| e == p || t.resolve(ed, true).map(|d| crate::model::join(&d, en) == **p).unwrap_or(false));
        let s = match new.map(|p| Ok(p.to_string())).unwrap_or(t.resolve(e, true)) {
            Ok(r) if gone != Some(r.as_str()) => state(e, &r),
            _ => CfgState::Broken,
        };
        return Eff { cfg: match s { CfgState::Ok(c) => Ok(apply_w(c)), CfgState::Broken => Err(e.clone()) }, dir, bad: vec![e.clone()] };
    }
    let mut cfg = Cfg::default();
    let mut st: Vec<(String, CfgState)> = vec![];
    for p in &l.paths {
        let real = if Some(p.as_str()) == added { Ok(p.clone()) } else { t.resolve(p, true) };
        // a dangling link is like a missing file
        if real == Err(crate::model::Er::NoEnt) {
            continue;
        }
        let s = real.map(|r| state(p, &r)).unwrap_or(CfgState::Broken);
        st.push((p.clone(), s));
    }
    if let (Some(pp), Some((lp, CfgState::Ok(c)))) = (&l.project, st.last()) {
        if pp == lp && c.no_inherit {
            return Eff { cfg: Ok(apply_w(c.clone())), dir, bad: vec![] };
        }
    }
    let bad: Vec<String> = st.iter().filter(|(_, s)| matches!(s, CfgState::Broken)).map(|(p, _)| p.clone()).collect();
    for (p, s) in st {
        match s {
            CfgState::Broken => return Eff { cfg: Err(p), dir, bad },
            CfgState::Ok(c) => cfg = c.over(&cfg),
        }
    }
    Eff { cfg: Ok(apply_w(cfg)), dir, bad }
}

// ------------------------------------------------------------------ selection
#[derive(Clone, Debug, Default)]
pub struct Selection {
    pub files: Vec<Sel>,
    pub unreadable: Vec<(String, String)>,
    /// the run has to fail without doing anything
    pub must_fail: bool,
    /// an ignore file cannot be opened: the run may fail or carry on without it
    pub may_fail: bool,
    pub by_pattern: bool,
    pub dirs: Vec<String>,
}
pub fn select(t: &Tree, a: &Args, e: &Eff) -> Selection {
    let mut s = Selection::default();
    if a.files.is_empty() && !a.stdin {
        s.by_pattern = true;
        let Ok(c) = &e.cfg else { return s };
        match &c.include {
            Some(inc) if !inc.is_empty() => {
                let i = crate::model::include_select(t, &e.dir.0, &e.dir.1, inc, &c.exclude.clone().unwrap_or_default(), c.git_aware.unwrap_or(true));
                s.files = i.files;
                s.must_fail = i.must_fail;
                s.may_fail = i.may_fail;
                s.dirs = i.dirs.into_iter().collect();
            }
            _ => s.must_fail = true,
        }
        return s;
    }
    for f in &a.files {
        if t.is_dir(f) {
            let w = crate::model::walk(t, f);
            s.files.extend(w.files);
            s.unreadable.extend(w.unreadable);
        } else {
            s.files.push(Sel { display: f.clone(), real: t.resolve(f, true).map_err(|_| ()), raw: t.resolve(f, true).unwrap_or_default() });
        }
    }
    s
}
