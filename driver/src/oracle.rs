//! Judges an outcome: every expectation is derived from the scenario, the recorded faults and reference models.
use crate::case::*;
use crate::docs::*;
use crate::model::*;
use crate::sim::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Viol {
    pub props: Vec<&'static str>,
    pub msg: String,
}
fn v(props: &[&'static str], msg: impl Into<String>) -> Viol {
    Viol { props: props.to_vec(), msg: msg.into() }
}
fn lossy(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.len() > 300 {
        let mut e = 300;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{:?}... ({} bytes)", &s[..e], b.len())
    } else {
        format!("{s:?}")
    }
}
const SEC: u64 = 1_000_000_000;

/// what happened to the run from outside
struct Env {
    errs: Vec<(String, String)>, // (class, path) of injected errors on files and directories
    fmt_faults: bool,            // injected errors around formatter processes
    capacity: bool,
    actor: Vec<(String, String, usize)>, // (action, path, fault index)
    out_fault: bool,
    err_fault: bool,
    stdin_fault: bool,
    stall: u64,
    cfg_err: Vec<String>,
}
const FMT_CLS: &[&str] = &["spawn", "pread", "pwrite", "wait", "pipe", "kill"];
fn env_of_run(sc: &Scenario, o: &Outcome) -> Env {
    let mut e = Env { errs: vec![], fmt_faults: false, capacity: sc.capacity.is_some(), actor: vec![], out_fault: false, err_fault: false, stdin_fault: false, stall: 0, cfg_err: vec![] };
    for f in &o.fired {
        if f.fault == 1000 {
            e.out_fault = true;
            continue;
        }
        if f.fault == 1001 {
            e.err_fault = true;
            continue;
        }
        let Some(d) = sc.faults.get(f.fault as usize) else { continue };
        match d.act.as_str() {
            "errno" => {
                let by_path = |p: &str| match p {
                    "<stdout>" => "stdout",
                    "<stderr>" => "stderr",
                    "<stdin>" => "stdin",
                    "<pipe>" => "pread",
                    _ => "",
                };
                let mut c = d.cls.as_str();
                if c == "any" || c == "mut" {
                    if !by_path(&f.path).is_empty() {
                        c = by_path(&f.path);
                    }
                }
                match c {
                    "stdout" => e.out_fault = true,
                    "stderr" => e.err_fault = true,
                    "stdin" => e.stdin_fault = true,
                    "thread" if f.path == "<formatter>" => e.fmt_faults = true,
                    _ if FMT_CLS.contains(&c) => e.fmt_faults = true,
                    _ => {
                        if f.path.ends_with(".toml") {
                            e.cfg_err.push(f.path.clone());
                        } else {
                            e.errs.push((d.cls.clone(), f.path.clone()));
                        }
                    }
                }
            }
            "stall" => e.stall += d.arg as u64,
            "capacity" => e.capacity = true,
            "setfile" | "delete" | "chmod" | "mkdir" => e.actor.push((d.act.clone(), d.p2.clone(), f.fault as usize)),
            "rename" => {
                e.actor.push((d.act.clone(), d.p2.clone(), f.fault as usize));
                e.actor.push((d.act.clone(), String::from_utf8_lossy(&d.blob.0).into_owned(), f.fault as usize));
            }
            _ => {}
        }
    }
    e.stall += o.bg.iter().filter(|(k, _)| *k == BG_STALL as u64).count() as u64 * 6_000_000;
    e
}

// ------------------------------------------------------------------ formatters
/// how long a script takes if its peer supplies the input and takes the output; None if it does not end by itself
fn natural(s: &Script) -> Option<u64> {
    let mut t = 0;
    for st in &s.steps {
        match st.op.as_str() {
            "sleep" => t += st.a,
            "hang" | "outflood" => return None,
            "exit" | "signal" => break,
            _ => {}
        }
    }
    Some(t)
}
/// what a script comes to for an input
fn resolve(s: &Script, code: &[u8]) -> Script {
    let mut r = Script { prog: s.prog.clone(), spawn_errno: s.spawn_errno, steps: vec![] };
    let mut i = 0;
    while i < s.steps.len() {
        let t = &s.steps[i];
        i += 1;
        if t.op == "unless" {
            let m = &t.data.0;
            if !code.windows(m.len()).any(|w| w == &m[..]) {
                i += t.a as usize;
            }
        } else {
            r.steps.push(t.clone());
        }
    }
    r
}
fn variants(s: &Script) -> Vec<Script> {
    let mut r = vec![resolve(s, b"")];
    for t in s.steps.iter().filter(|t| t.op == "unless") {
        r.push(resolve(s, &t.data.0));
    }
    r
}
/// a formatter ends just before its limit, or the clock was set: a wrong document may be a wrong time-out
fn timing(sc: &Scenario, o: &Outcome, fs: &[Fmt]) -> bool {
    o.fired.iter().any(|f| sc.faults.get(f.fault as usize).map(|d| d.act == "clock").unwrap_or(false))
        || fs.iter().any(|f| sc.scripts.iter().any(|s| s.prog == f.command[0] && variants(s).iter().any(|s| natural(s).map(|n| n < f.limit_ns() && n + 100_000_000 > f.limit_ns()).unwrap_or(false))))
}
struct Block {
    fmt: Fmt,
    allowed: Vec<Option<String>>,
    problems: Vec<Viol>,
}
fn block(sc: &Scenario, o: &Outcome, env: &Env, f: &Fmt, code: &str) -> Block {
    let mut b = Block { fmt: f.clone(), allowed: vec![], problems: vec![] };
    let add = |b: &mut Block, x: Option<String>| {
        if !b.allowed.contains(&x) {
            b.allowed.push(x)
        }
    };
    let script = sc.scripts.iter().rev().find(|s| s.prog == f.command[0]);
    let Some(s) = script else {
        b.allowed.push(None);
        return b;
    };
    let s = &resolve(s, code.as_bytes());
    if s.spawn_errno != 0 {
        b.allowed.push(None);
        return b;
    }
    if env.fmt_faults {
        add(&mut b, None);
    }
    let code_b = code.as_bytes();
    let cands: Vec<&ChildRec> = o.children.iter().filter(|c| c.argv == f.command && code_b.starts_with(&c.got) && (!c.got.is_empty() || true)).collect();
    let exact: Vec<&ChildRec> = cands.iter().copied().filter(|c| !c.got.is_empty()).collect();
    let mut cands = if exact.is_empty() { cands } else { exact };
    // one that was given nothing at all belongs to a block without code
    if !code_b.is_empty() && cands.iter().any(|c| !c.eof) {
        cands.retain(|c| !(c.eof && c.got.is_empty()));
    }
    if cands.is_empty() {
        if !env.fmt_faults && o.verdict == Verdict::Exit {
            b.problems.push(v(&["C07"], format!("no process of formatter {:?} received the code {} (or a part of it)", f.command, lossy(code_b))));
        }
        add(&mut b, None);
        return b;
    }
    let lim = f.limit_ns();
    let slack = 300_000_000 + env.stall;
    let early = 20_000_000 + env.stall;
    for c in cands {
        let dur = c.t_exit.saturating_sub(c.t_spawn);
        let ok = c.zombie && c.status == 0 && !c.killed;
        if let Some(n) = natural(s) {
            if c.killed && n + early < lim && dur + early < lim && !env.fmt_faults && o.verdict == Verdict::Exit {
                b.problems.push(v(&["C09"], format!("formatter {:?} needs {} ms of its {} s but was killed already after {} ms", f.command, n / 1_000_000, lim / SEC, dur / 1_000_000)));
            }
            // it would have ended in time by itself
            if !ok_end(c) && n + 500_000_000 + slack < lim && !env.fmt_faults && o.verdict == Verdict::Exit {
                let how = if c.killed { "was killed" } else { "was left running" };
                b.problems.push(v(&["C07", "C09"], format!("formatter {:?} needs {} ms of its {} s but {how} after {} ms having read {} of {} bytes (end of input seen: {}) and written {} bytes", f.command, n / 1_000_000, lim / SEC, dur / 1_000_000, c.got.len(), code.len(), c.eof, c.sent.len())));
            }
        }
        if ok {
            let reads_all = s.steps.iter().any(|t| t.op == "readall" || t.op == "streamx");
            if reads_all && c.eof && c.got != code_b && !env.fmt_faults {
                b.problems.push(v(&["C07"], format!("formatter {:?} received {} instead of {}", f.command, lossy(&c.got), lossy(code_b))));
            }
            match String::from_utf8(c.sent.clone()) {
                Ok(t) => {
                    // a truncated input is not the block's code
                    let cut = env.fmt_faults && reads_all && c.eof && c.got != code_b;
                    // moving much data takes its time, and the run may notice the end only afterwards
                    let busy = o.ops * 2_000 + (c.got.len() + c.sent.len()) as u64 * 4_000;
                    if dur < lim + slack + busy && !cut {
                        add(&mut b, Some(t));
                    }
                    if dur + early >= lim || cut {
                        add(&mut b, None);
                    }
                }
                Err(_) => add(&mut b, None),
            }
        } else {
            add(&mut b, None);
        }
    }
    b
}
fn ok_end(c: &ChildRec) -> bool {
    c.zombie && !c.killed
}

// ------------------------------------------------------------------ standard error
#[derive(Default, Debug, Clone)]
struct Diag {
    warns: Vec<String>,
    fmt: Vec<String>,
    not_formatted: usize,
    errs: Vec<String>,
}
struct Stderr {
    per: BTreeMap<String, Diag>,
    other: Vec<String>,
    problems: Vec<Viol>,
}
fn parse_stderr(o: &Outcome, displays: &BTreeSet<String>, cfg: Option<&Cfg>, complete: bool) -> Stderr {
    let text = String::from_utf8_lossy(&o.err).into_owned();
    let mut r = Stderr { per: BTreeMap::new(), other: vec![], problems: vec![] };
    let mut by_len: Vec<&String> = displays.iter().collect();
    by_len.sort_by_key(|d| std::cmp::Reverse(d.len()));
    let cmds: Vec<String> = cfg.map(|c| c.formatters.iter().map(|f| f.command.join(" ")).collect()).unwrap_or_default();
    // lines formatters wrote to their standard error may be part of a message
    let mut cont: BTreeSet<String> = BTreeSet::new();
    let mut said: BTreeSet<Vec<String>> = BTreeSet::new();
    for c in &o.children {
        let t = String::from_utf8_lossy(&c.senterr).into_owned();
        cont.extend(t.lines().map(|l| l.trim().to_string()));
        let ls: Vec<String> = t.trim().lines().map(|l| l.trim().to_string()).collect();
        if ls.len() > 1 {
            said.insert(ls);
        }
    }
    // what the message being printed may go on with, and what messages that were cut off lack
    let mut rest_of: Vec<&[String]> = vec![];
    let mut lacking: Vec<&[String]> = vec![];
    let lines: Vec<&str> = text.split('\n').collect();
    let mut in_fmt = false;
    for (i, l) in lines.iter().enumerate() {
        if i + 1 == lines.len() {
            if !l.is_empty() && complete {
                r.problems.push(v(&["C19"], format!("standard error ends in the middle of a line: {l:?}")));
            }
            break;
        }
        let head = by_len.iter().find(|d| l.starts_with(d.as_str()) && l[d.len()..].starts_with(':'));
        if let Some(d) = head {
            let rest = &l[d.len()..];
            let e = r.per.entry(d.to_string()).or_default();
            if rest == ": not formatted" {
                e.not_formatted += 1;
                in_fmt = false;
                lacking.append(&mut rest_of);
                continue;
            }
            let w = rest[1..].split_once(": warning: ").map(|(n, _)| !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit())).unwrap_or(false);
            if w {
                lacking.append(&mut rest_of);
                if cmds.iter().any(|c| rest.contains(c.as_str())) {
                    e.fmt.push(rest.to_string());
                    in_fmt = true;
                    rest_of = said.iter().filter(|ls| rest.trim_end().ends_with(ls[0].as_str())).map(|ls| &ls[1..]).collect();
                } else {
                    e.warns.push(rest.to_string());
                    in_fmt = false;
                }
                continue;
            }
        }
        if in_fmt && rest_of.iter().any(|t| t[0] == l.trim()) {
            rest_of = rest_of.iter().filter(|t| t[0] == l.trim() && t.len() > 1).map(|t| &t[1..]).collect();
            continue;
        }
        if complete && !l.trim().is_empty() && lacking.iter().any(|t| t[0] == l.trim()) {
            r.problems.push(v(&["C19"], format!("a message is interrupted by others: {l:?} is not next to the line it follows")));
            lacking.clear();
        }
        lacking.append(&mut rest_of);
        if in_fmt && (cont.contains(l.trim()) || l.trim().is_empty()) {
            continue;
        }
        in_fmt = false;
        let named = by_len.iter().find(|d| find_named(l, d));
        if let Some(d) = named {
            if l.starts_with("Error") || l.starts_with("Warning") || l.starts_with("error") {
                r.per.entry(d.to_string()).or_default().errs.push(l.to_string());
                continue;
            }
        }
        r.other.push(l.to_string());
        if !(l.starts_with("Error") || l.starts_with("Warning") || l.starts_with("error")) && displays.iter().any(|d| d.len() > 4 && l.contains(d.as_str())) && !l.contains("panicked") {
            r.problems.push(v(&["C19"], format!("torn or merged line on standard error: {l:?}")));
        }
    }
    r
}
fn find_named(l: &str, d: &str) -> bool {
    let mut from = 0;
    while let Some(i) = l[from..].find(d) {
        let a = from + i;
        let before = l[..a].chars().last().map(|c| c == ' ' || c == '\'' || c == '"' || c == '`').unwrap_or(true);
        let after = l[a + d.len()..].chars().next().map(|c| c == ':' || c == ' ' || c == '\'' || c == '"' || c == '`').unwrap_or(true);
        if before && after {
            return true;
        }
        from = a + 1;
        while !l.is_char_boundary(from) {
            from += 1;
        }
    }
    false
}

// ------------------------------------------------------------------ expectations per document
struct Alt {
    out: Vec<u8>,
    failed: Vec<usize>, // formatter index per block that keeps its code
    used: usize,
}
struct Exp {
    display: String,
    real: Option<String>,
    bad: bool,        // cannot be read or decoded
    wbad: bool,       // cannot be written
    old: Vec<u8>,
    alts: Vec<Alt>,   // empty: not determined
    warns: Vec<String>,
    affected: bool,
    dups: bool,
    loose: bool,
    nblocks: usize,
    vanished_dir: bool, // may be missing from the selection
}
fn alternatives(cx: &mut Cx, case: &Case, sc: &Scenario, o: &Outcome, env: &Env, cfg: &Cfg, key: &str, old: &[u8], problems: &mut Vec<Viol>) -> Result<(Vec<Alt>, Vec<String>, usize), String> {
    let plain = cx.base(old, cfg)?;
    let doc = case.docs.get(key).filter(|d| d.plain() == old);
    let blocks = doc.map(|d| d.eligible(cfg)).unwrap_or_default();
    if blocks.is_empty() || doc.is_none() {
        return Ok((vec![Alt { out: plain.out.clone(), failed: vec![], used: 0 }], plain.warns.clone(), 0));
    }
    let doc = doc.unwrap();
    let res: Vec<Block> = blocks.iter().map(|(_, f, code)| block(sc, o, env, &cfg.formatters[*f], code)).collect();
    let mut combos: Vec<Vec<Option<String>>> = vec![vec![]];
    for b in &res {
        let mut n = vec![];
        for c in &combos {
            for a in &b.allowed {
                let mut d = c.clone();
                d.push(a.clone());
                n.push(d);
            }
        }
        combos = n;
        if combos.len() > 24 {
            break;
        }
    }
    for b in res {
        let _ = &b.fmt;
        problems.extend(b.problems);
    }
    if combos.len() > 24 {
        return Ok((vec![], plain.warns.clone(), blocks.len()));
    }
    let mut alts = vec![];
    for c in combos {
        let bytes = doc.render(&|i| blocks.iter().position(|(p, _, _)| *p == i).and_then(|k| c[k].clone()));
        let b = cx.base(&bytes, cfg)?;
        for x in c.iter().flatten() {
            if let Some(m) = short_fence(&b.out, x) {
                problems.push(v(&["C07"], format!("{key}: the output of a formatter is not within one code block: {m}")));
            }
        }
        let failed = c.iter().enumerate().filter(|(_, x)| x.is_none()).map(|(k, _)| blocks[k].1).collect();
        let used = c.iter().filter(|x| x.is_some()).count();
        alts.push(Alt { out: b.out.clone(), failed, used });
    }
    Ok((alts, plain.warns.clone(), blocks.len()))
}

fn fence_of(l: &str) -> Option<(char, usize)> {
    let l = l.trim_start();
    let c = l.chars().next().filter(|c| *c == '~' || *c == '`')?;
    let n = l.chars().take_while(|x| *x == c).count();
    (n >= 3).then_some((c, n))
}
/// a code block with content x whose fence occurs in x too, so that a reader sees the block end early
fn short_fence(out: &[u8], x: &str) -> Option<String> {
    let within: Vec<(char, usize)> = x.lines().filter_map(fence_of).collect();
    if within.is_empty() {
        return None;
    }
    let out = String::from_utf8_lossy(out);
    let (out, x): (Vec<&str>, Vec<&str>) = (out.lines().collect(), x.lines().collect());
    for i in 0..out.len().saturating_sub(x.len()) {
        if !x.iter().zip(&out[i + 1..]).all(|(a, b)| b.ends_with(a.trim_end())) {
            continue;
        }
        let Some((c, n)) = fence_of(out[i].trim_start_matches(['>', ' ', '\t'])) else { continue };
        if out.get(i + 1 + x.len()).and_then(|l| fence_of(l.trim_start_matches(['>', ' ', '\t']))) != Some((c, n)) {
            continue;
        }
        if within.iter().any(|(d, m)| *d == c && *m >= n) {
            return Some(format!("{:?}", out[i..(i + x.len() + 2).min(out.len())].join("\n")));
        }
    }
    None
}
pub fn run_stage(cx: &mut Cx, case: &Case, sc: &Scenario, o: &Outcome) -> Vec<Viol> {
    let mut vs: Vec<Viol> = vec![];
    let env = env_of_run(sc, o);
    let t = Tree::new(sc);
    let a = parse_args(&sc.argv);
    let fmt = !sc.scripts.is_empty();
    let err = String::from_utf8_lossy(&o.err).into_owned();
    if !o.watch_viol.is_empty() {
        vs.push(v(&["C01"], o.watch_viol.clone()));
    }
    let deep = sc.nodes.iter().any(|n| too_deep(&n.data.0));
    match o.verdict {
        Verdict::Hang | Verdict::Steps => {
            let mut p = vec!["C03"];
            if fmt {
                p.extend(["C09", "C07", "C02"]);
            }
            vs.push(v(&p, format!("the run never ends ({:?}): {}", o.verdict, o.waiting)));
            return vs;
        }
        Verdict::Signal => {
            vs.push(v(if deep { &["C03", "C02"] } else { &["C03"] }, format!("the process died of signal {}", o.code)));
            return vs;
        }
        Verdict::Abort => {
            let mut p = vec!["C03", "C11"];
            if fmt {
                p.push("C07");
            }
            if matches!(a.mode, Mode::Write | Mode::Check) && (deep || !env.errs.is_empty()) {
                p.push("C02");
            }
            vs.push(v(&p, format!("the process aborted (status {}): {}", o.code, lossy(&o.err))));
            return vs;
        }
        Verdict::Harness | Verdict::Wall => return vs,
        _ => {}
    }
    if o.verdict == Verdict::Exit && (o.code == 101 || err.contains("panicked at")) {
        let mut p = vec!["C03", "C11"];
        if fmt {
            p.extend(["C07", "C08"]);
        }
        vs.push(v(&p, format!("the run panicked (exit status {}): {}", o.code, lossy(&o.err))));
        // what it did and did not do besides is judged like that of any other run
    }
    let c1 = children(sc, o, &a);
    // configurations the run may have used
    let mut effs: Vec<Eff> = vec![effective(case, &t, &a, None)];
    if let Some(ed) = &case.cfg_edit {
        if env.actor.iter().any(|(_, p, _)| p == &ed.0) {
            effs.push(effective(case, &t, &a, Some(ed)));
        }
    }
    if effs.len() > 1 && read_twice(case, &t, &a) {
        vs.extend(c1);
        return vs;
    }
    for p in &env.cfg_err {
        let d = effs[0].dir.clone();
        let mut bad = vec![p.clone()];
        let l = layers(case, &t, &a, None, None);
        bad.extend(l.explicit.into_iter().chain(l.paths).filter(|x| t.resolve(x, true).as_deref() == Ok(p.as_str())));
        bad.extend(effs[0].bad.clone());
        effs.push(Eff { cfg: Err(p.clone()), dir: d, bad });
    }
    // a value that is unusable, but overridden by another file, may or may not be complained about
    for c in case.cfgs.values().chain(case.cfg_edit.iter().filter_map(|x| x.1.as_ref())) {
        if let CfgState::Ok(c) = c {
            if let Some((what, names)) = c.unusable() {
                let dir = effs[0].dir.clone();
                effs.push(Eff { cfg: Err(what), dir, bad: names });
            }
        }
    }
    let mut best: Option<Vec<Viol>> = None;
    let layered = layers(case, &t, &a, None, None).paths.len() > 1 || case.cfg_edit.is_some();
    for e in &effs {
        let sel = select(&t, &a, e);
        let mut tries: Vec<bool> = vec![false];
        if e.cfg.is_err() || sel.must_fail {
            tries = vec![true];
        } else if sel.by_pattern && (sel.may_fail || !env.errs.is_empty() || !env.actor.is_empty()) {
            tries = vec![false, true];
        }
        for mf in tries {
            let r = if mf {
                must_fail(o, e, &sel)
            } else if a.stdin || a.mode == Mode::Diff || a.mode == Mode::Print {
                stream(cx, case, sc, o, &env, &t, &a, e, &sel, layered)
            } else {
                parallel(cx, case, sc, o, &env, &t, &a, e, &sel, layered)
            };
            if best.as_ref().map(|b| r.len() < b.len()).unwrap_or(true) {
                best = Some(r);
            }
            if best.as_ref().unwrap().is_empty() {
                break;
            }
        }
        if best.as_ref().unwrap().is_empty() {
            break;
        }
    }
    vs.extend(c1);
    let best = best.unwrap_or_default();
    if !best.is_empty() {
        // is it the selection made without an ignore file that met an injected error?
        let way = |p: &str| effs[0].dir.0 == p || effs[0].dir.0.starts_with(&format!("{}/", p.trim_end_matches('/')));
        let hit: Vec<String> = env.errs.iter().map(|(_, p)| p.clone()).filter(|p| p.ends_with("/.gitignore") || p.ends_with("/.git") || p.contains("/.git/info") || way(p)).collect();
        if !hit.is_empty() && effs[0].cfg.is_ok() {
            let mut t2 = t.clone();
            t2.blind = hit.iter().cloned().collect();
            // without its real path, a directory has no parents
            let base = &effs[0].dir.0;
            if env.errs.iter().any(|(_, p)| way(p)) {
                let mut d = base.clone();
                while d != "/" {
                    d = parent(&d);
                    for x in [".gitignore", ".git", ".git/info/exclude"] {
                        t2.blind.insert(join(&d, x));
                    }
                }
            }
            let sel = select(&t2, &a, &effs[0]);
            if sel.by_pattern && !sel.must_fail {
                let r = if a.mode == Mode::Diff || a.mode == Mode::Print { stream(cx, case, sc, o, &env, &t2, &a, &effs[0], &sel, layered) } else { parallel(cx, case, sc, o, &env, &t2, &a, &effs[0], &sel, layered) };
                if r.is_empty() {
                    vs.push(v(&["C15"], format!("a transient error on {} is swallowed: the run processes the selection made without it", hit[0].rsplit('/').next().filter(|n| n.starts_with('.') || *n == "exclude").unwrap_or("the directory"))));
                    return vs;
                }
            }
        }
    }
    vs.extend(best);
    vs
}

/// the configuration file somebody edits meanwhile is read as two layers, which may see two versions of it
fn read_twice(case: &Case, t: &Tree, a: &Args) -> bool {
    let Some(ed) = &case.cfg_edit else { return false };
    layers(case, t, a, None, Some(&ed.0)).paths.iter().filter(|p| **p == ed.0 || t.resolve(p, true).as_deref() == Ok(ed.0.as_str())).count() > 1
}
/// the run must fail without any effect
fn must_fail(o: &Outcome, e: &Eff, sel: &Selection) -> Vec<Viol> {
    let mut vs = vec![];
    let cfgbad = e.cfg.is_err();
    let p: &[&'static str] = if cfgbad { &["C12"] } else if sel.by_pattern { &["C15"] } else { &["C14"] };
    if o.verdict != Verdict::Exit {
        return vs;
    }
    let what = match &e.cfg {
        Err(f) => format!("configuration {f} is unusable"),
        Ok(_) => "the selection cannot be determined".into(),
    };
    let mut pc = p.to_vec();
    pc.push("C03");
    if cfgbad {
        pc.push("C13");
    }
    if o.code == 0 {
        vs.push(v(&pc, format!("{what}, but the exit status is 0")));
    }
    if !o.out.is_empty() {
        vs.push(v(p, format!("{what}, but standard output received {}", lossy(&o.out))));
    }
    for m in o.muts.iter().filter(|m| !m.by_actor) {
        let mut q = p.to_vec();
        q.push("C04");
        vs.push(v(&q, format!("{what}, but the run did {} {}", MUT[m.kind as usize], m.p1)));
        break;
    }
    if let Err(f) = &e.cfg {
        if !e.bad.iter().any(|b| String::from_utf8_lossy(&o.err).contains(b.as_str())) {
            let _ = f;
            vs.push(v(p, format!("{what}, but the error does not name it: {}", lossy(&o.err))));
        }
    } else if o.err.is_empty() {
        vs.push(v(p, format!("{what}, but no error is reported")));
    }
    vs
}

/// formatter processes: all ended and collected, bounded in number and time
fn children(sc: &Scenario, o: &Outcome, a: &Args) -> Vec<Viol> {
    let mut vs = vec![];
    // descriptors and threads: so many per worker, plus those that serve streams which a descendant keeps open
    let stray = 3 * o.children.iter().filter(|c| sc.scripts.iter().any(|s| s.prog == c.prog && s.steps.iter().any(|t| t.op == "daemon"))).count() as u64;
    let depth = sc.nodes.iter().map(|n| n.path.matches('/').count() as u64).max().unwrap_or(0);
    let (fds, threads) = (10 + depth + 9 * sc.ncpu + stray, 8 + 7 * sc.ncpu + stray);
    if std::env::var_os("HSIM_PEAKS").is_some() {
        println!("peaks fds {} of {fds} threads {} of {threads} cpus {} children {}", o.peak_fds, o.peak_threads, sc.ncpu, o.children.len());
    }
    if o.peak_fds > fds {
        vs.push(v(&["C20"], format!("{} file descriptors open at once with {} worker(s)", o.peak_fds, sc.ncpu)));
    }
    if o.peak_threads > threads {
        vs.push(v(&["C20"], format!("{} threads alive at once with {} worker(s)", o.peak_threads, sc.ncpu)));
    }
    if o.verdict != Verdict::Exit {
        return vs;
    }
    let fmt_io = sc.faults.iter().enumerate().any(|(i, f)| (f.cls == "wait" || f.cls == "kill") && o.fired.iter().any(|x| x.fault == i as u64));
    for c in &o.children {
        if !c.zombie {
            vs.push(v(&["C10"], format!("formatter {:?} is still running when the run ends", c.argv)));
        } else if !c.reaped && !fmt_io {
            vs.push(v(&["C10"], format!("formatter {:?} was never waited for", c.argv)));
        }
    }
    let par = if a.stdin || matches!(a.mode, Mode::Diff | Mode::Print) { 1 } else { sc.ncpu };
    if o.peak_children > par && !fmt_io {
        vs.push(v(&["C10"], format!("{} formatter processes alive or unreaped at once with {} document(s) being formatted at once", o.peak_children, par)));
    }
    vs
}

/// limits on each formatter process and on the whole run
fn formatter_checks(sc: &Scenario, o: &Outcome, env: &Env, cfg: &Cfg, expected: &BTreeMap<usize, u64>, exact: bool) -> Vec<Viol> {
    let mut vs = vec![];
    if o.verdict != Verdict::Exit {
        return vs;
    }
    let mut n: BTreeMap<usize, u64> = BTreeMap::new();
    let mut budget = 3 * SEC + env.stall * 2 + o.ops * 2 * sc.op_cost + o.fine * 12 + o.clscount[cls("fsync") as usize] * 2_000_000 + o.clscount[cls("spawn") as usize] * 1_000_000;
    for c in &o.children {
        let Some(f) = cfg.formatters.iter().position(|f| f.command == c.argv) else {
            vs.push(v(&["C07"], format!("a process {:?} was started that no formatter is configured as", c.argv)));
            continue;
        };
        if c.prog != cfg.formatters[f].command[0] {
            vs.push(v(&["C07"], format!("program {:?} was started for {:?}", c.prog, c.argv)));
        }
        if c.cwd != sc.cwd {
            vs.push(v(&["C07"], format!("formatter {:?} was started in {} instead of {}", c.argv, c.cwd, sc.cwd)));
        }
        let given: BTreeSet<&[u8]> = c.env.split(|b| *b == b'\n').collect();
        if let Some(e) = sc.env.iter().find(|e| !given.contains(e.as_bytes())) {
            vs.push(v(&["C07"], format!("formatter {:?} was started without {e} in its environment", c.argv)));
        }
        *n.entry(f).or_default() += 1;
        let lim = cfg.formatters[f].limit_ns();
        if !exact {
            budget += lim + SEC * 6 / 5;
        }
        let end = if c.reaped { c.t_reap } else { o.now };
        let took = end.saturating_sub(c.t_spawn);
        if took > lim + 1_500_000_000 + env.stall + o.ops * sc.op_cost + o.fine * 12 {
            vs.push(v(&["C09"], format!("formatter {:?} with a limit of {} s was given up on or collected only after {} ms", c.argv, lim / SEC, took / 1_000_000)));
        }
    }
    if exact {
        // one limit for every code block, however often something is started for it
        budget += expected.iter().map(|(f, k)| k * (cfg.formatters[*f].limit_ns().min(1 << 55) + SEC * 6 / 5)).sum::<u64>();
    }
    if o.now > budget {
        vs.push(v(&["C09"], format!("the run took {} ms, more than the formatters' limits allow ({} ms)", o.now / 1_000_000, budget / 1_000_000)));
    }
    if exact && !env.fmt_faults {
        for (f, want) in expected {
            let s = sc.scripts.iter().rev().find(|s| s.prog == cfg.formatters[*f].command[0]);
            let want = if s.map(|s| s.spawn_errno != 0).unwrap_or(true) { 0 } else { *want };
            let got = n.get(f).copied().unwrap_or(0);
            if got != want {
                vs.push(v(&["C07", "C08"], format!("formatter {:?} was started {} times for {} code blocks", cfg.formatters[*f].command, got, want)));
            }
        }
        for (f, got) in &n {
            if !expected.contains_key(f) {
                vs.push(v(&["C07"], format!("formatter {:?} was started {} times although no code block needs it", cfg.formatters[*f].command, got)));
            }
        }
    }
    vs
}
fn fmt_warning_check(cfg: &Cfg, alt: &Alt, got: &[String]) -> bool {
    let mut left: Vec<&Fmt> = alt.failed.iter().map(|f| &cfg.formatters[*f]).collect();
    for w in got {
        match left.iter().position(|f| w.contains(&f.command.join(" ")) && w.contains(&format!("{}", f.lang))) {
            Some(i) => {
                left.remove(i);
            }
            None => return false,
        }
    }
    left.is_empty()
}

#[allow(clippy::too_many_arguments)]
fn gather(cx: &mut Cx, case: &Case, sc: &Scenario, o: &Outcome, env: &Env, t: &Tree, a: &Args, cfg: &Cfg, sel: &Selection, probs: &mut Vec<Viol>) -> Result<Vec<Exp>, String> {
    let mut exps = vec![];
    let mut real_count: BTreeMap<String, usize> = BTreeMap::new();
    let mut disp_count: BTreeMap<String, usize> = BTreeMap::new();
    for s in &sel.files {
        if let Ok(r) = &s.real {
            *real_count.entry(r.clone()).or_default() += 1;
        }
        *disp_count.entry(s.display.clone()).or_default() += 1;
    }
    for s in &sel.files {
        let real = s.real.clone().ok();
        let abs = norm(&t.cwd, &s.display);
        let mut x = Exp { display: s.display.clone(), real: real.clone(), bad: false, wbad: false, old: vec![], alts: vec![], warns: vec![], affected: false, dups: false, loose: false, nblocks: 0, vanished_dir: false };
        x.dups = disp_count[&s.display] > 1 || real.as_ref().map(|r| real_count[r] > 1).unwrap_or(false);
        if let Some(r) = &real {
            let e = &t.e[r];
            x.old = e.data.clone();
            x.bad = e.kind != Kind::File || !t.readable(r) || std::str::from_utf8(&e.data).is_err() || cx.refused(&e.data, cfg);
            let way = trail(t, &s.display);
            let hits = |p: &str| p == r || p == abs || way.contains(p) || (!t.e.contains_key(p) && parent(p) == parent(r)) || (p == parent(r)) || (t.e.get(p).map(|e| e.kind == Kind::Dir).unwrap_or(false) && r.starts_with(&format!("{p}/")));
            for (c, p) in &env.errs {
                if hits(p) {
                    x.affected = true;
                }
                let dirlike = matches!(c.as_str(), "opendir" | "readdir" | "stat" | "openr" | "readlink" | "any");
                if dirlike && (p == r || p == &abs || way.contains(p) || t.e.get(p).map(|e| e.kind == Kind::Dir).unwrap_or(false) && (r.starts_with(&format!("{p}/")) || abs.starts_with(&format!("{p}/")))) {
                    x.vanished_dir = true;
                }
                // a link on the way
                if dirlike && t.e.get(p).map(|e| e.kind == Kind::Link).unwrap_or(false) {
                    x.vanished_dir = true;
                    x.affected = true;
                }
            }
            for (_, p, _) in &env.actor {
                if p == r || p == &abs || way.contains(p) || r.starts_with(&format!("{p}/")) || abs.starts_with(&format!("{p}/")) {
                    x.affected = true;
                    x.loose = true;
                    x.vanished_dir = true;
                }
            }
            if !x.bad {
                // printing stops at the first document that fails: nothing is started for those after it
                let mut unused = vec![];
                let stopped = matches!(a.mode, Mode::Print | Mode::Diff) && exps.iter().any(|y: &Exp| y.bad);
                let (alts, warns, nb) = alternatives(cx, case, sc, o, env, cfg, r, &x.old, if stopped { &mut unused } else { probs })?;
                x.alts = alts;
                x.warns = warns;
                x.nblocks = nb;
                let changes = x.alts.iter().any(|al| al.out != x.old) || x.alts.is_empty();
                if a.mode == Mode::Write && changes {
                    if !t.writable(r) {
                        x.wbad = true;
                    } else if !t.writable(&parent(r)) {
                        x.affected = true;
                        x.loose = true;
                    }
                    if env.capacity {
                        x.affected = true;
                        x.loose = true;
                    }
                }
            }
        } else {
            x.bad = true;
            let un = (s.display.clone(), s.raw.clone());
            if !reached(env, t, &un) {
                x.affected = true;
                x.vanished_dir = true;
                x.loose = !env.actor.is_empty();
            }
        }
        exps.push(x);
    }
    Ok(exps)
}
/// everything on the way to a displayed path
fn trail(t: &Tree, d: &str) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    trail_into(t, d, &mut s, 0);
    s
}
fn trail_into(t: &Tree, d: &str, s: &mut BTreeSet<String>, depth: usize) {
    let full = if d.starts_with('/') { d.to_string() } else { format!("{}/{d}", t.cwd) };
    for (i, _) in full.match_indices('/').skip(1).chain(std::iter::once((full.len(), ""))) {
        for follow in [false, true] {
            if let Ok(r) = t.resolve(&full[..i], follow) {
                s.insert(r);
            }
        }
        // a link that leads into something unreadable does not resolve; what it names is on the way all the same
        if let Some((l, e)) = t.resolve(&full[..i], false).ok().and_then(|l| t.e.get(&l).map(|e| (l, e))) {
            if e.kind == Kind::Link && depth < 8 {
                let to = String::from_utf8_lossy(&e.data).into_owned();
                let to = if to.starts_with('/') { to } else { format!("{}/{to}", l.rsplit_once('/').map(|x| x.0).unwrap_or("")) };
                trail_into(t, &to, s, depth + 1);
            }
        }
    }
}
/// absolute form of a displayed path, without "." and ".."
fn norm(cwd: &str, d: &str) -> String {
    let full = if d.starts_with('/') { d.to_string() } else { format!("{cwd}/{d}") };
    let mut out: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            x => out.push(x),
        }
    }
    format!("/{}", out.join("/"))
}
/// directories that cannot be examined: Some(true) if the run reaches them for sure
fn reached(env: &Env, t: &Tree, d: &(String, String)) -> bool {
    let abs = norm(&t.cwd, &d.0);
    let way = trail(t, &d.0);
    let under = |p: &str| p == abs || way.contains(p) || p == d.1 || abs.starts_with(&format!("{p}/")) || d.1.starts_with(&format!("{p}/"));
    !env.errs.iter().any(|(_, p)| under(p) || t.e.get(p).map(|e| e.kind == Kind::Link).unwrap_or(false)) && !env.actor.iter().any(|(_, p, _)| under(p))
}
/// a message names the directory, or at least reports an error without a path
fn reported(o: &Outcome, d: &str) -> bool {
    String::from_utf8_lossy(&o.err).lines().any(|l| l.contains(d) || (l.starts_with("Error") && !l.contains('/')))
}
fn actor_contents(sc: &Scenario, env: &Env, real: &str) -> Vec<Option<Vec<u8>>> {
    env.actor
        .iter()
        .filter(|(_, p, _)| p == real || real.starts_with(&format!("{p}/")))
        .map(|(act, _, i)| match act.as_str() {
            "setfile" => Some(sc.faults[*i].blob.0.clone()),
            _ => None,
        })
        .collect()
}

#[allow(clippy::too_many_arguments)]
fn parallel(cx: &mut Cx, case: &Case, sc: &Scenario, o: &Outcome, env: &Env, t: &Tree, a: &Args, e: &Eff, sel: &Selection, layered: bool) -> Vec<Viol> {
    let mut vs: Vec<Viol> = vec![];
    let cfg = e.cfg.as_ref().unwrap();
    let write = a.mode == Mode::Write;
    let exps = match gather(cx, case, sc, o, env, t, a, cfg, sel, &mut vs) {
        Ok(x) => x,
        Err(m) => return vec![v(&["C03", "C06", "C11"], m)],
    };
    let seltags: &[&'static str] = if sel.by_pattern { &["C15"] } else if exps.iter().any(|x| !a.files.contains(&x.display)) { &["C14"] } else { &[] };
    let exit = o.verdict == Verdict::Exit;
    // ---- content, for every verdict
    let finalnode = |r: &str| o.node(r);
    let mut entitled: BTreeSet<String> = BTreeSet::new();
    for x in &exps {
        if let (Some(r), true) = (&x.real, write) {
            if x.loose || !x.bad && !x.wbad && (x.alts.is_empty() || x.alts.iter().any(|al| al.out != x.old) || x.loose) {
                entitled.insert(r.clone());
            }
        }
    }
    vs.extend(mutations(sc, o, env, t, write, &entitled, exit, seltags));
    for x in &exps {
        let Some(r) = &x.real else { continue };
        if !write || x.bad {
            continue;
        }
        let acts = actor_contents(sc, env, r);
        let got = finalnode(r).map(|n| n.data.clone());
        if x.alts.is_empty() && x.nblocks > 0 {
            continue;
        }
        let mut ok = match &got {
            Some(g) => g == &x.old || x.alts.iter().any(|al| &al.out == g),
            None => false,
        };
        if !ok && !acts.is_empty() {
            ok = match &got {
                None => acts.iter().any(|c| c.is_none()),
                Some(g) => {
                    let mut ok = false;
                    for c in acts.iter().flatten() {
                        ok |= c == g;
                        if std::str::from_utf8(c).is_ok() {
                            ok |= cx.base(c, cfg).map(|b| &b.out == g).unwrap_or(true);
                        }
                    }
                    ok || acts.iter().any(|c| c.is_none())
                }
            };
        }
        // an unfinished formatter makes the expected content unknown
        if !ok && !exit && x.nblocks > 0 {
            continue;
        }
        if !ok {
            let mut p = vec!["C01", "C06"];
            if exps.iter().any(|y| y.bad || y.affected || y.wbad) {
                p.push("C02");
            }
            if x.nblocks > 0 {
                p.extend(["C07", "C08"]);
                if timing(sc, o, &cfg.formatters) {
                    p.push("C09");
                }
            }
            if layered {
                p.push("C13");
            }
            let how = if exit { "" } else { " after the crash" };
            vs.push(v(&p, format!("{r}{how} holds neither its previous nor its formatted content: {} (previous {}, formatted {})", got.as_ref().map(|g| lossy(g)).unwrap_or("nothing".into()), lossy(&x.old), x.alts.iter().map(|al| lossy(&al.out)).collect::<Vec<_>>().join(" or "))));
        }
    }
    if !exit {
        return vs;
    }
    // ---- lists and messages
    let mut displays: BTreeSet<String> = exps.iter().map(|x| x.display.clone()).collect();
    for (d, _) in &sel.unreadable {
        displays.insert(d.clone());
    }
    let se = parse_stderr(o, &displays, Some(cfg), !env.err_fault);
    if !env.err_fault {
        vs.extend(se.problems.iter().cloned());
    }
    let mut listed: BTreeMap<String, usize> = BTreeMap::new();
    let outtext = String::from_utf8_lossy(&o.out).into_owned();
    if !outtext.is_empty() && !outtext.ends_with('\n') && !env.out_fault {
        vs.push(v(&["C05", "C19"], format!("standard output ends in the middle of a line: {}", lossy(&o.out))));
    }
    let torn = env.out_fault && !outtext.ends_with('\n');
    for l in outtext.split_inclusive('\n') {
        if torn && !l.ends_with('\n') && displays.iter().any(|d| d.as_bytes().starts_with(&o.out[o.out.iter().rposition(|c| *c == b'\n').map(|i| i + 1).unwrap_or(0)..])) {
            continue; // cut off by the failing stream
        }
        let l = l.trim_end_matches('\n');
        *listed.entry(l.to_string()).or_default() += 1;
    }
    for (l, n) in &listed {
        let known = exps.iter().filter(|x| &x.display == l).count();
        let moved = env.actor.iter().any(|(act, p, _)| act == "rename" && l.contains(p.rsplit('/').next().unwrap_or("/")));
        if (known == 0 || !write) && !env.out_fault && !moved {
            let mut p = vec!["C05", "C04"];
            p.extend(seltags);
            vs.push(v(&p, format!("standard output lists {l:?}, which is no selected file that was rewritten")));
        } else if *n > known && !moved {
            vs.push(v(&["C05"], format!("standard output lists {l:?} {n} times")));
        }
    }
    let mut any_fail = sel.unreadable.iter().any(|d| reached(env, t, d));
    let mut unformatted = false;
    let mut loose_fail = 0usize;
    let mut undetermined = false;
    let mut blocks_expected: BTreeMap<usize, u64> = BTreeMap::new();
    let mut blocks_exact = true;
    let others_failing = |me: &Exp| exps.iter().any(|y| y.display != me.display && (y.bad || y.affected || y.wbad));
    let empty = Diag::default();
    for x in &exps {
        let d = se.per.get(&x.display).unwrap_or(&empty);
        let lc = listed.get(&x.display).copied().unwrap_or(0);
        let got = x.real.as_ref().and_then(|r| finalnode(r)).map(|n| n.data.clone());
        if x.dups {
            // the same file through several names
            if !x.bad {
                blocks_exact = false;
                let r = x.real.as_ref().unwrap();
                let group: Vec<&Exp> = exps.iter().filter(|y| y.real.as_ref() == Some(r)).collect();
                if group.iter().any(|y| y.affected || y.wbad || y.loose) || x.alts.len() != 1 {
                    undetermined = true;
                    continue;
                }
                let changes = x.alts[0].out != x.old;
                if write {
                    let ds: BTreeSet<&String> = group.iter().map(|y| &y.display).collect();
                    let total: usize = ds.iter().map(|y| listed.get(*y).copied().unwrap_or(0)).sum();
                    if changes && got.as_deref() != Some(&x.alts[0].out[..]) {
                        vs.push(v(&["C06", "C05"], format!("{r} was not rewritten")));
                    }
                    if changes && total > 1 {
                        vs.push(v(&["C05", "C06"], format!("{r} is reachable through {} selected names and listed {} times", group.len(), total)));
                    } else if changes != (total > 0) && !env.out_fault {
                        vs.push(v(&["C05"], format!("{r} is reachable through {} selected names and listed {} times", group.len(), total)));
                    }
                } else {
                    let ds: BTreeSet<&String> = group.iter().map(|y| &y.display).collect();
                    let total: usize = ds.iter().map(|y| se.per.get(*y).unwrap_or(&empty).not_formatted).sum();
                    unformatted |= changes;
                    if total != usize::from(changes) && !env.err_fault {
                        vs.push(v(&["C05"], format!("{r} is reachable through {} selected names and named {} times as not formatted", group.len(), total)));
                    }
                }
            } else {
                let group: Vec<&Exp> = exps.iter().filter(|y| y.display == x.display || y.real.is_some() && y.real == x.real).collect();
                if group.iter().any(|y| y.affected || y.loose) || x.real.is_none() {
                    undetermined = true;
                    continue;
                }
                any_fail = true;
                let ds: BTreeSet<&String> = group.iter().map(|y| &y.display).collect();
                let errs: usize = ds.iter().map(|y| se.per.get(*y).unwrap_or(&empty).errs.len()).sum();
                let other: usize = ds.iter().map(|y| se.per.get(*y).map(|d| d.not_formatted + d.warns.len()).unwrap_or(0) + listed.get(*y).copied().unwrap_or(0)).sum();
                if errs != 1 && !env.err_fault {
                    vs.push(v(&["C02", "C19", "C03"], format!("{errs} error message(s) about {}, which is given {} times", x.display, group.len())));
                }
                if other > 0 {
                    vs.push(v(&["C05", "C03"], format!("{} failed but is listed or warned about", x.display)));
                }
            }
            continue;
        }
        // form A: processed
        let mut why_a = vec![];
        let mut form_a = false;
        if !x.bad && !x.wbad {
            if x.alts.is_empty() {
                undetermined = true;
                blocks_exact = false;
                continue;
            }
            for al in &x.alts {
                let mut why: Vec<Viol> = vec![];
                let changes = al.out != x.old;
                let mut ptag = vec!["C06", "C03"];
                if others_failing(x) {
                    ptag.push("C02");
                }
                ptag.extend(seltags);
                if layered {
                    ptag.push("C13");
                }
                if al.used > 0 {
                    ptag.push("C07");
                    if timing(sc, o, &cfg.formatters) {
                        ptag.push("C09");
                    }
                }
                if !al.failed.is_empty() {
                    ptag.push("C08");
                }
                if write {
                    let acted = !actor_contents(sc, env, x.real.as_ref().unwrap()).is_empty();
                    if got.as_deref() != Some(&al.out[..]) && !acted {
                        let mut p = ptag.clone();
                        if lc > 0 {
                            p.push("C05");
                        }
                        why.push(v(&p, format!("{} holds {} instead of the formatted {}; listed {} time(s)", x.display, got.as_ref().map(|g| lossy(g)).unwrap_or_default(), lossy(&al.out), lc)));
                    }
                    let want = usize::from(changes);
                    if lc != want && !env.out_fault {
                        let mut p = vec!["C05"];
                        p.extend(seltags);
                        why.push(v(&p, format!("{} {} but is listed {} time(s)", x.display, if changes { "was rewritten" } else { "was already formatted" }, lc)));
                    }
                } else if d.not_formatted != usize::from(changes) && !env.err_fault {
                    let mut p = ptag.clone();
                    p.push("C05");
                    why.push(v(&p, format!("{} {} but is named {} time(s) as not formatted", x.display, if changes { "is not formatted" } else { "is formatted" }, d.not_formatted)));
                }
                if !env.err_fault {
                    if d.warns != x.warns {
                        let mut p = vec!["C19", "C06"];
                        if layered {
                            p.push("C13");
                        }
                        why.push(v(&p, format!("warnings about {} are {:?} instead of {:?}", x.display, d.warns, x.warns)));
                    }
                    if !d.errs.is_empty() {
                        let mut p = vec!["C02"];
                        if !al.failed.is_empty() {
                            p.push("C08");
                        }
                        why.push(v(&p, format!("unexpected error about {}: {:?}", x.display, d.errs)));
                    }
                    if !fmt_warning_check(cfg, al, &d.fmt) {
                        why.push(v(&["C08", "C19"], format!("{}: {} code block(s) kept their code because the formatter failed; warnings are {:?}", x.display, al.failed.len(), d.fmt)));
                    }
                }
                if why.is_empty() {
                    form_a = true;
                    why_a.clear();
                    if !write && changes {
                        unformatted = true;
                    }
                    break;
                }
                if why_a.is_empty() || why.len() < why_a.len() {
                    why_a = why;
                }
            }
            if let Some(doc) = x.real.as_ref().and_then(|r| case.docs.get(r)) {
                if doc.plain() == x.old {
                    for (_, f, _) in doc.eligible(cfg) {
                        *blocks_expected.entry(f).or_default() += 1;
                    }
                }
            }
            if x.affected {
                blocks_exact = false;
            }
            if form_a {
                continue;
            }
        }
        // form B: failed, with one message and the old content
        let mut why_b = vec![];
        if x.bad || x.wbad || x.affected {
            let acted = x.real.as_ref().map(|r| !actor_contents(sc, env, r).is_empty()).unwrap_or(false);
            if !env.err_fault {
                if d.errs.len() != 1 {
                    let mut p = vec!["C02", "C19"];
                    if d.errs.is_empty() {
                        p.push("C03");
                    }
                    why_b.push(v(&p, format!("{} error message(s) about {}: {:?}", d.errs.len(), x.display, d.errs)));
                }
                if !d.warns.is_empty() && d.warns != x.warns && !acted && !x.loose {
                    why_b.push(v(&["C19"], format!("warnings about {} are {:?}", x.display, d.warns)));
                }
                if d.not_formatted > 0 {
                    why_b.push(v(&["C05"], format!("{} failed but is named as not formatted", x.display)));
                }
            }
            if lc > 0 {
                why_b.push(v(&["C05", "C03"], format!("{} failed but is listed as written", x.display)));
            }
            if write && !acted && x.real.is_some() && got.as_deref() != Some(&x.old[..]) && t.e[x.real.as_ref().unwrap()].kind == Kind::File {
                why_b.push(v(&["C02", "C01", "C04"], format!("{} failed but its content changed to {}", x.display, got.as_ref().map(|g| lossy(g)).unwrap_or("nothing".into()))));
            }
            if o.code == 0 {
                why_b.push(v(&["C03"], format!("{} could not be processed but the exit status is 0", x.display)));
            }
            // form C: not seen at all because its directory could not be examined
            let unseen = x.vanished_dir && d.errs.is_empty() && d.warns.is_empty() && d.not_formatted == 0 && lc == 0;
            if why_b.is_empty() || (unseen && (x.loose || o.code != 0)) {
                any_fail |= why_b.is_empty() || o.code != 0;
                blocks_exact = false;
                if !x.bad && !x.wbad && !x.loose && !x.vanished_dir {
                    loose_fail += 1;
                }
                if unseen && !x.loose && !env.err_fault {
                    // the unreadable part has to be reported
                    let named = env.errs.iter().any(|(_, p)| {
                        let mut q = p.clone();
                        loop {
                            let n = q.rsplit('/').next().unwrap_or("").to_string();
                            if !n.is_empty() && String::from_utf8_lossy(&o.err).contains(&n) {
                                return true;
                            }
                            let up = parent(&q);
                            if up == q || up == t.cwd {
                                return String::from_utf8_lossy(&o.err).contains("rror");
                            }
                            q = up;
                        }
                    });
                    if !named {
                        vs.push(v(&["C14", "C03"], format!("{} was skipped because its directory could not be examined, but nothing is reported", x.display)));
                    }
                }
                continue;
            }
            if x.loose {
                // somebody else changed this path meanwhile: only the exit status and the general checks apply
                undetermined = true;
                continue;
            }
        }
        if x.bad || x.wbad {
            vs.extend(why_b);
        } else if x.affected && !why_b.is_empty() {
            let mut best = if why_b.len() <= why_a.len() { why_b } else { why_a };
            for y in &mut best {
                y.msg = format!("after an injected error: {}", y.msg);
            }
            vs.extend(best);
        } else {
            vs.extend(why_a);
        }
    }
    // files nobody selected
    if !env.err_fault {
        for un in &sel.unreadable {
            let d = &un.0;
            if reached(env, t, un) && !reported(o, d) {
                vs.push(v(&["C14", "C03"], format!("{d} cannot be examined, but no message names it")));
            }
        }
        if !vs.iter().any(|x| x.props.contains(&"C19")) {
            for l in &se.other {
                let injected = !env.errs.is_empty() || !env.actor.is_empty() || env.out_fault || !sel.unreadable.is_empty();
                if !injected {
                    let mut p = vec!["C19"];
                    p.extend(seltags);
                    vs.push(v(&p, format!("unexpected line on standard error: {l:?}")));
                    break;
                }
            }
        }
    }
    let n_errs = env.errs.len();
    if loose_fail > n_errs {
        vs.push(v(&["C02"], format!("{loose_fail} files failed after {n_errs} injected error(s)")));
    }
    any_fail |= exps.iter().any(|x| (x.bad || x.wbad) && !x.loose);
    // ---- exit status
    let lost_list = env.out_fault && write && exps.iter().any(|x| !x.bad && !x.dups && x.real.as_ref().and_then(|r| finalnode(r)).map(|n| n.data != x.old).unwrap_or(false) && listed.get(&x.display).copied().unwrap_or(0) == 0);
    if o.code == 0 {
        let mut r = vec![];
        if any_fail {
            r.push("a document failed");
        }
        if unformatted {
            r.push("a document is not formatted");
        }
        if lost_list {
            r.push("the list of written files could not be printed");
        }
        if !r.is_empty() {
            let mut p = vec!["C03"];
            if lost_list {
                p.push("C05");
            }
            if !sel.unreadable.is_empty() {
                p.push("C14");
            }
            vs.push(v(&p, format!("exit status 0 although {}", r.join(" and "))));
        }
    } else if !any_fail && !unformatted && !undetermined && !env.out_fault && !env.err_fault && vs.is_empty() {
        // an error reported about something in the walk is a reason too
        let walk_reason = !env.errs.is_empty() && String::from_utf8_lossy(&o.err).lines().any(|l| l.starts_with("Error"));
        let actor_reason = !env.actor.is_empty() && !o.err.is_empty();
        if !walk_reason && !actor_reason {
            let mut p = vec!["C03", "C06"];
            p.extend(seltags);
            if sc.scripts.len() > 0 {
                p.push("C08");
            }
            vs.push(v(&p, format!("exit status {} although nothing failed and nothing is unformatted; standard error: {}", o.code, lossy(&o.err))));
        }
    }
    if sc.scripts.len() > 0 || !cfg.formatters.is_empty() {
        vs.extend(formatter_checks(sc, o, env, cfg, &blocks_expected, blocks_exact));
    }
    vs
}

/// nothing but the entitled files changes
#[allow(clippy::too_many_arguments)]
fn mutations(sc: &Scenario, o: &Outcome, env: &Env, t: &Tree, write: bool, entitled: &BTreeSet<String>, exit: bool, seltags: &[&'static str]) -> Vec<Viol> {
    let mut vs = vec![];
    let mut p4 = vec!["C04"];
    p4.extend(seltags);
    for m in o.muts.iter().filter(|m| !m.by_actor) {
        let k = MUT[m.kind as usize];
        let hard_entitled = |path: &str| entitled.contains(path) || sc.nodes.iter().any(|n| n.path == path && n.hard.as_ref().map(|h| entitled.contains(h)).unwrap_or(false)) || sc.nodes.iter().any(|n| n.hard.as_deref() == Some(path) && entitled.contains(&n.path));
        let acted = |path: &str| env.actor.iter().any(|(_, p, _)| p == path || path.starts_with(&format!("{p}/")));
        let bad = if sc.aux.contains(&m.p1) && (m.p2.is_empty() || !t.e.contains_key(&m.p2)) {
            false
        } else if !write {
            true
        } else {
            match k {
                "unlink" | "rmdir" => m.victim_initial,
                "rename" => !hard_entitled(&m.p2) && (t.e.contains_key(&m.p2) || entitled.is_empty()) || (m.initial && !acted(&m.p1)),
                "create" | "mkdir" | "symlink" => entitled.is_empty() && env.actor.is_empty(),
                "link" => m.initial && !hard_entitled(&m.p1) && entitled.is_empty(),
                _ => m.initial && !hard_entitled(&m.p1),
            }
        };
        if bad && !(acted(&m.p1) || acted(&m.p2)) {
            vs.push(v(&p4, format!("the run did {k} {} {} (operation {}), which it may not change", m.p1, m.p2, m.op)));
            break;
        }
    }
    // final state of everything that is not entitled
    for (path, e) in &t.e {
        if path == "/" || path.starts_with("/dev") || entitled.contains(path) {
            continue;
        }
        if env.actor.iter().any(|(_, p, _)| p == path || path.starts_with(&format!("{p}/"))) {
            continue;
        }
        let hard = sc.nodes.iter().any(|n| (&n.path == path && n.hard.as_ref().map(|h| entitled.contains(h)).unwrap_or(false)) || (n.hard.as_deref() == Some(path.as_str()) && entitled.contains(&n.path)));
        match o.node(path) {
            None => vs.push(v(&p4, format!("{path} is gone"))),
            Some(n) => {
                if n.kind != e.kind || n.mode != e.mode || (n.data != e.data && !hard) {
                    let mut p = p4.clone();
                    if e.kind == Kind::Link {
                        p.push("C01");
                    }
                    vs.push(v(&p, format!("{path} changed: mode {:o} -> {:o}, {} -> {}", e.mode, n.mode, lossy(&e.data), lossy(&n.data))));
                }
            }
        }
    }
    for r in entitled {
        if env.actor.iter().any(|(_, p, _)| p == r || r.starts_with(&format!("{p}/"))) {
            continue;
        }
        if let (Some(n), Some(e)) = (o.node(r), t.e.get(r)) {
            if n.kind != e.kind || n.mode != e.mode {
                vs.push(v(&["C01"], format!("{r} changed from {:?} mode {:o} to {:?} mode {:o}", e.kind, e.mode, n.kind, n.mode)));
            }
        }
    }
    if exit {
        let unlink_fault = env.errs.iter().any(|(c, _)| c == "unlink" || c == "mut" || c == "any");
        for n in &o.fs {
            let dirmoved = env.actor.iter().any(|(_, p, _)| n.path == *p || n.path.starts_with(&format!("{p}/")) || parent(&n.path) == *p || parent(&n.path) == parent(p));
            if !t.e.contains_key(&n.path) && !dirmoved && !unlink_fault && !n.path.starts_with("/dev") && !sc.aux.contains(&n.path) {
                let mut p = vec!["C01", "C04"];
                if !write {
                    p = vec!["C04"];
                }
                vs.push(v(&p, format!("{} was left behind", n.path)));
            }
        }
    }
    vs
}

// ------------------------------------------------------------------ printing modes
fn apply_diff(old: &str, diff: &str) -> Option<String> {
    // independent application of a unified diff
    let src: Vec<&str> = old.split_inclusive('\n').collect();
    let mut out = String::new();
    let mut pos = 0usize;
    let mut lines = diff.split('\n').peekable();
    lines.next()?.strip_prefix("--- ")?;
    lines.next()?.strip_prefix("+++ ")?;
    while let Some(h) = lines.next() {
        if h.is_empty() && lines.peek().is_none() {
            break;
        }
        let h = h.strip_prefix("@@ -")?;
        let (a, rest) = h.split_once(" +")?;
        let (b, _) = rest.split_once(" @@")?;
        let num = |s: &str| -> Option<(usize, usize)> {
            match s.split_once(',') {
                Some((x, y)) => Some((x.parse().ok()?, y.parse().ok()?)),
                None => Some((s.parse().ok()?, 1)),
            }
        };
        let ((start, mut nold), (_, mut nnew)) = (num(a)?, num(b)?);
        let target = if nold == 0 { start } else { start - 1 };
        while pos < target {
            out.push_str(src.get(pos)?);
            pos += 1;
        }
        while nold > 0 || nnew > 0 {
            let l = lines.next()?;
            let (s, body) = l.split_at(1.min(l.len()));
            let mut body = body.to_string();
            if lines.peek().map(|l| l.starts_with('\\')).unwrap_or(false) {
                lines.next();
            } else {
                body.push('\n');
            }
            match s {
                " " | "-" => {
                    if *src.get(pos)? != body {
                        return None;
                    }
                    if s == " " {
                        out.push_str(src[pos]);
                        nnew = nnew.checked_sub(1)?;
                    }
                    pos += 1;
                    nold = nold.checked_sub(1)?;
                }
                "+" => {
                    out.push_str(&body);
                    nnew = nnew.checked_sub(1)?;
                }
                _ => return None,
            }
        }
    }
    while pos < src.len() {
        out.push_str(src[pos]);
        pos += 1;
    }
    Some(out)
}

#[allow(clippy::too_many_arguments)]
fn stream(cx: &mut Cx, case: &Case, sc: &Scenario, o: &Outcome, env: &Env, t: &Tree, a: &Args, e: &Eff, sel: &Selection, layered: bool) -> Vec<Viol> {
    let mut vs: Vec<Viol> = vec![];
    let cfg = e.cfg.as_ref().unwrap();
    let seltags: &[&'static str] = if a.stdin {
        &[]
    } else if sel.by_pattern {
        &["C15"]
    } else if sel.files.iter().any(|x| !a.files.contains(&x.display)) {
        &["C14"]
    } else {
        &[]
    };
    vs.extend(mutations(sc, o, env, t, false, &BTreeSet::new(), o.verdict == Verdict::Exit, seltags));
    if o.verdict != Verdict::Exit {
        return vs;
    }
    if a.stdin && !a.files.is_empty() {
        // refused, or all of it has to be done
        if o.code == 0 {
            let mut docs = vec![("<stdin>", sc.stdin.0.clone())];
            docs.extend(a.files.iter().filter_map(|f| Some((f.as_str(), sc.nodes.iter().find(|n| n.path == format!("/w/{f}"))?.data.0.clone()))));
            for (name, old) in docs {
                let done = match (cx.base(&old, cfg), a.mode) {
                    (Err(_), _) => false,
                    (Ok(b), Mode::Check) => b.out == old,
                    (Ok(b), Mode::Diff) => b.out == old || !o.out.is_empty(),
                    (Ok(b), _) => o.out.windows(b.out.len().max(1)).any(|w| w == &b.out[..]) || b.out.is_empty(),
                };
                if !done {
                    vs.push(v(&["C03"], format!("standard input and files are given at once: {name} is not dealt with, but the exit status is 0")));
                }
            }
        } else if o.err.is_empty() && !env.err_fault {
            vs.push(v(&["C03"], "standard input and files are given at once: the run fails without a word".to_string()));
        }
        return vs;
    }
    let exps = if a.stdin {
        let old = sc.stdin.0.clone();
        let mut x = Exp { display: "<stdin>".into(), real: None, bad: std::str::from_utf8(&old).is_err() || cx.refused(&old, cfg), wbad: false, old: old.clone(), alts: vec![], warns: vec![], affected: env.stdin_fault, dups: false, loose: false, nblocks: 0, vanished_dir: false };
        if !x.bad {
            match alternatives(cx, case, sc, o, env, cfg, "<stdin>", &old, &mut vs) {
                Ok((al, w, n)) => {
                    x.alts = al;
                    x.warns = w;
                    x.nblocks = n;
                }
                Err(m) => return vec![v(&["C03", "C06", "C11"], m)],
            }
        }
        vec![x]
    } else {
        match gather(cx, case, sc, o, env, t, a, cfg, sel, &mut vs) {
            Ok(x) => x,
            Err(m) => return vec![v(&["C03", "C06", "C11"], m)],
        }
    };
    // the walk itself was disturbed: the selection is not determined
    let walk_disturbed = exps.iter().any(|x| x.vanished_dir) || (!env.errs.is_empty() && exps.iter().any(|x| !a.files.contains(&x.display)) && !a.stdin);
    let mut displays: BTreeSet<String> = exps.iter().map(|x| x.display.clone()).collect();
    for (d, _) in &sel.unreadable {
        displays.insert(d.clone());
    }
    let se = parse_stderr(o, &displays, Some(cfg), !env.err_fault);
    if !env.err_fault {
        vs.extend(se.problems.iter().cloned());
    }
    let checking = a.stdin && a.mode == Mode::Check;
    // ---- expected pieces; several alternatives only where a formatter's fate is open
    let mut fulls: Vec<(Vec<u8>, Vec<usize>)> = vec![(vec![], vec![])]; // output so far, alternative per document
    let mut stop: Option<usize> = None;
    for (i, x) in exps.iter().enumerate() {
        if x.bad {
            stop = Some(i);
            break;
        }
        if x.alts.is_empty() {
            return vs;
        }
        let mut n = vec![];
        for (f, c) in &fulls {
            for (k, al) in x.alts.iter().enumerate() {
                let mut g = f.clone();
                if a.mode == Mode::Diff {
                    if al.out != x.old {
                        if x.alts.len() > 1 || al.used > 0 {
                            return vs;
                        }
                        match solo_diff(cx, &x.old, cfg) {
                            Ok(d) => {
                                let d = String::from_utf8_lossy(&d).into_owned();
                                let ok = std::str::from_utf8(&x.old).ok().and_then(|s| apply_diff(s, &d)).map(|r| r.as_bytes() == &al.out[..]).unwrap_or(false);
                                if !ok {
                                    vs.push(v(&["C11"], format!("the diff does not turn {} into {}: {}", lossy(&x.old), lossy(&al.out), lossy(d.as_bytes()))));
                                    return vs;
                                }
                                g.extend_from_slice(d.replacen("--- <stdin>\n+++ <stdin>\n", &format!("--- {0}\n+++ {0}\n", x.display), 1).as_bytes());
                            }
                            Err(m) => return vec![v(&["C03", "C11"], m)],
                        }
                    }
                } else {
                    g.extend_from_slice(&al.out);
                }
                let mut d = c.clone();
                d.push(k);
                n.push((g, d));
            }
        }
        fulls = n;
        if fulls.len() > 64 {
            return vs;
        }
    }
    let reason_natural = stop.is_some() || sel.unreadable.iter().any(|d| reached(env, t, d));
    let reason_env = !env.errs.is_empty() || env.out_fault || env.stdin_fault || env.err_fault || !env.actor.is_empty();
    if checking {
        let x = &exps[0];
        let fmt_open = x.alts.len() > 1;
        let differs = x.alts.iter().any(|al| al.out != x.old);
        if o.code == 0 && (x.bad || (differs && !fmt_open)) {
            vs.push(v(&["C03"], format!("--check of standard input {} but the exit status is 0", if x.bad { "failed" } else { "found it not formatted" })));
        }
        if o.code != 0 && !x.bad && !differs && !reason_env {
            vs.push(v(&["C03"], "--check of formatted standard input fails".to_string()));
        }
        if !env.err_fault && !x.bad && !fmt_open && !env.stdin_fault && !env.out_fault {
            let n = se.per.get("<stdin>").map(|d| d.not_formatted).unwrap_or(0);
            if n != usize::from(differs) {
                vs.push(v(&["C05"], format!("--check of standard input names it {n} times as not formatted")));
            }
        }
        if o.out.is_empty() {
            return vs;
        }
    }
    let fails = o.code != 0;
    let matches_full = fulls.iter().find(|(f, _)| f == &o.out);
    let is_prefix = fulls.iter().any(|(f, _)| f.starts_with(&o.out));
    let mut p = vec!["C11", "C06"];
    p.extend(seltags);
    if layered {
        p.push("C13");
    }
    if exps.iter().any(|x| x.alts.iter().any(|al| al.used > 0)) {
        p.push("C07");
        if timing(sc, o, &cfg.formatters) {
            p.push("C09");
        }
    }
    if exps.iter().any(|x| x.alts.iter().any(|al| !al.failed.is_empty())) {
        p.push("C08");
    }
    let describe = |f: &[u8]| {
        let k = f.iter().zip(&o.out).take_while(|(x, y)| x == y).count();
        format!("they agree in the first {k} bytes; expected {} bytes continuing with {}, got {} bytes continuing with {}", f.len(), lossy(&f[k..]), o.out.len(), lossy(&o.out[k..]))
    };
    let short_env = env.actor.iter().any(|_| true) || walk_disturbed;
    if !fails {
        if reason_natural && !short_env {
            let mut q = vec!["C03"];
            if !sel.unreadable.is_empty() {
                q.push("C14");
            } else {
                q.push("C11");
            }
            vs.push(v(&q, "exit status 0 although a document or directory could not be read".to_string()));
        } else if matches_full.is_none() && !short_env {
            p.push("C03");
            vs.push(v(&p, format!("exit status 0, but standard output differs from the formatted documents in order: {}", describe(&fulls[0].0))));
        }
    } else {
        if !is_prefix && !short_env {
            vs.push(v(&p, format!("standard output is no prefix of the formatted documents in order: {}", describe(&fulls[0].0))));
        }
        if !reason_natural && !reason_env {
            p.push("C03");
            vs.push(v(&p, format!("exit status {} without any failure: {}", o.code, lossy(&o.err))));
        }
        if !reason_env && stop.is_some() && sel.unreadable.is_empty() && matches_full.is_none() {
            vs.push(v(&["C11"], format!("documents before the failing one were not printed completely: {}", describe(&fulls[0].0))));
        }
        if !env.err_fault && o.err.is_empty() && !env.out_fault {
            vs.push(v(&["C03", "C19"], "the run fails without any message".to_string()));
        }
    }
    // ---- messages
    if !env.err_fault && !short_env && env.errs.is_empty() && !env.out_fault && !env.stdin_fault {
        let empty = Diag::default();
        let mut disp: BTreeMap<&str, (Vec<String>, usize)> = BTreeMap::new();
        let upto = stop.unwrap_or(exps.len());
        for (i, x) in exps.iter().enumerate() {
            let en = disp.entry(&x.display).or_default();
            if i < upto {
                en.0.extend(x.warns.iter().cloned());
            } else if Some(i) == stop {
                en.1 += 1;
            }
        }
        for (d, (w, nerr)) in &disp {
            let g = se.per.get(*d).unwrap_or(&empty);
            if &g.warns != w {
                let mut p = vec!["C19", "C06"];
                if layered {
                    p.push("C13");
                }
                vs.push(v(&p, format!("warnings about {d} are {:?} instead of {:?}", g.warns, w)));
            }
            if !a.stdin && g.errs.len() != *nerr {
                vs.push(v(&["C19", "C03"], format!("{} error message(s) about {d} instead of {}: {:?}", g.errs.len(), nerr, g.errs)));
            }
        }
        if let Some((_, ch)) = matches_full.or(fulls.first()) {
            for (i, k) in ch.iter().enumerate().take(upto) {
                let x = &exps[i];
                if x.dups {
                    continue;
                }
                let g = se.per.get(&x.display).unwrap_or(&empty);
                if matches_full.is_some() && !fmt_warning_check(cfg, &x.alts[*k], &g.fmt) && !(checking || fulls.len() > 1) {
                    vs.push(v(&["C08", "C19"], format!("{}: {} code block(s) kept their code because the formatter failed; warnings are {:?}", x.display, x.alts[*k].failed.len(), g.fmt)));
                }
            }
        }
        for un in &sel.unreadable {
            let d = &un.0;
            if reached(env, t, un) && !reported(o, d) {
                vs.push(v(&["C14", "C03"], format!("{d} cannot be examined, but no message names it")));
            }
        }
    }
    if sc.scripts.len() > 0 || !cfg.formatters.is_empty() {
        let mut b: BTreeMap<usize, u64> = BTreeMap::new();
        let upto = stop.unwrap_or(exps.len());
        for x in exps.iter().take(upto) {
            let key = x.real.clone().unwrap_or("<stdin>".into());
            if let Some(doc) = case.docs.get(&key) {
                if doc.plain() == x.old {
                    for (_, f, _) in doc.eligible(cfg) {
                        *b.entry(f).or_default() += 1;
                    }
                }
            }
        }
        vs.extend(formatter_checks(sc, o, env, cfg, &b, !reason_env && !short_env));
    }
    vs
}
fn solo_diff(cx: &mut Cx, content: &[u8], cfg: &Cfg) -> Result<Vec<u8>, String> {
    let mut key = cfg.format_key();
    key.push_str("\n# diff\n");
    let mut sc = solo_scenario(content, &key);
    sc.argv.push("--diff".into());
    let o = cx.w.run(&sc);
    cx.baselines += 1;
    if o.verdict == Verdict::Exit && o.code == 0 {
        Ok(o.out)
    } else {
        Err(format!("the diff of one document alone ends with {:?} {} {}", o.verdict, o.code, lossy(&o.err)))
    }
}

// ------------------------------------------------------------------ whole cases, histories included
/// allowed contents of the files a write run may rewrite, watched by the simulator after every mutation
pub fn prepare(cx: &mut Cx, case: &Case, sc: &mut Scenario) {
    sc.watches.clear();
    let a = parse_args(&sc.argv);
    if a.mode != Mode::Write || a.stdin {
        return;
    }
    let t = Tree::new(sc);
    if read_twice(case, &t, &a) {
        return;
    }
    let mut allowed: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
    let mut skip: BTreeSet<String> = BTreeSet::new();
    let mut effs = vec![effective(case, &t, &a, None)];
    if let Some(ed) = &case.cfg_edit {
        effs.push(effective(case, &t, &a, Some(ed)));
    }
    for e in &effs {
        let Ok(cfg) = &e.cfg else { continue };
        for s in select(&t, &a, e).files {
            let Ok(r) = s.real else { continue };
            let old = t.e[&r].data.clone();
            if std::str::from_utf8(&old).is_err() || !t.readable(&r) {
                continue;
            }
            if case.docs.get(&r).map(|d| !d.eligible(cfg).is_empty()).unwrap_or(false) {
                skip.insert(r.clone());
            }
            let en = allowed.entry(r.clone()).or_default();
            en.push(old.clone());
            match cx.base(&old, cfg) {
                Ok(b) => en.push(b.out.clone()),
                Err(_) if cx.refused(&old, cfg) => {}
                Err(_) => {
                    skip.insert(r.clone());
                }
            }
        }
    }
    for f in &sc.faults {
        if matches!(f.act.as_str(), "setfile" | "delete" | "rename" | "chmod") {
            let hit: Vec<String> = allowed.keys().filter(|k| *k == &f.p2 || k.starts_with(&format!("{}/", f.p2)) || f.blob.0 == k.as_bytes()).cloned().collect();
            skip.extend(hit);
        }
    }
    for (path, al) in allowed {
        if !skip.contains(&path) {
            sc.watches.push(Watch { path, may_be_missing: false, allowed: al.into_iter().map(Bytes).collect() });
        }
    }
}
/// the tree a run leaves behind, as the initial tree of the next one
pub fn nodes_after(o: &Outcome) -> Vec<Nd> {
    let mut seen: BTreeMap<u64, String> = BTreeMap::new();
    let mut v = vec![];
    for n in o.fs.iter().filter(|n| !n.path.starts_with("/dev")) {
        let hard = if n.kind == Kind::File { seen.get(&n.ino).cloned() } else { None };
        seen.entry(n.ino).or_insert(n.path.clone());
        v.push(Nd { path: n.path.clone(), kind: n.kind, mode: n.mode, uid: n.uid, mount: false, hard, data: Bytes(n.data.clone()) });
    }
    v
}
pub fn stage_scenario(case: &Case, k: usize, prev: &Outcome) -> Scenario {
    let st = &case.stages[k];
    let mut sc = case.sc.clone();
    sc.nodes = nodes_after(prev);
    let t0 = Tree::new(&case.sc);
    let acted = |p: &str| case.sc.faults.iter().chain(case.stages.iter().flat_map(|s| &s.faults)).any(|f| f.p2 == p || f.blob.0 == p.as_bytes());
    sc.aux = sc.nodes.iter().filter(|n| matches!(n.kind, Kind::File | Kind::Link) && !t0.e.contains_key(&n.path) && !acted(&n.path)).map(|n| n.path.clone()).collect();
    sc.argv = st.argv.clone();
    sc.faults = st.faults.clone();
    sc.seed = st.seed;
    sc.strategy = st.strategy;
    sc.bgp = st.bgp;
    sc.capacity = None;
    sc.out_limit = None;
    sc.err_limit = None;
    sc.replay = false;
    sc.replay_bg = false;
    sc.sched.clear();
    sc.bgl.clear();
    if let Some((s, b)) = &st.replay {
        sc.replay = true;
        sc.replay_bg = true;
        sc.sched = s.clone();
        sc.bgl = b.clone();
    }
    sc
}
pub struct RunOf {
    pub sc: Scenario,
    pub o: Outcome,
}
/// the scenario under the plainest schedule, with other hash seeds and another order of directories
fn plain(sc: &mut Scenario) {
    (sc.strategy, sc.ncpu, sc.fine, sc.shuffle, sc.p_op, sc.p_block, sc.rand_seed) = (0, 1, false, false, 0, 0, 0);
    sc.bgp.iter_mut().for_each(|x| *x = 0);
    sc.bgl.clear();
    sc.sched.clear();
    (sc.replay, sc.replay_bg) = (false, false);
}
/// C06 without any model: an undisturbed run says and does the same whatever the schedule, the hash seeds
/// and the order of directories are (all of the runs that fail as a whole, and a part of the others)
fn again(cx: &mut Cx, case: &Case, r: &RunOf) -> Vec<Viol> {
    let (sc, o) = (&r.sc, &r.o);
    if !sc.faults.is_empty() || !o.children.is_empty() || sc.out_limit.is_some() || sc.err_limit.is_some() || sc.capacity.is_some() || case.cfg_edit.is_some() || o.verdict != Verdict::Exit {
        return vec![];
    }
    if !(o.code != 0 && o.out.is_empty() && o.muts.is_empty()) && crate::rng::mix(sc.seed ^ 0xc06) % 8 != 0 {
        return vec![];
    }
    let mut sc2 = sc.clone();
    plain(&mut sc2);
    let o2 = cx.w.run(&sc2);
    if o2.verdict != Verdict::Exit {
        return vec![];
    }
    let lines = |b: &[u8]| {
        let mut l: Vec<Vec<u8>> = b.split_inclusive(|c| *c == b'\n').map(|l| l.to_vec()).collect();
        l.sort();
        l
    };
    for (what, x, y) in [("standard output", &o.out, &o2.out), ("standard error", &o.err, &o2.err)] {
        let (x, y) = (lines(x), lines(y));
        if x != y {
            let only = |x: &[Vec<u8>], y: &[Vec<u8>]| x.iter().find(|l| !y.contains(l)).map(|l| lossy(l)).unwrap_or("nothing else".into());
            return vec![v(&["C06"], format!("{what} is not the same in another schedule, order of directories and hash seed: {} here, {} there", only(&x, &y), only(&y, &x)))];
        }
    }
    if o.code != o2.code {
        return vec![v(&["C06"], format!("the exit status is {} here, {} in another schedule, order of directories and hash seed", o.code, o2.code))];
    }
    for n in &sc.nodes {
        if n.kind == Kind::File && o.node(&n.path).map(|n| &n.data) != o2.node(&n.path).map(|n| &n.data) {
            return vec![v(&["C06"], format!("{} does not get the same content in another schedule, order of directories and hash seed", n.path))];
        }
    }
    vec![]
}
pub fn run_case(cx: &mut Cx, case: &Case) -> (Vec<RunOf>, Vec<Viol>) {
    let mut vs = vec![];
    let mut runs = vec![];
    let mut sc = case.sc.clone();
    prepare(cx, case, &mut sc);
    let o = cx.w.run(&sc);
    vs.extend(run_stage(cx, case, &sc, &o));
    runs.push(RunOf { sc, o });
    if !vs.is_empty() && !runs[0].sc.scripts.is_empty() && runs[0].sc.faults.is_empty() && !vs.iter().any(|x| x.props.contains(&"C06")) {
        // does the trouble come from the company of the other documents?
        let first = runs[0].sc.clone();
        let files: Vec<usize> = (1..first.argv.len()).filter(|i| !first.argv[*i].starts_with('-')).collect();
        let mut fine = files.len() > 1;
        for f in &files {
            if !fine {
                break;
            }
            let mut one = case.clone();
            one.sc = first.clone();
            one.sc.argv = first.argv.iter().enumerate().filter(|(i, _)| i == f || !files.contains(i)).map(|(_, a)| a.clone()).collect();
            one.sc.sched.clear();
            let mut sc = one.sc.clone();
            prepare(cx, &one, &mut sc);
            let o = cx.w.run(&sc);
            fine = o.verdict == Verdict::Exit && run_stage(cx, &one, &sc, &o).is_empty();
        }
        if fine {
            let m = format!("each document alone is treated well, but together: {}", vs[0].msg);
            vs.push(v(&["C06", "C02"], m));
        }
    }
    if !vs.is_empty() && !vs.iter().any(|x| x.props.contains(&"C06")) {
        // does the trouble come from the schedule, the order of directories or chance?
        let first = &runs[0].sc;
        if first.faults.is_empty() && first.out_limit.is_none() && first.err_limit.is_none() && first.capacity.is_none() && case.cfg_edit.is_none() && matches!(runs[0].o.verdict, Verdict::Exit | Verdict::Hang | Verdict::Signal) {
            let mut one = case.clone();
            one.sc = first.clone();
            let sc = &mut one.sc;
            plain(sc);
            let mut sc = one.sc.clone();
            prepare(cx, &one, &mut sc);
            let o = cx.w.run(&sc);
            if o.verdict == Verdict::Exit && run_stage(cx, &one, &sc, &o).is_empty() {
                let m = format!("in the plainest schedule all is well, but in this one: {}", vs[0].msg);
                vs.push(v(&["C06"], m));
            }
        }
    }
    if vs.is_empty() && case.stages.is_empty() {
        vs.extend(again(cx, case, &runs[0]));
    }
    if case.stages.is_empty() || !vs.is_empty() {
        return (runs, vs);
    }
    let first = &runs[0].sc;
    let t0 = Tree::new(first);
    let a0 = parse_args(&first.argv);
    let e0 = effective(case, &t0, &a0, None);
    let Ok(cfg) = e0.cfg.clone() else { return (runs, vs) };
    // what an undisturbed first run would have produced
    let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for s in select(&t0, &a0, &e0).files {
        if let Ok(r) = s.real {
            if let Ok(b) = cx.base(&t0.e[&r].data.clone(), &cfg) {
                want.insert(r, b.out.clone());
            }
        }
    }
    for k in 0..case.stages.len() {
        let prev = &runs[k].o;
        if matches!(prev.verdict, Verdict::Harness | Verdict::Wall) {
            return (runs, vs);
        }
        let mut sc = stage_scenario(case, k, prev);
        prepare(cx, case, &mut sc);
        let o = cx.w.run(&sc);
        let mut w = run_stage(cx, case, &sc, &o);
        let st = &case.stages[k];
        if st.clean && o.verdict == Verdict::Exit {
            for x in &mut w {
                x.props.push("C16");
            }
            for (r, c) in &want {
                let got = o.node(r).map(|n| n.data.clone());
                if got.as_ref() != Some(c) {
                    w.push(v(&["C16"], format!("after the undisturbed run {} {r} holds {} instead of {}", k + 1, got.as_ref().map(|g| lossy(g)).unwrap_or("nothing".into()), lossy(c))));
                }
            }
            if o.code != 0 {
                w.push(v(&["C16"], format!("undisturbed run {:?} after interrupted ones fails: {}", sc.argv, lossy(&o.err))));
            }
            let second = k > 0 && case.stages[k - 1].clean;
            if second && (!o.out.is_empty() || o.muts.iter().any(|m| !m.by_actor)) {
                w.push(v(&["C16"], format!("run {:?} right after a successful one is not idle: output {}, {} changes", sc.argv, lossy(&o.out), o.muts.len())));
            }
        }
        vs.extend(w);
        runs.push(RunOf { sc, o });
        if !vs.is_empty() {
            break;
        }
    }
    (runs, vs)
}
