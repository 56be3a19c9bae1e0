//! Reduction of a failing case: recorded schedule and disturbances first, then everything else, one piece at a time.
use crate::case::*;
use crate::docs::*;
use crate::oracle::run_case;
use crate::sim::*;
use std::time::{Duration, Instant};

struct M<'a, 'b> {
    cx: &'a mut Cx<'b>,
    prop: String,
    end: Instant,
    left: u32,
    used: u32,
}
impl M<'_, '_> {
    fn bad(&mut self, c: &Case) -> bool {
        if self.left == 0 || Instant::now() > self.end {
            return false;
        }
        self.left -= 1;
        self.used += 1;
        let (_, vs) = run_case(self.cx, c);
        !crate::matching(&vs, &self.prop).is_empty()
    }
    /// delete elements of a list while the violation stays (halves, quarters, ... single elements)
    fn list<T: Clone>(&mut self, c: &mut Case, get: &dyn Fn(&mut Case) -> &mut Vec<T>, cap: u32) {
        let n0 = get(c).len();
        if n0 == 0 {
            return;
        }
        let stop = self.left.saturating_sub(cap);
        let mut t = c.clone();
        get(&mut t).clear();
        if self.bad(&t) {
            *c = t;
            return;
        }
        let mut chunk = n0.div_ceil(2);
        loop {
            let mut i = 0;
            while i < get(c).len() {
                if self.left <= stop {
                    return;
                }
                let mut t = c.clone();
                let v = get(&mut t);
                let e = (i + chunk).min(v.len());
                v.drain(i..e);
                if self.bad(&t) {
                    *c = t;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
    }
}
pub fn minimise(cx: &mut Cx, case: Case, prop: &str, time: Duration, runs: u32) -> (Case, String) {
    let mut m = M { cx, prop: prop.into(), end: Instant::now() + time, left: runs, used: 0 };
    let mut c = case.clone();
    // recorded form: the schedule and the disturbances become lists
    let (rs, _) = run_case(m.cx, &c);
    let before = (c.sc.faults.len(), rs[0].o.sched.len(), rs[0].o.bg.len(), c.sc.nodes.len());
    let mut t = c.clone();
    t.sc.replay = true;
    t.sc.replay_bg = true;
    t.sc.sched = rs[0].o.sched.clone();
    t.sc.bgl = rs[0].o.bg.clone();
    for (k, r) in rs.iter().enumerate().skip(1) {
        t.stages[k - 1].replay = Some((r.o.sched.clone(), r.o.bg.clone()));
    }
    let recorded = m.bad(&t);
    if recorded {
        c = t;
    }
    // stages that do not matter
    for i in (0..c.stages.len()).rev() {
        let mut t = c.clone();
        t.stages.remove(i);
        if m.bad(&t) {
            c = t;
        }
    }
    m.list(&mut c, &|c: &mut Case| &mut c.sc.faults, 20);
    for k in 0..c.stages.len() {
        m.list(&mut c, &move |c: &mut Case| &mut c.stages[k].faults, 10);
    }
    if recorded {
        m.list(&mut c, &|c: &mut Case| &mut c.sc.bgl, 60);
        m.list(&mut c, &|c: &mut Case| &mut c.sc.sched, 120);
    }
    // arguments, files, parts of documents, settings
    let mut i = 1;
    while i < c.sc.argv.len() {
        let a = c.sc.argv[i].clone();
        if a.starts_with('-') || c.sc.argv[i - 1] == "--config" || c.sc.argv[i - 1] == "--line-width" {
            i += 1;
            continue;
        }
        let mut t = c.clone();
        t.sc.argv.remove(i);
        let old = c.sc.argv.clone();
        for s in t.stages.iter_mut() {
            if s.argv.len() == old.len() {
                s.argv.remove(i);
            }
        }
        if m.bad(&t) {
            c = t;
        } else {
            i += 1;
        }
    }
    let mut i = c.sc.nodes.len();
    while i > 0 {
        i -= 1;
        let p = c.sc.nodes[i].path.clone();
        if p == "/w" || c.sc.nodes.iter().any(|n| n.hard.as_deref() == Some(&p)) {
            continue;
        }
        let mut t = c.clone();
        t.sc.nodes.remove(i);
        t.docs.remove(&p);
        t.cfgs.remove(&p);
        if m.bad(&t) {
            c = t;
        }
    }
    let keys: Vec<String> = c.docs.keys().cloned().collect();
    for k in keys {
        let n = c.docs[&k].parts.len();
        for j in (0..n).rev() {
            // a code block keeps what it is in: a list, a quote, a region that is not formatted
            let ps = &c.docs[&k].parts;
            let text = matches!(ps[j], Part::Text(_));
            if text && j > 0 && matches!(&ps[j - 1], Part::Code { disabled: true, .. }) {
                continue;
            }
            let held = if text && matches!(ps.get(j + 1), Some(Part::Code { prefix, disabled, .. }) if *disabled || !prefix.is_empty()) { 2 } else { 0 };
            if held == 0 {
                let mut t = c.clone();
                let d = t.docs.get_mut(&k).unwrap();
                d.parts.remove(j);
                set_doc(&mut t, &k);
                if m.bad(&t) {
                    c = t;
                    continue;
                }
            }
            // halve a long text
            if let Part::Text(x) = &c.docs[&k].parts[j] {
                let ps: Vec<String> = x.split_inclusive("\n\n").map(|s| s.to_string()).collect();
                let mut keep = ps.clone();
                let mut q = 0;
                while q + held < keep.len() && keep.len() > 1 {
                    let mut kk = keep.clone();
                    kk.remove(q);
                    let mut t = c.clone();
                    t.docs.get_mut(&k).unwrap().parts[j] = Part::Text(kk.concat());
                    set_doc(&mut t, &k);
                    if m.bad(&t) {
                        c = t;
                        keep = kk;
                    } else {
                        q += 1;
                    }
                }
            }
        }
    }
    let keys: Vec<String> = c.cfgs.keys().cloned().collect();
    for k in keys {
        if let Some(CfgState::Ok(old)) = c.cfgs.get(&k).cloned() {
            let mut tries: Vec<Cfg> = vec![Cfg { top: Default::default(), tables: Default::default(), ..old.clone() }];
            for t in old.tables.keys() {
                let mut x = old.clone();
                x.tables.remove(t);
                tries.push(x);
            }
            for x in tries {
                let mut t = c.clone();
                if let Some(n) = t.sc.nodes.iter_mut().find(|n| n.path == k) {
                    n.data = Bytes(x.render().into_bytes());
                }
                t.cfgs.insert(k.clone(), CfgState::Ok(x));
                if m.bad(&t) {
                    c = t;
                    break;
                }
            }
        }
    }
    let (rs, _) = run_case(m.cx, &c);
    let after = format!("{} faults, {} scheduling choices, {} disturbances, {} files -> {}, {}, {}, {} in {} runs", before.0, before.1, before.2, before.3, c.sc.faults.len(), rs[0].o.sched.len(), rs[0].o.bg.len(), c.sc.nodes.len(), m.used);
    (c, after)
}
fn set_doc(c: &mut Case, k: &str) {
    let b = c.docs[k].plain();
    if k == "<stdin>" {
        c.sc.stdin = Bytes(b);
    } else if let Some(n) = c.sc.nodes.iter_mut().find(|n| n.path == k) {
        n.data = Bytes(b);
    }
}
