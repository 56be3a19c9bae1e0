//! Documents and configurations in structured form, so that expectations can be computed for any part of them.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Part {
    Text(String),
    /// a fenced code block; every line is preceded by `prefix`; if that is a tab, it is an indented one without a fence
    Code { lang: String, extra: String, code: String, prefix: String, disabled: bool },
    Raw(crate::sim::Bytes),
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Doc {
    pub parts: Vec<Part>,
}
impl Doc {
    pub fn raw(b: Vec<u8>) -> Doc {
        Doc { parts: vec![Part::Raw(crate::sim::Bytes(b))] }
    }
    /// the document, with the code of block number i replaced by repl(i)
    pub fn render(&self, repl: &dyn Fn(usize) -> Option<String>) -> Vec<u8> {
        let mut out: Vec<u8> = vec![];
        for (i, p) in self.parts.iter().enumerate() {
            match p {
                Part::Raw(b) => out.extend_from_slice(&b.0),
                Part::Text(t) => out.extend_from_slice(t.as_bytes()),
                Part::Code { lang, extra, code, prefix, .. } => {
                    let r = repl(i);
                    if prefix == "\t" && r.is_none() {
                        for l in code.lines() {
                            out.extend_from_slice(format!("    {l}\n").as_bytes());
                        }
                        continue;
                    }
                    let prefix = prefix.trim_start_matches('\t');
                    let code = r.as_deref().unwrap_or(code);
                    let longest = code.lines().map(|l| l.trim_start().chars().take_while(|c| *c == '`').count()).max().unwrap_or(0);
                    let fence = "`".repeat(longest.max(3) + if longest >= 3 { 1 } else { 0 });
                    out.extend_from_slice(format!("{prefix}{fence}{lang}{extra}\n").as_bytes());
                    for l in code.lines() {
                        let t = format!("{prefix}{l}");
                        let t = if l.is_empty() { prefix.trim_end().to_string() } else { t };
                        out.extend_from_slice(t.as_bytes());
                        out.push(b'\n');
                    }
                    out.extend_from_slice(format!("{prefix}{fence}\n").as_bytes());
                }
            }
        }
        out
    }
    pub fn plain(&self) -> Vec<u8> {
        self.render(&|_| None)
    }
    /// blocks a formatter applies to: (part number, language, code)
    pub fn eligible(&self, cfg: &Cfg) -> Vec<(usize, usize, String)> {
        let dl = cfg.tables.get("code_block").and_then(|t| t.get("default_language")).map(|s| s.trim_matches('"').to_string()).unwrap_or_default();
        let mut v = vec![];
        for (i, p) in self.parts.iter().enumerate() {
            if let Part::Code { lang, extra, code, disabled, .. } = p {
                if *disabled || extra.split_whitespace().any(|w| w == "hongdown-no-format") {
                    continue;
                }
                let l = if lang.is_empty() { &dl } else { lang };
                if let Some(f) = cfg.formatters.iter().position(|f| &f.lang == l) {
                    v.push((i, f, if code.is_empty() || code.ends_with('\n') { code.clone() } else { format!("{code}\n") }));
                }
            }
        }
        v
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fmt {
    pub lang: String,
    pub command: Vec<String>,
    pub timeout: Option<u64>,
}
impl Fmt {
    pub fn limit_ns(&self) -> u64 {
        self.timeout.unwrap_or(5).min(4_000_000) * 1_000_000_000
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct Cfg {
    pub top: BTreeMap<String, String>,
    pub tables: BTreeMap<String, BTreeMap<String, String>>,
    pub formatters: Vec<Fmt>,
    pub include: Option<Vec<String>>,
    pub exclude: Option<Vec<String>>,
    pub git_aware: Option<bool>,
    pub no_inherit: bool,
}
fn q(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
fn arr(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| q(s)).collect::<Vec<_>>().join(", "))
}
impl Cfg {
    /// the settings that influence how one document is formatted (without external formatters)
    pub fn format_key(&self) -> String {
        Cfg { formatters: vec![], include: None, exclude: None, git_aware: None, no_inherit: false, ..self.clone() }.render()
    }
    pub fn render(&self) -> String {
        let mut s = String::new();
        if self.no_inherit {
            s.push_str("no_inherit = true\n");
        }
        for (k, v) in &self.top {
            s.push_str(&format!("{k} = {v}\n"));
        }
        if let Some(v) = &self.include {
            s.push_str(&format!("include = {}\n", arr(v)));
        }
        if let Some(v) = &self.exclude {
            s.push_str(&format!("exclude = {}\n", arr(v)));
        }
        if let Some(v) = &self.git_aware {
            s.push_str(&format!("git_aware = {v}\n"));
        }
        for (t, m) in &self.tables {
            s.push_str(&format!("\n[{t}]\n"));
            for (k, v) in m {
                s.push_str(&format!("{k} = {v}\n"));
            }
        }
        if self.formatters.iter().any(|f| f.timeout.is_none()) {
            s.push_str("\n[code_block.formatters]\n");
        }
        for f in self.formatters.iter().filter(|f| f.timeout.is_none()) {
            s.push_str(&format!("{} = {}\n", q(&f.lang), arr(&f.command)));
        }
        for f in &self.formatters {
            if let Some(t) = f.timeout {
                s.push_str(&format!("\n[code_block.formatters.{}]\ncommand = {}\ntimeout = {}\n", q(&f.lang), arr(&f.command), t));
            }
        }
        s
    }
    fn has_code(&self) -> bool {
        self.tables.contains_key("code_block") || !self.formatters.is_empty()
    }
    /// `self` (higher priority) over `low`
    /// values that are wrong although each of them is of the right form; what the message has to mention
    pub fn unusable(&self) -> Option<(String, Vec<String>)> {
        if let Some(f) = self.formatters.iter().find(|f| f.command.is_empty()) {
            return Some((format!("formatter for {} without a command", f.lang), self.formatters.iter().filter(|f| f.command.is_empty()).map(|f| f.lang.clone()).collect()));
        }
        let dash = |k: &str, d: &str| self.tables.get("punctuation").and_then(|t| t.get(k)).cloned().unwrap_or(d.into());
        let (en, em) = (dash("en_dash", "false"), dash("em_dash", "\"--\""));
        if en != "false" && en == em {
            return Some((format!("the same pattern {en} for both dashes"), vec!["dash".into(), en.trim_matches('"').into()]));
        }
        None
    }
    pub fn over(&self, low: &Cfg) -> Cfg {
        let mut r = low.clone();
        for (k, v) in &self.top {
            r.top.insert(k.clone(), v.clone());
        }
        for (k, v) in &self.tables {
            r.tables.insert(k.clone(), v.clone());
        }
        if self.has_code() {
            if !self.tables.contains_key("code_block") {
                r.tables.remove("code_block");
            }
            r.formatters = self.formatters.clone();
        }
        if self.include.is_some() {
            r.include = self.include.clone();
        }
        if self.exclude.is_some() {
            r.exclude = self.exclude.clone();
        }
        if self.git_aware.is_some() {
            r.git_aware = self.git_aware;
        }
        r.no_inherit = self.no_inherit;
        r
    }
}
/// a random settings layer; `tables` says which ones it may define
pub fn gen_cfg(r: &mut Rng, pct: u64) -> Cfg {
    let mut c = Cfg::default();
    if r.chance(pct) {
        c.top.insert("line_width".into(), format!("{}", r.range(30, 100)));
    }
    let b = |r: &mut Rng| if r.chance(50) { "true".to_string() } else { "false".to_string() };
    for t in ["heading", "unordered_list", "ordered_list", "code_block", "thematic_break", "punctuation"] {
        if !r.chance(pct / 2) {
            continue;
        }
        let mut m: BTreeMap<String, String> = BTreeMap::new();
        let mut p = |r: &mut Rng, k: &str, v: String| {
            if r.chance(60) {
                m.insert(k.into(), v);
            }
        };
        match t {
            "heading" => {
                let v = b(r);
                p(r, "setext_h1", v);
                let v = b(r);
                p(r, "setext_h2", v);
                let v = b(r);
                p(r, "sentence_case", v);
                p(r, "proper_nouns", "[\"Zephyr\", \"Quokka\"]".into());
                p(r, "common_nouns", "[\"GitHub\", \"swift\"]".into());
            }
            "unordered_list" => {
                let v = r.range(2, 6).to_string();
                p(r, "indent_width", v);
                let v = q(*r.pick(&["-", "*", "+"]));
                p(r, "unordered_marker", v);
                let v = r.range(0, 1).to_string();
                p(r, "leading_spaces", v);
                let v = r.range(1, 2).to_string();
                p(r, "trailing_spaces", v);
            }
            "ordered_list" => {
                let v = q(*r.pick(&[".", ")"]));
                p(r, "odd_level_marker", v);
                let v = q(*r.pick(&["start", "end"]));
                p(r, "pad", v);
                let v = q(*r.pick(&[".", ")"]));
                p(r, "even_level_marker", v);
                let v = r.range(2, 6).to_string();
                p(r, "indent_width", v);
            }
            "code_block" => {
                let v = q(*r.pick(&["~", "`"]));
                p(r, "fence_char", v);
                let v = r.range(3, 6).to_string();
                p(r, "min_fence_length", v);
                let v = b(r);
                p(r, "space_after_fence", v);
            }
            "thematic_break" => {
                let v = q(*r.pick(&["***", "- - -", "______"]));
                p(r, "style", v);
                let v = r.range(0, 3).to_string();
                p(r, "leading_spaces", v);
            }
            _ => {
                for k in ["curly_double_quotes", "curly_single_quotes", "curly_apostrophes", "ellipsis"] {
                    let v = b(r);
                    p(r, k, v);
                }
                let v = (*r.pick(&["false", "\"---\"", "\"--\""])).to_string();
                p(r, "em_dash", v);
                let v = (*r.pick(&["false", "\"~-\""])).to_string();
                p(r, "en_dash", v);
            }
        }
        if m.is_empty() {
            continue;
        }
        c.tables.insert(t.into(), m);
    }
    c
}

const WORDS: &[&str] = &[
    "alpha", "river", "stone", "Zephyr", "quiet", "module", "GitHub", "value", "process", "garden", "signal", "Quokka", "thread", "window", "paper", "copper", "lantern", "JavaScript", "table", "forest", "metal",
];
pub fn words(r: &mut Rng, n: u64) -> String {
    (0..n).map(|_| *r.pick(WORDS)).collect::<Vec<_>>().join(" ")
}
#[derive(Clone)]
pub struct DocOpts {
    pub tag: String,
    pub langs: Vec<String>,
    pub codes: u64,
    pub big: bool,
    pub paras: u64,
    pub code_size: u64,
    /// bytes of plain text to add
    pub pad: usize,
}
impl DocOpts {
    pub fn new(tag: &str) -> DocOpts {
        DocOpts { tag: tag.into(), langs: vec![], codes: 0, big: false, paras: 4, code_size: 2, pad: 0 }
    }
}
pub fn code_text(r: &mut Rng, tag: &str, n: usize, lines: u64) -> String {
    if r.chance(12) {
        // the same code in several places
        return "shared = start\nshared()\n".into();
    }
    let mut s = format!("{tag}x{n} = start\n");
    for i in 0..lines {
        s.push_str(&format!("line{i}{} {}\n", tag, r.pick(WORDS)));
    }
    if r.chance(15) {
        // white space that is part of the code
        match r.below(5) {
            0 => s.push('\n'),
            1 => s.push_str("\n\n\n"),
            2 => s.insert(0, '\n'),
            3 => s.push_str("end  \n"),
            _ => s.push_str("\tend\t\n   \n"),
        }
    }
    s
}
pub fn gen_doc(r: &mut Rng, o: &DocOpts) -> Doc {
    let t = &o.tag;
    let mut parts: Vec<Part> = vec![];
    let mut s = String::new();
    match r.below(4) {
        0 => s.push_str(&format!("{} {t} The Title\n=====\n\n", words(r, 2))),
        1 => s.push_str(&format!("# {} {t} Of The Title\n\n", words(r, 2))),
        2 => s.push_str(&format!("<!-- hongdown-proper-nouns: {}, Copper -->\n\n# The Copper {t} Lantern\n\n", t.to_uppercase())),
        _ => {}
    }
    let n = if o.big { r.range(60, 160) } else { r.range(1, o.paras) };
    let mut codes_left = o.codes;
    let mut tailrefs = String::new();
    let (mut shared_ref, mut shared_note) = (false, false);
    for i in 0..n {
        match r.below(22) {
            // things different documents share by name but not by content
            15 => {
                s.push_str("A [shared][ref] and a [ref] here.\n\n");
                if !shared_ref {
                    shared_ref = true;
                    tailrefs.push_str(&format!("[ref]: https://example.com/{t} \"{t}\"\n"));
                }
            }
            16 => {
                s.push_str("A shared note[^1] and again[^1].\n\n");
                if !shared_note {
                    shared_note = true;
                    tailrefs.push_str(&format!("\n[^1]: The shared note of {t}.\n\n"));
                }
            }
            17 => s.push_str("## Copper Lantern And The Quokka Garden\n\n"),
            18 => {
                let a = *r.pick(WORDS);
                s.push_str(&format!("<!-- hongdown-{}-nouns: {a}, Garden -->\n\n### The Quiet {} Garden Of Copper\n\n", if r.chance(50) { "proper" } else { "common" }, a.to_uppercase()))
            }
            19 => s.push_str(&format!("<!-- hongdown-disable-next-section -->\n\n*  raw   {t}\n\n## Next Section Of Copper\n\n")),
            20 => s.push_str(&format!("> [!NOTE]\n> an alert {t}\n> {}\n\nTerm {t}\n: its detail {}\n\n", words(r, 4), words(r, 3))),
            21 => s.push_str(&format!("<div>\n*  html {t}\n</div>\n\n- [x] done {t}\n- [ ] open\n\n![image {t}][ref] and [undefined][ref2].\n\n")),
            0 => {
                let k = r.range(5, 40);
                s.push_str(&format!("{} {t}.\n\n", words(r, k)))
            }
            1 => s.push_str(&format!("## {} {t} And Others\n\n", words(r, 2))),
            2 => s.push_str(&format!("* {t} one\n* {}\n    * nested {t}\n* three\n\n", words(r, 3))),
            3 => s.push_str(&format!("1. {t} one\n2. {}\n3. three\n\n", words(r, 3))),
            4 => s.push_str(&format!("| a | {t} |\n|---|---|\n| 1 | {} |\n\n", words(r, 1))),
            5 => s.push_str(&format!("| a | {t}{i} |\n|---|---|\n| 1 | {} | extra | more | {t} |\n\n", words(r, 1))),
            6 => s.push_str(&format!("See [missing {t} {i}] and [{t} other{i}][nope{i}] here.\n\n")),
            7 => {
                s.push_str(&format!("A [link{t}{i}] and *emph* __strong {t}__.\n\n"));
                tailrefs.push_str(&format!("[link{t}{i}]: https://example.com/{t}/{i}\n"));
            }
            8 => {
                s.push_str(&format!("Footnote{t}[^{t}{i}] here.\n\n"));
                tailrefs.push_str(&format!("\n[^{t}{i}]: The note {t} {i}.\n\n"));
            }
            9 => s.push_str(&format!("> quoted {t}\n> {}\n\n", words(r, 6))),
            10 => s.push_str("***\n\n"),
            11 => s.push_str(&format!("<!-- hongdown-disable-next-line -->\n* keep   {t}   as is\n\nafter {t}.\n\n")),
            12 => s.push_str(&format!("<!-- hongdown-disable -->\n\n*  raw   {t}  [undefined {t}]\n\n<!-- hongdown-enable -->\n\n")),
            13 => s.push_str(&format!("It's \"{t}\" -- 'fine'... `code {t}`\n\n")),
            _ => s.push_str(&format!("{}  \n{t} ünïcode – 漢字 {}\n\n", words(r, 4), words(r, 4))),
        }
        if codes_left > 0 && (r.chance(40) || n - i <= codes_left) {
            let k = parts.len();
            let lang = if o.langs.is_empty() { "text".to_string() } else { r.pick(&o.langs).clone() };
            let lines = r.below(o.code_size + 1);
            let code = if r.chance(6) { String::new() } else { code_text(r, t, k, lines) };
            let kind = *r.pick(&[0u64, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 10, 10, 11, 12, 13, 14, 15]);
            let (mut prefix, mut extra, mut disabled) = (String::new(), String::new(), false);
            match kind {
                1 => {
                    s.push_str("<!-- hongdown-disable -->\n\n");
                    disabled = true;
                }
                2 => {
                    s.push_str(&format!("*   item {t}\n\n"));
                    prefix = "    ".into();
                }
                3 => {
                    s.push_str(&format!("> quote {t}\n>\n"));
                    prefix = "> ".into();
                }
                10 => {
                    s.push_str(&format!("Term {t}{k}\n\n:   Its detail {t}.\n\n"));
                    prefix = "    ".into();
                }
                11 => {
                    s.push_str(&format!("A note with code[^c{t}{k}].\n\n[^c{t}{k}]: The note.\n\n"));
                    prefix = "    ".into();
                }
                12 => {
                    s.push_str(&format!("> *   item {t} in a quote\n>\n"));
                    prefix = ">     ".into();
                }
                13 => {
                    s.push_str(&format!("1.  item {t}\n\n    -   nested\n\n"));
                    prefix = "        ".into();
                }
                14 => {
                    s.push_str(&format!("> [!TIP]\n> alert {t}\n>\n"));
                    prefix = "> ".into();
                }
                _ => {}
            }
            if r.chance(18) {
                extra = (*r.pick(&[" hongdown-no-format", " hongdown-no-format", " title=x", " title=x hongdown-no-format", "  hongdown-no-format  y=1", " not-hongdown-no-formatting"])).into();
            }
            let indented = lang.is_empty() && prefix.is_empty() && !disabled && !code.is_empty() && !code.starts_with('\n') && !code.contains("\n\n") && !code.ends_with(" \n") && r.chance(40);
            if indented {
                s.push_str(&format!("This is indented, {t}:\n\n"));
                prefix = "\t".into();
                extra = String::new();
            }
            parts.push(Part::Text(std::mem::take(&mut s)));
            let lang = match kind {
                _ if indented => lang,
                5 if r.chance(50) => "unknownlang".into(),
                // not the same language
                6 if !lang.is_empty() && r.chance(50) => lang.to_uppercase(),
                7 if !lang.is_empty() && r.chance(30) => format!("{lang},x"),
                _ => lang,
            };
            if lang.is_empty() && !extra.is_empty() {
                extra = String::new(); // its first word would be the language
            }
            parts.push(Part::Code { lang, extra, code, prefix, disabled });
            s.push('\n');
            if disabled {
                s.push_str("<!-- hongdown-enable -->\n\n");
            }
            codes_left -= 1;
        }
    }
    let from = s.len();
    while s.len() - from < o.pad {
        s.push_str(&format!("{} {t}.\n\n", words(r, 60)));
    }
    s.push_str(&tailrefs);
    if s.ends_with("\n\n") {
        s.pop();
    }
    parts.push(Part::Text(s));
    Doc { parts }
}
