//! Diagnostics: rendering, canonical order, path normalisation.
use diagnostics::files::SimpleFiles;
use diagnostics::paths::normalize_ts_path;
use diagnostics::render::{render_diagnostic_with_options, RenderOptions};
use diagnostics::*;
use std::cmp::Ordering;
use symrt::*;

const TEXTS: &[&str] = &["", "ab", "ab\n", "\n", "a\nbc\n\nd", "\tx\t\ny\tz", "é\n😀x\n\u{2028}", "a\r\nb\r\n", "\n\n\n\n", "0\n1\n2\n3\n4\n5\n6\n7\n8\n9\nA\n"];

/// Where a position lies, by counting over characters.
fn floor_char(text: &str, off: u64) -> usize {
    let mut best = 0;
    for (i, c) in text.char_indices() {
        if i as u64 <= off {
            best = i;
        }
        if (i + c.len_utf8()) as u64 <= off {
            best = i + c.len_utf8();
        }
    }
    best
}
/// lines as (start, text without the line feed)
fn lines(text: &str) -> Vec<(usize, &str)> {
    let mut o = vec![];
    let mut s = 0;
    for l in text.split('\n') {
        o.push((s, l));
        s += l.len() + 1;
    }
    o
}
fn line_of(ls: &[(usize, &str)], off: usize) -> usize {
    let mut r = 0;
    for (i, l) in ls.iter().enumerate() {
        if l.0 <= off {
            r = i;
        }
    }
    r
}
fn width(s: &str, tab: usize) -> usize {
    let t = if tab == 0 { 1 } else { tab };
    s.chars().map(|c| if c == '\t' { t } else { 1 }).sum()
}
fn expand(s: &str, tab: usize) -> String {
    let t = if tab == 0 { 1 } else { tab };
    let mut o = String::new();
    for c in s.chars() {
        if c == '\t' {
            for _ in 0..t {
                o.push(' ')
            }
        } else {
            o.push(c)
        }
    }
    o
}
struct Want {
    first: usize,
    last: usize,
    /// per covered line: (line, start column, end column)
    marks: Vec<(usize, usize, usize)>,
    line: usize,
    col: usize,
}
fn want(text: &str, r: (u64, u64), tab: usize) -> Want {
    let ls = lines(text);
    let cl = |v: u64| if v <= text.len() as u64 { floor_char(text, v) } else { text.len() };
    let s = cl(r.0);
    let e = cl(r.1).max(s);
    let first = line_of(&ls, s);
    let last = line_of(&ls, e.max(1) - 1).max(first);
    let mut marks = vec![];
    for i in first..=last {
        let (a, t) = ls[i];
        let b = a + t.len();
        let from = s.clamp(a, b);
        let to = e.clamp(from, b);
        let c0 = width(&t[..from - a], tab);
        let c1 = width(&t[..to - a], tab);
        marks.push((i, c0, c1.max(c0 + 1)));
    }
    let (a, t) = ls[first];
    Want { first, last, marks, line: first + 1, col: width(&t[..(s - a).min(t.len())], tab) + 1 }
}
/// which of the covered lines are shown when at most `max` may be
fn visible(first: usize, last: usize, max: usize) -> Vec<usize> {
    let n = last - first + 1;
    if max >= n {
        return (first..=last).collect();
    }
    let head = max.div_ceil(2);
    let tail = max - head;
    (first..=last).filter(|i| i - first < head || last - i < tail).collect()
}
pub struct L {
    pub file: usize,
    pub r: (u64, u64),
    pub msg: &'static str,
    pub primary: bool,
}
fn strip_ansi(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d == 'm' {
                    break;
                }
            }
        } else {
            o.push(c)
        }
    }
    o
}
/// Checks a rendering against what the ranges say should be shown.
fn judge(texts: &[(&str, &str)], labels: &[L], o: &RenderOptions, head: &str, notes: &[&str], out: &str) {
    let plain = strip_ansi(out);
    if !o.color {
        check(plain == out, "colour codes although colour is off");
    }
    // '\n' is the only separator the renderer writes
    let mut it: Vec<&str> = plain.split('\n').collect();
    check(it.pop() == Some(""), "the rendering does not end with a line feed");
    let mut i = 0;
    check(it.get(0) == Some(&head), "header line");
    i += 1;
    // expected file groups: consecutive runs of one file, primary labels first
    let mut ord: Vec<&L> = labels.iter().filter(|l| o.render_secondary_files || l.file == labels[0].file).collect();
    ord.sort_by(|a, b| b.primary.cmp(&a.primary).then(a.file.cmp(&b.file)).then(a.r.0.cmp(&b.r.0)).then(a.r.1.cmp(&b.r.1)).then(a.msg.cmp(b.msg)));
    let mut groups: Vec<Vec<&L>> = vec![];
    for l in ord {
        match groups.last_mut() {
            Some(g) if g[0].file == l.file => g.push(l),
            _ => groups.push(vec![l]),
        }
    }
    for g in &groups {
        let f = g[0].file;
        if f >= texts.len() {
            check(it.get(i) == Some(&" --> <unknown file>:?:?"), "location of an unknown file");
            i += 1;
            check(it.get(i) == Some(&"  | (source unavailable)"), "missing source");
            i += 1;
            for l in g {
                if !l.msg.is_empty() {
                    check(it.get(i).is_some_and(|x| x.ends_with(l.msg)), "message of a label without source");
                    i += 1;
                }
            }
            continue;
        }
        let (name, text) = texts[f];
        let ls = lines(text);
        let ws: Vec<Want> = g.iter().map(|l| want(text, l.r, o.tab_width)).collect();
        let loc = format!(" --> {}:{}:{}", name, ws[0].line, ws[0].col);
        check(it.get(i) == Some(&loc.as_str()), "location line");
        i += 1;
        check(it.get(i) == Some(&"  |"), "gutter line");
        i += 1;
        // lines to show
        let mut show = vec![false; ls.len()];
        let mut vis: Vec<Vec<usize>> = vec![];
        for w in &ws {
            let v = visible(w.first, w.last, o.max_lines_per_label);
            for x in &v {
                for k in x.saturating_sub(o.context_lines)..=(x + o.context_lines).min(ls.len() - 1) {
                    show[k] = true;
                }
            }
            vis.push(v);
        }
        let shown: Vec<usize> = (0..ls.len()).filter(|x| show[*x]).collect();
        let gw = shown.last().map_or(1, |x| (x + 1).to_string().len());
        let mut prev: Option<usize> = None;
        for &x in &shown {
            if let Some(p) = prev {
                if x > p + 1 {
                    let e = format!("{} | ... ({} lines elided)", " ".repeat(gw), x - p - 1);
                    check(it.get(i) == Some(&e.as_str()), "gap line");
                    i += 1;
                }
            }
            prev = Some(x);
            let e = format!("{:>w$} | {}", x + 1, expand(ls[x].1, o.tab_width), w = gw);
            check(it.get(i) == Some(&e.as_str()), "source line");
            i += 1;
            // marker rows
            let pre = format!("{} | ", " ".repeat(gw));
            let mut got: Vec<(usize, char)> = vec![];
            let mut msgs: Vec<(&str, usize)> = vec![];
            while let Some(row) = it.get(i) {
                let Some(body) = row.strip_prefix(pre.as_str()) else { break };
                if body.starts_with("... (") {
                    break;
                }
                let b: Vec<char> = body.chars().collect();
                let mut k = 0;
                let mut first = None;
                let mut connector = false;
                while k < b.len() {
                    match b[k] {
                        '^' | '-' => {
                            check(!connector, "markers on a message row");
                            first.get_or_insert(k);
                            got.push((k, b[k]));
                        }
                        '|' => {
                            check(first.is_none() && !connector, "stray connector");
                            connector = true;
                            first = Some(k);
                        }
                        ' ' => {}
                        _ => break,
                    }
                    k += 1;
                }
                if k < b.len() {
                    let bi: usize = b[..k].iter().map(|c| c.len_utf8()).sum();
                    msgs.push((&body[bi..], first.unwrap_or(usize::MAX)));
                }
                i += 1;
            }
            let mut exp: Vec<(usize, char)> = vec![];
            let mut em: Vec<(&str, usize)> = vec![];
            for (n, w) in ws.iter().enumerate() {
                for m in &w.marks {
                    if m.0 == x && vis[n].contains(&x) {
                        for c in m.1..m.2 {
                            exp.push((c, if g[n].primary { '^' } else { '-' }));
                        }
                        if vis[n][0] == x && !g[n].msg.is_empty() {
                            em.push((g[n].msg, m.1));
                        }
                    }
                }
            }
            exp.sort();
            got.sort();
            check(exp == got, "the marked columns are not those of the ranges");
            em.sort();
            msgs.sort();
            check(em == msgs, "messages are not shown once, at their range's first shown line");
        }
    }
    for n in notes {
        let e = format!("= note: {}", n);
        check(it.get(i) == Some(&e.as_str()), "note line");
        i += 1;
    }
    check(i == it.len(), "trailing lines");
}
fn opts() -> RenderOptions {
    RenderOptions { max_lines_per_label: usize::MAX, context_lines: 0, render_secondary_files: true, color: false, tab_width: 2 }
}
/// text slots may be missing (`nfiles` files exist)
fn run(texts: &[(&'static str, &'static str)], labels: &[L], o: RenderOptions, notes: &[&str]) {
    let mut fs = SimpleFiles::new();
    for (n, t) in texts {
        fs.add(*n, *t);
    }
    let sp = |l: &L| Span::new(FileId(l.file as u32), TextRange::new(l.r.0 as u32, l.r.1 as u32));
    let mut d = Diagnostic::warning("C0DE", labels[0].msg, sp(&labels[0]));
    for l in &labels[1..] {
        d.push_label(Label::new(sp(l), l.msg, l.primary));
    }
    for n in notes {
        d.push_note(*n);
    }
    let out = render_diagnostic_with_options(&fs, &d, o);
    note("out", out.as_bytes());
    cover("rendered");
    let head = format!("warning[C0DE]: {}", labels[0].msg);
    judge(texts, labels, &o, &head, notes, &out);
}
/// one arbitrary u32 range
fn range(n: &str, len: usize) -> (u64, u64) {
    // positions inside the text are case split, those past its end stay symbolic
    let split = |v: u32| if (v as usize) <= len { concrete(v as u64) } else { v as u64 };
    let mut a = String::from(n);
    a.push('s');
    let mut b = String::from(n);
    b.push('e');
    (split(any_u32(&a)), split(any_u32(&b)))
}
/// a range inside (or one past) a short text, case split
fn small(n: &str, max: u64) -> (u64, u64) {
    let mut a = String::from(n);
    a.push('s');
    let s = choose(&a, max + 1);
    let mut b = String::from(n);
    b.push('e');
    (s, choose(&b, max + 2))
}
#[no_mangle]
pub extern "C" fn dg_span() {
    let t = pick("text", TEXTS);
    let t: &'static str = unsafe { std::mem::transmute(t) };
    let l = L { file: 0, r: range("p", t.len()), msg: "M", primary: true };
    let mut o = opts();
    o.tab_width = [2, 0][choose("tab", 2) as usize];
    run(&[("f.ts", t)], &[l], o, &[]);
}
#[no_mangle]
pub extern "C" fn dg_labels() {
    let t = ["abcd", "a\nb", "\tb\n", ""][choose("text", 4) as usize];
    let m = t.len() as u64;
    let p = L { file: 0, r: small("p", m), msg: "M", primary: true };
    let q = L { file: 0, r: small("q", m), msg: ["N", ""][choose("qm", 2) as usize], primary: any_bool("qp") };
    if any_bool("third") {
        let r = L { file: 0, r: ([0, 2][choose("rs", 2) as usize], [1, 3][choose("re", 2) as usize]), msg: "O", primary: false };
        run(&[("f.ts", t)], &[p, q, r], opts(), &[]);
    } else {
        run(&[("f.ts", t)], &[p, q], opts(), &["n1", "n2"]);
    }
}
#[no_mangle]
pub extern "C" fn dg_opts() {
    let t = "0\n1\n2\n3\n4\n5\n6\n7\n8\n9\nA";
    let s = choose("ps", 11) * 2;
    let e = choose("pe", 12) * 2;
    let p = L { file: 0, r: (s, e), msg: "M", primary: true };
    let mut o = opts();
    o.max_lines_per_label = [usize::MAX, 0, 1, 2, 3, 4][choose("max", 6) as usize];
    o.context_lines = [0, 1, 2, 20][choose("ctx", 4) as usize];
    o.color = any_bool("color");
    if any_bool("two") {
        run(&[("f.ts", t)], &[p, L { file: 0, r: (5, 15), msg: "N", primary: false }], o, &[]);
    } else {
        run(&[("f.ts", t)], &[p], o, &[]);
    }
}
#[no_mangle]
pub extern "C" fn dg_files() {
    let fs = [("a.ts", "a\nb"), ("b.ts", "cd")];
    let f = |n: &str| choose(n, 3) as usize;
    let p = L { file: f("pf"), r: (0, 1), msg: "M", primary: true };
    let q = L { file: f("qf"), r: (2, [2, 3, 99][choose("qe", 3) as usize]), msg: "N", primary: any_bool("qp") };
    let r = L { file: f("rf"), r: (0, 2), msg: ["O", ""][choose("rm", 2) as usize], primary: false };
    let mut o = opts();
    o.render_secondary_files = any_bool("sec");
    o.color = any_bool("color");
    run(&fs, &[p, q, r], o, &["n"]);
}

fn diag(n: &str) -> Diagnostic {
    let v = |k: &str| {
        let mut s = String::from(n);
        s.push_str(k);
        s
    };
    let sev = [Severity::Error, Severity::Warning, Severity::Note, Severity::Help][choose(&v("sev"), 4) as usize];
    let code = ["A1", "A10", "B"][choose(&v("code"), 3) as usize];
    let msg = ["", "m", "n"][choose(&v("msg"), 3) as usize];
    let sp = Span::new(FileId(any_u32(&v("f"))), TextRange::new(any_u32(&v("s")), any_u32(&v("e"))));
    Diagnostic::new(sev, code, msg, sp)
}
/// the documented order: file, start, end, code, severity, message
fn spec(a: &Diagnostic, b: &Diagnostic) -> Ordering {
    let k = |d: &Diagnostic| (d.primary.file.0, d.primary.range.start, d.primary.range.end);
    k(a).cmp(&k(b)).then_with(|| a.code.as_str().as_bytes().cmp(b.code.as_str().as_bytes())).then_with(|| (a.severity as u8).cmp(&(b.severity as u8))).then_with(|| a.message.as_bytes().cmp(b.message.as_bytes()))
}
/// two diagnostics with arbitrary spans: the canonical order, its antisymmetry, and agreement of Ord with Eq
#[no_mangle]
pub extern "C" fn dg_order() {
    let (a, b) = (diag("a"), diag("b"));
    let ab = diagnostic_cmp(&a, &b);
    let ba = diagnostic_cmp(&b, &a);
    check(ab == ba.reverse(), "diagnostic_cmp is not antisymmetric");
    check(ab == spec(&a, &b), "diagnostic_cmp is not file, start, end, code, severity, message");
    check((ab == Ordering::Equal) == (a == b), "diagnostic_cmp calls different diagnostics equal");
    check(a.cmp(&b) == b.cmp(&a).reverse() && (a.cmp(&b) == Ordering::Equal) == (a == b), "Ord of Diagnostic is inconsistent");
    cover("ordered");
}
fn lab(n: &str) -> Label {
    let v = |k: &str| {
        let mut s = String::from(n);
        s.push_str(k);
        s
    };
    Label::new(Span::new(FileId(0), TextRange::new(choose(&v("s"), 2) as u32, 3)), ["x", "y"][choose(&v("m"), 2) as usize], choose(&v("p"), 2) == 1)
}
/// sorting is a function of the set of diagnostics, not of the order they arrive in
#[no_mangle]
pub extern "C" fn dg_sort() {
    let d = |n: &str| {
        let mut s = String::from(n);
        s.push('k');
        let k = choose(&s, 3);
        let mut s = String::from(n);
        s.push('s');
        let mut d = Diagnostic::new([Severity::Error, Severity::Note][(k & 1) as usize], "C", "m", Span::new(FileId(0), TextRange::new(any_u32(&s), 7)));
        if k == 2 {
            d.push_label(lab(n));
            d.push_label(lab(n));
            d.push_note("u");
        } else if k == 1 {
            d.push_note("v");
        }
        d
    };
    let v = vec![d("a"), d("b"), d("c")];
    let mut base = v.clone();
    sort_diagnostics(&mut base);
    for w in base.windows(2) {
        check(diagnostic_cmp(&w[0], &w[1]) != Ordering::Greater, "sort_diagnostics left its input unsorted");
    }
    for p in [[0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
        let mut w = vec![v[p[0]].clone(), v[p[1]].clone(), v[p[2]].clone()];
        sort_diagnostics(&mut w);
        check(w == base, "sorting depends on the order of arrival");
    }
    let mut l = vec![lab("a"), lab("b"), lab("c")];
    let mut m = vec![l[1].clone(), l[2].clone(), l[0].clone()];
    sort_labels(&mut l);
    sort_labels(&mut m);
    check(l == m, "sorting labels depends on the order of arrival");
    check(l.windows(2).all(|w| w[0].is_primary >= w[1].is_primary), "a secondary label sorts before a primary one");
    cover("sorted");
}

/// the documented rules, segment by segment
fn ref_norm(raw: &str) -> String {
    let raw = raw.strip_prefix("\\\\?\\").or_else(|| raw.strip_prefix("//?/")).unwrap_or(raw);
    let t: String = raw.chars().map(|c| if c == '\\' { '/' } else { c }).collect();
    let t = t.trim_start_matches('/');
    let b = t.as_bytes();
    let (root, rest) = if b.len() >= 2 && b[0].is_ascii_alphabetic() && b[1] == b':' { (format!("{}:/", (b[0] as char).to_ascii_lowercase()), &t[2..]) } else { ("/".to_string(), t) };
    let mut st: Vec<&str> = vec![];
    for s in rest.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                st.pop();
            }
            _ => st.push(s),
        }
    }
    let mut o = root;
    o.push_str(&st.join("/"));
    o
}
fn path_check(p: &str) {
    note("path", p.as_bytes());
    let n = normalize_ts_path(p);
    note("out", n.as_bytes());
    check(n == ref_norm(p), "normalize_ts_path does not follow its rules");
    check(!n.contains('\\') && !n.contains("//") && !n.contains("/../") && !n.contains("/./") && !n.ends_with("/.") && !n.ends_with("/.."), "a normalised path still needs normalising");
    let b = n.as_bytes();
    let drive_like = b.len() >= 3 && b[0] == b'/' && b[2] == b':';
    if !drive_like {
        check(normalize_ts_path(&n) == n, "normalising twice differs");
    }
    cover("path");
}
#[no_mangle]
pub extern "C" fn dg_path() {
    let pre = pick("pre", &["", "a/../", "C:", "\\\\?\\", "//?/", "é/", "a/b/..", "/a/b"]);
    let n = 1 + choose("n", 4) as usize;
    let s = ascii("c", n);
    let mut p = String::from(pre);
    p.push_str(&s);
    path_check(&p);
}
#[no_mangle]
pub extern "C" fn dg_path2() {
    let n = 5 + choose("n", 3) as usize;
    let s = text_in("c", n, b"/\\.aC:");
    path_check(&s);
}
