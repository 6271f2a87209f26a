//! Conformance-harness utilities: sharding, expectation manifests, exit policy.
use conformance_harness::*;
use symrt::*;

/// every index belongs to exactly one of the shards, for every total
#[no_mangle]
pub extern "C" fn cf_shard() {
    let idx = any_u64("idx") as usize;
    let total = any_u16("total") as usize;
    assume(total > 0);
    let (i, j) = (any_u16("i") as usize, any_u16("j") as usize);
    assume(i < total && j < total);
    let a = Shard { index: i, total }.includes(idx);
    let b = Shard { index: j, total }.includes(idx);
    check(!(a && b) || i == j, "an index belongs to two shards");
    // some shard takes it: the one with the index's residue
    let r = (idx % total) as u16 as usize;
    check(Shard { index: r, total }.includes(idx), "an index belongs to no shard");
    cover("shard");
}
fn ref_num(s: &str) -> Option<u64> {
    let s = s.strip_prefix('+').unwrap_or(s);
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let t = s.trim_start_matches('0');
    let max = "18446744073709551615";
    if t.len() > max.len() || (t.len() == max.len() && t > max) {
        return None;
    }
    Some(t.bytes().fold(0u64, |a, b| a.wrapping_mul(10).wrapping_add((b - b'0') as u64)))
}
/// shard texts and the partition they make of a list
#[no_mangle]
pub extern "C" fn cf_apply() {
    let pre = pick("pre", &["", "1", "184467440737095516"]);
    let n = 1 + choose("n", 4) as usize;
    let mut t = String::from(pre);
    t.push_str(&ascii("c", n));
    note("text", t.as_bytes());
    let want = t.split_once('/').and_then(|(a, b)| Some((ref_num(a)?, ref_num(b)?))).filter(|(a, b)| a < b);
    let got = t.parse::<Shard>();
    check(got.is_ok() == want.is_some(), "a shard text is accepted or rejected wrongly");
    if let (Ok(s), Some((i, n))) = (got, want) {
        cover("parsed");
        check(s.index as u64 == i && s.total as u64 == n, "wrong shard numbers");
        if s.total <= 4 {
            let total = concrete(s.total as u64) as usize;
            let index = concrete(s.index as u64) as usize;
            let len = 7;
            let got = apply_shard((0..len).collect::<Vec<usize>>(), Shard { index, total });
            let mut want = vec![];
            let mut k = index;
            while k < len {
                want.push(k);
                k += total;
            }
            check(got == want, "apply_shard does not keep every total-th item in order");
        }
    } else {
        cover("refused");
    }
}
#[derive(Clone, Copy, PartialEq)]
struct E {
    kind: usize,
    pat: usize,
    st: usize,
}
const PATS: [&[&str]; 3] = [&["a/b.js", "a/c/d.js", "x"], &["a/**", "*.js", "a/*.js"], &["^a/", "d\\\\.js$", "b"]];
const STS: [&str; 4] = ["pass", "skip", "xfail", "flaky"];
fn pat_matches(kind: usize, pat: usize, id: &str) -> bool {
    match (kind, pat) {
        (0, p) => PATS[0][p] == id,
        (1, 0) => id.starts_with("a/"),
        // globset: `*` crosses separators unless literal_separator is set
        (1, 1) => id.ends_with(".js"),
        (1, _) => id.starts_with("a/") && id.ends_with(".js"),
        (_, 0) => id.starts_with("a/"),
        (_, 1) => id.ends_with("d.js"),
        (_, _) => id.contains('b'),
    }
}
fn toml_of(es: &[E], json: bool) -> String {
    let mut o = String::new();
    if json {
        o.push_str("{\"expectations\":[");
    }
    for (n, e) in es.iter().enumerate() {
        let k = ["id", "glob", "regex"][e.kind];
        if json {
            if n > 0 {
                o.push(',');
            }
            o.push_str(&format!("{{\"{}\":\"{}\",\"status\":\"{}\",\"reason\":\"r{}\"}}", k, PATS[e.kind][e.pat], STS[e.st], n));
        } else {
            o.push_str(&format!("[[expectations]]\n{} = \"{}\"\nexpectation = \"{}\"\nreason = \"r{}\"\n", k, PATS[e.kind][e.pat], STS[e.st], n));
        }
    }
    if json {
        o.push_str("]}");
    }
    o
}
fn kind_ix(k: ExpectationKind) -> usize {
    match k {
        ExpectationKind::Pass => 0,
        ExpectationKind::Skip => 1,
        ExpectationKind::Xfail => 2,
        ExpectationKind::Flaky => 3,
    }
}
/// exact beats glob beats regex, whatever the order of the manifest; within a kind the first entry wins
#[no_mangle]
pub extern "C" fn cf_exp() {
    let json = any_bool("json");
    let mut es = vec![];
    let n = 1 + choose("n", 3);
    for k in ["a", "b", "c"].iter().take(n as usize) {
        let v = |s: &str| {
            let mut t = String::from(*k);
            t.push_str(s);
            t
        };
        es.push(E { kind: choose(&v("k"), 3) as usize, pat: choose(&v("p"), if n == 3 { 2 } else { 3 }) as usize, st: (es.len() + n as usize) % 4 });
    }
    let text = toml_of(&es, json);
    note("manifest", text.as_bytes());
    let m = match Expectations::from_str(&text) {
        Ok(m) => m,
        Err(_) => fail("a valid manifest is refused"),
    };
    for id in ["a/b.js", "a/c/d.js", "x", "y.js", ""] {
        let mut want = None;
        for k in 0..3 {
            if want.is_none() {
                want = es.iter().enumerate().find(|(_, e)| e.kind == k && pat_matches(k, e.pat, id));
            }
        }
        let got = m.lookup(id);
        match want {
            None => check(!got.from_manifest && got.expectation.kind == ExpectationKind::Pass, "an unlisted test is not expected to pass"),
            Some((i, e)) => {
                cover("listed");
                check(got.from_manifest, "a listed test is not found");
                check(kind_ix(got.expectation.kind) == e.st, "the wrong entry decides");
                check(got.expectation.reason == Some(format!("r{}", i)), "the wrong entry's reason");
                check(got.matches(false) == (e.st <= 1) && got.matches(true) == (e.st >= 1), "matches() disagrees with the status");
                check(got.covers_mismatch() == (e.st != 0) && got.is_flaky() == (e.st == 3), "covers_mismatch/is_flaky disagree with the status");
            }
        }
    }
}
/// entries that name no pattern, two patterns or no status are refused
#[no_mangle]
pub extern "C" fn cf_bad() {
    let mut t = String::from("[[expectations]]\n");
    let (a, b, c, d) = (any_bool("id"), any_bool("glob"), any_bool("regex"), choose("status", 3));
    if a {
        t.push_str("id = \"x\"\n");
    }
    if b {
        t.push_str("glob = \"x\"\n");
    }
    if c {
        t.push_str("regex = \"x\"\n");
    }
    if d == 1 {
        t.push_str("status = \"skip\"\n");
    }
    if d == 2 {
        t.push_str("status = \"nope\"\n");
    }
    let ok = (a as u8 + b as u8 + c as u8) == 1 && d == 1;
    check(Expectations::from_str(&t).is_ok() == ok, "a malformed manifest entry is accepted, or a good one refused");
    cover("entry");
}
#[no_mangle]
pub extern "C" fn cf_fail() {
    let (u, t) = (any_u64("u") as usize, any_u64("t") as usize);
    check(FailOn::All.should_fail(u, t) == (t != 0), "fail-on all");
    check(FailOn::New.should_fail(u, t) == (u != 0), "fail-on new");
    check(!FailOn::None.should_fail(u, t), "fail-on none");
    cover("policy");
}
