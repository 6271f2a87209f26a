#[path = "../src/ty.rs"]
mod ty;
use ty::*;
/// prints the pool as TypeScript (`pool`), or compares the relation with tsc's matrix on stdin
fn main() {
    let p = pool();
    if std::env::args().nth(1).as_deref() == Some("pool") {
        for t in &p {
            println!("{}", show(t));
        }
        return;
    }
    let m = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let rows: Vec<&[u8]> = m.lines().map(|l| l.as_bytes()).collect();
    let s = types_ts_interned::TypeStore::new();
    let ids: Vec<_> = p.iter().map(|t| build(&s, t)).collect();
    let (mut bad, mut n) = (0, 0);
    for (i, x) in ids.iter().enumerate() {
        for (j, y) in ids.iter().enumerate() {
            n += 1;
            let r = assignable(&s, *x, *y);
            if r != (rows[i][j] == b'1') {
                bad += 1;
                println!("{} {}  ->  {}", if r { "EXTRA" } else { "MISSING" }, show(&p[i]), show(&p[j]));
            }
        }
    }
    println!("{} of {} differ", bad, n);
}
