//! Tiny runtime shared by all harnesses.  Under `--cfg rsx` the primitives are
//! intrinsics of the symbolic executor; otherwise they are implemented natively
//! and read one concrete assignment from a file (counterexample replay and
//! translator validation).

#[cfg(rsx)]
mod imp {
    extern "C" {
        fn rsx_sym(name: *const u8, len: usize, width: u32) -> u64;
        fn rsx_assume(c: bool);
        fn rsx_assert(c: bool, msg: *const u8, len: usize);
        fn rsx_fail(msg: *const u8, len: usize) -> !;
        fn rsx_cover(name: *const u8, len: usize);
        fn rsx_note(key: *const u8, klen: usize, val: *const u8, vlen: usize);
        fn rsx_hashseed(v: u64);
        fn rsx_exit() -> !;
        fn rsx_concrete(v: u64) -> u64;
        fn rsx_is_symbolic(v: u64) -> u64;
    }
    pub fn sym(name: &str, width: u32) -> u64 {
        unsafe { rsx_sym(name.as_ptr(), name.len(), width) }
    }
    pub fn assume(c: bool) {
        unsafe { rsx_assume(c) }
    }
    pub fn check(c: bool, msg: &str) {
        unsafe { rsx_assert(c, msg.as_ptr(), msg.len()) }
    }
    pub fn fail(msg: &str) -> ! {
        unsafe { rsx_fail(msg.as_ptr(), msg.len()) }
    }
    pub fn cover(name: &str) {
        unsafe { rsx_cover(name.as_ptr(), name.len()) }
    }
    pub fn note(key: &str, val: &[u8]) {
        unsafe { rsx_note(key.as_ptr(), key.len(), val.as_ptr(), val.len()) }
    }
    pub fn hashseed(v: u64) {
        unsafe { rsx_hashseed(v) }
    }
    pub fn done() -> ! {
        unsafe { rsx_exit() }
    }
    pub fn is_symbolic(v: u64) -> bool {
        unsafe { rsx_is_symbolic(v) != 0 }
    }
    pub fn concrete(v: u64) -> u64 {
        unsafe { rsx_concrete(v) }
    }
}

#[cfg(not(rsx))]
mod imp {
    use std::collections::HashMap;
    use std::sync::{Mutex, OnceLock};
    static INPUTS: OnceLock<Mutex<HashMap<String, u64>>> = OnceLock::new();

    pub fn load(path: &str) {
        let s = std::fs::read_to_string(path).expect("inputs file");
        let mut m = HashMap::new();
        for l in s.lines() {
            if let Some((k, v)) = l.rsplit_once('=') {
                m.insert(k.trim().to_string(), v.trim().parse::<u64>().expect("u64"));
            }
        }
        let _ = INPUTS.set(Mutex::new(m));
    }
    pub fn sym(name: &str, width: u32) -> u64 {
        let m = INPUTS.get().expect("inputs").lock().unwrap();
        let v = m.get(name).copied().unwrap_or(0);
        if width < 64 { v & ((1u64 << width) - 1) } else { v }
    }
    pub fn assume(c: bool) {
        if !c {
            println!("RSX-ASSUME-FALSE");
            std::process::exit(3);
        }
    }
    pub fn check(c: bool, msg: &str) {
        if !c {
            fail(msg)
        }
    }
    pub fn fail(msg: &str) -> ! {
        println!("RSX-FAIL {}", msg);
        std::process::exit(101);
    }
    pub fn cover(name: &str) {
        println!("RSX-COVER {}", name);
    }
    pub fn note(key: &str, val: &[u8]) {
        let mut h = String::new();
        for b in val {
            h.push_str(&format!("{:02x}", b));
        }
        println!("RSX-NOTE {} {}", key, h);
    }
    pub fn hashseed(_v: u64) {}
    pub fn done() -> ! {
        println!("RSX-DONE");
        std::process::exit(0);
    }
    pub fn is_symbolic(_v: u64) -> bool {
        false
    }
    pub fn concrete(v: u64) -> u64 {
        v
    }
}

pub use imp::*;

pub fn any_u8(name: &str) -> u8 {
    sym(name, 8) as u8
}
pub fn any_bool(name: &str) -> bool {
    sym(name, 1) & 1 == 1
}
pub fn any_u16(name: &str) -> u16 {
    sym(name, 16) as u16
}
pub fn any_u32(name: &str) -> u32 {
    sym(name, 32) as u32
}
pub fn any_u64(name: &str) -> u64 {
    sym(name, 64)
}
/// A value in `0..n`, case-split by the engine (one path per value).
pub fn choose(name: &str, n: u64) -> u64 {
    let v = sym(name, 8);
    assume(v < n);
    concrete(v)
}
/// An 8-bit value in `0..n`, left symbolic.
pub fn below(name: &str, n: u64) -> u64 {
    let v = sym(name, 8);
    assume(v < n);
    v
}
/// `name.0`, `name.1`, ... as bytes.
pub fn any_bytes(name: &str, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        let mut s = String::with_capacity(name.len() + 3);
        s.push_str(name);
        s.push('.');
        if i >= 10 {
            s.push((b'0' + (i / 10) as u8) as char);
        }
        s.push((b'0' + (i % 10) as u8) as char);
        v.push(any_u8(&s));
    }
    v
}

/// One of `opts`, case-split by the engine.
pub fn pick<'a>(name: &str, opts: &[&'a str]) -> &'a str {
    opts[choose(name, opts.len() as u64) as usize]
}
/// A symbolic byte restricted to `set`.
pub fn byte_in(name: &str, set: &[u8]) -> u8 {
    let v = any_u8(name);
    let mut ok = false;
    for c in set {
        ok |= v == *c;
    }
    assume(ok);
    v
}
/// Text with symbolic bytes from `set` (all ASCII).
pub fn text_in(name: &str, n: usize, set: &[u8]) -> String {
    let mut v = String::with_capacity(n);
    for i in 0..n {
        let mut s = String::with_capacity(name.len() + 3);
        s.push_str(name);
        s.push('.');
        s.push((b'0' + i as u8) as char);
        let b = byte_in(&s, set);
        unsafe { v.as_mut_vec().push(b) };
    }
    v
}
/// Text with characters from `set`, case-split by the engine.
pub fn split_text(name: &str, n: usize, set: &[u8]) -> String {
    let mut v = String::with_capacity(n);
    for i in 0..n {
        let mut s = String::with_capacity(name.len() + 3);
        s.push_str(name);
        s.push('.');
        s.push((b'0' + i as u8) as char);
        v.push(set[choose(&s, set.len() as u64) as usize] as char);
    }
    v
}
/// ASCII text of `n` arbitrary symbolic bytes (0..=127).
pub fn ascii(name: &str, n: usize) -> String {
    let v = any_bytes(name, n);
    for b in &v {
        assume(*b < 128);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// Defines the table of entry points: `#[no_mangle]` functions for the engine
/// and a `main` that replays one of them natively.
#[macro_export]
macro_rules! harnesses {
    ($($name:ident),* $(,)?) => {
        #[cfg(not(rsx))]
        fn main() {
            let mut a = std::env::args().skip(1);
            let entry = a.next().expect("entry");
            let file = a.next().expect("inputs");
            $crate::load(&file);
            match entry.as_str() {
                $(stringify!($name) => { $name(); println!("RSX-DONE"); })*
                _ => { eprintln!("unknown entry"); std::process::exit(2) }
            }
        }
        #[cfg(rsx)]
        fn main() {
            // keep the entry points reachable for the bitcode "link"
            let t: &[extern "C" fn()] = &[$($name),*];
            std::hint::black_box(t);
        }
    };
}
