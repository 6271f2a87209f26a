//! Minimal dynamic loading (no crates): the engine binds libLLVM and libz3 at run time.
use std::ffi::{c_char, c_int, c_void, CString};
extern "C" {
    fn dlopen(name: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}
#[derive(Clone, Copy)]
pub struct Lib(*mut c_void);
unsafe impl Send for Lib {}
unsafe impl Sync for Lib {}
impl Lib {
    pub fn open(path: &str) -> Lib {
        let c = CString::new(path).unwrap();
        // RTLD_NOW | RTLD_LOCAL
        let h = unsafe { dlopen(c.as_ptr(), 2) };
        if h.is_null() {
            let e = unsafe { std::ffi::CStr::from_ptr(dlerror()) };
            eprintln!("rsx: cannot load {}: {}", path, e.to_string_lossy());
            std::process::exit(4);
        }
        Lib(h)
    }
    pub fn sym(&self, name: &str) -> *mut c_void {
        let c = CString::new(name).unwrap();
        let p = unsafe { dlsym(self.0, c.as_ptr()) };
        if p.is_null() {
            eprintln!("rsx: missing symbol {}", name);
            std::process::exit(4);
        }
        p
    }
}
#[macro_export]
macro_rules! bind {
    ($sname:ident { $( fn $f:ident ( $($a:ident : $t:ty),* ) $(-> $r:ty)? ; )* }) => {
        #[allow(non_snake_case)]
        pub struct $sname { $( pub $f: unsafe extern "C" fn($($t),*) $(-> $r)?, )* }
        impl $sname {
            pub fn load(l: &$crate::dl::Lib) -> Self {
                unsafe { $sname { $( $f: std::mem::transmute::<*mut std::ffi::c_void, unsafe extern "C" fn($($t),*) $(-> $r)?>(l.sym(stringify!($f))), )* } }
            }
        }
        unsafe impl Send for $sname {}
        unsafe impl Sync for $sname {}
    };
}
