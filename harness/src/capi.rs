//! The C interface: the shared library built from /repo/ffi, opened with dlopen (its path is in VH_CDYLIB).

use std::ffi::CString;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Buf { pub len: u64, pub ptr: *const u8 }

pub type P = *const u8;

#[derive(Clone, Copy)]
pub struct Api {
    pub free: extern "C" fn(Buf),
    pub params: extern "C" fn(P) -> Buf,
    pub create: extern "C" fn(P, u64, P) -> Buf,
    pub new: extern "C" fn(P, u64, P, u64) -> Buf,
    pub get: extern "C" fn(P, u64) -> Buf,
    pub issue: extern "C" fn(P, u64, P, u64, P) -> Buf,
    pub verify: extern "C" fn(P, u64, P, u64) -> Buf,
    pub roster: extern "C" fn(P, u64, P, u64) -> Buf,
    pub obtain: extern "C" fn(P, u64, P, u64, P, u64, P, u64) -> Buf,
    pub show: extern "C" fn(P, u64, P, u64, P) -> Buf,
    pub entry: extern "C" fn(P, u64, P, u64, P) -> Buf,
    pub remove: extern "C" fn(P, u64) -> Buf,
    pub open: extern "C" fn(P, u64, P, u64, P, u64) -> Buf,
}

pub unsafe fn sym<T: Copy>(h: *mut libc::c_void, name: &str) -> T {
    let n = CString::new(name).unwrap();
    let p = libc::dlsym(h, n.as_ptr());
    if p.is_null() { panic!("HARNESS: no symbol {}", name); }
    std::mem::transmute_copy(&p)
}

pub fn open_api() -> Api {
    unsafe {
        let path = CString::new(std::env::var("VH_CDYLIB").expect("HARNESS: VH_CDYLIB")).unwrap();
        let h = libc::dlopen(path.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
        if h.is_null() { panic!("HARNESS: dlopen failed"); }
        Api {
            free: sym(h, "buf_free"), params: sym(h, "system_parameters_create"), create: sym(h, "issuer_create"),
            new: sym(h, "issuer_new"), get: sym(h, "issuer_get_issuer_parameters"), issue: sym(h, "issuer_issue"),
            verify: sym(h, "issuer_verify"), roster: sym(h, "issuer_verify_roster_membership"),
            obtain: sym(h, "user_obtain_finish"), show: sym(h, "user_show"),
            entry: sym(h, "roster_entry_commitment_create"), remove: sym(h, "roster_entry_commitment_remove_opening"),
            open: sym(h, "roster_entry_commitment_open"),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K { Seed, Params, Keypair, Issuer, Number, Presentation, Verified, Ip, Issuance, User, Entry }
use self::K::*;

pub const KINDS: usize = 11;

pub const FNS: [(&str, &[K]); 12] = [
    ("system_parameters_create", &[Seed]),
    ("issuer_create", &[Params, Seed]),
    ("issuer_new", &[Params, Keypair]),
    ("issuer_get_issuer_parameters", &[Issuer]),
    ("issuer_issue", &[Issuer, Number, Seed]),
    ("issuer_verify", &[Issuer, Presentation]),
    ("issuer_verify_roster_membership", &[Issuer, Verified]),
    ("user_obtain_finish", &[Number, Params, Ip, Issuance]),
    ("user_show", &[User, Entry, Seed]),
    ("roster_entry_commitment_create", &[Number, Params, Seed]),
    ("roster_entry_commitment_remove_opening", &[Entry]),
    ("roster_entry_commitment_open", &[Entry, Number, Params]),
];

/// What came back: for all but the last function, the bytes or None; for the last, 1 or 0 as one byte.
pub fn c_call(api: &Api, f: usize, a: &[Vec<u8>]) -> Result<Option<Vec<u8>>, String> {
    let p = |i: usize| a[i].as_ptr();
    let n = |i: usize| a[i].len() as u64;
    let b = match f {
        0 => (api.params)(p(0)),
        1 => (api.create)(p(0), n(0), p(1)),
        2 => (api.new)(p(0), n(0), p(1), n(1)),
        3 => (api.get)(p(0), n(0)),
        4 => (api.issue)(p(0), n(0), p(1), n(1), p(2)),
        5 => (api.verify)(p(0), n(0), p(1), n(1)),
        6 => (api.roster)(p(0), n(0), p(1), n(1)),
        7 => (api.obtain)(p(0), n(0), p(1), n(1), p(2), n(2), p(3), n(3)),
        8 => (api.show)(p(0), n(0), p(1), n(1), p(2)),
        9 => (api.entry)(p(0), n(0), p(1), n(1), p(2)),
        10 => (api.remove)(p(0), n(0)),
        _ => (api.open)(p(0), n(0), p(1), n(1), p(2), n(2)),
    };
    if f == 11 {
        return if b.ptr.is_null() && b.len <= 1 { Ok(Some(vec![b.len as u8])) }
            else { Err(format!("an opening check returned pointer {:?} and length {}", b.ptr, b.len)) };
    }
    if b.ptr.is_null() {
        return if b.len == 0 { Ok(None) } else { Err(format!("a NULL pointer with length {}", b.len)) };
    }
    if b.len == 0 || b.len > 1 << 16 {
        return Err(format!("a pointer with length {}", b.len));
    }
    let v = unsafe { std::slice::from_raw_parts(b.ptr, b.len as usize) }.to_vec();
    (api.free)(b);
    Ok(Some(v))
}

