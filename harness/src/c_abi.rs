//! The C entry points, declared as a C program would, and thin wrappers that
//! put every output buffer between guard zones.
use std::os::raw::{c_char, c_int};

// the entry points live in this crate's object code
extern crate cosmian_abe_gpsw;

extern "C" {
    fn h_generate_master_keys(out: *mut c_char, len: *mut c_int, policy: *const c_char) -> c_int;
    fn h_generate_user_private_key(
        out: *mut c_char,
        len: *mut c_int,
        msk: *const c_char,
        msk_len: c_int,
        access_policy: *const c_char,
        policy: *const c_char,
    ) -> c_int;
    fn h_rotate_attributes(out: *mut c_char, len: *mut c_int, attributes: *const c_char, policy: *const c_char) -> c_int;
    fn h_aes_create_encryption_cache(
        handle: *mut c_int,
        policy: *const c_char,
        public_key: *const c_char,
        public_key_len: c_int,
    ) -> c_int;
    fn h_aes_destroy_encryption_cache(handle: c_int) -> c_int;
    fn h_aes_encrypt_header_using_cache(
        key: *mut c_char,
        key_len: *mut c_int,
        header: *mut c_char,
        header_len: *mut c_int,
        handle: c_int,
        attributes: *const c_char,
        uid: *const c_char,
        uid_len: c_int,
        additional: *const c_char,
        additional_len: c_int,
    ) -> c_int;
    fn h_aes_encrypt_header(
        key: *mut c_char,
        key_len: *mut c_int,
        header: *mut c_char,
        header_len: *mut c_int,
        policy: *const c_char,
        public_key: *const c_char,
        public_key_len: c_int,
        attributes: *const c_char,
        uid: *const c_char,
        uid_len: c_int,
        additional: *const c_char,
        additional_len: c_int,
    ) -> c_int;
    fn h_aes_create_decryption_cache(handle: *mut c_int, key: *const c_char, key_len: c_int) -> c_int;
    fn h_aes_destroy_decryption_cache(handle: c_int) -> c_int;
    fn h_aes_decrypt_header_using_cache(
        key: *mut c_char,
        key_len: *mut c_int,
        uid: *mut c_char,
        uid_len: *mut c_int,
        additional: *mut c_char,
        additional_len: *mut c_int,
        header: *const c_char,
        header_len: c_int,
        handle: c_int,
    ) -> c_int;
    fn h_aes_decrypt_header(
        key: *mut c_char,
        key_len: *mut c_int,
        uid: *mut c_char,
        uid_len: *mut c_int,
        additional: *mut c_char,
        additional_len: *mut c_int,
        header: *const c_char,
        header_len: c_int,
        user_key: *const c_char,
        user_key_len: c_int,
    ) -> c_int;
    fn h_get_encrypted_header_size(data: *const c_char, len: c_int) -> c_int;
    fn h_aes_symmetric_encryption_overhead() -> c_int;
    fn h_aes_encrypt_block(
        out: *mut c_char,
        len: *mut c_int,
        key: *const c_char,
        key_len: c_int,
        uid: *const c_char,
        uid_len: c_int,
        number: c_int,
        data: *const c_char,
        data_len: c_int,
    ) -> c_int;
    fn h_aes_decrypt_block(
        out: *mut c_char,
        len: *mut c_int,
        key: *const c_char,
        key_len: c_int,
        uid: *const c_char,
        uid_len: c_int,
        number: c_int,
        data: *const c_char,
        data_len: c_int,
    ) -> c_int;
    fn set_error(msg: *const c_char) -> c_int;
    fn get_last_error(out: *mut c_char, len: *mut c_int) -> c_int;
}

/// An output buffer of `cap` bytes between two guard zones.
pub struct Out {
    mem: Vec<u8>,
    cap: usize,
    back: usize,
    pub len: c_int,
    null: bool,
}
const FRONT: usize = 256;
fn pat(i: usize) -> u8 {
    (i.wrapping_mul(167) ^ (i >> 8) ^ 0x5a) as u8
}
impl Out {
    pub fn new(cap: usize) -> Self {
        Self::guarded(cap, 1024)
    }
    /// `back`: size of the guard zone behind the buffer
    pub fn guarded(cap: usize, back: usize) -> Self {
        let mem = (0..FRONT + cap + back).map(pat).collect();
        Out { mem, cap, back, len: cap as c_int, null: false }
    }
    pub fn null(len: c_int) -> Self {
        let mut o = Self::guarded(0, 16);
        o.null = true;
        o.len = len;
        o
    }
    fn ptr(&mut self) -> *mut c_char {
        if self.null {
            std::ptr::null_mut()
        } else {
            unsafe { self.mem.as_mut_ptr().add(FRONT).cast() }
        }
    }
    fn len_ptr(&mut self) -> *mut c_int {
        &mut self.len
    }
    /// no byte was written, in the buffer or around it
    pub fn untouched(&self) -> bool {
        self.mem.iter().enumerate().all(|(i, b)| *b == pat(i))
    }
    /// nothing outside the buffer was written, no input was either
    pub fn intact(&self) -> bool {
        if INPUT_CHANGED.with(|c| c.replace(false)) {
            return false;
        }
        let n = self.mem.len();
        (0..FRONT).chain(n - self.back..n).all(|i| self.mem[i] == pat(i))
    }
    /// the reported length fits the buffer
    pub fn fits(&self) -> bool {
        self.len >= 0 && self.len as usize <= self.cap
    }
    pub fn bytes(&self) -> &[u8] {
        &self.mem[FRONT..FRONT + (self.len.max(0) as usize).min(self.cap)]
    }
    pub fn whole(&self) -> &[u8] {
        &self.mem[FRONT..FRONT + self.cap]
    }
}

// Inputs are handed over in per-thread slots, one per argument position, the
// last byte right before an inaccessible page: reading past an input crashes,
// the same address holds other contents at the next call, and nothing of it is
// left after the call for code that kept the pointer. Slots are compared with
// the input after the call.
const SLOT: usize = 4 << 20;
const PAGE: usize = 4096;
const SLOTS: usize = 5;
extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: c_int) -> c_int;
    fn munmap(addr: *mut u8, len: usize) -> c_int;
}
struct Area(*mut u8);
impl Area {
    fn new() -> Self {
        const WHOLE: usize = SLOTS * (SLOT + PAGE);
        unsafe {
            // private, anonymous, no reservation
            let m = mmap(std::ptr::null_mut(), WHOLE, 3, 0x2 | 0x20 | 0x4000, -1, 0);
            if m as isize == -1 {
                return Area(std::ptr::null_mut());
            }
            for i in 0..SLOTS {
                mprotect(m.add(i * (SLOT + PAGE) + SLOT), PAGE, 0);
            }
            Area(m)
        }
    }
}
impl Drop for Area {
    fn drop(&mut self) {
        if !self.0.is_null() {
            unsafe {
                munmap(self.0, SLOTS * (SLOT + PAGE));
            }
        }
    }
}
thread_local! {
    static AREA: Area = Area::new();
    /// the size declared for the input in this slot, instead of the real one
    static DECLARED: std::cell::Cell<Option<(usize, c_int)>> = const { std::cell::Cell::new(None) };
    static INPUT_CHANGED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// An input in its slot, with a NUL behind it when `z`.
struct Given<'a> {
    from: Option<&'a [u8]>,
    at: *mut u8,
    own: Vec<u8>,
    slot: usize,
}
/// Run `f` with another size declared for the inputs of this slot (1: keys, 2:
/// headers and data, 3: resource ids, 4: additional data).
pub fn declaring<T>(slot: usize, size: c_int, f: impl FnOnce() -> T) -> T {
    DECLARED.with(|d| d.set(Some((slot, size))));
    let r = f();
    DECLARED.with(|d| d.set(None));
    r
}
fn give(slot: usize, from: Option<&[u8]>, z: bool) -> Given<'_> {
    let mut g = Given { from, at: std::ptr::null_mut(), own: vec![], slot };
    if let Some(b) = from {
        let len = b.len() + z as usize;
        let m = AREA.with(|a| a.0);
        if m.is_null() || len > SLOT {
            g.own = b.to_vec();
            g.own.resize(len, 0);
            return g;
        }
        unsafe {
            g.at = m.add(slot * (SLOT + PAGE) + SLOT - len);
            g.at.copy_from_nonoverlapping(b.as_ptr(), b.len());
            if z {
                *g.at.add(b.len()) = 0;
            }
        }
    }
    g
}
impl Given<'_> {
    fn p(&self) -> *const c_char {
        match self.from {
            None => std::ptr::null(),
            Some(_) if self.at.is_null() => self.own.as_ptr().cast(),
            Some(_) => self.at.cast(),
        }
    }
    fn n(&self) -> c_int {
        match DECLARED.with(|d| d.get()) {
            Some((slot, n)) if slot == self.slot && self.from.is_some() => n,
            _ => n(self.from),
        }
    }
}
impl Drop for Given<'_> {
    fn drop(&mut self) {
        if let (Some(b), false) = (self.from, self.at.is_null()) {
            let s = unsafe { std::slice::from_raw_parts_mut(self.at, b.len()) };
            if *s != *b {
                INPUT_CHANGED.with(|c| c.set(true));
            }
            s.fill(0xa5);
        }
    }
}
fn n(s: Option<&[u8]>) -> c_int {
    s.map_or(0, |v| v.len() as c_int)
}
pub type In<'a> = Option<&'a [u8]>;

pub fn master_keys(out: &mut Out, policy: In) -> i32 {
    let z = give(0, policy, true);
    unsafe { h_generate_master_keys(out.ptr(), out.len_ptr(), z.p()) }
}
pub fn user_key(out: &mut Out, msk: In, ap: In, policy: In) -> i32 {
    let (m, a, z) = (give(1, msk, false), give(2, ap, true), give(0, policy, true));
    unsafe { h_generate_user_private_key(out.ptr(), out.len_ptr(), m.p(), m.n(), a.p(), z.p()) }
}
pub fn rotate(out: &mut Out, attrs: In, policy: In) -> i32 {
    let (a, z) = (give(2, attrs, true), give(0, policy, true));
    unsafe { h_rotate_attributes(out.ptr(), out.len_ptr(), a.p(), z.p()) }
}
pub fn create_enc(policy: In, pk: In) -> (i32, i32) {
    create_enc_at(-77, policy, pk)
}
/// `h` is what the caller's handle variable holds before the call
pub fn create_enc_at(mut h: i32, policy: In, pk: In) -> (i32, i32) {
    let (z, k) = (give(0, policy, true), give(1, pk, false));
    let rc = unsafe { h_aes_create_encryption_cache(&mut h, z.p(), k.p(), k.n()) };
    (rc, h)
}
pub fn destroy_enc(h: i32) -> i32 {
    unsafe { h_aes_destroy_encryption_cache(h) }
}
pub fn create_dec(key: In) -> (i32, i32) {
    create_dec_at(-77, key)
}
pub fn create_dec_at(mut h: i32, key: In) -> (i32, i32) {
    let k = give(1, key, false);
    let rc = unsafe { h_aes_create_decryption_cache(&mut h, k.p(), k.n()) };
    (rc, h)
}
pub fn destroy_dec(h: i32) -> i32 {
    unsafe { h_aes_destroy_decryption_cache(h) }
}
#[derive(Clone, Copy)]
pub enum With<'a> {
    Cache(i32),
    Direct(In<'a>, In<'a>),
}
pub fn enc_header(key: &mut Out, header: &mut Out, with: With, attrs: In, uid: In, ad: In) -> i32 {
    let (a, u, d) = (give(2, attrs, true), give(3, uid, false), give(4, ad, false));
    unsafe {
        match with {
            With::Cache(h) => h_aes_encrypt_header_using_cache(
                key.ptr(), key.len_ptr(), header.ptr(), header.len_ptr(), h, a.p(), u.p(), u.n(), d.p(), d.n(),
            ),
            With::Direct(policy, pk) => {
                let (z, k) = (give(0, policy, true), give(1, pk, false));
                h_aes_encrypt_header(
                    key.ptr(), key.len_ptr(), header.ptr(), header.len_ptr(), z.p(), k.p(), k.n(), a.p(), u.p(), u.n(), d.p(), d.n(),
                )
            }
        }
    }
}
#[derive(Clone, Copy)]
pub enum By<'a> {
    Cache(i32),
    Key(In<'a>),
}
/// `uid`, `ad`: `Out::null` when not wanted
pub fn dec_header(key: &mut Out, uid: &mut Out, ad: &mut Out, header: In, by: By) -> i32 {
    let b = give(2, header, false);
    unsafe {
        match by {
            By::Cache(h) => h_aes_decrypt_header_using_cache(
                key.ptr(), key.len_ptr(), uid.ptr(), uid.len_ptr(), ad.ptr(), ad.len_ptr(), b.p(), b.n(), h,
            ),
            By::Key(k) => {
                let k = give(1, k, false);
                h_aes_decrypt_header(
                    key.ptr(), key.len_ptr(), uid.ptr(), uid.len_ptr(), ad.ptr(), ad.len_ptr(), b.p(), b.n(), k.p(), k.n(),
                )
            }
        }
    }
}
pub fn header_size(b: In) -> i32 {
    let b = give(2, b, false);
    unsafe { h_get_encrypted_header_size(b.p(), b.n()) }
}
pub fn overhead() -> i32 {
    unsafe { h_aes_symmetric_encryption_overhead() }
}
pub fn enc_block(out: &mut Out, key: In, uid: In, number: i32, data: In) -> i32 {
    let (k, u, d) = (give(1, key, false), give(3, uid, false), give(2, data, false));
    unsafe { h_aes_encrypt_block(out.ptr(), out.len_ptr(), k.p(), k.n(), u.p(), u.n(), number, d.p(), d.n()) }
}
pub fn dec_block(out: &mut Out, key: In, uid: In, number: i32, data: In) -> i32 {
    let (k, u, d) = (give(1, key, false), give(3, uid, false), give(2, data, false));
    unsafe { h_aes_decrypt_block(out.ptr(), out.len_ptr(), k.p(), k.n(), u.p(), u.n(), number, d.p(), d.n()) }
}
/// `msg` without a NUL at the end
pub fn set_err(msg: In) -> i32 {
    let z = give(0, msg, true);
    unsafe { set_error(z.p()) }
}
pub fn last_err(out: &mut Out) -> i32 {
    unsafe { get_last_error(out.ptr(), out.len_ptr()) }
}
/// the pending message of this thread, taken
pub fn take_err() -> String {
    let mut o = Out::new(4096);
    let rc = last_err(&mut o);
    format!("{}{}", if rc == 0 { "" } else { "(error channel failed) " }, String::from_utf8_lossy(o.bytes()))
}
