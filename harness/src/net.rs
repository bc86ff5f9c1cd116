//! Watches this process's own use of the network: connections and name lookups.
use std::ffi::{c_char, c_int, c_void, CStr};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

static REFUSE: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicU64 = AtomicU64::new(0);
static SEEN: Mutex<Vec<String>> = Mutex::new(Vec::new());

/// From now on every connection and every name lookup is noted and refused.
pub fn refuse() { REFUSE.store(true, Ordering::SeqCst); }
static ALLOWED: Mutex<Vec<u16>> = Mutex::new(Vec::new());
/// Connections to this port of the loopback interface are neither noted nor refused.
pub fn allow(port: u16) { ALLOWED.lock().unwrap_or_else(|e| e.into_inner()).push(port); }
unsafe fn allowed(addr: *const libc::sockaddr) -> bool { unsafe {
    if (*addr).sa_family as c_int != libc::AF_INET {return false;}
    let a = &*(addr as *const libc::sockaddr_in);
    a.sin_addr.s_addr.to_ne_bytes()[0] == 127 && ALLOWED.lock().unwrap_or_else(|e| e.into_inner()).contains(&u16::from_be(a.sin_port))
} }
pub fn count() -> u64 { COUNT.load(Ordering::SeqCst) }
pub fn take() -> Vec<String> { std::mem::take(&mut *SEEN.lock().unwrap_or_else(|e| e.into_inner())) }
fn note(s: String) { COUNT.fetch_add(1, Ordering::SeqCst); let mut v = SEEN.lock().unwrap_or_else(|e| e.into_inner()); if v.len() < 10_000 {v.push(s);} }
fn next(name: &CStr) -> *mut c_void {
    // SAFETY: looking up a libc function.
    unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) }
}
/// # Safety
/// As the C function.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn connect(fd: c_int, addr: *const libc::sockaddr, len: libc::socklen_t) -> c_int {
    unsafe {
        if REFUSE.load(Ordering::Relaxed) && !allowed(addr) {
            let what = match (*addr).sa_family as c_int {
                libc::AF_INET => {let a = &*(addr as *const libc::sockaddr_in); let b = a.sin_addr.s_addr.to_ne_bytes(); format!("connect {}.{}.{}.{}:{}", b[0], b[1], b[2], b[3], u16::from_be(a.sin_port))},
                libc::AF_INET6 => {let a = &*(addr as *const libc::sockaddr_in6); format!("connect [{}]:{}", std::net::Ipv6Addr::from(a.sin6_addr.s6_addr), u16::from_be(a.sin6_port))},
                f => format!("connect family {f}")
            };
            note(what);
            *libc::__errno_location() = libc::ECONNREFUSED;
            return -1;
        }
        type F = unsafe extern "C" fn(c_int, *const libc::sockaddr, libc::socklen_t) -> c_int;
        std::mem::transmute::<*mut c_void, F>(next(c"connect"))(fd, addr, len)
    }
}
/// # Safety
/// As the C function.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getaddrinfo(node: *const c_char, service: *const c_char, hints: *const libc::addrinfo, res: *mut *mut libc::addrinfo) -> c_int {
    unsafe {
        if REFUSE.load(Ordering::Relaxed) {
            note(format!("lookup {}", if node.is_null() {"".into()} else {CStr::from_ptr(node).to_string_lossy()}));
            return libc::EAI_NONAME;
        }
        type F = unsafe extern "C" fn(*const c_char, *const c_char, *const libc::addrinfo, *mut *mut libc::addrinfo) -> c_int;
        std::mem::transmute::<*mut c_void, F>(next(c"getaddrinfo"))(node, service, hints, res)
    }
}
