//! Deterministic simulation of quic-sea with fault injection.
//!
//! simcheck check PROPERTY      searches for violations, tier and seed from the environment
//! simcheck replay FILE         runs a replay file
//! simcheck trial FILE          runs a plan, result as json
//! simcheck worker ...          part of a check
//! simcheck determinism N       runs cases twice and compares
mod alloc;
mod churn;
mod driver;
mod gen;
mod link;
mod link_gen;
mod minimise;
mod oracle;
mod refquic;
mod rng;
mod sched;
mod server;
mod server_gen;

use std::io::Write;
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering};

#[global_allocator]
static ALLOCATOR: alloc::Tagged = alloc::Tagged;

static HASH_SEED: AtomicU64 = AtomicU64::new(1);
static HASH_COUNT: AtomicU64 = AtomicU64::new(0);
static RESULT_FD: AtomicI32 = AtomicI32::new(1);

/// Seed of the randomised hash maps of the standard library in the code under simulation.
pub fn set_hash_seed(seed: u64) {
    HASH_SEED.store(seed, Ordering::SeqCst);
    HASH_COUNT.store(0, Ordering::SeqCst);
}

/// Replaces the one of the C library: iteration order of hash maps depends on it.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let n = HASH_COUNT.fetch_add(1, Ordering::SeqCst);
    let mut x = HASH_SEED.load(Ordering::SeqCst) ^ rng::mix(n);
    for i in 0..len {
        if i % 8 == 0 {
            x = rng::mix(x);
        }
        *buf.add(i) = (x >> (8 * (i % 8))) as u8;
    }
    len as isize
}

/// Prints where results go, which is not where the code under simulation prints.
pub fn result(text: &str) {
    let fd = RESULT_FD.load(Ordering::SeqCst);
    let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(fd) });
    let mut s = text.to_string();
    s.push('\n');
    let _ = f.write_all(s.as_bytes());
    let _ = f.flush();
}

pub fn harness_note(text: &str) {
    result(&format!("NOTE {text}"));
}

/// The simulator itself is at fault: neither verdict would be right.
pub fn harness_error(text: &str) -> ! {
    result(&format!("ERROR {text}"));
    unsafe { libc::_exit(3) }
}

/// Sends what the code under simulation prints to nowhere.
pub fn silence() {
    unsafe {
        let fd = libc::dup(1);
        libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC);
        RESULT_FD.store(fd, Ordering::SeqCst);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::dup2(null, 2);
    }
    // their buffers are allocated once
    println!();
    eprintln!();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let args: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    if let Err(x) = refquic::self_test() {
        eprintln!("the reference peer fails its own test: {x}");
        std::process::exit(3);
    }
    let code = match args.get(1).copied() {
        Some("check") => driver::check(&args[2..]),
        Some("worker") => driver::worker(&args[2..]),
        Some("trial") => driver::trial(&args[2..]),
        Some("replay") => driver::replay(&args[2..]),
        Some("determinism") => driver::determinism(&args[2..]),
        Some("case") => driver::show_case(&args[2..]),
        _ => {
            eprintln!("usage: simcheck check PROPERTY | replay FILE | determinism [N]");
            2
        }
    };
    // threads of runs that did not come to an end are left behind
    unsafe { libc::_exit(code) }
}
