//! The process environment as the library sees it during a simulated run: time of day,
//! monotonic time and random bytes come from the seed of the run, not from the machine.
//! The symbols below are the ones the Rust standard library calls.

use crate::rng::mix2;
use std::cell::Cell;

thread_local! {
    static SEED: Cell<u64> = const { Cell::new(0) };
    static NCLOCK: Cell<u64> = const { Cell::new(0) };
    static NRAND: Cell<u64> = const { Cell::new(0) };
    static MONO: Cell<u64> = const { Cell::new(0) };
}

/// from here on this thread lives in the simulated environment of this seed
pub fn enter(seed: u64) {
    SEED.with(|s| s.set(seed | 1));
    NCLOCK.with(|s| s.set(0));
    NRAND.with(|s| s.set(0));
    MONO.with(|s| s.set(1_000_000_000_000));
}

/// the real environment, for the simulator's own needs; back to the simulated one on drop
pub struct Real(u64);
pub fn real() -> Real {
    Real(SEED.with(|s| s.replace(0)))
}
impl Drop for Real {
    fn drop(&mut self) {
        SEED.with(|s| s.set(self.0));
    }
}

/// how often the code under test asked for time and for random bytes
pub fn asked() -> (u64, u64) {
    (NCLOCK.with(|c| c.get()), NRAND.with(|c| c.get()))
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let seed = SEED.with(|s| s.get());
    if seed == 0 {
        return libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int;
    }
    let n = NCLOCK.with(|c| c.replace(c.get() + 1));
    let h = mix2(seed, n);
    if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
        // any date within a hundred years; it may jump either way
        (*ts).tv_sec = (mix2(seed, if h & 7 == 0 { n + 1 } else { 0 }) % 3_000_000_000) as i64;
        (*ts).tv_nsec = (h >> 8) as i64 % 1_000_000_000;
        (*ts).tv_nsec = (*ts).tv_nsec.abs();
    } else {
        let step = match h & 7 {
            0 => 0,
            1 => 5_000_000_000,
            2 => 40_000_000,
            _ => (h >> 8) % 100_000,
        };
        let t = MONO.with(|m| {
            m.set(m.get() + step);
            m.get()
        });
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, f: libc::c_uint) -> isize {
    let seed = SEED.with(|s| s.get());
    if seed == 0 {
        return libc::syscall(libc::SYS_getrandom, b, n, f) as isize;
    }
    for i in 0..n {
        let k = NRAND.with(|c| c.replace(c.get() + 1));
        *b.add(i) = (mix2(seed ^ 0x5EED, k) >> 8) as u8;
    }
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    let seed = SEED.with(|s| s.get());
    if seed == 0 {
        return libc::syscall(libc::SYS_getpid) as libc::pid_t;
    }
    NRAND.with(|c| c.set(c.get() + 1));
    (mix2(seed ^ 0x91D, 0) % 4_000_000) as libc::pid_t + 2
}
