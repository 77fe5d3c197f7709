//! Seams.  The crate reads the clock through `std::time::SystemTime::now`, which
//! calls libc's `clock_gettime`.  The simulator defines that symbol itself, so
//! every clock read of the process - the crate's, mail-builder's, std's - returns
//! the simulated time of the current run.  Real time, needed only for the
//! wall-clock budget of the supervisor, is read by a raw system call.

use std::cell::Cell;

thread_local! {
    static SIM_NANOS: Cell<i128> = const { Cell::new(1_700_000_000_000_000_000) };
    static CLOCK_READS: Cell<u64> = const { Cell::new(0) };
}

pub const EPOCH0: i64 = 1_700_000_000;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    // CLOCK_REALTIME (and coarse) are simulated; monotonic clocks are real, they
    // are only used by the supervisor.
    if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
        let n = SIM_NANOS.with(|c| c.get());
        CLOCK_READS.with(|c| c.set(c.get() + 1));
        (*ts).tv_sec = n.div_euclid(1_000_000_000) as libc::time_t;
        (*ts).tv_nsec = n.rem_euclid(1_000_000_000) as libc::c_long;
        0
    } else {
        libc::syscall(libc::SYS_clock_gettime, clk as libc::c_long, ts) as libc::c_int
    }
}

pub fn set_secs(secs: i64) {
    SIM_NANOS.with(|c| c.set(secs as i128 * 1_000_000_000 + 123_456_789));
}

pub fn now_secs() -> i64 {
    SIM_NANOS.with(|c| c.get().div_euclid(1_000_000_000) as i64)
}

pub fn clock_reads() -> u64 {
    CLOCK_READS.with(|c| c.get())
}

pub fn real_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as libc::c_long, &mut ts as *mut libc::timespec);
    }
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}
