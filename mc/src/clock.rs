//! A controllable wall clock: the program's own `clock_gettime`, which the standard library
//! calls, answers with a thread's override if it has one and asks the kernel otherwise.

use std::cell::Cell;

thread_local! {
    static OVERRIDE: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
    /// While set, every clock of the thread stands still, the monotonic ones too.
    static STILL: Cell<bool> = const { Cell::new(false) };
}

/// The process number that the program sees, if it is not its own.
static PID: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);

#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    match PID.load(std::sync::atomic::Ordering::Relaxed) {
        0 => libc::syscall(libc::SYS_getpid) as libc::pid_t,
        p => p,
    }
}

/// Makes this process believe that it has another number.
pub fn pretend_pid(p: i32) {
    PID.store(p, std::sync::atomic::Ordering::Relaxed);
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE || STILL.try_with(|s| s.get()).unwrap_or(false) {
        if let Ok(Some((s, n))) = OVERRIDE.try_with(|o| o.get()) {
            (*ts).tv_sec = s;
            (*ts).tv_nsec = n;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int
}

/// Runs `f` with this thread's wall clock standing still at the given time.
pub fn at<T>(secs: i64, nanos: u32, f: impl FnOnce() -> T) -> T {
    struct Back(Option<(i64, i64)>);
    impl Drop for Back {
        fn drop(&mut self) {
            OVERRIDE.with(|o| o.set(self.0));
        }
    }
    let _back = Back(OVERRIDE.with(|o| o.replace(Some((secs, nanos as i64)))));
    f()
}

/// Runs `f` with all clocks of this thread standing still.
pub fn still<T>(f: impl FnOnce() -> T) -> T {
    struct Back(bool);
    impl Drop for Back {
        fn drop(&mut self) {
            STILL.with(|o| o.set(self.0));
        }
    }
    at(1_600_000_000, 0, || {
        let _back = Back(STILL.with(|o| o.replace(true)));
        f()
    })
}

/// The override is what `SystemTime::now` sees.
pub fn self_check() {
    use std::time::{Duration, SystemTime};
    let t = at(1_234_567, 89, SystemTime::now);
    assert!(
        t == SystemTime::UNIX_EPOCH + Duration::new(1_234_567, 89),
        "harness: the clock cannot be controlled"
    );
    assert!(
        still(|| std::time::Instant::now().elapsed()) == Duration::ZERO && std::process::id() > 1,
        "harness: the clocks cannot be stopped"
    );
}
