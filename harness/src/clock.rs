//! The wall clock of a case: the real one, one that stands still at some moment, or one that goes on (or back) with
//! every look at it. Nothing but generated DTSTAMPs may depend on it.
//!
//! The program's own `clock_gettime` takes the place of libc's for the calls of the standard library. Only
//! CLOCK_REALTIME of a thread that asked for it is another one; everything else goes to the kernel.

use crate::rng::Rng;
use std::cell::Cell;

thread_local! {
    /// now, and how far it goes with each look
    static CLOCK: Cell<Option<(i64, i64, i64)>> = const { Cell::new(None) };
}

/// # Safety
/// as of clock_gettime(2)
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_REALTIME {
        if let Some((s, ns, step)) = CLOCK.with(Cell::get) {
            CLOCK.with(|c| c.set(Some(((s + step).clamp(0, END), ns, step))));
            (*ts).tv_sec = s;
            (*ts).tv_nsec = ns;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int
}

pub fn real() {
    CLOCK.with(|c| c.set(None));
}

/// 9999-12-31T23:59:59Z
const END: i64 = 253_402_300_799;

const MOMENTS: &[i64] = &[
    0,
    1,
    59,
    86_399,
    86_400,
    951_782_400,   // 2000-02-29
    951_868_799,   // its last second
    946_684_799,   // 1999-12-31T23:59:59
    1_483_228_799, // a leap second follows
    1_711_846_800, // Berlin goes forward
    1_729_990_800, // Berlin goes back
    2_147_483_647, // 2^31 - 1
    2_147_483_648,
    4_102_444_799, // 2099-12-31T23:59:59
    4_294_967_295, // 2^32 - 1
    4_294_967_296,
    32_503_680_000, // 3000
    END - 100_000,
];

/// The clock of a case. False: it's the real one.
pub fn of_case(r: &mut Rng) -> bool {
    if r.one_in(4) {
        real();
        return false;
    }
    let s = match r.below(6) {
        0 => *r.pick(MOMENTS),
        1 | 2 => r.range(0, END - 100_000),
        // hours around noon and midnight
        3 => r.range(0, 30_000) * 86_400 + *r.pick(&[0, 43_199, 43_200, 46_800, 86_399]),
        _ => r.range(0, 4_102_444_799),
    };
    let ns = *r.pick(&[0, 1, 499_999_999, 500_000_000, 999_999_999]);
    let step = *r.pick(&[0, 0, 0, 1, 1, 60, -1]);
    CLOCK.with(|c| c.set(Some((s.max(if step < 0 { 100_000 } else { 0 }), ns, step))));
    true
}
