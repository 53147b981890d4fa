//! Nondeterminism and obligations. Under Kani the inputs are symbolic; natively they are replayed
//! from the verifier's counterexample (or drawn at random when searching for a failing input).

#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 {
        kani::any()
    }
    pub fn u64() -> u64 {
        kani::any()
    }
    pub fn usize() -> usize {
        kani::any()
    }
    pub fn isize() -> isize {
        kani::any()
    }
    pub fn bool() -> bool {
        kani::any()
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
    /// Reached when a call that must panic has returned: not a panic, so that `should_panic` fails.
    pub fn returned() {
        let p = core::ptr::null::<u8>();
        let x = unsafe { core::ptr::read_volatile(p) };
        assume(x == 0);
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;

    /// Panic payload for an assumption that does not hold for the replayed or drawn input.
    pub struct Rejected;
    /// Panic payload for a call that returned although it must panic.
    pub struct Returned;

    pub struct Source {
        pub vals: VecDeque<Vec<u8>>,
        pub rng: Option<u64>,
        pub log: Vec<Vec<u8>>,
    }

    thread_local! {
        pub static SRC: RefCell<Source> =
            RefCell::new(Source { vals: VecDeque::new(), rng: None, log: Vec::new() });
    }

    fn draw(n: usize, signed: bool) -> Vec<u8> {
        SRC.with(|s| {
            let mut s = s.borrow_mut();
            let out = if let Some(state) = s.rng {
                let mut x = state;
                let mut next = || {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    x
                };
                let kind = next() % 16;
                let raw = next();
                let v: u64 = match kind {
                    0 => raw,
                    1 => u64::MAX - raw % 4,
                    2 => raw % 256,
                    3 if signed => (raw % 17).wrapping_sub(8),
                    4 if signed => (raw % 9).wrapping_sub(4),
                    5 if signed => (raw % 5).wrapping_sub(2),
                    6 => raw % 10,
                    _ => raw % 5,
                };
                s.rng = Some(x);
                v.to_le_bytes()[..n].to_vec()
            } else {
                let mut v = s.vals.pop_front().unwrap_or_else(|| vec![0; n]);
                v.resize(n, 0);
                v
            };
            s.log.push(out.clone());
            out
        })
    }

    pub fn u8() -> u8 {
        draw(1, false)[0]
    }
    pub fn u64() -> u64 {
        u64::from_le_bytes(draw(8, false).try_into().unwrap())
    }
    pub fn usize() -> usize {
        usize::from_le_bytes(draw(8, false).try_into().unwrap())
    }
    pub fn isize() -> isize {
        isize::from_le_bytes(draw(8, true).try_into().unwrap())
    }
    pub fn bool() -> bool {
        draw(1, false)[0] & 1 == 1
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Rejected)
        }
    }
    pub fn returned() {
        std::panic::panic_any(Returned)
    }
}

pub use imp::*;

/// Obligation in a `partial` harness, where the call under contract may panic: fails otherwise
/// than by a panic.
pub fn ensure(c: bool) {
    if !c {
        returned();
    }
}

/// Stands in for the formatting of error messages.
pub fn no_message(_: std::fmt::Arguments<'_>) -> String {
    String::new()
}

/// A symbolic size below or equal to `max`.
pub fn upto(max: usize) -> usize {
    let x = usize();
    assume(x <= max);
    x
}

/// A symbolic integer in `-max..=max`.
pub fn within(max: isize) -> isize {
    let x = isize();
    assume(-max <= x && x <= max);
    x
}

pub fn usizes<const N: usize>() -> [usize; N] {
    let mut a = [0; N];
    for i in 0..N {
        a[i] = usize();
    }
    a
}

pub fn upto_n<const N: usize>(max: usize) -> [usize; N] {
    let mut a = [0; N];
    for i in 0..N {
        a[i] = upto(max);
    }
    a
}

pub fn isizes<const N: usize>() -> [isize; N] {
    let mut a = [0; N];
    for i in 0..N {
        a[i] = isize();
    }
    a
}

pub fn within_n<const N: usize>(max: isize) -> [isize; N] {
    let mut a = [0; N];
    for i in 0..N {
        a[i] = within(max);
    }
    a
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Holds,
    Panics,
    Partial,
}

#[cfg(not(kani))]
#[derive(Clone, Copy)]
pub struct Entry {
    pub name: &'static str,
    pub mode: Mode,
    pub f: fn(),
}

/// `holds` harnesses: the body must run to the end without a failed obligation, for all inputs.
/// `refuses` harnesses: the same, where the text of error messages is left out.
/// `panics` harnesses: the body must panic for all inputs (`returned()` is appended).
/// `partial` harnesses: the body may panic, but where it does not, every `ensure` must hold.
#[macro_export]
macro_rules! proofs {
    ($($(#[doc = $doc:literal])* $kind:ident($unw:literal) fn $name:ident() $body:block)*) => {
        $($crate::proofs!(@one $kind $unw $name $body);)*

        #[cfg(not(kani))]
        pub const TABLE: &[$crate::nd::Entry] = &[
            $($crate::nd::Entry {
                name: concat!(module_path!(), "::", stringify!($name)),
                mode: $crate::proofs!(@mode $kind),
                f: $name,
            }),*
        ];
    };
    (@mode holds) => { $crate::nd::Mode::Holds };
    (@mode refuses) => { $crate::nd::Mode::Holds };
    (@mode panics) => { $crate::nd::Mode::Panics };
    (@mode partial) => { $crate::nd::Mode::Partial };
    (@one holds $unw:literal $name:ident $body:block) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($unw))]
        pub fn $name() {
            let _: () = $body;
            #[cfg(kani)]
            kani::cover!(true, "contract precondition reachable");
        }
    };
    (@one refuses $unw:literal $name:ident $body:block) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($unw))]
        #[cfg_attr(kani, kani::stub(std::fmt::format, $crate::nd::no_message))]
        pub fn $name() {
            let _: () = $body;
            #[cfg(kani)]
            kani::cover!(true, "contract precondition reachable");
        }
    };
    (@one panics $unw:literal $name:ident $body:block) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($unw))]
        #[cfg_attr(kani, kani::should_panic)]
        pub fn $name() {
            let _: () = $body;
            $crate::nd::returned();
        }
    };
    (@one partial $unw:literal $name:ident $body:block) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($unw))]
        #[cfg_attr(kani, kani::should_panic)]
        pub fn $name() {
            let _: () = $body;
            #[cfg(kani)]
            kani::cover!(true, "contract precondition reachable");
        }
    };
}
