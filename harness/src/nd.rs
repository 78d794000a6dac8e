//! Source of the universally quantified inputs of a contract.
//!
//! Under Kani every `any()` is a fresh symbolic value, so a loop-free harness covers all inputs.
//! Natively `any()` either replays the concrete values of a counterexample or draws values from a
//! seeded generator biased towards edge cases (the labelled *bounded* stand-ins).
#[cfg(kani)]
pub use imp_kani::*;
#[cfg(not(kani))]
pub use imp_native::*;

#[cfg(kani)]
mod imp_kani {
    pub fn any<T: kani::Arbitrary>() -> T {
        kani::any()
    }
    pub fn assume(b: bool) {
        kani::assume(b)
    }
    /// An arbitrary value below `n`.
    pub fn below(n: u64) -> u64 {
        let x: u64 = kani::any();
        kani::assume(x < n);
        x
    }
    /// An arbitrary value; generated ones stay near `base`, where something interesting happens.
    pub fn near(_base: u64) -> u64 {
        kani::any()
    }
    /// Reachability check: the contract's precondition must be satisfiable up to this point.
    macro_rules! reach {
        ($e:expr, $m:literal) => {
            kani::cover!($e, $m)
        };
    }
    pub(crate) use reach;
    /// Never run destructors of symbolic values: the drop glue of error types is not under contract.
    pub fn leak<T>(t: T) {
        std::mem::forget(t)
    }
}

#[cfg(not(kani))]
mod imp_native {
    use std::cell::RefCell;
    use std::sync::Mutex;
    pub enum Source {
        Replay(Vec<Vec<u8>>, usize),
        Rng(u64),
    }
    thread_local! {
        pub static SRC: RefCell<Source> = RefCell::new(Source::Rng(1));
    }
    /// The values drawn by the current case, so that any failure can be replayed.
    pub static LOG: Mutex<Vec<Vec<u8>>> = Mutex::new(Vec::new());
    pub struct Discard;

    pub fn log_hex() -> String {
        let l = match LOG.lock() {
            Ok(l) => l,
            Err(p) => p.into_inner(),
        };
        l.iter()
            .map(|b| b.iter().map(|x| format!("{x:02x}")).collect::<String>())
            .collect::<Vec<_>>()
            .join(" ")
    }
    /// Ends the run with a failure of the current case.
    pub fn report_and_exit(m: &str) -> ! {
        println!("FAIL {m}");
        println!("INPUT {}", log_hex());
        std::process::exit(1)
    }

    fn next(s: &mut u64) -> u64 {
        // splitmix64
        *s = s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }

    fn draw<const N: usize>(float: bool) -> [u8; N] {
        SRC.with(|s| {
            let out: [u8; N] = match &mut *s.borrow_mut() {
                Source::Replay(v, i) => {
                    let x = v.get(*i).cloned().unwrap_or_else(|| vec![0; N]);
                    *i += 1;
                    let mut o = [0u8; N];
                    for k in 0..N.min(x.len()) {
                        o[k] = x[k];
                    }
                    o
                }
                Source::Rng(st) => {
                    let r = next(st);
                    let full: [u8; 16] = {
                        let mut o = [0u8; 16];
                        o[..8].copy_from_slice(&next(st).to_le_bytes());
                        o[8..].copy_from_slice(&next(st).to_le_bytes());
                        o
                    };
                    let mut o = [0u8; 16];
                    if float && N == 4 {
                        let f: f32 = match r % 16 {
                            0 => 0.0,
                            1 => -0.0,
                            2 => 1.0,
                            3 => -1.0,
                            4 => 0.5,
                            5 => f32::MAX,
                            6 => f32::MIN_POSITIVE,
                            7 => f32::from_bits(u32::from_le_bytes(full[..4].try_into().unwrap())),
                            8 => f32::INFINITY,
                            9 => f32::NAN,
                            10..=12 => (full[0] as f32) / 255.0,
                            13 => -(full[0] as f32) / 16.0,
                            _ => (i16::from_le_bytes([full[0], full[1]]) as f32) / 32.0,
                        };
                        o[..4].copy_from_slice(&f.to_le_bytes());
                    } else if float && N == 8 {
                        let f = (i32::from_le_bytes(full[..4].try_into().unwrap()) as f64) / 65536.0;
                        o[..8].copy_from_slice(&f.to_le_bytes());
                    } else {
                        match r % 8 {
                            0 => {}
                            1 => o[0] = 1,
                            2 => o = [0xff; 16],
                            3 => {
                                // a power of two, plus or minus one
                                let b = (r >> 8) as usize % (8 * N);
                                let v = (1u128 << b).wrapping_add(((r >> 20) % 3) as u128).wrapping_sub(1);
                                o = v.to_le_bytes();
                            }
                            4 | 5 => o[0] = full[0] % 9,
                            6 => o[0] = full[0],
                            _ => o = full,
                        }
                    }
                    let mut out = [0u8; N];
                    out.copy_from_slice(&o[..N]);
                    out
                }
            };
            LOG.lock().unwrap().push(out.to_vec());
            out
        })
    }

    fn special(f: impl FnOnce(u64) -> u64) -> (u64, bool) {
        let r = SRC.with(|s| match &mut *s.borrow_mut() {
            Source::Replay(v, i) => {
                let x = v.get(*i).cloned().unwrap_or_else(|| vec![0; 8]);
                *i += 1;
                let mut o = [0u8; 8];
                for k in 0..8.min(x.len()) {
                    o[k] = x[k];
                }
                (u64::from_le_bytes(o), true)
            }
            Source::Rng(st) => (f(next(st)), false),
        });
        LOG.lock().unwrap().push(r.0.to_le_bytes().to_vec());
        r
    }
    pub fn below(n: u64) -> u64 {
        let (x, replay) = special(|r| if r & 0x700000 == 0 { n - 1 } else { (r >> 32) % n });
        if replay {
            assume(x < n);
        }
        x
    }
    pub fn near(base: u64) -> u64 {
        special(|r| base.wrapping_add(r % 64).wrapping_sub(16)).0
    }

    pub trait Arb {
        fn arb() -> Self;
    }
    macro_rules! ints {
        ($($t:ty),*) => { $(impl Arb for $t { fn arb() -> Self { <$t>::from_le_bytes(draw(false)) } })* };
    }
    ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    impl Arb for f32 {
        fn arb() -> Self {
            f32::from_le_bytes(draw(true))
        }
    }
    impl Arb for f64 {
        fn arb() -> Self {
            f64::from_le_bytes(draw(true))
        }
    }
    impl Arb for bool {
        fn arb() -> Self {
            draw::<1>(false)[0] & 1 == 1
        }
    }
    impl<T: Arb, const N: usize> Arb for [T; N] {
        fn arb() -> Self {
            std::array::from_fn(|_| T::arb())
        }
    }
    pub fn any<T: Arb>() -> T {
        T::arb()
    }
    pub fn assume(b: bool) {
        if !b {
            std::panic::panic_any(Discard)
        }
    }
    macro_rules! reach {
        ($e:expr, $m:literal) => {{
            let _ = $e;
        }};
    }
    pub(crate) use reach;
    pub fn leak<T>(_t: T) {}

    /// Text without null characters: of every length around the sizes things are padded to, with white space and
    /// letters of both cases anywhere, and not only ASCII.
    pub fn text() -> String {
        let n = match below(16) {
            0 => return String::new(),
            1 => return ["é名", "骨_Trans", "ä漢", "\u{feff}a", "ÄÖ\u{0301}", "İı"][below(6) as usize].into(),
            2 => return ["/common/shader/sfxPBS/default_Params", "#replace_cubemap", "Position0", "a\\b\"c'd/e", "\t\n\r", "null", "0x00", "map1.001"][below(8) as usize].into(),
            3 => [3, 4, 7, 8, 15, 16][below(6) as usize],
            4 if below(16) == 0 => 250 + below(20),
            _ => below(20),
        };
        // Mostly letters, digits and punctuation; white space in the middle and at either end.
        let mut t: String = (0..n).map(|_| (b'!' + below(94) as u8) as char).collect();
        if n > 0 && below(6) == 0 {
            let at = [0, n - 1, below(n)][below(3) as usize] as usize;
            t.replace_range(at..at + 1, [" ", "\t", "\n", "\u{7f}"][below(4) as usize]);
        }
        t
    }
}
