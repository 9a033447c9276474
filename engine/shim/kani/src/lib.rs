//! Runs proof harnesses natively: on the inputs of a counterexample, or on
//! random inputs. It stands in for the `kani` crate outside the verifier.
pub use kani_macros::{Arbitrary, proof, solver, stub, unwind};

pub trait Arbitrary {
    fn any() -> Self;
}

macro_rules! integer {
    ($($type:ty),*) => {
        $(impl Arbitrary for $type {
            fn any() -> Self {
                <$type>::from_le_bytes(native::bytes::<{ core::mem::size_of::<$type>() }>())
            }
        })*
    };
}

integer!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);

impl Arbitrary for bool {
    fn any() -> Self {
        native::small(2) == 1
    }
}

impl Arbitrary for char {
    fn any() -> Self {
        let value = u32::any();
        match char::from_u32(value) {
            Some(character) => character,
            None => {
                assume(false);
                unreachable!()
            }
        }
    }
}

impl Arbitrary for () {
    fn any() -> Self {}
}

impl<T: Arbitrary, const N: usize> Arbitrary for [T; N] {
    fn any() -> Self {
        core::array::from_fn(|_| T::any())
    }
}

impl<T: Arbitrary> Arbitrary for Option<T> {
    fn any() -> Self {
        if bool::any() {
            Some(T::any())
        } else {
            None
        }
    }
}

macro_rules! tuple {
    ($($name:ident),*) => {
        impl<$($name: Arbitrary),*> Arbitrary for ($($name,)*) {
            fn any() -> Self {
                ($($name::any(),)*)
            }
        }
    };
}

tuple!(A);
tuple!(A, B);
tuple!(A, B, C);
tuple!(A, B, C, D);
tuple!(A, B, C, D, E);

pub fn any<T: Arbitrary>() -> T {
    T::any()
}

pub fn any_where<T: Arbitrary>(predicate: impl FnOnce(&T) -> bool) -> T {
    let value = T::any();
    assume(predicate(&value));
    value
}

pub struct Rejected;

pub fn assume(condition: bool) {
    if !condition {
        std::panic::resume_unwind(Box::new(Rejected));
    }
}

#[macro_export]
macro_rules! cover {
    ($($tokens:tt)*) => {{}};
}

pub mod native {
    use super::Rejected;
    use std::{cell::RefCell, env, panic};

    #[derive(Default)]
    struct Input {
        state: u64,
        given: Option<std::collections::VecDeque<Vec<u8>>>,
        log: Vec<Vec<u8>>,
        bias: u64,
    }

    thread_local! {
        static INPUT: RefCell<Input> = RefCell::new(Input::default());
    }

    fn random(input: &mut Input) -> u64 {
        input.state = input.state.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = input.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }

    fn take<const N: usize>(limit: Option<u64>) -> [u8; N] {
        INPUT.with(|input| {
            let input = &mut *input.borrow_mut();
            let mut bytes = [0; N];
            let given = input.given.as_mut().map(|given| given.pop_front());
            if let Some(given) = given {
                for (to, from) in bytes.iter_mut().zip(given.unwrap_or_default()) {
                    *to = from;
                }
            } else {
                let r = random(input);
                let kind = random(input) % 8;
                let value: u128 = match kind {
                    0 => 0,
                    1 | 2 => (r % 8) as u128,
                    3 | 4 => (r % 80) as u128,
                    5 => u128::MAX - (r % 4) as u128,
                    6 => {
                        // a floating-point number that is small and often integral
                        let number = ((r % 4096) as f64 - 1024.0) / if input.bias & 1 == 0 { 1.0 } else { 8.0 };
                        if N == 8 { number.to_bits() as u128 } else { 1u128 << (r % 128) }
                    }
                    _ => ((random(input) as u128) << 64) | r as u128,
                };
                let value = match limit {
                    Some(limit) => (r % limit) as u128,
                    None => value,
                };
                bytes.copy_from_slice(&value.to_le_bytes()[..N]);
            }
            input.log.push(bytes.to_vec());
            bytes
        })
    }

    pub fn bytes<const N: usize>() -> [u8; N] {
        take(None)
    }

    pub fn small(limit: u64) -> u8 {
        take::<1>(Some(limit))[0]
    }

    fn hash(text: &str) -> u64 {
        text.bytes().fold(0xcbf29ce484222325, |hash, byte| (hash ^ byte as u64).wrapping_mul(0x100000001b3))
    }

    fn describe(log: &[Vec<u8>]) -> String {
        log.iter()
            .map(|bytes| bytes.iter().map(|byte| format!("{byte:02x}")).collect::<String>())
            .collect::<Vec<_>>()
            .join(",")
    }

    /// Runs a harness on the inputs in VERIF_INPUT, or on VERIF_ROUNDS random ones.
    pub fn run(name: &str, harness: fn()) {
        let given = env::var("VERIF_INPUT").ok();
        let rounds = if given.is_some() {
            1
        } else {
            env::var("VERIF_ROUNDS").ok().and_then(|text| text.parse().ok()).unwrap_or(2000)
        };
        let seed = env::var("VERIF_SEED").ok().and_then(|text| text.parse().ok()).unwrap_or(1u64);
        let mut accepted = 0;
        // A panic that leaves a function with a foreign ABI aborts the process,
        // so that the input is to be told before unwinding.
        let previous = panic::take_hook();
        let harness_name = name.to_string();
        panic::set_hook(Box::new(move |information| {
            let log = INPUT.with(|input| input.borrow().log.clone());
            println!("FAILING-INPUT {harness_name} {}", describe(&log));
            previous(information)
        }));
        for round in 0..rounds {
            INPUT.with(|input| {
                *input.borrow_mut() = Input {
                    state: hash(name) ^ seed.wrapping_mul(0x2545f4914f6cdd1d) ^ (round as u64) << 20,
                    given: given.as_ref().map(|text| {
                        text.split(',')
                            .filter(|text| !text.is_empty())
                            .map(|text| (0..text.len() / 2).map(|index| u8::from_str_radix(&text[2 * index..2 * index + 2], 16).unwrap()).collect())
                            .collect()
                    }),
                    log: vec![],
                    bias: round as u64,
                }
            });
            match panic::catch_unwind(harness) {
                Ok(()) => accepted += 1,
                Err(error) if error.is::<Rejected>() => {}
                Err(error) => panic::resume_unwind(error),
            }
        }
        let _ = panic::take_hook();
        println!("NATIVE-RUNS {name} {accepted} of {rounds}");
    }
}
