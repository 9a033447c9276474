//! Contracts of number operations.
use super::*;

fn is_integer(x: f64) -> bool {
    x.is_infinite() || x.abs() >= 9007199254740992.0 || x as i64 as f64 == x
}

#[kani::proof]
fn absolute_value() {
    let x: f64 = kani::any();
    let y: f64 = _pen_core_absolute(x.into()).into();
    assert!(x.is_nan() == y.is_nan());
    if !x.is_nan() {
        assert!(y >= 0.0 && (y == x || y == -x));
    }
    kani::cover!(x < 0.0);
}

#[kani::proof]
fn floor_is_the_greatest_integer_below() {
    let x: f64 = kani::any();
    let y: f64 = _pen_core_floor(x.into()).into();
    assert!(x.is_nan() == y.is_nan());
    if !x.is_nan() {
        assert!(is_integer(y) && y <= x);
        assert!(y == x || y + 1.0 > x);
    }
    kani::cover!(x < 0.0 && y < x);
}

#[kani::proof]
fn ceil_is_the_least_integer_above() {
    let x: f64 = kani::any();
    let y: f64 = _pen_core_ceil(x.into()).into();
    assert!(x.is_nan() == y.is_nan());
    if !x.is_nan() {
        assert!(is_integer(y) && y >= x);
        assert!(y == x || y - 1.0 < x);
    }
    kani::cover!(x < 0.0 && y > x);
}

#[kani::proof]
fn round_is_the_nearest_integer_away_from_zero_on_ties() {
    let x: f64 = kani::any();
    let y: f64 = _pen_core_round(x.into()).into();
    assert!(x.is_nan() == y.is_nan());
    if x.is_finite() {
        assert!(is_integer(y));
        let difference = y - x;
        assert!(difference.abs() <= 0.5);
        if difference.abs() == 0.5 {
            assert!(y.abs() > x.abs(), "ties go away from zero");
        }
    }
    kani::cover!(x == -2.5);
}

#[kani::proof]
fn truncation_and_fraction_add_up() {
    let x: f64 = kani::any();
    let whole: f64 = _pen_core_truncate(x.into()).into();
    let rest: f64 = _pen_core_fraction(x.into()).into();
    assert!(x.is_nan() == whole.is_nan());
    if x.is_finite() {
        assert!(is_integer(whole) && whole.abs() <= x.abs());
        assert!(whole == 0.0 || whole.is_sign_negative() == x.is_sign_negative());
        assert!(rest.abs() < 1.0 && rest == x - whole);
    }
    kani::cover!(x < -1.0 && rest != 0.0);
}

#[kani::proof]
fn constants() {
    assert!(f64::from(_pen_core_infinity()) == f64::INFINITY);
    assert!(f64::from(_pen_core_nan()).is_nan());
    assert!(f64::from(_pen_core_epsilon()) == f64::EPSILON);
    let x: f64 = kani::any();
    assert!(bool::from(_pen_core_is_nan(x.into())) == (x != x));
    kani::cover!(x != x);
    kani::cover!(x == x);
}

#[kani::proof]
fn square_root_squares_back() {
    let x: f64 = kani::any();
    let y: f64 = _pen_core_square_root(x.into()).into();
    assert!(y.is_nan() == (x.is_nan() || x < 0.0));
    kani::cover!(x == 2.0);
}

#[cfg(test)]
mod witness {
    extern crate std;

    use super::super::*;
    use std::string::String;

    fn numbers() -> impl Iterator<Item = f64> {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|seed| seed.parse().ok()).unwrap_or(1u64);
        let rounds = std::env::var("VERIF_ROUNDS").ok().and_then(|rounds| rounds.parse().ok()).unwrap_or(2000);
        let mut state = seed;
        [
            0.0, -0.0, 1.0, -1.0, 0.1, 1e21, 1e-7, 1.5e300, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::INFINITY,
            f64::NEG_INFINITY, 9007199254740991.0, 9007199254740993.0, 123456789.125,
        ]
        .into_iter()
        .chain((0..rounds * 20).map(move |index| {
            state = state.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let bits = state ^ state >> 29;
            match index % 3 {
                0 => f64::from_bits(bits),
                1 => (bits >> 40) as f64 / 64.0,
                _ => (bits >> 11) as f64,
            }
        }))
    }

    // Anything of the result type is one machine word of type information and one of payload.
    fn parsed(text: &str) -> Option<f64> {
        let any: ffi::Any = unsafe { core::mem::transmute(_pen_core_parse_number(text.into())) };
        let number = <&crate::contracts::Number>::try_from(&any).ok().map(|number| number.0);
        number
    }

    #[test]
    fn printed_numbers_parse_back() {
        for x in numbers() {
            let text = _pen_core_convert_number_to_string(x.into());
            let text = core::str::from_utf8(text.as_slice()).unwrap();
            let y = parsed(text).unwrap();
            assert!(x.is_nan() && y.is_nan() || x.to_bits() == y.to_bits(), "{x:?} is printed as {text} and read as {y:?}");
        }
    }

    #[test]
    fn what_is_no_number_is_refused() {
        for text in ["", " ", "a", "1 ", " 1", "1a", "--1", "1.2.3", "0x10", "1e", "é", "\u{0}"] {
            assert!(parsed(text).is_none(), "{text:?}");
        }
        for text in [&[0xff][..], &[b'1', 0x80]] {
            let any: ffi::Any = unsafe { core::mem::transmute(_pen_core_parse_number(text.into())) };
            assert!(<&crate::contracts::Number>::try_from(&any).is_err());
        }
        for (text, value) in [("1", 1.0), ("-0.5", -0.5), ("1e3", 1000.0), ("42", 42.0)] {
            assert!(parsed(text) == Some(value), "{text:?}");
        }
    }

    #[test]
    fn remainders_are_in_range() {
        let mut previous = 3.0;
        for x in numbers() {
            let y: f64 = core::mem::replace(&mut previous, x);
            if !x.is_finite() || !y.is_finite() || y == 0.0 {
                continue;
            }
            let remainder: f64 = _pen_core_remainder(x.into(), y.into()).into();
            assert!((0.0..=y.abs()).contains(&remainder), "remainder of {x:?} and {y:?} is {remainder:?}");
            if x.abs() < 1e15 && y.abs() < 1e15 && x.fract() == 0.0 && y.fract() == 0.0 {
                assert!(remainder as i64 == (x as i64).rem_euclid(y as i64));
            }
        }
    }

    #[test]
    fn powers_and_exponentials() {
        for base in -9..10 {
            for exponent in 0..12 {
                let power: f64 = _pen_core_power((base as f64).into(), (exponent as f64).into()).into();
                assert!(power == (base as i64).pow(exponent as u32) as f64);
            }
        }
        for x in -20..20 {
            let y: f64 = _pen_core_exponential((x as f64).into()).into();
            let e: f64 = core::f64::consts::E.powi(x);
            assert!((y - e).abs() <= e * 1e-12);
        }
        for x in numbers() {
            let y: f64 = _pen_core_square_root(x.into()).into();
            if x >= 0.0 && x.is_finite() {
                assert!((y * y - x).abs() <= x * 1e-15 + 1e-320, "{x:?}");
            }
        }
        let _ = String::new();
    }
}
