//! Contracts of JSON numbers.
#[cfg(test)]
mod bounded {
    use super::super::*;

    fn round_trip(number: f64) {
        let text = _pen_json_encode_number(number.into());
        let bytes = text.as_slice();
        // RFC 8259: [ minus ] int [ frac ] [ exp ]
        let digits = bytes.strip_prefix(b"-").unwrap_or(bytes);
        let integer = digits.iter().take_while(|byte| byte.is_ascii_digit()).count();
        assert!(integer == 1 || integer > 1 && digits[0] != b'0', "{number:?} is encoded as {bytes:?}");
        let rest = &digits[integer..];
        if let Some(fraction) = rest.strip_prefix(b".") {
            assert!(!fraction.is_empty() && fraction.iter().all(|byte| byte.is_ascii_digit()), "{bytes:?}");
        } else {
            assert!(rest.is_empty(), "{bytes:?}");
        }
        let back: f64 = _pen_json_decode_number(text).into();
        assert!(back.to_bits() == number.to_bits(), "{number:?} comes back as {back:?}");
    }

    #[test]
    fn encoded_numbers_decode_back() {
        let rounds = std::env::var("VERIF_ROUNDS").ok().and_then(|rounds| rounds.parse().ok()).unwrap_or(2000u64);
        let mut state = std::env::var("VERIF_SEED").ok().and_then(|seed| seed.parse().ok()).unwrap_or(1u64);
        for index in 0..rounds * 20 {
            state = state.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let number = f64::from_bits(state ^ state >> 29);
            if number.is_finite() {
                round_trip(number);
            }
            round_trip(index as f64);
            round_trip(-(index as f64) / 8.0);
        }
        for number in [0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e21, 1e-7] {
            round_trip(number);
        }
    }

    #[test]
    fn what_is_no_number_is_decoded_as_nan() {
        for text in ["", "-", "a", "1a", "--1", "1.2.3"] {
            assert!(f64::from(_pen_json_decode_number(text.into())).is_nan(), "{text:?}");
        }
        assert!(f64::from(_pen_json_decode_number([0xff].as_slice().into())).is_nan());
        for (text, number) in [("0", 0.0), ("-12.5e-1", -1.25), ("1E2", 100.0), ("0.1", 0.1)] {
            assert!(f64::from(_pen_json_decode_number(text.into())) == number);
        }
    }
}
