//! Contracts of the state cells that tests keep values in.
#[cfg(test)]
mod bounded {
    use super::super::*;
    use crate::runtime::*;

    fn share(state: &State) -> State {
        State(state.0.clone())
    }

    fn number(any: &ffi::Any) -> Option<f64> {
        <&Number>::try_from(any).ok().map(|number| number.0)
    }

    #[test]
    fn last_value_set_is_read() {
        for history in 0..3u32.pow(7) {
            let state = _pen_test_state_new();
            let other = _pen_test_state_new();
            let mut expected = None;
            let mut rest = history;
            for step in 0..7 {
                match rest % 3 {
                    0 => {
                        _pen_test_state_set(share(&state), Number(step as f64).into());
                        expected = Some(step as f64);
                    }
                    1 => {
                        let any = _pen_test_state_get(share(&state));
                        assert!(number(&any) == expected, "history {history}");
                        assert!(expected.is_some() || <&Nothing>::try_from(&any).is_ok());
                    }
                    _ => {
                        _pen_test_state_set(share(&other), Number(-1.0).into());
                    }
                }
                rest /= 3;
            }
            assert!(number(&_pen_test_state_get(share(&state))) == expected, "history {history}");
        }
    }
}
