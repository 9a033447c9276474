//! Contracts of the drivers that carry values between compiled code and
//! futures: `call!`, `call_function!`, `from_closure`, `from_function` and
//! `to_closure`.
use crate::waker::{waker, WAKES};
use core::{
    future::Future,
    pin::pin,
    task::{Context, Poll},
};
use pen_ffi::{
    call, call_function,
    cps::{AsyncStack, ContinuationFunction},
    future, Closure,
};

type Stack = AsyncStack<u64>;
type Continuation = ContinuationFunction<u64, u64>;

// How many times the computation suspends before it delivers its value.
static mut SUSPENSIONS: u8 = 0;
static mut RUNS: u8 = 0;
static mut VALUE: u64 = 0;
static mut RELEASED: u8 = 0;

struct Pause(u64);

impl Future for Pause {
    type Output = ();
    fn poll(self: core::pin::Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        Poll::Ready(())
    }
}

fn advance(stack: &mut Stack, continue_: Continuation) {
    unsafe {
        RUNS += 1;
        if RUNS > SUSPENSIONS {
            continue_(stack, VALUE)
        } else {
            assert!(stack.suspend(step, continue_, Pause(VALUE ^ RUNS as u64)).is_ok());
        }
    }
}

fn step(stack: &mut Stack, continue_: Continuation) {
    let pause = stack.restore::<Pause>();
    assert!(pause.is_ok());
    assert!(pause.ok().unwrap().0 == unsafe { VALUE ^ RUNS as u64 }, "a suspended computation gets its own state back");
    advance(stack, continue_)
}

unsafe extern "C" fn function(stack: &mut Stack, continue_: Continuation) {
    advance(stack, continue_)
}

unsafe extern "C" fn function_with_arguments(stack: &mut Stack, continue_: Continuation, x: u64, y: u64) {
    VALUE = x.wrapping_sub(y);
    advance(stack, continue_)
}

struct Captured(u64);

impl Drop for Captured {
    fn drop(&mut self) {
        unsafe { RELEASED += 1 }
    }
}

extern "C" fn entry(stack: &mut Stack, continue_: Continuation, closure: Closure<Captured>) {
    unsafe { VALUE = (*closure.payload()).0 };
    advance(stack, continue_)
}

extern "C" fn entry_with_arguments(stack: &mut Stack, continue_: Continuation, closure: Closure<Captured>, x: u64, y: u64) {
    unsafe { VALUE = (*closure.payload()).0 ^ x.wrapping_sub(y) };
    advance(stack, continue_)
}

/// Polls a future until it is ready: it takes one poll more than there are
/// suspensions, and delivers the value.
fn drive(future: impl Future<Output = u64>, value: u64, suspensions: u8) {
    let waker = waker();
    let mut context = Context::from_waker(&waker);
    let mut future = pin!(future);
    let mut polls = 0;
    loop {
        assert!(polls <= suspensions, "a finished computation is delivered");
        match future.as_mut().poll(&mut context) {
            Poll::Ready(delivered) => {
                assert!(delivered == value, "the value delivered is the value computed");
                assert!(polls == suspensions, "a value is only delivered by a finished computation");
                break;
            }
            Poll::Pending => polls += 1,
        }
    }
    assert!(unsafe { RUNS } == suspensions + 1, "every part of a computation runs once");
}

fn prepare(suspensions: u8) {    unsafe {
        SUSPENSIONS = suspensions;
        RUNS = 0;
        RELEASED = 0;
    }
}

fn function_is_driven_to_its_value(suspensions: u8) {
    prepare(suspensions);
    let value: u64 = kani::any();
    unsafe { VALUE = value };
    drive(future::from_function(function), value, suspensions);
    kani::cover!(true);
}

fn closure_is_driven_to_its_value(suspensions: u8) {
    prepare(suspensions);
    let value: u64 = kani::any();
    drive(future::from_closure(Closure::new(entry as *const u8, Captured(value))), value, suspensions);
    assert!(unsafe { RELEASED } == 1, "a closure that was called is released once");
    kani::cover!(true);
}

fn function_call_passes_arguments_and_value(suspensions: u8) {
    prepare(suspensions);
    let (x, y): (u64, u64) = kani::any();
    drive(call_function!(fn(u64, u64) -> u64, function_with_arguments, x, y), x.wrapping_sub(y), suspensions);
    kani::cover!(true);
}

fn closure_call_passes_arguments_and_value(suspensions: u8) {
    prepare(suspensions);
    let (x, y, z): (u64, u64, u64) = kani::any();
    drive(
        call!(
            fn(u64, u64) -> u64,
            unsafe { core::mem::transmute::<Closure<Captured>, Closure<u64>>(Closure::new(entry_with_arguments as *const u8, Captured(z))) },
            x,
            y
        ),
        z ^ x.wrapping_sub(y),
        suspensions,
    );
    assert!(unsafe { RELEASED } == 1, "a closure that was called is released once");
    kani::cover!(true);
}

/// A future that is pending a number of times.
struct Delayed {
    left: u8,
    value: u64,
    finished: bool,
}

impl Future for Delayed {
    type Output = u64;
    fn poll(mut self: core::pin::Pin<&mut Self>, _: &mut Context<'_>) -> Poll<u64> {
        assert!(!self.finished, "a finished future is never polled");
        unsafe { RUNS += 1 };
        if self.left == 0 {
            self.finished = true;
            Poll::Ready(self.value)
        } else {
            self.left -= 1;
            Poll::Pending
        }
    }
}

impl Drop for Delayed {
    fn drop(&mut self) {
        unsafe { RELEASED += 1 }
    }
}

/// A future goes through compiled code and back.
fn future_becomes_a_closure_and_back(suspensions: u8) {
    prepare(suspensions);
    let value: u64 = kani::any();
    unsafe { WAKES = 0 };
    let closure = future::to_closure(Delayed { left: suspensions, value, finished: false });
    {
        let waker = waker();
        let mut context = Context::from_waker(&waker);
        let mut future = pin!(future::from_closure::<(), u64>(closure));
        let mut polls = 0u8;
        loop {
            match future.as_mut().poll(&mut context) {
                Poll::Ready(delivered) => {
                    assert!(delivered == value, "the value delivered is the value computed");
                    assert!(polls >= suspensions, "a value is only delivered by a finished future");
                    break;
                }
                Poll::Pending => {
                    assert!(polls < suspensions || unsafe { WAKES } > 0, "a finished future is delivered");
                    assert!(polls <= suspensions, "a finished future is delivered");
                    polls += 1;
                }
            }
        }
    }
    assert!(unsafe { RUNS } == suspensions + 1);
    assert!(unsafe { RELEASED } == 1, "the future is dropped once");
    kani::cover!(true);
}

fn unwrap_failed(_: &str, _: &dyn core::fmt::Debug) -> ! {
    panic!()
}

macro_rules! harnesses {
    ($($name:ident: $function:ident, $suspensions:literal;)*) => {
        $(
            #[kani::proof]
            #[kani::unwind(6)]
            #[kani::stub(core::result::unwrap_failed, unwrap_failed)]
            #[kani::stub(std::alloc::dealloc, crate::free_stub)]
            fn $name() {
                $function($suspensions)
            }
        )*
    };
}

harnesses! {
    bounded_function_is_driven_to_its_value_0: function_is_driven_to_its_value, 0;
    bounded_function_is_driven_to_its_value_1: function_is_driven_to_its_value, 1;
    bounded_closure_is_driven_to_its_value_0: closure_is_driven_to_its_value, 0;
    bounded_closure_is_driven_to_its_value_1: closure_is_driven_to_its_value, 1;
    bounded_function_call_passes_arguments_and_value_0: function_call_passes_arguments_and_value, 0;
    bounded_function_call_passes_arguments_and_value_1: function_call_passes_arguments_and_value, 1;
    bounded_closure_call_passes_arguments_and_value_0: closure_call_passes_arguments_and_value, 0;
    bounded_closure_call_passes_arguments_and_value_1: closure_call_passes_arguments_and_value, 1;
    bounded_future_becomes_a_closure_and_back_0: future_becomes_a_closure_and_back, 0;
}

#[cfg(test)]
mod native {
    use super::*;

    #[test]
    fn every_driver_with_up_to_nine_suspensions() {
        for suspensions in 0..10 {
            unsafe { VALUE = 42 };
            function_is_driven_to_its_value(suspensions);
            closure_is_driven_to_its_value(suspensions);
            function_call_passes_arguments_and_value(suspensions);
            closure_call_passes_arguments_and_value(suspensions);
            future_becomes_a_closure_and_back(suspensions);
        }
    }
}
