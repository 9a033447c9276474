//! Contracts of `cps::AsyncStack`: the protocol between suspended computations
//! and the executor.
use crate::waker::{waker, WAKES};
use core::{
    future::Future,
    mem::forget,
    pin::Pin,
    task::{Context, Poll},
};
use pen_ffi::cps::{AsyncStack, ContinuationFunction, StepFunction};

type Stack = AsyncStack<u64>;

/// Fails without formatting the error: formatting functions are otherwise
/// candidates of every call through a function pointer.
fn unwrap_failed(_: &str, _: &dyn core::fmt::Debug) -> ! {
    panic!()
}

/// A value that a trampoline delivers. It has a type of its own to keep the
/// functions that may be called through a pointer apart.
#[derive(Clone, Copy, PartialEq)]
struct Message(u64, u32);

fn message() -> Message {
    Message(kani::any(), kani::any())
}

#[derive(PartialEq)]
struct Work(u64, u8);

impl Future for Work {
    type Output = u64;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<u64> {
        Poll::Ready(self.0)
    }
}

static mut CONTINUED: [usize; 2] = [0; 2];
static mut DELIVERED: Message = Message(0, 0);

fn step_0(_: &mut Stack, _: ContinuationFunction<u64, u64>) {}

fn step_1(_: &mut Stack, continuation: ContinuationFunction<u64, u64>) {
    forget(continuation)
}

extern "C" fn continue_0(_: &mut Stack, _: u64) {}

extern "C" fn continue_1(stack: &mut Stack, _: u64) {
    stack.resolve(0)
}

extern "C" fn receive_0(_: &mut Stack, value: Message) {
    unsafe {
        CONTINUED[0] += 1;
        DELIVERED = value;
    }
}

extern "C" fn receive_1(_: &mut Stack, value: Message) {
    unsafe {
        CONTINUED[1] += 1;
        DELIVERED = value;
    }
}

fn receiver(c: bool) -> ContinuationFunction<Message, u64> {
    if c { receive_1 } else { receive_0 }
}

fn pick() -> (bool, StepFunction<u64, u64>, bool, ContinuationFunction<u64, u64>) {
    let (s, c): (bool, bool) = (kani::any(), kani::any());
    let (step, continuation) = functions(s, c);
    (s, step, c, continuation)
}

fn functions(s: bool, c: bool) -> (StepFunction<u64, u64>, ContinuationFunction<u64, u64>) {
    (
        if s { step_1 } else { step_0 },
        if c { continue_1 } else { continue_0 },
    )
}

#[derive(Clone, Copy, PartialEq)]
enum Phase {
    Running,
    Suspended,
    Resumed,
    Trampolined,
}

#[derive(Clone, Copy, PartialEq)]
enum Operation {
    Suspend,
    Trampoline,
    Resume,
    Restore,
}

/// Runs one operation in one phase of the protocol, on top of an arbitrary
/// value and with arbitrary arguments, and compares it with the protocol.
fn transition(stack: &mut Stack, phase: Phase, operation: Operation) {
    let (base, work): (u64, (u64, u8)) = kani::any();
    let value = message();
    stack.push(base);
    let (s, step, c, continuation) = pick();
    match phase {
        Phase::Running => {}
        Phase::Suspended => {
            assert!(stack.suspend(step, continuation, Work(work.0, work.1)).is_ok(), "a running computation can suspend");
        }
        Phase::Resumed => {
            assert!(stack.suspend(step, continuation, Work(work.0, work.1)).is_ok());
            assert!(stack.resume::<u64>().is_ok(), "a suspended computation can resume");
        }
        Phase::Trampolined => {
            assert!(stack.trampoline(receiver(c), value).is_ok(), "a running computation can trampoline");
        }
    }
    match operation {
        Operation::Suspend => {
            let (s, step, c, continuation) = pick();
            let new: (u64, u8) = kani::any();
            let accepted = stack.suspend(step, continuation, Work(new.0, new.1)).is_ok();
            assert!(accepted == (phase == Phase::Running), "only a running computation can suspend");
            if accepted {
                suspended(stack, s, c, new);
                assert!(stack.pop::<u64>() == base, "the protocol leaves the values below alone");
            }
        }
        Operation::Trampoline => {
            let c: bool = kani::any();
            let new = message();
            let accepted = stack.trampoline(receiver(c), new).is_ok();
            assert!(accepted == (phase == Phase::Running), "only a running computation can trampoline");
            if accepted {
                trampolined(stack, c, new);
                assert!(stack.pop::<u64>() == base, "the protocol leaves the values below alone");
            }
        }
        Operation::Resume => match phase {
            Phase::Suspended => {
                suspended(stack, s, c, work);
                assert!(stack.pop::<u64>() == base, "the protocol leaves the values below alone");
            }
            Phase::Trampolined => {
                trampolined(stack, c, value);
                assert!(stack.pop::<u64>() == base, "the protocol leaves the values below alone");
            }
            _ => assert!(stack.resume::<u64>().is_err(), "only a suspended computation can resume"),
        },
        Operation::Restore => {
            let result = stack.restore::<Work>();
            assert!(result.is_ok() == (phase == Phase::Resumed), "only a resumed computation can be restored");
            if let Ok(future) = result {
                assert!(future.0 == work.0 && future.1 == work.1, "a restored computation is the one suspended");
                assert!(stack.pop::<u64>() == base, "the protocol leaves the values below alone");
            }
        }
    }
    kani::cover!(true);
}

macro_rules! transitions {
    ($($name:ident: $phase:ident, $operation:ident;)*) => {
        $(
            #[kani::proof]
            #[kani::unwind(5)]
            #[kani::stub(core::result::unwrap_failed, unwrap_failed)]
            fn $name() {
                let waker = waker();
                let mut context = Context::from_waker(&waker);
                let mut stack = Stack::new(128);
                stack.run_with_context(&mut context, |stack| {
                    transition(stack, Phase::$phase, Operation::$operation)
                });
                forget(stack);
            }
        )*
    };
}

transitions! {
    running_suspend: Running, Suspend;
    running_trampoline: Running, Trampoline;
    running_resume: Running, Resume;
    running_restore: Running, Restore;
    suspended_suspend: Suspended, Suspend;
    suspended_trampoline: Suspended, Trampoline;
    suspended_resume: Suspended, Resume;
    suspended_restore: Suspended, Restore;
    resumed_suspend: Resumed, Suspend;
    resumed_trampoline: Resumed, Trampoline;
    resumed_resume: Resumed, Resume;
    resumed_restore: Resumed, Restore;
    trampolined_suspend: Trampolined, Suspend;
    trampolined_trampoline: Trampolined, Trampoline;
    trampolined_resume: Trampolined, Resume;
    trampolined_restore: Trampolined, Restore;
}

/// A suspended stack gives back exactly what was suspended, once.
fn suspended(stack: &mut Stack, s: bool, c: bool, work: (u64, u8)) {
    let resumed = stack.resume::<u64>();
    assert!(resumed.is_ok(), "a suspended computation can resume");
    if let Ok((step, continuation)) = resumed {
        let (given_step, given_continuation) = functions(s, c);
        assert!(step as usize == given_step as usize, "resuming returns the step suspended");
        assert!(continuation as usize == given_continuation as usize, "resuming returns the continuation suspended");
        let restored = stack.restore::<Work>();
        assert!(restored.is_ok(), "a resumed computation can be restored");
        if let Ok(future) = restored {
            assert!(future.0 == work.0 && future.1 == work.1, "a restored computation is the one suspended");
        }
    }
}

/// A trampolined stack calls exactly the continuation given, once, with exactly
/// the value given.
fn trampolined(stack: &mut Stack, c: bool, value: Message) {
    let resumed = stack.resume::<Message>();
    assert!(resumed.is_ok(), "a trampolined computation can resume");
    if let Ok((step, continuation)) = resumed {
        unsafe { CONTINUED = [0; 2] };
        step(stack, continuation);
        unsafe {
            assert!(CONTINUED[c as usize] == 1 && CONTINUED[!c as usize] == 0, "a trampoline calls its continuation once");
            assert!(DELIVERED == value, "a trampoline delivers its value");
        }
    }
}

/// A finished round leads back to the running phase, so the transitions above
/// cover every history.
fn round(stack: &mut Stack, trampoline: bool, next: Operation) {
    let (s, step, c, continuation) = pick();
    let work: (u64, u8) = kani::any();
    let value = message();
    if trampoline {
        assert!(stack.trampoline(receiver(c), value).is_ok());
        trampolined(stack, c, value);
    } else {
        assert!(stack.suspend(step, continuation, Work(work.0, work.1)).is_ok());
        suspended(stack, s, c, work);
    }
    match next {
        Operation::Suspend => {
            assert!(stack.suspend(step, continuation, Work(work.0, work.1)).is_ok(), "a running computation can suspend");
            suspended(stack, s, c, work);
        }
        Operation::Trampoline => {
            assert!(stack.trampoline(receiver(c), value).is_ok(), "a running computation can trampoline");
            trampolined(stack, c, value);
        }
        Operation::Resume => assert!(stack.resume::<u64>().is_err(), "a running computation cannot resume"),
        Operation::Restore => assert!(stack.restore::<Work>().is_err(), "a running computation cannot be restored"),
    }
    kani::cover!(true);
}

macro_rules! rounds {
    ($($name:ident: $trampoline:literal, $next:ident;)*) => {
        $(
            #[kani::proof]
            #[kani::unwind(5)]
            #[kani::stub(core::result::unwrap_failed, unwrap_failed)]
            fn $name() {
                let waker = waker();
                let mut context = Context::from_waker(&waker);
                let mut stack = Stack::new(128);
                stack.run_with_context(&mut context, |stack| {
                    round(stack, $trampoline, Operation::$next)
                });
                forget(stack);
            }
        )*
    };
}

rounds! {
    round_suspend_suspend: false, Suspend;
    round_suspend_trampoline: false, Trampoline;
    round_suspend_resume: false, Resume;
    round_suspend_restore: false, Restore;
    round_trampoline_suspend: true, Suspend;
    round_trampoline_trampoline: true, Trampoline;
    round_trampoline_resume: true, Resume;
    round_trampoline_restore: true, Restore;
}

#[kani::proof]
#[kani::unwind(6)]
fn trampoline_wakes_its_executor() {
    let waker = waker();
    let mut context = Context::from_waker(&waker);
    let mut stack = Stack::new(64);
    let value = message();
    stack.run_with_context(&mut context, |stack| {
        assert!(stack.trampoline(receive_0, value).is_ok());
    });
    assert!(unsafe { WAKES } >= 1, "a trampoline asks its executor to run it again");
    kani::cover!(true);
    forget(stack);
}

#[kani::proof]
#[kani::unwind(6)]
fn trampoline_without_executor_is_refused() {
    let mut stack = Stack::new(64);
    assert!(stack.trampoline(receive_0, message()).is_err(), "a trampoline needs an executor");
    kani::cover!(true);
    forget(stack);
}

#[kani::proof]
fn context_exists_only_while_running() {
    let waker = waker();
    let mut context = Context::from_waker(&waker);
    let mut stack = Stack::new(8);
    assert!(stack.context().is_none());
    let value: u64 = kani::any();
    let address = &mut context as *mut Context<'_> as usize;
    let result = stack.run_with_context(&mut context, |stack| {
        let context = stack.context();
        assert!(context.is_some(), "a running computation sees its executor");
        assert!(context.unwrap() as *mut Context<'_> as usize == address, "and exactly that one");
        value
    });
    assert!(result == value);
    assert!(stack.context().is_none(), "no executor is kept after a run");
    kani::cover!(true);
    forget(stack);
}

#[kani::proof]
fn resolved_value_is_taken_once() {
    let mut stack = Stack::new(8);
    assert!(stack.resolved_value().is_none());
    let value: u64 = kani::any();
    stack.resolve(value);
    assert!(stack.resolved_value() == Some(value), "a resolved value is delivered");
    assert!(stack.resolved_value().is_none(), "and only once");
    kani::cover!(true);
    forget(stack);
}
