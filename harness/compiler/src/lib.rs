//! The compiler's middle: what sources mean, after each stage up to the one that
//! generates machine code, and what packages written in Pen do.

#![allow(dead_code)]

pub mod dump;
pub mod foreign;
pub mod machine;
pub mod source;

#[cfg(test)]
mod collections;
#[cfg(test)]
mod libraries;
#[cfg(test)]
mod meaning;
#[cfg(test)]
mod packages;
#[cfg(test)]
mod program;
#[cfg(test)]
mod random;
#[cfg(test)]
mod refusal;
#[cfg(test)]
mod stack {
    /// Runs on a stack which the machine does not exhaust.
    pub fn large(run: impl FnOnce() + Send + 'static) {
        let result = std::thread::Builder::new().stack_size(8 << 30).spawn(run).unwrap().join();
        if let Err(panic) = result {
            std::panic::resume_unwind(panic);
        }
    }
}
