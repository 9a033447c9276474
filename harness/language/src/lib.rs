//! Contracts of the language front end: parser, formatter, documentation.
#![cfg(any(kani, test))]
#![allow(dead_code)]

mod documents;
mod generate;
mod operators;
mod places;
mod print;
mod programs;
mod random;
