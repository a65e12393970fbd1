#![allow(clippy::all, dead_code)]
//! The typed API is generic: its checks are a separate binary because instantiating it for many types compiles slowly.
mod conc;
mod lin;
mod model;
mod ns;
mod run;
mod seq;
mod sys;
mod tables;
mod typedc;
mod util;

fn main() {
    run::run_main(|c| match c {
        "C09" => Some(ns::c09 as run::CaseFn),
        "C22" => Some(typedc::c22),
        _ => None,
    })
}
