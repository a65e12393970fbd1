#![allow(clippy::all)]
mod churn;
mod clear;
mod conc;
mod crash;
mod fault;
mod files;
mod iterate;
mod lin;
mod misc;
mod merge;
mod model;
mod owner;
mod power;
mod run;
mod san;
mod seq;
mod sizes;
mod stats;
mod sys;
mod tables;
mod util;
mod walk;

fn lookup(c: &str) -> Option<run::CaseFn> {
    Some(match c {
        "C01" => seq::c01,
        "C02" => seq::c02,
        "C03" => conc::c03,
        "C04" => crash::c04,
        "C05" => seq::c05,
        "C06" => seq::c06,
        "C07" => conc::c07,
        "C08" => crash::c08,
        "C10" => iterate::c10,
        "C11" => merge::c11,
        "C12" => stats::c12,
        "C13" => sizes::c13,
        "C14" => seq::c14,
        "C15" => fault::c15,
        "C16" => owner::c16,
        "C17" => conc::c17,
        "C18" => san::c18,
        "C19" => fault::c19,
        "C20" => clear::c20,
        "C21" => files::c21,
        "C23" => churn::c23,
        "C24" => power::c24,
        "C25" => walk::c25,
        _ => return None,
    })
}

fn main() {
    let mut a = std::env::args().skip(1);
    if let Some(role) = a.next().as_deref().and_then(|c| c.strip_prefix("child-").map(|s| s.to_string())) {
        let rest: Vec<String> = a.collect();
        std::process::exit(misc::child(&role, &rest));
    }
    run::run_main(lookup)
}
