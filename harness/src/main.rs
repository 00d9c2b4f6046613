mod checks;
mod mocks;
mod par;
mod refm;
mod report;
mod space;
mod spec;

use checks::*;
use report::*;

fn main() {
    par::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(String::as_str) == Some("--print-run") {
        conf::print_run(&args[1]);
        return;
    }
    if args.first().map(String::as_str) == Some("--print-legacy-run") {
        conf::print_legacy_run(&args[1]);
        return;
    }
    if args.first().map(String::as_str) == Some("--fault-worker") {
        faults::worker();
        return;
    }
    if args.first().map(String::as_str) == Some("--sched-worker") {
        sched::worker();
        return;
    }
    if args.first().map(String::as_str) == Some("--fault-sizes") {
        faults::sizes();
        return;
    }
    let id = args.first().cloned().unwrap_or_default();
    let filter = args.iter().position(|a| a == "--case").and_then(|i| args.get(i + 1)).cloned();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let rep = Report::new(&id, tier, seed, filter);
    let table: &[(&str, fn(&Report), &Meta)] = &[
        ("C01", trace::c01, &trace::C01),
        ("C02", trace::c02, &trace::C02),
        ("C03", trace::c03, &trace::C03),
        ("C04", proto::c04, &proto::C04),
        ("C05", trace::c05, &trace::C05),
        ("C06", trace::c06, &trace::C06),
        ("C07", trace::c07, &trace::C07),
        ("C08", trace::c08, &trace::C08),
        ("C09", parts::c09, &parts::C09),
        ("C10", parts::c10, &parts::C10),
        ("C11", parts::c11, &parts::C11),
        ("C12", conf::c12, &conf::C12),
        ("C13", rel::c13, &rel::C13),
        ("C16", rel::c16, &rel::C16),
        ("C19", rel::c19, &rel::C19),
        ("C14", sched::c14, &sched::C14),
        ("C15", faults::c15, &faults::C15),
        ("C21", conf::c21, &conf::C21),
        ("C22", conf::c22, &conf::C22),
        ("C23", told::c23, &told::C23),
        ("C17", parts::c17, &parts::C17),
        ("C18", parts::c18, &parts::C18),
        ("C20", trace::c20, &trace::C20),
    ];
    let Some((_, f, meta)) = table.iter().find(|t| t.0 == id) else {
        eprintln!("unknown check {id}");
        std::process::exit(2);
    };
    f(&rep);
    std::process::exit(rep.finish(meta));
}
