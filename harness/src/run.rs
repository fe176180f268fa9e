//! The command line of both harnesses.
use crate::{ctx, p, sched};
use ctx::{Ctx, Tier};

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str| {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1))
            .cloned()
    };
    let id = args.get(1).cloned().unwrap_or_default();
    let Some(run) = p::find(&id) else {
        eprintln!("no such property: {id}");
        std::process::exit(2);
    };
    let tier = match opt("--tier").as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let current = opt("--replay-dir").map(|d| format!("{d}/{id}.current"));
    if std::env::var_os("VP_CHILD").is_none() {
        supervise(&args, &id, tier, current.as_deref(), opt("--replay-dir").as_deref());
    }
    if let Some(f) = &current {
        ctx::CURRENT.to_file(f);
    }
    // Panics are caught and reported by the checks: keep the log readable.
    if std::env::var_os("VP_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    // A run that exceeds its wall-clock cap is an error of the check, not a verdict.
    let cap = match tier {
        Tier::Quick => 700,
        Tier::Thorough => 4 * 3600,
    };
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(cap));
        eprintln!("the run exceeded its cap of {cap} s");
        std::process::exit(4);
    });
    // A case that does not end is a violation: each takes milliseconds (a whole scenario of
    // schedules: seconds).
    if tier == Tier::Quick || id == "C26" {
        let (id, dir) = (id.clone(), opt("--replay-dir"));
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            if let Some(label) = ctx::CURRENT.stuck(200) {
                report(&id, tier, dir.as_deref(), &label, "the call does not return within 200 s");
                std::process::exit(1);
            }
        });
    }
    let mut ctx = Ctx::new(&id, tier, seed, opt("--only"));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&mut ctx)));
    if let Err(e) = r {
        eprintln!("the harness itself failed: {}", ctx::panic_text(e));
        std::process::exit(3);
    }
    if ctx.violations.iter().any(|v| v.detail.contains(sched::ENGINE)) {
        for v in &ctx.violations {
            eprintln!("{}: {}", v.label, v.detail);
        }
        std::process::exit(3);
    }
    let evidence = ctx.evidence();
    if let Some(f) = opt("--evidence") {
        std::fs::write(&f, serde_json::to_string_pretty(&evidence).unwrap()).unwrap();
    }
    let known: Vec<(String, String)> = opt("--known")
        .and_then(|f| std::fs::read_to_string(f).ok())
        .map(|t| {
            t.lines()
                .filter_map(|l| l.strip_prefix(&format!("known: property={id} case=")))
                .filter_map(|l| l.split_once(" :: "))
                .map(|(a, b)| (a.to_string(), b.to_string()))
                .collect()
        })
        .unwrap_or_default();
    let mut bad = 0;
    let dir = opt("--replay-dir");
    for (n, v) in ctx.violations.iter().enumerate() {
        if let Some((case, text)) = known.iter().find(|(case, _)| *case == v.label) {
            println!("KNOWN-FINDING: property={id} {case}: {text}");
            continue;
        }
        bad += 1;
        let path = dir
            .as_ref()
            .map(|d| format!("{d}/{id}-{n}.txt"))
            .unwrap_or_else(|| "-".into());
        if path != "-" {
            let text = format!(
                "property: {id}\ntier: {tier:?}\ncase: {}\nwhat is wrong: {}\nreplay: bash /verif/check.sh {id} {} --only '{}'\n",
                v.label,
                v.detail,
                if ctx.quick() { "quick" } else { "thorough" },
                v.label.replace('\'', "'\\''"),
            );
            let _ = std::fs::write(&path, text);
        }
        if bad <= 5 {
            let mut l = v.label.clone();
            if l.chars().count() > 400 {
                l = l.chars().take(400).collect();
            }
            let d: String = v.detail.chars().take(800).collect();
            println!("  case {l}\n    {d}");
            println!("VIOLATION property={id} replay={path}");
        }
    }
    println!(
        "{id}: {} evaluations, {} distinct non-trivial, {} outcome classes, states={:?} transitions={:?} traces={:?}, {} violations, {:.1} s",
        ctx.evaluations,
        ctx.nontrivial,
        ctx.classes.len(),
        ctx.states,
        ctx.transitions,
        ctx.traces,
        ctx.violation_count,
        ctx.start.elapsed().as_secs_f64()
    );
    if std::env::var_os("VP_CLASSES").is_some() {
        for (c, n) in &ctx.classes {
            println!("    {n:>9}  {c}");
        }
    }
    // Violations beyond the ones kept cannot be compared with the known findings.
    if bad > 0 || ctx.violation_count as usize > ctx.violations.len() {
        std::process::exit(1);
    }
    if ctx.evaluations == 0 {
        eprintln!("nothing was evaluated");
        std::process::exit(3);
    }
}

/// Write a replay file and print the violation of a case that cannot be finished.
fn report(id: &str, tier: Tier, dir: Option<&str>, label: &str, what: &str) {
    let path = dir.map(|d| format!("{d}/{id}-0.txt")).unwrap_or_else(|| "-".into());
    let tier = if tier == Tier::Quick { "quick" } else { "thorough" };
    let text = format!(
        "property: {id}\ntier: {tier}\ncase: {label}\nwhat is wrong: {what}\nreplay: bash /verif/check.sh {id} {tier} --only '{}'\n",
        label.replace('\'', "'\\''"),
    );
    let _ = std::fs::write(&path, text);
    let label: String = label.chars().take(400).collect();
    println!("  case {label}\n    {what}");
    println!("VIOLATION property={id} replay={path}");
}

/// Run the check in a child process, so that a crash of the code under test (a stack overflow,
/// an abort) is a verdict and not an accident.
fn supervise(args: &[String], id: &str, tier: Tier, current: Option<&str>, dir: Option<&str>) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let child = |more: &[&str]| {
        let status = std::process::Command::new(std::env::current_exe().unwrap())
            .args(&args[1..])
            .args(more)
            .env("VP_CHILD", "1")
            .status();
        match status {
            Ok(s) => s,
            Err(e) => {
                eprintln!("the check does not start: {e}");
                std::process::exit(3);
            }
        }
    };
    let status = child(&[]);
    let labels = current.map(ctx::Current::read).unwrap_or_default();
    match (status.code(), status.signal()) {
        (Some(c), _) => std::process::exit(c),
        // SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV
        (None, Some(s @ (4 | 6 | 7 | 8 | 11))) => {
            // Of the cases that were being evaluated: the one that does it alone.
            let alone = match labels.len() {
                0 | 1 => labels.first(),
                _ => labels.iter().find(|l| child(&["--only", l]).signal().is_some()),
            };
            if let Some(f) = current {
                ctx::Current::read(f);
            }
            let label = alone.cloned().unwrap_or_else(|| labels.join(" / "));
            report(id, tier, dir, &label, &format!("the process is ended by signal {s}"));
            std::process::exit(1);
        }
        (None, s) => {
            eprintln!("the check was ended by signal {s:?}");
            std::process::exit(3);
        }
    }
}
