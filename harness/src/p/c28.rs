//! C28: no undefined behaviour, and all memory is given back.

use crate::p::PROPS;
use crate::run::{C, Prop, observe, viol};
use crate::{alloc, battery};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub const PROP: Prop = Prop {
    id: "C28",
    quick: 6000,
    thorough: 120_000,
    rule: "the counting allocator's balance of one thread before and after a tour of the whole API (or another property's case), four times over, must be even once caches are filled; tours interpreted by Miri, and run in an AddressSanitizer build, must raise no report. Distinct by what the tour allocated and logged",
    assumptions: &["memory kept by a first run only is a cache", "Miri interprets small inputs, AddressSanitizer runs the tours of C27"],
    run,
};

/// `mon small`: short tours, for Miri.
pub fn small_main(from: u64, n: u64) {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    crate::run::install_hook();
    for i in from..from + n {
        let log = battery::short(seed, i);
        println!("\n@D {i} {:x} {}", log.hash(), log.lines.len());
    }
    println!("\n@END");
}

struct Ran {
    out: String,
    err: String,
    ok: bool,
}

fn command(mut cmd: Command, limit: Duration) -> Option<Ran> {
    use std::io::Read;
    cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut ch = cmd.spawn().ok()?;
    let (mut o, mut e) = (ch.stdout.take()?, ch.stderr.take()?);
    let read = |mut f: Box<dyn Read + Send>| {
        std::thread::spawn(move || {
            let mut v = vec![];
            let _ = f.read_to_end(&mut v);
            String::from_utf8_lossy(&v).into_owned()
        })
    };
    let _ = (&mut o, &mut e);
    let (o, e) = (read(Box::new(o)), read(Box::new(e)));
    let start = Instant::now();
    let ok = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break s.success(),
            Ok(None) if start.elapsed() < limit => std::thread::sleep(Duration::from_millis(10)),
            _ => {
                let _ = ch.kill();
                let _ = ch.wait();
                break false;
            }
        }
    };
    Some(Ran { out: o.join().ok()?, err: e.join().ok()?, ok })
}

fn target() -> PathBuf {
    let exe = std::env::current_exe().expect("exe");
    exe.parent().unwrap().parent().unwrap().into()
}

fn report(c: &mut C, tool: &str, from: u64, n: u64, ran: &Ran, signs: &[&str]) {
    if let Some(at) = signs.iter().filter_map(|s| ran.err.find(s)).min() {
        let text: String = ran.err[at..].chars().take(3000).collect();
        viol(format!("{tool}, inputs {from} to {}: {text}", from + n - 1));
    }
    let _ = c;
}

fn miri(c: &mut C, from: u64, n: u64) {
    let t = target();
    if !t.join("miri/built").exists() {
        c.count("Miri is not available", 1);
        return;
    }
    let mut cmd = Command::new("cargo");
    cmd.current_dir(t.parent().unwrap().join("harness"));
    cmd.args(["miri", "run", "--offline", "--", "small", "--case", &from.to_string(), "--cases", &n.to_string()]);
    cmd.env("RUSTUP_TOOLCHAIN", "nightly").env("MIRIFLAGS", "-Zmiri-disable-isolation").env("CARGO_TARGET_DIR", t.join("miri"));
    cmd.env("CARGO_NET_OFFLINE", "true").env("VERIF_SEED", c.seed.to_string());
    let Some(ran) = command(cmd, Duration::from_secs(if c.quick() { 300 } else { 900 })) else {
        c.count("Miri is not available", 1);
        return;
    };
    report(c, "Miri", from, n, &ran, &["error: Undefined Behavior", "error: memory leaked", "error: abnormal termination"]);
    let lines: u64 = ran.out.lines().filter_map(|l| l.strip_prefix("@D ")?.split(' ').nth(2)?.parse::<u64>().ok()).sum();
    c.count("lines logged under Miri", lines);
    c.count(if ran.ok { "runs under Miri" } else { "runs under Miri not finished" }, 1);
    c.nontrivial(("miri", from, lines));
}

fn asan(c: &mut C, from: u64, n: u64) {
    let exe = target().join("asan/x86_64-unknown-linux-gnu/debug/mon");
    if !target().join("asan/built").exists() {
        c.count("AddressSanitizer is not available", 1);
        return;
    }
    let mut cmd = Command::new(exe);
    cmd.args(["digest", "--case", &from.to_string(), "--cases", &n.to_string()]);
    cmd.env("VERIF_SEED", c.seed.to_string()).env("ASAN_OPTIONS", "detect_leaks=0:detect_stack_use_after_return=1");
    let Some(ran) = command(cmd, Duration::from_secs(400)) else {
        c.count("AddressSanitizer is not available", 1);
        return;
    };
    report(c, "AddressSanitizer", from, n, &ran, &["ERROR: AddressSanitizer"]);
    let done = ran.out.lines().filter(|l| l.starts_with("@D ")).count() as u64;
    c.count("tours under AddressSanitizer", done);
    c.count(if ran.ok { "runs under AddressSanitizer" } else { "runs under AddressSanitizer not finished" }, 1);
    c.nontrivial(("asan", from, done));
}

fn balance(c: &mut C) {
    let seed = c.seed;
    let idx = c.idx;
    let others: Vec<&'static Prop> = PROPS.iter().filter(|p| !["C27", "C28"].contains(&p.id)).collect();
    let which = others[idx as usize / 2 % others.len()];
    let tour = idx % 2 == 0;
    // Now and then one of the large inputs.
    let nth = idx / 2 / others.len() as u64;
    let case = if nth % 8 == 7 { nth / 8 * 512 + 9 } else { nth };
    let one = || {
        if tour {
            battery::tour(seed, idx / 2).hash()
        } else {
            observe(which, seed, case).iter().map(|l| l.len() as u64).sum()
        }
    };
    c.note(|| if tour { format!("tour {}", idx / 2) } else { format!("case {case} of {}", which.id) });
    let mut kept = vec![];
    let mut seen = 0;
    let mut bytes = 0;
    for _ in 0..4 {
        let before = alloc::live();
        let total = alloc::total();
        seen = crate::run::sut("tour of the API", one);
        let after = alloc::live();
        bytes = alloc::total() - total;
        kept.push((after.0 - before.0, after.1 - before.1));
        if kept.len() >= 2 && kept[kept.len() - 1].0 <= 0 {
            break;
        }
    }
    if kept.len() == 4 {
        viol(format!(
            "{} keeps memory every time: (bytes, blocks) kept by four runs in a row: {kept:?}",
            if tour { format!("tour {} of the API", idx / 2) } else { format!("case {case} of {}", which.id) }
        ));
    }
    c.count("runs balanced", kept.len() as u64);
    c.count("bytes allocated in the last runs", bytes);
    c.nontrivial((idx, seen, bytes));
    c.sample(|| format!("{} allocated {bytes} bytes, kept {kept:?}", if tour { "a tour".into() } else { format!("a case of {}", which.id) }));
}

fn run(c: &mut C) {
    let (m, k) = if c.quick() { (4, 4) } else { (24, 10) };
    let a = if c.quick() { 4 } else { 24 };
    let n = if c.quick() { 100 } else { 500 };
    c.size = c.idx as usize;
    if c.idx < m {
        miri(c, c.idx * k, k);
    } else if c.idx < m + a {
        asan(c, (c.idx - m) * n, n);
    } else {
        balance(c);
    }
}
