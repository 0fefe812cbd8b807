//! C27: results are reproducible across runs and build configurations.

use crate::battery;
use crate::run::{C, Prop, inconclusive, sut, viol};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub const PROP: Prop = Prop {
    id: "C27",
    quick: 120,
    thorough: 6000,
    rule: "a tour of the whole API on a generated grammar, text and expression, logged line by line (rules, histories, sets, tables, distances, mappings, errors, generated strings), together with everything another property's monitor observes in one of its cases; run in this process, in another process of the same build, and in a process of the optimized build without overflow checks, debug assertions and optional features, with a logger that reads every message. The logs must be equal. Distinct by log",
    assumptions: &["the data a HashMap holds is compared, not its order", "lengths stay within 32 bits and random sources do not run dry"],
    run,
};

const BLOCK: u64 = 100;

fn full() -> bool {
    std::env::var_os("MON_FULL").is_some()
}

/// A logger that reads everything it is given.
struct Reader;

impl log::Log for Reader {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, record: &log::Record) {
        std::hint::black_box(format!("{}", record.args()));
    }
    fn flush(&self) {}
}

/// `mon digest`: logs of a range of indices, or their hashes.
pub fn digest_main(from: u64, n: u64) {
    crate::run::install_hook();
    if std::env::var_os("MON_LOG").is_some() && log::set_logger(&Reader).is_ok() {
        log::set_max_level(log::LevelFilter::Trace);
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        for i in from..from + n {
            let log = battery::entry(seed, i);
            println!("\n@D {i} {:x} {}", log.hash(), log.lines.len());
            if full() {
                for l in &log.lines {
                    println!("@L {l:?}");
                }
            }
        }
        println!("\n@END");
    });
    let _ = t.unwrap().join();
}

fn rel() -> PathBuf {
    let exe = std::env::current_exe().expect("exe");
    exe.parent().unwrap().parent().unwrap().join("rel/mon")
}

/// How a child process ended.
#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Done,
    /// Killed by itself: a stack overflow or an abort.
    Died,
    /// Stopped by us. On a busy machine this says nothing.
    Late,
}

fn child(c: &C, exe: PathBuf, from: u64, n: u64, full: bool, env: &[(&str, &str)], limit: u64) -> (Vec<String>, End) {
    let mut cmd = Command::new(exe);
    cmd.args(["digest", "--case", &from.to_string(), "--cases", &n.to_string()]);
    cmd.env("VERIF_SEED", c.seed.to_string()).stdin(Stdio::null()).stderr(Stdio::null()).stdout(Stdio::piped());
    cmd.env_remove("MON_FULL").env_remove("MON_LOG");
    if full {
        cmd.env("MON_FULL", "1");
    }
    for (k, v) in env {
        cmd.env(k, v);
    }
    let mut ch = cmd.spawn().expect("the harness of the other configuration is built by check.sh");
    let mut out = ch.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = std::io::Read::read_to_end(&mut out, &mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let start = Instant::now();
    let mut end = End::Died;
    loop {
        match ch.try_wait() {
            Ok(None) if start.elapsed() < Duration::from_secs(limit) => std::thread::sleep(Duration::from_millis(2)),
            Ok(None) => {
                let _ = ch.kill();
                let _ = ch.wait();
                end = End::Late;
                break;
            }
            _ => break,
        }
    }
    let text = reader.join().unwrap_or_default();
    if text.contains("\n@END") {
        end = End::Done;
    }
    (text.lines().filter(|l| l.starts_with("@D ") || l.starts_with("@L ")).map(String::from).collect(), end)
}

fn hashes(lines: &[String]) -> BTreeMap<u64, String> {
    lines
        .iter()
        .filter_map(|l| {
            let mut w = l.strip_prefix("@D ")?.split(' ');
            Some((w.next()?.parse().ok()?, w.next()?.to_string()))
        })
        .collect()
}

fn difference(a: &[String], b: &[String]) -> String {
    let lines = |v: &[String]| -> Vec<String> { v.iter().filter(|l| l.starts_with("@L")).cloned().collect() };
    let (a, b) = (lines(a), lines(b));
    let k = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let show = |v: &[String]| v.get(k).cloned().unwrap_or("(nothing)".into());
    let near = a[..k.min(a.len())].iter().rev().take(3).rev().cloned().collect::<Vec<_>>().join("\n");
    format!("line {k}:\n{near}\n  one: {}\n  other: {}", show(&a), show(&b))
}

fn run(c: &mut C) {
    let n = if c.quick() { BLOCK } else { BLOCK * 2 };
    let from = c.idx * n;
    c.size = c.idx as usize;
    let exe = std::env::current_exe().expect("exe");
    let (one, _) = child(c, exe.clone(), from, n, false, &[("LANG", "C"), ("TZ", "UTC")], 200);
    let (two, _) = child(c, rel(), from, n, false, &[("LANG", "tr_TR.UTF-8"), ("TZ", "Asia/Kathmandu"), ("MON_LOG", "1")], 200);
    let (one, two) = (hashes(&one), hashes(&two));
    for i in from..from + n {
        let (a, b) = (one.get(&i), two.get(&i));
        if let (Some(x), Some(y)) = (a, b)
            && x != y
        {
            let (x, _) = child(c, exe.clone(), i, 1, true, &[], 200);
            let (y, _) = child(c, rel(), i, 1, true, &[("MON_LOG", "1")], 200);
            viol(format!("input {i}: the debug build with all features and the release build without differ at {}", difference(&x, &y)));
        }
        if a.is_none() != b.is_none() {
            // Only the input itself, on its own, can tell a crash or a hang from a busy machine.
            let (_, x) = child(c, exe.clone(), i, 1, false, &[], 100);
            let (_, y) = child(c, rel(), i, 1, false, &[], 100);
            if x != y && (x == End::Died || y == End::Died) {
                viol(format!("input {i} ends the process in one configuration but not in the other: {x:?} (debug) and {y:?} (release)"));
            }
            if x != y {
                let (_, z) = child(c, if x == End::Done { rel() } else { exe.clone() }, i, 1, false, &[], 200);
                if z == End::Late {
                    viol(format!("input {i} never ends in one configuration but does in the other: {x:?} (debug) and {y:?} (release)"));
                }
            }
            c.count("blocks cut short by a busy machine", 1);
            inconclusive();
        }
        let Some(a) = a else { inconclusive() };
        let mine = sut("tour of the API", || battery::entry(c.seed, i));
        if format!("{:x}", mine.hash()) != *a {
            let (x, _) = child(c, exe.clone(), i, 1, true, &[], 200);
            let y: Vec<String> = mine.lines.iter().map(|l| format!("@L {l:?}")).collect();
            viol(format!("input {i}: two runs of the same build differ at {}", difference(&x, &y)));
        }
        let again = if i % 8 == 0 { sut("tour of the API", || battery::entry(c.seed, i)).hash() } else { mine.hash() };
        if again != mine.hash() {
            viol(format!("input {i}: doing it again in the same process gives another log"));
        }
        c.count("logs compared", 3);
        c.count("lines compared", 3 * mine.lines.len() as u64);
        c.max("number of lines in a log", mine.lines.len() as u64);
        c.nontrivial(mine.hash());
        c.sample(|| mine.lines.iter().take(3).chain(mine.lines.iter().rev().take(2)).cloned().collect::<Vec<_>>().join(" / "));
    }
}
