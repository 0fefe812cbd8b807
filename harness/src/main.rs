mod alloc;
mod battery;
mod bnf;
mod gcfg;
mod p;
mod refg;
mod rng;
mod run;
mod rx;
mod source;

use run::{Opts, Prop, Tier};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn usage() -> ! {
    eprintln!("usage: mon <property> <quick|thorough> [--case N] [--cases N] [--secs N]");
    std::process::exit(2)
}

struct Args {
    worker: bool,
    id: String,
    tier: Tier,
    only: Option<u64>,
    cases: Option<u64>,
    secs: Option<u64>,
}

fn args() -> Args {
    let mut it = std::env::args().skip(1);
    let mut a = Args { worker: false, id: String::new(), tier: Tier::Quick, only: None, cases: None, secs: None };
    let mut pos = 0;
    while let Some(s) = it.next() {
        let num = |it: &mut dyn Iterator<Item = String>| it.next().and_then(|v| v.parse().ok()).unwrap_or_else(|| usage());
        match s.as_str() {
            "--worker" => a.worker = true,
            "--case" => a.only = Some(num(&mut it)),
            "--cases" => a.cases = Some(num(&mut it)),
            "--secs" => a.secs = Some(num(&mut it)),
            _ if pos == 0 => {
                a.id = s;
                pos = 1;
            }
            "quick" => a.tier = Tier::Quick,
            "thorough" => a.tier = Tier::Thorough,
            _ => usage(),
        }
    }
    if a.id.is_empty() {
        usage()
    }
    a
}

fn main() {
    let a = args();
    if a.id == "list" {
        for p in p::PROPS {
            println!("{} quick {} thorough {}", p.id, p.quick, p.thorough);
        }
        return;
    }
    if a.id == "digest" {
        p::c27::digest_main(a.only.unwrap_or(0), a.cases.unwrap_or(1));
        return;
    }
    if a.id == "small" {
        p::c28::small_main(a.only.unwrap_or(0), a.cases.unwrap_or(1));
        return;
    }
    let Some(prop) = p::PROPS.iter().find(|p| p.id == a.id) else { usage() };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let verif: PathBuf = std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or("/verif".into());
    let work = verif.join("work");
    let _ = std::fs::create_dir_all(&work);
    let tag = format!("{}-{}", prop.id, std::env::var("MON_TAG").unwrap_or_else(|_| std::process::id().to_string()));
    let verdict = work.join(format!("{tag}.verdict"));
    let state = work.join(format!("{tag}.state"));
    if a.worker {
        let o = Opts { tier: a.tier, seed, verif, only: a.only, cases: a.cases, secs: a.secs };
        std::process::exit(run::worker(prop, o, &verdict, &state));
    }
    let code = parent(prop, &a, seed, &verif, &tag, &verdict, &state);
    let _ = std::fs::remove_file(&verdict);
    let _ = std::fs::remove_file(&state);
    std::process::exit(code);
}

fn spawn(prop: &Prop, a: &Args, tag: &str, only: Option<u64>) -> std::io::Result<std::process::ExitStatus> {
    let mut cmd = Command::new(std::env::current_exe()?);
    cmd.arg("--worker").arg(prop.id).arg(if a.tier == Tier::Quick { "quick" } else { "thorough" });
    for (f, v) in [("--case", only), ("--cases", a.cases), ("--secs", a.secs)] {
        if let Some(v) = v {
            cmd.arg(f).arg(v.to_string());
        }
    }
    cmd.env("MON_TAG", tag.strip_prefix(&format!("{}-", prop.id)).unwrap_or(tag));
    cmd.stdin(Stdio::null());
    cmd.stdout(Stdio::null());
    if std::env::var_os("MON_STDERR").is_none() {
        cmd.stderr(Stdio::null());
    }
    cmd.status()
}

fn parent(prop: &'static Prop, a: &Args, seed: u64, verif: &Path, tag: &str, verdict: &Path, state: &Path) -> i32 {
    let status = match spawn(prop, a, tag, a.only) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot start the worker: {e}");
            return 2;
        }
    };
    if let Some(signal) = status.signal() {
        // The code under test ended the process (stack overflow, abort). Find the case.
        let raw = std::fs::read(state).unwrap_or_default();
        let mut cases: Vec<u64> = raw.chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).collect();
        cases.sort();
        cases.dedup();
        eprintln!("the worker died of signal {signal}; candidate cases {cases:?}");
        for c in cases {
            let Ok(st) = spawn(prop, a, &format!("{tag}-again"), Some(c)) else { continue };
            let _ = std::fs::remove_file(verdict.with_file_name(format!("{tag}-again.verdict")));
            let _ = std::fs::remove_file(verdict.with_file_name(format!("{tag}-again.state")));
            if let Some(s) = st.signal() {
                let dir = verif.join("evidence/replay");
                let _ = std::fs::create_dir_all(&dir);
                let path = dir.join(format!("{}-{c}.txt", prop.id));
                let tier = if a.tier == Tier::Quick { "quick" } else { "thorough" };
                let _ = std::fs::write(
                    &path,
                    format!(
                        "property {}\nseed {seed}\ncase {c}\nthe process is killed by signal {s} in this case\n\
                         replay: cd /verif && VERIF_SEED={seed} ./check.sh {} {tier} --case {c}\n",
                        prop.id, prop.id
                    ),
                );
                let o = Opts { tier: a.tier, seed, verif: verif.into(), only: None, cases: None, secs: None };
                run::evidence(&o, prop, 1, &run::Stats::default(), 0.0, 1, &[]);
                println!("killed by signal {s} in case {c}");
                println!("VIOLATION property={} replay={}", prop.id, path.display());
                return 1;
            }
        }
        eprintln!("no case reproduces it alone");
        return 2;
    }
    let text = std::fs::read_to_string(verdict).unwrap_or_default();
    let known = std::fs::read_to_string(verif.join("known-findings.txt")).unwrap_or_default();
    let mut code = None;
    let mut lines = text.lines();
    while let Some(l) = lines.next() {
        if let Some(rest) = l.strip_prefix("KNOWN ") {
            let (key, what) = rest.split_once('\t').unwrap_or((rest, ""));
            let want = format!("known: property={} key={key} ", prop.id);
            if known.lines().any(|k| k.starts_with(&want)) {
                println!("KNOWN-FINDING: property={} {what}", prop.id);
            } else {
                let dir = verif.join("evidence/replay");
                let _ = std::fs::create_dir_all(&dir);
                let path = dir.join(format!("{}-{key}.txt", prop.id));
                let _ = std::fs::write(&path, format!("{what}\n"));
                println!("{what}");
                println!("VIOLATION property={} replay={}", prop.id, path.display());
                code = Some(1);
            }
        } else if let Some(path) = l.strip_prefix("VIOLATION ") {
            for rest in lines.by_ref() {
                println!("  {rest}");
            }
            println!("VIOLATION property={} replay={path}", prop.id);
            code = Some(1);
        } else if let Some(e) = l.strip_prefix("ERROR ") {
            eprintln!("{}: error: {e}", prop.id);
            code = code.or(Some(2));
        } else if l.starts_with("OK ") {
            println!("{}: {l}", prop.id);
            code = code.or(Some(0));
        }
    }
    match code {
        Some(c) => c,
        None => {
            eprintln!("{}: the worker gave no verdict (status {status:?})", prop.id);
            2
        }
    }
}
