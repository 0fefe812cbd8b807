//! Runner and supervisor. See DESIGN.md.

use crate::alloc;
use crate::rng::{Rng, hash_bytes, mix};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind, panic_any, resume_unwind};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A refuted property.
pub struct Viol(pub String);
/// An execution that says nothing (a workload budget ran out before the end).
pub struct Inconclusive;

pub fn viol(msg: impl Into<String>) -> ! {
    panic_any(Viol(msg.into()))
}

pub fn inconclusive() -> ! {
    panic_any(Inconclusive)
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond { $crate::run::viol(format!($($arg)*)) }
    };
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static SLOT: std::cell::Cell<Option<&'static Slot>> = const { std::cell::Cell::new(None) };
    static LABEL: std::cell::Cell<&'static str> = const { std::cell::Cell::new("") };
    static OBSERVING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// What the supervisor sees of a worker.
pub struct Slot {
    /// Odd while a call into the code under test is in progress.
    seq: AtomicU64,
    case: AtomicU64,
    label: Mutex<&'static str>,
    mem: AtomicBool,
    done: AtomicBool,
    clock: AtomicU64,
}

const SUT_CPU_LIMIT: Duration = Duration::from_secs(60);
const JUDGE_CPU_LIMIT: Duration = Duration::from_secs(240);
const SUT_HEAP_LIMIT: i64 = 2 << 30;

fn payload_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

fn guarded<R>(label: &'static str, f: impl FnOnce() -> R) -> Result<R, Box<dyn Any + Send>> {
    let slot = SLOT.get();
    LABEL.set(label);
    let old = alloc::arm(SUT_HEAP_LIMIT);
    let mut nested = false;
    if let Some(slot) = slot {
        nested = slot.seq.fetch_or(1, Ordering::SeqCst) & 1 == 1;
        if let Ok(mut l) = slot.label.try_lock() {
            *l = label;
        }
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    if let (Some(slot), false) = (slot, nested) {
        slot.seq.fetch_add(1, Ordering::SeqCst);
    }
    alloc::restore(old);
    r
}

/// A call into the code under test. A panic of it is a violation.
pub fn sut<R>(label: &'static str, f: impl FnOnce() -> R) -> R {
    match guarded(label, f) {
        Ok(r) => r,
        Err(p) => {
            if p.is::<Viol>() || p.is::<Inconclusive>() {
                resume_unwind(p)
            }
            let loc = LAST_PANIC.with(|l| l.borrow().clone());
            viol(format!("`{label}` panicked: {} ({loc})", payload_text(&*p)))
        }
    }
}

/// A call into the code under test that may panic; `Err` holds the message.
pub fn sut_may_panic<R>(label: &'static str, f: impl FnOnce() -> R) -> Result<R, String> {
    match guarded(label, f) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<Viol>() || p.is::<Inconclusive>() {
                resume_unwind(p)
            }
            Err(payload_text(&*p))
        }
    }
}

#[derive(Default)]
pub struct Stats {
    pub counters: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<(u64, String)>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub known: Vec<(String, String)>,
}

/// One case: its random source and what was observed while it ran.
pub struct C {
    pub idx: u64,
    pub rng: Rng,
    pub tier: Tier,
    pub seed: u64,
    pub size: usize,
    pub verbose: bool,
    pub notes: Vec<String>,
    pub st: Stats,
}

impl C {
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.st.counters.entry(name).or_default() += n;
    }
    pub fn max(&mut self, name: &'static str, n: u64) {
        let e = self.st.maxima.entry(name).or_default();
        *e = (*e).max(n);
    }
    /// The case exercised what the property is about; `key` identifies the observation.
    pub fn nontrivial(&mut self, key: impl std::hash::Hash) {
        use std::hash::Hasher;
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new();
        key.hash(&mut h);
        if self.st.distinct.len() < 3_000_000 {
            self.st.distinct.insert(h.finish());
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.st.samples.len() < 3 {
            let mut s = f();
            if s.len() > 700 {
                let mut cut = 700;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push('…');
            }
            self.st.samples.push((self.idx, s));
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.notes.push(s);
        }
    }
    /// A listed defect of the code under test still shows.
    pub fn known(&mut self, key: &str, what: String) {
        self.st.known.push((key.into(), what));
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut C),
}


#[derive(Clone)]
struct Witness {
    idx: u64,
    size: usize,
    msg: String,
}

fn case(prop: &Prop, tier: Tier, seed: u64, idx: u64, verbose: bool, st: Stats) -> (C, Option<String>, bool) {
    let mut c = C {
        idx,
        rng: Rng::new(mix(seed) ^ hash_bytes(prop.id.as_bytes()) ^ mix(idx.wrapping_mul(0x1234_5677))),
        tier,
        seed,
        size: 0,
        verbose,
        notes: vec![],
        st,
    };
    let r = catch_unwind(AssertUnwindSafe(|| (prop.run)(&mut c)));
    match r {
        Ok(()) => (c, None, false),
        Err(p) => {
            if let Some(v) = p.downcast_ref::<Viol>() {
                let m = v.0.clone();
                (c, Some(m), false)
            } else if p.is::<Inconclusive>() {
                (c, None, true)
            } else {
                // The reference model met a value it cannot represent (it never does on
                // values that satisfy the property).
                let loc = LAST_PANIC.with(|l| l.borrow().clone());
                let m = format!(
                    "the judge cannot interpret what the code returned: {} ({loc})",
                    payload_text(&*p)
                );
                (c, Some(m), false)
            }
        }
    }
}

/// What one case of a property's workload observed.
/// Whether this case is run on behalf of another property, in any build: it must not look at others.
pub fn observing() -> bool {
    OBSERVING.get()
}

pub fn observe(prop: &Prop, seed: u64, idx: u64) -> Vec<String> {
    OBSERVING.set(true);
    let (c, r, inc) = case(prop, Tier::Quick, seed, idx, false, Stats::default());
    OBSERVING.set(false);
    let mut keys: Vec<u64> = c.st.distinct.iter().copied().collect();
    keys.sort();
    vec![
        format!("{} case {idx}: size {} refuted {} given up {inc}", prop.id, c.size, r.is_some()),
        format!("{} case {idx}: counted {:?} {:?}", prop.id, c.st.counters, c.st.maxima),
        format!("{} case {idx}: seen {keys:?} {:?}", prop.id, c.st.samples),
    ]
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Opts {
    pub tier: Tier,
    pub seed: u64,
    pub verif: PathBuf,
    pub only: Option<u64>,
    pub cases: Option<u64>,
    pub secs: Option<u64>,
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Viol>() || info.payload().is::<Inconclusive>() {
            return;
        }
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = loc);
    }));
}

fn write_replay(o: &Opts, prop: &Prop, idx: u64, msg: &str, notes: &[String]) -> String {
    let dir = o.verif.join("evidence/replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.txt", prop.id, idx));
    let mut s = String::new();
    let _ = writeln!(s, "property {}\nseed {}\ntier {:?}\ncase {}\n", prop.id, o.seed, o.tier, idx);
    let _ = writeln!(s, "{msg}\n");
    for n in notes {
        let _ = writeln!(s, "{n}");
    }
    let _ = writeln!(
        s,
        "\nreplay: cd /verif && VERIF_SEED={} ./check.sh {} {} --case {}",
        o.seed,
        prop.id,
        if o.tier == Tier::Quick { "quick" } else { "thorough" },
        idx
    );
    let _ = std::fs::write(&path, s);
    path.display().to_string()
}

fn thread_cpu(clock: u64) -> Option<Duration> {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    let r = unsafe { libc::clock_gettime(clock as libc::clockid_t, &mut ts) };
    (r == 0).then(|| Duration::new(ts.tv_sec as u64, ts.tv_nsec as u32))
}

pub fn evidence(
    o: &Opts,
    prop: &Prop,
    evaluations: u64,
    st: &Stats,
    wall: f64,
    violations: u64,
    extra: &[(String, String)],
) {
    let mut s = String::new();
    let tier = if o.tier == Tier::Quick { "quick" } else { "thorough" };
    let _ = write!(
        s,
        "{{\"property\":{},\"tier\":\"{tier}\",\"seed\":{},\"level\":\"exploration\",\"coverage\":{{",
        json_str(prop.id),
        o.seed
    );
    let _ = write!(
        s,
        "\"evaluations\":{evaluations},\"distinct_nontrivial\":{},\"rule\":{}",
        st.distinct.len(),
        json_str(prop.rule)
    );
    let samples: Vec<String> = st
        .samples
        .iter()
        .map(|(i, t)| json_str(&format!("case {i}: {t}")))
        .collect();
    let _ = write!(s, ",\"samples\":[{}],\"observed\":{{", samples.join(","));
    let mut first = true;
    for (k, v) in &st.counters {
        let _ = write!(s, "{}{}:{v}", if first { "" } else { "," }, json_str(k));
        first = false;
    }
    for (k, v) in &st.maxima {
        let _ = write!(s, "{}{}:{v}", if first { "" } else { "," }, json_str(&format!("largest {k}")));
        first = false;
    }
    s.push('}');
    for (k, v) in extra {
        let _ = write!(s, ",{}:{v}", json_str(k));
    }
    s.push('}');
    let a: Vec<String> = prop.assumptions.iter().map(|a| json_str(a)).collect();
    let _ = writeln!(
        s,
        ",\"assumptions\":[{}],\"wall_s\":{wall:.2},\"violations\":{violations}}}",
        a.join(",")
    );
    let dir = o.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", prop.id)), s);
}

fn merge(into: &mut Stats, from: Stats) {
    for (k, v) in from.counters {
        *into.counters.entry(k).or_default() += v;
    }
    for (k, v) in from.maxima {
        let e = into.maxima.entry(k).or_default();
        *e = (*e).max(v);
    }
    if into.distinct.is_empty() {
        into.distinct = from.distinct;
    } else {
        into.distinct.extend(from.distinct);
    }
    into.samples.extend(from.samples);
    into.known.extend(from.known);
}

/// Runs the workload of one property in this process and writes the verdict to `verdict`.
pub fn worker(prop: &'static Prop, o: Opts, verdict: &Path, state: &Path) -> i32 {
    install_hook();
    let start = Instant::now();
    let total = o.cases.unwrap_or(match o.tier {
        Tier::Quick => prop.quick,
        Tier::Thorough => prop.thorough,
    });
    let cap = Duration::from_secs(o.secs.unwrap_or(match o.tier {
        Tier::Quick => 120,
        Tier::Thorough => 600,
    }));
    let threads = if o.only.is_some() {
        1
    } else {
        std::thread::available_parallelism().map_or(8, |n| n.get()).clamp(2, 16)
    };
    let next = AtomicU64::new(o.only.unwrap_or(0));
    let end = o.only.map_or(total, |c| c + 1);
    let evaluated = AtomicU64::new(0);
    let inconclusive = AtomicU64::new(0);
    let found: Mutex<Vec<Witness>> = Mutex::new(vec![]);
    let found_at: Mutex<Option<Instant>> = Mutex::new(None);
    let all: Mutex<Stats> = Mutex::new(Stats::default());
    let slots: Vec<&'static Slot> = (0..threads)
        .map(|_| {
            &*Box::leak(Box::new(Slot {
                seq: AtomicU64::new(0),
                case: AtomicU64::new(u64::MAX),
                label: Mutex::new(""),
                mem: AtomicBool::new(false),
                done: AtomicBool::new(false),
                clock: AtomicU64::new(0),
            }))
        })
        .collect();
    let state_file = std::fs::File::options().write(true).create(true).truncate(true).open(state);
    let _ = std::fs::write(verdict, "");
    let stuck: Mutex<Option<(u64, String, bool)>> = Mutex::new(None);
    std::thread::scope(|scope| {
        for (t, &slot) in slots.iter().enumerate() {
            let (next, evaluated, inconclusive) = (&next, &evaluated, &inconclusive);
            let (found, found_at, all, o, state_file) = (&found, &found_at, &all, &o, &state_file);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(scope, move || {
                    SLOT.set(Some(slot));
                    alloc::set_flag(&slot.mem);
                    let mut clk: libc::clockid_t = 0;
                    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk) };
                    slot.clock.store(clk as u32 as u64, Ordering::SeqCst);
                    let mut st = Stats::default();
                    loop {
                        let idx = next.fetch_add(1, Ordering::SeqCst);
                        if idx >= end || start.elapsed() > cap {
                            break;
                        }
                        if let Some(at) = *found_at.lock().unwrap() {
                            if at.elapsed() > Duration::from_secs(2) {
                                break;
                            }
                        }
                        slot.case.store(idx, Ordering::SeqCst);
                        slot.seq.fetch_add(2, Ordering::SeqCst);
                        if let Ok(f) = state_file {
                            use std::os::unix::fs::FileExt;
                            let _ = f.write_at(&idx.to_le_bytes(), t as u64 * 8);
                        }
                        let (mut c, r, inc) =
                            case(prop, o.tier, o.seed, idx, false, std::mem::take(&mut st));
                        evaluated.fetch_add(1, Ordering::SeqCst);
                        if inc {
                            inconclusive.fetch_add(1, Ordering::SeqCst);
                        }
                        if let Some(msg) = r {
                            found.lock().unwrap().push(Witness { idx, size: c.size, msg });
                            let mut at = found_at.lock().unwrap();
                            if at.is_none() {
                                *at = Some(Instant::now());
                            }
                        }
                        st = std::mem::take(&mut c.st);
                    }
                    merge(&mut all.lock().unwrap(), st);
                    slot.done.store(true, Ordering::SeqCst);
                })
                .expect("spawn");
        }
        // Supervisor.
        let mut seen: Vec<(u64, Duration)> = vec![(u64::MAX, Duration::ZERO); threads];
        loop {
            if slots.iter().all(|s| s.done.load(Ordering::SeqCst)) {
                break;
            }
            std::thread::sleep(Duration::from_millis(5));
            for (i, s) in slots.iter().enumerate() {
                if s.done.load(Ordering::SeqCst) {
                    continue;
                }
                let mut bad = None;
                if s.mem.load(Ordering::SeqCst) {
                    bad = Some((format!(
                        "the call kept more than {} MB of heap alive",
                        SUT_HEAP_LIMIT >> 20
                    ), true));
                } else {
                    let clock = s.clock.load(Ordering::SeqCst) as u32 as i32;
                    if clock == 0 {
                        continue;
                    }
                    let seq = s.seq.load(Ordering::SeqCst);
                    let Some(cpu) = thread_cpu(clock as u64) else { continue };
                    if seen[i].0 != seq {
                        seen[i] = (seq, cpu);
                        continue;
                    }
                    let spent = cpu.saturating_sub(seen[i].1);
                    if seq & 1 == 1 && spent > SUT_CPU_LIMIT {
                        bad = Some((format!(
                            "the call has used {} s of CPU time on this small input and is still running",
                            SUT_CPU_LIMIT.as_secs()
                        ), true));
                    } else if seq & 1 == 0 && spent > JUDGE_CPU_LIMIT {
                        bad = Some(("the judge takes too long".into(), false));
                    }
                }
                if let Some((what, is_viol)) = bad {
                    let case = s.case.load(Ordering::SeqCst);
                    let label = s.label.try_lock().map(|l| *l).unwrap_or("?");
                    *stuck.lock().unwrap() = Some((case, format!("`{label}`: {what}"), is_viol));
                    let (case, msg, is_viol) = stuck.lock().unwrap().clone().unwrap();
                    let wall = start.elapsed().as_secs_f64();
                    let n = evaluated.load(Ordering::SeqCst);
                    let mut st = Stats::default();
                    if let Ok(mut a) = all.try_lock() {
                        merge(&mut st, std::mem::take(&mut *a));
                    }
                    evidence(&o, prop, n, &st, wall, is_viol as u64, &[]);
                    if is_viol {
                        let path = write_replay(&o, prop, case, &msg, &[]);
                        let _ = std::fs::write(verdict, format!("VIOLATION {path}\n{msg}\n"));
                        unsafe { libc::_exit(1) }
                    } else {
                        let _ = std::fs::write(verdict, format!("ERROR case {case}: {msg}\n"));
                        unsafe { libc::_exit(2) }
                    }
                }
            }
        }
    });
    let wall = start.elapsed().as_secs_f64();
    let mut st = all.into_inner().unwrap();
    st.samples.sort();
    st.samples.truncate(4);
    let n = evaluated.load(Ordering::SeqCst);
    let inc = inconclusive.load(Ordering::SeqCst);
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|w| (w.size, w.idx));
    let mut out = String::new();
    let mut known: Vec<(String, String)> = std::mem::take(&mut st.known);
    known.sort();
    known.dedup();
    for (k, what) in &known {
        let _ = writeln!(out, "KNOWN {k}\t{what}");
    }
    let mut code = 0;
    let extra = vec![
        ("inconclusive".to_string(), inc.to_string()),
        ("planned_cases".to_string(), (end - o.only.unwrap_or(0)).to_string()),
        ("workers".to_string(), threads.to_string()),
        ("known_findings_seen".to_string(), known.len().to_string()),
    ];
    if o.only.is_none() {
        evidence(&o, prop, n, &st, wall, found.len() as u64, &extra);
    }
    if let Some(w) = found.first() {
        let (c, again, _) = case(prop, o.tier, o.seed, w.idx, true, Stats::default());
        let mut msg = w.msg.clone();
        if again.is_none() {
            msg.push_str("\n(not seen again when the case was run alone)");
        }
        let _ = writeln!(msg, "\n({} failing cases seen; this is the smallest)", found.len());
        let path = write_replay(&o, prop, w.idx, &msg, &c.notes);
        let _ = writeln!(out, "VIOLATION {path}\n{msg}");
        code = 1;
    } else if o.only.is_none() && o.cases.is_none() && (st.distinct.len() < 3 || inc * 2 > n) {
        let _ = writeln!(
            out,
            "ERROR too little observed: {n} cases, {} distinct non-trivial, {inc} inconclusive",
            st.distinct.len()
        );
        code = 2;
    } else {
        let _ = writeln!(out, "OK {n} cases, {} distinct non-trivial, {wall:.1} s", st.distinct.len());
    }
    let _ = std::fs::write(verdict, out);
    code
}
