//! The checks run in a child process, so that an abort the language cannot catch (failed allocation, stack overflow,
//! an endless loop that never touches storage) is observed, located and replayed instead of silencing the check.
use crate::props::Prop;
use crate::run::{self, Case};
use std::fs::{self, File};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

pub const DIR_VAR: &str = "OBMON_CHILD";
/// a case that runs longer than this hangs (ordinary ones take milliseconds, the longest a few seconds)
const HANG: Duration = Duration::from_secs(100);
const SLOTS: usize = 64;
const REC: usize = 24;

/// where a child notes what it is doing
pub struct Notes {
    slots: File,
    dir: String,
}
static NOTES: OnceLock<Option<Notes>> = OnceLock::new();
pub fn notes() -> Option<&'static Notes> {
    NOTES
        .get_or_init(|| {
            let dir = std::env::var(DIR_VAR).ok()?;
            let slots = fs::OpenOptions::new().write(true).open(format!("{dir}/slots")).ok()?;
            Some(Notes { slots, dir })
        })
        .as_ref()
}
impl Notes {
    pub fn begin(&self, slot: usize, idx: u64, seed: u64) {
        let mut b = [0u8; REC];
        b[..8].copy_from_slice(&(idx + 1).to_le_bytes());
        b[8..16].copy_from_slice(&seed.to_le_bytes());
        b[16..].copy_from_slice(&now_ms().to_le_bytes());
        let _ = self.slots.write_at(&b, (slot % SLOTS * REC) as u64);
    }
    pub fn end(&self, slot: usize) {
        let _ = self.slots.write_at(&[0u8; REC], (slot % SLOTS * REC) as u64);
    }
    /// a violation found but not yet shrunk
    pub fn found(&self, c: &Case) {
        let _ = fs::write(format!("{}/found.json", self.dir), serde_json::to_string(c).unwrap_or_default());
    }
    /// operation about to be executed
    pub fn op(&self, line: &str) {
        use std::io::Write;
        if let Ok(mut f) = fs::OpenOptions::new().append(true).create(true).open(format!("{}/ops", self.dir)) {
            let _ = f.write_all(line.as_bytes());
            let _ = f.write_all(b"\n");
        }
    }
}
fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_millis() as u64)
}

struct Scratch(String);
impl Scratch {
    fn new() -> Option<Self> {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let d = format!("{}/obmon-{}-{}-{}", std::env::temp_dir().display(), std::process::id(), now_ms(), n);
        fs::create_dir_all(&d).ok()?;
        fs::write(format!("{d}/slots"), vec![0u8; SLOTS * REC]).ok()?;
        Some(Scratch(d))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        for f in ["slots", "found.json", "ops", "case.json"] {
            let _ = fs::remove_file(format!("{}/{f}", self.0));
        }
        let _ = fs::remove_dir(&self.0);
    }
}

fn spawn(args: &[String], dir: &str, quiet: bool) -> Option<Child> {
    let mut c = Command::new(std::env::current_exe().ok()?);
    c.args(args).env(DIR_VAR, dir);
    if quiet {
        c.stdout(Stdio::null()).stderr(Stdio::null());
    } else {
        c.stderr(Stdio::null());
    }
    c.spawn().ok()
}

enum End {
    Code(i32),
    Signal(i32),
    Hang,
}
fn end(s: ExitStatus) -> End {
    match (s.code(), s.signal()) {
        (Some(c), _) => End::Code(c),
        (_, Some(g)) => End::Signal(g),
        _ => End::Code(3),
    }
}
fn wait_for(c: &mut Child, limit: Duration) -> End {
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return end(s),
            Ok(None) if t0.elapsed() > limit => {
                let _ = c.kill();
                let _ = c.wait();
                return End::Hang;
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(5)),
            Err(_) => return End::Code(3),
        }
    }
}
fn slots(dir: &str) -> Vec<(u64, u64, u64)> {
    let b = fs::read(format!("{dir}/slots")).unwrap_or_default();
    let n = |s: &[u8]| u64::from_le_bytes(s.try_into().unwrap_or_default());
    b.chunks_exact(REC)
        .map(|r| (n(&r[..8]), n(&r[8..16]), n(&r[16..])))
        .filter(|r| r.0 > 0)
        .map(|r| (r.0 - 1, r.1, r.2))
        .collect()
}

/// `obmon check`, supervised.
pub fn check(p: &'static Prop, a: &run::Args, args: &[String]) -> i32 {
    let Some(sc) = Scratch::new() else {
        return run::check(p, a);
    };
    let _ = fs::remove_file(&a.evidence);
    let Some(mut c) = spawn(args, &sc.0, false) else {
        return run::check(p, a);
    };
    let mut found_at: Option<Instant> = None;
    let how = loop {
        match c.try_wait() {
            Ok(Some(s)) => break end(s),
            Ok(None) => {}
            Err(_) => break End::Code(3),
        }
        std::thread::sleep(Duration::from_millis(50));
        if found_at.is_none() && fs::metadata(format!("{}/found.json", sc.0)).is_ok() {
            found_at = Some(Instant::now());
        }
        let late = slots(&sc.0).iter().any(|s| now_ms().saturating_sub(s.2) > HANG.as_millis() as u64);
        if late || found_at.map_or(false, |t| t.elapsed() > HANG) {
            let _ = c.kill();
            let _ = c.wait();
            break End::Hang;
        }
    };
    if let End::Code(c) = how {
        return c;
    }
    // the run ended without a verdict of its own
    let what = match how {
        End::Signal(g) => format!("the process was ended by signal {g}"),
        _ => "a call never returned".to_string(),
    };
    if let Some(k) = fs::read_to_string(format!("{}/found.json", sc.0)).ok().and_then(|s| serde_json::from_str::<Case>(&s).ok()) {
        println!("{} -- {}", k.violation.clone().unwrap_or_default(), k.detail.clone().unwrap_or_default());
        return report(p, a, k, 0);
    }
    for (idx, seed, _) in slots(&sc.0) {
        let Some(one) = Scratch::new() else { break };
        let v: Vec<String> = ["one", "--prop", p.id, "--case-seed", &seed.to_string(), "--index", &idx.to_string(), "--tier", &a.tier]
            .iter()
            .map(|s| s.to_string())
            .collect();
        let Some(mut c) = spawn(&v, &one.0, true) else { continue };
        let e = wait_for(&mut c, HANG);
        let why = match e {
            End::Code(_) => continue,
            End::Signal(g) => ("panic.abort", format!("the process was ended by signal {g}")),
            End::Hang => ("panic.hang", "a call never returned".to_string()),
        };
        let ops = fs::read_to_string(format!("{}/ops", one.0)).unwrap_or_default();
        let mut k: Case = match ops.lines().next().and_then(|l| serde_json::from_str(l).ok()) {
            Some(k) => k,
            None => continue,
        };
        k.ops = ops.lines().skip(1).filter_map(|l| serde_json::from_str(l).ok()).collect();
        k.violation = Some(why.0.into());
        k.detail = Some(why.1.clone());
        if why.0 == "panic.abort" {
            shrink(&mut k, Duration::from_secs(25));
        }
        println!("case {idx}: {} -- {} during {:?}", why.0, why.1, k.ops.last());
        // aborts are C22's; a call that never ends is also C13's
        if p.id == "C22" || (p.id == "C13" && why.0 == "panic.hang") {
            return report(p, a, k, idx);
        }
        println!("INCONCLUSIVE property={}: {} (judged by C22)", p.id, why.1);
        return 3;
    }
    println!("INCONCLUSIVE property={}: {what}, not reproduced on a single case", p.id);
    3
}

fn report(p: &Prop, a: &run::Args, k: Case, idx: u64) -> i32 {
    let _ = fs::create_dir_all(&a.replay_dir);
    let path = format!("{}/{}.json", a.replay_dir, p.id);
    let _ = fs::write(&path, serde_json::to_string_pretty(&k).unwrap_or_default());
    println!("  {} operation(s)", k.ops.len());
    println!("VIOLATION property={} replay={}", p.id, path);
    let ev = serde_json::json!({
        "property": p.id, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {"evaluations": idx + 1, "distinct_nontrivial": 1, "rule": p.rule,
            "samples": [{"operations": k.ops.len(), "ended": k.detail}]},
        "assumptions": ["the run was cut short by the violation"],
        "wall_s": 0.0, "violations": 1,
    });
    let _ = fs::write(&a.evidence, serde_json::to_string_pretty(&ev).unwrap_or_default());
    1
}

/// run a case in a child; true when it dies or hangs
fn dies(c: &Case, limit: Duration) -> Option<String> {
    let sc = Scratch::new()?;
    let f = format!("{}/case.json", sc.0);
    fs::write(&f, serde_json::to_string(c).ok()?).ok()?;
    let mut k = spawn(&["replay".into(), f], &sc.0, true)?;
    match wait_for(&mut k, limit) {
        End::Code(_) => None,
        End::Signal(g) => Some(format!("the process was ended by signal {g}")),
        End::Hang => Some("a call never returned".into()),
    }
}
fn shrink(k: &mut Case, limit: Duration) {
    let t0 = Instant::now();
    let mut chunk = (k.ops.len() / 2).max(1);
    loop {
        let (mut i, mut any) = (0, false);
        // the last operation is the one that ends the process
        while i + 1 < k.ops.len() {
            if t0.elapsed() > limit {
                return;
            }
            let hi = (i + chunk).min(k.ops.len() - 1);
            let mut c = k.clone();
            c.ops.drain(i..hi);
            if dies(&c, Duration::from_secs(5)).is_some() {
                *k = c;
                any = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !any {
            return;
        }
        chunk = (chunk / 2).max(1);
    }
}

/// replay, supervised
pub fn replay(c: &Case, args: &[String]) -> i32 {
    let Some(sc) = Scratch::new() else { return 3 };
    let Some(mut k) = spawn(args, &sc.0, false) else { return 3 };
    match wait_for(&mut k, HANG) {
        End::Code(c) => c,
        End::Signal(g) => {
            println!("reproduced: signal {g} during {:?}", c.ops.last());
            1
        }
        End::Hang => {
            println!("reproduced: no end of {:?}", c.ops.last());
            1
        }
    }
}
