//! The cases run in a child process, so that one which aborts, overflows its
//! stack, exhausts memory or never returns from a poll is still judged: every
//! case that was under way is then run again alone, with limits on its own CPU
//! time and memory.
use crate::report::{env_u64, evidence_path, replay_cmd, Check};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};

/// One case normally takes around a millisecond.
const ALONE_CPU_S: u64 = 60;
const ALONE_MEM: u64 = 6 << 30;
const CHILD_MEM: u64 = 24 << 30;
/// CPU time one case may burn in the parallel run before it is looked at alone
const SUSPECT_CPU_S: u64 = 90;

/// Built with a sanitizer: huge reservations are normal, everything is slower, and a
/// report is the verdict whether or not it comes again.
const SAN: bool = cfg!(feature = "san");

/// Points the sanitizers' reports to files; returns their prefix.
fn san_env(cmd: &mut Command, prefix: &str) {
    let sym = ["/usr/bin/llvm-symbolizer", "/usr/bin/llvm-symbolizer-18"].into_iter().find(|p| std::path::Path::new(p).exists());
    let sym = sym.map(|s| format!(":external_symbolizer_path={s}")).unwrap_or_default();
    let common = format!("halt_on_error=1:abort_on_error=1:log_path={prefix}{sym}");
    cmd.env("ASAN_OPTIONS", format!("{common}:detect_leaks=0"));
    cmd.env("MSAN_OPTIONS", &common);
    cmd.env("TSAN_OPTIONS", format!("{common}:second_deadlock_stack=1:report_signal_unsafe=0"));
}
/// the sanitizer reports written below a prefix, which are removed
fn san_reports(prefix: &str) -> String {
    let (dir, base) = prefix.rsplit_once('/').unwrap();
    let mut all = String::new();
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if e.file_name().to_string_lossy().starts_with(&format!("{base}.")) {
            all += &String::from_utf8_lossy(&std::fs::read(e.path()).unwrap_or_default());
            let _ = std::fs::remove_file(e.path());
        }
    }
    all
}

pub fn is_child() -> bool {
    std::env::var_os("HV_CHILD").is_some()
}

fn limit(res: libc::__rlimit_resource_t, n: u64) {
    let l = libc::rlimit { rlim_cur: n, rlim_max: n };
    unsafe { libc::setrlimit(res, &l) };
}

const SLOTS: usize = 64;
/// case seed under way + 1, and the thread CPU clock when it began
static SEEDS: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static CLOCKS: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static TIDS: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static BEGAN: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static FILE: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();

fn cpu_of(clock: libc::clockid_t) -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(clock, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

/// In the child: what this thread is running now.
pub fn begin(slot: usize, seed: u64) {
    let Some(f) = FILE.get() else { return };
    use std::os::unix::fs::FileExt;
    let _ = f.write_all_at(&seed.to_le_bytes(), slot as u64 * 16 + 8);
    let _ = f.write_all_at(&1u64.to_le_bytes(), slot as u64 * 16);
    BEGAN[slot].store(cpu_of(libc::CLOCK_THREAD_CPUTIME_ID), Ordering::SeqCst);
    SEEDS[slot].store(seed, Ordering::SeqCst);
}
pub fn end(slot: usize) {
    let Some(f) = FILE.get() else { return };
    use std::os::unix::fs::FileExt;
    BEGAN[slot].store(u64::MAX, Ordering::SeqCst);
    let _ = f.write_all_at(&0u64.to_le_bytes(), slot as u64 * 16);
}
pub fn thread(slot: usize) {
    if FILE.get().is_none() {
        return;
    }
    let mut c: libc::clockid_t = 0;
    if unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) } == 0 {
        BEGAN[slot].store(u64::MAX, Ordering::SeqCst);
        CLOCKS[slot].store(c as u32 as u64, Ordering::SeqCst);
        TIDS[slot].store(1, Ordering::SeqCst);
    }
}
pub fn gone(slot: usize) {
    TIDS[slot].store(0, Ordering::SeqCst);
}

pub fn child_init() {
    let Ok(p) = std::env::var("HV_SLOTS") else { return };
    let Ok(f) = std::fs::OpenOptions::new().write(true).open(p) else { return };
    let _ = FILE.set(f);
    if !SAN {
        limit(libc::RLIMIT_AS, CHILD_MEM);
    }
    limit(libc::RLIMIT_CORE, 0);
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        for i in 0..SLOTS {
            if TIDS[i].load(Ordering::SeqCst) == 0 {
                continue;
            }
            let b = BEGAN[i].load(Ordering::SeqCst);
            if b == u64::MAX {
                continue;
            }
            let now = cpu_of(CLOCKS[i].load(Ordering::SeqCst) as u32 as libc::clockid_t);
            if now > b + env_u64("HV_SUSPECT", SUSPECT_CPU_S) * 1000 && BEGAN[i].load(Ordering::SeqCst) == b {
                eprintln!("a case has used {} ms of CPU time; looking at it alone", now - b);
                std::process::abort();
            }
        }
    });
}

pub fn supervise(c: &Check, root: &str) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let dir = format!("{root}/target");
    let _ = std::fs::create_dir_all(&dir);
    let slots = format!("{dir}/slots-{}-{}", c.id, std::process::id());
    std::fs::write(&slots, vec![0u8; SLOTS * 16]).unwrap();
    let mut cmd = Command::new(&exe);
    cmd.args(["check", c.id]).env("HV_CHILD", "1").env("HV_SLOTS", &slots).env("HV_ROOT", root);
    let prefix = format!("{dir}/san-{}-{}", c.id, std::process::id());
    if SAN {
        san_env(&mut cmd, &prefix);
    }
    let st = cmd.status();
    let report = if SAN { san_reports(&prefix) } else { String::new() };
    let data = std::fs::read(&slots).unwrap_or_default();
    let _ = std::fs::remove_file(&slots);
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot run the cases: {e}");
            return 2;
        }
    };
    if let Some(code) = st.code() {
        return code;
    }
    eprintln!("the process running the cases ended with signal {:?}", st.signal());
    let word = |i: usize| u64::from_le_bytes(data[i * 8..i * 8 + 8].try_into().unwrap());
    let seeds: Vec<u64> = (0..data.len() / 16).filter(|i| word(i * 2) == 1).map(|i| word(i * 2 + 1)).collect();
    let mut kids = vec![];
    for s in &seeds {
        let mut cmd = Command::new(&exe);
        if SAN {
            san_env(&mut cmd, &format!("{prefix}-alone"));
        }
        cmd.args(["replay", c.id, &s.to_string()]).env_remove("HV_CHILD").env("HV_ROOT", root).stdout(std::process::Stdio::null());
        unsafe {
            cmd.pre_exec(|| {
                limit(libc::RLIMIT_CPU, ALONE_CPU_S);
                if !SAN {
                    limit(libc::RLIMIT_AS, ALONE_MEM);
                }
                limit(libc::RLIMIT_CORE, 0);
                Ok(())
            });
        }
        if let Ok(k) = cmd.spawn() {
            kids.push((*s, k));
        }
    }
    let mut found = None;
    for (s, mut k) in kids {
        let Ok(st) = k.wait() else { continue };
        if let Some(sig) = st.signal() {
            let why = match sig {
                libc::SIGXCPU | libc::SIGKILL => format!("does not return within {ALONE_CPU_S} s of CPU time"),
                libc::SIGABRT if SAN => "makes the sanitizer report an error (or aborts the process)".to_string(),
                libc::SIGABRT => "aborts the process (panic while unwinding, stack overflow, or more than 6 GB of memory)".to_string(),
                s => format!("ends the process with signal {s}"),
            };
            found = Some((s, why));
        } else if st.code() == Some(1) && found.is_none() {
            found = Some((s, "violates the property (and ended the run)".into()));
        }
    }
    let alone = if SAN { san_reports(&format!("{prefix}-alone")) } else { String::new() };
    if found.is_none() && !report.is_empty() {
        // (which of the cases under way it was is not known)
        found = Some((seeds.first().copied().unwrap_or(0), "was among those under way when the sanitizer reported an error".into()));
    }
    let report = report + &alone;
    for l in report.lines().take(60) {
        eprintln!("{l}");
    }
    match found {
        Some((s, why)) => {
            let _ = std::fs::create_dir_all(format!("{root}/replays"));
            let path = format!("{root}/replays/{}-{s}.txt", c.id);
            let _ = std::fs::write(&path, format!("property {}\ncase {s} {why}\nreplay: {}\n\n{report}", c.id, replay_cmd(root, c.id, s)));
            println!("  case {s}: {why}");
            println!("VIOLATION property={} replay={path}", c.id);
            let ev = serde_json::json!({
                "property": c.id,
                "tier": std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
                "seed": env_u64("VERIF_SEED", 1),
                "level": c.level,
                "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": c.rule, "samples": [{"case_seed": s, "case": why}]},
                "assumptions": c.assumptions,
                "wall_s": 0.0,
                "violations": 1,
            });
            let _ = std::fs::create_dir_all(format!("{root}/evidence"));
            let _ = std::fs::write(evidence_path(root, c.id), serde_json::to_string_pretty(&ev).unwrap() + "\n");
            1
        }
        None => {
            eprintln!("none of the cases under way does so alone: no verdict");
            2
        }
    }
}
