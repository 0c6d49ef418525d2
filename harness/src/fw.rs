//! The run-time monitoring framework: cases, shards, verdicts, evidence.
//!
//! A check is a set of sections; a section is a deterministic function of (seed, property, section,
//! index). The parent process splits the indices over child processes. A child that dies or burns an
//! unreasonable amount of CPU inside a case is itself an observation: the case is recorded in a
//! shared page before it starts.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ randomness

pub struct Rng {
    s: u64,
}

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b {
        h ^= *c as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng { s: mix(seed ^ 0x5851f42d4c957f2d) }
    }
    pub fn u64(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.s)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        (self.u64() % (n as u64)) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
}

impl rand::Rng for Rng {
    fn next_u32(&mut self) -> u32 {
        self.u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.u64()
    }
}

// ------------------------------------------------------------------ reports

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub trivial: u64,
    pub sigs: BTreeSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    /// (section, idx, message)
    pub violations: Vec<(String, u64, String)>,
    /// key -> (what, how often)
    pub known: BTreeMap<String, (String, u64)>,
    pub required: BTreeSet<String>,
    pub cut_short: BTreeSet<String>,
}

fn enc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}

fn dec(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => out.push('\n'),
                Some('t') => out.push('\t'),
                Some(c) => out.push(c),
                None => {}
            }
        } else {
            out.push(c)
        }
    }
    out
}

impl Report {
    pub fn write(&self, path: &PathBuf) {
        let mut o = String::new();
        o += &format!("eval\t{}\n", self.evaluations);
        o += &format!("trivial\t{}\n", self.trivial);
        for s in &self.sigs {
            o += &format!("sig\t{:016x}\n", s);
        }
        for (k, v) in &self.counters {
            o += &format!("cnt\t{}\t{}\n", enc(k), v);
        }
        for s in &self.samples {
            o += &format!("sample\t{}\n", enc(s));
        }
        for (s, i, m) in &self.violations {
            o += &format!("viol\t{}\t{}\t{}\n", enc(s), i, enc(m));
        }
        for (k, (w, n)) in &self.known {
            o += &format!("known\t{}\t{}\t{}\n", enc(k), enc(w), n);
        }
        for k in &self.required {
            o += &format!("req\t{}\n", enc(k));
        }
        for k in &self.cut_short {
            o += &format!("cut\t{}\n", enc(k));
        }
        o += "done\n";
        let tmp = path.with_extension("tmp");
        fs::write(&tmp, o).expect("write report");
        fs::rename(&tmp, path).expect("rename report");
    }

    pub fn merge_file(&mut self, path: &PathBuf) -> bool {
        let text = match fs::read_to_string(path) {
            Ok(t) => t,
            Err(_) => return false,
        };
        let mut done = false;
        for l in text.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            match p[0] {
                "eval" => self.evaluations += p[1].parse::<u64>().unwrap(),
                "trivial" => self.trivial += p[1].parse::<u64>().unwrap(),
                "sig" => {
                    self.sigs.insert(u64::from_str_radix(p[1], 16).unwrap());
                }
                "cnt" => *self.counters.entry(dec(p[1])).or_insert(0) += p[2].parse::<u64>().unwrap(),
                "sample" => self.samples.push(dec(p[1])),
                "viol" => self.violations.push((dec(p[1]), p[2].parse().unwrap(), dec(p[3]))),
                "known" => {
                    let e = self.known.entry(dec(p[1])).or_insert((dec(p[2]), 0));
                    e.1 += p[3].parse::<u64>().unwrap();
                }
                "req" => {
                    self.required.insert(dec(p[1]));
                }
                "cut" => {
                    self.cut_short.insert(dec(p[1]));
                }
                "done" => done = true,
                _ => {}
            }
        }
        done
    }
}

// ------------------------------------------------------------------ context of a child

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}
static LAST_PANIC_ANY: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{}", info);
        LAST_PANIC.with(|p| *p.borrow_mut() = s.clone());
        if let Ok(mut g) = LAST_PANIC_ANY.lock() {
            *g = s;
        }
    }));
}

pub fn last_panic() -> String {
    let own = LAST_PANIC.with(|p| p.borrow().clone());
    let any = LAST_PANIC_ANY.lock().map(|g| g.clone()).unwrap_or_default();
    if any != own && !any.is_empty() {
        format!("{} (last panic of any thread: {})", own, any)
    } else {
        own
    }
}

/// What a piece of library code did, when panicking is one of the things it may do.
pub fn observe<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    if let Ok(mut g) = LAST_PANIC_ANY.lock() {
        g.clear();
    }
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(last_panic()),
    }
}

pub struct Case<'a> {
    pub idx: u64,
    pub rng: Rng,
    sigs: &'a mut BTreeSet<u64>,
    counters: &'a mut BTreeMap<String, u64>,
    known: &'a mut BTreeMap<String, (String, u64)>,
    desc: String,
    sig: u64,
    trivial: bool,
    pub thorough: bool,
}

impl<'a> Case<'a> {
    /// Adds to what makes this case distinct from others.
    pub fn sig<T: std::fmt::Debug>(&mut self, t: T) {
        let s = format!("{:?}", t);
        self.sig = mix(self.sig ^ hash_str(&s)).wrapping_add(1);
    }
    pub fn desc(&mut self, s: String) {
        self.sig(&s);
        if !self.desc.is_empty() {
            self.desc.push_str("; ");
        }
        self.desc.push_str(&s);
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn trivial(&mut self) {
        self.trivial = true;
    }
    /// The exact signature of a recorded finding was observed.
    pub fn known(&mut self, key: &str, what: &str) {
        let e = self.known.entry(key.to_string()).or_insert((what.to_string(), 0));
        e.1 += 1;
    }
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub shard: u64,
    pub shards: u64,
    pub only: Option<(String, u64)>,
    pub started: Instant,
    pub budget: Duration,
    pub rep: Report,
    cur: *mut u8,
}

const CUR_SIZE: usize = 4096;

impl Ctx {
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// This run has observed nothing worth a verdict unless the counter ends above zero.
    pub fn require(&mut self, k: &str) {
        if self.only.is_none() {
            self.rep.required.insert(k.to_string());
        }
    }

    fn set_cur(&mut self, section: &str, idx: u64) {
        if self.cur.is_null() {
            return;
        }
        let s = format!("{}\t{}\t{}\n", section, idx, cpu_ms());
        let b = s.as_bytes();
        assert!(b.len() < CUR_SIZE);
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.cur, b.len());
            *self.cur.add(b.len()) = 0;
        }
    }

    pub fn section<Fun>(&mut self, name: &str, count: u64, mut f: Fun)
    where
        Fun: FnMut(&mut Case) -> Result<(), String>,
    {
        if let Some((s, _)) = &self.only {
            if s != name {
                return;
            }
        }
        let mut bad_here = 0;
        for idx in 0..count {
            if let Some((_, i)) = &self.only {
                if *i != idx {
                    continue;
                }
            } else {
                if idx % self.shards != self.shard {
                    continue;
                }
                if self.started.elapsed() > self.budget {
                    self.rep.cut_short.insert(name.to_string());
                    return;
                }
            }
            self.set_cur(name, idx);
            let seed = self
                .seed
                .wrapping_mul(0x9e3779b97f4a7c15)
                .wrapping_add(hash_str(&self.prop))
                .wrapping_add(hash_str(name).rotate_left(17))
                .wrapping_add(mix(idx + 1));
            let mut case = Case {
                idx,
                rng: Rng::new(seed),
                sigs: &mut self.rep.sigs,
                counters: &mut self.rep.counters,
                known: &mut self.rep.known,
                desc: String::new(),
                sig: hash_str(name),
                trivial: false,
                thorough: self.thorough,
            };
            let r = observe(|| f(&mut case));
            let (sig, trivial, desc) = (case.sig, case.trivial, std::mem::take(&mut case.desc));
            if !trivial {
                case.sigs.insert(sig);
            }
            self.rep.evaluations += 1;
            if trivial {
                self.rep.trivial += 1;
            }
            if (idx < 2 || self.only.is_some()) && self.rep.samples.len() < 16 {
                self.rep.samples.push(format!("{}#{}: {}", name, idx, desc));
            }
            let bad = match r {
                Ok(Ok(())) => None,
                Ok(Err(m)) => Some(m),
                Err(p) => Some(format!("unexpected panic: {}", p)),
            };
            if let Some(m) = bad {
                self.rep.violations.push((name.to_string(), idx, format!("{} [{}]", m, desc)));
                bad_here += 1;
                if bad_here >= 5 {
                    return;
                }
            }
        }
    }
}

pub fn cpu_ms() -> u64 {
    unsafe {
        let mut u: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_SELF, &mut u);
        let t = |v: libc::timeval| v.tv_sec as u64 * 1000 + v.tv_usec as u64 / 1000;
        t(u.ru_utime) + t(u.ru_stime)
    }
}

// ------------------------------------------------------------------ known findings

/// (property, key, description)
pub fn known_findings(path: &str) -> Vec<(String, String, String)> {
    let mut out = vec![];
    let text = fs::read_to_string(path).unwrap_or_default();
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("finding: ") {
            let mut prop = String::new();
            let mut key = String::new();
            let mut words = vec![];
            for w in rest.split_whitespace() {
                if let Some(p) = w.strip_prefix("property=") {
                    if prop.is_empty() {
                        prop = p.to_string();
                        continue;
                    }
                }
                if let Some(k) = w.strip_prefix("key=") {
                    if key.is_empty() {
                        key = k.to_string();
                        continue;
                    }
                }
                words.push(w);
            }
            out.push((prop, key, words.join(" ")));
        }
    }
    out
}

// ------------------------------------------------------------------ json

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ------------------------------------------------------------------ parent and child

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub shards: u64,
    /// is a case that does not end in a bounded amount of work a violation of this very property
    pub run: fn(&mut Ctx),
}

pub struct Settings {
    pub verif: PathBuf,
    pub seed: u64,
    pub thorough: bool,
}

const STILL_LIMIT_S: u64 = 90;
const CASE_CPU_LIMIT_MS: u64 = 150_000;

pub fn child(check: &Check, set: &Settings, shard: u64, shards: u64, dir: &PathBuf, only: Option<(String, u64)>, budget: u64) {
    install_panic_hook();
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        // an absurd allocation is to fail in the case that asks for it, not to take the machine down
        let mut lim: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_AS, &mut lim);
        lim.rlim_cur = lim.rlim_max.min(20 << 30);
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        // library chatter
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(null, 1);
    }
    let cur_path = dir.join(format!("cur-{}", shard));
    fs::write(&cur_path, vec![0u8; CUR_SIZE]).unwrap();
    let cur = unsafe {
        use std::os::unix::ffi::OsStrExt;
        let mut p = cur_path.as_os_str().as_bytes().to_vec();
        p.push(0);
        let fd = libc::open(p.as_ptr() as *const _, libc::O_RDWR);
        assert!(fd >= 0);
        let m = libc::mmap(std::ptr::null_mut(), CUR_SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
        assert!(m != libc::MAP_FAILED);
        m as *mut u8
    };
    let mut ctx = Ctx {
        prop: check.id.to_string(),
        seed: set.seed,
        thorough: set.thorough,
        shard,
        shards,
        only,
        started: Instant::now(),
        budget: Duration::from_secs(budget),
        rep: Report::default(),
        cur,
    };
    ctx.set_cur("start", 0);
    (check.run)(&mut ctx);
    ctx.set_cur("end", 0);
    ctx.rep.write(&dir.join(format!("rep-{}", shard)));
}

/// One case in this very process, with nothing around it that an interpreter or a sanitizer would
/// have to understand. What it found comes as one line on standard error.
pub fn bare(check: &Check, set: &Settings, section: &str, idx: u64) {
    install_panic_hook();
    let mut ctx = Ctx {
        prop: check.id.to_string(),
        seed: set.seed,
        thorough: set.thorough,
        shard: 0,
        shards: 1,
        only: Some((section.to_string(), idx)),
        started: Instant::now(),
        budget: Duration::from_secs(1000),
        rep: Report::default(),
        cur: std::ptr::null_mut(),
    };
    (check.run)(&mut ctx);
    let r = ctx.rep;
    let what = r.violations.get(0).map(|v| v.2.clone()).unwrap_or_default();
    eprintln!(
        "BARE\t{}\t{}\t{}\t{}\t{}",
        r.evaluations,
        r.trivial,
        r.violations.len(),
        enc(&what.chars().take(500).collect::<String>()),
        enc(&r.samples.get(0).cloned().unwrap_or_default().chars().take(300).collect::<String>())
    );
}

fn read_cur(dir: &PathBuf, shard: u64) -> (String, u64, u64) {
    let b = fs::read(dir.join(format!("cur-{}", shard))).unwrap_or_default();
    let end = b.iter().position(|c| *c == 0).unwrap_or(0);
    let s = String::from_utf8_lossy(&b[..end]).to_string();
    let p: Vec<&str> = s.trim().split('\t').collect();
    if p.len() == 3 {
        (p[0].to_string(), p[1].parse().unwrap_or(0), p[2].parse().unwrap_or(0))
    } else {
        ("start".to_string(), 0, 0)
    }
}

/// Are all threads of a process asleep (and none is ready, running, or waiting for a disk)?
fn asleep(pid: u32) -> bool {
    let mut any = false;
    if let Ok(tasks) = fs::read_dir(format!("/proc/{}/task", pid)) {
        for t in tasks.flatten() {
            match fs::read_to_string(t.path().join("stat")) {
                Ok(s) => match s.rfind(')').and_then(|i| s[i + 1..].trim_start().chars().next()) {
                    Some('S') => any = true,
                    _ => return false,
                },
                Err(_) => return false,
            }
        }
    }
    any
}

fn proc_cpu_ms(pid: u32) -> Option<u64> {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let u: u64 = f.get(11)?.parse().ok()?;
    let k: u64 = f.get(12)?.parse().ok()?;
    Some((u + k) * 10)
}

pub fn parent(check: &Check, set: &Settings, only: Option<(String, u64)>) -> i32 {
    let started = Instant::now();
    let work = set.verif.join(".build").join("work").join(format!("{}-{}", check.id, std::process::id()));
    let _ = fs::remove_dir_all(&work);
    fs::create_dir_all(&work).unwrap();
    let budget: u64 = if set.thorough { 1500 } else { 240 };
    let hard: u64 = if set.thorough { 2400 } else { 560 };
    let shards = if only.is_some() { 1 } else { check.shards };

    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for s in 0..shards {
        let mut c = std::process::Command::new(&exe);
        c.arg("--child").arg(check.id).arg(s.to_string()).arg(shards.to_string()).arg(&work).arg(budget.to_string());
        if let Some((a, b)) = &only {
            c.arg(a).arg(b.to_string());
        }
        c.stdin(std::process::Stdio::null());
        let err = fs::File::create(work.join(format!("err-{}", s))).unwrap();
        c.stderr(err);
        c.stdout(std::process::Stdio::null());
        kids.push((s, c.spawn().expect("spawn"), false));
    }

    // checks whose cases wait for processes of their own have limits of their own
    let waits = ["C25", "C26"].contains(&check.id);
    let mut stills: Vec<((String, u64, u64), Instant)> = (0..shards).map(|_| ((String::new(), 0, 0), Instant::now())).collect();
    let mut rep = Report::default();
    let mut errors: Vec<String> = vec![];
    loop {
        let mut live = 0;
        for (s, k, done) in kids.iter_mut() {
            if *done {
                continue;
            }
            match k.try_wait().expect("wait") {
                Some(st) => {
                    *done = true;
                    let complete = rep.merge_file(&work.join(format!("rep-{}", s)));
                    if st.success() && complete {
                        continue;
                    }
                    use std::os::unix::process::ExitStatusExt;
                    let (sec, idx, _) = read_cur(&work, *s);
                    let tail = fs::read_to_string(work.join(format!("err-{}", s))).unwrap_or_default();
                    let tail: String = tail.chars().rev().take(600).collect::<String>().chars().rev().collect();
                    match st.signal() {
                        Some(sig) if sig != libc::SIGKILL && sig != libc::SIGTERM && sec != "start" && sec != "end" => {
                            rep.violations.push((sec, idx, format!("the process died of signal {} inside this case: {}", sig, tail)));
                            rep.evaluations += 1;
                        }
                        _ => errors.push(format!("shard {} ended with {:?} in {}#{}: {}", s, st, sec, idx, tail)),
                    }
                }
                None => {
                    live += 1;
                    let (sec, idx, at) = read_cur(&work, *s);
                    if sec != "start" && sec != "end" {
                        if let Some(now) = proc_cpu_ms(k.id()) {
                            let key = (sec.clone(), idx, now);
                            let still = &mut stills[*s as usize];
                            if still.0 != key || !asleep(k.id()) {
                                *still = (key, Instant::now());
                            } else if !waits && still.1.elapsed().as_secs() >= STILL_LIMIT_S {
                                let _ = k.kill();
                                let _ = k.wait();
                                *done = true;
                                rep.violations.push((sec, idx, format!("the case stands still: all its threads have been asleep for {} s", STILL_LIMIT_S)));
                                rep.evaluations += 1;
                                continue;
                            }
                            if now > at + CASE_CPU_LIMIT_MS {
                                let _ = k.kill();
                                let _ = k.wait();
                                *done = true;
                                rep.violations.push((sec, idx, format!("the case did not end after {} s of CPU time", CASE_CPU_LIMIT_MS / 1000)));
                                rep.evaluations += 1;
                            }
                        }
                    }
                }
            }
        }
        if live == 0 {
            break;
        }
        if started.elapsed().as_secs() > hard {
            for (s, k, done) in kids.iter_mut() {
                if !*done {
                    let _ = k.kill();
                    let _ = k.wait();
                    let (sec, idx, _) = read_cur(&work, *s);
                    errors.push(format!("shard {} did not end in time, in {}#{}", s, sec, idx));
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }

    let listed = known_findings(set.verif.join("KNOWN_FINDINGS.txt").to_str().unwrap());
    let mut out = String::new();
    for (key, (what, n)) in rep.known.clone() {
        if let Some((_, _, d)) = listed.iter().find(|(p, k, _)| p == check.id && *k == key) {
            out += &format!("KNOWN-FINDING: property={} {} (key={}, {} cases of this run)\n", check.id, d, key, n);
        } else {
            rep.violations.push(("known".to_string(), 0, format!("{}: {} ({} cases), which is not a listed finding", key, what, n)));
        }
    }

    let mut missing = vec![];
    if only.is_none() {
        for k in rep.required.iter() {
            if rep.counters.get(k).cloned().unwrap_or(0) == 0 {
                missing.push(k.clone());
            }
        }
    }

    // evidence
    let ev_dir = set.verif.join("evidence");
    fs::create_dir_all(ev_dir.join("replays")).unwrap();
    let mut shown = 0;
    let replay_of = |sec: &str, idx: u64| ev_dir.join("replays").join(format!("{}-{}-{}-s{}.txt", check.id, sec, idx, set.seed));
    for (sec, idx, msg) in rep.violations.iter() {
        let p = replay_of(sec, *idx);
        let _ = fs::write(
            &p,
            format!(
                "property\t{}\nseed\t{}\ntier\t{}\nsection\t{}\nindex\t{}\n\n{}\n",
                check.id,
                set.seed,
                if set.thorough { "thorough" } else { "quick" },
                sec,
                idx,
                msg
            ),
        );
        shown += 1;
        if shown <= 12 {
            out += &format!("VIOLATION property={} replay={}\n", check.id, p.display());
            let short: String = msg.chars().take(600).collect();
            out += &format!("  {}#{}: {}\n", sec, idx, short.replace('\n', "\n    "));
        }
    }

    if only.is_none() {
        let mut j = String::from("{\n");
        j += &format!(" \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n", jstr(check.id), if set.thorough { "thorough" } else { "quick" }, set.seed);
        j += " \"coverage\": {\n";
        j += &format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", rep.evaluations, rep.sigs.len(), jstr(check.rule));
        j += &format!("  \"observed\": {{{}}},\n", rep.counters.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
        if !rep.cut_short.is_empty() {
            j += &format!("  \"sections_cut_short_by_time\": [{}],\n", rep.cut_short.iter().map(|k| jstr(k)).collect::<Vec<_>>().join(", "));
        }
        rep.samples.sort();
        rep.samples.dedup();
        let samples: Vec<String> = rep.samples.iter().take(24).map(|s| jstr(&s.chars().take(700).collect::<String>())).collect();
        j += &format!("  \"samples\": [{}]\n }},\n", samples.join(",\n   "));
        j += &format!(" \"assumptions\": [{}],\n", check.assumptions.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(", "));
        j += &format!(" \"wall_s\": {:.1},\n \"violations\": {}\n}}\n", started.elapsed().as_secs_f64(), rep.violations.len());
        fs::write(ev_dir.join(format!("{}.json", check.id)), j).unwrap();
    }

    out += &format!(
        "{}: {} cases, {} distinct, {} violations, {:.1} s\n",
        check.id,
        rep.evaluations,
        rep.sigs.len(),
        rep.violations.len(),
        started.elapsed().as_secs_f64()
    );
    if only.is_some() {
        for s in &rep.samples {
            out += &format!("  {}\n", s);
        }
    }
    for e in &errors {
        out += &format!("HARNESS-ERROR: {}\n", e);
    }
    for m in &missing {
        out += &format!("INCONCLUSIVE: nothing was observed for: {}\n", m);
    }
    print!("{}", out);
    let _ = std::io::stdout().flush();
    let _ = fs::remove_dir_all(&work);

    if !rep.violations.is_empty() {
        1
    } else if !errors.is_empty() || !missing.is_empty() || rep.evaluations == 0 {
        2
    } else {
        0
    }
}
