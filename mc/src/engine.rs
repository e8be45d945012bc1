//! Case enumeration, sharding, crash and hang isolation, evidence.
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub enum Verdict {
    Violation { case: u64, section: String, desc: String, msg: String },
}

pub struct Checker {
    pub prop: String,
    pub tier: Tier,
    shard: u64,
    shards: u64,
    only: Option<u64>,
    no: u64,
    section: String,
    sections: BTreeMap<String, u64>,
    pub evaluations: u64,
    traces: HashSet<u64>,
    trace_overflow: u64,
    /// Measured counts (summed over shards).
    pub counts: BTreeMap<String, u64>,
    /// Measured maxima (max over shards), in millionths.
    pub maxima: BTreeMap<String, u64>,
    samples: Vec<String>,
    crumb: Option<std::fs::File>,
    violation: Option<Verdict>,
    deadline: Option<Instant>,
    pub verbose: bool,
    start: Instant,
    /// Whether each case runs in a process of its own, forked from one that has run none.
    pub apart: bool,
}

static IN_CASE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
const TRACE_CAP: usize = 6_000_000;

impl Checker {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// `q` in the quick tier, `t` in the thorough tier.
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() { q } else { t }
    }
    pub fn section(&mut self, s: &str) {
        if std::env::var_os("MC_TIME").is_some() {
            eprintln!("{:>8.2}s shard {} enters {s}", self.start.elapsed().as_secs_f64(), self.shard);
        }
        self.section = s.to_string();
        self.sections.entry(s.to_string()).or_insert(0);
    }
    /// Whether exploration is over (a violation was found).
    pub fn done(&self) -> bool {
        self.violation.is_some()
    }
    /// Advances to the next case; true if this process runs it.
    pub fn next(&mut self) -> bool {
        self.no += 1;
        if self.violation.is_some() {
            return false;
        }
        match self.only {
            Some(n) => self.no == n,
            // Scattered, so that periodic costs spread evenly.
            None => crate::gens::mix(self.no, 0x5A) % self.shards == self.shard,
        }
    }
    pub fn add(&mut self, k: &str, n: u64) {
        match self.counts.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.counts.insert(k.to_string(), n);
            }
        }
    }
    pub fn maximum(&mut self, k: &str, x: f64) {
        let x = (x * 1e6) as u64;
        match self.maxima.get_mut(k) {
            Some(v) => *v = (*v).max(x),
            None => {
                self.maxima.insert(k.to_string(), x);
            }
        }
    }
    /// Records the fingerprint of one execution.
    pub fn trace(&mut self, h: u64) {
        if self.traces.len() < TRACE_CAP {
            self.traces.insert(h);
        } else {
            self.trace_overflow += 1;
        }
    }
    /// Runs one case. `f` returns Err for a violation; a stray panic is a violation as well.
    pub fn run(&mut self, desc: impl Fn() -> String, f: impl FnOnce(&mut Checker) -> Result<(), String>) {
        if let Some(c) = &self.crumb {
            let _ = c.write_all_at(&self.no.to_le_bytes(), 0);
        }
        *self.sections.get_mut(&self.section).expect("section") += 1;
        let e0 = self.evaluations;
        IN_CASE.store(true, std::sync::atomic::Ordering::Relaxed);
        let r = if self.apart { self.fork(f) } else { catch_unwind(AssertUnwindSafe(|| f(self))) };
        IN_CASE.store(false, std::sync::atomic::Ordering::Relaxed);
        if self.evaluations == e0 {
            self.evaluations += 1;
        }
        let n = self.sections[&self.section];
        if self.samples.len() < 24 && (n == 2 || n == 40) {
            let mut d = desc();
            if d.len() > 400 {
                let mut k = 400;
                while !d.is_char_boundary(k) {
                    k -= 1;
                }
                d.truncate(k);
                d.push('…');
            }
            self.samples.push(format!("[{}] {}", self.section, d));
        }
        let msg = match r {
            Ok(Ok(())) => return,
            Ok(Err(m)) => m,
            Err(p) => format!("unexpected panic: {}", payload(&*p)),
        };
        if self.violation.is_none() {
            self.violation = Some(Verdict::Violation { case: self.no, section: self.section.clone(), desc: desc(), msg });
        }
    }
    /// Runs a case in a child process and takes over what it measured. A child that dies takes this
    /// process with it, for the parent to find out.
    fn fork(&mut self, f: impl FnOnce(&mut Checker) -> Result<(), String>) -> std::thread::Result<Result<(), String>> {
        let mut fds = [0; 2];
        unsafe {
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let me = libc::getpid();
            match libc::fork() {
                -1 => panic!("harness: fork failed"),
                0 => {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    if libc::getppid() != me {
                        libc::_exit(3);
                    }
                    self.evaluations = 0;
                    self.counts.clear();
                    self.maxima.clear();
                    self.traces = HashSet::new();
                    let r = catch_unwind(AssertUnwindSafe(|| f(self)));
                    let msg = match &r {
                        Ok(Ok(())) => String::new(),
                        Ok(Err(m)) => format!("!{m}"),
                        Err(p) => format!("!unexpected panic: {}", payload(&**p)),
                    };
                    let mut b = Vec::new();
                    b.extend_from_slice(&self.evaluations.to_le_bytes());
                    b.extend_from_slice(&(self.traces.len() as u64).to_le_bytes());
                    for t in &self.traces {
                        b.extend_from_slice(&t.to_le_bytes());
                    }
                    let mut s = String::new();
                    for (k, v) in &self.counts {
                        s += &format!("C\t{k}\t{v}\n");
                    }
                    for (k, v) in &self.maxima {
                        s += &format!("M\t{k}\t{v}\n");
                    }
                    b.extend_from_slice(&(s.len() as u64).to_le_bytes());
                    b.extend_from_slice(s.as_bytes());
                    b.extend_from_slice(msg.as_bytes());
                    let mut at = 0;
                    while at < b.len() {
                        let n = libc::write(fds[1], b[at..].as_ptr().cast(), b.len() - at);
                        if n <= 0 {
                            libc::_exit(3);
                        }
                        at += n as usize;
                    }
                    libc::_exit(0);
                }
                pid => {
                    libc::close(fds[1]);
                    let mut b = Vec::new();
                    let mut pipe: std::fs::File = std::os::fd::FromRawFd::from_raw_fd(fds[0]);
                    let read = pipe.read_to_end(&mut b);
                    let mut status = 0;
                    while libc::waitpid(pid, &mut status, 0) == -1 {}
                    if libc::WIFSIGNALED(status) {
                        libc::signal(libc::WTERMSIG(status), libc::SIG_DFL);
                        libc::kill(libc::getpid(), libc::WTERMSIG(status));
                        loop {
                            libc::pause();
                        }
                    }
                    if status != 0 || read.is_err() {
                        eprintln!("harness: child exited with {status:#x}");
                        std::process::exit(2);
                    }
                    let word = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
                    self.evaluations += word(0);
                    let n = word(8) as usize;
                    for i in 0..n {
                        self.trace(word(16 + i * 8));
                    }
                    let at = 24 + n * 8;
                    let len = word(at - 8) as usize;
                    for l in String::from_utf8_lossy(&b[at..at + len]).lines() {
                        let mut p = l.split('\t');
                        let (kind, k, v) = (p.next().unwrap(), p.next().unwrap(), p.next().unwrap().parse::<u64>().unwrap());
                        if kind == "C" {
                            self.add(k, v);
                        } else {
                            self.maximum(k, v as f64 / 1e6);
                        }
                    }
                    let msg = String::from_utf8_lossy(&b[at + len..]).into_owned();
                    Ok(match msg.strip_prefix('!') {
                        None => Ok(()),
                        Some(m) => Err(m.to_string()),
                    })
                }
            }
        }
    }
    /// `next` and `run` in one.
    pub fn case(&mut self, desc: impl Fn() -> String, f: impl FnOnce(&mut Checker) -> Result<(), String>) {
        if self.next() {
            self.run(desc, f)
        }
    }
    pub fn overtime(&self) -> bool {
        self.deadline.is_some_and(|d| Instant::now() > d)
    }
}

/// What `f` gives in a child process, which has run no more than this one.
pub fn apart(f: impl FnOnce() -> Vec<u64>) -> Result<Vec<u64>, String> {
    let mut fds = [0; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        match libc::fork() {
            -1 => panic!("harness: fork failed"),
            0 => {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let Ok(v) = catch_unwind(AssertUnwindSafe(f)) else { libc::_exit(3) };
                let b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
                let mut at = 0;
                while at < b.len() {
                    let n = libc::write(fds[1], b[at..].as_ptr().cast(), b.len() - at);
                    if n <= 0 {
                        libc::_exit(3);
                    }
                    at += n as usize;
                }
                libc::_exit(0);
            }
            pid => {
                libc::close(fds[1]);
                let mut b = Vec::new();
                let mut pipe: std::fs::File = std::os::fd::FromRawFd::from_raw_fd(fds[0]);
                let read = pipe.read_to_end(&mut b);
                let mut status = 0;
                while libc::waitpid(pid, &mut status, 0) == -1 {}
                if status != 0 || read.is_err() {
                    return Err(format!("in a process of its own the operation ends with status {status:#x}"));
                }
                Ok(b.chunks(8).map(|w| u64::from_le_bytes(w.try_into().unwrap())).collect())
            }
        }
    }
}

pub fn payload(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(f) = p.downcast_ref::<crate::ctx::Fault>() {
        format!("injected fault {}", f.0)
    } else if let Some(f) = p.downcast_ref::<crate::ctx::Capped>() {
        format!("no end after {} callbacks (cap)", f.0)
    } else if p.downcast_ref::<crate::ctx::BadRef>().is_some() {
        "a callback was shown a reference to something that is not a live element".into()
    } else {
        "unknown payload".into()
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Args {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
}

/// Worker process: explores one shard and reports on stdout, one record per line.
pub fn worker(a: &Args, shard: u64, shards: u64, only: Option<u64>, crumb: Option<&str>, traces: Option<&str>, verbose: bool, body: fn(&mut Checker)) -> i32 {
    // Panics within a case are outcomes; elsewhere they are errors of the check.
    std::panic::set_hook(Box::new(|i| {
        if !IN_CASE.load(std::sync::atomic::Ordering::Relaxed) {
            eprintln!("harness panic: {i}");
        } else if std::env::var_os("MC_PANICS").is_some() {
            eprintln!("panic in a case: {i}");
        }
    }));
    unsafe {
        let lim = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    let mut c = Checker {
        prop: a.prop.clone(),
        tier: a.tier,
        shard,
        shards,
        only,
        no: 0,
        section: String::new(),
        sections: BTreeMap::new(),
        evaluations: 0,
        traces: HashSet::new(),
        trace_overflow: 0,
        counts: BTreeMap::new(),
        maxima: BTreeMap::new(),
        samples: Vec::new(),
        crumb: crumb.map(|p| std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).expect("crumb")),
        violation: None,
        deadline: None,
        verbose,
        start: Instant::now(),
        apart: false,
    };
    body(&mut c);
    if let Some(n) = only
        && n > c.no
    {
        println!("E\tcase {n} does not exist");
        return 2;
    }
    if let Some(p) = traces {
        let mut buf = Vec::with_capacity(c.traces.len() * 8);
        for t in &c.traces {
            buf.extend_from_slice(&t.to_le_bytes());
        }
        std::fs::write(p, buf).expect("traces");
    }
    println!("N\t{}\t{}\t{}\t{}", c.no, c.evaluations, c.traces.len(), c.trace_overflow);
    for (k, v) in &c.sections {
        println!("S\t{k}\t{v}");
    }
    for (k, v) in &c.counts {
        println!("C\t{k}\t{v}");
    }
    for (k, v) in &c.maxima {
        println!("M\t{k}\t{v}");
    }
    for s in &c.samples {
        println!("X\t{}", s.replace(['\n', '\t'], " "));
    }
    match c.violation {
        None => 0,
        Some(Verdict::Violation { case, section, desc, msg }) => {
            println!("V\t{case}\t{section}\t{}\t{}", desc.replace(['\n', '\t'], " "), msg.replace(['\n', '\t'], " "));
            1
        }
    }
}

struct Shard {
    child: Child,
    crumb: String,
    traces: String,
    out: std::thread::JoinHandle<String>,
    last: (u64, Instant),
    status: Option<std::process::ExitStatus>,
    hung: bool,
}

fn spawn(a: &Args, shard: u64, shards: u64, only: Option<u64>, dir: &str) -> Shard {
    let crumb = format!("{dir}/crumb.{shard}.{}", only.map_or("all".into(), |n| n.to_string()));
    let traces = format!("{dir}/traces.{shard}");
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("worker").arg(&a.prop).arg(if a.tier == Tier::Quick { "quick" } else { "thorough" });
    cmd.arg(shard.to_string()).arg(shards.to_string()).arg(only.map_or("-".into(), |n| n.to_string())).arg(&crumb).arg(&traces);
    cmd.env("VERIF_SEED", a.seed.to_string());
    cmd.env("RAYON_NUM_THREADS", "4");
    cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::inherit());
    let mut child = cmd.spawn().expect("spawn worker");
    let mut o = child.stdout.take().unwrap();
    let out = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = o.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    Shard { child, crumb, traces, out, last: (0, Instant::now()), status: None, hung: false }
}

fn crumb_of(p: &str) -> u64 {
    std::fs::read(p).ok().and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))).unwrap_or(0)
}

fn wait_all(shards: &mut [Shard], hang: Duration, stop_on_violation: bool) {
    loop {
        let mut open = 0;
        let mut bad = false;
        for s in shards.iter_mut() {
            if s.status.is_some() {
                bad |= !s.status.unwrap().success();
                continue;
            }
            match s.child.try_wait() {
                Ok(Some(st)) => {
                    s.status = Some(st);
                    bad |= !st.success();
                }
                _ => {
                    open += 1;
                    let c = crumb_of(&s.crumb);
                    if c != s.last.0 {
                        s.last = (c, Instant::now());
                    } else if s.last.1.elapsed() > hang {
                        s.hung = true;
                        let _ = s.child.kill();
                    }
                }
            }
        }
        if open == 0 {
            return;
        }
        if bad && stop_on_violation {
            for s in shards.iter_mut() {
                if s.status.is_none() {
                    let _ = s.child.kill();
                    let _ = s.child.wait();
                    s.last.0 = u64::MAX; // ended by us
                }
            }
            return;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

pub struct PropInfo {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub body: fn(&mut Checker),
}

/// Parent process: runs all shards, confirms crashes and hangs, writes evidence, prints verdict.
pub fn check(a: &Args, info: &PropInfo, root: &str) -> i32 {
    let t0 = Instant::now();
    let dir = format!("{root}/.build/run.{}.{}", a.prop, std::process::id());
    std::fs::create_dir_all(&dir).expect("run dir");
    let shards_n: u64 = std::thread::available_parallelism().map_or(4, |n| n.get() as u64);
    let hang = Duration::from_secs(150);
    let mut shards: Vec<Shard> = (0..shards_n).map(|i| spawn(a, i, shards_n, None, &dir)).collect();
    wait_all(&mut shards, hang, true);
    let mut violation: Option<(u64, String, String, String)> = None;
    let mut error: Option<String> = None;
    let mut ev = Ev::default();
    let mut trace_files = Vec::new();
    for (i, s) in shards.into_iter().enumerate() {
        let out = s.out.join().unwrap_or_default();
        trace_files.push(s.traces.clone());
        let v = ev.absorb(&out);
        if let Some(v) = v {
            if violation.as_ref().is_none_or(|w| v.0 < w.0) {
                violation = Some(v);
            }
            continue;
        }
        let Some(st) = s.status else { continue };
        if st.success() {
            continue;
        }
        // Crash, hang or error of a worker: confirm in isolation.
        let case = crumb_of(&s.crumb);
        let what = if s.hung { "does not end".to_string() } else { format!("crashes ({st})") };
        if violation.is_some() {
            continue;
        }
        if !s.hung && st.signal().is_none() && st.code() != Some(134) {
            error = Some(format!("worker {i} ended with {st}"));
            continue;
        }
        let mut re = vec![spawn(a, 0, 1, Some(case), &dir)];
        wait_all(&mut re, Duration::from_secs(100), true);
        let r = re.pop().unwrap();
        let ro = r.out.join().unwrap_or_default();
        let rv = Ev::default().absorb(&ro);
        if let Some(v) = rv {
            violation = Some(v);
        } else if r.hung || r.status.is_some_and(|st| !st.success()) {
            violation = Some((case, String::new(), format!("case {case}"), format!("the process {what} in this case, reproducibly")));
        } else {
            // Not alone: damage done by an earlier case of the shard. Run the shard again.
            let mut re = vec![spawn(a, i as u64, shards_n, None, &dir)];
            wait_all(&mut re, hang, true);
            let r = re.pop().unwrap();
            let again = crumb_of(&r.crumb);
            let ro = r.out.join().unwrap_or_default();
            if let Some(v) = Ev::default().absorb(&ro) {
                violation = Some(v);
            } else if r.status.is_some_and(|st| !st.success()) {
                violation = Some((again, String::new(), format!("shard {i}/{shards_n} up to case {again}"), format!("the process {what}, reproducibly when the shard is repeated")));
            } else {
                error = Some(format!("worker {i} {what} at case {case}, not reproducible"));
            }
        }
    }
    let distinct = union(&trace_files);
    let wall = t0.elapsed().as_secs_f64();
    let viol = violation.is_some();
    let e = ev.json(a, info, distinct, wall, viol);
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    std::fs::write(format!("{root}/evidence/{}.json", a.prop), e).expect("evidence");
    let _ = std::fs::remove_dir_all(&dir);
    println!(
        "{}: {} cases, {} executions, {} distinct traces, {:.1} s",
        a.prop, ev.cases_run(), ev.evals, distinct, wall
    );
    for (k, v) in &ev.counts {
        println!("  {k} = {v}");
    }
    for (k, v) in &ev.maxima {
        println!("  max {k} = {:.3}", *v as f64 / 1e6);
    }
    if let Some((case, section, desc, msg)) = violation {
        let _ = std::fs::create_dir_all(format!("{root}/replays"));
        let path = format!("{root}/replays/{}.json", a.prop);
        let tier = if a.tier == Tier::Quick { "quick" } else { "thorough" };
        let mut f = std::fs::File::create(&path).expect("replay");
        let _ = writeln!(
            f,
            "{{\n \"property\": {}, \"tier\": \"{tier}\", \"seed\": {}, \"case\": {case},\n \"section\": {}, \"input\": {},\n \"failure\": {},\n \"replay\": {}\n}}",
            js(&a.prop), a.seed, js(&section), js(&desc), js(&msg),
            js(&format!("/verif/check.sh {} {tier} --replay {case}", a.prop))
        );
        println!("case {case} [{section}] {desc}");
        println!("  -> {msg}");
        println!("VIOLATION property={} replay={path}", a.prop);
        return 1;
    }
    if let Some(e) = error {
        println!("ERROR: {e}");
        return 2;
    }
    0
}

fn union(files: &[String]) -> u64 {
    let mut all: Vec<u64> = Vec::new();
    for f in files {
        if let Ok(b) = std::fs::read(f) {
            all.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    all.sort_unstable();
    all.dedup();
    all.len() as u64
}

#[derive(Default)]
struct Ev {
    evals: u64,
    overflow: u64,
    sections: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    samples: Vec<String>,
}

impl Ev {
    fn cases_run(&self) -> u64 {
        self.sections.values().sum()
    }
    fn absorb(&mut self, out: &str) -> Option<(u64, String, String, String)> {
        let mut v = None;
        for l in out.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            let num = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            let txt = |i: usize| f.get(i).map_or(String::new(), |x| x.to_string());
            match f[0] {
                "N" => {
                    self.evals += num(2);
                    self.overflow += num(4);
                }
                "S" => *self.sections.entry(txt(1)).or_insert(0) += num(2),
                "C" => *self.counts.entry(txt(1)).or_insert(0) += num(2),
                "M" => {
                    let e = self.maxima.entry(txt(1)).or_insert(0);
                    *e = (*e).max(num(2));
                }
                "X" => {
                    if self.samples.len() < 12 && !self.samples.iter().any(|s| s.split(']').next() == txt(1).split(']').next()) {
                        self.samples.push(txt(1));
                    }
                }
                "V" => v = Some((num(1), txt(2), txt(3), txt(4))),
                _ => {}
            }
        }
        v
    }
    fn json(&self, a: &Args, info: &PropInfo, distinct: u64, wall: f64, viol: bool) -> String {
        let mut o = String::from("{\n");
        o += &format!(" \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"{}\",\n", js(&a.prop), if a.tier == Tier::Quick { "quick" } else { "thorough" }, a.seed, info.level);
        o += " \"coverage\": {\n";
        o += &format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", self.evals, distinct, js(info.rule));
        if self.overflow > 0 {
            o += &format!("  \"executions_past_the_trace_table_cap\": {},\n", self.overflow);
        }
        for k in ["states", "transitions", "traces_validated_against_impl"] {
            if let Some(v) = self.counts.get(k) {
                o += &format!("  \"{k}\": {v},\n");
            }
        }
        o += &format!("  \"cases_by_section\": {{{}}},\n", self.sections.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "));
        o += &format!("  \"counts\": {{{}}},\n", self.counts.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "));
        o += &format!("  \"maxima\": {{{}}},\n", self.maxima.iter().map(|(k, v)| format!("{}: {:.4}", js(k), *v as f64 / 1e6)).collect::<Vec<_>>().join(", "));
        o += &format!("  \"exhaustive\": {},\n", !viol);
        o += &format!("  \"samples\": [{}]\n }},\n", self.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
        o += &format!(" \"assumptions\": [{}],\n", info.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
        o += &format!(" \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n", viol as u32);
        o
    }
}
