//! Exploration engine: enumerates finite case spaces in parallel, runs the real code on each case,
//! compares with the reference model, and turns mismatches, panics, hangs and process aborts into
//! violations with a replay file.
use std::cell::Cell;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// A finite, randomly addressable space of cases.
pub trait Space: Sync {
    type Item: Debug;
    fn len(&self) -> u64;
    fn get(&self, i: u64) -> Self::Item;
}
impl<T: Clone + Debug + Sync> Space for Vec<T> {
    type Item = T;
    fn len(&self) -> u64 {
        Vec::len(self) as u64
    }
    fn get(&self, i: u64) -> T {
        self[i as usize].clone()
    }
}
/// Cartesian product.
pub struct Prod<A, B>(pub A, pub B);
impl<A: Space, B: Space> Space for Prod<A, B> {
    type Item = (A::Item, B::Item);
    fn len(&self) -> u64 {
        self.0.len() * self.1.len()
    }
    fn get(&self, i: u64) -> Self::Item {
        let n = self.1.len();
        (self.0.get(i / n), self.1.get(i % n))
    }
}
impl<A: Space + ?Sized> Space for &A {
    type Item = A::Item;
    fn len(&self) -> u64 {
        (**self).len()
    }
    fn get(&self, i: u64) -> Self::Item {
        (**self).get(i)
    }
}
/// All sequences of length `kmin..=kmax` over digits `0..m`.
pub struct Seqs {
    pub m: u64,
    pub kmin: u32,
    pub kmax: u32,
}
impl Space for Seqs {
    type Item = Vec<usize>;
    fn len(&self) -> u64 {
        (self.kmin..=self.kmax).map(|k| self.m.pow(k)).sum()
    }
    fn get(&self, mut i: u64) -> Vec<usize> {
        let mut k = self.kmin;
        while i >= self.m.pow(k) {
            i -= self.m.pow(k);
            k += 1;
        }
        (0..k)
            .map(|_| {
                let d = (i % self.m) as usize;
                i /= self.m;
                d
            })
            .collect()
    }
}
/// Disjoint union of spaces with the same item type.
pub struct Cat<T>(pub Vec<Box<dyn Space<Item = T>>>);
impl<T: Debug> Space for Cat<T> {
    type Item = T;
    fn len(&self) -> u64 {
        self.0.iter().map(|s| s.len()).sum()
    }
    fn get(&self, mut i: u64) -> T {
        for s in &self.0 {
            if i < s.len() {
                return s.get(i);
            }
            i -= s.len();
        }
        panic!("index out of space")
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

thread_local! {
    static T_STATES: Cell<u64> = const { Cell::new(0) };
    static T_TRANS: Cell<u64> = const { Cell::new(0) };
    static T_TRACES: Cell<u64> = const { Cell::new(0) };
    static T_NONTRIV: Cell<bool> = const { Cell::new(false) };
    static T_SKIP: Cell<bool> = const { Cell::new(false) };
}
/// Count model/reference states visited.
pub fn states(n: u64) {
    T_STATES.with(|c| c.set(c.get() + n))
}
/// Count model/reference transitions taken.
pub fn transitions(n: u64) {
    T_TRANS.with(|c| c.set(c.get() + n))
}
/// Count one implementation result compared with the reference.
pub fn trace() {
    traces(1)
}
pub fn traces(n: u64) {
    T_TRACES.with(|c| c.set(c.get() + n))
}
/// Marks the current case as non-trivial.
pub fn nontrivial() {
    T_NONTRIV.with(|c| c.set(true))
}
/// Marks the current case as outside the domain of the property.
pub fn skip() {
    T_SKIP.with(|c| c.set(true))
}

#[derive(Default, Clone, Debug)]
struct Fam {
    name: String,
    rule: String,
    total: u64,
    run: u64,
    skipped: u64,
    nontrivial: u64,
    exhaustive: bool,
    secs: f64,
}

pub struct Mc {
    pub prop: String,
    pub tier: Tier,
    seed: u64,
    t0: Instant,
    fams: Vec<Fam>,
    states: u64,
    trans: u64,
    traces: u64,
    samples: Vec<String>,
    violations: Vec<(String, u64, String, String)>,
    known: Vec<serde_json::Value>,
    known_hits: Vec<usize>,
    only: Option<(String, u64)>,
    slots: *mut Slot,
    case_limit: Duration,
    budget: Duration,
    threads: usize,
    filter: Option<String>,
    pub assumptions: Vec<String>,
    level: &'static str,
}

/// Shared-memory record of the case a worker is on (read by the parent if the process dies).
#[repr(C)]
struct Slot {
    fam: AtomicU64,
    idx: AtomicU64,
    since_ms: AtomicU64,
}
const NSLOT: usize = 64;
const SLOT_BYTES: usize = NSLOT * std::mem::size_of::<Slot>();
const NFAM: usize = 128;
const NAME: usize = 96;

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// Runs `f`, turning a panic of the code under test into an error.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| format!("{what} panicked: {}", panic_msg(&e)))
}

impl Mc {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn case_limit(&mut self, s: u64) {
        self.case_limit = Duration::from_secs(s);
    }
    /// Number of worker threads (1 for checks that use process-global state).
    pub fn threads(&mut self, n: usize) {
        self.threads = n;
    }
    /// Explores every case of `space`.
    pub fn family<S: Space>(
        &mut self,
        name: &str,
        rule: &str,
        space: S,
        f: impl Fn(&S::Item) -> Result<(), String> + Sync,
    ) {
        if let Some(fl) = &self.filter {
            if !name.contains(fl.as_str()) {
                return;
            }
        }
        if self.violations.len() >= 3 {
            return;
        }
        let fam_id = self.fams.len() as u64;
        let total = space.len();
        let t = Instant::now();
        if let Some((fam, idx)) = self.only.clone() {
            if fam == name {
                let item = space.get(idx);
                eprintln!("family {name} case {idx}: {item:?}");
                let r = catch_unwind(AssertUnwindSafe(|| f(&item)));
                match r {
                    Ok(Ok(())) => eprintln!("case holds"),
                    Ok(Err(m)) => self.violations.push((name.into(), idx, format!("{item:?}"), m)),
                    Err(e) => self.violations.push((
                        name.into(),
                        idx,
                        format!("{item:?}"),
                        format!("panicked: {}", panic_msg(&e)),
                    )),
                }
            }
            self.fams.push(Fam { name: name.into(), ..Default::default() });
            return;
        }
        unsafe {
            let p = (self.slots as *mut u8).add(SLOT_BYTES + (fam_id as usize % NFAM) * NAME);
            std::ptr::write_bytes(p, 0, NAME);
            std::ptr::copy_nonoverlapping(name.as_ptr(), p, name.len().min(NAME - 1));
        }
        let next = AtomicU64::new(0);
        let done = AtomicUsize::new(0);
        let nviol = AtomicU64::new(0);
        let res: Mutex<(Vec<(u64, String, String)>, Fam, [u64; 3], Vec<String>, Vec<usize>)> =
            Mutex::new((vec![], Fam::default(), [0; 3], vec![], vec![]));
        let nthreads = self.threads;
        let slots = self.slots as usize;
        let t0 = self.t0;
        let case_limit = self.case_limit;
        let known = &self.known;
        let budget_left = self.budget.checked_sub(self.t0.elapsed()).unwrap_or(Duration::ZERO);
        let hang: Mutex<Option<u64>> = Mutex::new(None);
        // fixed stride: spread samples and give small cases first
        let chunk = ((total / (nthreads as u64 * 64)).max(1)).min(256);
        std::thread::scope(|sc| {
            for w in 0..nthreads {
                let (next, done, nviol, res, f, space) = (&next, &done, &nviol, &res, &f, &space);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let slot = unsafe { &*(slots as *const Slot).add(w) };
                        slot.fam.store(fam_id, Relaxed);
                        let mut fam = Fam::default();
                        let mut viol = vec![];
                        let mut samples = vec![];
                        let mut hits = vec![];
                        T_STATES.with(|c| c.set(0));
                        T_TRANS.with(|c| c.set(0));
                        T_TRACES.with(|c| c.set(0));
                        'o: loop {
                            let lo = next.fetch_add(chunk, Relaxed);
                            if lo >= total || nviol.load(Relaxed) >= 3 || t.elapsed() > budget_left {
                                break;
                            }
                            for i in lo..(lo + chunk).min(total) {
                                let item = space.get(i);
                                slot.idx.store(i, Relaxed);
                                slot.since_ms.store(t0.elapsed().as_millis() as u64 + 1, Release);
                                T_NONTRIV.with(|c| c.set(false));
                                T_SKIP.with(|c| c.set(false));
                                let r = catch_unwind(AssertUnwindSafe(|| f(&item)));
                                slot.since_ms.store(0, Release);
                                fam.run += 1;
                                if T_SKIP.with(|c| c.get()) {
                                    fam.skipped += 1;
                                } else if T_NONTRIV.with(|c| c.get()) {
                                    fam.nontrivial += 1;
                                }
                                let msg = match r {
                                    Ok(Ok(())) => {
                                        if (w == 0 && samples.len() < 2 && fam.run > 3)
                                            && T_NONTRIV.with(|c| c.get())
                                        {
                                            samples.push(format!("{item:?}"));
                                        }
                                        continue;
                                    }
                                    Ok(Err(m)) => m,
                                    Err(e) => format!("panicked: {}", panic_msg(&e)),
                                };
                                let case = format!("{item:?}");
                                let k = known.iter().position(|k| {
                                    k["family"].as_str() == Some(name)
                                        && k["case"].as_str().map_or(false, |c| c == case)
                                        && k["message_prefix"].as_str().map_or(false, |p| msg.starts_with(p))
                                });
                                if let Some(k) = k {
                                    hits.push(k);
                                    continue;
                                }
                                viol.push((i, case, msg));
                                if nviol.fetch_add(1, Relaxed) >= 2 {
                                    break 'o;
                                }
                            }
                        }
                        let mut r = res.lock().unwrap();
                        r.0.extend(viol);
                        r.1.run += fam.run;
                        r.1.skipped += fam.skipped;
                        r.1.nontrivial += fam.nontrivial;
                        r.2[0] += T_STATES.with(|c| c.get());
                        r.2[1] += T_TRANS.with(|c| c.get());
                        r.2[2] += T_TRACES.with(|c| c.get());
                        r.3.extend(samples);
                        r.4.extend(hits);
                        done.fetch_add(1, SeqCst);
                    })
                    .unwrap();
            }
            // watchdog
            let (done, hang) = (&done, &hang);
            let prop = self.prop.clone();
            let name = name.to_string();
            let space = &space;
            sc.spawn(move || {
                while done.load(SeqCst) < nthreads {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = t0.elapsed().as_millis() as u64 + 1;
                    for w in 0..nthreads {
                        let slot = unsafe { &*(slots as *const Slot).add(w) };
                        let s = slot.since_ms.load(Acquire);
                        if s != 0 && now > s + case_limit.as_millis() as u64 {
                            let i = slot.idx.load(Relaxed);
                            *hang.lock().unwrap() = Some(i);
                            let case = format!("{:?}", space.get(i));
                            let msg = format!("no answer within {} s (does not terminate)", case_limit.as_secs());
                            let path = write_replay(&prop, &name, i, &case, &msg);
                            println!("{case}\n{msg}");
                            println!("VIOLATION property={prop} replay={path}");
                            write_min_evidence(&prop, t0.elapsed().as_secs_f64());
                            std::process::exit(1);
                        }
                    }
                }
            });
        });
        let (mut v, mut fam, c, samples, hits) = res.into_inner().unwrap();
        v.sort();
        for (i, case, m) in v {
            self.violations.push((name.into(), i, case, m));
        }
        self.known_hits.extend(hits);
        fam.name = name.into();
        fam.rule = rule.into();
        fam.total = total;
        fam.exhaustive = fam.run == total;
        fam.secs = t.elapsed().as_secs_f64();
        self.states += c[0];
        self.trans += c[1];
        self.traces += c[2];
        self.samples.extend(samples.into_iter().take(2).map(|s| format!("{name}: {s}")));
        eprintln!(
            "[{}] {:<40} cases {:>9}/{:<9} nontrivial {:>9} skipped {:>8} states {:>10} transitions {:>11} traces {:>9} {:.1}s",
            self.prop, name, fam.run, total, fam.nontrivial, fam.skipped, c[0], c[1], c[2], fam.secs
        );
        self.fams.push(fam);
    }

    fn finish(mut self) -> i32 {
        let dir = verif_dir();
        if self.only.is_some() || self.filter.is_some() {
            for v in &self.violations {
                println!("{}\n{}", v.2, v.3);
                println!("VIOLATION property={} replay=-", self.prop);
            }
            return if self.violations.is_empty() { 0 } else { 1 };
        }
        self.known_hits.sort();
        self.known_hits.dedup();
        for &k in &self.known_hits {
            println!("KNOWN-FINDING: property={} {}", self.prop, self.known[k]["what"].as_str().unwrap_or("?"));
        }
        let rule = self
            .fams
            .iter()
            .map(|f| format!("{}: {}", f.name, f.rule))
            .collect::<Vec<_>>()
            .join(" | ");
        let exhaustive = self.fams.iter().all(|f| f.exhaustive);
        let ev = serde_json::json!({
            "property": self.prop,
            "tier": if self.thorough() {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "states": self.states,
                "transitions": self.trans,
                "traces_validated_against_impl": self.traces,
                "evaluations": self.fams.iter().map(|f| f.run).sum::<u64>(),
                "distinct_nontrivial": self.fams.iter().map(|f| f.nontrivial).sum::<u64>(),
                "rule": rule,
                "exhaustive": exhaustive,
                "samples": self.samples,
                "families": self.fams.iter().map(|f| serde_json::json!({
                    "name": f.name, "space": f.total, "explored": f.run, "outside_domain": f.skipped,
                    "nontrivial": f.nontrivial, "exhaustive": f.exhaustive, "secs": f.secs})).collect::<Vec<_>>(),
            },
            "violations": self.violations.iter().map(|v| serde_json::json!({"family": v.0, "index": v.1, "case": v.2, "message": v.3})).collect::<Vec<_>>(),
            "assumptions": self.assumptions,
            "wall_s": self.t0.elapsed().as_secs_f64(),
        });
        let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
        std::fs::write(
            format!("{dir}/evidence/{}.json", self.prop),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .unwrap();
        if self.violations.is_empty() {
            let (st, tr, vt) = (self.states, self.trans, self.traces);
            println!(
                "OK property={} cases={} states={} transitions={} traces={} exhaustive={} wall={:.1}s",
                self.prop,
                self.fams.iter().map(|f| f.run).sum::<u64>(),
                st,
                tr,
                vt,
                exhaustive,
                self.t0.elapsed().as_secs_f64()
            );
            return 0;
        }
        for v in self.violations.iter().take(3) {
            let path = write_replay(&self.prop, &v.0, v.1, &v.2, &v.3);
            println!("--- {} case {}\n{}\n{}", v.0, v.1, v.2, v.3);
            println!("VIOLATION property={} replay={}", self.prop, path);
        }
        1
    }
}

fn write_min_evidence(prop: &str, wall: f64) {
    let dir = verif_dir();
    let ev = serde_json::json!({"property": prop, "tier": std::env::var("VERIF_TIER").unwrap_or("quick".into()), "seed": 1, "level":"model_checking",
        "coverage": {"states":1,"transitions":0,"traces_validated_against_impl":0,"samples":[],"note":"run ended early by a violation (hang or abort)"}, "wall_s": wall});
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    let _ = std::fs::write(format!("{dir}/evidence/{prop}.json"), ev.to_string());
}

fn write_replay(prop: &str, fam: &str, idx: u64, case: &str, msg: &str) -> String {
    let dir = format!("{}/evidence/replay", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{dir}/{prop}-{}-{idx}.txt", fam.replace(['/', ' '], "_"));
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let _ = std::fs::write(
        &p,
        format!("property {prop}\nfamily {fam}\nindex {idx}\ncase {case}\nmessage {msg}\nreplay: cd /verif && VERIF_TIER={tier} MC_ONLY='{fam}#{idx}' bash run.sh {prop}\n"),
    );
    p
}

/// Entry point of every check binary.
pub fn run(prop: &str, level: &'static str, body: impl FnOnce(&mut Mc)) -> ! {
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let only = std::env::var("MC_ONLY").ok().map(|s| {
        let (a, b) = s.rsplit_once('#').unwrap();
        (a.to_string(), b.parse().unwrap())
    });
    let filter = std::env::var("MC_FAMILY").ok();
    let slot_file = std::env::var("MC_SLOTS").ok();
    if slot_file.is_none() && only.is_none() && filter.is_none() {
        std::process::exit(parent(prop));
    }
    let bytes = SLOT_BYTES + NFAM * NAME;
    let slots = unsafe {
        match &slot_file {
            Some(p) => {
                use std::os::fd::AsRawFd;
                let f = std::fs::OpenOptions::new().read(true).write(true).open(p).unwrap();
                libc::mmap(std::ptr::null_mut(), bytes, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
            }
            None => libc::mmap(std::ptr::null_mut(), bytes, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_ANON | libc::MAP_PRIVATE, -1, 0),
        }
    } as *mut Slot;
    assert!(slots as isize != -1);
    unsafe {
        let lim = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
    }
    if std::env::var("MC_PANIC_TRACE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let known: Vec<serde_json::Value> = std::fs::read_to_string(format!("{}/known_findings.json", verif_dir()))
        .ok()
        .and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok())
        .and_then(|v| v["known"].as_array().cloned())
        .unwrap_or_default()
        .into_iter()
        .filter(|k| k["property"].as_str() == Some(prop))
        .collect();
    let mut mc = Mc {
        prop: prop.into(),
        tier,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        t0: Instant::now(),
        fams: vec![],
        states: 0,
        trans: 0,
        traces: 0,
        samples: vec![],
        violations: vec![],
        known,
        known_hits: vec![],
        only,
        slots,
        case_limit: Duration::from_secs(60),
        budget: Duration::from_secs(
            std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 600 } else { 7200 }),
        ),
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(NSLOT),
        filter,
        assumptions: vec![],
        level,
    };
    body(&mut mc);
    std::process::exit(mc.finish());
}

/// Runs the exploration in a child process so that an abort of the code under test (stack overflow,
/// failed allocation, undefined behaviour caught by the runtime) is a violation, not a lost check.
fn parent(prop: &str) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let t0 = Instant::now();
    let slot = std::env::temp_dir().join(format!("mc-slots-{}-{}", prop, std::process::id()));
    std::fs::write(&slot, vec![0u8; SLOT_BYTES + NFAM * NAME]).unwrap();
    let st = std::process::Command::new(&exe).env("MC_SLOTS", &slot).status().unwrap();
    let data = std::fs::read(&slot).unwrap_or_default();
    let _ = std::fs::remove_file(&slot);
    if let Some(c @ (0 | 1)) = st.code() {
        return c;
    }
    // The child died. The busy slots name the cases it was on; the one that kills a process by itself
    // is the counterexample.
    eprintln!("exploration process died: {st}");
    let mut cands = vec![];
    for ch in data[..SLOT_BYTES].chunks_exact(24) {
        let g = |i: usize| u64::from_le_bytes(ch[i * 8..i * 8 + 8].try_into().unwrap());
        if g(2) != 0 {
            cands.push((g(0), g(1)));
        }
    }
    for (fam, idx) in cands {
        let off = SLOT_BYTES + (fam as usize % NFAM) * NAME;
        let name: Vec<u8> = data[off..off + NAME].iter().copied().take_while(|&b| b != 0).collect();
        let name = String::from_utf8_lossy(&name).to_string();
        let out = std::process::Command::new(&exe).env("MC_ONLY", format!("{name}#{idx}")).output();
        if let Ok(o) = out {
            if !matches!(o.status.code(), Some(0)) {
                let err = String::from_utf8_lossy(&o.stderr).to_string();
                let case = err.lines().next().unwrap_or("").to_string();
                let msg = format!("the process died ({}) on this case: {}", o.status, err.lines().rev().take(4).collect::<Vec<_>>().join(" / "));
                let path = write_replay(prop, &name, idx, &case, &msg);
                println!("{case}\n{msg}");
                println!("VIOLATION property={prop} replay={path}");
                write_min_evidence(prop, t0.elapsed().as_secs_f64());
                            return 1;
            }
        }
    }
    println!("the exploration process died ({st}) but no single case reproduces it");
    write_min_evidence(prop, t0.elapsed().as_secs_f64());
    2
}
