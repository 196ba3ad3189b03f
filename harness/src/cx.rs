//! Exploration context of one worker process: sharding, case bookkeeping, counters.
//!
//! A *case* is the unit that is reported and replayed. Enumeration order is deterministic,
//! so (property, tier, shard, number of shards, case number) identifies an execution.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

/// Number of the case in progress (watched by the hang watchdog).
pub static CASE_NO: AtomicU64 = AtomicU64::new(0);
/// Fine-grained position within a case, for messages only.
static AT: [AtomicU64; 6] = [
    AtomicU64::new(0),
    AtomicU64::new(0),
    AtomicU64::new(0),
    AtomicU64::new(0),
    AtomicU64::new(0),
    AtomicU64::new(0),
];
static AT_LEN: AtomicUsize = AtomicUsize::new(0);

pub fn at(xs: &[u64]) {
    for (i, x) in xs.iter().take(6).enumerate() {
        AT[i].store(*x, Relaxed);
    }
    AT_LEN.store(xs.len().min(6), Relaxed);
}

fn at_string() -> String {
    let n = AT_LEN.load(Relaxed);
    let v: Vec<u64> = AT[..n].iter().map(|x| x.load(Relaxed)).collect();
    format!("{:?}", v)
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

#[derive(Default, Clone)]
pub struct Counts {
    pub cases: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
}

pub struct Cx {
    pub thorough: bool,
    pub shard: u64,
    pub nshards: u64,
    case_no: u64,
    unit_no: u64,
    section: String,
    pub sections: BTreeMap<String, Counts>,
    order: Vec<String>,
    samples: Vec<String>,
    section_samples: usize,
    /// stop after this case (replay)
    stop_after: Option<u64>,
    /// write the case number to this file before each case (crash localisation)
    trace: Option<std::fs::File>,
    describe: Option<u64>,
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

impl Cx {
    pub fn new(
        thorough: bool,
        shard: u64,
        nshards: u64,
        stop_after: Option<u64>,
        describe: Option<u64>,
        trace: Option<std::fs::File>,
    ) -> Self {
        Cx {
            thorough,
            shard,
            nshards,
            case_no: 0,
            unit_no: 0,
            section: String::new(),
            sections: BTreeMap::new(),
            order: vec![],
            samples: vec![],
            section_samples: 0,
            stop_after,
            trace,
            describe,
        }
    }

    pub fn section(&mut self, name: &str) {
        self.section = name.to_string();
        self.sections.entry(name.to_string()).or_default();
        self.order.push(name.to_string());
        self.section_samples = 0;
        self.unit_no = 0;
    }

    /// Does this worker own the next unit of work? (Every worker walks all units.)
    pub fn mine(&mut self) -> bool {
        let u = self.unit_no;
        self.unit_no += 1;
        u % self.nshards == self.shard
    }

    fn c(&mut self) -> &mut Counts {
        self.sections.get_mut(&self.section).unwrap()
    }
    /// Distinct reference-model states visited (the caller counts each one once over all shards).
    pub fn states(&mut self, n: u64) {
        self.c().states += n;
    }
    /// Operations executed on the implementation and compared with the reference.
    pub fn trans(&mut self, n: u64) {
        self.c().transitions += n;
    }
    /// Complete histories replayed on the implementation.
    pub fn traces(&mut self, n: u64) {
        self.c().traces += n;
    }

    /// Run one case. A returned error or a panic of the code under test is a violation.
    pub fn case<D, B>(&mut self, desc: D, body: B)
    where
        D: Fn() -> String,
        B: FnOnce(&mut Cx) -> Res,
    {
        self.case_no += 1;
        CASE_NO.store(self.case_no, Relaxed);
        if let Some(f) = &mut self.trace {
            use std::os::unix::fs::FileExt;
            let _ = f.write_at(format!("{:>20}\n", self.case_no).as_bytes(), 0);
        }
        if self.describe == Some(self.case_no) {
            println!("DESCRIBE section={} {}", self.section, desc());
            std::io::stdout().flush().unwrap();
        }
        self.c().cases += 1;
        at(&[]);
        let before = self.c().traces;
        let t0 = std::time::Instant::now();
        let r = catch_unwind(AssertUnwindSafe(|| body(self)));
        if self.c().traces == before {
            // the case itself is one history executed on the implementation
            self.c().traces += 1;
        }
        if t0.elapsed().as_secs_f64() > 1.5 {
            println!("SLOW {:.1}s [{}] {}", t0.elapsed().as_secs_f64(), self.section, desc());
        }
        let err = match r {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(_) => Some(format!(
                "panic at {}: {}",
                at_string(),
                LAST_PANIC.with(|p| p.borrow().clone())
            )),
        };
        if let Some(e) = err {
            println!(
                "VIOL case={} section={} input: {} :: {}",
                self.case_no,
                self.section,
                desc().replace('\n', " "),
                e.replace('\n', " ")
            );
            std::io::stdout().flush().unwrap();
            std::process::exit(10);
        }
        if self.section_samples < 1 && self.samples.len() < 12 {
            self.section_samples += 1;
            self.samples.push(format!("[{}] {}", self.section, desc()));
        }
        if self.stop_after == Some(self.case_no) {
            println!("REPLAY-PASSED case={}", self.case_no);
            std::process::exit(0);
        }
    }

    pub fn finish(&self) {
        for s in &self.samples {
            println!("SAMPLE {}", s.replace('\n', " "));
        }
        let mut done = std::collections::HashSet::new();
        for n in &self.order {
            if !done.insert(n.clone()) {
                continue;
            }
            let c = &self.sections[n];
            println!(
                "SECTION {} {} {} {} {}",
                c.cases, c.states, c.transitions, c.traces, n
            );
        }
        println!("DONE");
    }
}
