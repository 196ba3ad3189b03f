//! Parent process: spawns the workers of a property, turns their reports into a verdict and
//! an evidence file. A verdict is only given when it is reproducible: a worker that dies or
//! hangs is re-run, and only the same death at the same case counts as a violation.
use crate::cx::{Cx, CASE_NO, LAST_PANIC};
use crate::props;
use std::collections::BTreeMap;
use std::io::Read;
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

const HANG_S: u64 = 90;
static ANY_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
const MEM_KB: u64 = 3_600_000;

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string())
}
fn tier() -> String {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough".into(),
        _ => "quick".into(),
    }
}

pub fn worker(a: &[String]) -> i32 {
    // ID tier shard nshards [stop=N] [describe=N] [trace=FILE]
    let id = a[0].clone();
    let thorough = a[1] == "thorough";
    let shard: u64 = a[2].parse().unwrap();
    let nshards: u64 = a[3].parse().unwrap();
    let (mut stop, mut describe, mut trace) = (None, None, None);
    for x in &a[4..] {
        if let Some(v) = x.strip_prefix("stop=") {
            stop = Some(v.parse().unwrap());
        } else if let Some(v) = x.strip_prefix("describe=") {
            describe = Some(v.parse().unwrap());
        } else if let Some(v) = x.strip_prefix("trace=") {
            trace = Some(std::fs::File::create(v).unwrap());
        }
    }
    std::panic::set_hook(Box::new(|i| {
        let msg = format!("{}", i);
        if let Ok(mut p) = ANY_PANIC.lock() {
            *p = msg.clone();
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
    let hang_s = if thorough { 5 * HANG_S } else { HANG_S };
    std::thread::spawn(move || {
        // processor time, so that a loaded machine does not look like a hang
        let mut last = u64::MAX;
        let mut since = 0;
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let c = CASE_NO.load(Relaxed);
            if c != last {
                last = c;
                since = cpu_s();
            } else if cpu_s() - since >= hang_s && c > 0 {
                println!("HANG case={}", c);
                std::process::exit(11);
            }
        }
    });
    let h = std::thread::Builder::new()
        .stack_size(32 << 20)
        .spawn(move || {
            let f = props::find(&id).expect("unknown property");
            let mut cx = Cx::new(thorough, shard, nshards, stop, describe, trace);
            f(&mut cx);
            cx.finish();
        })
        .unwrap();
    match h.join() {
        Ok(()) => 0,
        Err(_) => {
            // a panic outside a case (while preparing one)
            println!("HARNESS-PANIC {}", ANY_PANIC.lock().map(|p| p.replace('\n', " ")).unwrap_or_default());
            12
        }
    }
}

/// Processor seconds used by this process so far.
fn cpu_s() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (t(11) + t(12)) / 100
}

enum Out {
    Done(String),
    Viol(String),
    Hang(u64),
    Died(String),
    Panicked(String),
    Harness(String),
}

fn spawn(id: &str, tier: &str, shard: u64, n: u64, extra: &[String]) -> std::process::Child {
    let exe = std::env::current_exe().unwrap();
    let mut cmd = Command::new("/bin/sh");
    cmd.arg("-c")
        .arg(format!("ulimit -v {}; ulimit -c 0; exec \"$0\" \"$@\"", MEM_KB))
        .arg(exe)
        .arg("worker")
        .arg(id)
        .arg(tier)
        .arg(shard.to_string())
        .arg(n.to_string());
    for e in extra {
        cmd.arg(e);
    }
    cmd.stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    cmd.spawn().expect("cannot start worker")
}

fn collect(mut ch: std::process::Child) -> Out {
    let mut err = ch.stderr.take().unwrap();
    let eh = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = err.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let mut s = Vec::new();
    let _ = ch.stdout.take().unwrap().read_to_end(&mut s);
    let s = String::from_utf8_lossy(&s).to_string();
    let st = ch.wait().unwrap();
    let e = eh.join().unwrap();
    match st.code() {
        Some(0) if s.contains("\nDONE") || s.starts_with("DONE") || s.contains("REPLAY-PASSED") => Out::Done(s),
        Some(10) => match s.lines().find(|l| l.starts_with("VIOL ")) {
            Some(l) => Out::Viol(l.to_string()),
            None => Out::Harness(s + &e),
        },
        Some(11) => {
            let n = s
                .lines()
                .find_map(|l| l.strip_prefix("HANG case="))
                .and_then(|x| x.parse().ok())
                .unwrap_or(0);
            Out::Hang(n)
        }
        Some(12) => Out::Panicked(s.lines().find_map(|l| l.strip_prefix("HARNESS-PANIC ")).unwrap_or("").to_string()),
        Some(c) => Out::Harness(format!("exit {} {} {}", c, s, e)),
        None => Out::Died(format!(
            "{} {}",
            st,
            e.lines().filter(|l| !l.trim().is_empty()).take(3).collect::<Vec<_>>().join(" | ")
        )),
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Known findings: lines "known: property=<id> <substring of the violation message>".
fn known(id: &str) -> Vec<String> {
    let p = format!("{}/known_findings.txt", root());
    let pre = format!("known: property={} ", id);
    std::fs::read_to_string(p)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&pre).map(|x| x.trim().to_string()))
        .collect()
}

pub fn run(id: &str) -> i32 {
    let t0 = Instant::now();
    let tier = tier();
    if props::find(id).is_none() {
        eprintln!("unknown property {}", id);
        return 2;
    }
    let n = std::env::var("MC_WORKERS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or(8u64);
    let ths: Vec<_> = (0..n)
        .map(|s| {
            let ch = spawn(id, &tier, s, n, &[]);
            std::thread::spawn(move || (s, collect(ch)))
        })
        .collect();
    let outs: Vec<(u64, Out)> = ths.into_iter().map(|t| t.join().unwrap()).collect();

    let mut viols: Vec<(u64, u64, String)> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut secs: BTreeMap<String, [u64; 4]> = BTreeMap::new();
    let mut order: Vec<String> = vec![];
    let mut samples: Vec<String> = vec![];
    let direct = outs.iter().any(|(_, o)| matches!(o, Out::Viol(_)));
    for (s, o) in outs {
        let sure = direct || !viols.is_empty();
        match o {
            Out::Done(txt) => {
                for l in txt.lines() {
                    if let Some(r) = l.strip_prefix("SECTION ") {
                        let f: Vec<&str> = r.splitn(5, ' ').collect();
                        if !secs.contains_key(f[4]) {
                            order.push(f[4].to_string());
                        }
                        let e = secs.entry(f[4].to_string()).or_insert([0; 4]);
                        for i in 0..4 {
                            e[i] += f[i].parse::<u64>().unwrap();
                        }
                    } else if l.starts_with("SLOW ") && std::env::var("MC_SLOW").is_ok() {
                        println!("{}", l);
                    } else if let Some(r) = l.strip_prefix("SAMPLE ") {
                        if s == 0 || samples.is_empty() {
                            samples.push(r.to_string());
                        }
                    }
                }
            }
            Out::Viol(l) => {
                let c = l
                    .strip_prefix("VIOL case=")
                    .and_then(|x| x.split(' ').next())
                    .and_then(|x| x.parse().ok())
                    .unwrap_or(0);
                viols.push((s, c, l));
            }
            // one confirmed violation is enough
            Out::Hang(_) | Out::Died(_) if sure => {}
            Out::Hang(c) => match confirm(id, &tier, s, n, Some(c)) {
                Ok((c, d)) => viols.push((s, c, format!("no progress in {} s of processor time in: {}", if tier == "thorough" { 5 * HANG_S } else { HANG_S }, d))),
                Err(e) => errors.push(e),
            },
            Out::Died(e) => match confirm(id, &tier, s, n, None) {
                Ok((c, d)) => viols.push((s, c, format!("process died ({}) in: {}", e, d))),
                Err(e2) => errors.push(format!("{} / {}", e, e2)),
            },
            // preparing a case calls the code under test too: the same panic twice is its doing
            Out::Panicked(e) => match collect(spawn(id, &tier, s, n, &[])) {
                Out::Panicked(e2) if e2 == e => viols.push((s, u64::MAX, format!("panic while preparing a case: {}", e))),
                _ => errors.push(format!("panic did not reproduce: {}", e)),
            },
            Out::Harness(e) => errors.push(e),
        }
    }

    let kn = known(id);
    let mut known_hit: Vec<String> = vec![];
    viols.retain(|v| {
        if let Some(k) = kn.iter().find(|k| v.2.contains(k.as_str())) {
            known_hit.push(k.clone());
            false
        } else {
            true
        }
    });
    let wall = t0.elapsed().as_secs_f64();
    let tot = |i: usize| secs.values().map(|x| x[i]).sum::<u64>();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
    let sec_json: Vec<String> = order
        .iter()
        .map(|k| {
            let v = secs[k];
            format!(
                "{{\"section\":{},\"work_units\":{},\"states\":{},\"transitions\":{},\"traces\":{}}}",
                json_str(k), v[0], v[1], v[2], v[3]
            )
        })
        .collect();
    if samples.is_empty() {
        samples = viols.iter().map(|v| v.2.clone()).collect();
    }
    let ev = format!(
        "{{\n\"property\":{},\n\"tier\":{},\n\"seed\":{},\n\"level\":\"model_checking\",\n\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":{},\"sections\":[{}],\"samples\":[{}],\"explanation\":{}}},\n\"assumptions\":[{}],\n\"wall_s\":{:.2},\n\"violations\":{}\n}}\n",
        json_str(id),
        json_str(&tier),
        seed,
        tot(1),
        tot(2),
        tot(3),
        errors.is_empty() && viols.is_empty(),
        sec_json.join(","),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","),
        json_str("states: distinct reference-model states (functions, families, programs, stores) visited; transitions: operations executed on the real implementation and compared with the reference model; traces: complete histories executed from their initial state on the real implementation. Every section is enumerated completely within the bounds stated in DESIGN.md; a run stopped by a violation is not exhaustive."),
        json_str("behaviour outside the enumerated bounds (more variables, larger domains, longer histories) is not covered"),
        wall,
        viols.len()
    );
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, id), ev) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    for k in &known_hit {
        println!("KNOWN-FINDING: property={} {}", id, k);
    }
    for k in order.iter() {
        let v = secs[k];
        println!("{:<44} cases={} states={} transitions={} traces={}", k, v[0], v[1], v[2], v[3]);
    }
    println!("{} {} wall={:.1}s", id, tier, wall);
    if !viols.is_empty() {
        viols.sort_by_key(|v| (v.1, v.0));
        let rd = format!("{}/replays", root());
        let _ = std::fs::create_dir_all(&rd);
        let path = format!("{}/{}.replay", rd, id);
        let (s, c, l) = &viols[0];
        let _ = std::fs::write(
            &path,
            format!("property={}\ntier={}\nshard={}\nnshards={}\ncase={}\n{}\n", id, tier, s, n, c, l),
        );
        println!("{}", l);
        println!("VIOLATION property={} replay={}", id, path);
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            eprintln!("ERROR: {}", e);
        }
        return 3;
    }
    0
}

/// Re-run a shard that died or hung, locate the case, and describe it.
fn confirm(id: &str, tier: &str, s: u64, n: u64, hang: Option<u64>) -> Result<(u64, String), String> {
    let c = match hang {
        Some(c) => c,
        None => {
            let f = std::env::temp_dir().join(format!("mc-trace-{}-{}-{}", std::process::id(), id, s));
            let fs = f.to_string_lossy().to_string();
            let r = collect(spawn(id, tier, s, n, &[format!("trace={}", fs)]));
            let c = std::fs::read_to_string(&f)
                .ok()
                .and_then(|x| x.trim().parse().ok());
            let _ = std::fs::remove_file(&f);
            match (r, c) {
                (Out::Died(_), Some(c)) => c,
                _ => return Err("worker death did not reproduce".into()),
            }
        }
    };
    let mut ch = spawn(id, tier, s, n, &[format!("describe={}", c), format!("stop={}", c)]);
    let mut err = ch.stderr.take().unwrap();
    std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = err.read_to_end(&mut v);
    });
    let mut o = Vec::new();
    let _ = ch.stdout.take().unwrap().read_to_end(&mut o);
    let st = ch.wait().unwrap();
    let o = String::from_utf8_lossy(&o).to_string();
    let d = o
        .lines()
        .find_map(|l| l.strip_prefix("DESCRIBE "))
        .unwrap_or("?")
        .to_string();
    let same = match hang {
        Some(_) => st.code() == Some(11),
        None => st.code().is_none(),
    };
    if same {
        Ok((c, d))
    } else {
        Err(format!("worker failure did not reproduce at case {}", c))
    }
}

pub fn replay(file: &str) -> i32 {
    let txt = std::fs::read_to_string(file).expect("replay file");
    let get = |k: &str| {
        txt.lines()
            .find_map(|l| l.strip_prefix(&format!("{}=", k)))
            .unwrap_or("")
            .to_string()
    };
    let (s, n) = (get("shard").parse().unwrap(), get("nshards").parse().unwrap());
    let extra = vec![format!("stop={}", get("case")), format!("describe={}", get("case"))];
    match collect(spawn(&get("property"), &get("tier"), s, n, &extra)) {
        Out::Done(_) => {
            println!("replayed: no violation");
            0
        }
        Out::Viol(l) => {
            println!("{}", l);
            1
        }
        Out::Hang(c) => {
            println!("hang at case {}", c);
            1
        }
        Out::Died(e) | Out::Panicked(e) => {
            println!("died: {}", e);
            1
        }
        Out::Harness(e) => {
            println!("error: {}", e);
            2
        }
    }
}
