//! The supervisor: runs many simulated executions in worker processes, minimises and confirms
//! violations, writes replay and evidence files.

use crate::props::{self, Prop};
use crate::rt::*;
use crate::{crypt, peer};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::io::AsRawFd;
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::Duration;

const WORKERS: u64 = 8;
/// Processor seconds after which one run counts as hanging.
const HANG_CPU: f64 = 25.0;

fn verif_dir() -> String {
    std::env::var("KPSIM_DIR").unwrap_or_else(|_| "/verif".into())
}

pub fn run_seed(seed: u64, prop: &str, i: u64) -> u64 {
    mix(mix(seed ^ hash_bytes(prop.as_bytes())) ^ i)
}

fn one_line(s: &str) -> String {
    s.chars().map(|c| if c.is_control() { ' ' } else { c }).take(600).collect()
}

// ------------------------------------------------------------------------------------------------
// Worker

pub fn worker(a: &[&str]) -> i32 {
    let prop = props::find(a[0]).expect("property");
    let seed: u64 = a[1].parse().unwrap();
    let runs: u64 = a[2].parse().unwrap();
    let w: u64 = a[3].parse().unwrap();
    let deadline: f64 = a[4].parse().unwrap();
    let start = real_now();
    warm_up();
    let mut out = own_output();
    let mut counts: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut sigs: BTreeSet<u64> = BTreeSet::new();
    let (mut n, mut steps, mut covered, mut log) = (0u64, 0u64, 0u128, 0u64);
    let mut samples: Vec<String> = Vec::new();
    let mut i = w;
    while i < runs && real_now() - start < deadline {
        let _ = writeln!(out, "S {}", i);
        let _ = out.flush();
        let o = execute(prop.scenario, run_seed(seed, prop.id, i), None, -1);
        n += 1;
        steps += o.steps;
        covered += o.covered_ns;
        log = mix(log ^ o.log_hash);
        for (k, v) in &o.counts {
            *counts.entry(k).or_insert(0) += v;
        }
        if o.nontrivial {
            sigs.insert(o.sig);
        }
        if samples.len() < 2 && i % 5 == w % 5 {
            samples.push(one_line(&format!("run {}: {}", i, o.trace.join(" | "))));
        }
        if let Some(v) = o.violation {
            let _ = writeln!(out, "V {} {}\x1f{}", i, v.class, one_line(&v.msg));
            let _ = out.flush();
            break;
        }
        i += WORKERS;
    }
    let _ = writeln!(out, "N {} {} {} {}", n, steps, covered, log);
    for (k, v) in &counts {
        let _ = writeln!(out, "C {} {}", v, k);
    }
    for s in &samples {
        let _ = writeln!(out, "M {}", s);
    }
    for s in &sigs {
        let _ = writeln!(out, "G {}", s);
    }
    let _ = writeln!(out, "D");
    let _ = out.flush();
    0
}

// ------------------------------------------------------------------------------------------------
// One execution from a list of choices

/// `one PROPERTY CHOICES-FILE REC-FILE [seed:index,index,...]`
pub fn one(a: &[&str]) -> i32 {
    let prop = props::find(a[0]).expect("property");
    let choices = read_choices(a[1]);
    let mut out = own_output();
    warm_up();
    if let Some(p) = a.get(3) {
        let (seed, list) = p.split_once(':').expect("prelude");
        let seed: u64 = seed.parse().unwrap();
        for i in list.split(',').filter(|s| !s.is_empty()) {
            execute(prop.scenario, run_seed(seed, prop.id, i.parse().unwrap()), None, -1);
        }
    }
    let rec = std::fs::File::create(a[2]).expect("rec file");
    let (seed, replay) = match choices {
        Choices::Seed(s) => (s, None),
        Choices::List(l) => (0, Some(l)),
    };
    let o = execute(prop.scenario, seed, replay, rec.as_raw_fd());
    for t in &o.trace {
        let _ = writeln!(out, "T {}", one_line(t));
    }
    let _ = writeln!(out, "L {}", o.log_hash);
    let _ = match o.violation {
        Some(v) => writeln!(out, "V {}\x1f{}", v.class, one_line(&v.msg)),
        None => writeln!(out, "OK"),
    };
    let _ = out.flush();
    0
}

enum Choices {
    Seed(u64),
    List(Vec<u64>),
}

fn read_choices(path: &str) -> Choices {
    let s = std::fs::read_to_string(path).expect("choices");
    match s.trim().strip_prefix("seed ") {
        Some(x) => Choices::Seed(x.trim().parse().unwrap()),
        None => Choices::List(s.split_whitespace().map(|x| x.parse().unwrap()).collect()),
    }
}

struct OneResult {
    class: Option<String>,
    msg: String,
    rec: Vec<u64>,
    trace: Vec<String>,
    log: String,
}

fn cpu_of(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

fn death(status: std::process::ExitStatus) -> (String, String) {
    match (status.code(), status.signal()) {
        (Some(77), _) => ("memory".into(), "memory use passed the limit".into()),
        (Some(79), _) => ("hang".into(), "the simulator's limit of steps in one run was passed".into()),
        (Some(78), _) => ("deadlock".into(), "every simulated thread waits for another".into()),
        (_, Some(s)) if s == libc::SIGSEGV || s == libc::SIGABRT || s == libc::SIGBUS || s == libc::SIGILL || s == libc::SIGFPE => {
            ("abort".into(), format!("the process died of signal {}", s))
        }
        (c, s) => ("HARNESS".into(), format!("the process ended with code {:?} signal {:?}", c, s)),
    }
}

struct Scratch(String);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn scratch() -> Scratch {
    let d = format!("/tmp/kpsim.{}", std::process::id());
    let _ = std::fs::create_dir_all(&d);
    Scratch(d)
}

fn run_one(prop: &Prop, dir: &str, tag: u64, what: &str, prelude: &Option<String>, cpu: f64) -> OneResult {
    let (cf, rf) = (format!("{}/c{}", dir, tag), format!("{}/r{}", dir, tag));
    std::fs::write(&cf, what).expect("scratch");
    let mut cmd = Command::new(std::env::current_exe().expect("exe"));
    cmd.arg("one").arg(prop.id).arg(&cf).arg(&rf);
    if let Some(p) = prelude {
        cmd.arg(p);
    }
    let mut child = cmd.stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn");
    let mut so = child.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = so.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let mut hung = false;
    let mut waits = 0u32;
    let status = loop {
        if let Ok(Some(st)) = child.try_wait() {
            break st;
        }
        waits += 1;
        std::thread::sleep(Duration::from_millis(if waits < 50 { 2 } else { 20 }));
        if waits % 16 == 0 && cpu_of(child.id()) > cpu {
            hung = true;
            let _ = child.kill();
            break child.wait().expect("wait");
        }
    };
    let text = h.join().unwrap_or_default();
    let mut r = OneResult { class: None, msg: String::new(), rec: Vec::new(), trace: Vec::new(), log: String::new() };
    let raw = std::fs::read(&rf).unwrap_or_default();
    r.rec = raw
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]))
        .collect();
    let mut ended = false;
    for l in text.lines() {
        if let Some(t) = l.strip_prefix("T ") {
            r.trace.push(t.into());
        } else if let Some(t) = l.strip_prefix("L ") {
            r.log = t.into();
        } else if let Some(t) = l.strip_prefix("V ") {
            let (c, m) = t.split_once('\x1f').unwrap_or((t, ""));
            r.class = Some(c.into());
            r.msg = m.into();
            ended = true;
        } else if l == "OK" {
            ended = true;
        }
    }
    if hung {
        r.class = Some("hang".into());
        r.msg = format!("no result after {} seconds of processor time", cpu);
    } else if !ended {
        let (c, m) = death(status);
        r.class = Some(c);
        r.msg = m;
    }
    let _ = std::fs::remove_file(&cf);
    let _ = std::fs::remove_file(&rf);
    r
}

fn text_of(l: &[u64]) -> String {
    l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}

// ------------------------------------------------------------------------------------------------
// Minimising

struct Shrinker<'a> {
    prop: &'a Prop,
    dir: String,
    class: String,
    best: Vec<u64>,
    best_res: OneResult,
    tried: u64,
    deadline: f64,
    prelude: Option<String>,
}

impl<'a> Shrinker<'a> {
    fn exhausted(&self) -> bool {
        self.tried >= 600 || real_now() > self.deadline
    }
    /// Tries candidates side by side and takes the first that still shows the violation.
    fn first(&mut self, cands: Vec<Vec<u64>>) -> Option<usize> {
        let mut at = 0;
        while at < cands.len() && !self.exhausted() {
            let part: Vec<(usize, String)> = cands[at..(at + WORKERS as usize).min(cands.len())]
                .iter()
                .enumerate()
                .map(|(k, c)| (at + k, text_of(c)))
                .collect();
            at += part.len();
            self.tried += part.len() as u64;
            let (prop, dir, pre) = (self.prop, self.dir.as_str(), &self.prelude);
            let res: Vec<(usize, OneResult)> = std::thread::scope(|s| {
                let hs: Vec<_> = part
                    .into_iter()
                    .map(|(k, c)| s.spawn(move || (k, run_one(prop, dir, k as u64, &c, pre, 10.0))))
                    .collect();
                hs.into_iter().map(|h| h.join().expect("join")).collect()
            });
            for (k, r) in res {
                if r.class.as_deref() == Some(self.class.as_str()) {
                    let mut rec = r.rec.clone();
                    while rec.last() == Some(&0) {
                        rec.pop();
                    }
                    let cur = (self.best.len(), self.best.iter().fold(0u128, |a, x| a + *x as u128));
                    let new = (rec.len(), rec.iter().fold(0u128, |a, x| a + *x as u128));
                    if new < cur {
                        self.best = rec;
                        self.best_res = r;
                        return Some(k);
                    }
                }
            }
        }
        None
    }
    fn run(&mut self) {
        // Cut the tail off (choices past the end are 0).
        loop {
            let n = self.best.len();
            let c: Vec<Vec<u64>> = (1..8).map(|k| self.best[..n * k / 8].to_vec()).collect();
            if n == 0 || self.first(c).is_none() {
                break;
            }
        }
        loop {
            let before = (self.best.len(), self.best.clone());
            for w in [64usize, 32, 16, 8, 4, 2, 1] {
                let mut at = 0;
                while at < self.best.len() && !self.exhausted() {
                    let b = self.best.clone();
                    let cands: Vec<Vec<u64>> = (0..8)
                        .map(|k| at + k * w)
                        .filter(|p| *p < b.len())
                        .flat_map(|p| {
                            let e = (p + w).min(b.len());
                            let mut del = b[..p].to_vec();
                            del.extend(&b[e..]);
                            let mut zero = b.clone();
                            zero[p..e].iter_mut().for_each(|x| *x = 0);
                            let mut v = vec![del];
                            if zero != b {
                                v.push(zero);
                            }
                            v
                        })
                        .collect();
                    if self.first(cands).is_none() {
                        at += 8 * w;
                    }
                }
            }
            // Lower single choices.
            let mut i = 0;
            while i < self.best.len() && !self.exhausted() {
                let v = self.best[i];
                if v > 1 {
                    let mut cands = Vec::new();
                    for nv in [1, v / 2, v - 1] {
                        if nv < v {
                            let mut c = self.best.clone();
                            c[i] = nv;
                            cands.push(c);
                        }
                    }
                    if self.first(cands).is_some() && self.best.get(i).map_or(false, |x| *x > 1) {
                        continue;
                    }
                }
                i += 1;
            }
            if self.exhausted() || before.1 == self.best {
                break;
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Replay files

fn write_replay(
    prop: &Prop,
    seed: u64,
    index: u64,
    res: &OneResult,
    choices: &str,
    prelude: &Option<String>,
    note: &str,
) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let class = res.class.clone().unwrap_or_default();
    let path = format!("{}/{}-{}-s{}-r{}.replay", dir, prop.id, class, seed, index);
    let mut t = String::new();
    t.push_str("kpsim-replay 1\n");
    t.push_str(&format!("property {}\nclass {}\nfound-by seed {} run {}\n", prop.id, class, seed, index));
    t.push_str(&format!("message {}\n", one_line(&res.msg)));
    t.push_str(&format!("log {}\n", res.log));
    if let Some(p) = prelude {
        t.push_str(&format!("prelude {}\n", p));
    }
    t.push_str(&format!("choices {}\n", choices));
    t.push_str(&format!("# {}\n", note));
    t.push_str("# What happens in this execution:\n");
    for l in &res.trace {
        t.push_str(&format!("#   {}\n", l));
    }
    std::fs::write(&path, t).expect("replay file");
    path
}

pub fn replay(path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            println!("cannot read {}: {}", path, e);
            return 2;
        }
    };
    let get = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix(' ')))
            .map(|s| s.to_string())
    };
    let id = get("property").unwrap_or_default();
    let prop = match props::find(&id) {
        Some(p) => p,
        None => {
            println!("not a replay file: {}", path);
            return 2;
        }
    };
    if let Some(name) = get("probe") {
        return match props::probe_child(prop, &name) {
            None => {
                println!("probe {} is fine", name);
                0
            }
            Some(m) => {
                println!("VIOLATION property={} replay={}", id, path);
                println!("  {}", m);
                1
            }
        };
    }
    let choices = get("choices").unwrap_or_default();
    let prelude = get("prelude");
    let sc = scratch();
    let a = run_one(prop, &sc.0, 1, &choices, &prelude, HANG_CPU);
    let b = run_one(prop, &sc.0, 2, &choices, &prelude, HANG_CPU);
    for l in &a.trace {
        println!("  {}", l);
    }
    if a.class != b.class || a.msg != b.msg || a.log != b.log {
        println!("two executions of {} differ: {:?} {} / {:?} {}", path, a.class, a.msg, b.class, b.msg);
        return 2;
    }
    match a.class {
        None => {
            println!("no violation in this execution");
            0
        }
        Some(c) => {
            println!("class {}: {}", c, a.msg);
            if get("log").map_or(false, |l| l == a.log) {
                println!("the execution is the recorded one, event for event");
            }
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Check

enum Msg {
    Start(u64, u64),
    Viol(u64, u64, String, String),
    Nums(Vec<u128>),
    Count(String, u64),
    Sample(String),
    Sig(u64),
    Done(u64),
    Eof(u64),
}

fn listen(w: u64, child: &mut Child, tx: mpsc::Sender<Msg>) {
    let so = child.stdout.take().unwrap();
    std::thread::spawn(move || {
        for l in BufReader::new(so).lines() {
            let l = match l {
                Ok(l) => l,
                Err(_) => break,
            };
            let (k, r) = l.split_once(' ').unwrap_or((&l, ""));
            let m = match k {
                "S" => Msg::Start(w, r.parse().unwrap_or(0)),
                "V" => {
                    let (i, r) = r.split_once(' ').unwrap_or((r, ""));
                    let (c, m) = r.split_once('\x1f').unwrap_or((r, ""));
                    Msg::Viol(w, i.parse().unwrap_or(0), c.into(), m.into())
                }
                "N" => Msg::Nums(r.split(' ').map(|x| x.parse().unwrap_or(0)).collect()),
                "C" => {
                    let (n, k) = r.split_once(' ').unwrap_or((r, ""));
                    Msg::Count(k.into(), n.parse().unwrap_or(0))
                }
                "M" => Msg::Sample(r.into()),
                "G" => Msg::Sig(r.parse().unwrap_or(0)),
                "D" => Msg::Done(w),
                _ => continue,
            };
            if tx.send(m).is_err() {
                return;
            }
        }
        let _ = tx.send(Msg::Eof(w));
    });
}

#[derive(Default)]
struct Totals {
    runs: u64,
    steps: u128,
    covered: u128,
    counts: BTreeMap<String, u64>,
    sigs: BTreeSet<u64>,
    samples: Vec<String>,
}

pub fn check(id: &str, tier: &str) -> i32 {
    let prop = match props::find(id) {
        Some(p) => p,
        None => {
            println!("unknown property {}", id);
            return 2;
        }
    };
    if let Err(e) = crypt::self_test().and_then(|_| peer::self_test()) {
        println!("the harness is broken: {}", e);
        return 2;
    }
    let start = real_now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let (mut runs, cap) = if tier == "thorough" { (prop.thorough, 780.0) } else { (prop.quick, 150.0) };
    if let Some(n) = std::env::var("KPSIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        runs = n;
    }
    let sc = scratch();
    let mut t = Totals::default();
    let mut violation: Option<(u64, String, String)> = None;

    // Known findings first: each is executed and reported, never assumed.
    let known = props::known_findings(&format!("{}/known_findings.txt", verif_dir()));
    let mut probe_fail: Option<(String, String)> = None;
    let mut probed = Vec::new();
    for (name, what) in prop.probes {
        let r = props::probe_child(prop, name);
        probed.push(format!("{}: {}", name, r.clone().unwrap_or_else(|| "holds".into())));
        if let Some(m) = r {
            if known.iter().any(|k| k.0 == prop.id && k.1 == *name) {
                println!("KNOWN-FINDING: property={} {} ({})", prop.id, what, m);
            } else {
                probe_fail = Some((name.to_string(), format!("{}: {}", what, m)));
            }
        }
    }

    let (tx, rx) = mpsc::channel();
    let mut kids: Vec<Option<Child>> = Vec::new();
    for w in 0..WORKERS {
        let mut c = Command::new(std::env::current_exe().expect("exe"))
            .args(["worker", prop.id, &seed.to_string(), &runs.to_string(), &w.to_string(), &cap.to_string()])
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn");
        listen(w, &mut c, tx.clone());
        kids.push(Some(c));
    }
    drop(tx);
    let mut cur: Vec<(u64, f64)> = vec![(0, 0.0); WORKERS as usize];
    let mut begun = vec![false; WORKERS as usize];
    let mut finished = vec![false; WORKERS as usize];
    let lower = |v: &mut Option<(u64, String, String)>, n: (u64, String, String)| {
        if v.as_ref().map_or(true, |o| n.0 < o.0) {
            *v = Some(n);
        }
    };
    let mut last_look = real_now();
    while kids.iter().any(|k| k.is_some()) {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Start(w, i)) => {
                let pid = kids[w as usize].as_ref().map_or(0, |c| c.id());
                cur[w as usize] = (i, if pid > 0 && real_now() - last_look > 0.0 { -1.0 } else { 0.0 });
                begun[w as usize] = true;
                if violation.as_ref().map_or(false, |v| i > v.0) {
                    if let Some(c) = kids[w as usize].as_mut() {
                        let _ = c.kill();
                        finished[w as usize] = true;
                    }
                }
            }
            Ok(Msg::Viol(_, i, c, m)) => lower(&mut violation, (i, c, m)),
            Ok(Msg::Nums(n)) => {
                t.runs += n[0] as u64;
                t.steps += n[1];
                t.covered += n[2];
            }
            Ok(Msg::Count(k, n)) => *t.counts.entry(k).or_insert(0) += n,
            Ok(Msg::Sample(s)) => t.samples.push(s),
            Ok(Msg::Sig(s)) => {
                t.sigs.insert(s);
            }
            Ok(Msg::Done(w)) => finished[w as usize] = true,
            Ok(Msg::Eof(w)) => {
                if let Some(mut c) = kids[w as usize].take() {
                    let st = c.wait().expect("wait");
                    if !finished[w as usize] {
                        let (class, msg) = if begun[w as usize] {
                            death(st)
                        } else {
                            ("HARNESS".to_string(), format!("worker did not start: {:?}", st))
                        };
                        lower(&mut violation, (cur[w as usize].0, class, msg));
                    }
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(mpsc::RecvTimeoutError::Disconnected) => break,
        }
        if real_now() - last_look > 1.0 {
            last_look = real_now();
            for w in 0..WORKERS as usize {
                if finished[w] || !begun[w] {
                    continue;
                }
                let c = match kids[w].as_mut() {
                    Some(c) => c,
                    None => continue,
                };
                let cpu = cpu_of(c.id());
                if cur[w].1 < 0.0 {
                    cur[w].1 = cpu;
                } else if cpu - cur[w].1 > HANG_CPU && cur[w].1 > 0.0 {
                    let _ = c.kill();
                    finished[w] = true;
                    let m = format!("no result after {} seconds of processor time", HANG_CPU);
                    lower(&mut violation, (cur[w].0, "hang".into(), m));
                }
                if violation.as_ref().map_or(false, |v| cur[w].0 > v.0) {
                    let _ = c.kill();
                    finished[w] = true;
                }
            }
        }
    }
    let search_s = real_now() - start;

    let mut code = 0;
    let mut replay_path = String::new();
    if let Some((i, class, msg)) = violation.clone() {
        if class == "HARNESS" {
            println!("harness error in run {}: {}", i, msg);
            return 2;
        }
        println!("run {} of seed {}: {}: {}", i, seed, class, msg);
        match confirm(prop, &sc.0, seed, i, &class, &msg) {
            Some((path, res, how)) => {
                println!("  minimised: {}: {}", res.class.clone().unwrap_or_default(), res.msg);
                println!("  {}", how);
                for l in res.trace.iter().take(40) {
                    println!("    {}", l);
                }
                println!("VIOLATION property={} replay={}", prop.id, path);
                replay_path = path;
                code = 1;
            }
            None => {
                println!("harness error: the violation did not reproduce");
                return 2;
            }
        }
    } else if let Some((name, m)) = probe_fail {
        let dir = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-probe-{}.replay", dir, prop.id, name);
        let _ = std::fs::write(&path, format!("kpsim-replay 1\nproperty {}\nprobe {}\nmessage {}\n", prop.id, name, m));
        println!("  {}", m);
        println!("VIOLATION property={} replay={}", prop.id, path);
        replay_path = path;
        code = 1;
    }
    write_evidence(prop, tier, seed, &t, search_s, real_now() - start, code, &replay_path, &probed);
    if code == 0 {
        println!(
            "property {} held in {} simulated runs ({} distinct), {:.1} s",
            prop.id,
            t.runs,
            t.sigs.len(),
            search_s
        );
    }
    code
}

/// Reproduces, minimises and confirms a violation; returns the replay file.
fn confirm(prop: &Prop, dir: &str, seed: u64, i: u64, class: &str, msg: &str) -> Option<(String, OneResult, String)> {
    let what = format!("seed {}", run_seed(seed, prop.id, i));
    let mut prelude = None;
    let mut first = run_one(prop, dir, 0, &what, &prelude, HANG_CPU);
    if first.class.as_deref() != Some(class) {
        // It may need what ran before it in the same process.
        let all: Vec<u64> = (0..i / WORKERS).map(|k| i % WORKERS + k * WORKERS).collect();
        let fmt = |l: &[u64]| Some(format!("{}:{}", seed, l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
        let mut k = 1;
        loop {
            let n = k.min(all.len());
            let p = fmt(&all[all.len() - n..]);
            let r = run_one(prop, dir, 0, &what, &p, 600.0);
            if r.class.as_deref() == Some(class) {
                prelude = p;
                first = r;
                break;
            }
            if n == all.len() {
                if class == "hang" || class == "memory" {
                    // These measure the machine as well.
                    return None;
                }
                let how = "not minimised: seen once, but not again in a new process; the code keeps state that the \
                           simulator does not control";
                let res = OneResult {
                    class: Some(class.into()),
                    msg: msg.into(),
                    rec: Vec::new(),
                    trace: r.trace,
                    log: String::new(),
                };
                let path = write_replay(prop, seed, i, &res, &what, &fmt(&all), how);
                return Some((path, res, how.into()));
            }
            k *= 4;
        }
    }
    if class == "hang" && first.msg.contains("processor time") {
        let text = text_of(&first.rec);
        let p = write_replay(prop, seed, i, &first, &text, &prelude, "not minimised: every candidate would hang");
        return Some((p, first, "not minimised".into()));
    }
    let n0 = first.rec.len();
    let mut s = Shrinker {
        prop,
        dir: dir.into(),
        class: class.into(),
        best: first.rec.clone(),
        best_res: first,
        tried: 0,
        deadline: real_now() + 75.0,
        prelude,
    };
    s.run();
    // Confirm what will be reported, twice, in fresh processes.
    let text = text_of(&s.best);
    let a = run_one(prop, dir, 1, &text, &s.prelude, HANG_CPU);
    let b = run_one(prop, dir, 2, &text, &s.prelude, HANG_CPU);
    if a.class.as_deref() != Some(class) || b.class != a.class || a.log != b.log {
        let how = "not minimised: smaller executions do not fail each time; the code keeps state that the simulator \
                   does not control";
        let again = run_one(prop, dir, 3, &what, &s.prelude, 600.0);
        let res = if again.class.as_deref() == Some(class) { again } else { s.best_res };
        let path = write_replay(prop, seed, i, &res, &what, &s.prelude, how);
        return Some((path, res, how.into()));
    }
    let how = format!("minimised from {} to {} choices with {} executions", n0, s.best.len(), s.tried);
    let p = write_replay(prop, seed, i, &a, &text, &s.prelude, &how);
    Some((p, a, how))
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    prop: &Prop,
    tier: &str,
    seed: u64,
    t: &Totals,
    search_s: f64,
    wall: f64,
    code: i32,
    replay: &str,
    probed: &[String],
) {
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let per_hour = if search_s > 0.0 { (t.runs as f64 / search_s * 3600.0) as u64 } else { 0 };
    let mut o = String::from("{\n");
    o.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n", js(prop.id), js(tier), seed));
    o.push_str(" \"level\": \"exploration\",\n \"coverage\": {\n");
    o.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", t.runs, t.sigs.len()));
    o.push_str(&format!(
        "  \"rule\": {},\n",
        js(&format!(
            "{} Distinct: different run signatures (hash of the shape of the content and of the faults, \
             operations, outcomes and schedule switches of the run).",
            prop.rule
        ))
    ));
    o.push_str(&format!("  \"runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n", per_hour, per_hour));
    o.push_str(&format!("  \"simulator_steps\": {},\n", t.steps));
    o.push_str(&format!("  \"simulated_seconds_covered\": {},\n", t.covered / 1_000_000_000));
    o.push_str("  \"injected_and_observed\": {");
    let l: Vec<String> = t.counts.iter().map(|(k, v)| format!("\n   {}: {}", js(k), v)).collect();
    o.push_str(&l.join(","));
    o.push_str("\n  },\n");
    o.push_str(
        "  \"real_components\": [\"rust-kpdb library from /repo's working tree with all of its dependencies (rand, \
         uuid, chrono, xml-rs, flate2, aes, sha2)\", \"std threads and locks\", \"heap allocator\"],\n  \
         \"stub_components\": [\"Read and Write streams\", \"disk with cache, sectors and crashes\", \"getrandom \
         (operating-system entropy)\", \"clock_gettime (wall clock)\", \"thread scheduler (token passing)\", \
         \"peer KDBX 3.1 program (independent implementation)\"],\n",
    );
    if !probed.is_empty() {
        o.push_str(&format!("  \"probes\": [{}],\n", probed.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")));
    }
    if code != 0 {
        o.push_str(&format!("  \"replay\": {},\n", js(replay)));
    }
    let mut smp: Vec<String> = t.samples.iter().take(6).map(|s| js(s)).collect();
    if smp.is_empty() {
        smp.push(js("the search stopped before a sample was recorded"));
    }
    o.push_str(&format!("  \"samples\": [\n   {}\n  ]\n }},\n", smp.join(",\n   ")));
    o.push_str(
        " \"assumptions\": [\"x86_64 Linux\", \"the code under test draws entropy and time through getrandom and \
         clock_gettime\"],\n",
    );
    o.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, code));
    std::fs::write(format!("{}/{}.json", dir, prop.id), o).expect("evidence");
}

// ------------------------------------------------------------------------------------------------
// Self test

/// Executes runs of every scenario twice, in different processes and orders, and compares them.
pub fn selftest() -> i32 {
    if let Err(e) = crypt::self_test().and_then(|_| peer::self_test()) {
        println!("FAIL {}", e);
        return 1;
    }
    println!("reference implementations agree with their test vectors");
    let sc = scratch();
    let mut bad = 0;
    for p in props::PROPS {
        let mut n = 0;
        for i in 0..24u64 {
            let what = format!("seed {}", run_seed(7, p.id, i));
            let a = run_one(p, &sc.0, 1, &what, &None, HANG_CPU);
            let pre = format!("7:{},{}", i + 1, i + 2);
            let b = run_one(p, &sc.0, 2, &what, &Some(pre), HANG_CPU);
            let c = run_one(p, &sc.0, 3, &text_of(&a.rec), &None, HANG_CPU);
            if a.log != b.log || a.log != c.log || a.class != c.class {
                println!("FAIL {} run {}: {} {} {} ({:?} {:?} {:?})", p.id, i, a.log, b.log, c.log, a.class, b.class, c.class);
                bad += 1;
            }
            n += 1;
        }
        // Choices as the minimiser makes them must not make the harness itself fail.
        let base = run_one(p, &sc.0, 1, &format!("seed {}", run_seed(7, p.id, 0)), &None, HANG_CPU).rec;
        let mut r = Prng::new(hash_bytes(p.id.as_bytes()));
        for k in 0..40u64 {
            let mut l = base.clone();
            match k {
                0 => l.clear(),
                1 => l.iter_mut().for_each(|x| *x = 1),
                _ => {
                    let n = l.len() as u64 + 1;
                    for _ in 0..r.below(12) {
                        let a = r.below(n) as usize;
                        let b = (a + r.below(n / 2 + 1) as usize).min(l.len());
                        if a >= b {
                            continue;
                        }
                        match r.below(3) {
                            0 => drop(l.drain(a..b)),
                            1 => l[a..b].iter_mut().for_each(|x| *x = 0),
                            _ => l[a..b].iter_mut().for_each(|x| *x /= 2),
                        }
                    }
                }
            }
            let a = run_one(p, &sc.0, 1, &text_of(&l), &None, HANG_CPU);
            if let Some(c) = a.class {
                println!("FAIL {} with altered choices {}: {}: {}", p.id, k, c, a.msg);
                bad += 1;
            }
        }
        println!("{}: {} runs repeated", p.id, n);
    }
    (bad > 0) as i32
}
