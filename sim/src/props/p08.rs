//! P08: every save and every generated key uses fresh operating-system entropy.

use super::*;
use crate::gen::{Profile, PEER};
use std::collections::HashMap;

pub const PROP: Prop = Prop {
    id: "P08",
    scenario: run,
    quick: 9_000,
    thorough: 150_000,
    rule: "One run performs several hundred saves (of new, edited, cloned and reopened databases, also failing ones), \
           key-file generations and creations of entries and groups against a simulated entropy source that may \
           deliver short and interrupted reads; every bit and byte of every secret field is tallied, no 8-byte window \
           may recur anywhere, the entropy delivered during each operation is metered, the same operation is repeated \
           under the same clock and hash keys but other entropy, and the source fails hard at a drawn call. \
           Non-trivial: at least 64 operations were tallied or a hard failure was met.",
    probes: &[],
};

/// Values of one kind, tallied by bit and by byte.
struct Tally {
    name: &'static str,
    ones: Vec<u32>,
    bytes: Vec<u32>,
    n: u32,
}

impl Tally {
    fn new(name: &'static str, len: usize) -> Tally {
        Tally { name, ones: vec![0; len * 8], bytes: vec![0; 256], n: 0 }
    }
    fn add(&mut self, v: &[u8]) {
        self.n += 1;
        for (i, b) in v.iter().enumerate() {
            self.bytes[*b as usize] += 1;
            for k in 0..8 {
                self.ones[i * 8 + k] += (b >> k & 1) as u32;
            }
        }
    }
    /// `fixed` lists the bits that are not random.
    fn check(&self, fixed: &dyn Fn(usize) -> bool) -> Res {
        if self.n < 64 {
            return Ok(());
        }
        let n = self.n as f64;
        for (i, &c) in self.ones.iter().enumerate() {
            if fixed(i) {
                continue;
            }
            if c == 0 || c == self.n {
                return fail(
                    "constant-bit",
                    format!("bit {} of byte {} of the {} was the same {} times", i % 8, i / 8, self.name, self.n),
                );
            }
            // Nine standard deviations.
            if (c as f64 - n / 2.0).abs() > 4.5 * n.sqrt() {
                return fail(
                    "biased-bit",
                    format!("bit {} of byte {} of the {} was set {} of {} times", i % 8, i / 8, self.name, c, self.n),
                );
            }
        }
        let total = n * (self.ones.len() / 8) as f64;
        if total >= 8000.0 && self.ones.len() != 128 {
            let mean = total / 256.0;
            for (v, &c) in self.bytes.iter().enumerate() {
                if c == 0 || c as f64 > mean + 9.0 * mean.sqrt() + 20.0 {
                    return fail(
                        "biased-byte",
                        format!("byte value {} occurred {} times among {} bytes of the {}", v, c, total, self.name),
                    );
                }
            }
        }
        Ok(())
    }
}

/// Every 8-byte window seen in a secret, and where.
struct Windows {
    seen: HashMap<[u8; 8], (u32, u8, u8)>,
}

impl Windows {
    fn add(&mut self, op: u32, field: u8, v: &[u8]) -> Res {
        for (i, w) in v.windows(8).enumerate() {
            let mut k = [0; 8];
            k.copy_from_slice(w);
            if let Some(&(o, f, j)) = self.seen.get(&k) {
                return fail(
                    "recurs",
                    format!(
                        "8 bytes of {} (at {}, operation {}) recur in {} (at {}, operation {})",
                        NAMES[f as usize], j, o, NAMES[field as usize], i, op
                    ),
                );
            }
            self.seen.insert(k, (op, field, i as u8));
        }
        Ok(())
    }
}

const NAMES: [&str; 9] = [
    "the master seed",
    "the transform seed",
    "the initialisation vector",
    "the inner stream key",
    "the start bytes",
    "a key file",
    "an entry's identifier",
    "a group's identifier",
    "an icon's identifier",
];
const FIELDS: [(u8, usize); 5] = [(4, 32), (5, 32), (7, 16), (8, 32), (9, 32)];

/// The five secrets of a save.
pub fn secrets(file: &[u8]) -> Result<Vec<Vec<u8>>, Violation> {
    let (h, _) = match peer::Hdr::parse(file) {
        Ok(h) => h,
        Err(e) => return fail("header", format!("the header of a save cannot be read: {}", e)),
    };
    let mut out = Vec::new();
    for (id, len) in FIELDS {
        match h.get(id) {
            Ok(v) if v.len() == len => out.push(v.to_vec()),
            Ok(v) => return fail("short-field", format!("header field {} has {} bytes", id, v.len())),
            Err(e) => return fail("header", e),
        }
    }
    Ok(out)
}

/// The secrets of a header that was written in part.
fn partial(file: &[u8]) -> Vec<(u8, Vec<u8>)> {
    let mut out = Vec::new();
    let mut i = 12;
    while i + 3 <= file.len() {
        let id = file[i];
        let n = u16::from_le_bytes([file[i + 1], file[i + 2]]) as usize;
        i += 3;
        if i + n > file.len() || id == 0 {
            break;
        }
        if let Some(k) = FIELDS.iter().position(|f| f.0 == id) {
            out.push((k as u8, file[i..i + n].to_vec()));
        }
        i += n;
    }
    out
}

/// The entropy delivered while `f` ran.
fn drawn<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let a = ctx().ent_bytes;
    let r = f();
    (r, ctx().ent_bytes - a)
}

fn meter(what: &str, got: u64, need: u64) -> Res {
    if got < need {
        return fail("little-entropy", format!("{} drew {} bytes of entropy where it takes {}", what, got, need));
    }
    Ok(())
}

fn key_file() -> Result<(Vec<u8>, &'static str), Violation> {
    let (r, name) = match draw(4) {
        0 => (guard(kpdb::KeyFile::new_binary), "new_binary"),
        1 => (guard(kpdb::KeyFile::new_hex), "new_hex"),
        2 => (guard(kpdb::KeyFile::new_xml), "new_xml"),
        _ => (guard(kpdb::KeyFile::new), "new"),
    };
    match panic_to(name, r)? {
        Ok(k) => Ok((k.key.unsecure().to_vec(), name)),
        Err(e) => fail("key-file", format!("{} failed: {}", name, e)),
    }
}

fn run() -> Res {
    weather();
    if draw(3) == 2 {
        return failing();
    }
    let size = *pick(&[0u64, 0, 1]);
    let p = Profile { size, depth: 1, ..PEER };
    let cred = gen::cred();
    let key = cred.lib();
    let mut m = gen::db(&p).normal();
    m.rounds = 1;
    let mut db = m.to(&key);
    let mut win = Windows { seen: HashMap::new() };
    let mut tally: Vec<Tally> = vec![
        Tally::new("master seed", 32),
        Tally::new("transform seed", 32),
        Tally::new("initialisation vector", 16),
        Tally::new("inner stream key", 32),
        Tally::new("start bytes", 32),
        Tally::new("generated key", 32),
        Tally::new("entry identifier", 16),
        Tally::new("group identifier", 16),
        Tally::new("icon identifier", 16),
    ];
    let n = *pick(&[400u32, 8, 80]);
    note(format!("{} operations", n));
    for op in 0..n {
        let kind = if op < 3 { 0 } else { ctx_op() };
        sig("op", kind);
        match kind {
            0 => {
                let (file, got) = drawn(|| save_ok(&db));
                let file = file?;
                for (k, v) in secrets(&file)?.iter().enumerate() {
                    win.add(op, k as u8, v)?;
                    tally[k].add(v);
                }
                meter("a save", got, 144)?;
                count("save_tallied");
                if draw(30) == 29 {
                    db = open_same(&file, &key, &m, "reopen")?;
                }
            }
            1 => {
                // A failing save uses up its secrets too.
                let mut plan = CLEAN;
                plan.fault = Fault::Error { at: draw(330), kind: ErrorKind::Other, once: false };
                let mut w = SimWriter::new(&plan);
                let _ = save_to(&db, &mut w)?;
                for (k, v) in partial(&w.out) {
                    win.add(op, k, &v)?;
                }
                count("failed_save_tallied");
            }
            2 => {
                let ((r, got), name) = {
                    let (r, got) = drawn(key_file);
                    let (k, name) = r?;
                    ((k, got), name)
                };
                if r.len() != 32 {
                    return fail("key-file", format!("{} made a key of {} bytes", name, r.len()));
                }
                win.add(op, 5, &r)?;
                tally[5].add(&r);
                meter(name, got, 32)?;
                count("key_file_tallied");
            }
            3 => {
                for _ in 0..4 {
                    let (u, got) = drawn(|| guard(kpdb::Entry::new));
                    let u = *panic_to("Entry::new", u)?.uuid.0.as_bytes();
                    win.add(op, 6, &u)?;
                    tally[6].add(&u);
                    meter("a new entry", got, 16)?;
                }
            }
            4 => {
                for _ in 0..4 {
                    let (u, got) = drawn(|| guard(|| kpdb::Group::new("g")));
                    let u = *panic_to("Group::new", u)?.uuid.0.as_bytes();
                    win.add(op, 7, &u)?;
                    tally[7].add(&u);
                    meter("a new group", got, 16)?;
                }
            }
            5 => {
                let d = panic_to("Database::new", guard(|| Database::new(&key)))?;
                let u = *d.root_group.uuid.0.as_bytes();
                win.add(op, 7, &u)?;
                tally[7].add(&u);
                let (u, v) = panic_to(
                    "new_random",
                    guard(|| (kpdb::EntryUuid::new_random(), kpdb::GroupUuid::new_random())),
                )?;
                win.add(op, 6, u.0.as_bytes())?;
                tally[6].add(u.0.as_bytes());
                win.add(op, 7, v.0.as_bytes())?;
                tally[7].add(v.0.as_bytes());
                let c = panic_to("new_random", guard(kpdb::CustomIconUuid::new_random))?;
                win.add(op, 8, c.0.as_bytes())?;
                tally[8].add(c.0.as_bytes());
            }
            6 => {
                // Same clock, same hash keys, same database, other entropy.
                let hash = ctx().hash.clone();
                let (s, ns) = (ctx().clock.secs, ctx().clock.nanos);
                let a = save_ok(&db)?;
                ctx().hash = hash;
                ctx().clock.secs = s;
                ctx().clock.nanos = ns;
                let b = save_ok(&db.clone())?;
                for (k, (x, y)) in secrets(&a)?.iter().zip(secrets(&b)?).enumerate() {
                    win.add(op, k as u8, x)?;
                    win.add(op, k as u8, &y)?;
                }
                count("save_repeated_with_other_entropy");
            }
            _ => {
                db = db.clone();
                m.name = gen::text();
                m = m.normal();
                db.name = m.name.clone();
                if draw(4) == 0 {
                    time_passes();
                }
            }
        }
    }
    for (i, t) in tally.iter().enumerate() {
        // Version and variant of a random identifier are fixed.
        t.check(&|b| i >= 6 && (b / 8 == 6 && b % 8 >= 4 || b / 8 == 8 && b % 8 >= 6))?;
    }
    sig("ops", n as u64);
    if n >= 64 {
        judged();
    }
    // Entropy of another stream gives other secrets although everything else is the same.
    let (a, b) = (under_stream(&db, 1)?, under_stream(&db, 2)?);
    let mut w = Windows { seen: HashMap::new() };
    for (k, v) in a.iter().enumerate() {
        w.add(1, k as u8, v)?;
    }
    for (k, v) in b.iter().enumerate() {
        w.add(2, k as u8, v)?;
    }
    Ok(())
}

fn ctx_op() -> u64 {
    [0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 2, 3, 4, 5, 6, 7][draw(16) as usize]
}

/// The secrets of a save made on a thread of its own under this entropy stream, with clock and
/// hash keys set to the same state.
fn under_stream(db: &Database, stream: u64) -> Result<Vec<Vec<u8>>, Violation> {
    let c = ctx();
    c.ent = Prng::new(stream ^ 0x5eed);
    c.hash = Prng::new(77);
    c.ent_plan.rng = Prng::new(78);
    c.clock.secs = 1_700_000_000;
    c.clock.nanos = 5;
    c.clock.jumps.clear();
    let db = db.clone();
    let body: Box<dyn FnOnce() -> Result<Vec<u8>, Violation> + Send> = Box::new(move || save_ok(&db));
    match run_threads(vec![body]).pop() {
        Some(Ok(r)) => secrets(&r?),
        _ => fail("panic", "a save on another thread panicked"),
    }
}

/// The entropy source fails hard at some call.
fn failing() -> Res {
    let p = Profile { size: 0, depth: 0, ..PEER };
    let cred = gen::cred();
    let key = cred.lib();
    let m = gen::db(&p).normal();
    let db = m.to(&key);
    for _ in 0..1 + draw(4) {
        {
            let pl = &mut ctx().ent_plan;
            pl.calls = 0;
            pl.failed = false;
        }
        let at = draw(12);
        let errno = *pick(&[libc::EIO, libc::EFAULT, libc::EINVAL]);
        ctx().ent_plan.fail_errno = errno;
        ctx().ent_plan.fail_call = Some(at);
        let what = draw(6);
        let mut out = Vec::new();
        let ok = match what {
            0 | 1 => {
                let mut w = SimWriter::new(&CLEAN);
                let r = guard(|| db.save(&mut w).is_ok());
                out = w.out;
                r
            }
            2 => guard(|| kpdb::KeyFile::new_binary().is_ok()),
            3 => guard(|| kpdb::KeyFile::new_xml().is_ok() && kpdb::KeyFile::new_hex().is_ok()),
            4 => guard(|| {
                for _ in 0..=at {
                    let _ = kpdb::Entry::new();
                }
                true
            }),
            _ => guard(|| {
                for _ in 0..=at {
                    let _ = kpdb::Group::new("g");
                }
                true
            }),
        };
        let failed = ctx().ent_plan.failed;
        ctx().ent_plan.fail_call = None;
        note(format!(
            "operation {} with the entropy source failing after {} calls: {}",
            what,
            at,
            match ok {
                Ok(true) => "succeeds",
                Ok(false) => "fails",
                Err(_) => "panics",
            }
        ));
        sig("fail", mix(what ^ at << 8 ^ (failed as u64) << 16));
        if failed {
            judged();
            if let Ok(true) = ok {
                return fail("succeeds-without-entropy", format!("operation {} succeeded without entropy", what));
            }
            // What reached the sink before is no file.
            if !out.is_empty() && open_bytes(&out, &key)?.is_ok() {
                return fail("succeeds-without-entropy", "a complete file was written without entropy");
            }
        } else if !matches!(ok, Ok(true)) {
            return fail("false-failure", format!("operation {} failed although the source worked", what));
        }
        // The source works again, and so does everything else.
        let (file, got) = drawn(|| save_ok(&db));
        let file = file?;
        meter("a save after a failure", got, 144)?;
        open_same(&file, &key, &m, "after-failure")?;
        let mut w = Windows { seen: HashMap::new() };
        for (k, v) in secrets(&file)?.iter().enumerate() {
            w.add(0, k as u8, v)?;
        }
    }
    Ok(())
}
