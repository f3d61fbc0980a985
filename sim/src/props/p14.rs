//! P14: operations do not influence each other.

use super::p03::outcome;
use super::p08::secrets;
use super::*;
use crate::gen::{Profile, PEER};
use crate::model::Id;
use kpdb::{KeyFile, KeyFileType};
use std::collections::HashSet;
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "P14",
    scenario: run,
    quick: 20_000,
    thorough: 150_000,
    rule: "One run performs 3 to 20 operations (saves of one or two shared databases, opens of intact and damaged files \
           with right and wrong credentials, key-file generation, saving and opening, creations) on one to six \
           threads; streams may split, interrupt, fail, panic or perform another operation themselves; a scheduler switches threads at drawn reads, writes, \
           entropy draws, clock readings, allocations and lock waits, in some runs also at edges between basic blocks \
           and at accesses to statics inside the library. Every outcome is compared with that of the \
           operation alone, every file checked by the peer, all secrets and identifiers for reuse; in a quarter of \
           the runs the operations run one after another on one thread, with failures of the entropy source among \
           them; some saves meet content that cannot be stored. Non-trivial: a switch between threads happened inside operations, or an operation failed or \
           panicked before others ran.",
    probes: &[],
};

struct Item {
    m: MDb,
    cred: Cred,
    db: Arc<Database>,
    files: Vec<Arc<Vec<u8>>>,
}

enum Op {
    Save { item: usize, db: Arc<Database>, plan: Plan },
    SavePanic { db: Arc<Database>, at: usize },
    Open { file: Arc<Vec<u8>>, key: CompositeKey, plan: Plan, alone: Result<MDb, String> },
    SaveRefused { db: Arc<Database> },
    OpenPanic { file: Arc<Vec<u8>>, key: CompositeKey, at: usize },
    KfNew(u64),
    KfSave { key: Vec<u8>, ty: KeyFileType, plan: Plan },
    KfOpen { bytes: Vec<u8>, want: Option<Vec<u8>>, plan: Plan },
    Create,
    Compose { cred: Cred },
    EntropyFails { db: Arc<Database>, at: u64 },
    /// A save or open whose stream performs another operation itself, at one of its calls.
    Within { outer: Box<Op>, inner: Box<Op>, at: u64 },
}

enum Out {
    Saved(Result<(), Error>, Vec<u8>, bool),
    Opened(Result<Database, Error>, bool),
    Key(Result<KeyFile, Error>, bool),
    KfSaved(Result<(), Error>, Vec<u8>, bool),
    Ids(Vec<Id>),
    Raw([u8; 32]),
    Meant,
    Both(Box<Out>, Option<Box<Out>>),
    Panicked(String),
}

/// A stream that performs an operation at one of its calls.
struct Nest<'a, T> {
    inner: T,
    left: u64,
    op: &'a Op,
    out: Option<Box<Out>>,
}

impl<'a, T> Nest<'a, T> {
    fn call(&mut self) {
        if self.left == 0 && self.out.is_none() {
            self.out = Some(Box::new(perform(self.op)));
        }
        self.left = self.left.saturating_sub(1);
    }
}

impl<'a, W: Write> Write for Nest<'a, W> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.call();
        self.inner.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.inner.flush()
    }
}

impl<'a, R: Read> Read for Nest<'a, R> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.call();
        self.inner.read(b)
    }
}

struct Bomb<T> {
    inner: T,
    left: usize,
}

impl<W: Write> Write for Bomb<W> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            std::panic::panic_any("the sink panics");
        }
        let n = b.len().min(self.left);
        self.left -= n;
        self.inner.write(&b[..n])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.inner.flush()
    }
}

impl<R: Read> Read for Bomb<R> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            std::panic::panic_any("the reader panics");
        }
        let n = b.len().min(self.left);
        let n = self.inner.read(&mut b[..n])?;
        self.left -= n;
        Ok(n)
    }
}

fn perform(op: &Op) -> Out {
    let r = guard(|| match op {
        Op::Save { db, plan, .. } => {
            let mut w = SimWriter::new(plan);
            let r = kpcalls::save(db, &mut w);
            let fired = w.fired();
            Out::Saved(r, w.out, fired)
        }
        Op::SavePanic { db, at } => {
            let mut w = Bomb { inner: SimWriter::new(&CLEAN), left: *at };
            let _ = guard(|| kpcalls::save(db, &mut w).is_ok());
            Out::Meant
        }
        Op::SaveRefused { db } => {
            let _ = guard(|| kpcalls::save(db, &mut SimWriter::new(&CLEAN)).is_ok());
            Out::Meant
        }
        Op::Open { file, key, plan, .. } => {
            let mut r = SimReader::new(file, plan);
            let got = kpcalls::open(&mut r, key);
            Out::Opened(got, r.fired())
        }
        Op::OpenPanic { file, key, at } => {
            let mut r = Bomb { inner: SimReader::new(file, &CLEAN), left: *at };
            let _ = guard(|| kpcalls::open(&mut r, key).is_ok());
            Out::Meant
        }
        Op::KfNew(k) => Out::Key(
            match k {
                0 => KeyFile::new_binary(),
                1 => KeyFile::new_hex(),
                _ => KeyFile::new_xml(),
            },
            false,
        ),
        Op::KfSave { key, ty, plan } => {
            let mut w = SimWriter::new(plan);
            let k = KeyFile { key: secstr::SecStr::new(key.clone()), file_type: ty.clone() };
            let r = kpcalls::save_key_file(&k, &mut w);
            let fired = w.fired();
            Out::KfSaved(r, w.out, fired)
        }
        Op::KfOpen { bytes, plan, .. } => {
            let mut r = SimReader::new(bytes, plan);
            let k = kpcalls::open_key_file(&mut r);
            Out::Key(k, r.fired())
        }
        Op::Create => {
            let mut v = Vec::new();
            for _ in 0..3 {
                v.push(*kpdb::Entry::new().uuid.0.as_bytes());
                v.push(*kpcalls::new_group("g").uuid.0.as_bytes());
            }
            let key = kpcalls::from_password("x");
            v.push(*Database::new(&key).root_group.uuid.0.as_bytes());
            Out::Ids(v)
        }
        Op::Compose { cred } => Out::Raw(cred.lib().unsecure()),
        Op::Within { outer, inner, at } => {
            let (mut left, op) = (*at, &**inner);
            match &**outer {
                Op::Save { db, plan, .. } => {
                    // Saving writes many short header fields and then the rest.
                    if left >= 40 {
                        left = left % 40;
                    }
                    let mut w = Nest { inner: SimWriter::new(plan), left, op, out: None };
                    let r = kpcalls::save(db, &mut w);
                    let fired = w.inner.fired();
                    Out::Both(Box::new(Out::Saved(r, w.inner.out, fired)), w.out)
                }
                Op::Open { file, key, plan, .. } => {
                    let mut r = Nest { inner: SimReader::new(file, plan), left, op, out: None };
                    let got = kpcalls::open(&mut r, key);
                    let fired = r.inner.fired();
                    Out::Both(Box::new(Out::Opened(got, fired)), r.out)
                }
                _ => Out::Meant,
            }
        }
        Op::EntropyFails { db, at } => {
            let pl = &mut ctx().ent_plan;
            pl.calls = 0;
            pl.fail_errno = libc::EIO;
            pl.fail_call = Some(*at);
            let _ = guard(|| kpcalls::save(db, &mut SimWriter::new(&CLEAN)).is_ok());
            ctx().ent_plan.fail_call = None;
            Out::Meant
        }
    });
    match r {
        Ok(o) => o,
        Err(m) => Out::Panicked(m),
    }
}

fn item(p: &Profile, cred: Cred) -> Result<Item, Violation> {
    let m = gen::db(p).normal();
    let db = m.to(&cred.lib());
    let mut files = vec![Arc::new(save_ok(&db)?)];
    let mut st = peer::Style::new(true, seed_draw());
    files.push(Arc::new(peer::encode(&m, &cred.raw(), &mut st, &mut Prng::new(seed_draw()))));
    let mut bad = files[0].to_vec();
    damage::mutate(&mut bad, &files[1]);
    damage::clamp_rounds(&mut bad);
    files.push(Arc::new(bad));
    Ok(Item { m, cred, db: Arc::new(db), files })
}

fn stream(len: u64, write: bool) -> Plan {
    let mut plan = if draw(2) == 0 { CLEAN } else { transparent() };
    if chance(1, 4) {
        plan.fault = if write {
            super::p02::write_fault(len)
        } else {
            Fault::Error { at: draw(len + 1), kind: *pick(&KINDS), once: false }
        };
    }
    plan
}

fn op(items: &[Item], alone: bool) -> Result<Op, Violation> {
    if draw(12) == 11 {
        let mut outer = simple_op(items, alone)?;
        if !matches!(outer, Op::Save { .. } | Op::Open { .. }) {
            let it = pick(items);
            let i = items.iter().position(|x| Arc::ptr_eq(&x.db, &it.db)).expect("item");
            outer = Op::Save { item: i, db: it.db.clone(), plan: CLEAN };
        }
        let inner = Box::new(simple_op(items, alone)?);
        return Ok(Op::Within { outer: Box::new(outer), inner, at: draw(80) });
    }
    simple_op(items, alone)
}

fn simple_op(items: &[Item], alone: bool) -> Result<Op, Violation> {
    let i = draw(items.len() as u64) as usize;
    let it = &items[i];
    Ok(match draw(17) {
        0..=4 => Op::Save { item: i, db: it.db.clone(), plan: stream(it.files[0].len() as u64, true) },
        5..=8 => {
            let file = pick(&it.files).clone();
            let key = if draw(4) == 3 { items[draw(items.len() as u64) as usize].cred.lib() } else { it.cred.lib() };
            let plan = stream(file.len() as u64, false);
            let r = open_bytes(&file, &key)?;
            Op::Open { alone: outcome(&r), file, key, plan }
        }
        9 => Op::KfNew(draw(3)),
        10 => {
            let ty = pick(&[KeyFileType::Xml, KeyFileType::Hex, KeyFileType::Binary]).clone();
            Op::KfSave { key: gen::bytes(32), ty, plan: stream(200, true) }
        }
        11 => {
            let key = gen::bytes(32);
            let mut st = peer::Style::new(true, seed_draw());
            let mut bytes = match draw(3) {
                0 => peer::encode_key_file(&key, &mut st).into_bytes(),
                1 => crate::crypt::hex(&key).into_bytes(),
                _ => key.clone(),
            };
            let mut want = Some(key);
            if draw(4) == 3 {
                bytes.truncate(31);
                want = None;
            }
            Op::KfOpen { plan: stream(bytes.len() as u64, false), bytes, want }
        }
        12 => Op::Create,
        13 => Op::Compose { cred: gen::cred() },
        14 => Op::SavePanic { db: it.db.clone(), at: draw(it.files[0].len() as u64) as usize },
        15 => {
            let mut db = it.m.to(&it.cred.lib());
            super::p01::plant(&mut db);
            Op::SaveRefused { db: Arc::new(db) }
        }
        _ if alone => Op::EntropyFails { db: it.db.clone(), at: draw(12) },
        _ => {
            let file = pick(&it.files).clone();
            Op::OpenPanic { at: draw(file.len() as u64) as usize, file, key: it.cred.lib() }
        }
    })
}

#[derive(Default)]
struct Fresh {
    windows: HashSet<[u8; 8]>,
}

impl Fresh {
    fn add(&mut self, what: &str, v: &[u8]) -> Res {
        for w in v.windows(8) {
            let mut k = [0; 8];
            k.copy_from_slice(w);
            if !self.windows.insert(k) {
                return fail("shared-secret", format!("part of the {} was used before", what));
            }
        }
        Ok(())
    }
}

fn judge(items: &[Item], op: &Op, out: Out, fresh: &mut Fresh) -> Res {
    if let Out::Panicked(ref m) = out {
        return fail("panic", format!("an operation panicked: {}", m));
    }
    match (op, out) {
        (Op::Within { outer, inner, .. }, Out::Both(a, b)) => {
            if let Some(b) = b {
                count("operation_within_an_operation");
                judge(items, inner, *b, fresh)?;
            }
            judge(items, outer, *a, fresh)?;
        }
        (Op::Save { item, plan, .. }, Out::Saved(r, bytes, fired)) => {
            let it = &items[*item];
            match r {
                Ok(()) => {
                    if fired {
                        return fail("false-success", format!("a save succeeded on {}", plan.describe()));
                    }
                    let d = super::p10::peer_reads(&bytes, &it.cred.raw(), &it.m)?;
                    drop(d);
                    open_same(&bytes, &it.cred.lib(), &it.m, "incomplete")?;
                    for (k, v) in secrets(&bytes)?.iter().enumerate() {
                        fresh.add(["master seed", "transform seed", "IV", "stream key", "start bytes"][k], v)?;
                    }
                    count("save_judged");
                }
                Err(e) => {
                    if !fired {
                        return fail("influence", format!("a save failed that alone succeeds: {} on {}", e, plan.describe()));
                    }
                    if let Some(x) = super::p02::wrong_error(&plan.fault, &e) {
                        return fail("influence", x);
                    }
                }
            }
        }
        (Op::Open { alone, plan, .. }, Out::Opened(r, fired)) => {
            if fired {
                match r {
                    Ok(_) => return fail("false-success", format!("an open succeeded on {}", plan.describe())),
                    Err(e) => {
                        if let Some(x) = super::p02::wrong_error(&plan.fault, &e) {
                            return fail("influence", x);
                        }
                    }
                }
            } else {
                let got = outcome(&r);
                let same = match (alone, &got) {
                    (Ok(a), Ok(b)) => model::diff(a, b).is_none(),
                    (Err(a), Err(b)) => a == b,
                    _ => false,
                };
                if !same {
                    return fail(
                        "influence",
                        format!(
                            "an open gives {} where alone it gives {}",
                            got.map_or_else(|e| e, |_| "other content".into()),
                            alone.as_ref().map_or_else(|e| e.clone(), |_| "the content".into())
                        ),
                    );
                }
                count("open_judged");
            }
        }
        (Op::KfNew(_), Out::Key(r, _)) => match r {
            Ok(k) => fresh.add("key of a key file", k.key.unsecure())?,
            Err(e) => return fail("influence", format!("no key file could be made: {}", e)),
        },
        (Op::KfSave { key, plan, .. }, Out::KfSaved(r, bytes, fired)) => match r {
            Ok(()) if fired => return fail("false-success", format!("a key file was saved on {}", plan.describe())),
            Ok(()) => match peer::decode_key_file(&bytes) {
                Ok((k, _)) if k == *key => {}
                _ => return fail("influence", "a saved key file holds another key"),
            },
            Err(e) if !fired => return fail("influence", format!("a key file was not saved: {}", e)),
            Err(_) => {}
        },
        (Op::KfOpen { want, plan, .. }, Out::Key(r, fired)) => match (r, fired, want) {
            (Ok(_), true, _) => return fail("false-success", format!("a key file opened on {}", plan.describe())),
            (Ok(k), _, Some(w)) if k.key.unsecure() == &w[..] => {}
            (Err(_), false, None) | (Err(_), true, _) => {}
            (r, _, _) => {
                return fail("influence", format!("a key file opens as {:?}", r.map(|k| crate::crypt::hex(k.key.unsecure()))))
            }
        },
        (Op::Create, Out::Ids(v)) => {
            for id in v {
                fresh.add("identifier", &id)?;
            }
        }
        (Op::Compose { cred }, Out::Raw(r)) => {
            if r != cred.raw() {
                return fail("influence", "credentials were composed to another key");
            }
        }
        (_, Out::Meant) => count("panic_refusal_or_entropy_failure_in_operation"),
        _ => return fail("HARNESS", "operation and outcome do not match"),
    }
    Ok(())
}

fn run() -> Res {
    weather();
    let sequential = draw(4) == 3;
    let p = Profile { size: *pick(&[0u64, 1, 1]), depth: 1, max_rounds: 4, ..PEER };
    let mut items = Vec::new();
    for i in 0..1 + draw(2) {
        let cred = if i == 1 && draw(2) == 0 {
            // The same password with a key file beside it.
            match items.first().map(|x: &Item| x.cred.clone()) {
                Some(Cred::Pw(p)) => Cred::Both(p, vec![1; 32]),
                _ => gen::cred(),
            }
        } else {
            gen::cred()
        };
        items.push(item(&p, cred)?);
    }
    let mut fresh = Fresh::default();
    let threads = if sequential { 1 } else { 2 + draw(5) };
    let mut jobs: Vec<Vec<Op>> = Vec::new();
    for _ in 0..threads {
        let mut list = Vec::new();
        for _ in 0..(if sequential { 3 + draw(12) } else { 1 + draw(4) }) {
            list.push(op(&items, sequential)?);
        }
        jobs.push(list);
    }
    let jobs = Arc::new(jobs);
    let mut results: Vec<Vec<Out>> = Vec::new();
    if sequential {
        results.push(jobs[0].iter().map(perform).collect());
        judged();
        note(format!("{} operations one after another", jobs[0].len()));
    } else {
        {
            let s = &mut ctx().sched;
            s.rng = Prng::new(seed_draw());
            let fine = draw(4);
            s.alloc_points = fine >= 2;
            s.edges = fine == 3;
            let p = *pick(&[0u64, 65536, 20_000, 3000, 500]);
            s.p = if s.alloc_points { p / 64 } else { p };
            if s.edges {
                s.p_rare = *pick(&[0u64, 200, 2000, 8000]);
                s.p_edge = *pick(&[0u64, 0, 1, 20]);
                s.p_static = *pick(&[30_000u64, 8000, 65536]);
            }
            s.freeze = draw(2) == 1;
            let n = draw(6);
            let mut pts = Vec::new();
            for _ in 0..n {
                let k = 4 + draw(if s.edges { 19 } else { 12 });
                pts.push(1 + draw(1 << k));
            }
            pts.sort();
            s.points = pts;
        }
        let bodies: Vec<Box<dyn FnOnce() -> Vec<Out> + Send>> = (0..jobs.len())
            .map(|i| {
                let jobs = jobs.clone();
                Box::new(move || jobs[i].iter().map(perform).collect()) as Box<dyn FnOnce() -> Vec<Out> + Send>
            })
            .collect();
        for r in run_threads(bodies) {
            match r {
                Ok(v) => results.push(v),
                Err(e) => return fail("HARNESS", format!("a thread died: {}", panic_text(&e))),
            }
        }
        let s = &ctx().sched;
        let n = s.switches;
        if n > 0 {
            judged();
        }
        count_n("thread_switch", n);
        if s.edges {
            count("runs_preempting_at_any_edge");
            count_n("distinct_edges_passed", s.edges_seen);
        }
        note(format!(
            "{} threads, {} operations, {} switches, first at {:?}",
            threads,
            jobs.iter().map(|j| j.len()).sum::<usize>(),
            n,
            s.trace.iter().take(6).collect::<Vec<_>>()
        ));
    }
    for (list, outs) in jobs.iter().zip(results) {
        for (op, out) in list.iter().zip(outs) {
            sig("op", hash_bytes(format!("{:?}", std::mem::discriminant(op)).as_bytes()));
            judge(&items, op, out, &mut fresh)?;
        }
    }
    // Nothing happened to the shared databases.
    for it in &items {
        same(&it.m, &it.db, "shared-database-changed")?;
        let file = save_ok(&it.db)?;
        open_same(&file, &it.cred.lib(), &it.m, "afterwards")?;
    }
    Ok(())
}
