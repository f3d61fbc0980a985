//! P02: save reports success only when the sink accepted the complete file.

use super::*;
use crate::gen::{Profile, PEER};

pub const PROP: Prop = Prop {
    id: "P02",
    scenario: run,
    quick: 20_000,
    thorough: 200_000,
    rule: "One run builds a random database and saves it to one to five simulated sinks, each with its own way of \
           splitting writes, interrupting them and failing (an error of one of 13 kinds at any offset, once or for \
           ever; a write of zero bytes; a full disk), with offsets biased to the header and the end of the file; a \
           healthy sink comes last. Non-trivial: a fault fired, or a transfer was split or interrupted.",
    probes: &[],
};

/// An offset into something of this length, sometimes a little beyond it.
pub fn offset(len: u64) -> u64 {
    match draw(5) {
        0 | 1 => draw(len.min(320) + 1),
        2 => len - draw(len.min(70) + 1),
        3 => draw(len + 1),
        _ => len + draw(60),
    }
}

pub fn write_fault(len: u64) -> Fault {
    let at = offset(len);
    match draw(6) {
        0 => Fault::None,
        1 | 2 => Fault::Error { at, kind: *pick(&KINDS), once: false },
        3 => Fault::Error { at, kind: *pick(&KINDS), once: true },
        4 => Fault::Zero { at },
        _ => Fault::Full { at },
    }
}

/// What a call that met this fault has to return: `None` if the error is right.
pub fn wrong_error(f: &Fault, e: &Error) -> Option<String> {
    let ok = match *f {
        Fault::Error { kind, .. } => is_io(e, kind),
        Fault::Full { .. } => is_io(e, ErrorKind::StorageFull),
        Fault::Zero { .. } => matches!(e, Error::Io(_)),
        Fault::None => false,
    };
    if ok {
        None
    } else {
        Some(format!("the stream failed with {:?} and the call returned {:?}", f, e))
    }
}

fn run() -> Res {
    weather();
    let size = *pick(&[0u64, 1, 1, 2]);
    let p = Profile { size, depth: 2, ..PEER };
    let cred = gen::cred();
    let (key, raw) = (cred.lib(), cred.raw());
    let m = gen::db(&p).normal();
    let db = m.to(&key);
    let clean = save_ok(&db)?;
    let len = clean.len() as u64;
    note(format!("a database that takes {} bytes", len));
    let n = 1 + draw(5);
    for i in 0..n {
        let mut plan = transparent();
        if i + 1 < n {
            plan.fault = write_fault(len);
        }
        if chance(1, 12) {
            super::p01::refused_save(&m, &key)?;
        }
        let mut w = SimWriter::new(&plan);
        let r = save_to(&db, &mut w)?;
        note(format!(
            "sink {}: {}; {} after {} bytes{}",
            i,
            plan.describe(),
            if r.is_ok() { "saved" } else { "failed" },
            w.out.len(),
            if w.fired() { ", fault fired" } else { "" }
        ));
        sig("sink", mix(w.fired() as u64 ^ ((w.calls().min(64)) << 8) ^ ((w.out.len() as u64) << 20)));
        if w.livelock() {
            return fail("livelock", format!("save kept calling a sink that fails: {}", plan.describe()));
        }
        if w.fired() || w.calls() > 40 {
            judged();
        }
        match r {
            Ok(()) => {
                if w.fired() {
                    return fail(
                        "false-success",
                        format!("save succeeded although the sink failed: {}", plan.describe()),
                    );
                }
                open_same(&w.out, &key, &m, "incomplete")?;
                match peer::decode(&w.out, &raw) {
                    Err(e) => return fail("incomplete", format!("the file is not valid: {}", e)),
                    Ok(d) => {
                        if let Some(x) = model::diff(&m, &d.db) {
                            return fail("incomplete", format!("the file holds other content {}", x));
                        }
                    }
                }
            }
            Err(e) => {
                if !w.fired() {
                    return fail("false-failure", format!("save failed on {}: {}", plan.describe(), e));
                }
                if let Some(x) = wrong_error(&plan.fault, &e) {
                    return fail("wrong-error", x);
                }
                if let Ok(got) = open_bytes(&w.out, &key)? {
                    same(&m, &got, "partial-opens")?;
                }
            }
        }
    }
    same(&m, &db, "changed-by-save")
}
