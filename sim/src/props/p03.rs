//! P03: open depends only on the bytes, not on how the reader delivers them.

use super::damage;
use super::p02::wrong_error;
use super::*;
use crate::gen::{Profile, PEER};

pub const PROP: Prop = Prop {
    id: "P03",
    scenario: run,
    quick: 24_000,
    thorough: 200_000,
    rule: "One run takes a file (saved by the library or by the peer program with random layout; intact, damaged or \
           cut off) and opens it through one to six simulated readers that split, interrupt or fail the transfer at \
           drawn offsets (also right at the end of the data); the result is compared with that of one whole read. \
           Non-trivial: a fault fired, or a transfer was split or interrupted.",
    probes: &[],
};

/// What a result looks like to the caller.
pub fn outcome(r: &Result<Database, Error>) -> Result<MDb, String> {
    match r {
        Ok(db) => Ok(MDb::of(db)),
        Err(Error::Io(e)) => Err(format!("Io {:?}", e.kind())),
        Err(e) => {
            let t = format!("{:?}", e);
            Err(t.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string())
        }
    }
}

fn run() -> Res {
    weather();
    let size = *pick(&[0u64, 1, 1, 2]);
    let p = Profile { size, depth: 2, ..PEER };
    let cred = gen::cred();
    let (key, raw) = (cred.lib(), cred.raw());
    let m = gen::db(&p).normal();
    let mut file = if draw(2) == 0 {
        save_ok(&m.to(&key))?
    } else {
        let mut st = peer::Style::new(true, seed_draw());
        peer::encode(&m, &raw, &mut st, &mut Prng::new(seed_draw()))
    };
    let intact = match draw(4) {
        0 => {
            let n = damage::cut_point(file.len());
            note(format!("the file of {} bytes is cut off at {}", file.len(), n));
            file.truncate(n);
            false
        }
        1 => {
            for _ in 0..1 + draw(3) {
                let d = damage::mutate(&mut file, &[]);
                note(format!("damage: {}", d));
            }
            damage::clamp_rounds(&mut file);
            false
        }
        _ => true,
    };
    let whole = open_bytes(&file, &key)?;
    let want = outcome(&whole);
    if intact && want.is_err() {
        return fail("whole", format!("an intact file does not open: {:?}", want.err()));
    }
    let n = 1 + draw(6);
    for i in 0..n {
        let mut plan = transparent();
        if chance(1, 2) {
            let at = match draw(4) {
                0 => draw(320.min(file.len() as u64 + 1)),
                1 => file.len() as u64,
                _ => draw(file.len() as u64 + 1),
            };
            plan.fault = Fault::Error { at, kind: *pick(&KINDS), once: chance(1, 3) };
        }
        let mut r = SimReader::new(&file, &plan);
        let got = open_from(&mut r, &key)?;
        note(format!(
            "reader {}: {}; {} after {} bytes{}",
            i,
            plan.describe(),
            if got.is_ok() { "opened" } else { "refused" },
            r.consumed(),
            if r.fired() { ", fault fired" } else { "" }
        ));
        sig("reader", mix(r.fired() as u64 ^ (r.calls().min(64) << 8) ^ (r.consumed() << 20)));
        if r.livelock() {
            return fail("livelock", format!("open kept calling the reader: {}", plan.describe()));
        }
        if r.fired() || r.calls() > 40 {
            judged();
        }
        if r.fired() {
            match got {
                Ok(_) => {
                    return fail("false-success", format!("open succeeded although the reader failed: {}", plan.describe()))
                }
                Err(e) => {
                    if let Some(x) = wrong_error(&plan.fault, &e) {
                        return fail("wrong-error", x);
                    }
                }
            }
            continue;
        }
        let got = outcome(&got);
        match (&want, &got) {
            (Ok(a), Ok(b)) => {
                if let Some(d) = model::diff(a, b) {
                    return fail("delivery", format!("with {} the content differs {}", plan.describe(), d));
                }
            }
            (Err(a), Err(b)) if a == b => {}
            (a, b) => {
                let f = |x: &Result<MDb, String>| match x {
                    Ok(_) => "opens".to_string(),
                    Err(e) => format!("error {}", e),
                };
                return fail(
                    "delivery",
                    format!("read whole: {}; with {}: {}", f(a), plan.describe(), f(b)),
                );
            }
        }
    }
    Ok(())
}
