//! The scenarios, one module per property.

use crate::crypt;
use crate::gen;
use crate::model::{self, MDb};
use crate::peer::{self, Cred};
use crate::rt::*;
use crate::simio::*;
use kpdb::{CompositeKey, Database, Error};
use std::io::{ErrorKind, Read, Write};

mod damage;
mod p01;
mod p02;
mod p03;
mod p04;
mod p05;
mod p06;
mod p07;
mod p08;
mod p09;
mod p10;
mod p11;
mod p12;
mod p13;
mod p14;
mod p15;
mod p18;

pub struct Prop {
    pub id: &'static str,
    pub scenario: fn() -> Res,
    pub quick: u64,
    pub thorough: u64,
    /// How runs are made and which of them count as non-trivial.
    pub rule: &'static str,
    /// Known-finding probes: (name, statement of what fails).
    pub probes: &'static [(&'static str, &'static str)],
}

pub const PROPS: &[Prop] = &[p01::PROP, p02::PROP, p03::PROP, p04::PROP, p05::PROP, p06::PROP, p07::PROP, p08::PROP, p09::PROP, p10::PROP, p11::PROP, p12::PROP, p13::PROP, p14::PROP, p15::PROP, p18::PROP];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

/// Runs one probe in this process; it dies or exits 1 when the finding is there.
pub fn probe(name: &str) -> i32 {
    match name {
        "deep-nesting" => p06::deep_nesting(),
        "wide-numbers" => p11::wide_numbers(),
        _ => {
            println!("unknown probe {}", name);
            2
        }
    }
}

/// Runs a probe in a child process; `None` if what it tests holds.
pub fn probe_child(_prop: &Prop, name: &str) -> Option<String> {
    let out = std::process::Command::new(std::env::current_exe().ok()?)
        .args(["probe", name])
        .stderr(std::process::Stdio::null())
        .output()
        .ok()?;
    if out.status.success() {
        return None;
    }
    use std::os::unix::process::ExitStatusExt;
    Some(match out.status.signal() {
        Some(s) => format!("the process died of signal {}", s),
        None => String::from_utf8_lossy(&out.stdout).trim().to_string(),
    })
}

/// The findings that are recorded rather than repaired: (property, name).
pub fn known_findings(path: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut out = Vec::new();
    for l in text.lines() {
        let l = match l.strip_prefix("known: ") {
            Some(l) => l,
            None => continue,
        };
        let get = |k: &str| {
            l.split_whitespace().find_map(|w| w.strip_prefix(k)).unwrap_or("").to_string()
        };
        out.push((get("property="), get("id=")));
    }
    out
}

// ------------------------------------------------------------------------------------------------
// Calls into the library

pub type LibRes<T> = Result<Result<T, Error>, Violation>;

pub fn panic_to<T>(what: &str, r: Result<T, String>) -> Result<T, Violation> {
    match r {
        Ok(v) => Ok(v),
        Err(m) => fail("panic", format!("{}: {}", what, m)),
    }
}

pub fn save_to<W: Write>(db: &Database, w: &mut W) -> LibRes<()> {
    panic_to("save", guard(|| db.save(w)))
}

pub fn open_from<R: Read>(r: &mut R, key: &CompositeKey) -> LibRes<Database> {
    panic_to("open", guard(|| Database::open(r, key)))
}

/// A save to a sink without faults, which has to succeed.
pub fn save_ok(db: &Database) -> Result<Vec<u8>, Violation> {
    let mut w = SimWriter::new(&CLEAN);
    match save_to(db, &mut w)? {
        Ok(()) => Ok(w.out),
        Err(e) => fail("save-refused", format!("save of a valid database failed: {}", e)),
    }
}

pub fn open_bytes(bytes: &[u8], key: &CompositeKey) -> LibRes<Database> {
    let mut r = SimReader::new(bytes, &CLEAN);
    open_from(&mut r, key)
}

/// Opens a file that has to open to this content.
pub fn open_same(bytes: &[u8], key: &CompositeKey, want: &MDb, class: &str) -> Result<Database, Violation> {
    match open_bytes(bytes, key)? {
        Err(e) => fail(class, format!("the file does not open: {}", e)),
        Ok(db) => {
            same(want, &db, class)?;
            Ok(db)
        }
    }
}

pub fn same(want: &MDb, db: &Database, class: &str) -> Res {
    if let Some(d) = model::diff(want, &MDb::of(db)) {
        return fail(class, format!("content differs {}", d));
    }
    Ok(())
}

/// Whether an error is the I/O error the stream reported.
pub fn is_io(e: &Error, kind: ErrorKind) -> bool {
    matches!(e, Error::Io(e) if e.kind() == kind)
}

/// Settings every scenario draws first: how the entropy source and the clock behave.
pub fn weather() {
    let c = ctx();
    if chance(1, 4) {
        c.ent_plan.short = true;
        c.ent_plan.eintr = draw(2) == 1;
        c.ent_plan.rng = Prng::new(seed_draw());
    }
    c.clock.tick = *pick(&[1000i64, 0, 1_000_000_000, 86_400_000_000_000]);
    let n = draw(3);
    for _ in 0..n {
        let at = draw(40);
        let by = draw(4_000_000_000) as i64 - 2_000_000_000;
        c.clock.jumps.push((at, by));
    }
}

/// Lets simulated time pass.
pub fn time_passes() {
    let by = match draw(4) {
        0 => 0,
        1 => draw(1000) as i128,
        2 => draw(86_400 * 1000) as i128 * 1_000_000_000,
        _ => -(draw(86_400 * 1000) as i128) * 1_000_000_000,
    };
    ctx().clock.advance(by);
}
