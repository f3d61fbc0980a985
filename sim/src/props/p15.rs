//! P15: timestamps are preserved exactly and come from the clock only at creation.

use super::p03::outcome;
use super::*;
use crate::gen::{Profile, FULL, PEER};
use crate::model::{time_of, MEntry, MTimes, Time};
use kpdb::{Entry, Group, StringKey, Times};

pub const PROP: Prop = Prop {
    id: "P15",
    scenario: run,
    quick: 10_000,
    thorough: 400_000,
    rule: "One run passes a database with drawn times (to the nanosecond, the whole representable range, leap seconds) \
           through one to five saves, opens and edits while the simulated clock stands still, runs, is set to any \
           moment from 1970 to the year 200000 or jumps at any reading; each file is opened under three different \
           clocks and read by the peer, and every time of a newly created database, group or entry is looked up in \
           the log of clock readings during its creation. Non-trivial: a file was opened under clocks that differ by \
           more than a second.",
    probes: &[],
};

/// Sets the clock to a moment anywhere.
fn set_clock() {
    let s = match draw(6) {
        0 => 1_600_000_000 + draw(100_000_000) as i64,
        1 => 0,
        2 => draw(4_000_000_000) as i64,
        3 => *pick(&[2_147_483_647i64, 2_147_483_648, 4_294_967_295, 253_402_300_799, 253_402_300_800]),
        4 => peer::year_start(1970 + draw(8000) as i64),
        _ => peer::year_start(1970 + draw(198_000) as i64) + draw(31_000_000) as i64,
    };
    let c = &mut ctx().clock;
    let by = (s - c.secs) as i128 * 1_000_000_000;
    c.advance(by);
    c.nanos = draw(1_000_000_000) as i64;
    let c = &mut ctx().clock;
    c.tick = *pick(&[1i64, 0, 999_999_999, 3_600_000_000_000, -1_000_000_000]);
    let now = c.readings;
    for _ in 0..draw(4) {
        let at = now + 1 + draw(30);
        let by = draw(8_000_000_000) as i64 - 4_000_000_000;
        c.jumps.push((at, by));
    }
    count("clock_set");
}

/// Runs `f` and returns what the clock showed meanwhile.
fn watched<T>(f: impl FnOnce() -> T) -> (T, Vec<Time>) {
    {
        let c = &mut ctx().clock;
        c.log.clear();
        c.logging = true;
    }
    let r = f();
    let c = &mut ctx().clock;
    c.logging = false;
    (r, std::mem::take(&mut c.log))
}

fn stamps(t: &MTimes) -> [(&'static str, Time); 5] {
    [
        ("creation", t.creation),
        ("expiry", t.expiry),
        ("last access", t.access),
        ("last modification", t.modified),
        ("location change", t.moved),
    ]
}

fn shown(what: &str, list: &[(&'static str, Time)], log: &[Time]) -> Res {
    for (name, t) in list {
        if !log.contains(t) {
            return fail(
                "not-from-clock",
                format!(
                    "the {} time of {} is {}.{:09}, which the clock did not show ({} readings, first {:?})",
                    name,
                    what,
                    t.0,
                    t.1,
                    log.len(),
                    log.first()
                ),
            );
        }
    }
    Ok(())
}

fn creation() -> Res {
    for _ in 0..1 + draw(3) {
        match draw(4) {
            0 => {
                let (e, log) = watched(|| guard(Entry::new));
                let e = panic_to("Entry::new", e)?;
                shown("a new entry", &stamps(&MEntry::of(&e).times), &log)?;
                let t = MEntry::of(&e).times;
                if (time_of(e.creation_time()), time_of(e.expiry_time()), time_of(e.last_modified()))
                    != (t.creation, t.expiry, t.modified)
                {
                    return fail("times-trait", "the time accessors of an entry disagree with its fields");
                }
            }
            1 => {
                let (g, log) = watched(|| guard(|| Group::new("g")));
                let g = panic_to("Group::new", g)?;
                shown("a new group", &stamps(&model::MGroup::of(&g).times), &log)?;
            }
            2 => {
                let (e, log) = watched(|| guard(|| (Entry::default(), Group::default())));
                let (e, g) = panic_to("default", e)?;
                shown("a default entry", &stamps(&MEntry::of(&e).times), &log)?;
                shown("a default group", &stamps(&model::MGroup::of(&g).times), &log)?;
            }
            _ => {
                let key = CompositeKey::from_password("x");
                let (d, log) = watched(|| guard(|| Database::new(&key)));
                let d = MDb::of(&panic_to("Database::new", d)?);
                shown("a new database", &db_stamps(&d), &log)?;
                shown("a new database's root group", &stamps(&d.root.times), &log)?;
            }
        }
        count("creation_under_clock");
        if draw(3) == 0 {
            set_clock();
        }
    }
    Ok(())
}

fn db_stamps(d: &MDb) -> [(&'static str, Time); 6] {
    [
        ("user name change", d.username_changed),
        ("description change", d.description_changed),
        ("templates change", d.templates_changed),
        ("key change", d.key_changed),
        ("name change", d.name_changed),
        ("recycle bin change", d.bin_changed),
    ]
}

/// Edits that have nothing to do with times.
fn edit(db: &mut Database, m: &mut MDb, p: &Profile) -> Res {
    for _ in 0..1 + draw(4) {
        match draw(8) {
            0 | 1 => {
                if let (Some(e), Some(x)) = (db.root_group.entries.first_mut(), m.root.entries.first_mut()) {
                    let t = gen::text();
                    let k = draw(6);
                    match k {
                        0 => e.set_title(t.clone()),
                        1 => e.set_username(t.clone()),
                        2 => e.set_url(t.clone()),
                        3 => e.set_notes(t.clone()),
                        4 => e.set_password(t.clone()),
                        _ => e.set_other(StringKey::Other("o".into()), t.clone()),
                    }
                    let n = ["Title", "UserName", "URL", "Notes", "Password", "o"][k as usize];
                    x.strings.insert(n.into(), model::MStr { prot: k == 4, val: t.into_bytes() });
                }
            }
            2 => {
                if let Some(id) = m.root.entries.last().map(|e| e.uuid) {
                    // The first of them, should two have the identifier.
                    let e = m.root.entries.remove(m.root.entries.iter().position(|e| e.uuid == id).unwrap());
                    let got = db.root_group.remove_entry(kpdb::EntryUuid(uuid::Uuid::from_bytes(e.uuid)));
                    match got {
                        Some(got) => {
                            db.root_group.add_entry(got);
                            m.root.entries.push(e);
                        }
                        None => return fail("tree", "an entry cannot be removed"),
                    }
                }
            }
            3 => {
                let _ = db.find_entries_mut("a").len() + db.find_groups_mut("a").len();
                let id = db.root_group.uuid;
                let _ = db.get_group_mut(id).is_some();
            }
            4 => {
                db.name = gen::text();
                m.name = db.name.clone();
            }
            5 => {
                let e = gen::entry(&Profile { size: 1, depth: 0, ..*p }, 1);
                db.root_group.add_entry(e.to());
                m.root.entries.push(e);
            }
            6 => {
                // A client sets times itself.
                let t = gen::time(p);
                let u = gen::time(p);
                if let (Some(e), Some(x)) = (db.root_group.entries.last_mut(), m.root.entries.last_mut()) {
                    e.set_last_modified(model::time_to(t));
                    x.times.modified = t;
                    e.set_expiry_time(model::time_to(u));
                    x.times.expiry = u;
                    e.set_creation_time(model::time_to(t));
                    x.times.creation = t;
                    e.set_last_accessed(model::time_to(u));
                    x.times.access = u;
                    e.set_location_changed(model::time_to(t));
                    x.times.moved = t;
                    e.set_expires(true);
                    x.times.expires = true;
                    e.set_usage_count(5);
                    x.times.usage = 5;
                }
                let g = &mut db.root_group;
                g.set_last_modified(model::time_to(u));
                g.set_expiry_time(model::time_to(t));
                g.set_creation_time(model::time_to(u));
                g.set_last_accessed(model::time_to(t));
                g.set_location_changed(model::time_to(u));
                g.set_expires(false);
                g.set_usage_count(-5);
                m.root.times =
                    MTimes { creation: u, expiry: t, expires: false, access: t, modified: u, moved: u, usage: -5 };
                let g = &db.root_group;
                let got = MTimes {
                    creation: time_of(g.creation_time()),
                    expiry: time_of(g.expiry_time()),
                    expires: g.expires(),
                    access: time_of(g.last_accessed()),
                    modified: time_of(g.last_modified()),
                    moved: time_of(g.location_changed()),
                    usage: g.usage_count(),
                };
                if got != m.root.times {
                    return fail("times-trait", format!("times set to {:?} are read as {:?}", m.root.times, got));
                }
            }
            _ => {
                db.composite_key = gen::cred().lib();
            }
        }
    }
    same(m, db, "edit-changed-times")
}

fn run() -> Res {
    weather();
    set_clock();
    if draw(4) == 3 {
        creation()?;
        note("creation only");
        judged();
        return Ok(());
    }
    let common = draw(3) == 2;
    let p = Profile { size: *pick(&[1u64, 0, 2]), depth: 2, max_rounds: 5, twins: false, ..if common { PEER } else { FULL } };
    let cred = gen::cred();
    let (key, raw) = (cred.lib(), cred.raw());
    let mut m = gen::db(&p);
    let mut db = m.to(&key);
    let turns = 1 + draw(5);
    for t in 0..turns {
        set_clock();
        let file = if common && draw(3) == 2 {
            let mut st = peer::Style::new(draw(2) == 1, seed_draw());
            m = m.normal();
            peer::encode(&m, &raw, &mut st, &mut Prng::new(seed_draw()))
        } else {
            let f = save_ok(&db)?;
            // Saving changes nothing in memory.
            same(&m, &db, "changed-by-save")?;
            m = m.normal();
            if common {
                match peer::decode(&f, &raw) {
                    Ok(d) => {
                        if let Some(x) = model::diff(&m, &d.db) {
                            return fail("peer-differs", format!("the peer reads other times or content {}", x));
                        }
                    }
                    Err(e) => return fail("peer", format!("the peer cannot read the file: {}", e)),
                }
            }
            f
        };
        let mut first: Option<Result<MDb, String>> = None;
        for _ in 0..3 {
            set_clock();
            let r = open_bytes(&file, &key)?;
            let o = outcome(&r);
            match (&first, &o) {
                (_, Err(e)) => return fail("clock-dependent", format!("a file does not open: {}", e)),
                (_, Ok(got)) => {
                    if let Some(x) = model::diff(&m, got) {
                        return fail("changed-times", format!("opened content differs {}", x));
                    }
                }
            }
            first.get_or_insert(o);
            db = r.expect("opened");
        }
        judged();
        sig("turn", mix(ctx().clock.secs as u64 ^ t));
        count("file_opened_under_three_clocks");
        // A damaged file is refused, or not, under any clock alike.
        if draw(4) == 3 {
            let mut bad = file.clone();
            damage::mutate(&mut bad, &[]);
            damage::clamp_rounds(&mut bad);
            let a = outcome(&open_bytes(&bad, &key)?);
            set_clock();
            let b = outcome(&open_bytes(&bad, &key)?);
            let alike = match (&a, &b) {
                (Ok(x), Ok(y)) => model::diff(x, y).is_none(),
                (Err(x), Err(y)) => x == y,
                _ => false,
            };
            if !alike {
                return fail("clock-dependent", "opening a damaged file gives another result under another clock");
            }
        }
        edit(&mut db, &mut m, &p)?;
        db.composite_key = key.clone();
    }
    note(format!("{} turns", turns));
    creation()
}
