//! P05: a crash during save never leaves a file that opens as something else.

use super::*;
use crate::gen::{Profile, PEER};

pub const PROP: Prop = Prop {
    id: "P05",
    scenario: run,
    quick: 12_000,
    thorough: 250_000,
    rule: "One run keeps a database on a simulated disk (volatile cache, sectors of 1 to 4096 bytes) through one to \
           four saves of edited versions, each over the old file, after truncating it, or to another file that is \
           synced and renamed; the process or machine stops at a drawn byte of the save, before or after the sync or \
           the rename, and any prefix or subset of the unsynced sectors survives, some torn; crashes chain. \
           Non-trivial: a crash image was opened that is neither the old nor the new file.",
    probes: &[],
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Scheme {
    InPlace,
    Truncate,
    Rename,
}

/// A version's content and the credentials it was saved with.
type Version = (MDb, usize);

fn run() -> Res {
    weather();
    let size = *pick(&[0u64, 1, 1, 2]);
    let p = Profile { size, depth: 2, ..PEER };
    let mut keys = vec![gen::cred()];
    let mut key = keys[0].lib();
    let mut m = gen::db(&p).normal();
    let first = save_ok(&m.to(&key))?;
    let mut tried: Vec<Version> = vec![(m.clone(), 0)];
    // What the file is known to hold, if it is known.
    let mut sure: Option<MDb> = Some(m.clone());
    let mut file = SimFile::new(first);
    let n = 1 + draw(4);
    for step in 0..n {
        // The client edits what it has in memory.
        match draw(6) {
            4 => {
                // In the clear, before the fields that secure the rest.
                let n = draw(3000) as usize;
                m.comment = Some(gen::bytes(n));
            }
            5 => {
                let mut c = gen::cred();
                if let (Cred::Pw(p), 0) = (&keys[keys.len() - 1], draw(2)) {
                    c = Cred::Pw(gen::alike(p));
                }
                // Only credentials that differ in their key are others.
                if keys.iter().all(|k| k.raw() != c.raw()) {
                    key = c.lib();
                    keys.push(c);
                    count("credentials_changed");
                }
            }
            0 => m.name = gen::text(),
            1 => m.root.entries.push(gen::entry(&p, 1)),
            2 => {
                m.root.entries.pop();
                m.gzip = !m.gzip;
            }
            _ => {
                let b = gen::bytes(draw(6000) as usize);
                m.binaries.insert("7".into(), b);
            }
        }
        m = m.normal();
        tried.push((m.clone(), keys.len() - 1));
        let db = m.to(&key);
        let scheme = *pick(&[Scheme::InPlace, Scheme::Truncate, Scheme::Rename]);
        let len = save_ok(&db)?.len();
        // A full disk, met before the crash or without one.
        let full = if draw(5) == 4 { len.saturating_sub(draw(len as u64 + 1) as usize >> draw(12)) } else { usize::MAX };
        let eintr = draw(4) == 3;
        let kill = match draw(6) {
            0 => usize::MAX,
            1 => draw(320) as usize,
            2 => len.saturating_sub(draw(80) as usize),
            _ => draw(len as u64 + 1) as usize,
        };
        let chunk = *pick(&[Chunk::Whole, Chunk::Random(300), Chunk::Fixed(512), Chunk::Random(5000)]);
        let how = *pick(&[CrashHow::All, CrashHow::None, CrashHow::Prefix, CrashHow::Subset, CrashHow::Torn]);
        let sector = *pick(&[512usize, 1, 16, 64, 4096]);
        let mut rng = Prng::new(seed_draw());
        let old = file.durable.clone();
        let mut renamed = false;
        let mut synced = false;
        let image;
        let seed = seed_draw();
        match scheme {
            Scheme::InPlace | Scheme::Truncate => {
                file.pos = 0;
                if scheme == Scheme::Truncate {
                    file.truncate(0);
                }
                let (killed, written, done) = {
                    let mut w = DiskWriter::new(&mut file, kill, chunk, seed);
                    (w.fail_at, w.eintr) = (full, eintr);
                    let r = save_to(&db, &mut w)?;
                    if w.failed {
                        count("disk_full");
                    }
                    if let Err(e) = &r {
                        if !w.killed() && !w.failed {
                            return fail("save", format!("save to a healthy disk failed: {}", e));
                        }
                    }
                    (w.killed(), w.written, r.is_ok())
                };
                if !killed && done && scheme == Scheme::InPlace {
                    file.truncate(written);
                }
                if !killed && draw(2) == 0 {
                    file.sync();
                    synced = done;
                }
                image = file.crash(sector, &mut rng, how);
            }
            Scheme::Rename => {
                let mut tmp = SimFile::new(Vec::new());
                let (killed, done) = {
                    let mut w = DiskWriter::new(&mut tmp, kill, chunk, seed);
                    (w.fail_at, w.eintr) = (full, eintr);
                    let r = save_to(&db, &mut w)?;
                    if w.failed {
                        count("disk_full");
                    }
                    if let Err(e) = &r {
                        if !w.killed() && !w.failed {
                            return fail("save", format!("save to a healthy disk failed: {}", e));
                        }
                    }
                    (w.killed(), r.is_ok())
                };
                // A save that reports an error is not put in place of the old file.
                if killed || !done {
                    // The half-written file beside it is not the database.
                    let torn = tmp.crash(sector, &mut rng, how);
                    judge(&torn, &keys, &tried, "the temporary file")?;
                    image = old.clone();
                } else {
                    tmp.sync();
                    // The rename is atomic; whether it survives depends on when the machine stops.
                    renamed = draw(2) == 1;
                    image = if renamed { tmp.durable.clone() } else { old.clone() };
                }
            }
        }
        count(match scheme {
            Scheme::InPlace => "crash_in_overwriting_save",
            Scheme::Truncate => "crash_in_truncating_save",
            Scheme::Rename => "crash_in_renaming_save",
        });
        count(match how {
            CrashHow::All => "crash_everything_survives",
            CrashHow::None => "crash_unsynced_lost",
            CrashHow::Prefix => "crash_prefix_survives",
            CrashHow::Subset => "crash_sector_subset_survives",
            CrashHow::Torn => "crash_torn_sectors",
        });
        if image != old && image.len() != len {
            judged();
        }
        let opened = judge(&image, &keys, &tried, "the file")?;
        note(format!(
            "save {} ({:?}, {:?}) stopped at byte {} of {}, {:?} with sectors of {}: {} bytes, {}",
            step,
            scheme,
            chunk,
            if kill == usize::MAX { "none".to_string() } else { kill.to_string() },
            len,
            how,
            sector,
            image.len(),
            match opened {
                Some(i) => format!("opens as version {}", i),
                None => "refused".into(),
            }
        ));
        sig("crash", mix(image.len() as u64 ^ opened.map_or(99, |i| i as u64) << 32 ^ (scheme as u64) << 48));
        if synced && opened.map_or(true, |i| m != tried[i].0) {
            return fail("lost", "a save that succeeded and was synced does not open after the crash");
        }
        if scheme == Scheme::Rename {
            // After every crash the database can be opened as old or new.
            let want = if renamed { Some(&m) } else { sure.as_ref() };
            if let Some(want) = want {
                match opened {
                    None => return fail("rename", "neither version can be opened after a crash around a rename"),
                    Some(i) => {
                        if *want != tried[i].0 {
                            return fail("rename", "another version than the one in place opens");
                        }
                    }
                }
            }
        }
        if renamed {
            sure = Some(m.clone());
        }
        // A complete file that reached the disk has to open.
        sure = match (scheme, opened) {
            (Scheme::Rename, _) => sure,
            (_, Some(i)) => Some(tried[i].0.clone()),
            (_, None) => None,
        };
        file = SimFile::new(image);
    }
    Ok(())
}

/// The image opens as one of the versions, with the credentials of that version, or not at all.
fn judge(img: &[u8], keys: &[Cred], tried: &[Version], what: &str) -> Result<Option<usize>, Violation> {
    let mut found = None;
    let mut img = img.to_vec();
    damage::clamp_rounds(&mut img);
    for (k, cred) in keys.iter().enumerate() {
        let got = match open_bytes(&img, &cred.lib())? {
            Err(_) => continue,
            Ok(db) => MDb::of(&db),
        };
        match tried.iter().rposition(|(m, c)| *c == k && *m == got) {
            Some(i) if found.is_none() => found = Some(i),
            Some(_) => return fail("two-keys", format!("after the crash {} opens with old and new credentials", what)),
            None => {
                return fail(
                    "other-content",
                    format!(
                        "after the crash {} opens as none of the versions {}",
                        what,
                        model::diff(&tried[tried.len() - 1].0, &got).unwrap_or_default()
                    ),
                )
            }
        }
    }
    Ok(found)
}
