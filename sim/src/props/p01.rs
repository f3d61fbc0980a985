//! P01: a saved database reopens with exactly the content that was saved.

use super::*;
use crate::gen::{Profile, FULL};
use crate::model::*;

pub const PROP: Prop = Prop {
    id: "P01",
    scenario: run,
    quick: 9_000,
    thorough: 120_000,
    rule: "One run builds a random database (every header setting, metadata field, binary, icon, \
           group, entry, string, attachment and history item can be drawn, with unusual text and \
           boundary sizes and times), saves and reopens it for one to three generations with edits \
           in between under a varied clock, entropy source and hash-map order, and in a quarter of \
           the runs plants one value the format cannot carry. Non-trivial: a save succeeded and \
           its file was reopened and compared, or a planted value was judged.",
    probes: &[],
};

const BAD_TEXT: [&str; 8] = ["\u{0}", "a\u{1}b", "\u{b}", "\u{1f}", "x\u{fffe}", "\u{ffff}", "\u{8}", "\u{c}\u{e}"];

/// Puts a value into the database that KDBX 3.1 has no way to store.
pub fn plant(db: &mut Database) -> &'static str {
    let bad = pick(&BAD_TEXT).to_string();
    let mut e = kpdb::Entry::new();
    let mut inner = kpdb::Entry::new();
    let text = draw(22);
    // Anywhere in the tree.
    if draw(4) == 3 {
        let mut sub = kpdb::Group::new("sub");
        if draw(2) == 1 {
            sub.add_entry(kpdb::Entry::new());
        }
        let n = db.root_group.iter().count() as u64;
        if let Some(g) = db.root_group.iter_mut().nth(draw(n) as usize) {
            g.groups.insert(draw(g.groups.len() as u64 + 1) as usize, sub);
        }
    }
    let place = draw(db.root_group.iter().count() as u64) as usize;
    fn at(db: &mut Database, place: usize) -> &mut kpdb::Group {
        db.root_group.iter_mut().nth(place).expect("group")
    }
    match text {
        0 => db.name = bad,
        1 => db.description = bad,
        2 => db.def_username = bad,
        3 => {
            db.custom_data.insert(bad, "x".into());
        }
        4 => {
            db.custom_data.insert("x".into(), bad);
        }
        5 => at(db, place).name = bad,
        6 => at(db, place).notes = bad,
        7 => at(db, place).def_auto_type_sequence = bad,
        8 => e.tags = bad,
        9 => e.override_url = bad,
        10 => e.auto_type_def_sequence = bad,
        11 => e.set_title(bad),
        12 => e.set_other(kpdb::StringKey::Other(bad), "x"),
        13 => e.associations.push(kpdb::Association {
            window: bad,
            keystroke_sequence: "x".into(),
        }),
        14 => {
            e.binaries.insert(kpdb::BinaryKey(bad), kpdb::BinaryValue::Plain(vec![1]));
        }
        15 => {
            e.binaries.insert(
                kpdb::BinaryKey("x".into()),
                kpdb::BinaryValue::Ref(kpdb::BinaryId(bad)),
            );
        }
        16 => {
            db.binaries.insert(kpdb::BinaryId(bad), vec![1, 2, 3]);
        }
        17 => {
            db.comment = Some(kpdb::Comment(vec![7; 65_536 + draw(3) as usize * 65_535]));
        }
        18 | 19 => {
            let v: &[u8] = *pick(&[&[0xff][..], &[0xc3, 0x28], &[b'a', 0x80], &[0xed, 0xa0, 0x80]]);
            inner.strings.insert(
                kpdb::StringKey::Password,
                kpdb::StringValue::Protected(secstr::SecStr::new(v.to_vec())),
            );
            if text == 18 {
                e = inner;
            } else {
                e.history.push(inner);
            }
        }
        20 => {
            let k = *pick(&["Title", "Notes", "Password", "URL", "UserName"]);
            e.strings.insert(
                kpdb::StringKey::Other(k.into()),
                kpdb::StringValue::Plain("alias".into()),
            );
        }
        _ => {
            inner.set_notes(bad);
            e.history.push(inner);
        }
    }
    let g = at(db, place);
    let k = draw(g.entries.len() as u64 + 1) as usize;
    g.entries.insert(k, e);
    match text {
        17 => "comment longer than its header field can say",
        18 | 19 => "protected string that is not UTF-8",
        20 => "other string key that spells a standard key",
        _ => "character that XML cannot carry",
    }
}

/// A save of the same content with something in it that cannot be stored.
pub fn refused_save(m: &MDb, key: &CompositeKey) -> Res {
    let mut db = m.to(key);
    let what = plant(&mut db);
    note(format!("before: a save of a {}", what));
    let _ = save_to(&db, &mut SimWriter::new(&transparent()))?;
    count("refused_save_before");
    Ok(())
}

/// Content in the library's own terms, where the model would hide a difference.
fn string_maps(db: &Database) -> Vec<String> {
    let mut out = Vec::new();
    for g in db.root_group.iter() {
        for e in &g.entries {
            for x in std::iter::once(e).chain(e.history.iter()) {
                let mut l: Vec<String> = x
                    .strings
                    .iter()
                    .map(|(k, v)| match v {
                        kpdb::StringValue::Plain(s) => format!("{:?}=plain {:?}", k, s),
                        kpdb::StringValue::Protected(s) => format!("{:?}=protected {:?}", k, s.unsecure()),
                    })
                    .collect();
                l.sort();
                out.push(l.join(";"));
            }
        }
    }
    out
}

fn run() -> Res {
    weather();
    let deep = chance(1, 8);
    let size = *pick(&[2u64, 1, 0, 3]);
    let p = Profile { size, deep_history: deep, huge: true, ..FULL };
    let cred = gen::cred();
    let key = cred.lib();
    let mut m = gen::db(&p);
    sig("shape", gen::shape(&m));
    let mut db = m.to(&key);
    if let Some(d) = diff(&m, &MDb::of(&db)) {
        return fail("HARNESS", format!("model does not survive the mapping: {}", d));
    }
    note(format!("a database of shape {:x}, credentials {:?}", gen::shape(&m), kind(&cred)));

    if chance(1, 4) {
        let what = plant(&mut db);
        note(format!("planted: {}", what));
        count("unrepresentable_value_planted");
        sig(what, 0);
        judged();
        let maps = string_maps(&db);
        let m = MDb::of(&db).normal();
        let mut w = SimWriter::new(&CLEAN);
        return match save_to(&db, &mut w)? {
            Err(_) => {
                count("unrepresentable_refused");
                Ok(())
            }
            Ok(()) => match open_bytes(&w.out, &key)? {
                Err(e) => fail("reopen", format!("save accepted a {} and the file does not open: {}", what, e)),
                Ok(got) => {
                    same(&m, &got, "fidelity")?;
                    if !deep && string_maps(&got) != maps {
                        return fail("fidelity", format!("save accepted a {} and the strings changed", what));
                    }
                    Ok(())
                }
            },
        };
    }

    let gens = 1 + draw(3);
    for g in 0..gens {
        if chance(1, 8) {
            refused_save(&m, &key)?;
        }
        let file = save_ok(&db)?;
        time_passes();
        m = m.normal();
        db = open_same(&file, &key, &m, "fidelity")?;
        count("reopened_and_compared");
        judged();
        if db.composite_key != key {
            return fail("fidelity", "the composite key of the reopened database differs");
        }
        if db.generator != "rust-kpdb" {
            return fail("fidelity", format!("generator is {:?}", db.generator));
        }
        let settings = (
            db.db_type == kpdb::DbType::Kdb2,
            db.master_cipher == kpdb::MasterCipher::Aes256,
            db.stream_cipher == kpdb::StreamCipher::Salsa20,
        );
        if settings != (true, true, true) {
            return fail("fidelity", "cipher settings differ");
        }
        if let Err(e) = check_parents(&db) {
            return fail("fidelity", e);
        }
        note(format!("generation {}: saved {} bytes, reopened the same", g + 1, file.len()));
        if g + 1 < gens {
            edit(&mut m, &p);
            let mut next = m.to(&key);
            // Half of the time edit in place, keeping the object that open produced.
            if draw(2) == 1 {
                std::mem::swap(&mut db.root_group, &mut next.root_group);
                m = MDb::of(&db);
            } else {
                db = next;
            }
        }
    }
    Ok(())
}

fn edit(m: &mut MDb, p: &Profile) {
    for _ in 0..1 + draw(3) {
        match draw(6) {
            0 => m.root.entries.push(gen::entry(p, 1)),
            1 => {
                m.root.entries.pop();
            }
            2 => m.root.groups.push(gen::group(p, 1)),
            3 => {
                m.root.groups.pop();
            }
            4 => m.gzip = !m.gzip,
            _ => {
                m.name = gen::text();
                if let Some(e) = m.root.entries.first_mut() {
                    let old = e.clone();
                    e.history.push(old);
                    let k = gen::key_text();
                    e.strings.insert(k, gen::string(p));
                }
            }
        }
    }
}

pub fn kind(c: &Cred) -> &'static str {
    match c {
        Cred::Pw(_) => "password",
        Cred::Kf(_) => "key file",
        Cred::Both(..) => "password and key file",
    }
}
