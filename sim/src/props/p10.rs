//! P10: files written are valid KDBX 3.1 that an independent program reads the same.

use super::p01::kind;
use super::*;
use crate::crypt::sha256;
use crate::gen::{Profile, PEER};

pub const PROP: Prop = Prop {
    id: "P10",
    scenario: run,
    quick: 8_000,
    thorough: 150_000,
    rule: "One run passes a random database between the library and the independent peer program for up to four \
           turns, each turn opening what the other saved, editing and saving again; after every save by the library \
           the peer decodes the bytes on its own and compares everything, the header hash included. Non-trivial: the \
           peer decoded a file of the library.",
    probes: &[],
};

/// The peer's strict reading of a file that the library saved.
pub fn peer_reads(file: &[u8], raw: &[u8; 32], want: &MDb) -> Result<peer::Decoded, Violation> {
    let d = match peer::decode(file, raw) {
        Ok(d) => d,
        Err(e) => return fail("invalid-file", format!("the peer cannot read the file: {}", e)),
    };
    if let Some(x) = model::diff(want, &d.db) {
        return fail("peer-differs", format!("the peer reads other content {}", x));
    }
    match d.header_hash {
        None => return fail("header-hash", "no header hash is stored"),
        Some(ref h) => {
            if h[..] != sha256(&[&file[..d.header_len]])[..] {
                return fail("header-hash", "the stored header hash is not that of the header");
            }
        }
    }
    if d.generator.is_empty() {
        return fail("peer-differs", "the peer finds no generator");
    }
    if !d.start_bytes_ok {
        return fail("invalid-file", "the payload does not begin with the start bytes");
    }
    Ok(d)
}

pub fn edit(m: &mut MDb, p: &Profile) {
    for _ in 0..1 + draw(3) {
        match draw(7) {
            0 => m.root.entries.push(gen::entry(p, 1)),
            1 => {
                m.root.entries.pop();
            }
            2 => m.root.groups.push(gen::group(p, 1)),
            3 => {
                m.root.groups.pop();
            }
            4 => m.gzip = !m.gzip,
            5 => {
                m.description = gen::text();
                m.rounds = 1 + draw(9);
            }
            _ => {
                if let Some(e) = m.root.entries.first_mut() {
                    let mut old = e.clone();
                    old.history.clear();
                    e.history.push(old);
                    let k = gen::key_text();
                    e.strings.insert(k, gen::string(p));
                }
            }
        }
    }
}

fn run() -> Res {
    weather();
    let size = *pick(&[1u64, 0, 2, 3]);
    let p = Profile { size, depth: 3, huge: true, ..PEER };
    let cred = gen::cred();
    let (key, raw) = (cred.lib(), cred.raw());
    let mut m = gen::db(&p).normal();
    sig("shape", gen::shape(&m));
    note(format!("locked with {}", kind(&cred)));
    let turns = 1 + draw(4);
    let mut db = m.to(&key);
    for t in 0..turns {
        if t % 2 == 0 {
            let file = save_ok(&db)?;
            time_passes();
            let d = peer_reads(&file, &raw, &m)?;
            judged();
            count("peer_read_file_of_library");
            if d.blocks == 0 {
                return fail("invalid-file", "the payload has no data block");
            }
            note(format!("turn {}: the peer reads the {} bytes of the library", t, file.len()));
            // Binaries that are protected in the document are so only for the peer.
            m = d.db;
            edit(&mut m, &p);
            m = m.normal();
        } else {
            let mut st = peer::Style::new(draw(2) == 1, seed_draw());
            let file = peer::encode(&m, &raw, &mut st, &mut Prng::new(seed_draw()));
            db = open_same(&file, &key, &m, "peer-file")?;
            count("library_read_file_of_peer");
            note(format!("turn {}: the library reads the {} bytes of the peer", t, file.len()));
            edit(&mut m, &p);
            m = m.normal();
            let mut next = m.to(&key);
            if draw(2) == 0 {
                std::mem::swap(&mut db.root_group, &mut next.root_group);
                m = MDb::of(&db).normal();
            } else {
                db = next;
            }
        }
    }
    Ok(())
}
