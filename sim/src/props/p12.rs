//! P12: key files survive saving and reopening, and torn or failed writes are noticed.

use super::p02::{offset, write_fault};
use super::*;
use crate::crypt::hex;
use kpdb::{KeyFile, KeyFileType};

pub const PROP: Prop = Prop {
    id: "P12",
    scenario: run,
    quick: 150_000,
    thorough: 800_000,
    rule: "One run makes a key file (generated, or any key of any type), saves it to one to four simulated sinks that \
           split, interrupt or fail the transfer, reads what they accepted with the library and with the peer, opens \
           every prefix of the complete file, reads it through failing readers, and locks a database with it; \
           inbound key files come from the peer in random layouts, some of them malformed. Non-trivial: a fault fired, a transfer was split, \
           or all prefixes were tried.",
    probes: &[],
};

fn ty(t: &KeyFileType) -> u8 {
    match *t {
        KeyFileType::Binary => 0,
        KeyFileType::Hex => 1,
        KeyFileType::Xml => 2,
    }
}

fn save<W: Write>(k: &KeyFile, w: &mut W) -> LibRes<()> {
    panic_to("KeyFile::save", guard(|| k.save(w)))
}

fn open<R: Read>(r: &mut R) -> LibRes<KeyFile> {
    panic_to("KeyFile::open", guard(|| KeyFile::open(r)))
}

/// Opens what has to be this key file.
fn reopen(bytes: &[u8], key: &[u8], t: u8, plan: &Plan) -> Result<KeyFile, Violation> {
    let mut r = SimReader::new(bytes, plan);
    let k = match open(&mut r)? {
        Ok(k) => k,
        Err(e) => return fail("not-reopened", format!("a saved key file does not open: {}", e)),
    };
    if k.key.unsecure() != key {
        return fail(
            "other-key",
            format!("saved the key {} and read {}", hex(key), hex(k.key.unsecure())),
        );
    }
    if ty(&k.file_type) != t {
        return fail("other-type", format!("saved a key file of type {} and read one of type {}", t, ty(&k.file_type)));
    }
    Ok(k)
}

fn incoming() -> Res {
    let key = match draw(4) {
        0 => gen::key_bytes(),
        _ => gen::bytes(32),
    };
    let (bytes, t) = match draw(5) {
        0 => (hex(&key).to_uppercase().into_bytes(), 1),
        1 => {
            let mut r = Prng::new(seed_draw());
            let s: String = hex(&key)
                .chars()
                .map(|c| if r.below(2) == 0 { c.to_ascii_uppercase() } else { c })
                .collect();
            (s.into_bytes(), 1)
        }
        2 => (key.clone(), 0),
        _ => {
            let mut st = peer::Style::new(true, seed_draw());
            (peer::encode_key_file(&key, &mut st).into_bytes(), 2)
        }
    };
    if t < 2 && key.len() != 32 {
        return Ok(());
    }
    note(format!("a key file of type {} and {} bytes from another program", t, bytes.len()));
    sig("in", hash_bytes(&bytes) ^ t as u64);
    reopen(&bytes, &key, t, &transparent())?;
    count("key_file_of_peer_opened");
    Ok(())
}

/// Files that hold no well-formed key.
fn malformed() -> Res {
    let key = gen::bytes(32);
    let (bytes, what) = match draw(4) {
        3 => {
            let v = *pick(&["2.0", "2.00", "3.00", "10.0", "0.99", "x"]);
            let data = match draw(3) {
                0 => hex(&key).to_uppercase(),
                1 => hex(&key).to_uppercase().as_bytes().chunks(8).fold(String::new(), |a, c| {
                    a + std::str::from_utf8(c).unwrap() + " "
                }),
                _ => crate::crypt::b64(&key),
            };
            let mut st = peer::Style::new(true, seed_draw());
            count("key_file_of_another_version_tried");
            (peer::encode_key_file_as(&data, v, &mut st).into_bytes(), "an XML key file of another version")
        }
        0 | 1 => {
            let mut b = hex(&key).into_bytes();
            let c = *pick(&[b'+', b'-', b' ', b'_', b'g', b'G', b'x', b':', b'@', b'/', b'`', 0, b'\n', 0xff, 0xc3]);
            match draw(4) {
                0 => {
                    for _ in 0..1 + draw(8) {
                        let i = draw(32) as usize * 2;
                        b[i] = c;
                    }
                }
                1 => {
                    b[0] = b'0';
                    b[1] = b'x';
                }
                2 => {
                    let i = draw(62) as usize;
                    b[i..i + 2].copy_from_slice(&[0xc3, 0xa9]);
                }
                _ => {
                    let i = draw(64) as usize;
                    b[i] = c;
                }
            }
            (b, "64 bytes that are not all hexadecimal digits")
        }
        _ => {
            let mut st = peer::Style::new(true, seed_draw());
            let text = peer::encode_key_file(&key, &mut st);
            let (a, z) = match (text.find("<Data"), text.find("</Data")) {
                (Some(a), Some(z)) => (a, z),
                _ => return Ok(()),
            };
            let a = match text[a..z].find('>') {
                Some(k) => a + k + 1,
                None => return Ok(()),
            };
            // Inside a comment or section nothing is the key's text.
            if text[a..z].contains('<') || text[a..z].contains('&') || z - a < 4 {
                return Ok(());
            }
            let at = a + draw((z - a) as u64) as usize;
            if !text.as_bytes()[at].is_ascii_alphanumeric() {
                return Ok(());
            }
            let mut b = text.into_bytes();
            b[at] = *pick(&[b'*', b'!', b'#', b'.', b',', b'%', b'~', b'-', b'_']);
            (b, "an XML key file whose key is not base64")
        }
    };
    note(format!("{}: {:?}", what, String::from_utf8_lossy(&bytes)));
    sig("bad", hash_bytes(&bytes));
    count("malformed_key_file_tried");
    let mut r = SimReader::new(&bytes, &transparent());
    match open(&mut r)? {
        Err(_) => Ok(()),
        Ok(k) => fail("malformed-accepted", format!("{} opens as the key {}", what, hex(k.key.unsecure()))),
    }
}

fn run() -> Res {
    weather();
    if draw(4) == 3 {
        judged();
        for _ in 0..1 + draw(4) {
            if draw(3) == 2 {
                malformed()?;
            } else {
                incoming()?;
            }
        }
        return Ok(());
    }
    let kf = match draw(5) {
        0 | 1 => {
            let t = pick(&[KeyFileType::Xml, KeyFileType::Hex, KeyFileType::Binary]).clone();
            let key = match draw(4) {
                0 => gen::key_bytes(),
                _ => gen::bytes(32),
            };
            KeyFile { key: secstr::SecStr::new(key), file_type: t }
        }
        n => {
            let r = match n {
                2 => guard(KeyFile::new_binary),
                3 => guard(KeyFile::new_hex),
                _ => guard(if draw(2) == 0 { KeyFile::new_xml } else { KeyFile::new }),
            };
            match panic_to("KeyFile::new", r)? {
                Ok(k) => k,
                Err(e) => return fail("new", format!("no key file could be made: {}", e)),
            }
        }
    };
    let key = kf.key.unsecure().to_vec();
    let t = ty(&kf.file_type);
    let mut w = SimWriter::new(&CLEAN);
    let r = save(&kf, &mut w)?;
    note(format!("a key of {} bytes, type {}: {}", key.len(), t, if r.is_ok() { "saved" } else { "refused" }));
    if let Err(e) = r {
        if t != 2 && key.len() != 32 {
            // A binary or hexadecimal key file holds 32 bytes, nothing else.
            count("unstorable_key_refused");
            judged();
            return Ok(());
        }
        return fail("refused", format!("a valid key file is not saved: {}", e));
    }
    let clean = w.out;
    let len = clean.len() as u64;
    reopen(&clean, &key, t, &CLEAN)?;
    let n = 1 + draw(4);
    for i in 0..n {
        let mut plan = transparent();
        if i + 1 < n {
            plan.fault = if draw(2) == 0 {
                write_fault(len)
            } else {
                Fault::Error { at: offset(len).min(len), kind: *pick(&KINDS), once: draw(2) == 1 }
            };
        }
        let mut w = SimWriter::new(&plan);
        let r = save(&kf, &mut w)?;
        note(format!(
            "sink {}: {}; {} after {} bytes",
            i,
            plan.describe(),
            if r.is_ok() { "saved" } else { "failed" },
            w.out.len()
        ));
        sig("sink", mix(w.fired() as u64 ^ (w.calls().min(64) << 8) ^ ((w.out.len() as u64) << 20) ^ (t as u64) << 60));
        if w.livelock() {
            return fail("livelock", format!("save kept calling a sink that fails: {}", plan.describe()));
        }
        if w.fired() || w.calls() > 20 {
            judged();
        }
        match r {
            Ok(()) => {
                if w.fired() {
                    return fail("false-success", format!("save succeeded although the sink failed: {}", plan.describe()));
                }
                let again = reopen(&w.out, &key, t, &transparent())?;
                match peer::decode_key_file(&w.out) {
                    Ok((k, u)) if k == key && u == t => {}
                    Ok(_) => return fail("peer", "another program reads another key"),
                    Err(e) => return fail("peer", format!("another program cannot read the key file: {}", e)),
                }
                let (a, b) = (CompositeKey::from_key_file(kf.clone()), CompositeKey::from_key_file(again.clone()));
                let (c, d) = (CompositeKey::from_both("p", kf.clone()), CompositeKey::from_both("p", again));
                if a.unsecure() != b.unsecure() || c.unsecure() != d.unsecure() {
                    return fail("credentials", "the reopened key file yields other credentials");
                }
                if a.unsecure()[..] != Cred::Kf(key.clone()).raw()[..] {
                    return fail("credentials", "the key file yields credentials other programs do not");
                }
                if draw(6) == 0 {
                    locks(&a, &b)?;
                }
            }
            Err(e) => {
                if !w.fired() {
                    return fail("false-failure", format!("save failed on {}: {}", plan.describe(), e));
                }
                torn(&w.out, &key, t, &CLEAN)?;
            }
        }
    }
    if draw(3) == 2 {
        // Every incomplete file.
        for n in 0..clean.len() {
            torn(&clean[..n], &key, t, &CLEAN)?;
        }
        count_n("prefixes_tried", len);
        judged();
    }
    // Readers that fail.
    for _ in 0..draw(4) {
        let mut plan = transparent();
        if chance(2, 3) {
            plan.fault = Fault::Error { at: offset(len).min(len), kind: *pick(&KINDS), once: draw(2) == 1 };
        }
        let mut r = SimReader::new(&clean, &plan);
        let got = open(&mut r)?;
        sig("reader", mix(r.fired() as u64 ^ (r.calls().min(64) << 8) ^ (r.consumed() << 20)));
        if r.livelock() {
            return fail("livelock", format!("open kept calling the reader: {}", plan.describe()));
        }
        if r.fired() {
            judged();
            note(format!("reader: {}", plan.describe()));
            // Which error it is depends on the layer that met it.
            if got.is_ok() {
                return fail("false-success", format!("open succeeded although the reader failed: {}", plan.describe()));
            }
        } else {
            reopen(&clean, &key, t, &plan)?;
        }
    }
    if kf.key.unsecure() != &key[..] || ty(&kf.file_type) != t {
        return fail("changed-by-save", "the key file was changed by saving it");
    }
    Ok(())
}

/// Judges a file that may be incomplete.
fn torn(bytes: &[u8], key: &[u8], t: u8, plan: &Plan) -> Res {
    let mut r = SimReader::new(bytes, plan);
    match open(&mut r)? {
        Err(_) => Ok(()),
        Ok(k) => {
            let ok = match bytes.len() {
                32 => k.key.unsecure() == bytes,
                64 => crate::crypt::unhex(&String::from_utf8_lossy(bytes)).as_deref() == Some(k.key.unsecure()),
                // Only white space may be missing.
                _ => peer::decode_key_file(bytes).is_ok() && k.key.unsecure() == key && ty(&k.file_type) == t,
            };
            if ok {
                return Ok(());
            }
            fail(
                "torn-accepted",
                format!(
                    "the first {} bytes of a key file open as a key of type {}: {}",
                    bytes.len(),
                    ty(&k.file_type),
                    hex(k.key.unsecure())
                ),
            )
        }
    }
}

/// What one credential locks the other opens.
fn locks(a: &CompositeKey, b: &CompositeKey) -> Res {
    let p = gen::Profile { size: 0, depth: 0, ..gen::PEER };
    let m = gen::db(&p).normal();
    let file = save_ok(&m.to(a))?;
    open_same(&file, b, &m, "credentials")?;
    count("database_opened_with_reopened_key_file");
    Ok(())
}
