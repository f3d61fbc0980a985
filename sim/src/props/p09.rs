//! P09: secrets never appear in the clear.

use super::*;
use crate::crypt::*;
use crate::gen::{Profile, PEER};
use crate::model::{MBin, MEntry, MGroup, MStr};
use std::collections::HashMap;

pub const PROP: Prop = Prop {
    id: "P09",
    scenario: run,
    quick: 6_000,
    thorough: 150_000,
    rule: "One run builds a database whose every text, attachment and credential carries a unique random marker, saves \
           it to healthy and failing sinks and searches every byte that reached a sink, the header, whatever the library prints and the debug and \
           error text of everything involved (also of refused saves, wrong credentials and malformed files and key \
           files) for the markers and for all derived keys, as they are, in base64 at any alignment, in hexadecimal, \
           in UTF-16 and as lists of numbers; the peer deciphers the document and checks that every protected value \
           is enciphered there. Non-trivial: a complete and a cut-off file were searched.",
    probes: &[],
};

/// Something that must not be found.
struct Needle {
    what: String,
    bytes: Vec<u8>,
}

/// Searches for many needles in many encodings at once, by the first eight bytes of each.
struct Finder {
    map: HashMap<[u8; 8], Vec<(usize, &'static str, Vec<u8>)>>,
    names: Vec<String>,
    /// Which hashes of eight bytes occur at all.
    bits: Vec<u64>,
}

fn slot(w: &[u8]) -> usize {
    let mut a = [0; 8];
    a.copy_from_slice(w);
    (u64::from_le_bytes(a).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 46) as usize
}

fn list(b: &[u8], sep: &str) -> Vec<u8> {
    b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(sep).into_bytes()
}

/// The letters and digits of a text, in lower case and with hexadecimal numbers as two digits each,
/// and the bytes its decimal numbers stand for.
fn flat(hay: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let (mut letters, mut numbers) = (Vec::with_capacity(hay.len()), Vec::new());
    for t in hay.split(|c| !c.is_ascii_alphanumeric()) {
        let h = match t {
            [b'0', b'x', h @ ..] | [b'x', h @ ..] if !h.is_empty() && h.len() <= 2 => h,
            _ => t,
        };
        if h.len() == 1 && h[0].is_ascii_hexdigit() {
            letters.push(b'0');
        }
        letters.extend(h.iter().map(|c| c.to_ascii_lowercase()));
        if !t.is_empty() && t.len() <= 3 && t.iter().all(|c| c.is_ascii_digit()) {
            let n = t.iter().fold(0u32, |n, c| n * 10 + (c - b'0') as u32);
            if n < 256 {
                numbers.push(n as u8);
            }
        }
    }
    (letters, numbers)
}

impl Finder {
    fn new(needles: &[Needle], text: bool) -> Finder {
        let mut f = Finder { map: HashMap::new(), names: Vec::new(), bits: vec![0; 1 << 12] };
        for n in needles {
            let k = f.names.len();
            f.names.push(n.what.clone());
            let b = &n.bytes;
            let mut put = |how: &'static str, v: Vec<u8>| {
                if v.len() >= 10 {
                    let mut h = [0; 8];
                    h.copy_from_slice(&v[..8]);
                    let i = slot(&h);
                    f.bits[i >> 6] |= 1 << (i & 63);
                    f.map.entry(h).or_default().push((k, how, v));
                }
            };
            put("as it is", b.clone());
            put("reversed", b.iter().rev().copied().collect());
            put("in hexadecimal", hex(b).into_bytes());
            put("in hexadecimal", hex(b).to_uppercase().into_bytes());
            put("in UTF-16", b.iter().flat_map(|x| [*x, 0]).collect());
            for skip in 0..3usize {
                // The characters that depend on these bytes only.
                let mut v = vec![0; skip];
                v.extend(b);
                v.truncate(v.len() / 3 * 3);
                let e = b64(&v).into_bytes();
                let e = e[if skip == 0 { 0 } else { 4 }..].to_vec();
                put("in base64", e.clone());
                put("in base64", e.iter().map(|c| match c { b'+' => b'-', b'/' => b'_', c => *c }).collect());
            }
            if text {
                if b.iter().all(|c| c.is_ascii_graphic() || *c == b' ') {
                    put("in letters", b.iter().filter(|c| c.is_ascii_alphanumeric()).map(|c| c.to_ascii_lowercase()).collect());
                }
                put("as numbers", list(b, ", "));
                put("as numbers", list(b, ","));
                put("as numbers", list(b, " "));
                for ind in [4, 8, 12, 16, 20, 24, 28, 32, 36, 40] {
                    put("as numbers", list(b, &format!(",\n{}", " ".repeat(ind))));
                }
                put("as hexadecimal numbers", b.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(", ").into_bytes());
                put("as hexadecimal numbers", b.iter().map(|x| format!("0x{:02x}", x)).collect::<Vec<_>>().join(", ").into_bytes());
                put("with hexadecimal escapes", b.iter().map(|x| format!("\\x{:02x}", x)).collect::<String>().into_bytes());
            }
        }
        f
    }

    /// Searches what the library shows or writes; text also with everything between its words
    /// and numbers taken out.
    fn search(&self, hay: &[u8], place: &str) -> Res {
        self.scan(hay, place)?;
        if place.contains("text of") {
            let (letters, numbers) = flat(hay);
            self.scan(&letters, place)?;
            self.scan(&numbers, place)?;
        }
        Ok(())
    }

    fn scan(&self, hay: &[u8], place: &str) -> Res {
        for (i, w) in hay.windows(8).enumerate() {
            let k = slot(w);
            if self.bits[k >> 6] >> (k & 63) & 1 == 0 {
                continue;
            }
            if let Some(list) = self.map.get(w) {
                for (k, how, v) in list {
                    if hay[i..].starts_with(v) {
                        return fail(
                            if place.contains("text of") { "shown" } else { "in-the-clear" },
                            format!("{} appears {} in {} at {}", self.names[*k], how, place, i),
                        );
                    }
                }
            }
        }
        Ok(())
    }
}

thread_local!(static MARKERS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });

/// A seed that was not used before in this run, whatever was drawn.
fn own_seed() -> u64 {
    let n = MARKERS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    mix(mix(seed_draw() ^ 0x5eed).wrapping_add(n.wrapping_mul(0x9e37_79b9_7f4a_7c15)))
}

/// Text that occurs nowhere else.
fn marker() -> String {
    let mut r = Prng::new(own_seed());
    (0..18)
        .map(|_| b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"[r.below(62) as usize] as char)
        .collect()
}

struct Planter {
    plain: Vec<Needle>,
    prot: Vec<Needle>,
    large: bool,
}

impl Planter {
    fn text(&mut self, what: &str, s: &mut String) {
        let k = marker();
        self.plain.push(Needle { what: what.into(), bytes: k.clone().into_bytes() });
        match k.as_bytes()[0] & 3 {
            0 => *s = k,
            1 => s.push_str(&k),
            _ => s.insert_str(0, &k),
        }
    }
    fn value(&mut self, what: &str, prot: bool, v: &mut Vec<u8>) {
        if v.len() < 4 && draw(2) == 0 {
            // Too short to search for, but its protection is compared.
            count(if prot { "short_protected_value" } else { "short_plain_value" });
            return;
        }
        let k = marker().into_bytes();
        let n = Needle { what: what.into(), bytes: k.clone() };
        if prot {
            self.prot.push(n);
        } else {
            self.plain.push(n);
        }
        match k[0] & 3 {
            0 => *v = k,
            1 => v.extend(k),
            _ => {
                v.splice(0..0, k);
            }
        }
        if prot && !self.large && chance(1, 200) {
            // Much of it, once in a run.
            self.large = true;
            v.extend(marker().repeat(draw(8000) as usize).into_bytes());
            count("large_protected_value");
        }
    }
    fn entry(&mut self, e: &mut MEntry, how: &str) {
        let old = std::mem::take(&mut e.strings);
        for (k, mut v) in old {
            let std = ["Title", "Notes", "Password", "URL", "UserName"].contains(&&k[..]);
            let mut k = k;
            if !std {
                self.text(&format!("the name of {} string", how), &mut k);
            }
            self.value(&format!("{} {} string", how, if v.prot { "protected" } else { "plain" }), v.prot, &mut v.val);
            e.strings.insert(k, v);
        }
        if draw(3) > 0 {
            let mut v = MStr { prot: draw(4) > 0, val: Vec::new() };
            self.value(&format!("{} password", how), v.prot, &mut v.val);
            e.strings.insert("Password".into(), v);
        }
        let old = std::mem::take(&mut e.bins);
        for (mut k, mut v) in old {
            self.text(&format!("the name of {} attachment", how), &mut k);
            match v {
                MBin::Plain(ref mut b) => self.value(&format!("{} plain attachment", how), false, b),
                MBin::Prot(ref mut b) => self.value(&format!("{} protected attachment", how), true, b),
                MBin::Ref(_) => {}
            }
            e.bins.insert(k, v);
        }
        for a in &mut e.assoc {
            self.text("an association's window", &mut a.0);
            self.text("an association's keystrokes", &mut a.1);
        }
        self.text("an entry's URL", &mut e.url);
        self.text("an entry's tags", &mut e.tags);
        self.text("an entry's auto-type sequence", &mut e.at_seq);
        for h in &mut e.history {
            self.entry(h, "an old entry's");
        }
    }
    fn group(&mut self, g: &mut MGroup) {
        self.text("a group's name", &mut g.name);
        self.text("a group's notes", &mut g.notes);
        self.text("a group's auto-type sequence", &mut g.at_seq);
        for e in &mut g.entries {
            self.entry(e, "an entry's");
        }
        for s in &mut g.groups {
            self.group(s);
        }
    }
    fn db(&mut self, m: &mut MDb) {
        self.text("the database name", &mut m.name);
        self.text("the description", &mut m.description);
        self.text("the default user name", &mut m.username);
        for v in m.binaries.values_mut() {
            self.value("a binary", false, v);
        }
        for v in m.icons.values_mut() {
            self.value("an icon", false, v);
        }
        for (mut k, mut v) in std::mem::take(&mut m.custom_data) {
            self.text("a custom key", &mut k);
            self.text("a custom value", &mut v);
            m.custom_data.insert(k, v);
        }
        self.group(&mut m.root);
    }
}

fn credentials(out: &mut Vec<Needle>) -> Cred {
    let mut pw = gen::password();
    pw.truncate(pw.char_indices().nth(6).map_or(pw.len(), |x| x.0));
    let k = marker();
    pw.push_str(&k);
    let mut kf = vec![0; 32];
    Prng::new(own_seed()).fill(&mut kf);
    let c = match draw(3) {
        0 => Cred::Pw(pw.clone()),
        1 => Cred::Kf(kf.clone()),
        _ => Cred::Both(pw.clone(), kf.clone()),
    };
    out.push(Needle { what: "the password".into(), bytes: k.into_bytes() });
    out.push(Needle { what: "the digest of the password".into(), bytes: sha256(&[pw.as_bytes()]).to_vec() });
    out.push(Needle { what: "the key of the key file".into(), bytes: kf.clone() });
    out.push(Needle { what: "the digest of the key of the key file".into(), bytes: sha256(&[&kf]).to_vec() });
    out.push(Needle { what: "the composite key".into(), bytes: c.raw().to_vec() });
    c
}

/// The keys that this save derived.
fn derived(file: &[u8], raw: &[u8; 32]) -> Vec<Needle> {
    let mut out = Vec::new();
    if let Ok((h, _)) = peer::Hdr::parse(file) {
        if let (Ok(k), Ok(seed), Ok(n)) = (h.key(raw), h.get(5), h.rounds()) {
            out.push(Needle { what: "the master key".into(), bytes: k.to_vec() });
            if seed.len() == 32 {
                let mut s = [0; 32];
                s.copy_from_slice(seed);
                let t = transform(raw, &s, n);
                out.push(Needle { what: "the transformed key".into(), bytes: t.to_vec() });
            }
        }
        if let Ok(k) = h.get(8) {
            out.push(Needle { what: "the inner cipher key".into(), bytes: sha256(&[k]).to_vec() });
        }
    }
    out
}

fn run() -> Res {
    weather();
    let size = *pick(&[1u64, 0, 1, 2]);
    let p = Profile { size, depth: 2, max_rounds: 9, ..PEER };
    let mut keys = Vec::new();
    let cred = credentials(&mut keys);
    let (key, raw) = (cred.lib(), cred.raw());
    let mut m = gen::db(&p).normal();
    m.rounds = m.rounds.min(50);
    if m.root.entries.is_empty() {
        m.root.entries.push(gen::entry(&p, 1));
    }
    let mut pl = Planter { plain: Vec::new(), prot: Vec::new(), large: false };
    pl.db(&mut m);
    let m = m.normal();
    let mut db = m.to(&key);
    note(format!("{} plain and {} protected values are marked", pl.plain.len(), pl.prot.len()));
    sig("marked", mix(pl.plain.len() as u64 ^ (pl.prot.len() as u64) << 32));

    // Nothing that is content or key goes to a sink in the clear.
    let mut all: Vec<Needle> = Vec::new();
    all.append(&mut pl.plain);
    let prot_from = all.len();
    all.append(&mut pl.prot);
    all.append(&mut keys);
    let in_file = Finder::new(&all, false);
    // In debug and error text, protected values and keys stay out.
    let in_text = Finder::new(&all[prot_from..], true);
    // In the document, protected values are enciphered.
    let in_doc = Finder::new(&all[prot_from..], false);

    for round in 0..1 + draw(3) {
        let file = save_ok(&db)?;
        in_file.search(&file, "the file")?;
        let more = Finder::new(&derived(&file, &raw), true);
        more.search(&file, "the file")?;
        let d = match peer::decode(&file, &raw) {
            Ok(d) => d,
            Err(e) => return fail("not-enciphered", format!("the file is not an enciphered database: {}", e)),
        };
        for (id, v) in &d.hdr.fields {
            let fits = match id {
                0 => v.len() <= 4,
                1 => m.comment.as_deref() == Some(&v[..]),
                2 => v.len() == 16,
                3 | 10 => v.len() == 4,
                6 => v.len() == 8,
                7 => v.len() == 16,
                4 | 5 | 8 | 9 => v.len() == 32,
                _ => false,
            };
            if !fits {
                return fail("header-content", format!("header field {} carries {} bytes of its own", id, v.len()));
            }
        }
        // Compressed plaintext would hide the markers: nothing in the file inflates to them.
        for i in 0..file.len().saturating_sub(10) {
            if file[i..].starts_with(&[0x1f, 0x8b, 8]) {
                let mut o = Vec::new();
                let _ = flate2::bufread::GzDecoder::new(&file[i..]).take(1 << 20).read_to_end(&mut o);
                in_file.search(&o, "what the file holds compressed")?;
            }
        }
        in_doc.search(&d.xml, "the document")?;
        more.search(&d.xml, "the document")?;
        if let Some(x) = model::diff(&m, &d.db) {
            return fail("not-marked", format!("the document's protection differs {}", x));
        }
        // Each protected value is one of those that the inner cipher covers.
        let mut covered: Vec<&[u8]> = d.protected.iter().map(|v| &v.plain[..]).collect();
        let es = m.root.all_entries();
        let strings = es.iter().flat_map(|e| e.strings.values()).filter(|s| s.prot).map(|s| &s.val);
        let files = es.iter().flat_map(|e| e.bins.values()).filter_map(|b| match b {
            MBin::Prot(b) => Some(b),
            _ => None,
        });
        for v in strings.chain(files) {
            match covered.iter().position(|c| *c == &v[..]) {
                Some(i) => drop(covered.swap_remove(i)),
                None => return fail("not-marked", format!("a protected value of {} bytes is not enciphered", v.len())),
            }
        }
        for v in &d.protected {
            if !v.plain.is_empty() && v.plain.len() > 3 && v.text == b64(&v.plain) {
                return fail("not-enciphered", format!("protected value {:?} is stored as it is", v.key));
            }
        }
        count_n("protected_values_checked", d.protected.len() as u64);
        // Cut-off files.
        for _ in 0..draw(4) {
            let mut plan = transparent();
            plan.fault = super::p02::write_fault(file.len() as u64);
            let mut w = SimWriter::new(&plan);
            let r = save_to(&db, &mut w)?;
            in_file.search(&w.out, "a file cut off")?;
            Finder::new(&derived(&w.out, &raw), true).search(&w.out, "a file cut off")?;
            if let Err(e) = r {
                texts(&in_text, &e)?;
            }
            count("cut_off_file_searched");
            judged();
        }
        // Debug text.
        debug(&in_text, &more, &db, &key)?;
        // Wrong credentials, damage, malformed documents.
        for _ in 0..draw(4) {
            let mut bytes = file.clone();
            let mut k2 = key.clone();
            match draw(5) {
                4 => {
                    // A protected value that deciphers to something that is not quite text.
                    let l: Vec<_> = d.protected.iter().filter(|v| !v.plain.is_empty()).collect();
                    if l.is_empty() {
                        continue;
                    }
                    let v = *pick(&l);
                    let mut c = unb64(&v.text).unwrap_or_default();
                    let n = c.len();
                    match draw(4) {
                        0 => c[0] ^= 0x80,
                        1 => c[n - 1] ^= 0x80,
                        _ => c.extend(gen::bytes(1 + draw(3) as usize)),
                    }
                    let x = String::from_utf8_lossy(&d.xml).replacen(&v.text, &b64(&c), 1);
                    bytes = peer::wrap(x.as_bytes(), &d.hdr, &raw, &mut peer::Style::new(false, 1));
                    count("protected_value_garbled");
                }
                0 => {
                    let mut o = Vec::new();
                    k2 = credentials(&mut o).lib();
                    if let Err(e) = open_bytes(&bytes, &k2)? {
                        texts(&Finder::new(&o, true), &e)?;
                    }
                }
                1 => {
                    damage::mutate(&mut bytes, &[]);
                    damage::clamp_rounds(&mut bytes);
                }
                _ => {
                    let mut x = String::from_utf8_lossy(&d.xml).into_owned();
                    for _ in 0..1 + draw(3) {
                        super::p06::mutate_xml(&mut x);
                    }
                    bytes = peer::wrap(x.as_bytes(), &d.hdr, &raw, &mut peer::Style::new(false, 1));
                }
            }
            match open_bytes(&bytes, &k2)? {
                Err(e) => {
                    texts(&in_text, &e)?;
                    texts(&more, &e)?;
                    count("error_text_searched");
                }
                Ok(_) => {}
            }
        }
        if draw(3) == 2 {
            refused(&db, &in_text)?;
        }
        let p = printed();
        in_text.search(&p, "the printed text of the library")?;
        more.search(&p, "the printed text of the library")?;
        key_files()?;
        note(format!("round {}: {} bytes searched", round, file.len()));
        db = open_same(&file, &key, &m, "reopen")?;
        db.composite_key = key.clone();
    }
    Ok(())
}

fn texts(f: &Finder, e: &Error) -> Res {
    f.search(format!("{}", e).as_bytes(), "the text of an error")?;
    f.search(format!("{:?}", e).as_bytes(), "the debug text of an error")
}

fn debug(f: &Finder, g: &Finder, db: &Database, key: &CompositeKey) -> Res {
    let texts = debug_texts(db, key);
    for (what, t) in &texts {
        f.search(t.as_bytes(), what)?;
        g.search(t.as_bytes(), what)?;
    }
    // Another database that differs in its secrets alone looks the same, down to the last character.
    let mut other = db.clone();
    let k2 = loop {
        let k = gen::cred().lib();
        if k.unsecure() != key.unsecure() {
            break k;
        }
    };
    other.composite_key = k2.clone();
    replace_secrets(&mut other.root_group);
    for ((what, a), (_, b)) in texts.iter().zip(debug_texts(&other, &k2)) {
        if *a != b {
            let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(0);
            return fail("depends-on-secret", format!("{} changes with the secrets, at byte {}", what, i));
        }
    }
    count("debug_text_searched");
    Ok(())
}

fn replace_secrets(g: &mut kpdb::Group) {
    fn other(s: &mut secstr::SecStr) {
        let v = s.unsecure().iter().map(|b| if b.is_ascii_alphanumeric() { if *b == b'x' { b'y' } else { b'x' } } else { *b });
        *s = secstr::SecStr::new(v.collect());
    }
    fn entry(e: &mut kpdb::Entry) {
        for v in e.strings.values_mut() {
            if let kpdb::StringValue::Protected(ref mut s) = *v {
                other(s);
            }
        }
        for v in e.binaries.values_mut() {
            if let kpdb::BinaryValue::Protected(ref mut s) = *v {
                other(s);
            }
        }
        e.history.iter_mut().for_each(entry);
    }
    g.entries.iter_mut().for_each(entry);
    g.groups.iter_mut().for_each(replace_secrets);
}

fn debug_texts(db: &Database, key: &CompositeKey) -> Vec<(&'static str, String)> {
    let mut out = vec![
        ("the debug text of a database", format!("{:?}", db)),
        ("the debug text of a database", format!("{:#?}", db)),
        ("the debug text of a composite key", format!("{:?} {:#?} {:02x?}", key, key, key)),
    ];
    for e in &db.root_group.entries {
        out.push(("the debug text of an entry", format!("{:?} {:#?} {:x?}", e, e, e)));
        for v in e.strings.values() {
            out.push(("the debug text of a string", format!("{:?} {:#?}", v, v)));
        }
        for v in e.binaries.values() {
            out.push(("the debug text of an attachment", format!("{:?} {:#?} {:x?}", v, v, v)));
        }
    }
    out.push(("the debug text of a group", format!("{:?} {:#?}", db.root_group, db.root_group)));
    out
}

/// A save that refuses a value says so without showing it.
fn refused(db: &Database, f: &Finder) -> Res {
    let mut db = db.clone();
    let k = marker();
    let mut e = kpdb::Entry::new();
    let mut v = k.clone().into_bytes();
    v.insert(draw(10) as usize, if draw(2) == 0 { 0xff } else { 1 });
    e.strings.insert(
        kpdb::StringKey::Password,
        kpdb::StringValue::Protected(secstr::SecStr::new(v.clone())),
    );
    db.root_group.add_entry(e);
    let mut w = SimWriter::new(&CLEAN);
    let own = [
        Needle { what: "a refused value".into(), bytes: v },
        Needle { what: "a refused value".into(), bytes: k.into_bytes()[10..].to_vec() },
    ];
    let own = Finder::new(&own, true);
    if let Err(e) = save_to(&db, &mut w)? {
        texts(f, &e)?;
        texts(&own, &e)?;
        count("refused_save_searched");
    }
    let p = printed();
    f.search(&p, "the printed text of the library")?;
    own.search(&p, "the printed text of the library")?;
    f.search(&w.out, "the output of a refused save")?;
    own.search(&w.out, "the output of a refused save")
}

/// Key files: debug text, and errors about malformed ones.
fn key_files() -> Res {
    let mut k = vec![0; 32];
    Prng::new(own_seed()).fill(&mut k);
    let needles = [
        Needle { what: "the key of a key file".into(), bytes: k.clone() },
        Needle { what: "a part of the key of a key file".into(), bytes: k[..15].to_vec() },
    ];
    let f = Finder::new(&needles, true);
    let ty = pick(&[kpdb::KeyFileType::Binary, kpdb::KeyFileType::Hex, kpdb::KeyFileType::Xml]).clone();
    let kf = kpdb::KeyFile { key: secstr::SecStr::new(k.clone()), file_type: ty };
    let text = |k: &kpdb::KeyFile| format!("{:?} {:#?} {:x?}", k, k, k);
    f.search(text(&kf).as_bytes(), "the debug text of a key file")?;
    let k2 = secstr::SecStr::new(k.iter().rev().map(|b| b ^ 0x55).collect());
    if text(&kf) != text(&kpdb::KeyFile { key: k2, file_type: kf.file_type.clone() }) {
        return fail("depends-on-secret", "the debug text of a key file changes with its key");
    }
    let mut w = SimWriter::new(&CLEAN);
    if let Err(e) = panic_to("KeyFile::save", guard(|| kf.save(&mut w)))? {
        return texts(&f, &e);
    }
    let mut bytes = w.out;
    match draw(3) {
        0 => {
            damage::mutate(&mut bytes, &[]);
        }
        1 => {
            let mut s = String::from_utf8_lossy(&bytes).into_owned();
            super::p06::mutate_xml(&mut s);
            bytes = s.into_bytes();
        }
        _ => {
            // One character of the data is wrong.
            if let Some(i) = bytes.windows(6).position(|w| w == b"<Data>") {
                let i = (i + 6 + draw(44) as usize).min(bytes.len() - 1);
                bytes[i] = *pick(&[b'!', b'-', b'=', b'&']);
            }
        }
    }
    let plan = transparent();
    let mut r = SimReader::new(&bytes, &plan);
    let o = panic_to("KeyFile::open", guard(|| kpdb::KeyFile::open(&mut r)))?;
    f.search(&printed(), "the printed text of the library")?;
    match o {
        Err(e) => {
            count("key_file_error_searched");
            texts(&f, &e)
        }
        Ok(k) => f.search(format!("{:?}", k).as_bytes(), "the debug text of a key file"),
    }
}
