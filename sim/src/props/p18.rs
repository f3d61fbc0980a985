//! P18: files that are malformed or need what the library does not support are refused with the reason.

use super::*;
use crate::gen::{Profile, PEER};
use crate::xml::{self, Doc, Kid};

pub const PROP: Prop = Prop {
    id: "P18",
    scenario: run,
    quick: 12_000,
    thorough: 250_000,
    rule: "One run lets the peer write a random database, plants faults of what is written in the outer header (file \
           or database type, cipher, compression or field it does not know, missing fields, fields of a wrong size, \
           with a header hash that fits and any payload) or in the document (values that are not of their type, \
           missing parts, broken XML), and opens each file through a splitting and interrupting reader, for header \
           faults also with foreign credentials. Non-trivial: a file with a planted fault was refused.",
    probes: &[],
};

/// Sizes of the header fields that have to be there.
const SIZES: [(u8, u16); 9] = [(2, 16), (3, 4), (4, 32), (5, 32), (6, 8), (7, 16), (8, 32), (9, 32), (10, 4)];

/// Plants a fault in the header; the error that has to follow.
fn spoil_header(h: &mut peer::Hdr, sig: &mut [u8; 8]) -> Error {
    let n = h.fields.len();
    match draw(9) {
        0 => {
            let mut s = [sig[0], sig[1], sig[2], sig[3]];
            match draw(3) {
                0 => s[draw(4) as usize] ^= 1 << draw(8),
                1 => s.reverse(),
                _ => s = *pick(&[*b"PK\x03\x04", *b"<?xm", [0; 4], [0xff; 4]]),
            }
            sig[..4].copy_from_slice(&s);
            Error::InvalidDbSignature(s)
        }
        1 => {
            let mut s = [sig[4], sig[5], sig[6], sig[7]];
            match draw(3) {
                0 => s[draw(4) as usize] ^= 1 << draw(8),
                // KeePass 1 and the preview of KeePass 2.
                _ => s = *pick(&[[0x65, 0xfb, 0x4b, 0xb5], [0x66, 0xfb, 0x4b, 0xb5], [0; 4]]),
            }
            sig[4..].copy_from_slice(&s);
            Error::UnhandledDbType(s)
        }
        2 => {
            let id = match draw(3) {
                0 => 11 + draw(3) as u8,
                _ => 11 + draw(245) as u8,
            };
            let v = gen::bytes(*pick(&[0usize, 1, 4, 8, 16, 32, 100]));
            h.fields.insert(draw(n as u64) as usize, (id, v));
            Error::UnhandledHeader(id)
        }
        3 => {
            let id = 2 + draw(9) as u8;
            h.fields.retain(|f| f.0 != id);
            Error::MissingHeader(id)
        }
        4 => {
            let mut c = peer::AES_ID;
            match draw(4) {
                0 => c[draw(16) as usize] ^= 1 << draw(8),
                1 => {
                    c = [0xad, 0x68, 0xf2, 0x9f, 0x57, 0x6f, 0x4b, 0xb9, 0xa3, 0x6a, 0xd4, 0x7a, 0xf9, 0x65, 0x34, 0x6c]
                }
                2 => {
                    c = [0xd6, 0x03, 0x8a, 0x2b, 0x8b, 0x6f, 0x4c, 0xb5, 0xa5, 0x24, 0x33, 0x9a, 0x31, 0xdb, 0xb5, 0x9a]
                }
                _ => c = [0; 16],
            }
            h.set(2, c.to_vec());
            Error::UnhandledMasterCipher(c)
        }
        5 => {
            let v = *pick(&[2u32, 3, 256, 257, 1 << 16, 1 << 24, u32::MAX]);
            h.set(3, v.to_le_bytes().to_vec());
            Error::UnhandledCompression(v)
        }
        6 => {
            let v = *pick(&[0u32, 1, 3, 4, 258, 2 << 16, 2 << 24, u32::MAX]);
            h.set(10, v.to_le_bytes().to_vec());
            Error::UnhandledStreamCipher(v)
        }
        _ => {
            let (id, expected) = *pick(&SIZES);
            let f = match h.fields.iter_mut().find(|f| f.0 == id) {
                Some(f) => f,
                None => return Error::MissingHeader(id),
            };
            let actual = loop {
                let a = match draw(6) {
                    0 => 0,
                    1 => expected + 1,
                    2 => expected - 1,
                    3 => *pick(&[1u16, 2, 4, 8, 16, 24, 32, 48, 64]),
                    4 => expected + 256,
                    _ => draw(2000) as u16,
                };
                if a != expected {
                    break a;
                }
            };
            f.1.resize(actual as usize, 0);
            if f.1.len() > expected as usize && draw(2) == 0 {
                // The surplus in front of the value.
                f.1.rotate_right(actual as usize - expected as usize);
            }
            Error::InvalidHeaderSize { id, expected, actual }
        }
    }
}

fn headers(m: &MDb, raw: &[u8; 32], key: &CompositeKey) -> Res {
    let mut st = peer::Style::new(chance(2, 3), seed_draw());
    let good = peer::header(m, &mut st, &mut Prng::new(seed_draw()));
    let mut bad = good.clone();
    let mut sig8 = peer::SIG;
    let mut want = vec![spoil_header(&mut bad, &mut sig8)];
    if draw(6) == 0 {
        want.push(spoil_header(&mut bad, &mut sig8));
        if bad == good && sig8 == peer::SIG {
            return Ok(());
        }
    }
    // The document carries the hash of the spoilt header, and the payload fits the intact one.
    let mut head = bad.bytes();
    head[..8].copy_from_slice(&sig8);
    let mut file = head.clone();
    let body = draw(6);
    match body {
        0 => {}
        1 => file.extend(gen::bytes(draw(300) as usize)),
        _ => {
            st.hash = false;
            let mut xml = peer::encode_xml(m, &good, &mut st);
            if body > 3 {
                let hash = crypt::b64(&crypt::sha256(&[&head]));
                if let Some(at) = xml.rfind("</Meta") {
                    xml.insert_str(at, &format!("<HeaderHash>{}</HeaderHash>", hash));
                }
            }
            let whole = peer::wrap(xml.as_bytes(), &good, raw, &mut st);
            file.extend(&whole[good.bytes().len()..]);
        }
    }
    let other = gen::cred();
    let foreign = chance(1, 4);
    let key = if foreign { other.lib() } else { key.clone() };
    let plan = transparent();
    let mut r = SimReader::new(&file, &plan);
    let got = open_from(&mut r, &key)?;
    let names: Vec<String> = want.iter().map(|e| format!("{:?}", e)).collect();
    sig(&names.join(" "), body);
    match got {
        Ok(_) => fail("opened", format!("a file whose header calls for {} is opened", names.join(" and "))),
        Err(e) => {
            let e = format!("{:?}", e);
            if !names.contains(&e) {
                return fail("other-reason", format!("a file whose header calls for {} is refused with {}", names.join(" and "), e));
            }
            note(format!("{}{} (body {}): refused", names.join(" and "), if foreign { ", foreign credentials" } else { "" }, body));
            judged();
            count("header_faults");
            Ok(())
        }
    }
}

// ------------------------------------------------------------------------------------------------

fn esc(o: &mut String, t: &str) {
    for c in t.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' => o.push_str("&quot;"),
            '\r' => o.push_str("&#13;"),
            '\n' => o.push_str("&#10;"),
            '\t' => o.push_str("&#9;"),
            c => o.push(c),
        }
    }
}

fn print(d: &Doc, n: usize, o: &mut String) {
    let x = &d.nodes[n];
    o.push('<');
    o.push_str(&x.name);
    for (k, v) in &x.attrs {
        o.push_str(&format!(" {}=\"", k));
        esc(o, v);
        o.push('"');
    }
    o.push('>');
    for k in &x.kids {
        match k {
            Kid::El(i) => print(d, *i, o),
            Kid::Text(t) => esc(o, t),
        }
    }
    o.push_str(&format!("</{}>", x.name));
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Type {
    Bool,
    OptBool,
    Int,
    Icon,
    Obf,
    Uuid,
    OptUuid,
    Time,
    Data,
    Color,
}

/// The type of a leaf by the names of it and of its parent.
fn type_of(name: &str, parent: &str) -> Option<Type> {
    Some(match (parent, name) {
        ("Times", "Expires") | ("Group", "IsExpanded") | ("AutoType", "Enabled") | ("Meta", "RecycleBinEnabled") => Type::Bool,
        ("MemoryProtection", n) if n.starts_with("Protect") => Type::Bool,
        ("Group", "EnableAutoType") | ("Group", "EnableSearching") => Type::OptBool,
        ("Times", "UsageCount")
        | ("Meta", "MaintenanceHistoryDays")
        | ("Meta", "MasterKeyChangeRec")
        | ("Meta", "MasterKeyChangeForce")
        | ("Meta", "HistoryMaxItems")
        | ("Meta", "HistoryMaxSize") => Type::Int,
        ("Group", "IconID") | ("Entry", "IconID") => Type::Icon,
        ("AutoType", "DataTransferObfuscation") => Type::Obf,
        ("Group", "UUID") | ("Entry", "UUID") | ("Icon", "UUID") | ("Group", "LastTopVisibleEntry") => Type::Uuid,
        ("Meta", "RecycleBinUUID")
        | ("Meta", "EntryTemplatesGroup")
        | ("Meta", "LastSelectedGroup")
        | ("Meta", "LastTopVisibleGroup") => Type::Uuid,
        ("Group", "CustomIconUUID") | ("Entry", "CustomIconUUID") => Type::OptUuid,
        ("Times", "CreationTime")
        | ("Times", "ExpiryTime")
        | ("Times", "LastAccessTime")
        | ("Times", "LastModificationTime")
        | ("Times", "LocationChanged") => Type::Time,
        ("Meta", "DatabaseNameChanged")
        | ("Meta", "DatabaseDescriptionChanged")
        | ("Meta", "DefaultUserNameChanged")
        | ("Meta", "MasterKeyChanged")
        | ("Meta", "RecycleBinChanged")
        | ("Meta", "EntryTemplatesGroupChanged") => Type::Time,
        ("Icon", "Data") | ("Binaries", "Binary") | ("Binary", "Value") | ("Meta", "HeaderHash") => Type::Data,
        ("Entry", "ForegroundColor") | ("Entry", "BackgroundColor") | ("Meta", "Color") => Type::Color,
        _ => return None,
    })
}

/// A text that no program can take for a value of the type.
fn bad(t: Type) -> &'static str {
    match t {
        Type::Bool => *pick(&["", "maybe", "yes", "Truee", "null", "2", "True False", "-", "tru", "FALS"]),
        Type::OptBool => *pick(&["maybe", "no", "nul", "nulll", "2", "none", "True,", "falsee"]),
        Type::Int => *pick(&["", "abc", "1.5", "12a", "0x10", "1 2", "--1", "99999999999999999999", "1e3", "٣"]),
        Type::Icon => *pick(&["", "-1", "69", "70", "255", "256", "-2147483648", "2147483647", "4294967296", "key", "1.0"]),
        Type::Obf => *pick(&["", "2", "-1", "3", "256", "257", "none", "2147483647"]),
        Type::Uuid => *pick(&[
            "", "AAAA", "!", "AAAAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAAA=",
            "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=", "00000000-0000-0000-0000-000000000000",
            "00000000000000000000000000000000",
        ]),
        Type::OptUuid => *pick(&["AAAA", "!", "AAAAAAAAAAAAAAAAAAAAAAA=", "AAAAAAAAAAAAAAAAAAAA", "null", "00000000000000000000000000000000"]),
        Type::Time => *pick(&[
            "", "yesterday", "2016-13-01T00:00:00Z", "2016-02-30T00:00:00Z", "2016-01-02T25:00:00Z", "2016-01-02",
            "12345", "2016-01-02T03:04:05", "2016-01-02T03:04:05Zx", "2016-00-10T00:00:00Z", "2016-01-02T03:61:05Z", "null",
        ]),
        Type::Data => *pick(&["!!!!", "AAA", "A", "AAAA=", "AA==A", "AA=A", "<>", "AA\u{e9}A", "____"]),
        Type::Color => *pick(&[
            "red", "#", "#12345", "#1234567", "123456", "1234567", "#12345G", "#GG0000", "#00GG00", "#+1+2+3", "#-1-2-3", "##12345",
            "#éé11", "# 1 2 3", "null",
        ]),
    }
}

/// Plants a fault in the document and says which.
fn spoil_document(d: &mut Doc) -> Option<String> {
    let n = d.nodes.len();
    let mut parent = vec![0; n];
    for i in 0..n {
        for k in d.kids(i).collect::<Vec<_>>() {
            parent[k] = i;
        }
    }
    let name = |i: usize| d.nodes[i].name.clone();
    let up = |i: usize| if i == 0 { String::new() } else { d.nodes[parent[i]].name.clone() };
    // A leaf of a kind is chosen in two steps, so that rare kinds are as likely as common ones.
    let choose = |c: Vec<(String, usize)>| -> Option<usize> {
        let mut kinds: Vec<&String> = c.iter().map(|x| &x.0).collect();
        kinds.sort();
        kinds.dedup();
        if kinds.is_empty() {
            return None;
        }
        let k = kinds[draw(kinds.len() as u64) as usize].clone();
        let of: Vec<usize> = c.iter().filter(|x| x.0 == k).map(|x| x.1).collect();
        Some(of[draw(of.len() as u64) as usize])
    };
    match draw(8) {
        0 => {
            let x = *pick(&["KeePass", "keepassfile", "KeePassFileX", "html", "Root", "Meta", "_"]);
            d.nodes[0].name = x.into();
            Some(format!("the root element is {}", x))
        }
        1 => {
            // A part that has to be there.
            let c = (0..n)
                .filter(|&i| {
                    let (u, m) = (up(i), name(i));
                    matches!(
                        (&u[..], &m[..]),
                        ("String", "Key" | "Value") | ("Binary", "Key" | "Value") | ("Item", "Key" | "Value") | ("Icon", "UUID" | "Data")
                    )
                })
                .map(|i| (format!("{}/{}", up(i), name(i)), i))
                .collect();
            let i = choose(c)?;
            let what = format!("{} without {}", up(i), name(i));
            let p = parent[i];
            match draw(3) {
                0 => d.nodes[i].name = format!("{}X", d.nodes[i].name),
                _ => d.nodes[p].kids.retain(|k| !matches!(k, Kid::El(j) if *j == i)),
            }
            Some(what)
        }
        2 => {
            // An attribute that is neither true nor false, or the missing ID of a binary.
            let c = (0..n)
                .filter(|&i| {
                    let (u, m) = (up(i), name(i));
                    matches!((&u[..], &m[..]), ("String", "Value") | ("Binary", "Value") | ("Binaries", "Binary"))
                        && d.attr(i, "Ref").is_none()
                })
                .map(|i| (format!("{}/{}", up(i), name(i)), i))
                .collect();
            let i = choose(c)?;
            let of = format!("{}/{}", up(i), name(i));
            if of == "Binaries/Binary" && draw(2) == 0 {
                d.nodes[i].attrs.retain(|a| a.0 != "ID");
                return Some("a binary without ID".into());
            }
            let a = match &of[..] {
                "String/Value" => *pick(&["Protected", "ProtectInMemory"]),
                _ => *pick(&["Protected", "Compressed"]),
            };
            let v = *pick(&["maybe", "", "2", "yes", "Truee", "null", " "]);
            d.nodes[i].attrs.retain(|x| x.0 != a);
            d.nodes[i].attrs.push((a.into(), v.into()));
            Some(format!("{} of {} is {:?}", a, of, v))
        }
        3 => {
            // A protected text that deciphers to anything but text.
            let c = (0..n)
                .filter(|&i| up(i) == "String" && name(i) == "Value" && d.attr(i, "Protected").is_some_and(|v| v.eq_ignore_ascii_case("true")))
                .map(|i| (String::new(), i))
                .collect();
            let i = choose(c)?;
            let v = crypt::b64(&gen::bytes(64));
            d.nodes[i].kids = vec![Kid::Text(v)];
            Some("a protected string that is no text".into())
        }
        _ => {
            let c: Vec<(String, usize)> = (0..n)
                .filter(|&i| d.attr(i, "Ref").is_none())
                .filter_map(|i| type_of(&name(i), &up(i)).map(|_| (format!("{}/{}", up(i), name(i)), i)))
                .collect();
            let i = choose(c)?;
            let t = type_of(&name(i), &up(i))?;
            let v = bad(t);
            let what = format!("{}/{} is {:?}", up(i), name(i), v);
            d.nodes[i].kids = vec![Kid::Text(v.into())];
            Some(what)
        }
    }
}

/// Makes the document ill-formed and says how.
fn break_xml(x: &mut String) -> Option<String> {
    let ends: Vec<usize> = x.match_indices("</").map(|m| m.0).collect();
    let at = ends[draw(ends.len() as u64) as usize];
    Some(match draw(7) {
        0 => {
            let mut n = draw(x.len() as u64) as usize;
            while !x.is_char_boundary(n) {
                n -= 1;
            }
            x.truncate(n);
            format!("cut off after {} bytes", n)
        }
        1 => {
            let n = x[at..].find('>').map(|n| at + n + 1)?;
            let t = x[at..n].to_string();
            x.replace_range(at..n, "");
            format!("{} at {} left out", t, at)
        }
        2 => {
            x.insert(at + 2, 'Q');
            format!("a closing tag of another name at {}", at)
        }
        3 => {
            x.insert_str(at, *pick(&["&unknown;", "&", "&#x110000;", "<", "<1>", "]]>", "&#;"]));
            format!("stray markup at {}", at)
        }
        4 => {
            x.push_str(*pick(&["<Again/>", "text", "</KeePassFile>", "<KeePassFile></KeePassFile>"]));
            "more after the document".into()
        }
        5 => {
            x.clear();
            x.push_str(*pick(&["", " ", "<?xml version=\"1.0\"?>", "<!-- nothing -->"]));
            "no document".into()
        }
        _ => {
            x.insert_str(at, "</Meta></Root></KeePassFile>");
            format!("closing tags too many at {}", at)
        }
    })
}

fn document(m: &MDb, raw: &[u8; 32], key: &CompositeKey) -> Res {
    let mut st = peer::Style::new(chance(2, 3), seed_draw());
    let hdr = peer::header(m, &mut st, &mut Prng::new(seed_draw()));
    let text = peer::encode_xml(m, &hdr, &mut st);
    for _ in 0..1 + draw(6) {
        let mut doc = match xml::parse(text.as_bytes()) {
            Ok(d) => d,
            Err(e) => panic!("the peer's own document: {}", e),
        };
        let broken = draw(5) == 0;
        let what = if broken { None } else { spoil_document(&mut doc) };
        if what.is_none() && !broken {
            continue;
        }
        let mut x = String::new();
        print(&doc, 0, &mut x);
        let what = if broken { break_xml(&mut x) } else { what };
        let what = match what {
            Some(w) => w,
            None => continue,
        };
        if broken && xml::parse(x.as_bytes()).is_ok() {
            continue;
        }
        let mut bytes = x.into_bytes();
        if broken && draw(12) == 0 {
            // Not even text.
            let n = bytes.len();
            let i = draw(n as u64 + 1) as usize;
            bytes.insert(i, 0xff);
        }
        let file = peer::wrap(&bytes, &hdr, raw, &mut st);
        let plan = if chance(1, 2) { CLEAN } else { transparent() };
        let mut r = SimReader::new(&file, &plan);
        let got = open_from(&mut r, key)?;
        sig(&what, bytes.len() as u64);
        match got {
            Ok(_) => return fail("opened", format!("a document with this fault is opened: {}", what)),
            Err(Error::XmlError(_)) => {}
            Err(e) => return fail("other-reason", format!("a document with this fault: {}; is refused with {:?}", what, e)),
        }
        note(format!("{}: refused", what));
        judged();
        count("document_faults");
    }
    Ok(())
}

/// A database of a type that cannot be written.
fn save_kdb1(m: &MDb, key: &CompositeKey) -> Res {
    let mut db = m.to(key);
    db.db_type = kpdb::DbType::Kdb1;
    let plan = transparent();
    let mut w = SimWriter::new(&plan);
    match save_to(&db, &mut w)? {
        Ok(()) => return fail("opened", "a KeePass 1 database is saved"),
        Err(Error::Unimplemented(_)) => {}
        Err(e) => return fail("other-reason", format!("saving a KeePass 1 database is refused with {:?}", e)),
    }
    if !w.out.is_empty() {
        return fail("written", format!("{} bytes of a KeePass 1 database are written", w.out.len()));
    }
    judged();
    Ok(())
}

fn run() -> Res {
    weather();
    let size = *pick(&[1u64, 0, 2]);
    let p = Profile { size, depth: 2, ..PEER };
    let cred = gen::cred();
    let (key, raw) = (cred.lib(), cred.raw());
    let m = gen::db(&p).normal();
    match draw(16) {
        0 => save_kdb1(&m, &key),
        1..=6 => {
            for _ in 0..1 + draw(6) {
                headers(&m, &raw, &key)?;
            }
            Ok(())
        }
        _ => document(&m, &raw, &key),
    }
}
