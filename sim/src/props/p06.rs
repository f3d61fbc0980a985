//! P06: opening any byte stream ends in a result, without panic or blow-up.

use super::damage;
use super::*;
use crate::crypt::b64;
use crate::crypt::*;
use crate::gen::{Profile, PEER};

pub const PROP: Prop = Prop {
    id: "P06",
    scenario: run,
    quick: 14_000,
    thorough: 500_000,
    rule: "One run opens one to six hostile streams: random bytes, headers with arbitrary fields, damaged and cut \
           files, correctly encrypted payloads with arbitrary block framing, arbitrary gzip streams or mutated XML \
           documents (missing, moved, repeated, nested elements, wrong values, entity definitions), and key files of \
           any shape, through simulated readers, with the memory in use metered against a limit proportional to \
           the input and its decompressed size. Non-trivial: the library got past the signature, or a key file \
           was read.",
    probes: &[(
        "deep-nesting",
        "a correctly encrypted file whose groups are nested 200000 deep overflows the stack while it is opened, \
         because groups are read by recursion",
    )],
};

const SNIPPETS: [&str; 56] = [
    "<Group>", "</Group>", "<Entry>", "</Entry>", "<Value Protected=\"True\">", "</Value>", "<Value/>", "<UUID>",
    "</UUID>", "<UUID/>", "<UUID>AAAA</UUID>", "<UUID>AAAAAAAAAAAAAAAAAAAAAAA=</UUID>", "<IconID>99999999999</IconID>",
    "<IconID>-1</IconID>", "<IconID>70</IconID>", "<Times/>", "<Times>", "</Times>", "<History><History>", "</History>",
    "<CreationTime>x</CreationTime>", "<CreationTime/>", "<LastModificationTime>9999-99-99T99:99:99Z</LastModificationTime>",
    "<CreationTime>+262143-12-31T23:59:60Z</CreationTime>", "<CreationTime>1970-01-01</CreationTime>",
    "<BackgroundColor>#\u{e9}12345</BackgroundColor>", "<ForegroundColor>#12</ForegroundColor>",
    "<ForegroundColor>\u{1f511}\u{1f511}</ForegroundColor>", "<Color>#zzzzzz</Color>", "<Color></Color>",
    "<Enabled>maybe</Enabled>", "<EnableSearching>null</EnableSearching>", "<EnableAutoType/>",
    "<DataTransferObfuscation>2</DataTransferObfuscation>", "<DataTransferObfuscation>-5</DataTransferObfuscation>",
    "<UsageCount>1e9</UsageCount>", "<UsageCount></UsageCount>", "<Binary ID=\"0\" Compressed=\"True\">AAAA</Binary>",
    "<Binary Compressed=\"True\"></Binary>", "<Binary ID=\"1\" Compressed=\"maybe\"/>", "<Value Ref=\"x\"/>",
    "<Key>", "</Key>", "<Key/>", "<String/>", "<String><Value>x</Value></String>", "<Binary/>", "&#x0;", "&bogus;",
    "<![CDATA[", "]]>", "<!--", "<?pi x?>", "\u{feff}", "<HeaderHash>AAAA</HeaderHash>",
    "<Association><Window/></Association>",
];

const DOCTYPES: [&str; 4] = [
    "<!DOCTYPE x [<!ENTITY a \"0123456789\"><!ENTITY b \"&a;&a;&a;&a;&a;&a;&a;&a;\"><!ENTITY c \"&b;&b;&b;&b;&b;&b;&b;&b;\">\
     <!ENTITY d \"&c;&c;&c;&c;&c;&c;&c;&c;\"><!ENTITY e \"&d;&d;&d;&d;&d;&d;&d;&d;\"><!ENTITY f \"&e;&e;&e;&e;&e;&e;&e;&e;\">\
     <!ENTITY g \"&f;&f;&f;&f;&f;&f;&f;&f;\"><!ENTITY h \"&g;&g;&g;&g;&g;&g;&g;&g;\">]>",
    "<!DOCTYPE x [<!ENTITY a \"&a;\"><!ENTITY h \"&a;&a;\">]>",
    "<!DOCTYPE x [<!ENTITY a \"&h;\"><!ENTITY h \"&a;\">]>",
    "<!DOCTYPE x SYSTEM \"file:///nowhere\" [<!ENTITY h SYSTEM \"file:///nowhere\">]>",
];

/// The spans of the tags in a document.
fn tags(s: &str) -> Vec<(usize, usize)> {
    let mut out = Vec::new();
    let mut at = 0;
    while let Some(i) = s[at..].find('<') {
        let a = at + i;
        match s[a..].find('>') {
            Some(j) => {
                out.push((a, a + j + 1));
                at = a + j + 1;
            }
            None => break,
        }
    }
    out
}

fn boundary(s: &str, mut i: usize) -> usize {
    i = i.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// Values at and beyond the edges of the format's types.
const TYPED: [&str; 34] = [
    "2016-13-01T00:00:00Z", "262144-01-01T00:00:00Z", "+262142-12-31T23:59:59.999999999Z", "0000-00-00T00:00:00Z",
    "2016-12-31T23:59:60Z", "-0001-01-01T00:00:00Z", "-262144-01-01T00:00:00+23:59", "+262142-12-31T23:59:59-23:59",
    "2016-12-31", "2016-12-31T23:59:59", "2016-02-30T23:59:59.9999999999999999999999999Z", "9999999999999999-01-01T00:00:00Z",
    "T", "Z", "2147483648", "-2147483649", "+5", "-0", "0x10", "1e3", "68", "69", "-2147483648", "\u{661}\u{662}", "#12345",
    "#1234567", "#\u{e9}\u{e9}\u{e9}", "#00\u{20ac}0", "1234567", "#+1+1+1", "true", "nul", "AAAA====", "AA A=",
];

fn mutate_value(old: &str) -> String {
    let i = boundary(old, draw(old.len() as u64 + 1) as usize);
    match draw(14) {
        0 => String::new(),
        1 => "-1".into(),
        2 => "99999999999999999999".into(),
        3 => " ".into(),
        4 => "====".into(),
        5 => "A".repeat(draw(3000) as usize),
        6 => "\u{1f511}\u{e9}".into(),
        7 => gen::text().replace(['<', '&'], "x"),
        8 | 9 => {
            // As many bytes as before, fewer characters.
            let c = *pick(&["\u{e9}", "\u{20ac}", "\u{1f511}"]);
            let j = i + c.len();
            match old.is_char_boundary(j) && j <= old.len() {
                true => format!("{}{}{}", &old[..i], c, &old[j..]),
                false => c.repeat(1 + draw(9) as usize),
            }
        }
        10 => old[..i].to_string(),
        11 => old[i..].to_string(),
        12 => {
            let x = *pick(&["0", "A", "=", " ", "-", "\u{e9}", ".", "9"]);
            format!("{}{}{}", &old[..i], x, &old[i..])
        }
        _ => b64(&gen::bytes(draw(40) as usize)),
    }
}

/// Replaces a value, mostly that of an element.
fn mutate_leaf(s: &mut String, t: &[(usize, usize)]) -> String {
    if t.len() < 2 {
        return "nothing to replace".into();
    }
    let mut k = draw(t.len() as u64 - 1) as usize;
    let leaf = |k: usize| !s[t[k].0..].starts_with("</") && s[t[k + 1].0..].starts_with("</");
    while draw(8) > 0 && !leaf(k) && k + 2 < t.len() {
        k += 1;
    }
    let (_, a) = t[k];
    let (b, _) = t[k + 1];
    let mut v = s[a..b].to_string();
    if draw(3) == 2 {
        v = pick(&TYPED).to_string();
    }
    for _ in 0..1 + draw(3) {
        v = mutate_value(&v);
    }
    s.replace_range(a..b, &v);
    format!("value {:?}", v.chars().take(20).collect::<String>())
}

pub fn mutate_xml(s: &mut String) -> String {
    let t = tags(s);
    let tag = |k: u64| t[k as usize];
    if t.is_empty() {
        s.push_str(pick(&SNIPPETS));
        return "snippet".into();
    }
    let n = t.len() as u64;
    match draw(13) {
        0 | 1 => {
            let (a, _) = tag(draw(n));
            let x = *pick(&SNIPPETS);
            s.insert_str(a, x);
            format!("{} inserted", x)
        }
        2 => {
            let (a, b) = tag(draw(n));
            let x = s[a..b].to_string();
            s.replace_range(a..b, "");
            format!("{} removed", x)
        }
        3 => {
            // An element's content, or a whole stretch, disappears.
            let (_, a) = tag(draw(n));
            let (b, _) = tag(draw(n));
            if a < b {
                s.replace_range(a..b, "");
            }
            "stretch removed".into()
        }
        4 => {
            let (a, _) = tag(draw(n));
            let (_, b) = tag((draw(40) + t.iter().position(|x| x.0 == a).unwrap_or(0) as u64).min(n - 1));
            if a < b {
                let x = s[a..b].to_string();
                s.insert_str(b, &x);
            }
            "stretch repeated".into()
        }
        5 => {
            mutate_leaf(s, &t)
        }
        6 => {
            let i = boundary(s, draw(s.len() as u64) as usize);
            s.truncate(i);
            "cut off".into()
        }
        7 => {
            let i = boundary(s, draw(s.len() as u64) as usize);
            let x = *pick(&SNIPPETS);
            s.insert_str(i, x);
            format!("{} inserted anywhere", x)
        }
        8 => {
            // Deeper than any real database, but not beyond what the stack of a run holds.
            let depth = 1 + draw(300) as usize;
            let x = *pick(&["Group", "Entry", "History", "Meta", "Root", "Times", "String", "Unknown", "AutoType"]);
            let (a, _) = tag(draw(n));
            s.insert_str(a, &format!("{}{}", format!("<{}>", x).repeat(depth), format!("</{}>", x).repeat(depth)));
            format!("{} nested {} deep", x, depth)
        }
        9 => {
            let (a, b) = tag(draw(n));
            let attr = *pick(&[
                " Protected=\"True\"", " Protected=\"x\"", " Ref=\"&lt;\"", " Compressed=\"True\"", " ID=\"\"",
                " a='1' a='2'", " xmlns=\"\"", " xmlns:k=\"urn:x\" k:z=\"1\"", " Protected=\"False\"", " x",
            ]);
            let e = if s[a..b].ends_with("/>") { b - 2 } else { b - 1 };
            if !s[a..].starts_with("</") && !s[a..].starts_with("<?") && !s[a..].starts_with("<!") {
                s.insert_str(e, attr);
            }
            format!("attribute{}", attr)
        }
        10 => {
            let d = *pick(&DOCTYPES);
            let k = if s.starts_with("<?xml") { 1.min(t.len() - 1) } else { 0 };
            let (_, e) = tag(draw(n));
            s.insert_str(boundary(s, e), "&h;");
            s.insert_str(t[k].0, d);
            "entity definitions".into()
        }
        11 => {
            let (a, b) = tag(draw(n));
            let (c, d) = tag(draw(n));
            if b <= c {
                let x = s[a..b].to_string();
                let y = s[c..d].to_string();
                s.replace_range(c..d, &x);
                s.replace_range(a..b, &y);
            }
            "tags exchanged".into()
        }
        _ => {
            let (a, b) = tag(draw(n));
            let x = s[a..b].to_lowercase();
            s.replace_range(a..b, &x);
            "tag in lower case".into()
        }
    }
}

fn header_soup(f: &mut Vec<u8>) -> String {
    let mut o = peer::SIG.to_vec();
    if draw(6) == 0 {
        o[draw(8) as usize] ^= 1 << draw(8);
    }
    o.extend(*pick(&[&[1u8, 0, 3, 0], &[0, 0, 4, 0], &[0xff; 4]]));
    let real = peer::Hdr::parse(f).map(|h| h.0.fields).unwrap_or_default();
    let n = draw(16);
    for _ in 0..n {
        let (mut id, mut v) = if !real.is_empty() && draw(2) == 0 {
            pick(&real).clone()
        } else {
            (draw(13) as u8, gen::bytes(*pick(&[0usize, 1, 3, 4, 8, 16, 31, 32, 33, 64, 300])))
        };
        match draw(6) {
            0 => id = draw(256) as u8,
            1 => {
                v.pop();
            }
            2 => v.push(0),
            _ => {}
        }
        o.push(id);
        let len = if draw(8) == 0 { draw(65536) as u16 } else { v.len() as u16 };
        o.extend(len.to_le_bytes());
        o.extend(v);
    }
    if draw(2) == 0 {
        o.extend([0, 0, 0]);
    }
    o.extend(gen::bytes(draw(200) as usize));
    *f = o;
    format!("header of {} arbitrary fields", n)
}

fn framing(data: &[u8]) -> (String, Vec<u8>) {
    let mut o = Vec::new();
    let mut id = 0u32;
    let n = draw(6);
    let mut rest = data;
    for k in 0..n {
        let cut = if k + 1 == n { rest.len() } else { draw(rest.len() as u64 + 1) as usize };
        let (a, b) = rest.split_at(cut);
        rest = b;
        let mut bl = peer::block(id, a);
        match draw(8) {
            0 => {
                let v = *pick(&[0xffff_ffffu32, 0x7fff_ffff, 0x8000_0000, a.len() as u32 + 1, 0, 0x1000_0000]);
                bl[36..40].copy_from_slice(&v.to_le_bytes());
            }
            1 => bl[..4].copy_from_slice(&(draw(1 << 32) as u32).to_le_bytes()),
            2 => bl.truncate(draw(bl.len() as u64 + 1) as usize),
            3 => bl[4..36].iter_mut().for_each(|b| *b = 0),
            _ => {}
        }
        o.extend(bl);
        id += 1;
    }
    match draw(4) {
        0 => {}
        1 => o.extend(&peer::block(id, &[])[..draw(40) as usize]),
        _ => o.extend(peer::block(id, &[])),
    }
    (format!("framing of {} blocks", n), o)
}

/// A hostile gzip stream and the size of what it decompresses to.
fn zip_soup(xml: &[u8]) -> (String, Vec<u8>, usize) {
    match draw(7) {
        0 => {
            let n = draw(200) as usize;
            ("bytes that are no gzip".into(), gen::bytes(n), 0)
        }
        1 => {
            let mut z = peer::gzip(xml, 6);
            let n = draw(z.len() as u64 + 1) as usize;
            z.truncate(n);
            (format!("gzip cut at {}", n), z, xml.len())
        }
        2 => {
            let mut z = peer::gzip(xml, 6);
            for _ in 0..1 + draw(4) {
                let i = draw(z.len() as u64) as usize;
                z[i] ^= 1 << draw(8);
            }
            // A damaged stream may expand, by at most the factor deflate allows.
            let n = z.len();
            ("gzip damaged".into(), z, n * 1040)
        }
        3 => {
            let n = draw(4_000_000) as usize;
            (format!("{} zeros compressed", n), peer::gzip(&vec![0; n], 9), n)
        }
        4 => {
            let n = draw(2_000_000) as usize;
            let mut x = b"<KeePassFile><Meta><DatabaseName>".to_vec();
            x.resize(x.len() + n, b'a');
            x.extend(b"</DatabaseName></Meta></KeePassFile>");
            let z = peer::gzip(&x, 9);
            (format!("a name of {} bytes", n), z, x.len())
        }
        5 => {
            let mut z = peer::gzip(xml, 6);
            z.extend(peer::gzip(xml, 1));
            ("two gzip members".into(), z, xml.len() * 2)
        }
        _ => {
            let n = draw(30_000) as usize;
            let e = *pick(&["<Group/>", "<Entry/>", "<Entry><History/></Entry>", "<Entry><String/></Entry>", "<Item/>"]);
            let x = format!("<KeePassFile><Root><Group>{}</Group></Root></KeePassFile>", e.repeat(n));
            let z = peer::gzip(x.as_bytes(), 9);
            (format!("{} times {}", n, e), z, x.len())
        }
    }
}

/// Builds one hostile stream: what it is, its bytes, and how much it decompresses to.
fn hostile(file: &[u8], hdr: &peer::Hdr, xml: &str, raw: &[u8; 32]) -> (String, Vec<u8>, usize) {
    let mut f = file.to_vec();
    let start = hdr.get(9).expect("start bytes").to_vec();
    let body = |p: Vec<u8>| hdr.seal(raw, &p).expect("seal");
    match draw(10) {
        0 => {
            let mut b = gen::bytes(draw(600) as usize);
            for i in 0..(draw(3) * 4).min(b.len() as u64) as usize {
                b[i] = peer::SIG[i];
            }
            ("random bytes".into(), b, 0)
        }
        1 => (header_soup(&mut f), f, 0),
        2 => {
            let mut what = Vec::new();
            for _ in 0..1 + draw(4) {
                what.push(damage::mutate(&mut f, &[]));
            }
            (what.join("; "), f, xml.len())
        }
        3 => {
            let mut p = if draw(2) == 0 { start } else { Vec::new() };
            let n = draw(80) as usize;
            p.extend(gen::bytes(n));
            (format!("payload of {} bytes", p.len()), body(p), 0)
        }
        4 => {
            let data = if hdr.gzip().unwrap_or(false) { peer::gzip(xml.as_bytes(), 6) } else { xml.as_bytes().to_vec() };
            let mut p = start;
            let (what, b) = framing(&data);
            p.extend(b);
            (what, body(p), xml.len())
        }
        5 => {
            let mut h = hdr.clone();
            h.set(3, vec![1, 0, 0, 0]);
            let (what, z, n) = zip_soup(xml.as_bytes());
            let mut p = start;
            p.extend(peer::block(0, &z));
            if !z.is_empty() {
                p.extend(peer::block(1, &[]));
            }
            (what, h.seal(raw, &p).expect("seal"), n)
        }
        6 => {
            // Padding of any kind in the last block, after a payload that may be complete.
            let mut p = start;
            if draw(2) == 0 {
                p.extend(peer::block(0, xml.as_bytes()));
            }
            let n = draw(33) as usize;
            let v = *pick(&[0u8, 1, 15, 16, 17, 32, 65, 128, 255]);
            p.extend(vec![v; n]);
            while p.len() % 16 != 0 {
                p.push(v);
            }
            if draw(4) == 0 {
                let i = p.len() - 1 - draw(16) as usize;
                p[i] = draw(256) as u8;
            }
            (format!("padding with {} bytes of {}", n, v), hdr.seal_blocks(raw, p).expect("seal"), xml.len())
        }
        _ => {
            let mut x = xml.to_string();
            let mut what = Vec::new();
            for _ in 0..1 + draw(5) {
                what.push(mutate_xml(&mut x));
            }
            let mut bytes = x.into_bytes();
            if draw(8) == 0 && !bytes.is_empty() {
                let i = draw(bytes.len() as u64) as usize;
                bytes[i] = draw(256) as u8;
                what.push("byte".into());
            }
            let mut st = peer::Style::new(draw(2) == 1, 5);
            let n = bytes.len();
            (what.join("; "), peer::wrap(&bytes, hdr, raw, &mut st), n)
        }
    }
}

fn key_file() -> (String, Vec<u8>) {
    let k = crate::crypt::b64(&gen::bytes(32));
    let mut x = format!(
        "<?xml version=\"1.0\" encoding=\"utf-8\"?><KeyFile><Meta><Version>1.00</Version></Meta><Key><Data>{}</Data></Key></KeyFile>",
        k
    );
    match draw(5) {
        0 => ("random key file".into(), gen::bytes(draw(100) as usize)),
        1 => {
            let mut h = hex(&gen::bytes(32)).into_bytes();
            let i = draw(64) as usize;
            h[i] = draw(256) as u8;
            ("hexadecimal key file".into(), h)
        }
        _ => {
            let mut what = Vec::new();
            for _ in 0..draw(5) {
                what.push(match draw(4) {
                    0 => {
                        let t = tags(&x);
                        let d = *pick(&[
                            "<Data>", "</Data>", "<Key>", "</Key>", "<KeyFile>", "</KeyFile>", "<Meta>", "</Meta>",
                            "<Version>2.0</Version>", "<Data>!</Data>", "<Data/>", "<Key/>",
                        ]);
                        let (a, _) = t.get(draw(t.len() as u64) as usize).copied().unwrap_or((0, 0));
                        x.insert_str(a, d);
                        d.to_string()
                    }
                    _ => mutate_xml(&mut x),
                });
            }
            (format!("XML key file: {}", what.join("; ")), x.into_bytes())
        }
    }
}

/// The memory a call may use for an input of this size.
fn allowance(input: usize, decompressed: usize) -> i64 {
    (6 << 20) + 300 * (input + decompressed) as i64
}

/// Many documents with one wrong value each.
fn values(xml: &str, hdr: &peer::Hdr, raw: &[u8; 32], key: &CompositeKey) -> Res {
    let t = tags(xml);
    for _ in 0..1 + draw(40) {
        let mut x = xml.to_string();
        let what = mutate_leaf(&mut x, &t);
        let bytes = peer::wrap(x.as_bytes(), hdr, raw, &mut peer::Style::new(false, 5));
        let mut r = SimReader::new(&bytes, &CLEAN);
        let (res, _) = metered(allowance(bytes.len(), x.len()), || guard(|| Database::open(&mut r, key).is_ok()));
        note(format!("{}: {}", what, if panic_to("Database::open", res)? { "opened" } else { "refused" }));
        sig(&what, bytes.len() as u64);
    }
    judged();
    count("hostile_value_documents");
    Ok(())
}

/// Elements nested thousands deep, which need no stack for each level (groups do, see the probe).
fn depths(xml: &str, hdr: &peer::Hdr, raw: &[u8; 32], key: &CompositeKey) -> Res {
    const LEVELS: usize = 10_000;
    let x = *pick(&[
        "Unknown", "DeletedObjects", "Meta", "Root", "Entry", "History", "Times", "String", "Value", "Binary", "Binaries",
        "CustomData", "Item", "CustomIcons", "Icon", "AutoType", "Association", "MemoryProtection", "KeePassFile", "Name",
        "UUID", "Key", "Data", "KeyFile", "Version",
    ]);
    let deep = format!("{}{}", format!("<{}>", x).repeat(LEVELS), format!("</{}>", x).repeat(LEVELS));
    let kf = matches!(x, "Key" | "Data" | "KeyFile" | "Version" | "Meta" | "Unknown") && draw(2) == 0;
    let mut doc = if kf {
        let k = crate::crypt::b64(&gen::bytes(32));
        format!("<KeyFile><Meta><Version>1.00</Version></Meta><Key><Data>{}</Data></Key></KeyFile>", k)
    } else {
        xml.to_string()
    };
    let t = tags(&doc);
    if t.is_empty() {
        return Ok(());
    }
    let (a, _) = *pick(&t);
    doc.insert_str(a, &deep);
    let bytes = if kf { doc.into_bytes() } else { peer::wrap(doc.as_bytes(), hdr, raw, &mut peer::Style::new(false, 5)) };
    let mut r = SimReader::new(&bytes, &CLEAN);
    let (res, stack) = crate::rt::stack_metered(|| {
        guard(|| if kf { kpdb::KeyFile::open(&mut r).is_ok() } else { Database::open(&mut r, key).is_ok() })
    });
    let ok = panic_to("open", res)?;
    note(format!("{} nested {} deep at {}: {}, {} bytes of stack", x, LEVELS, a, if ok { "opened" } else { "refused" }, stack));
    if stack > 3 << 19 {
        return fail("stack", format!("{} bytes of stack are used for {} nested {} deep", stack, x, LEVELS));
    }
    judged();
    count("deep_documents");
    Ok(())
}

fn run() -> Res {
    weather();
    let size = *pick(&[1u64, 0]);
    let p = Profile { size, depth: 2, ..PEER };
    let cred = gen::cred();
    let (key, raw) = (cred.lib(), cred.raw());
    let m = gen::db(&p).normal();
    let mut st = peer::Style::new(chance(3, 4), seed_draw());
    st.hash = draw(3) == 0;
    let mut ent = Prng::new(seed_draw());
    let hdr = peer::header(&m, &mut st, &mut ent);
    let xml = peer::encode_xml(&m, &hdr, &mut st);
    let file = peer::wrap(xml.as_bytes(), &hdr, &raw, &mut st);
    for _ in 0..1 + draw(6) {
        if draw(6) == 5 {
            let (what, bytes) = key_file();
            let plan = transparent();
            note(format!("{} ({} bytes)", what, bytes.len()));
            let mut r = SimReader::new(&bytes, &plan);
            let (res, peak) = metered(allowance(bytes.len(), 0), || guard(|| kpdb::KeyFile::open(&mut r).is_ok()));
            let ok = panic_to("KeyFile::open", res)?;
            if r.livelock() {
                return fail("livelock", "the reader is read for ever");
            }
            note(format!("  {}, {} bytes of memory", if ok { "accepted" } else { "refused" }, peak));
            judged();
            count("hostile_key_file");
            continue;
        }
        if draw(12) == 11 {
            let s = match draw(3) {
                0 => gen::text(),
                1 => format!("#{}", gen::text()),
                _ => {
                    let mut v: Vec<char> = "#12abEF".chars().collect();
                    for _ in 0..1 + draw(3) {
                        let i = draw(v.len() as u64) as usize;
                        v[i] = *pick(&['\u{e9}', '\u{1f511}', 'g', '+', ' ', '-', '\0']);
                    }
                    v.into_iter().collect()
                }
            };
            note(format!("color {:?}", s));
            panic_to("Color::from_hex_string", guard(|| kpdb::Color::from_hex_string(&s).is_ok()))?;
            continue;
        }
        if chance(1, 150) {
            depths(&xml, &hdr, &raw, &key)?;
            continue;
        }
        if draw(5) == 4 {
            values(&xml, &hdr, &raw, &key)?;
            continue;
        }
        let (what, mut bytes, inflated) = hostile(&file, &hdr, &xml, &raw);
        damage::clamp_rounds(&mut bytes);
        let plan = if draw(3) == 0 { transparent() } else { CLEAN };
        note(format!("{} ({} bytes)", what, bytes.len()));
        sig(&what, bytes.len() as u64);
        count("hostile_stream");
        let mut r = SimReader::new(&bytes, &plan);
        let (res, peak) = metered(allowance(bytes.len(), inflated), || guard(|| Database::open(&mut r, &key)));
        let res = panic_to("Database::open", res)?;
        if r.livelock() {
            return fail("livelock", "the reader is read for ever");
        }
        if r.consumed() > 8 {
            judged();
        }
        note(format!("  {}, {} bytes of memory", if res.is_ok() { "opened" } else { "refused" }, peak));
        if let Ok(db) = res {
            // What was opened can be used.
            count("hostile_stream_opened");
            let got = panic_to("reading the result", guard(|| {
                let t = format!("{:?}", db);
                (db.find_entries("a").len(), db.find_groups("").len(), t.len())
            }))?;
            sig("use", (got.0 + got.1) as u64);
            let mut w = SimWriter::new(&CLEAN);
            let _ = save_to(&db, &mut w)?;
        }
    }
    Ok(())
}

/// K2: groups nested far deeper than any stack.
pub fn deep_nesting() -> i32 {
    let n = 200_000;
    let cred = Cred::Pw("p".into());
    let raw = cred.raw();
    let hdr = peer::Hdr {
        version: (3, 1),
        fields: vec![
            (2, peer::AES_ID.to_vec()),
            (3, vec![1, 0, 0, 0]),
            (4, vec![4; 32]),
            (5, vec![5; 32]),
            (6, 1u64.to_le_bytes().to_vec()),
            (7, vec![7; 16]),
            (8, vec![8; 32]),
            (9, vec![9; 32]),
            (10, vec![2, 0, 0, 0]),
            (0, Vec::new()),
        ],
    };
    let xml = format!(
        "<KeePassFile><Root>{}{}</Root></KeePassFile>",
        "<Group>".repeat(n),
        "</Group>".repeat(n)
    );
    let mut st = peer::Style::new(false, 1);
    let file = peer::wrap(xml.as_bytes(), &hdr, &raw, &mut st);
    let ok = Database::open(&mut &file[..], &cred.lib()).is_ok();
    println!("{}", if ok { "opened" } else { "refused" });
    0
}
