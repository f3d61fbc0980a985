//! An independent implementation of KDBX 3.1: the other program in the simulated world, and the
//! oracle for what a file means. Shares nothing with the library but inflate and deflate.

use crate::crypt::*;
use crate::model::*;
use crate::rt::Prng;
use crate::xml;
use std::collections::BTreeMap;
use std::io::{Read, Write};

// ------------------------------------------------------------------------------------------------
// Credentials

#[derive(Clone, Debug, PartialEq)]
pub enum Cred {
    Pw(String),
    Kf(Vec<u8>),
    Both(String, Vec<u8>),
}

impl Cred {
    pub fn raw(&self) -> [u8; 32] {
        match self {
            Cred::Pw(p) => sha256(&[&sha256(&[p.as_bytes()])]),
            Cred::Kf(k) => sha256(&[k]),
            Cred::Both(p, k) => sha256(&[&sha256(&[p.as_bytes()]), k]),
        }
    }
    pub fn lib(&self) -> kpdb::CompositeKey {
        let kf = |k: &Vec<u8>| kpdb::KeyFile {
            key: secstr::SecStr::new(k.clone()),
            file_type: kpdb::KeyFileType::Binary,
        };
        match self {
            Cred::Pw(p) => kpcalls::from_password(p),
            Cred::Kf(k) => kpcalls::from_key_file(kf(k)),
            Cred::Both(p, k) => kpcalls::from_both(p, kf(k)),
        }
    }
}

// ------------------------------------------------------------------------------------------------
// The outer layer

pub const SIG: [u8; 8] = [0x03, 0xd9, 0xa2, 0x9a, 0x67, 0xfb, 0x4b, 0xb5];
pub const AES_ID: [u8; 16] = [
    0x31, 0xc1, 0xf2, 0xe6, 0xbf, 0x71, 0x43, 0x50, 0xbe, 0x58, 0x05, 0x21, 0x6a, 0xfc, 0x5a, 0xff,
];

#[derive(Clone, Debug, PartialEq)]
pub struct Hdr {
    pub version: (u16, u16),
    /// Fields in file order, the end field last.
    pub fields: Vec<(u8, Vec<u8>)>,
}

fn arr32(b: &[u8]) -> Result<[u8; 32], String> {
    let mut a = [0; 32];
    if b.len() != 32 {
        return Err(format!("field of {} bytes instead of 32", b.len()));
    }
    a.copy_from_slice(b);
    Ok(a)
}

fn arr16(b: &[u8]) -> Result<[u8; 16], String> {
    let mut a = [0; 16];
    if b.len() != 16 {
        return Err(format!("field of {} bytes instead of 16", b.len()));
    }
    a.copy_from_slice(b);
    Ok(a)
}

impl Hdr {
    pub fn get(&self, id: u8) -> Result<&[u8], String> {
        match self.fields.iter().find(|f| f.0 == id) {
            Some(f) => Ok(&f.1),
            None => Err(format!("header field {} is missing", id)),
        }
    }
    pub fn set(&mut self, id: u8, v: Vec<u8>) {
        if let Some(f) = self.fields.iter_mut().find(|f| f.0 == id) {
            f.1 = v;
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = SIG.to_vec();
        o.extend(self.version.1.to_le_bytes());
        o.extend(self.version.0.to_le_bytes());
        for (id, v) in &self.fields {
            o.push(*id);
            o.extend((v.len() as u16).to_le_bytes());
            o.extend(v);
        }
        o
    }
    pub fn parse(b: &[u8]) -> Result<(Hdr, usize), String> {
        if b.len() < 12 || b[..8] != SIG {
            return Err("bad signature".into());
        }
        let minor = u16::from_le_bytes([b[8], b[9]]);
        let major = u16::from_le_bytes([b[10], b[11]]);
        let mut at = 12;
        let mut fields = Vec::new();
        loop {
            if b.len() < at + 3 {
                return Err("header is cut off".into());
            }
            let id = b[at];
            let n = u16::from_le_bytes([b[at + 1], b[at + 2]]) as usize;
            at += 3;
            if b.len() < at + n {
                return Err("header field is cut off".into());
            }
            fields.push((id, b[at..at + n].to_vec()));
            at += n;
            if id == 0 {
                break;
            }
        }
        Ok((Hdr { version: (major, minor), fields }, at))
    }
    pub fn rounds(&self) -> Result<u64, String> {
        let b = self.get(6)?;
        if b.len() != 8 {
            return Err("bad rounds field".into());
        }
        let mut a = [0; 8];
        a.copy_from_slice(b);
        Ok(u64::from_le_bytes(a))
    }
    pub fn gzip(&self) -> Result<bool, String> {
        match self.get(3)? {
            [0, 0, 0, 0] => Ok(false),
            [1, 0, 0, 0] => Ok(true),
            x => Err(format!("compression {:?}", x)),
        }
    }
    pub fn key(&self, raw: &[u8; 32]) -> Result<[u8; 32], String> {
        let t = transform(raw, &arr32(self.get(5)?)?, self.rounds()?);
        let ms = self.get(4)?;
        if ms.len() != 32 {
            return Err("bad master seed".into());
        }
        Ok(sha256(&[ms, &t]))
    }
    pub fn seal(&self, raw: &[u8; 32], plain: &[u8]) -> Result<Vec<u8>, String> {
        let mut out = self.bytes();
        out.extend(cbc_encrypt(&self.key(raw)?, &arr16(self.get(7)?)?, plain));
        Ok(out)
    }
}

impl Hdr {
    /// Like `seal`, with the padding already in the text.
    pub fn seal_blocks(&self, raw: &[u8; 32], plain: Vec<u8>) -> Result<Vec<u8>, String> {
        let mut out = self.bytes();
        out.extend(cbc_encrypt_blocks(&self.key(raw)?, &arr16(self.get(7)?)?, plain));
        Ok(out)
    }
}

/// Splits a file into its header and its decrypted payload (start bytes and blocks).
pub fn unseal(file: &[u8], raw: &[u8; 32]) -> Result<(Hdr, usize, Vec<u8>), String> {
    let (h, n) = Hdr::parse(file)?;
    let plain = cbc_decrypt(&h.key(raw)?, &arr16(h.get(7)?)?, &file[n..])
        .ok_or("the payload does not decrypt")?;
    Ok((h, n, plain))
}

pub fn block(id: u32, data: &[u8]) -> Vec<u8> {
    let mut o = id.to_le_bytes().to_vec();
    if data.is_empty() {
        o.extend([0; 32]);
    } else {
        o.extend(sha256(&[data]));
    }
    o.extend((data.len() as u32).to_le_bytes());
    o.extend(data);
    o
}

/// Reads a block stream strictly; nothing may follow the final block.
pub fn unblock(b: &[u8]) -> Result<Vec<Vec<u8>>, String> {
    let mut at = 0;
    let mut out = Vec::new();
    for id in 0u32.. {
        if b.len() < at + 40 {
            return Err("block stream is cut off".into());
        }
        let u = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
        if u(at) != id {
            return Err(format!("block {} has number {}", id, u(at)));
        }
        let hash = &b[at + 4..at + 36];
        let n = u(at + 36) as usize;
        at += 40;
        if n == 0 {
            if hash != [0; 32] {
                return Err("final block has a hash".into());
            }
            if at != b.len() {
                return Err(format!("{} bytes follow the final block", b.len() - at));
            }
            return Ok(out);
        }
        if b.len() < at + n {
            return Err("block is cut off".into());
        }
        if hash != sha256(&[&b[at..at + n]]) {
            return Err(format!("block {} has a wrong hash", id));
        }
        out.push(b[at..at + n].to_vec());
        at += n;
    }
    unreachable!()
}

pub fn gunzip(b: &[u8]) -> Result<Vec<u8>, String> {
    let mut o = Vec::new();
    let mut d = flate2::bufread::GzDecoder::new(b);
    d.read_to_end(&mut o).map_err(|e| format!("gzip: {}", e))?;
    if !d.into_inner().is_empty() {
        return Err("bytes follow the gzip stream".into());
    }
    Ok(o)
}

pub fn gzip(b: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::new(level));
    e.write_all(b).expect("gzip");
    e.finish().expect("gzip")
}

// ------------------------------------------------------------------------------------------------
// Reading

pub struct Protected {
    /// Key of the string or attachment, the deciphered value, and the text in the document.
    pub key: String,
    pub plain: Vec<u8>,
    pub text: String,
}

pub struct Decoded {
    pub db: MDb,
    pub hdr: Hdr,
    pub header_len: usize,
    pub start_bytes_ok: bool,
    pub blocks: usize,
    pub xml: Vec<u8>,
    pub header_hash: Option<Vec<u8>>,
    pub generator: String,
    pub protected: Vec<Protected>,
}

pub const NO_TIME: Time = (i64::MIN, 0);

struct Rd<'a> {
    d: &'a xml::Doc,
    /// Deciphered protected values by node.
    prot: BTreeMap<usize, Vec<u8>>,
}

fn is_true(v: Option<&str>) -> Result<bool, String> {
    match v {
        None | Some("False") => Ok(false),
        Some("True") => Ok(true),
        // As elsewhere in the format, other spellings say nothing.
        Some(x) => Err(format!("{} is not a truth value", x)),
    }
}

impl<'a> Rd<'a> {
    fn name(&self, n: usize) -> &str {
        &self.d.nodes[n].name
    }
    fn str(&self, n: usize, k: &str) -> Result<String, String> {
        match self.d.kid(n, k) {
            Some(c) => self.leaf(c),
            None => Ok(String::new()),
        }
    }
    fn leaf(&self, c: usize) -> Result<String, String> {
        if self.d.kids(c).next().is_some() {
            return Err(format!("{} has elements inside", self.name(c)));
        }
        Ok(self.d.text(c))
    }
    fn i32(&self, n: usize, k: &str, def: i32) -> Result<i32, String> {
        let s = self.str(n, k)?;
        if s.is_empty() {
            return Ok(def);
        }
        s.parse().map_err(|_| format!("{}: {} is not a number", k, s))
    }
    fn bool(&self, n: usize, k: &str) -> Result<bool, String> {
        match self.str(n, k)?.as_str() {
            "True" => Ok(true),
            "False" => Ok(false),
            "" => Err(format!("{} is not given", k)),
            x => Err(format!("{}: {} is not a truth value", k, x)),
        }
    }
    /// Of the values that may be missing, and of no others, the case is free.
    fn opt_bool(&self, n: usize, k: &str) -> Result<Option<bool>, String> {
        let s = self.str(n, k)?;
        match s.to_ascii_lowercase().as_str() {
            "true" => Ok(Some(true)),
            "false" => Ok(Some(false)),
            "null" | "" => Ok(None),
            _ => Err(format!("{}: {} is not a truth value", k, s)),
        }
    }
    fn bin(&self, n: usize, k: &str) -> Result<Vec<u8>, String> {
        let s = self.str(n, k)?;
        unb64(&s).ok_or_else(|| format!("{}: not base64", k))
    }
    fn uuid(&self, n: usize, k: &str) -> Result<Id, String> {
        let b = self.bin(n, k)?;
        let mut id = [0; 16];
        if b.len() != 16 {
            return Err(format!("{}: identifier of {} bytes", k, b.len()));
        }
        id.copy_from_slice(&b);
        Ok(id)
    }
    fn opt_uuid(&self, n: usize, k: &str) -> Result<Option<Id>, String> {
        if self.str(n, k)?.is_empty() {
            return Ok(None);
        }
        self.uuid(n, k).map(Some)
    }
    fn color(&self, n: usize, k: &str) -> Result<Option<[u8; 3]>, String> {
        let s = self.str(n, k)?;
        if s.is_empty() {
            return Ok(None);
        }
        match s.strip_prefix('#').and_then(unhex) {
            Some(b) if b.len() == 3 => Ok(Some([b[0], b[1], b[2]])),
            _ => Err(format!("{}: {} is not a color", k, s)),
        }
    }
    fn time(&self, n: usize, k: &str) -> Result<Time, String> {
        let s = self.str(n, k)?;
        if s.is_empty() {
            return Ok(NO_TIME);
        }
        parse_time(&s).ok_or_else(|| format!("{}: {} is not a time", k, s))
    }
    fn times(&self, n: usize) -> Result<MTimes, String> {
        let t = self.d.kid(n, "Times").ok_or("Times is missing")?;
        Ok(MTimes {
            creation: self.time(t, "CreationTime")?,
            expiry: self.time(t, "ExpiryTime")?,
            expires: self.bool(t, "Expires")?,
            access: self.time(t, "LastAccessTime")?,
            modified: self.time(t, "LastModificationTime")?,
            moved: self.time(t, "LocationChanged")?,
            usage: self.i32(t, "UsageCount", 0)?,
        })
    }
    fn value(&self, v: usize) -> Result<(bool, Vec<u8>), String> {
        if let Some(p) = self.prot.get(&v) {
            return Ok((true, p.clone()));
        }
        let pm = is_true(self.d.attr(v, "ProtectInMemory"))?;
        Ok((pm, self.leaf(v)?.into_bytes()))
    }
    fn entry(&self, n: usize, depth: usize) -> Result<MEntry, String> {
        let mut e = MEntry {
            uuid: self.uuid(n, "UUID")?,
            assoc: Vec::new(),
            at_seq: String::new(),
            at_enabled: true,
            at_obf: 0,
            bg: self.color(n, "BackgroundColor")?,
            fg: self.color(n, "ForegroundColor")?,
            bins: BTreeMap::new(),
            icon: self.i32(n, "IconID", 0)?,
            cicon: self.opt_uuid(n, "CustomIconUUID")?,
            url: self.str(n, "OverrideURL")?,
            strings: BTreeMap::new(),
            tags: self.str(n, "Tags")?,
            times: self.times(n)?,
            history: Vec::new(),
        };
        if let Some(a) = self.d.kid(n, "AutoType") {
            e.at_enabled = self.bool(a, "Enabled")?;
            e.at_obf = self.i32(a, "DataTransferObfuscation", 0)?;
            e.at_seq = self.str(a, "DefaultSequence")?;
            for s in self.d.kids(a).filter(|&s| self.name(s) == "Association") {
                e.assoc.push((self.str(s, "Window")?, self.str(s, "KeystrokeSequence")?));
            }
        }
        for c in self.d.kids(n) {
            match self.name(c) {
                "String" => {
                    let k = self.str(c, "Key")?;
                    let v = self.d.kid(c, "Value").ok_or("string without a value")?;
                    let (prot, val) = self.value(v)?;
                    if std::str::from_utf8(&val).is_err() {
                        return Err(format!("string {} is not text", k));
                    }
                    if e.strings.insert(k.clone(), MStr { prot, val }).is_some() {
                        return Err(format!("string {} twice", k));
                    }
                }
                "Binary" => {
                    let k = self.str(c, "Key")?;
                    let v = self.d.kid(c, "Value").ok_or("binary without a value")?;
                    let val = if let Some(r) = self.d.attr(v, "Ref") {
                        MBin::Ref(r.to_string())
                    } else if let Some(p) = self.prot.get(&v) {
                        MBin::Prot(p.clone())
                    } else {
                        let b = unb64(&self.leaf(v)?).ok_or("attachment is not base64")?;
                        if is_true(self.d.attr(v, "Compressed"))? {
                            MBin::Plain(gunzip(&b)?)
                        } else {
                            MBin::Plain(b)
                        }
                    };
                    if e.bins.insert(k.clone(), val).is_some() {
                        return Err(format!("attachment {} twice", k));
                    }
                }
                "History" => {
                    for h in self.d.kids(c).filter(|&h| self.name(h) == "Entry") {
                        if depth > 0 {
                            return Err("history inside a history".into());
                        }
                        e.history.push(self.entry(h, 1)?);
                    }
                }
                _ => {}
            }
        }
        Ok(e)
    }
    fn group(&self, n: usize) -> Result<MGroup, String> {
        let mut g = MGroup {
            uuid: self.uuid(n, "UUID")?,
            cicon: self.opt_uuid(n, "CustomIconUUID")?,
            at_seq: self.str(n, "DefaultAutoTypeSequence")?,
            at_enabled: self.opt_bool(n, "EnableAutoType")?,
            searching: self.opt_bool(n, "EnableSearching")?,
            icon: self.i32(n, "IconID", 48)?,
            expanded: self.bool(n, "IsExpanded")?,
            last_top: self.uuid(n, "LastTopVisibleEntry")?,
            name: self.str(n, "Name")?,
            notes: self.str(n, "Notes")?,
            times: self.times(n)?,
            entries: Vec::new(),
            groups: Vec::new(),
        };
        for c in self.d.kids(n) {
            match self.name(c) {
                "Entry" => g.entries.push(self.entry(c, 0)?),
                "Group" => g.groups.push(self.group(c)?),
                _ => {}
            }
        }
        Ok(g)
    }
}

pub fn decode(file: &[u8], raw: &[u8; 32]) -> Result<Decoded, String> {
    let (hdr, header_len, plain) = unseal(file, raw)?;
    for (i, f) in hdr.fields.iter().enumerate() {
        if f.0 > 10 {
            return Err(format!("unknown header field {}", f.0));
        }
        if hdr.fields[..i].iter().any(|g| g.0 == f.0) {
            return Err(format!("header field {} twice", f.0));
        }
    }
    if hdr.get(2)? != AES_ID {
        return Err("the cipher is not AES".into());
    }
    if hdr.get(10)? != [2, 0, 0, 0] {
        return Err("the inner stream is not Salsa20".into());
    }
    let ssb = hdr.get(9)?;
    if ssb.len() != 32 || plain.len() < 32 || plain[..32] != *ssb {
        return Err("start bytes differ".into());
    }
    let blocks = unblock(&plain[32..])?;
    let n = blocks.len();
    let data: Vec<u8> = blocks.concat();
    let xml = if hdr.gzip()? { gunzip(&data)? } else { data };
    let psk = hdr.get(8)?.to_vec();
    let (db, header_hash, generator, protected) = decode_xml(&xml, &hdr, &psk)?;
    if let Some(ref h) = header_hash {
        if h[..] != sha256(&[&file[..header_len]]) {
            return Err("the header hash is wrong".into());
        }
    }
    Ok(Decoded {
        db,
        hdr,
        header_len,
        start_bytes_ok: true,
        blocks: n,
        xml,
        header_hash,
        generator,
        protected,
    })
}

pub fn decode_xml(
    xml: &[u8],
    hdr: &Hdr,
    psk: &[u8],
) -> Result<(MDb, Option<Vec<u8>>, String, Vec<Protected>), String> {
    let doc = xml::parse(xml)?;
    let mut rd = Rd { d: &doc, prot: BTreeMap::new() };
    if rd.name(0) != "KeePassFile" {
        return Err("the root element is not KeePassFile".into());
    }
    // The inner stream runs over all protected values in document order; nodes are in that order.
    let mut salsa = Salsa::new(&sha256(&[psk]));
    let mut protected = Vec::new();
    let mut last_key = String::new();
    for (i, n) in doc.nodes.iter().enumerate() {
        if n.name == "Key" {
            last_key = doc.text(i);
        }
        if is_true(doc.attr(i, "Protected"))? {
            let text = rd.leaf(i)?;
            let c = unb64(&text).ok_or("protected value is not base64")?;
            let p = salsa.apply(&c);
            protected.push(Protected { key: last_key.clone(), plain: p.clone(), text });
            rd.prot.insert(i, p);
        }
    }
    let m = doc.kid(0, "Meta").ok_or("Meta is missing")?;
    let root = doc.kid(0, "Root").ok_or("Root is missing")?;
    if m > root && (0..doc.nodes.len()).any(|i| doc.attr(i, "Ref").is_some()) {
        // Other programs read the document once, from its beginning to its end.
        return Err("attachments refer to binaries that have not been met yet".into());
    }
    let group = doc.kid(root, "Group").ok_or("the root group is missing")?;
    let mp = doc.kid(m, "MemoryProtection").ok_or("MemoryProtection is missing")?;
    let mut binaries = BTreeMap::new();
    if let Some(b) = doc.kid(m, "Binaries") {
        for c in doc.kids(b).filter(|&c| rd.name(c) == "Binary") {
            let id = doc.attr(c, "ID").ok_or("binary without an ID")?;
            let v = if let Some(p) = rd.prot.get(&c) {
                p.clone()
            } else {
                let v = unb64(&rd.leaf(c)?).ok_or("binary is not base64")?;
                if is_true(doc.attr(c, "Compressed"))? {
                    // An empty binary may be stored as an empty element.
                    if v.is_empty() { v } else { gunzip(&v)? }
                } else {
                    v
                }
            };
            if binaries.insert(id.to_string(), v).is_some() {
                return Err(format!("binary {} twice", id));
            }
        }
    }
    let mut custom_data = BTreeMap::new();
    if let Some(b) = doc.kid(m, "CustomData") {
        for c in doc.kids(b).filter(|&c| rd.name(c) == "Item") {
            if custom_data.insert(rd.str(c, "Key")?, rd.str(c, "Value")?).is_some() {
                return Err("custom data item twice".into());
            }
        }
    }
    let mut icons = BTreeMap::new();
    if let Some(b) = doc.kid(m, "CustomIcons") {
        for c in doc.kids(b).filter(|&c| rd.name(c) == "Icon") {
            if icons.insert(rd.uuid(c, "UUID")?, rd.bin(c, "Data")?).is_some() {
                return Err("custom icon twice".into());
            }
        }
    }
    let db = MDb {
        comment: hdr.get(1).ok().map(|c| c.to_vec()),
        gzip: hdr.gzip()?,
        rounds: hdr.rounds()?,
        version: hdr.version,
        binaries,
        color: rd.color(m, "Color")?,
        custom_data,
        icons,
        username: rd.str(m, "DefaultUserName")?,
        username_changed: rd.time(m, "DefaultUserNameChanged")?,
        description: rd.str(m, "DatabaseDescription")?,
        description_changed: rd.time(m, "DatabaseDescriptionChanged")?,
        templates_changed: rd.time(m, "EntryTemplatesGroupChanged")?,
        templates: rd.uuid(m, "EntryTemplatesGroup")?,
        hist_items: rd.i32(m, "HistoryMaxItems", 10)?,
        hist_size: rd.i32(m, "HistoryMaxSize", 6291456)?,
        last_selected: rd.uuid(m, "LastSelectedGroup")?,
        last_top: rd.uuid(m, "LastTopVisibleGroup")?,
        maint_days: rd.i32(m, "MaintenanceHistoryDays", 365)?,
        key_force: rd.i32(m, "MasterKeyChangeForce", -1)?,
        key_rec: rd.i32(m, "MasterKeyChangeRec", -1)?,
        key_changed: rd.time(m, "MasterKeyChanged")?,
        name: rd.str(m, "DatabaseName")?,
        name_changed: rd.time(m, "DatabaseNameChanged")?,
        protect: [
            rd.bool(mp, "ProtectNotes")?,
            rd.bool(mp, "ProtectPassword")?,
            rd.bool(mp, "ProtectTitle")?,
            rd.bool(mp, "ProtectURL")?,
            rd.bool(mp, "ProtectUserName")?,
        ],
        bin_changed: rd.time(m, "RecycleBinChanged")?,
        bin_enabled: rd.bool(m, "RecycleBinEnabled")?,
        bin_uuid: rd.uuid(m, "RecycleBinUUID")?,
        root: rd.group(group)?,
    };
    let hash = match doc.kid(m, "HeaderHash") {
        Some(_) => Some(rd.bin(m, "HeaderHash")?),
        None => None,
    };
    Ok((db, hash, rd.str(m, "Generator")?, protected))
}

// ------------------------------------------------------------------------------------------------
// Times

fn days(y: i64, m: i64, d: i64) -> i64 {
    // Days since 1970-01-01 in the proleptic Gregorian calendar.
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}

fn civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}

pub fn year_of(t: Time) -> i64 {
    civil(t.0.div_euclid(86400)).0
}

pub fn year_start(y: i64) -> i64 {
    days(y, 1, 1) * 86400
}

/// YYYY-MM-DDThh:mm:ss[.f]Z
pub fn parse_time(s: &str) -> Option<Time> {
    let b = s.as_bytes();
    if !s.is_ascii() || b.len() < 20 || *b.last()? != b'Z' {
        return None;
    }
    let num = |i: usize, n: usize| -> Option<i64> {
        let p = &s[i..i + n];
        if p.bytes().all(|c| c.is_ascii_digit()) { p.parse().ok() } else { None }
    };
    if b[4] != b'-' || b[7] != b'-' || b[10] != b'T' || b[13] != b':' || b[16] != b':' {
        return None;
    }
    let (y, mo, d) = (num(0, 4)?, num(5, 2)?, num(8, 2)?);
    let (h, mi, se) = (num(11, 2)?, num(14, 2)?, num(17, 2)?);
    if y < 1 || !(1..=12).contains(&mo) || d < 1 || h > 23 || mi > 59 || se > 59 {
        return None;
    }
    if civil(days(y, mo, d)) != (y, mo, d) {
        return None;
    }
    let frac = &s[19..s.len() - 1];
    let mut nanos = 0u32;
    if !frac.is_empty() {
        if !frac.starts_with('.') || frac.len() < 2 || frac.len() > 10 {
            return None;
        }
        let mut scale = 100_000_000;
        for c in frac[1..].bytes() {
            if !c.is_ascii_digit() {
                return None;
            }
            nanos += (c - b'0') as u32 * scale;
            scale /= 10;
        }
    }
    Some((days(y, mo, d) * 86400 + h * 3600 + mi * 60 + se, nanos))
}

pub fn format_time(t: Time, long: bool) -> String {
    let (y, m, d) = civil(t.0.div_euclid(86400));
    let s = t.0.rem_euclid(86400);
    let mut o = format!(
        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}",
        y, m, d, s / 3600, s / 60 % 60, s % 60
    );
    if t.1 > 0 || long {
        let f = format!("{:09}", t.1);
        let f = if long { f.as_str() } else { f.trim_end_matches('0') };
        o.push('.');
        o.push_str(f);
    }
    o + "Z"
}

// ------------------------------------------------------------------------------------------------
// Writing

/// How the peer writes: `wild` 0 is the plain form, otherwise every choice the format leaves open
/// is taken at random.
pub struct Style {
    pub wild: bool,
    pub rng: Prng,
    pub hash: bool,
    pub max_block: usize,
    pub generator: &'static str,
}

impl Style {
    pub fn new(wild: bool, seed: u64) -> Style {
        let rng = Prng::new(seed ^ 0x57_1e);
        let mut st = Style { wild, rng, hash: true, max_block: 1 << 20, generator: "KeePass" };
        if st.odds(1, 2) {
            st.generator = "Other & <Program>";
        }
        st
    }
    fn odds(&mut self, num: u64, den: u64) -> bool {
        self.wild && self.rng.below(den) < num
    }
}

struct Wr<'a> {
    o: String,
    st: &'a mut Style,
    salsa: Salsa,
    pretty: u8,
    nl: &'static str,
    text_nl: u8,
    depth: usize,
}

impl<'a> Wr<'a> {
    fn sep(&mut self) {
        match self.pretty {
            0 => {}
            1 => {
                self.o.push_str(self.nl);
                for _ in 0..self.depth {
                    self.o.push('\t');
                }
            }
            _ => {
                for _ in 0..self.st.rng.below(4) {
                    let w = ["\n", " ", "\t", "\r\n", "\r"][self.st.rng.below(5) as usize];
                    self.o.push_str(w);
                }
            }
        }
        if self.st.odds(1, 40) {
            let c = [
                "<!-- a comment -->",
                "<!---->",
                "<!-- <Entry> &amp; ]]> -->",
                "<?pi some data?>",
            ][self.st.rng.below(4) as usize];
            self.o.push_str(c);
        }
    }
    fn esc(&mut self, t: &str, attr: Option<char>) {
        if attr.is_none() && !t.contains('\r') && !t.contains("]]>") && self.st.odds(1, 12) {
            if !t.is_empty() || self.st.odds(1, 2) {
                self.o.push_str("<![CDATA[");
                self.o.push_str(t);
                self.o.push_str("]]>");
            }
            return;
        }
        // Text in pieces: comments, processing instructions and CDATA sections come between.
        let broken = attr.is_none() && self.st.odds(1, 25);
        let every = 1 + self.st.rng.below(1 + t.len().min(40) as u64);
        for c in t.chars() {
            if broken && self.st.rng.below(every) == 0 {
                if c != '\r' && self.st.rng.below(2) == 0 {
                    self.o.push_str(&format!("<![CDATA[{}]]>", c));
                    continue;
                }
                self.piece();
            }
            let refd = self.st.odds(1, 50);
            match c {
                '<' | '&' | '>' | '"' | '\'' if !refd => match c {
                    '<' => self.o.push_str("&lt;"),
                    '&' => self.o.push_str("&amp;"),
                    '>' if self.o.ends_with("]]") || !self.st.odds(1, 2) => {
                        self.o.push_str("&gt;")
                    }
                    '"' if attr == Some('"') || self.st.odds(1, 3) => self.o.push_str("&quot;"),
                    '\'' if attr == Some('\'') || self.st.odds(1, 3) => {
                        self.o.push_str("&apos;")
                    }
                    c => self.o.push(c),
                },
                '\n' if attr.is_none() && !refd => match self.text_nl {
                    0 => self.o.push('\n'),
                    1 => self.o.push_str("\r\n"),
                    _ => self.o.push_str("&#10;"),
                },
                '\t' if attr.is_none() && !refd => self.o.push('\t'),
                '\r' | '\n' | '\t' => self.char_ref(c),
                c if refd => self.char_ref(c),
                c => self.o.push(c),
            }
        }
        if broken && self.st.rng.below(3) == 0 {
            self.piece();
        }
    }
    fn piece(&mut self) {
        let s = ["<!-- a comment -->", "<?pi some data?>", "<![CDATA[]]>"];
        self.o.push_str(s[self.st.rng.below(3) as usize]);
    }
    fn char_ref(&mut self, c: char) {
        let n = c as u32;
        let s = match self.st.rng.below(3) {
            0 => format!("&#{};", n),
            1 => format!("&#x{:X};", n),
            _ => format!("&#x{:04x};", n),
        };
        self.o.push_str(&s);
    }
    fn open(&mut self, tag: &str) {
        self.sep();
        self.o.push('<');
        self.o.push_str(tag);
        if self.st.odds(1, 30) {
            self.o.push(' ');
        }
        self.o.push('>');
        self.depth += 1;
    }
    fn close(&mut self, tag: &str) {
        self.depth -= 1;
        self.sep();
        self.o.push_str("</");
        self.o.push_str(tag);
        if self.st.odds(1, 30) {
            self.o.push('\n');
        }
        self.o.push('>');
    }
    fn leaf_attrs(&mut self, tag: &str, attrs: &[(&str, String)], text: &str) {
        self.sep();
        self.o.push('<');
        self.o.push_str(tag);
        for (k, v) in attrs {
            self.o.push(' ');
            if self.st.odds(1, 10) {
                self.o.push_str("\n ");
            }
            self.o.push_str(k);
            let q = if self.st.odds(1, 4) { '\'' } else { '"' };
            self.o.push_str(if self.st.odds(1, 10) { " = " } else { "=" });
            self.o.push(q);
            self.esc(v, Some(q));
            self.o.push(q);
        }
        if text.is_empty() && !self.st.odds(1, 2) {
            self.o.push_str(if self.st.odds(1, 2) { "/>" } else { " />" });
            return;
        }
        self.o.push('>');
        self.esc(text, None);
        self.o.push_str("</");
        self.o.push_str(tag);
        self.o.push('>');
    }
    fn leaf(&mut self, tag: &str, text: &str) {
        self.leaf_attrs(tag, &[], text);
    }
    /// Base64, now and then in lines or with white space around it.
    fn b64(&mut self, v: &[u8]) -> String {
        let t = b64(v);
        if t.is_empty() || !self.st.odds(1, 25) {
            return t;
        }
        let nl = *["\n", "\r\n", "\n\t\t", "\n      ", " "].get(self.st.rng.below(5) as usize).unwrap();
        let width = *[64, 76, 4, 30, 7].get(self.st.rng.below(5) as usize).unwrap();
        let width = if t.len() > 50_000 { 76 } else { width };
        let mut o = String::new();
        if self.st.odds(1, 2) {
            o.push_str(nl);
        }
        if self.st.odds(1, 2) {
            let lines: Vec<&str> = t.as_bytes().chunks(width).map(|c| std::str::from_utf8(c).unwrap()).collect();
            o.push_str(&lines.join(nl));
        } else {
            o.push_str(&t);
        }
        if self.st.odds(1, 2) {
            o.push_str(nl);
        }
        o
    }
    fn b(&mut self, v: bool) -> String {
        let w = match (v, self.st.odds(1, 5)) {
            (true, false) => "True",
            (true, true) => "true",
            (false, false) => "False",
            (false, true) => "false",
        };
        w.into()
    }
    fn bool(&mut self, tag: &str, v: bool) {
        let t = self.b(v);
        self.leaf(tag, &t);
    }
    fn opt_bool(&mut self, tag: &str, v: Option<bool>) {
        match v {
            Some(b) => self.bool(tag, b),
            None if self.st.odds(1, 4) => {}
            None => {
                let w = if self.st.odds(1, 6) { *["Null", "NULL"].get(self.st.rng.below(2) as usize).unwrap() } else { "null" };
                self.leaf(tag, w)
            }
        }
    }
    fn uuid(&mut self, tag: &str, v: &Id) {
        let t = self.b64(v);
        self.leaf(tag, &t);
    }
    fn opt_uuid(&mut self, tag: &str, v: &Option<Id>) {
        match v {
            Some(u) => self.uuid(tag, u),
            None if self.st.odds(1, 2) => self.leaf(tag, ""),
            None => {}
        }
    }
    fn color(&mut self, tag: &str, v: &Option<[u8; 3]>) {
        match v {
            Some(c) => {
                let h = hex(c);
                let h = if self.st.odds(1, 3) { h } else { h.to_uppercase() };
                self.leaf(tag, &format!("#{}", h));
            }
            None if self.st.odds(1, 3) => {}
            None => self.leaf(tag, ""),
        }
    }
    fn time(&mut self, tag: &str, v: Time) {
        let long = self.st.odds(1, 10);
        let mut t = format_time(v, long);
        if self.st.odds(1, 15) {
            // The same instant as a local time with its distance from UTC.
            let m = self.st.rng.below(2 * 14 * 60 + 1) as i64 - 14 * 60;
            let local = (v.0 + m * 60, v.1);
            if (1..=9999).contains(&year_of(local)) {
                t = format_time(local, long);
                t.pop();
                t.push_str(&format!("{}{:02}:{:02}", if m < 0 { '-' } else { '+' }, m.abs() / 60, m.abs() % 60));
            }
        }
        self.leaf(tag, &t);
    }
    fn unknown(&mut self) {
        if self.st.odds(1, 60) {
            self.open("FutureContainer");
            for _ in 0..self.st.rng.below(3) {
                self.leaf("FutureChild", "text");
            }
            self.close("FutureContainer");
        }
        if self.st.odds(1, 8) {
            let (t, v) = [
                ("SettingsChanged", "2016-01-02T03:04:05Z"),
                ("MasterKeyChangeForceOnce", "False"),
                ("QualityCheck", "True"),
                ("PreviousParentGroup", "AAAAAAAAAAAAAAAAAAAAAA=="),
                ("FutureElement", ""),
                ("FutureText", "some <text> & more"),
            ][self.st.rng.below(6) as usize];
            self.leaf(t, v);
        }
    }
    fn deleted(&mut self) {
        if self.st.odds(1, 2) {
            self.open("DeletedObjects");
            for _ in 0..self.st.rng.below(3) {
                self.open("DeletedObject");
                self.leaf("UUID", "AQIDBAUGBwgJCgsMDQ4PEA==");
                self.leaf("DeletionTime", "2017-05-06T07:08:09Z");
                self.close("DeletedObject");
            }
            self.close("DeletedObjects");
        } else if !self.st.wild {
            self.leaf("DeletedObjects", "");
        }
    }
    fn order(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        if self.st.odds(1, 2) {
            for i in (1..n).rev() {
                let j = self.st.rng.below(i as u64 + 1) as usize;
                v.swap(i, j);
            }
        }
        v
    }
    fn times(&mut self, t: &MTimes) {
        self.open("Times");
        for k in self.order(7) {
            match k {
                0 => self.time("CreationTime", t.creation),
                1 => self.time("ExpiryTime", t.expiry),
                2 => self.bool("Expires", t.expires),
                3 => self.time("LastAccessTime", t.access),
                4 => self.time("LastModificationTime", t.modified),
                5 => self.time("LocationChanged", t.moved),
                _ => self.leaf("UsageCount", &t.usage.to_string()),
            }
            self.unknown();
        }
        self.close("Times");
    }
    fn prot(&mut self, v: &[u8]) -> String {
        let v = self.salsa.apply(v);
        self.b64(&v)
    }
    fn entry(&mut self, e: &MEntry, hist: bool) {
        self.open("Entry");
        for k in self.order(13) {
            match k {
                0 => self.uuid("UUID", &e.uuid),
                1 => self.leaf("IconID", &e.icon.to_string()),
                2 => self.opt_uuid("CustomIconUUID", &e.cicon),
                3 => self.color("ForegroundColor", &e.fg),
                4 => self.color("BackgroundColor", &e.bg),
                5 => self.leaf("OverrideURL", &e.url),
                6 => self.leaf("Tags", &e.tags),
                7 => self.times(&e.times),
                8 => {
                    for (k, v) in &e.strings {
                        self.string(k, v);
                    }
                }
                9 => {
                    for (k, v) in &e.bins {
                        self.binary(k, v);
                    }
                }
                10 => self.auto_type(e),
                11 => self.unknown(),
                _ => {
                    if !hist {
                        if e.history.is_empty() {
                            if !self.st.odds(1, 2) {
                                self.leaf("History", "");
                            }
                        } else {
                            self.open("History");
                            for h in &e.history {
                                self.entry(h, true);
                                self.unknown();
                            }
                            self.close("History");
                        }
                    }
                }
            }
        }
        self.close("Entry");
    }
    fn string(&mut self, k: &str, v: &MStr) {
        self.open("String");
        let flip = self.st.odds(1, 4);
        if !flip {
            self.leaf("Key", k);
        }
        if v.prot && !self.st.odds(1, 5) {
            let t = self.prot(&v.val);
            let mut a = vec![("Protected", self.b(true))];
            if self.st.odds(1, 6) {
                a.push(("ProtectInMemory", self.b(true)));
            }
            self.leaf_attrs("Value", &a, &t);
        } else {
            let t = std::str::from_utf8(&v.val).expect("text");
            let mut a = Vec::new();
            if v.prot {
                a.push(("ProtectInMemory", self.b(true)));
            } else if self.st.odds(1, 10) {
                a.push(("ProtectInMemory", self.b(false)));
            }
            if self.st.odds(1, 10) {
                a.push(("Protected", self.b(false)));
            }
            self.leaf_attrs("Value", &a, t);
        }
        self.unknown();
        if flip {
            self.leaf("Key", k);
        }
        self.close("String");
    }
    fn binary(&mut self, k: &str, v: &MBin) {
        self.open("Binary");
        let flip = self.st.odds(1, 4);
        if !flip {
            self.leaf("Key", k);
        }
        match v {
            MBin::Ref(r) => self.leaf_attrs("Value", &[("Ref", r.clone())], ""),
            MBin::Prot(p) => {
                let t = self.prot(p);
                let a = [("Protected", self.b(true))];
                self.leaf_attrs("Value", &a, &t);
            }
            MBin::Plain(p) => {
                if self.st.odds(1, 4) {
                    let a = [("Compressed", self.b(true))];
                    let level = self.st.rng.below(10) as u32;
                    let t = self.b64(&gzip(p, level));
                    self.leaf_attrs("Value", &a, &t);
                } else if self.st.odds(1, 6) {
                    let a = [("Protected", self.b(false)), ("Compressed", self.b(false))];
                    let t = self.b64(p);
                    self.leaf_attrs("Value", &a, &t);
                } else {
                    let t = self.b64(p);
                    self.leaf("Value", &t);
                }
            }
        }
        self.unknown();
        if flip {
            self.leaf("Key", k);
        }
        self.close("Binary");
    }
    fn auto_type(&mut self, e: &MEntry) {
        self.open("AutoType");
        for k in self.order(4) {
            match k {
                0 => self.bool("Enabled", e.at_enabled),
                1 => self.leaf("DataTransferObfuscation", &e.at_obf.to_string()),
                2 => self.leaf("DefaultSequence", &e.at_seq),
                _ => {
                    for a in &e.assoc {
                        self.open("Association");
                        for k in self.order(2) {
                            match k {
                                0 => self.leaf("Window", &a.0),
                                _ => self.leaf("KeystrokeSequence", &a.1),
                            }
                            self.unknown();
                        }
                        self.close("Association");
                    }
                }
            }
            self.unknown();
        }
        self.close("AutoType");
    }
    fn group(&mut self, g: &MGroup) {
        self.open("Group");
        for k in self.order(12) {
            match k {
                0 => self.uuid("UUID", &g.uuid),
                1 => self.leaf("Name", &g.name),
                2 => self.leaf("Notes", &g.notes),
                3 => self.leaf("IconID", &g.icon.to_string()),
                4 => self.opt_uuid("CustomIconUUID", &g.cicon),
                5 => self.times(&g.times),
                6 => self.bool("IsExpanded", g.expanded),
                7 => self.leaf("DefaultAutoTypeSequence", &g.at_seq),
                8 => self.opt_bool("EnableAutoType", g.at_enabled),
                9 => self.opt_bool("EnableSearching", g.searching),
                10 => self.uuid("LastTopVisibleEntry", &g.last_top),
                _ => self.unknown(),
            }
        }
        // Entries and subgroups may alternate in any way that keeps their order.
        let (mut i, mut j) = (0, 0);
        while i < g.entries.len() || j < g.groups.len() {
            let sub = i >= g.entries.len() || (j < g.groups.len() && self.st.odds(1, 3));
            if sub {
                self.group(&g.groups[j]);
                j += 1;
            } else {
                self.entry(&g.entries[i], false);
                i += 1;
            }
            if self.st.odds(1, 8) {
                self.unknown();
            }
        }
        self.close("Group");
    }
    fn meta(&mut self, d: &MDb, hash: &Option<[u8; 32]>, generator: &str) {
        self.open("Meta");
        for k in self.order(27) {
            match k {
                0 => self.leaf("Generator", generator),
                1 => {
                    if let Some(h) = hash {
                        let t = self.b64(h);
                        self.leaf("HeaderHash", &t);
                    }
                }
                2 => self.leaf("DatabaseName", &d.name),
                3 => self.time("DatabaseNameChanged", d.name_changed),
                4 => self.leaf("DatabaseDescription", &d.description),
                5 => self.time("DatabaseDescriptionChanged", d.description_changed),
                6 => self.leaf("DefaultUserName", &d.username),
                7 => self.time("DefaultUserNameChanged", d.username_changed),
                8 => self.leaf("MaintenanceHistoryDays", &d.maint_days.to_string()),
                9 => self.color("Color", &d.color),
                10 => self.time("MasterKeyChanged", d.key_changed),
                11 => self.leaf("MasterKeyChangeRec", &d.key_rec.to_string()),
                12 => self.leaf("MasterKeyChangeForce", &d.key_force.to_string()),
                13 => {
                    self.open("MemoryProtection");
                    for k in self.order(5) {
                        let t = [
                            "ProtectNotes",
                            "ProtectPassword",
                            "ProtectTitle",
                            "ProtectURL",
                            "ProtectUserName",
                        ];
                        self.bool(t[k], d.protect[k]);
                        self.unknown();
                    }
                    self.close("MemoryProtection");
                }
                14 => {
                    if !d.icons.is_empty() || !self.st.odds(1, 2) {
                        self.open("CustomIcons");
                        for (k, v) in &d.icons {
                            self.open("Icon");
                            for i in self.order(2) {
                                match i {
                                    0 => self.uuid("UUID", k),
                                    _ => {
                                        let t = self.b64(v);
                                        self.leaf("Data", &t)
                                    }
                                }
                                self.unknown();
                            }
                            self.close("Icon");
                            self.unknown();
                        }
                        self.close("CustomIcons");
                    }
                }
                15 => self.bool("RecycleBinEnabled", d.bin_enabled),
                16 => self.uuid("RecycleBinUUID", &d.bin_uuid),
                17 => self.time("RecycleBinChanged", d.bin_changed),
                18 => self.uuid("EntryTemplatesGroup", &d.templates),
                19 => self.time("EntryTemplatesGroupChanged", d.templates_changed),
                20 => self.leaf("HistoryMaxItems", &d.hist_items.to_string()),
                21 => self.leaf("HistoryMaxSize", &d.hist_size.to_string()),
                22 => self.uuid("LastSelectedGroup", &d.last_selected),
                23 => self.uuid("LastTopVisibleGroup", &d.last_top),
                24 => {
                    if !d.binaries.is_empty() || !self.st.odds(1, 2) {
                        self.open("Binaries");
                        for (k, v) in &d.binaries {
                            self.pool_binary(k, v);
                            self.unknown();
                        }
                        self.close("Binaries");
                    }
                }
                25 => {
                    if !d.custom_data.is_empty() || !self.st.odds(1, 2) {
                        self.open("CustomData");
                        for (k, v) in &d.custom_data {
                            self.open("Item");
                            for i in self.order(2) {
                                match i {
                                    0 => self.leaf("Key", k),
                                    _ => self.leaf("Value", v),
                                }
                                self.unknown();
                            }
                            self.close("Item");
                            self.unknown();
                        }
                        self.close("CustomData");
                    }
                }
                _ => self.unknown(),
            }
        }
        self.close("Meta");
    }
    fn pool_binary(&mut self, k: &str, v: &[u8]) {
        let how = if self.st.wild { self.st.rng.below(4) } else { 0 };
        let mut a = vec![("ID", k.to_string())];
        let t;
        match how {
            0 | 1 => {
                a.push(("Compressed", self.b(true)));
                let level = if self.st.wild { self.st.rng.below(10) as u32 } else { 6 };
                t = self.b64(&gzip(v, level));
            }
            2 => {
                if self.st.odds(1, 2) {
                    a.push(("Compressed", self.b(false)));
                }
                t = self.b64(v);
            }
            _ => {
                a.push(("Protected", self.b(true)));
                t = self.prot(v);
            }
        }
        if self.st.odds(1, 3) {
            a.reverse();
        }
        self.leaf_attrs("Binary", &a, &t);
    }
}

/// Fresh header for a file with the given settings.
pub fn header(db: &MDb, st: &mut Style, ent: &mut Prng) -> Hdr {
    let mut r = |n: usize| {
        let mut v = vec![0; n];
        ent.fill(&mut v);
        v
    };
    let mut fields = vec![
        (2, AES_ID.to_vec()),
        (3, vec![db.gzip as u8, 0, 0, 0]),
        (4, r(32)),
        (5, r(32)),
        (6, db.rounds.to_le_bytes().to_vec()),
        (7, r(16)),
        (8, r(32)),
        (9, r(32)),
        (10, vec![2, 0, 0, 0]),
    ];
    if let Some(ref c) = db.comment {
        fields.insert(0, (1, c.clone()));
    }
    if st.odds(1, 2) {
        for i in (1..fields.len()).rev() {
            let j = st.rng.below(i as u64 + 1) as usize;
            fields.swap(i, j);
        }
    }
    let end = if st.odds(1, 4) { Vec::new() } else { b"\r\n\r\n".to_vec() };
    fields.push((0, end));
    Hdr { version: db.version, fields }
}

pub fn encode_xml(db: &MDb, hdr: &Hdr, st: &mut Style) -> String {
    let hash = if st.hash { Some(sha256(&[&hdr.bytes()])) } else { None };
    let psk = hdr.get(8).expect("stream key").to_vec();
    let pretty = if st.wild { st.rng.below(3) as u8 } else { 1 };
    let nl = if st.odds(1, 2) { "\n" } else { "\r\n" };
    let text_nl = if st.wild { st.rng.below(3) as u8 } else { 0 };
    let decl = match st.wild {
        true => st.rng.below(4),
        false => 0,
    };
    let mut w = Wr {
        o: String::new(),
        st,
        salsa: Salsa::new(&sha256(&[&psk])),
        pretty,
        nl,
        text_nl,
        depth: 0,
    };
    match decl {
        0 => w.o.push_str("<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>"),
        1 => w.o.push_str("<?xml version='1.0' encoding='UTF-8'?>\n"),
        2 => w.o.push_str("<?xml version=\"1.0\"?>"),
        _ => {}
    }
    if w.o.is_empty() || w.st.odds(1, 8) {
        // White space is fine before the root, but nothing of it is needed.
        w.o.push_str("<KeePassFile");
        if w.st.odds(1, 3) {
            w.o.push_str(" xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" a='b'");
        }
        w.o.push('>');
        w.depth = 1;
    } else {
        w.open("KeePassFile");
    }
    let generator = w.st.generator;
    w.meta(db, &hash, generator);
    w.unknown();
    w.open("Root");
    w.unknown();
    let early = w.st.odds(1, 6);
    if early {
        w.deleted();
    }
    w.group(&db.root);
    w.unknown();
    if !early {
        w.deleted();
    }
    w.close("Root");
    w.unknown();
    w.close("KeePassFile");
    if w.st.odds(1, 3) {
        w.o.push('\n');
    }
    w.o
}

pub fn split_blocks(data: &[u8], st: &mut Style) -> Vec<u8> {
    let mut out = Vec::new();
    let mut id = 0;
    let mut rest = data;
    let mode = if st.wild { st.rng.below(4) } else { 0 };
    while !rest.is_empty() {
        let n = match mode {
            0 => st.max_block,
            1 => 1 + st.rng.below(64) as usize,
            2 => 1 + st.rng.below(data.len() as u64) as usize,
            _ => 512,
        };
        let n = n.min(rest.len());
        // Keep the number of blocks reasonable.
        let n = if id > 3000 { rest.len() } else { n };
        out.extend(block(id, &rest[..n]));
        rest = &rest[n..];
        id += 1;
    }
    out.extend(block(id, &[]));
    out
}

/// Wraps a document into a file.
pub fn wrap(xml: &[u8], hdr: &Hdr, raw: &[u8; 32], st: &mut Style) -> Vec<u8> {
    let level = if st.wild { st.rng.below(10) as u32 } else { 6 };
    let data = if hdr.gzip().expect("compression") { gzip(xml, level) } else { xml.to_vec() };
    let mut plain = hdr.get(9).expect("start bytes").to_vec();
    plain.extend(split_blocks(&data, st));
    hdr.seal(raw, &plain).expect("seal")
}

pub fn encode(db: &MDb, raw: &[u8; 32], st: &mut Style, ent: &mut Prng) -> Vec<u8> {
    let hdr = header(db, st, ent);
    let xml = encode_xml(db, &hdr, st);
    wrap(xml.as_bytes(), &hdr, raw, st)
}

/// A key file (version 1.00) as other programs write it.
pub fn encode_key_file(key: &[u8], st: &mut Style) -> String {
    let mut w = Wr { o: String::new(), st, salsa: Salsa::new(&[0; 32]), pretty: 0, nl: "", text_nl: 0, depth: 0 };
    let t = w.b64(key);
    encode_key_file_as(&t, "1.00", st)
}

/// The same with any text as its key and as its version.
pub fn encode_key_file_as(data: &str, version: &str, st: &mut Style) -> String {
    let pretty = if st.wild { st.rng.below(3) as u8 } else { 1 };
    let nl = if st.odds(1, 2) { "\n" } else { "\r\n" };
    let decl = if st.wild { st.rng.below(4) } else { 0 };
    let xmlns = st.odds(1, 3);
    let mut w = Wr { o: String::new(), st, salsa: Salsa::new(&[0; 32]), pretty, nl, text_nl: 0, depth: 0 };
    match decl {
        0 => w.o.push_str("<?xml version=\"1.0\" encoding=\"utf-8\"?>"),
        1 => w.o.push_str("<?xml version='1.0' encoding='UTF-8'?>\n"),
        2 => w.o.push_str("\u{feff}<?xml version=\"1.0\"?>"),
        _ => {}
    }
    if xmlns {
        w.o.push_str(
            "<KeyFile xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" \
             xmlns:xsd=\"http://www.w3.org/2001/XMLSchema\">",
        );
    } else {
        w.o.push_str("<KeyFile>");
    }
    w.depth = 1;
    for k in w.order(2) {
        if k == 0 {
            w.open("Meta");
            w.unknown();
            w.leaf("Version", version);
            w.unknown();
            w.close("Meta");
        } else {
            w.open("Key");
            w.unknown();
            w.leaf("Data", data);
            w.unknown();
            w.close("Key");
        }
        w.unknown();
        if w.st.odds(1, 10) {
            // Whatever somebody noted beside the key.
            let n = w.st.rng.below(14);
            let n = w.st.rng.below(1 << n) as usize;
            w.o.push_str(&format!("<!-- {} -->", "keep this file ".repeat(n / 8)));
        }
    }
    w.close("KeyFile");
    if w.st.odds(1, 3) {
        w.o.push('\n');
    }
    w.o
}

/// What another program makes of a key file: its key and its type (0 binary, 1 hexadecimal, 2 XML).
pub fn decode_key_file(b: &[u8]) -> Result<(Vec<u8>, u8), String> {
    match b.len() {
        32 => return Ok((b.to_vec(), 0)),
        64 => {
            let s = std::str::from_utf8(b).map_err(|e| e.to_string())?;
            return unhex(s).map(|k| (k, 1)).ok_or_else(|| "not hexadecimal".into());
        }
        _ => {}
    }
    let doc = xml::parse(b)?;
    let d = Rd { d: &doc, prot: BTreeMap::new() };
    if d.name(0) != "KeyFile" {
        return Err("the root element is not KeyFile".into());
    }
    let meta = doc.kid(0, "Meta").ok_or("no Meta")?;
    if d.str(meta, "Version")? != "1.00" {
        return Err("wrong version".into());
    }
    let key = doc.kid(0, "Key").ok_or("no Key")?;
    let data = doc.kid(key, "Data").ok_or("no Data")?;
    let k = unb64(&d.leaf(data)?).ok_or("the key is not base64")?;
    Ok((k, 2))
}

pub fn self_test() -> Result<(), String> {
    for (s, t) in [
        ("1970-01-01T00:00:00Z", (0, 0)),
        ("2016-02-29T12:30:45.5Z", (1456749045, 500_000_000)),
        ("0001-01-01T00:00:00Z", (-62135596800, 0)),
        ("9999-12-31T23:59:59.999999999Z", (253402300799, 999_999_999)),
    ] {
        if parse_time(s) != Some(t) || format_time(t, false) != s {
            return Err(format!("time {}: {:?} {}", s, parse_time(s), format_time(t, false)));
        }
    }
    Ok(())
}
