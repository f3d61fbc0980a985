//! Generators of credentials and database contents.

use crate::model::*;
use crate::peer::{year_start, Cred};
use crate::rt::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy)]
pub struct Profile {
    /// 0..=3: how much content.
    pub size: u64,
    /// Times with four-digit years only and no leap seconds.
    pub common_times: bool,
    /// Numbers as binary identifiers.
    pub pool_ids: bool,
    /// Nesting of groups.
    pub depth: usize,
    /// Histories of history items.
    pub deep_history: bool,
    pub max_rounds: u64,
    /// Items equal to others, or with identifiers of others.
    pub twins: bool,
    /// Now and then far more of something than people have.
    pub huge: bool,
}

pub const FULL: Profile = Profile {
    size: 2,
    common_times: false,
    pool_ids: false,
    depth: 4,
    deep_history: false,
    max_rounds: 40,
    twins: true,
    huge: false,
};

pub const SMALL: Profile = Profile { size: 1, depth: 2, ..FULL };

pub const PEER: Profile = Profile { common_times: true, pool_ids: true, ..FULL };

pub fn bytes(n: usize) -> Vec<u8> {
    let mut r = Prng::new(seed_draw());
    let mut v = vec![0; n];
    match draw(6) {
        0 => {}
        1..=3 => r.fill(&mut v),
        4 => {
            for (i, b) in v.iter_mut().enumerate() {
                *b = b"The quick brown fox. "[i % 21];
            }
        }
        _ => v.iter_mut().for_each(|b| *b = 0xff),
    }
    v
}

pub fn blob(big: u64) -> Vec<u8> {
    let n = match draw(10) {
        0 => 0,
        1..=5 => draw(40),
        6..=7 => 16 * draw(8),
        8 => draw(600),
        _ => draw(big.max(1)),
    };
    bytes(n as usize)
}

const PIECES: [&str; 44] = [
    "a", "Title", " ", "  ", "\n", "\t", "\r\n", "\r", "&", "<", ">", "\"", "'", "]]>", "<![CDATA[", "&amp;",
    "<!--", "-->", "<Value>", "</Value>", "é", "ß", "İ", "Σς", "日本", "\u{1f511}", "\u{e000}", "\u{fffd}",
    "\u{7f}", "\u{85}", "\u{a0}", "\u{2028}", "\u{feff}", "\u{200b}", "\u{10ffff}", "\u{d7ff}", "{PASSWORD}",
    "null", "true", "0", "\\", "%s", "?>", "e\u{301}",
];

/// What people and programs have in such databases.
const USUAL: [&str; 24] = [
    "b;a;b",
    "work; home ;;WORK",
    "a,b",
    "HTTP://User@Example.COM:443/a/../b?q=%7E+x&y=#z",
    "http://example.com",
    "cmd://C:\\Program Files\\x.exe --arg",
    "{USERNAME}{TAB}{PASSWORD}{ENTER}",
    "{username}",
    "{REF:P@I:46C9B1FFBD4ABC4BBB260C6190BAD20C}",
    "{S:Title}",
    "true",
    "False",
    "NULL",
    "2017-01-01T00:00:00Z",
    "#ffffff",
    "007",
    "-1",
    "1.0",
    "New Group",
    "Recycle Bin",
    "Title",
    "AAAA",
    "AAAAAAAAAAAAAAAAAAAAAA==",
    "line one\nline two\n",
];

/// Text that the format can carry.
pub fn text() -> String {
    match draw(12) {
        0 | 1 => String::new(),
        2..=4 => {
            let mut r = Prng::new(seed_draw());
            let n = 1 + draw(12);
            (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
        }
        5..=8 => {
            let n = 1 + draw(5);
            (0..n).map(|_| *pick(&PIECES)).collect()
        }
        9 => {
            let mut r = Prng::new(seed_draw());
            let n = draw(40);
            (0..n)
                .map(|_| loop {
                    let c = match r.below(4) {
                        0 => r.below(0x80),
                        1 => r.below(0x800),
                        2 => r.below(0x10000),
                        _ => r.below(0x110000),
                    };
                    if let Some(c) = char::from_u32(c as u32) {
                        if (c >= ' ' || "\t\n\r".contains(c)) && c != '\u{fffe}' && c != '\u{ffff}' {
                            break c;
                        }
                    }
                })
                .collect()
        }
        10 if draw(2) == 0 => pick(&USUAL).to_string(),
        10 => pick(&[" ", "\n", "\t ", "\r\n\r\n", " x", "x ", "\nx\n", "\r"]).to_string(),
        _ => {
            let n = draw(300) as usize;
            pick(&PIECES).repeat(n.max(1))
        }
    }
}

/// Now and then something long.
pub fn long_text(p: &Profile) -> String {
    if p.size >= 2 && chance(1, 60) {
        let mut r = Prng::new(seed_draw());
        let n = draw(70_000);
        (0..n).map(|_| PIECES[r.below(PIECES.len() as u64) as usize]).collect()
    } else {
        text()
    }
}

pub fn id() -> Id {
    let mut v = [0; 16];
    match draw(6) {
        0 => {}
        1 => v = [0xff; 16],
        _ => Prng::new(seed_draw()).fill(&mut v),
    }
    v
}

/// An identifier for an item; these are unlikely to repeat.
pub fn fresh_id() -> Id {
    let mut v = [0; 16];
    Prng::new(seed_draw()).fill(&mut v);
    v
}

pub fn time(p: &Profile) -> Time {
    let frac = match draw(5) {
        0 | 1 => 0,
        2 => 1,
        3 => *pick(&[999_999_999, 999_999_000, 999_000_000, 500_000_000, 1_000_000, 1_000, 10]),
        _ => draw(1_000_000_000) as u32,
    };
    let sec = match draw(8) {
        0..=2 => 1_400_000_000 + draw(400_000_000) as i64,
        3 => 0,
        4 => -1,
        5 => *pick(&[
            951_782_400,      // 2000-02-29
            4_107_542_400,    // 2100-03-01
            253_402_300_799,  // 9999-12-31T23:59:59
            -62_135_596_800,  // 0001-01-01
            2_147_483_647,
            2_147_483_648,
            -2_147_483_649,
        ]),
        6 => {
            let y = 1 + draw(9999) as i64;
            year_start(y) + draw(365 * 86400) as i64
        }
        _ => {
            if p.common_times {
                draw(4_000_000_000) as i64
            } else {
                match draw(6) {
                    0 => chrono::DateTime::<chrono::Utc>::MAX_UTC.timestamp(),
                    1 => chrono::DateTime::<chrono::Utc>::MIN_UTC.timestamp(),
                    2 => year_start(10_000),
                    3 => year_start(0),
                    4 => year_start(1) - 1,
                    _ => year_start(draw(500_000) as i64 - 250_000) + draw(31_000_000) as i64,
                }
            }
        }
    };
    if !p.common_times && sec.rem_euclid(60) == 59 && chance(1, 4) {
        return (sec, 1_000_000_000 + frac);
    }
    (sec, frac)
}

fn i32v() -> i32 {
    match draw(8) {
        0 => 0,
        1 => -1,
        2 => i32::MAX,
        3 => i32::MIN,
        4 | 5 => draw(12) as i32,
        6 if flag() => (1i32 << draw(31)) - draw(2) as i32,
        _ => draw(100_000) as i32,
    }
}

fn flag() -> bool {
    draw(2) == 1
}

fn opt_flag() -> Option<bool> {
    *pick(&[None, Some(true), Some(false)])
}

fn color() -> Option<[u8; 3]> {
    if flag() {
        return None;
    }
    if flag() {
        let mut c = || *pick(&[0u8, 255, 1, 15, 16, 128]);
        return Some(match draw(4) {
            0 => [0; 3],
            1 => [255; 3],
            _ => [c(), c(), c()],
        });
    }
    let v = draw(1 << 24) as u32;
    Some([(v >> 16) as u8, (v >> 8) as u8, v as u8])
}

fn opt_id() -> Option<Id> {
    if flag() {
        Some(id())
    } else {
        None
    }
}

fn times(p: &Profile) -> MTimes {
    MTimes {
        creation: time(p),
        expiry: time(p),
        expires: flag(),
        access: time(p),
        modified: time(p),
        moved: time(p),
        usage: i32v(),
    }
}

pub fn key_text() -> String {
    match draw(10) {
        0..=5 => pick(&["Notes", "Password", "Title", "URL", "UserName"]).to_string(),
        6 => pick(&["notes", "title", "URLS", "Url", "USERNAME", "password", "", " ", "TOTP Seed"])
            .to_string(),
        _ => text(),
    }
}

/// A name beside others: often one that a careless comparison takes for one of them.
pub fn beside<V>(have: &BTreeMap<String, V>, new: String) -> String {
    if have.is_empty() || draw(3) > 0 {
        return new;
    }
    let i = draw(have.len() as u64) as usize;
    let old = have.keys().nth(i).cloned().unwrap_or_default();
    alike(&old)
}

/// Text that differs from another by little.
pub fn alike(old: &str) -> String {
    let mut s = old.to_string();
    match draw(12) {
        0 => s.to_uppercase(),
        1 => s.to_lowercase(),
        2 => s.chars().map(|c| if c.is_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
        3 => s + *pick(&[" ", "\n", "\t", "\u{a0}", "\u{200b}", "\u{feff}"]),
        4 => format!("{}{}", pick(&[" ", "\n", "\u{a0}", "\u{feff}", "0", "."]), s),
        5 => s.trim().to_string(),
        6 => {
            s.pop();
            s
        }
        7 => s.chars().skip(1).collect(),
        8 => s.replace('e', "e\u{301}").replace('\u{e9}', "e\u{301}"),
        9 => s.replace("e\u{301}", "\u{e9}").replace('&', "&amp;"),
        10 => s.clone() + &s,
        _ => s.chars().rev().collect(),
    }
}

pub fn bin_id(p: &Profile) -> String {
    if p.pool_ids || draw(2) == 0 {
        draw(4).to_string()
    } else {
        text()
    }
}

pub fn string(p: &Profile) -> MStr {
    MStr { prot: draw(3) == 2, val: long_text(p).into_bytes() }
}

pub fn attachment(p: &Profile) -> MBin {
    let big = if p.size >= 2 { 30_000 } else { 500 };
    match draw(4) {
        0 => MBin::Plain(blob(big)),
        1 | 2 => MBin::Prot(blob(big)),
        _ => MBin::Ref(bin_id(p)),
    }
}

pub fn entry(p: &Profile, hist: usize) -> MEntry {
    let rich = draw(3);
    let mut e = MEntry {
        uuid: fresh_id(),
        assoc: Vec::new(),
        at_seq: String::new(),
        at_enabled: true,
        at_obf: 0,
        bg: None,
        fg: None,
        bins: BTreeMap::new(),
        icon: 0,
        cicon: None,
        url: String::new(),
        strings: BTreeMap::new(),
        tags: String::new(),
        times: times(p),
        history: Vec::new(),
    };
    let n = draw(if rich == 2 { 7 } else { 3 });
    for _ in 0..n {
        let k = beside(&e.strings, key_text());
        e.strings.insert(k, string(p));
    }
    if rich >= 1 {
        e.at_seq = text();
        e.at_enabled = flag();
        e.at_obf = draw(2) as i32;
        e.bg = color();
        e.fg = color();
        e.icon = draw(69) as i32;
        e.cicon = opt_id();
        e.url = text();
        e.tags = match draw(3) {
            0 => text(),
            _ => {
                let n = draw(6) as usize;
                (0..n).map(|_| *pick(&["a", "b", "A", " b", "", "x y"])).collect::<Vec<_>>().join(*pick(&[";", ";", ",", "; "]))
            }
        };
    }
    if rich == 2 {
        for _ in 0..draw(3) {
            e.assoc.push((text(), text()));
        }
        for _ in 0..draw(4) {
            let k = beside(&e.bins, text());
            e.bins.insert(k, attachment(p));
        }
    }
    if hist > 0 && rich >= 1 {
        for _ in 0..draw(3) {
            let mut h = entry(p, hist - 1);
            if draw(2) == 1 {
                h.uuid = e.uuid;
            }
            if p.twins && chance(1, 8) {
                // Nothing changed between two versions.
                h = e.history.last().cloned().unwrap_or_else(|| MEntry { history: Vec::new(), ..e.clone() });
            }
            e.history.push(h);
        }
    }
    e
}

pub fn group(p: &Profile, depth: usize) -> MGroup {
    let max = [1, 3, 5, 8][p.size.min(3) as usize];
    let mut g = MGroup {
        uuid: fresh_id(),
        cicon: None,
        at_seq: String::new(),
        at_enabled: None,
        searching: None,
        icon: 48,
        expanded: flag(),
        last_top: [0; 16],
        name: text(),
        notes: String::new(),
        times: times(p),
        entries: Vec::new(),
        groups: Vec::new(),
    };
    if flag() {
        g.cicon = opt_id();
        g.at_seq = text();
        g.at_enabled = opt_flag();
        g.searching = opt_flag();
        g.icon = draw(69) as i32;
        g.last_top = id();
        g.notes = long_text(p);
    }
    let hist = if p.deep_history { 3 } else { 1 };
    for _ in 0..draw(max) {
        g.entries.push(entry(p, hist));
    }
    if depth > 0 {
        for _ in 0..draw(if depth == p.depth { max } else { 3 }) {
            g.groups.push(group(p, depth - 1));
        }
    }
    g
}

pub fn db(p: &Profile) -> MDb {
    let mut d = MDb {
        comment: None,
        gzip: draw(2) == 0,
        rounds: 1 + draw(4),
        version: (3, 1),
        binaries: BTreeMap::new(),
        color: None,
        custom_data: BTreeMap::new(),
        icons: BTreeMap::new(),
        username: text(),
        username_changed: time(p),
        description: text(),
        description_changed: time(p),
        templates_changed: time(p),
        templates: id(),
        hist_items: i32v(),
        hist_size: i32v(),
        last_selected: id(),
        last_top: id(),
        maint_days: i32v(),
        key_force: i32v(),
        key_rec: i32v(),
        key_changed: time(p),
        name: text(),
        name_changed: time(p),
        protect: [flag(), flag(), flag(), flag(), flag()],
        bin_changed: time(p),
        bin_enabled: flag(),
        bin_uuid: id(),
        root: group(p, p.depth),
    };
    if flag() {
        let n = match draw(6) {
            0 => 0,
            1..=4 => draw(60),
            _ => *pick(&[255, 256, 257, 4096, 65534, 65535]),
        };
        d.comment = Some(bytes(n as usize));
        d.color = color();
        d.rounds = match draw(6) {
            0 => 0,
            1 => 2,
            2 if p.huge && chance(1, 20) => *pick(&[65_535, 65_536, 70_001]),
            2 => 1000,
            _ => draw(p.max_rounds),
        };
        if !p.pool_ids {
            d.version = *pick(&[(3, 1), (3, 0), (3, 0xffff), (0, 0), (0xffff, 0xffff), (2, 0x102)]);
        }
    }
    if flag() {
        let big = if p.size >= 2 { 40_000 } else { 500 };
        for i in 0..draw(4) {
            let k = if p.pool_ids { i.to_string() } else { beside(&d.binaries, bin_id(p)) };
            d.binaries.insert(k, blob(big));
        }
        for _ in 0..draw(4) {
            let k = beside(&d.custom_data, text());
            d.custom_data.insert(k, text());
        }
        for _ in 0..draw(3) {
            d.icons.insert(fresh_id(), blob(2000));
        }
    }
    if p.twins && draw(4) == 3 {
        twins(&mut d);
    }
    if draw(2) == 1 {
        links(&mut d);
    }
    if p.size >= 1 && chance(1, 25) {
        crowd(&mut d, p);
    }
    if p.huge && p.size >= 2 && chance(1, 40) {
        // Larger than any buffer in the way.
        let n = draw(1_500_000) as usize;
        d.binaries.insert("9".into(), bytes(n));
    }
    if p.huge && p.size >= 2 && chance(1, 900) {
        // More than three bytes can count.
        let n = (1 << 24) + draw(1 << 20) as usize;
        d.gzip = chance(2, 3);
        d.binaries.insert("8".into(), bytes(n));
        count("giant_binaries");
    }
    if p.huge && p.size >= 2 && chance(1, 40) {
        let n = draw(400_000) as usize;
        let b = if draw(3) == 0 { MBin::Plain(bytes(n)) } else { MBin::Prot(bytes(n)) };
        let mut e = entry(&Profile { size: 0, ..*p }, 0);
        e.bins.insert("large".into(), b);
        let n = draw(400_000) as usize;
        let text = MStr { prot: flag(), val: "long text ".repeat(n / 10).into_bytes() };
        e.strings.insert("long".into(), text);
        d.root.entries.push(e);
    }
    d
}

/// Puts many of one kind in one place.
fn crowd(d: &mut MDb, p: &Profile) {
    let small = Profile { size: 0, depth: 0, ..*p };
    let n = if p.huge && chance(1, 6) { 1_025 } else { *pick(&[9u64, 10, 11, 12, 20, 40, 70, 130, 260]) };
    let n = n + draw(3);
    let same = draw(3) == 2;
    count("crowds");
    match draw(8) {
        0 | 1 => {
            if d.root.entries.is_empty() {
                d.root.entries.push(entry(&small, 0));
            }
            let of = entry(&small, 0);
            let e = &mut d.root.entries[0];
            for i in 0..n.min(70) {
                let mut h = of.clone();
                h.uuid = e.uuid;
                if !same {
                    h.times.modified = (1_400_000_000 + i as i64, 0);
                    h.url = i.to_string();
                }
                e.history.push(h);
            }
        }
        2 => {
            let of = entry(&small, 0);
            for i in 0..n {
                let mut e = of.clone();
                e.uuid = fresh_id();
                e.url = i.to_string();
                d.root.entries.push(e);
            }
        }
        3 => {
            let of = group(&small, 0);
            for i in 0..n {
                let mut g = of.clone();
                g.uuid = fresh_id();
                g.name = i.to_string();
                d.root.groups.push(g);
            }
        }
        4 => {
            // A deep chain, with an entry at its end.
            let mut g = group(&small, 0);
            g.entries.push(entry(&small, 0));
            for i in 0..if p.huge && chance(1, 8) { 1200 } else { n.min(130) } {
                let mut up = group(&small, 0);
                up.name = i.to_string();
                up.groups.push(g);
                g = up;
            }
            d.root.groups.push(g);
        }
        5 => {
            let mut e = entry(&small, 0);
            for i in 0..n {
                e.strings.insert(format!("name {}", i), MStr { prot: i % 3 == 0, val: i.to_string().into_bytes() });
            }
            d.root.entries.push(e);
        }
        6 => {
            let mut e = entry(&small, 0);
            for i in 0..n {
                let b = if i % 2 == 0 { MBin::Plain(vec![i as u8; i as usize]) } else { MBin::Prot(vec![i as u8; i as usize]) };
                e.bins.insert(format!("file {}", i), b);
            }
            d.root.entries.push(e);
        }
        _ => {
            for i in 0..n {
                d.binaries.insert(i.to_string(), vec![i as u8; (i % 50) as usize]);
                d.custom_data.insert(format!("key {}", i), i.to_string());
                d.icons.insert(fresh_id(), vec![i as u8; 3]);
            }
        }
    }
}

/// Makes identifiers refer to what is there, as they usually do.
fn links(d: &mut MDb) {
    let mut gs = Vec::new();
    d.root.walk(&mut gs);
    let gs: Vec<Id> = gs.iter().map(|g| g.uuid).collect();
    let es: Vec<Id> = d.root.all_entries().iter().map(|e| e.uuid).collect();
    for _ in 0..1 + draw(4) {
        match draw(6) {
            0 | 1 => {
                d.bin_uuid = *pick(&gs);
                d.bin_enabled = chance(3, 4);
            }
            2 => d.templates = *pick(&gs),
            3 => {
                d.last_selected = *pick(&gs);
                d.last_top = *pick(&gs);
            }
            4 if !es.is_empty() => {
                d.root.last_top = *pick(&es);
                if let Some(g) = d.root.groups.first_mut() {
                    g.last_top = *pick(&es);
                }
            }
            _ if !d.icons.is_empty() => {
                let i = draw(d.icons.len() as u64) as usize;
                let icon = d.icons.keys().nth(i).copied();
                d.root.cicon = icon;
                if let Some(e) = d.root.entries.first_mut() {
                    e.cicon = icon;
                }
            }
            _ => {}
        }
    }
}

/// Makes items equal to others, wholly or in their identifier.
fn twins(d: &mut MDb) {
    let es: Vec<MEntry> = d.root.all_entries().into_iter().cloned().collect();
    for _ in 0..1 + draw(3) {
        match draw(6) {
            0 | 1 if !es.is_empty() => {
                let e = pick(&es).clone();
                let n = d.root.groups.len() as u64;
                let i = draw(n + 1) as usize;
                let g = if i < n as usize { &mut d.root.groups[i] } else { &mut d.root };
                g.entries.push(e);
            }
            2 if !d.root.groups.is_empty() => {
                let g = pick(&d.root.groups).clone();
                d.root.groups.push(g);
            }
            3 if d.root.groups.len() > 1 => {
                d.root.groups[1].uuid = d.root.groups[0].uuid;
                d.root.groups[1].name = d.root.groups[0].name.clone();
            }
            4 => {
                if let Some(e) = d.root.entries.first_mut() {
                    e.uuid = d.root.uuid;
                }
            }
            _ => {
                if let Some(e) = d.root.entries.last_mut() {
                    e.uuid = [0; 16];
                }
            }
        }
    }
}

pub fn password() -> String {
    match draw(4) {
        0 => String::new(),
        1 => {
            let mut r = Prng::new(seed_draw());
            (0..1 + draw(20)).map(|_| (b'!' + r.below(90) as u8) as char).collect()
        }
        2 => text(),
        _ => {
            let n = *pick(&[31usize, 32, 33, 55, 56, 63, 64, 65, 119, 128, 1000]);
            "p".repeat(n)
        }
    }
}

pub fn key_bytes() -> Vec<u8> {
    match draw(6) {
        0 => vec![0; 32],
        1..=3 => bytes(32),
        4 => bytes(draw(100) as usize),
        _ => bytes(64),
    }
}

pub fn cred() -> Cred {
    match draw(3) {
        0 => Cred::Pw(password()),
        1 => Cred::Kf(key_bytes()),
        _ => Cred::Both(password(), key_bytes()),
    }
}

/// Counts the parts of a content, for the run's signature.
pub fn shape(d: &MDb) -> u64 {
    let mut gs = Vec::new();
    d.root.walk(&mut gs);
    let es = d.root.all_entries();
    let strings: usize = es.iter().map(|e| e.strings.len()).sum();
    let prot: usize = es.iter().map(|e| e.strings.values().filter(|s| s.prot).count()).sum();
    let bins: usize = es.iter().map(|e| e.bins.len()).sum();
    let mut h = 0u64;
    for v in [gs.len(), es.len(), strings, prot, bins, d.binaries.len(), d.gzip as usize] {
        h = mix(h ^ v as u64);
    }
    h
}
