//! The reference model of a database's content, and its mapping to the library's types.

use kpdb::Icon::{self, *};
use std::collections::BTreeMap;

pub type Id = [u8; 16];
/// Seconds since 1970 and nanoseconds (a leap second has 1e9 or more).
pub type Time = (i64, u32);

#[derive(Clone, Debug, PartialEq)]
pub struct MTimes {
    pub creation: Time,
    pub expiry: Time,
    pub expires: bool,
    pub access: Time,
    pub modified: Time,
    pub moved: Time,
    pub usage: i32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum MBin {
    Plain(Vec<u8>),
    Prot(Vec<u8>),
    Ref(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct MStr {
    pub prot: bool,
    pub val: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MEntry {
    pub uuid: Id,
    /// (window, keystroke sequence)
    pub assoc: Vec<(String, String)>,
    pub at_seq: String,
    pub at_enabled: bool,
    pub at_obf: i32,
    pub bg: Option<[u8; 3]>,
    pub fg: Option<[u8; 3]>,
    pub bins: BTreeMap<String, MBin>,
    pub icon: i32,
    pub cicon: Option<Id>,
    pub url: String,
    pub strings: BTreeMap<String, MStr>,
    pub tags: String,
    pub times: MTimes,
    pub history: Vec<MEntry>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MGroup {
    pub uuid: Id,
    pub cicon: Option<Id>,
    pub at_seq: String,
    pub at_enabled: Option<bool>,
    pub searching: Option<bool>,
    pub icon: i32,
    pub expanded: bool,
    pub last_top: Id,
    pub name: String,
    pub notes: String,
    pub times: MTimes,
    pub entries: Vec<MEntry>,
    pub groups: Vec<MGroup>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MDb {
    pub comment: Option<Vec<u8>>,
    pub gzip: bool,
    pub rounds: u64,
    pub version: (u16, u16),
    pub binaries: BTreeMap<String, Vec<u8>>,
    pub color: Option<[u8; 3]>,
    pub custom_data: BTreeMap<String, String>,
    pub icons: BTreeMap<Id, Vec<u8>>,
    pub username: String,
    pub username_changed: Time,
    pub description: String,
    pub description_changed: Time,
    pub templates_changed: Time,
    pub templates: Id,
    pub hist_items: i32,
    pub hist_size: i32,
    pub last_selected: Id,
    pub last_top: Id,
    pub maint_days: i32,
    pub key_force: i32,
    pub key_rec: i32,
    pub key_changed: Time,
    pub name: String,
    pub name_changed: Time,
    /// notes, password, title, URL, username
    pub protect: [bool; 5],
    pub bin_changed: Time,
    pub bin_enabled: bool,
    pub bin_uuid: Id,
    pub root: MGroup,
}

/// The numbers the format gives to the standard icons.
pub const ICONS: [Icon; 69] = [
    Key, World, Warning, Server, MarkedDirectory, UserCommunication, Parts, Notepad, WorldSocket,
    Identity, PaperReady, Digicam, IRCommunication, MultipleKeys, Energy, Scanner, WorldStar, CDRom,
    Monitor, Email, Configuration, ClipboardReady, PaperNew, Screen, EnergyCareful, Inbox, Disk,
    Drive, QuickTime, EncryptedTerminal, Console, Printer, Icons, Run, Settings, WorldComputer,
    Archive, Banking, Smb, Clock, EmailSearch, PaperFlag, Memory, RecycleBin, Note, Expired, Info,
    Package, Folder, FolderOpen, FolderPackage, LockOpen, PaperLocked, Checked, Pen, Thumbnail,
    Book, Listing, UserKey, Tool, Home, Star, Tux, Feather, Apple, Wikipedia, Money, Certificate,
    Phone,
];

fn icon_no(i: Icon) -> i32 {
    ICONS.iter().position(|x| *x == i).map_or(-1, |p| p as i32)
}

pub fn time_of(t: chrono::DateTime<chrono::Utc>) -> Time {
    (t.timestamp(), t.timestamp_subsec_nanos())
}

pub fn time_to(t: Time) -> chrono::DateTime<chrono::Utc> {
    chrono::DateTime::from_timestamp(t.0, t.1).expect("representable time")
}

fn color_of(c: &Option<kpdb::Color>) -> Option<[u8; 3]> {
    c.as_ref().map(|c| [c.red, c.green, c.blue])
}

fn color_to(c: &Option<[u8; 3]>) -> Option<kpdb::Color> {
    c.map(|c| kpdb::Color {
        red: c[0],
        green: c[1],
        blue: c[2],
    })
}

fn uuid_to(i: &Id) -> uuid::Uuid {
    uuid::Uuid::from_bytes(*i)
}

pub fn key_name(k: &kpdb::StringKey) -> String {
    match *k {
        kpdb::StringKey::Notes => "Notes".into(),
        kpdb::StringKey::Password => "Password".into(),
        kpdb::StringKey::Title => "Title".into(),
        kpdb::StringKey::Url => "URL".into(),
        kpdb::StringKey::Username => "UserName".into(),
        kpdb::StringKey::Other(ref s) => s.clone(),
    }
}

pub fn key_of(s: &str) -> kpdb::StringKey {
    match s {
        "Notes" => kpdb::StringKey::Notes,
        "Password" => kpdb::StringKey::Password,
        "Title" => kpdb::StringKey::Title,
        "URL" => kpdb::StringKey::Url,
        "UserName" => kpdb::StringKey::Username,
        _ => kpdb::StringKey::Other(s.into()),
    }
}

impl MEntry {
    pub fn of(e: &kpdb::Entry) -> MEntry {
        MEntry {
            uuid: *e.uuid.0.as_bytes(),
            assoc: e
                .associations
                .iter()
                .map(|a| (a.window.clone(), a.keystroke_sequence.clone()))
                .collect(),
            at_seq: e.auto_type_def_sequence.clone(),
            at_enabled: e.auto_type_enabled,
            at_obf: match e.auto_type_obfuscation {
                kpdb::Obfuscation::None => 0,
                kpdb::Obfuscation::UseClipboard => 1,
            },
            bg: color_of(&e.background_color),
            fg: color_of(&e.foreground_color),
            bins: e
                .binaries
                .iter()
                .map(|(k, v)| {
                    let v = match *v {
                        kpdb::BinaryValue::Plain(ref b) => MBin::Plain(b.clone()),
                        kpdb::BinaryValue::Protected(ref s) => MBin::Prot(s.unsecure().to_vec()),
                        kpdb::BinaryValue::Ref(ref r) => MBin::Ref(r.0.clone()),
                    };
                    (k.0.clone(), v)
                })
                .collect(),
            icon: icon_no(e.icon),
            cicon: e.custom_icon_uuid.map(|u| *u.0.as_bytes()),
            url: e.override_url.clone(),
            strings: e
                .strings
                .iter()
                .map(|(k, v)| {
                    let v = match *v {
                        kpdb::StringValue::Plain(ref s) => MStr {
                            prot: false,
                            val: s.clone().into_bytes(),
                        },
                        kpdb::StringValue::Protected(ref s) => MStr {
                            prot: true,
                            val: s.unsecure().to_vec(),
                        },
                    };
                    (key_name(k), v)
                })
                .collect(),
            tags: e.tags.clone(),
            times: MTimes {
                creation: time_of(e.creation_time),
                expiry: time_of(e.expiry_time),
                expires: e.expires,
                access: time_of(e.last_accessed),
                modified: time_of(e.last_modified),
                moved: time_of(e.location_changed),
                usage: e.usage_count,
            },
            history: e.history.iter().map(MEntry::of).collect(),
        }
    }

    pub fn to(&self) -> kpdb::Entry {
        let mut e = kpdb::Entry::default();
        e.uuid = kpdb::EntryUuid(uuid_to(&self.uuid));
        e.associations = self
            .assoc
            .iter()
            .map(|a| kpdb::Association {
                window: a.0.clone(),
                keystroke_sequence: a.1.clone(),
            })
            .collect();
        e.auto_type_def_sequence = self.at_seq.clone();
        e.auto_type_enabled = self.at_enabled;
        e.auto_type_obfuscation = if self.at_obf == 0 {
            kpdb::Obfuscation::None
        } else {
            kpdb::Obfuscation::UseClipboard
        };
        e.background_color = color_to(&self.bg);
        e.foreground_color = color_to(&self.fg);
        for (k, v) in &self.bins {
            let v = match v {
                MBin::Plain(b) => kpdb::BinaryValue::Plain(b.clone()),
                MBin::Prot(b) => kpdb::BinaryValue::Protected(secstr::SecStr::new(b.clone())),
                MBin::Ref(r) => kpdb::BinaryValue::Ref(kpdb::BinaryId(r.clone())),
            };
            e.binaries.insert(kpdb::BinaryKey(k.clone()), v);
        }
        e.icon = ICONS[self.icon as usize];
        e.custom_icon_uuid = self.cicon.map(|u| kpdb::CustomIconUuid(uuid_to(&u)));
        e.override_url = self.url.clone();
        for (k, v) in &self.strings {
            let v = if v.prot {
                kpdb::StringValue::Protected(secstr::SecStr::new(v.val.clone()))
            } else {
                kpdb::StringValue::Plain(String::from_utf8(v.val.clone()).expect("plain is text"))
            };
            e.strings.insert(key_of(k), v);
        }
        e.tags = self.tags.clone();
        e.creation_time = time_to(self.times.creation);
        e.expiry_time = time_to(self.times.expiry);
        e.expires = self.times.expires;
        e.last_accessed = time_to(self.times.access);
        e.last_modified = time_to(self.times.modified);
        e.location_changed = time_to(self.times.moved);
        e.usage_count = self.times.usage;
        e.history = self.history.iter().map(|h| h.to()).collect();
        e
    }
}

impl MGroup {
    /// The group without what it contains.
    fn shallow_of(g: &kpdb::Group) -> MGroup {
        MGroup {
            uuid: *g.uuid.0.as_bytes(),
            cicon: g.custom_icon_uuid.map(|u| *u.0.as_bytes()),
            at_seq: g.def_auto_type_sequence.clone(),
            at_enabled: g.enable_auto_type,
            searching: g.enable_searching,
            icon: icon_no(g.icon),
            expanded: g.is_expanded,
            last_top: *g.last_top_visible_entry.0.as_bytes(),
            name: g.name.clone(),
            notes: g.notes.clone(),
            times: MTimes {
                creation: time_of(g.creation_time),
                expiry: time_of(g.expiry_time),
                expires: g.expires,
                access: time_of(g.last_accessed),
                modified: time_of(g.last_modified),
                moved: time_of(g.location_changed),
                usage: g.usage_count,
            },
            entries: Vec::new(),
            groups: Vec::new(),
        }
    }

    pub fn of(g: &kpdb::Group) -> MGroup {
        let mut m = MGroup::shallow_of(g);
        m.entries = g.entries.iter().map(MEntry::of).collect();
        m.groups = g.groups.iter().map(MGroup::of).collect();
        m
    }

    pub fn to(&self) -> kpdb::Group {
        let mut g = kpdb::Group::default();
        g.uuid = kpdb::GroupUuid(uuid_to(&self.uuid));
        g.custom_icon_uuid = self.cicon.map(|u| kpdb::CustomIconUuid(uuid_to(&u)));
        g.def_auto_type_sequence = self.at_seq.clone();
        g.enable_auto_type = self.at_enabled;
        g.enable_searching = self.searching;
        g.icon = ICONS[self.icon as usize];
        g.is_expanded = self.expanded;
        g.last_top_visible_entry = kpdb::EntryUuid(uuid_to(&self.last_top));
        g.name = self.name.clone();
        g.notes = self.notes.clone();
        g.creation_time = time_to(self.times.creation);
        g.expiry_time = time_to(self.times.expiry);
        g.expires = self.times.expires;
        g.last_accessed = time_to(self.times.access);
        g.last_modified = time_to(self.times.modified);
        g.location_changed = time_to(self.times.moved);
        g.usage_count = self.times.usage;
        g.entries = self.entries.iter().map(|e| e.to()).collect();
        g.groups = self.groups.iter().map(|e| e.to()).collect();
        g
    }

    pub fn walk<'a>(&'a self, out: &mut Vec<&'a MGroup>) {
        out.push(self);
        for g in &self.groups {
            g.walk(out);
        }
    }

    /// All entries, active and in histories.
    pub fn all_entries<'a>(&'a self) -> Vec<&'a MEntry> {
        let mut gs = Vec::new();
        self.walk(&mut gs);
        let mut out = Vec::new();
        for g in gs {
            for e in &g.entries {
                out.push(e);
                out.extend(e.history.iter());
            }
        }
        out
    }
}

impl MDb {
    pub fn of(d: &kpdb::Database) -> MDb {
        MDb {
            comment: d.comment.as_ref().map(|c| c.0.clone()),
            gzip: match d.compression {
                kpdb::Compression::GZip => true,
                kpdb::Compression::None => false,
            },
            rounds: d.transform_rounds.0,
            version: (d.version.major, d.version.minor),
            binaries: d.binaries.iter().map(|(k, v)| (k.0.clone(), v.clone())).collect(),
            color: color_of(&d.color),
            custom_data: d.custom_data.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
            icons: d.custom_icons.iter().map(|(k, v)| (*k.0.as_bytes(), v.clone())).collect(),
            username: d.def_username.clone(),
            username_changed: time_of(d.def_username_changed),
            description: d.description.clone(),
            description_changed: time_of(d.description_changed),
            templates_changed: time_of(d.entry_templates_group_changed),
            templates: *d.entry_templates_group_uuid.0.as_bytes(),
            hist_items: d.history_max_items,
            hist_size: d.history_max_size,
            last_selected: *d.last_selected_group.0.as_bytes(),
            last_top: *d.last_top_visible_group.0.as_bytes(),
            maint_days: d.maintenance_history_days,
            key_force: d.master_key_change_force,
            key_rec: d.master_key_change_rec,
            key_changed: time_of(d.master_key_changed),
            name: d.name.clone(),
            name_changed: time_of(d.name_changed),
            protect: [
                d.protect_notes,
                d.protect_password,
                d.protect_title,
                d.protect_url,
                d.protect_username,
            ],
            bin_changed: time_of(d.recycle_bin_changed),
            bin_enabled: d.recycle_bin_enabled,
            bin_uuid: *d.recycle_bin_uuid.0.as_bytes(),
            root: MGroup::of(&d.root_group),
        }
    }

    pub fn to(&self, key: &kpdb::CompositeKey) -> kpdb::Database {
        let mut d = kpdb::Database::new(key);
        d.comment = self.comment.as_ref().map(|c| kpdb::Comment(c.clone()));
        d.compression = if self.gzip {
            kpdb::Compression::GZip
        } else {
            kpdb::Compression::None
        };
        d.transform_rounds = kpdb::TransformRounds(self.rounds);
        d.version = kpdb::Version {
            major: self.version.0,
            minor: self.version.1,
        };
        d.binaries = self
            .binaries
            .iter()
            .map(|(k, v)| (kpdb::BinaryId(k.clone()), v.clone()))
            .collect();
        d.color = color_to(&self.color);
        d.custom_data = self.custom_data.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        d.custom_icons = self
            .icons
            .iter()
            .map(|(k, v)| (kpdb::CustomIconUuid(uuid_to(k)), v.clone()))
            .collect();
        d.def_username = self.username.clone();
        d.def_username_changed = time_to(self.username_changed);
        d.description = self.description.clone();
        d.description_changed = time_to(self.description_changed);
        d.entry_templates_group_changed = time_to(self.templates_changed);
        d.entry_templates_group_uuid = kpdb::GroupUuid(uuid_to(&self.templates));
        d.history_max_items = self.hist_items;
        d.history_max_size = self.hist_size;
        d.last_selected_group = kpdb::GroupUuid(uuid_to(&self.last_selected));
        d.last_top_visible_group = kpdb::GroupUuid(uuid_to(&self.last_top));
        d.maintenance_history_days = self.maint_days;
        d.master_key_change_force = self.key_force;
        d.master_key_change_rec = self.key_rec;
        d.master_key_changed = time_to(self.key_changed);
        d.name = self.name.clone();
        d.name_changed = time_to(self.name_changed);
        d.protect_notes = self.protect[0];
        d.protect_password = self.protect[1];
        d.protect_title = self.protect[2];
        d.protect_url = self.protect[3];
        d.protect_username = self.protect[4];
        d.recycle_bin_changed = time_to(self.bin_changed);
        d.recycle_bin_enabled = self.bin_enabled;
        d.recycle_bin_uuid = kpdb::GroupUuid(uuid_to(&self.bin_uuid));
        d.root_group = self.root.to();
        d
    }

    /// What the format keeps: histories of history items are not part of it.
    pub fn normal(mut self) -> MDb {
        fn g(m: &mut MGroup) {
            for e in m.entries.iter_mut() {
                for h in e.history.iter_mut() {
                    h.history.clear();
                }
            }
            for s in m.groups.iter_mut() {
                g(s);
            }
        }
        g(&mut self.root);
        self
    }
}

/// Compares what the library holds with the model; describes the first difference.
pub fn diff(want: &MDb, got: &MDb) -> Option<String> {
    if want == got {
        return None;
    }
    let a = format!("{:#?}", want);
    let b = format!("{:#?}", got);
    let mut path: Vec<String> = Vec::new();
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            let cut = |s: &str| s.trim().chars().take(120).collect::<String>();
            return Some(format!("in {}: expected {} got {}", path.join("/"), cut(x), cut(y)));
        }
        let ind = (x.len() - x.trim_start().len()) / 4;
        path.truncate(ind);
        let name = x.trim().split(':').next().unwrap_or("").chars().take(40).collect();
        path.push(name);
    }
    Some("different lengths".into())
}

/// Parents after opening: every group's and active entry's parent is the enclosing group, and the
/// root's is nil.
pub fn check_parents(d: &kpdb::Database) -> Result<(), String> {
    fn rec(g: &kpdb::Group) -> Result<(), String> {
        for e in &g.entries {
            if e.parent != g.uuid {
                return Err(format!("entry {} in group {} has parent {}", e.uuid, g.uuid, e.parent));
            }
        }
        for s in &g.groups {
            if s.parent != g.uuid {
                return Err(format!("group {} in group {} has parent {}", s.uuid, g.uuid, s.parent));
            }
            rec(s)?;
        }
        Ok(())
    }
    if d.root_group.parent != kpdb::GroupUuid::nil() {
        return Err(format!("root group has parent {}", d.root_group.parent));
    }
    rec(&d.root_group)
}
