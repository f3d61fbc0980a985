//! P13: edits, lookups and traversals match a simple model across all sessions.

use super::*;
use crate::gen::{Profile, PEER};
use crate::model::{check_parents, Id, MEntry, MGroup, MStr};
use kpdb::{Entry, EntryUuid, Group, GroupUuid, StringKey};

pub const PROP: Prop = Prop {
    id: "P13",
    scenario: run,
    quick: 32_000,
    thorough: 400_000,
    rule: "One run is a client's history of up to 60 operations over several sessions (create, add, remove, move, \
           edit, look up, search and traverse in both variants, save to healthy and failing sinks, crash and \
           reopen what was last saved), applied in lockstep to a database and to a tree model; every result is \
           compared and after every operation the whole tree is. Non-trivial: the history changed the tree and \
           reopened it at least once.",
    probes: &[],
};

fn euid(i: &Id) -> EntryUuid {
    EntryUuid(uuid::Uuid::from_bytes(*i))
}

fn guid(i: &Id) -> GroupUuid {
    GroupUuid(uuid::Uuid::from_bytes(*i))
}

/// The groups of the model, breadth first in insertion order.
fn bfs(root: &MGroup) -> Vec<&MGroup> {
    let mut out = vec![root];
    let mut i = 0;
    while i < out.len() {
        let g = out[i];
        out.extend(g.groups.iter());
        i += 1;
    }
    out
}

/// A group of the model by its path.
fn at<'a>(root: &'a mut MGroup, path: &[usize]) -> &'a mut MGroup {
    let mut g = root;
    for &i in path {
        g = &mut g.groups[i];
    }
    g
}

fn paths(root: &MGroup) -> Vec<Vec<usize>> {
    fn rec(g: &MGroup, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        out.push(p.clone());
        for (i, s) in g.groups.iter().enumerate() {
            p.push(i);
            rec(s, p, out);
            p.pop();
        }
    }
    let mut out = Vec::new();
    rec(root, &mut Vec::new(), &mut out);
    out
}

fn some_path(root: &MGroup) -> Vec<usize> {
    let p = paths(root);
    // The root, or any group, with recent and deep ones not too rare.
    match draw(4) {
        0 => Vec::new(),
        1 => p[p.len() - 1].clone(),
        _ => p[draw(p.len() as u64) as usize].clone(),
    }
}

/// Reaches a group of the library's tree in one of the ways a client has.
fn reach<'a>(db: &'a mut Database, id: &Id, path: &[usize]) -> Result<&'a mut Group, Violation> {
    fn times(g: &Group, id: &Id) -> usize {
        (g.uuid == guid(id)) as usize + g.groups.iter().map(|s| times(s, id)).sum::<usize>()
    }
    // An identifier that several groups have does not say which is meant.
    let way = if times(&db.root_group, id) > 1 { 2 } else { draw(3) };
    let got = match way {
        0 => db.get_group_mut(guid(id)),
        1 => db.root_group.iter_mut().find(|g| g.uuid == guid(id)),
        _ => {
            let mut g = &mut db.root_group;
            for &i in path {
                g = &mut g.groups[i];
            }
            Some(g)
        }
    };
    match got {
        Some(g) if g.uuid == guid(id) => Ok(g),
        Some(g) => fail("lookup", format!("asked for group {} and got {}", guid(id), g.uuid)),
        None => fail("lookup", format!("group {} is not found", guid(id))),
    }
}

const WORDS: [&str; 22] = [
    "Mail", "mail", "MAIL box", "Bank", "bÄnk", "BÄNK", "ÉCOLE", "école", "x", "", " ", "Straße", "STRASSE", "日本", "ΣΟΦΟΣ",
    "σοφος", "a.b", "a", "ab", "ǅ", "50%", "[a-z]*",
];

fn word() -> String {
    match draw(6) {
        0 => gen::text(),
        1 => format!("{}{}", pick(&WORDS), pick(&WORDS)),
        _ => pick(&WORDS).to_string(),
    }
}

/// A text to search for: part of something that exists, in another case, or anything.
fn query(m: &MGroup) -> String {
    let mut have: Vec<String> = Vec::new();
    for g in bfs(m) {
        have.push(g.name.clone());
        for e in &g.entries {
            for v in e.strings.values() {
                have.push(String::from_utf8_lossy(&v.val).into_owned());
            }
        }
    }
    let s: Vec<char> = if draw(3) > 0 { pick(&have).chars().collect() } else { word().chars().collect() };
    let a = draw(s.len() as u64 + 1) as usize;
    let b = a + draw((s.len() - a) as u64 + 1) as usize;
    let (a, b) = if draw(2) == 0 { (0, s.len()) } else { (a, b) };
    let t: String = s[a..b].iter().collect();
    match draw(4) {
        0 => t,
        1 => t.to_uppercase(),
        2 => t.to_lowercase(),
        _ => t
            .chars()
            .enumerate()
            .flat_map(|(i, c)| if i % 2 == 0 { c.to_uppercase().collect::<Vec<_>>() } else { vec![c] })
            .collect(),
    }
}

fn ids_sorted(mut v: Vec<Id>) -> Vec<Id> {
    v.sort();
    v
}

fn search(db: &mut Database, m: &MDb) -> Res {
    let q = query(&m.root);
    let low = q.to_lowercase();
    let mut want_e = Vec::new();
    let mut want_g = Vec::new();
    for g in bfs(&m.root) {
        if g.name.to_lowercase().contains(&low) {
            want_g.push(g.uuid);
        }
        for e in &g.entries {
            let hit = |v: &MStr| !v.prot && String::from_utf8_lossy(&v.val).to_lowercase().contains(&low);
            if e.strings.values().any(hit) {
                want_e.push(e.uuid);
            }
        }
    }
    let (want_e, want_g) = (ids_sorted(want_e), ids_sorted(want_g));
    let call = |what: &str, got: Result<Vec<Id>, String>, want: &[Id]| -> Res {
        let got = ids_sorted(panic_to(what, got)?);
        if got != want {
            return fail(
                "search",
                format!("{}({:?}) found {} items where {} match", what, q, got.len(), want.len()),
            );
        }
        Ok(())
    };
    let f = |x: &&Entry| *x.uuid.0.as_bytes();
    call("find_entries", guard(|| db.find_entries(q.clone()).iter().map(f).collect()), &want_e)?;
    call(
        "find_entries_mut",
        guard(|| db.find_entries_mut(q.clone()).iter().map(|x| *x.uuid.0.as_bytes()).collect()),
        &want_e,
    )?;
    call("find_groups", guard(|| db.find_groups(q.clone()).iter().map(|x| *x.uuid.0.as_bytes()).collect()), &want_g)?;
    call(
        "find_groups_mut",
        guard(|| db.find_groups_mut(q.clone()).iter().map(|x| *x.uuid.0.as_bytes()).collect()),
        &want_g,
    )?;
    // What was found is the item itself.
    for e in db.find_entries(q.clone()) {
        let e = MEntry::of(e);
        if !bfs(&m.root).iter().any(|g| g.entries.contains(&e)) {
            return fail("search", "an entry found by text is not the entry of the tree");
        }
    }
    count_n("search_hits", (want_e.len() + want_g.len()) as u64);
    Ok(())
}

fn traverse(db: &mut Database, m: &MDb) -> Res {
    let want: Vec<Id> = bfs(&m.root).iter().map(|g| g.uuid).collect();
    let got: Vec<Id> = panic_to("iter", guard(|| db.root_group.iter().map(|g| *g.uuid.0.as_bytes()).collect()))?;
    if got != want {
        return fail("traversal", format!("iter visits {} groups of {} or in another order", got.len(), want.len()));
    }
    let got: Vec<Id> =
        panic_to("iter_mut", guard(|| db.root_group.iter_mut().map(|g| *g.uuid.0.as_bytes()).collect()))?;
    if got != want {
        return fail("traversal", format!("iter_mut visits {} groups of {} or in another order", got.len(), want.len()));
    }
    // A traversal that begins in the middle.
    let p = some_path(&m.root);
    let mut sub = &m.root;
    let mut g = &db.root_group;
    for &i in &p {
        sub = &sub.groups[i];
        g = &g.groups[i];
    }
    let want: Vec<Id> = bfs(sub).iter().map(|g| g.uuid).collect();
    let got: Vec<Id> = panic_to("iter", guard(|| g.iter().map(|g| *g.uuid.0.as_bytes()).collect()))?;
    if got != want {
        return fail("traversal", "iter of a sub group visits other groups");
    }
    Ok(())
}

fn lookup(db: &mut Database, m: &MDb) -> Res {
    let groups = bfs(&m.root);
    // An entry of the tree.
    let all: Vec<&MEntry> = groups.iter().flat_map(|g| g.entries.iter()).collect();
    if !all.is_empty() {
        let e = *pick(&all);
        match panic_to("get_entry", guard(|| db.get_entry(euid(&e.uuid))))? {
            Some(x) if MEntry::of(x) == *e => {}
            x => return fail("lookup", format!("get_entry({}) gives {:?}", euid(&e.uuid), x.map(|x| x.uuid))),
        }
        match panic_to("get_entry_mut", guard(|| db.get_entry_mut(euid(&e.uuid))))? {
            Some(x) if MEntry::of(x) == *e => {}
            x => return fail("lookup", format!("get_entry_mut({}) gives {:?}", euid(&e.uuid), x.map(|x| x.uuid))),
        }
        let lib = db.get_entry(euid(&e.uuid)).expect("found before");
        let val = |k: &str| e.strings.get(k).and_then(|v| std::str::from_utf8(&v.val).ok());
        if lib.title() != val("Title")
            || lib.username() != val("UserName")
            || lib.password() != val("Password")
            || lib.url() != val("URL")
            || lib.notes() != val("Notes")
        {
            return fail("getters", "a getter of an entry returns another string than it has");
        }
        if let Some(k) = e.strings.keys().next() {
            if lib.other(model::key_of(k)) != val(k) {
                return fail("getters", format!("other({:?}) returns another string", k));
            }
        }
        if lib.other(StringKey::Other("no such key".into())).is_some() && val("no such key").is_none() {
            return fail("getters", "a string that does not exist is returned");
        }
    }
    let g = *pick(&groups);
    match panic_to("get_group", guard(|| db.get_group(guid(&g.uuid))))? {
        Some(x) if MGroup::of(x) == *g => {}
        x => return fail("lookup", format!("get_group({}) gives {:?}", guid(&g.uuid), x.map(|x| x.uuid))),
    }
    match panic_to("get_group_mut", guard(|| db.get_group_mut(guid(&g.uuid))))? {
        Some(x) if MGroup::of(x) == *g => {}
        x => return fail("lookup", format!("get_group_mut({}) gives {:?}", guid(&g.uuid), x.map(|x| x.uuid))),
    }
    // Identifiers that are not there, or belong to something of the other kind, or to history.
    let mut other = vec![gen::fresh_id()];
    other.extend(all.iter().flat_map(|e| e.history.iter()).map(|h| h.uuid));
    other.extend(groups.iter().map(|g| g.uuid));
    let o = *pick(&other);
    if !all.iter().any(|e| e.uuid == o) {
        if db.get_entry(euid(&o)).is_some() || db.get_entry_mut(euid(&o)).is_some() {
            return fail("lookup", "an entry is found by an identifier that no entry has");
        }
    }
    let o = all.first().map_or(gen::fresh_id(), |e| e.uuid);
    if !groups.iter().any(|g| g.uuid == o) && (db.get_group(guid(&o)).is_some() || db.get_group_mut(guid(&o)).is_some()) {
        return fail("lookup", "a group is found by an identifier that no group has");
    }
    Ok(())
}

/// Identifiers must be unique for lookups to be defined.
fn unique(m: &MGroup, seen: &mut std::collections::HashSet<Id>) -> bool {
    bfs(m)
        .iter()
        .all(|g| seen.insert(g.uuid) && g.entries.iter().all(|e| seen.insert(e.uuid)))
}

fn new_entry(p: &Profile) -> Result<(Entry, MEntry), Violation> {
    if draw(2) == 0 {
        let mut e = panic_to("Entry::new", guard(Entry::new))?;
        if draw(4) > 0 {
            e.set_title(word());
        }
        if draw(2) == 1 {
            e.set_username(word());
        }
        let m = MEntry::of(&e);
        return Ok((e, m));
    }
    let mut m = gen::entry(p, 1);
    if draw(2) == 0 {
        m.strings.insert("Title".into(), MStr { prot: draw(4) == 3, val: word().into_bytes() });
    }
    Ok((m.to(), m))
}

fn new_group(p: &Profile) -> Result<(Group, MGroup), Violation> {
    if draw(2) == 0 {
        let g = panic_to("Group::new", guard(|| Group::new(word())))?;
        let m = MGroup::of(&g);
        return Ok((g, m));
    }
    let mut m = gen::group(p, *pick(&[0usize, 1, 2]));
    m.name = word();
    Ok((m.to(), m))
}

fn edit(db: &mut Database, m: &mut MDb) -> Res {
    let all: Vec<Id> = bfs(&m.root).iter().flat_map(|g| g.entries.iter()).map(|e| e.uuid).collect();
    if all.is_empty() || draw(5) == 4 {
        // A group, or all of them at once.
        let p = some_path(&m.root);
        let t = word();
        if draw(4) == 0 {
            for g in db.root_group.iter_mut() {
                g.notes = t.clone();
            }
            fn all(g: &mut MGroup, t: &str) {
                g.notes = t.into();
                for s in &mut g.groups {
                    all(s, t);
                }
            }
            all(&mut m.root, &t);
        } else {
            let mg = at(&mut m.root, &p);
            mg.name = t.clone();
            reach(db, &mg.uuid.clone(), &p)?.name = t;
        }
        return Ok(());
    }
    let id = *pick(&all);
    fn find<'a>(g: &'a mut MGroup, id: &Id) -> Option<&'a mut MEntry> {
        if let Some(i) = g.entries.iter().position(|e| e.uuid == *id) {
            return Some(&mut g.entries[i]);
        }
        g.groups.iter_mut().find_map(|s| find(s, id))
    }
    let me = find(&mut m.root, &id).expect("entry of the model");
    let e = match panic_to("get_entry_mut", guard(|| db.get_entry_mut(euid(&id))))? {
        Some(e) => e,
        None => return fail("lookup", "an entry is not found for editing"),
    };
    let t = word();
    let v = MStr { prot: false, val: t.clone().into_bytes() };
    if draw(4) == 3 {
        let mut old = e.clone();
        old.history.clear();
        e.history.push(old);
        let mut old = me.clone();
        old.history.clear();
        me.history.push(old);
    }
    match draw(8) {
        0 => {
            e.set_title(t);
            me.strings.insert("Title".into(), v);
        }
        1 => {
            e.set_username(t);
            me.strings.insert("UserName".into(), v);
        }
        2 => {
            e.set_password(t);
            me.strings.insert("Password".into(), MStr { prot: true, ..v });
        }
        3 => {
            e.set_url(t);
            me.strings.insert("URL".into(), v);
        }
        4 => {
            e.set_notes(t);
            me.strings.insert("Notes".into(), v);
        }
        5 => {
            let k = format!("k{}", draw(3));
            e.set_other(StringKey::Other(k.clone()), t);
            me.strings.insert(k, v);
        }
        6 => {
            let k = me.strings.keys().next().cloned();
            if let Some(k) = k {
                me.strings.remove(&k);
                e.strings.remove(&model::key_of(&k));
            }
        }
        _ => {
            e.tags = t.clone();
            me.tags = t;
            e.usage_count = 7;
            me.times.usage = 7;
        }
    }
    Ok(())
}

/// A copy of something beside the original, for a while: it is one more item like any other.
fn copies(db: &mut Database, m: &mut MDb) -> Res {
    let path = some_path(&m.root);
    let all: Vec<MEntry> = bfs(&m.root).iter().flat_map(|g| g.entries.iter().cloned()).collect();
    let groups = at(&mut m.root, &path).groups.clone();
    let id = at(&mut m.root, &path).uuid;
    let of_entry = draw(2) == 0;
    if of_entry {
        if all.is_empty() {
            return Ok(());
        }
        // Often one of the same group, and like the original or changed since.
        let mut e = match &at(&mut m.root, &path).entries[..] {
            [] => pick(&all).clone(),
            own if draw(2) == 0 => pick(own).clone(),
            _ => pick(&all).clone(),
        };
        if draw(2) == 0 {
            e.tags = word();
        }
        at(&mut m.root, &path).entries.push(e.clone());
        reach(db, &id, &path)?.add_entry(e.to());
    } else {
        if groups.is_empty() {
            return Ok(());
        }
        let g = pick(&groups).clone();
        at(&mut m.root, &path).groups.push(g.clone());
        reach(db, &id, &path)?.add_group(g.to());
    }
    tree_is(db, m, "adding a copy")?;
    traverse(db, m)?;
    if !of_entry || draw(2) == 0 {
        search(db, m)?;
    }
    let (file, mm) = (save_ok(db)?, m.clone().normal());
    open_same(&file, &db.composite_key.clone(), &mm, "reopen")?;
    count("copies_added");
    if of_entry {
        // A lookup gives one of the two.
        let e = at(&mut m.root, &path).entries.last().expect("the copy").uuid;
        let found = panic_to("get_entry", guard(|| db.get_entry(euid(&e))))?.map(MEntry::of);
        match found {
            Some(x) if bfs(&m.root).iter().any(|g| g.entries.contains(&x)) && x.uuid == e => {}
            _ => return fail("lookup", "an entry that has a copy is not found"),
        }
        let found = panic_to("get_entry_mut", guard(|| db.get_entry_mut(euid(&e))))?.map(|x| MEntry::of(x));
        match found {
            Some(x) if bfs(&m.root).iter().any(|g| g.entries.contains(&x)) && x.uuid == e => {}
            _ => return fail("lookup", "an entry that has a copy is not found"),
        }
    }
    if draw(2) == 0 {
        // Removing by identifier removes one of the two, whichever, and nothing else.
        let (mg, g) = (at(&mut m.root, &path), reach(db, &id, &path)?);
        let mut left = Vec::new();
        if of_entry {
            let e = mg.entries.last().expect("the copy").uuid;
            let got = panic_to("remove_entry", guard(|| g.remove_entry(euid(&e))))?.map(|x| MEntry::of(&x));
            for i in 0..mg.entries.len() {
                if mg.entries[i].uuid == e && Some(&mg.entries[i]) == got.as_ref() {
                    let mut m = mg.entries.clone();
                    m.remove(i);
                    left.push((m, mg.groups.clone()));
                }
            }
        } else {
            let e = mg.groups.last().expect("the copy").uuid;
            let got = panic_to("remove_group", guard(|| g.remove_group(guid(&e))))?.map(|x| MGroup::of(&x));
            for i in 0..mg.groups.len() {
                if mg.groups[i].uuid == e && Some(&mg.groups[i]) == got.as_ref() {
                    let mut m = mg.groups.clone();
                    m.remove(i);
                    left.push((mg.entries.clone(), m));
                }
            }
        }
        let now = MGroup::of(g);
        return match left.into_iter().find(|(e, g)| *e == now.entries && *g == now.groups) {
            Some((e, g)) => {
                (mg.entries, mg.groups) = (e, g);
                count("copies_removed");
                Ok(())
            }
            None => fail("removal", "removing one of two items with one identifier does not leave exactly the other"),
        };
    }
    // By its place, because the identifier is that of two items now.
    let (mg, g) = (at(&mut m.root, &path), reach(db, &id, &path)?);
    if of_entry {
        mg.entries.pop();
        g.entries.pop();
    } else {
        mg.groups.pop();
        g.groups.pop();
    }
    Ok(())
}

fn tree_is(db: &Database, m: &MDb, after: &str) -> Res {
    if let Some(x) = model::diff(m, &MDb::of(db)) {
        return fail("tree", format!("after {} the tree differs from the model {}", after, x));
    }
    Ok(())
}

fn run() -> Res {
    weather();
    let p = Profile { size: *pick(&[0u64, 1]), depth: 2, max_rounds: 3, twins: false, ..PEER };
    let cred = gen::cred();
    let key = cred.lib();
    let (mut db, mut m) = if draw(2) == 0 {
        let mut db = panic_to("Database::new", guard(|| Database::new(&key)))?;
        db.transform_rounds = kpdb::TransformRounds(1);
        let m = MDb::of(&db);
        (db, m)
    } else {
        let m = gen::db(&p);
        (m.to(&key), m)
    };
    // What was last saved completely.
    let mut saved: Option<(Vec<u8>, MDb)> = None;
    let mut removed: Vec<(Entry, MEntry)> = Vec::new();
    let (mut changed, mut reopened) = (false, false);
    let n = 1 + draw(60);
    for _ in 0..n {
        let op = draw(21);
        sig("op", op);
        let what: &str;
        match op {
            0..=2 => {
                what = "adding an entry";
                let (mut e, mut me) = if !removed.is_empty() && draw(3) == 2 {
                    removed.pop().expect("not empty")
                } else {
                    new_entry(&p)?
                };
                let used = bfs(&m.root).iter().any(|g| g.uuid == [0; 16] || g.entries.iter().any(|e| e.uuid == [0; 16]));
                if !used && removed.iter().all(|(_, e)| e.uuid != [0; 16]) && draw(8) == 7 {
                    // One that was made without an identifier.
                    (e.uuid, me.uuid) = (EntryUuid::nil(), [0; 16]);
                }
                let path = some_path(&m.root);
                let g = at(&mut m.root, &path);
                g.entries.push(me);
                reach(&mut db, &g.uuid.clone(), &path)?.add_entry(e);
                changed = true;
            }
            3..=5 => {
                what = "adding a group";
                let (mut lg, mut mg) = new_group(&p)?;
                let used = bfs(&m.root).iter().any(|g| g.uuid == [0; 16] || g.entries.iter().any(|e| e.uuid == [0; 16]));
                if !used && removed.iter().all(|(_, e)| e.uuid != [0; 16]) && draw(8) == 7 {
                    (lg.uuid, mg.uuid) = (GroupUuid::nil(), [0; 16]);
                }
                let path = some_path(&m.root);
                let g = at(&mut m.root, &path);
                g.groups.push(mg);
                reach(&mut db, &g.uuid.clone(), &path)?.add_group(lg);
                changed = true;
            }
            6 | 7 => {
                what = "removing an entry";
                let path = some_path(&m.root);
                let all: Vec<Id> = bfs(&m.root).iter().flat_map(|g| g.entries.iter()).map(|e| e.uuid).collect();
                let g = at(&mut m.root, &path);
                let id = match draw(4) {
                    0 if !all.is_empty() => *pick(&all),
                    1 => gen::fresh_id(),
                    _ if !g.entries.is_empty() => pick(&g.entries).uuid,
                    _ => g.uuid,
                };
                let want = g.entries.iter().position(|e| e.uuid == id).map(|i| g.entries.remove(i));
                let lg = reach(&mut db, &g.uuid.clone(), &path)?;
                let got = panic_to("remove_entry", guard(|| lg.remove_entry(euid(&id))))?;
                match (want, got) {
                    (None, None) => {}
                    (Some(w), Some(e)) if MEntry::of(&e) == w => {
                        changed = true;
                        removed.push((e, w));
                    }
                    (w, e) => {
                        return fail(
                            "removal",
                            format!("remove_entry returns {:?} instead of {:?}", e.map(|e| e.uuid), w.map(|w| euid(&w.uuid))),
                        )
                    }
                }
            }
            8 => {
                what = "removing a group";
                let mut path = some_path(&m.root);
                let last = path.pop();
                let g = at(&mut m.root, &path);
                let id = match (last, draw(4)) {
                    (Some(i), 1..=3) => g.groups[i].uuid,
                    (Some(i), _) => g.groups[i].groups.first().map_or(gen::fresh_id(), |g| g.uuid),
                    _ => g.uuid,
                };
                let want = g.groups.iter().position(|x| x.uuid == id).map(|i| g.groups.remove(i));
                let lg = reach(&mut db, &g.uuid.clone(), &path)?;
                let got = panic_to("remove_group", guard(|| lg.remove_group(guid(&id))))?;
                match (want, got) {
                    (None, None) => {}
                    (Some(w), Some(x)) if MGroup::of(&x) == w => {
                        changed = true;
                        // Moved to another place, or gone.
                        if draw(2) == 0 {
                            let path = some_path(&m.root);
                            let g = at(&mut m.root, &path);
                            g.groups.push(w);
                            reach(&mut db, &g.uuid.clone(), &path)?.add_group(x);
                        }
                    }
                    (w, x) => {
                        return fail(
                            "removal",
                            format!("remove_group returns {:?} instead of {:?}", x.map(|x| x.uuid), w.map(|w| guid(&w.uuid))),
                        )
                    }
                }
            }
            9..=11 => {
                what = "an edit";
                edit(&mut db, &mut m)?;
                changed = true;
            }
            12 | 13 => {
                what = "a search";
                if unique(&m.root, &mut Default::default()) {
                    search(&mut db, &m)?;
                }
            }
            14 => {
                what = "a traversal";
                traverse(&mut db, &m)?;
            }
            15 => {
                what = "a lookup";
                if unique(&m.root, &mut Default::default()) {
                    lookup(&mut db, &m)?;
                }
            }
            16 => {
                what = "a failed save";
                let mut plan = transparent();
                plan.fault = Fault::Error { at: draw(600), kind: *pick(&KINDS), once: draw(2) == 1 };
                let mut w = SimWriter::new(&plan);
                match save_to(&db, &mut w)? {
                    Ok(()) if w.fired() => return fail("save", "a save to a failing sink succeeded"),
                    Ok(()) => saved = Some((w.out, m.clone().normal())),
                    Err(e) if !w.fired() => return fail("save", format!("a save failed: {}", e)),
                    Err(_) => count("save_failed"),
                }
            }
            17 | 18 => {
                what = "a save";
                let file = save_ok(&db)?;
                saved = Some((file, m.clone().normal()));
            }
            19 => {
                what = "adding a copy";
                copies(&mut db, &mut m)?;
            }
            _ => {
                // The session ends, orderly or in a crash; the next begins with what was saved.
                what = "reopening";
                if draw(2) == 0 {
                    saved = Some((save_ok(&db)?, m.clone().normal()));
                } else {
                    count("session_crashed");
                }
                if let Some((ref file, ref old)) = saved {
                    db = match open_bytes(file, &key)? {
                        Ok(db) => db,
                        Err(e) => return fail("reopen", format!("the saved file does not open: {}", e)),
                    };
                    m = old.clone();
                    removed.clear();
                    reopened = true;
                    count("session_began");
                    if let Err(x) = check_parents(&db) {
                        return fail("parents", x);
                    }
                }
            }
        }
        tree_is(&db, &m, what)?;
        if draw(10) == 9 {
            db = db.clone();
        }
    }
    // At the end everything is looked at once more.
    if unique(&m.root, &mut Default::default()) {
        search(&mut db, &m)?;
        lookup(&mut db, &m)?;
    }
    traverse(&mut db, &m)?;
    tree_is(&db, &m, "searching and traversing")?;
    note(format!("{} operations, {} groups at the end", n, bfs(&m.root).len()));
    if changed && reopened {
        judged();
    }
    Ok(())
}
