//! The library's generic functions with their types filled in, so that they are compiled here,
//! where the compiler adds the scheduler's preemption points (see rustc.sh), and not in the
//! simulator.

use kpdb::{CompositeKey, Database, Error, Group, KeyFile};
use std::io::{Read, Write};

#[inline(never)]
pub fn save(db: &Database, mut w: &mut dyn Write) -> Result<(), Error> {
    db.save(&mut w)
}

#[inline(never)]
pub fn open(mut r: &mut dyn Read, key: &CompositeKey) -> Result<Database, Error> {
    Database::open(&mut r, key)
}

#[inline(never)]
pub fn save_key_file(k: &KeyFile, mut w: &mut dyn Write) -> Result<(), Error> {
    k.save(&mut w)
}

#[inline(never)]
pub fn open_key_file(mut r: &mut dyn Read) -> Result<KeyFile, Error> {
    KeyFile::open(&mut r)
}

#[inline(never)]
pub fn new_group(name: &str) -> Group {
    Group::new(name)
}

#[inline(never)]
pub fn from_password(p: &str) -> CompositeKey {
    CompositeKey::from_password(p)
}

#[inline(never)]
pub fn from_both(p: &str, k: KeyFile) -> CompositeKey {
    CompositeKey::from_both(p, k)
}

#[inline(never)]
pub fn from_key_file(k: KeyFile) -> CompositeKey {
    CompositeKey::from_key_file(k)
}
