//! P11: conforming KDBX 3.1 files from other programs open with their full content.

use super::*;
use crate::gen::{Profile, PEER};
use crate::model::check_parents;

pub const PROP: Prop = Prop {
    id: "P11",
    scenario: run,
    quick: 9_000,
    thorough: 200_000,
    rule: "One run lets the peer program write a random database in a randomly chosen legal form (header order, \
           number and size of hashed blocks, compression levels, element order, indentation, line ends, entity and \
           character references, CDATA, comments, attribute order, unknown elements, protected, compressed and \
           referenced binaries, with or without a header hash) and opens it. Non-trivial: the file was opened and \
           compared.",
    probes: &[(
        "wide-numbers",
        "a file whose HistoryMaxSize, MasterKeyChangeRec, MasterKeyChangeForce or UsageCount needs more than 32 bits is refused",
    )],
};

/// Numbers that the format gives 64 bits, with a value that needs them.
const WIDE: [&str; 4] = ["HistoryMaxSize", "MasterKeyChangeRec", "MasterKeyChangeForce", "UsageCount"];

/// A file with a number of more than 32 bits; what the library made of it.
fn wide(m: &MDb, tag: &str, v: i64, cred: &Cred) -> LibRes<Option<i128>> {
    let raw = cred.raw();
    let mut st = peer::Style::new(false, 3);
    let hdr = peer::header(m, &mut st, &mut Prng::new(7));
    let mut xml = peer::encode_xml(m, &hdr, &mut st);
    // The first UsageCount is that of the root group.
    let a = match xml.find(&format!("<{}>", tag)) {
        Some(a) => a + tag.len() + 2,
        None => return Ok(Ok(None)),
    };
    let n = xml[a..].find('<').unwrap_or(0);
    xml.replace_range(a..a + n, &v.to_string());
    let file = peer::wrap(xml.as_bytes(), &hdr, &raw, &mut st);
    Ok(open_bytes(&file, &cred.lib())?.map(|db| {
        Some(match tag {
            "HistoryMaxSize" => db.history_max_size as i128,
            "MasterKeyChangeRec" => db.master_key_change_rec as i128,
            "MasterKeyChangeForce" => db.master_key_change_force as i128,
            _ => db.root_group.usage_count as i128,
        })
    }))
}

/// The known finding: the library keeps these numbers in 32 bits.
pub fn wide_numbers() -> i32 {
    let mut m = MDb::of(&Database::new(&Cred::Pw("p".into()).lib()));
    m.rounds = 1;
    let refused: Vec<&str> = WIDE
        .iter()
        .copied()
        .filter(|t| !matches!(wide(&m, t, 1 << 32, &Cred::Pw("p".into())), Ok(Ok(Some(v))) if v == 1 << 32))
        .collect();
    if refused.is_empty() {
        return 0;
    }
    println!("{} of 4294967296 is refused", refused.join(", "));
    1
}

fn run() -> Res {
    weather();
    let size = *pick(&[1u64, 0, 2, 3]);
    let p = Profile { size, depth: 3, huge: true, ..PEER };
    let cred = gen::cred();
    let (key, raw) = (cred.lib(), cred.raw());
    let m = gen::db(&p).normal();
    sig("shape", gen::shape(&m));
    if draw(40) == 39 {
        // Refusing is the known finding; anything but the number itself is not.
        let tag = *pick(&WIDE);
        let v = *pick(&[1i64 << 31, 1 << 32, (1 << 32) + 5, i64::MAX, -(1 << 31) - 1, i64::MIN]);
        if let Ok(Some(got)) = wide(&m, tag, v, &cred)? {
            if got != v as i128 {
                return fail("other-content", format!("{} of {} is read as {}", tag, v, got));
            }
        }
        count("wide_numbers");
        return Ok(());
    }
    for _ in 0..1 + draw(2) {
        let mut st = peer::Style::new(chance(7, 8), seed_draw());
        let file = peer::encode(&m, &raw, &mut st, &mut Prng::new(seed_draw()));
        sig("layout", hash_bytes(&file));
        let db = match open_bytes(&file, &key)? {
            Ok(db) => db,
            Err(e) => return fail("refused", format!("a conforming file of {} bytes is refused: {}", file.len(), e)),
        };
        same(&m, &db, "other-content")?;
        if db.generator != st.generator {
            return fail("other-content", format!("the generator is read as {:?}", db.generator));
        }
        if let Err(e) = check_parents(&db) {
            return fail("parents", e);
        }
        judged();
        note(format!("a file of {} bytes, {} layout: opens the same", file.len(), if st.wild { "wild" } else { "plain" }));
    }
    Ok(())
}
