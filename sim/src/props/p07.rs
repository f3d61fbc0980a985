//! P07: only the exact credentials open a database.

use super::p01::kind;
use super::*;
use crate::gen::{Profile, PEER};

pub const PROP: Prop = Prop {
    id: "P07",
    scenario: run,
    quick: 40_000,
    thorough: 200_000,
    rule: "One run saves a database (by the library or the peer) under drawn credentials, tries the right ones and two \
           to six near ones (one character, bit, byte or case changed, cut, extended, spaces or NULs added, other \
           combination of the same parts, key file as password, other normal form), and re-keys, saves and reopens \
           up to three times; credentials with the same composite digest count as the same. Non-trivial: wrong \
           credentials were tried.",
    probes: &[],
};

/// Other credentials that somebody might take for these.
fn near(c: &Cred, old: &[Cred]) -> Cred {
    let pw = |s: &str| -> String {
        if draw(5) == 4 {
            return gen::alike(s);
        }
        let mut v: Vec<char> = s.chars().collect();
        let i = draw(v.len() as u64 + 1) as usize;
        match draw(10) {
            0 => v.push(' '),
            1 => v.insert(0, ' '),
            2 => {
                v.pop();
            }
            3 if i < v.len() => {
                v[i] = if v[i].is_lowercase() {
                    v[i].to_uppercase().next().unwrap_or('x')
                } else {
                    v[i].to_lowercase().next().unwrap_or('x')
                }
            }
            4 if i < v.len() => v[i] = char::from_u32(v[i] as u32 ^ 1).unwrap_or('?'),
            5 => v.push('\0'),
            6 if v.len() > 1 => {
                let n = v.len();
                v.swap(i % n, (i + 1) % n)
            }
            7 => v.truncate(i),
            8 => v.push('\n'),
            _ => v.insert(i, 'a'),
        }
        v.into_iter().collect()
    };
    let kf = |k: &[u8]| -> Vec<u8> {
        let mut v = k.to_vec();
        let i = draw(v.len() as u64 + 1) as usize;
        match draw(6) {
            0 if i < v.len() => v[i] ^= 1 << draw(8),
            1 => v.push(0),
            2 => {
                v.pop();
            }
            3 => v = vec![0; v.len()],
            4 => v.reverse(),
            _ => v.insert(i, 1),
        }
        v
    };
    let list: Vec<Cred> = match c {
        Cred::Pw(p) => vec![
            Cred::Pw(pw(p)),
            Cred::Kf(p.as_bytes().to_vec()),
            Cred::Kf(crate::crypt::sha256(&[p.as_bytes()]).to_vec()),
            Cred::Both(p.clone(), Vec::new()),
            Cred::Both(p.clone(), vec![0; 32]),
            Cred::Pw(crate::crypt::hex(&crate::crypt::sha256(&[p.as_bytes()]))),
            Cred::Pw(String::new()),
        ],
        Cred::Kf(k) => vec![
            Cred::Kf(kf(k)),
            Cred::Both(String::new(), k.clone()),
            Cred::Pw(String::from_utf8_lossy(k).into_owned()),
            Cred::Pw(crate::crypt::hex(k)),
            Cred::Kf(crate::crypt::sha256(&[k]).to_vec()),
            Cred::Kf(crate::crypt::hex(k).into_bytes()),
            Cred::Pw(String::new()),
        ],
        Cred::Both(p, k) => vec![
            Cred::Both(pw(p), k.clone()),
            Cred::Both(p.clone(), kf(k)),
            Cred::Pw(p.clone()),
            Cred::Kf(k.clone()),
            Cred::Both(String::new(), k.clone()),
            Cred::Both(p.clone(), Vec::new()),
            Cred::Both(String::from_utf8_lossy(k).into_owned(), p.clone().into_bytes()),
            Cred::Kf([p.as_bytes(), k].concat()),
        ],
    };
    if !old.is_empty() && draw(5) == 4 {
        return pick(old).clone();
    }
    if draw(8) == 7 {
        return gen::cred();
    }
    // The first two are the nearest.
    let i = if draw(2) == 0 { draw(2) } else { draw(list.len() as u64) };
    list[i as usize].clone()
}

fn run() -> Res {
    weather();
    let p = Profile { size: 0, depth: 0, ..PEER };
    let mut cred = gen::cred();
    let m = gen::db(&p).normal();
    let mut db = m.to(&cred.lib());
    let mut old: Vec<Cred> = Vec::new();
    let n = 1 + draw(3);
    for step in 0..n {
        if step > 0 {
            old.push(cred.clone());
            cred = if draw(3) == 0 { gen::cred() } else { near(&cred, &old) };
            db.composite_key = cred.lib();
            note(format!("re-keyed to {}", kind(&cred)));
            count("rekeyed");
        }
        let raw = cred.raw();
        if cred.lib().unsecure()[..] != raw[..] {
            return fail("composite", format!("the composite key of {} is not the digest of its parts", kind(&cred)));
        }
        let file = if draw(4) == 0 {
            let mut st = peer::Style::new(true, seed_draw());
            st.hash = draw(2) == 0;
            peer::encode(&m, &raw, &mut st, &mut Prng::new(seed_draw()))
        } else {
            save_ok(&db)?
        };
        let right = open_same(&file, &cred.lib(), &m, "right-rejected")?;
        let k = 2 + draw(5);
        for _ in 0..k {
            let c = near(&cred, &old);
            let r = open_bytes(&file, &c.lib())?;
            let same_key = c.raw() == raw;
            note(format!(
                "{} {:?} against {:?}: {}",
                if same_key { "same" } else { "other" },
                shorten(&c),
                shorten(&cred),
                if r.is_ok() { "opens" } else { "refused" }
            ));
            sig("try", mix(r.is_ok() as u64 ^ hash_bytes(format!("{:?}", c).as_bytes())));
            match (same_key, r) {
                (true, Err(e)) => return fail("right-rejected", format!("right credentials are refused: {}", e)),
                (false, Ok(_)) => {
                    return fail("wrong-accepted", format!("{:?} opens what {:?} locked", shorten(&c), shorten(&cred)))
                }
                (false, Err(_)) => {
                    count("wrong_credentials_refused");
                    judged();
                }
                _ => {}
            }
        }
        // The reopened database is saved under the credentials it was opened with.
        if draw(2) == 1 {
            db = right;
            let again = save_ok(&db)?;
            open_same(&again, &cred.lib(), &m, "right-rejected")?;
        }
    }
    Ok(())
}

fn shorten(c: &Cred) -> String {
    format!("{:?}", c).chars().take(80).collect()
}
