//! P04: damaged or altered files are never opened as different content.

use super::damage;
use super::*;
use crate::crypt::*;
use crate::gen::{Profile, PEER};

pub const PROP: Prop = Prop {
    id: "P04",
    scenario: run,
    quick: 20_000,
    thorough: 300_000,
    rule: "One run takes a file with a stored header hash (from the library, or from the peer program with many \
           blocks) and alters it: stored bytes flipped, changed, zeroed, lost, duplicated, swapped, cut, extended or \
           mixed with another save; or, beneath the outer encryption, a start byte, block number, block hash, final \
           marker, block data, block order, the stored header hash, the header below an old hash, or the gzip \
           trailer. Non-trivial: the altered file differs from the original.",
    probes: &[],
};

fn stored(file: &[u8], other: &[u8], ms: &[&MDb], key: &CompositeKey) -> Res {
    let n = 1 + draw(4);
    for _ in 0..n {
        let mut f = file.to_vec();
        let mut what = Vec::new();
        let k = if chance(1, 4) { 2 + draw(3) } else { 1 };
        for _ in 0..k {
            what.push(damage::mutate(&mut f, other));
        }
        damage::clamp_rounds(&mut f);
        let what = what.join("; ");
        if f != file {
            judged();
        }
        sig(&what, 0);
        let r = open_bytes(&f, key)?;
        note(format!("stored bytes altered ({}): {}", what, if r.is_ok() { "opens" } else { "refused" }));
        if let Ok(db) = r {
            count("altered_file_opened_the_same");
            let got = MDb::of(&db);
            if ms.iter().all(|m| model::diff(m, &got).is_some()) {
                return fail(
                    "different-content",
                    format!("altered file ({}) opens {}", what, model::diff(ms[0], &got).unwrap_or_default()),
                );
            }
        } else {
            count("altered_file_refused");
        }
    }
    Ok(())
}

/// Alters the file beneath its outer encryption. Returns what was done, the new file, and whether
/// opening it to the same content is acceptable.
fn inner(file: &[u8], raw: &[u8; 32]) -> Option<(String, Vec<u8>, bool)> {
    let (mut hdr, _, mut plain) = peer::unseal(file, raw).ok()?;
    let blocks = peer::unblock(&plain[32..]).ok()?;
    // Offsets of the block headers.
    let mut offs = vec![32];
    for b in &blocks {
        let last = offs[offs.len() - 1];
        offs.push(last + 40 + b.len());
    }
    let nb = blocks.len();
    let fin = offs[nb];
    let some = |k: u64| offs[k as usize];
    let mut lenient = false;
    let what = match draw(17) {
        0 => {
            let i = draw(32) as usize;
            plain[i] ^= 1 << draw(8);
            format!("start byte {} differs from the header", i)
        }
        1 => {
            let o = some(draw(nb as u64 + 1));
            let v = 1 + draw(255) as u8;
            let i = o + draw(4) as usize;
            plain[i] = plain[i].wrapping_add(v);
            format!("block number at {} changed", o)
        }
        2 => {
            let o = some(draw(nb as u64));
            let i = o + 4 + draw(32) as usize;
            plain[i] ^= 1 << draw(8);
            format!("block hash at {} changed", o)
        }
        3 => {
            let i = fin + 4 + draw(32) as usize;
            plain[i] = 1 + draw(255) as u8;
            "hash of the final block is not zero".into()
        }
        4 => {
            let h = sha256(&[&[]]);
            plain[fin + 4..fin + 36].copy_from_slice(&h);
            "hash of the final block is that of no data".into()
        }
        5 => {
            let k = draw(nb as u64) as usize;
            let o = offs[k] + 40;
            let i = o + draw(blocks[k].len() as u64) as usize;
            plain[i] ^= 1 << draw(8);
            format!("data of block {} changed", k)
        }
        6 => {
            let k = draw(nb as u64) as usize;
            plain[offs[k] + 4..offs[k] + 36].iter_mut().for_each(|b| *b = 0);
            format!("hash of block {} zeroed", k)
        }
        7 | 8 if nb >= 2 => {
            let a = draw(nb as u64) as usize;
            let b = (a + 1 + draw(nb as u64 - 1) as usize) % nb;
            let mut order: Vec<usize> = (0..nb).collect();
            order.swap(a, b);
            let mut p = plain[..32].to_vec();
            for k in order {
                p.extend(&plain[offs[k]..offs[k + 1]]);
            }
            p.extend(&plain[fin..]);
            plain = p;
            format!("blocks {} and {} swapped", a, b)
        }
        7 | 8 | 9 => {
            let k = draw(nb as u64) as usize;
            plain.drain(offs[k]..offs[k + 1]);
            format!("block {} of {} missing", k, nb)
        }
        10 => {
            let k = draw(nb as u64) as usize;
            let part = plain[offs[k]..offs[k + 1]].to_vec();
            plain.splice(offs[k + 1]..offs[k + 1], part);
            format!("block {} twice", k)
        }
        11 => {
            plain.truncate(fin + draw(40) as usize);
            "final block missing or cut".into()
        }
        12 => {
            let k = draw(nb as u64) as usize;
            plain.truncate(offs[k] + draw(40 + blocks[k].len() as u64) as usize);
            format!("ends inside block {}", k)
        }
        13 | 14 => {
            // Another header above an old header hash; the key stays the same.
            match draw(3) {
                0 => hdr.set(1, b"another comment".to_vec()),
                1 => hdr.version.0 ^= 1 << draw(4),
                _ => {
                    let n = hdr.fields.len();
                    let i = draw(n as u64 - 1) as usize;
                    let j = (i + 1) % (n - 1);
                    if i == j || hdr.fields[i] == hdr.fields[j] {
                        return None;
                    }
                    hdr.fields.swap(i, j);
                }
            }
            "header changed beneath its stored hash".into()
        }
        15 => {
            let data: Vec<u8> = blocks.concat();
            let xml = if hdr.gzip().ok()? { peer::gunzip(&data).ok()? } else { data };
            let text = String::from_utf8(xml).ok()?;
            let a = text.find("<HeaderHash>")? + 12;
            let b = a + text[a..].find('<')?;
            let mut h = unb64(&text[a..b])?;
            if h.len() != 32 {
                // The peer wrote it in some unusual way.
                return None;
            }
            let mut how = "changed";
            match draw(4) {
                0 => {
                    h.pop();
                    how = "cut";
                }
                1 => {
                    h.push(0);
                    how = "extended";
                }
                2 => {
                    h = vec![0; 32];
                    how = "zeroed";
                }
                _ => {
                    let i = draw(h.len() as u64) as usize;
                    h[i] ^= 1 << draw(8);
                }
            }
            let text = format!("{}{}{}", &text[..a], b64(&h), &text[b..]);
            let data = if hdr.gzip().ok()? { peer::gzip(text.as_bytes(), 6) } else { text.into_bytes() };
            plain.truncate(32);
            plain.extend(peer::block(0, &data));
            plain.extend(peer::block(1, &[]));
            format!("stored header hash {}", how)
        }
        _ => {
            if !hdr.gzip().ok()? {
                return None;
            }
            let mut data: Vec<u8> = blocks.concat();
            let n = data.len();
            if draw(2) == 0 {
                let i = n - 1 - draw(8) as usize;
                data[i] ^= 1 << draw(8);
            } else {
                data.truncate(n - 1 - draw(n as u64 / 2) as usize);
            }
            lenient = true;
            plain.truncate(32);
            plain.extend(peer::block(0, &data));
            plain.extend(peer::block(1, &[]));
            "gzip stream altered".into()
        }
    };
    let f = hdr.seal(raw, &plain).ok()?;
    Some((what, f, lenient))
}

fn run() -> Res {
    weather();
    let size = *pick(&[0u64, 1, 1, 2]);
    let p = Profile { size, depth: 2, ..PEER };
    let cred = gen::cred();
    let (key, raw) = (cred.lib(), cred.raw());
    let m = gen::db(&p).normal();
    let by_peer = draw(3) > 0;
    let file = if !by_peer {
        save_ok(&m.to(&key))?
    } else {
        let mut st = peer::Style::new(true, seed_draw());
        st.hash = true;
        peer::encode(&m, &raw, &mut st, &mut Prng::new(seed_draw()))
    };
    open_same(&file, &key, &m, "intact")?;
    note(format!("a file of {} bytes by {}", file.len(), if by_peer { "the peer" } else { "the library" }));
    if draw(2) == 0 {
        // Another save, of the same content or of other content.
        let mut o = m.clone();
        if draw(2) == 1 {
            o.name = gen::text();
            o.root.entries.push(gen::entry(&p, 1));
        }
        let other = if draw(2) == 0 { save_ok(&o.to(&key))? } else { Vec::new() };
        return stored(&file, &other, &[&m, &o], &key);
    }
    for _ in 0..1 + draw(4) {
        let (what, f, lenient) = match inner(&file, &raw) {
            Some(x) => x,
            None => continue,
        };
        if f == file {
            continue;
        }
        judged();
        count("altered_beneath_encryption");
        sig(&what, 1);
        let r = open_bytes(&f, &key)?;
        note(format!("{}: {}", what, if r.is_ok() { "opens" } else { "refused" }));
        if let Ok(db) = r {
            if !lenient {
                return fail("unnoticed", format!("opens although: {}", what));
            }
            same(&m, &db, "different-content")?;
        }
    }
    Ok(())
}
