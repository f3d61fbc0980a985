//! Damage to stored bytes.

use super::*;

pub fn cut_point(len: usize) -> usize {
    match draw(4) {
        0 => draw(320.min(len as u64 + 1)) as usize,
        1 => len - draw(80.min(len as u64 + 1)) as usize,
        2 => (len / 16 * 16).saturating_sub(16 * draw(8) as usize),
        _ => draw(len as u64 + 1) as usize,
    }
    .min(len)
}

fn at(len: usize) -> usize {
    // The header is short and everything hangs on it.
    match draw(3) {
        0 => draw((len as u64).min(280)) as usize,
        1 => len - 1 - draw((len as u64).min(64)) as usize,
        _ => draw(len as u64) as usize,
    }
}

fn span(len: usize) -> (usize, usize) {
    let n = *pick(&[1u64, 16, 32, 64, 512, 4096]);
    let a = at(len);
    let a = if draw(2) == 0 { a } else { a / n as usize * n as usize };
    (a, (a + n as usize).min(len))
}

/// One alteration of stored bytes; `other` is another file parts may come from.
pub fn mutate(f: &mut Vec<u8>, other: &[u8]) -> String {
    if f.is_empty() {
        return "nothing left".into();
    }
    let len = f.len();
    match draw(if other.is_empty() { 9 } else { 11 }) {
        0 | 1 => {
            let (i, b) = (at(len), draw(8));
            f[i] ^= 1 << b;
            count("bit_flip");
            format!("bit {} of byte {} flipped", b, i)
        }
        2 => {
            let i = at(len);
            let v = 1 + draw(255) as u8;
            f[i] = f[i].wrapping_add(v);
            count("byte_changed");
            format!("byte {} changed", i)
        }
        3 => {
            let (a, b) = span(len);
            f[a..b].iter_mut().for_each(|x| *x = 0);
            count("range_zeroed");
            format!("bytes {}..{} zeroed", a, b)
        }
        4 => {
            let (a, b) = span(len);
            f.drain(a..b);
            count("range_lost");
            format!("bytes {}..{} lost", a, b)
        }
        5 => {
            let (a, b) = span(len);
            let part = f[a..b].to_vec();
            let i = if draw(2) == 0 { b } else { at(len) };
            f.splice(i..i, part);
            count("range_duplicated");
            format!("bytes {}..{} duplicated at {}", a, b, i)
        }
        6 => {
            let (a, b) = span(len);
            let (c, _) = span(len);
            let n = (b - a).min(len - c);
            for k in 0..n {
                f.swap(a + k, c + k);
            }
            count("ranges_swapped");
            format!("{} bytes at {} and {} swapped", n, a, c)
        }
        7 => {
            let n = cut_point(len);
            f.truncate(n);
            count("truncated");
            format!("cut off at {}", n)
        }
        8 => {
            let n = 1 + draw(64) as usize;
            let b = gen::bytes(n);
            f.extend(b);
            count("extended");
            format!("{} bytes added at the end", n)
        }
        9 => {
            let (a, b) = span(len);
            let b = b.min(other.len());
            if a < b {
                f[a..b].copy_from_slice(&other[a..b]);
            }
            count("range_of_other_save");
            format!("bytes {}..{} taken from another save", a, b)
        }
        _ => {
            let i = at(len).min(other.len());
            let swap = draw(2) == 1;
            let mut g = if swap { other[..i].to_vec() } else { f[..i].to_vec() };
            g.extend(if swap { &f[i..] } else { &other[i..] });
            *f = g;
            count("spliced_with_other_save");
            format!("spliced with another save at {}", i)
        }
    }
}

/// Keeps the key transformation of a damaged file short: a number of rounds is a number of rounds.
pub fn clamp_rounds(f: &mut [u8]) {
    let mut i = 12;
    while i + 3 <= f.len() {
        let id = f[i];
        let n = u16::from_le_bytes([f[i + 1], f[i + 2]]) as usize;
        i += 3;
        if id == 6 && n == 8 && i + 8 <= f.len() {
            let mut b = [0; 8];
            b.copy_from_slice(&f[i..i + 8]);
            if u64::from_le_bytes(b) > 5000 {
                f[i + 1] &= 0x0f;
                f[i + 2..i + 8].iter_mut().for_each(|x| *x = 0);
            }
        }
        if id == 0 {
            break;
        }
        i += n;
    }
}
