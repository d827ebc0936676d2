//! C18: PETSCII conversion and padding.  C19: sprite rendering.

use cbm::disk::geos::GEOSInfo;
use cbm::disk::Id;
use cbm::{Petscii, Sprite};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::c14::{check_info, info_bytes, info_lines, quadrant, sprite_lines, Info};
use crate::runner::{guard, Ctx, Obs, Res};
use crate::util::{diff, show_bytes, Rng};

const NONE: char = '\u{fffd}';

/// The character a code displays as in the upper/lower case character set.
pub fn shown(code: u8) -> char {
    const GRAPHICS: [u32; 32] = [
        0x00a0, 0x258c, 0x2584, 0x2594, 0x2581, 0x258e, 0x2592, 0x2595, //
        0xfffd, 0xfffd, 0x2595, 0x2523, 0x2597, 0x2517, 0x2513, 0x2582, //
        0x250f, 0x253b, 0x2533, 0x252b, 0x258e, 0x258d, 0x2595, 0x2594, //
        0x2594, 0x2583, 0x2713, 0x2596, 0x259d, 0x2518, 0x2598, 0x259a,
    ];
    match code {
        0x00..=0x1f | 0x80..=0x9f => NONE,
        0x20..=0x40 | 0x5b | 0x5d => code as char,
        0x41..=0x5a => (code + 0x20) as char,
        0x5c => '\u{a3}',
        0x5e => '\u{2191}',
        0x5f => '\u{2190}',
        0x60 => '\u{2501}',
        0x61..=0x7a => (code - 0x20) as char,
        0x7b => '\u{254b}',
        0x7c | 0x7f => NONE,
        0x7d => '\u{2503}',
        0x7e | 0xff => '\u{2592}',
        0xa0..=0xbf => std::char::from_u32(GRAPHICS[code as usize - 0xa0]).unwrap(),
        0xc0..=0xdf => shown(code - 0x60),
        0xe0..=0xfe => shown(code - 0x40),
    }
}

pub fn shown_text(b: &[u8]) -> String {
    b.iter().map(|c| shown(*c)).collect()
}

/// The code a character is translated to.
pub fn code_for(c: char) -> u8 {
    (0..=255u8).find(|b| shown(*b) == c).unwrap_or(0x7f)
}

fn codes(i: &usize, obs: &mut Obs) -> Res {
    obs.nontrivial();
    let b = *i as u8;
    let p = Petscii::from_bytes(&[b]);
    let s = p.to_string();
    if s.chars().collect::<Vec<_>>() != vec![shown(b)] {
        return Err(format!("code {:#04x} displays as {:?} instead of {:?}", b, s, shown(b)));
    }
    let back = Petscii::from_str_lossy(&s);
    if back.to_string() != s {
        return Err(format!("{:?} comes back as {:?}", s, back.to_string()));
    }
    if back.len() != 1 {
        return Err(format!("{:?} comes back as {} codes", s, back.len()));
    }
    Ok(())
}

/// All Unicode characters, 256 at a time: alone, and all of them in one string.
fn unicode(i: &usize, obs: &mut Obs) -> Res {
    let mut all = String::new();
    let mut want = vec![];
    for c in (*i as u32 * 256..*i as u32 * 256 + 256).filter_map(std::char::from_u32) {
        let w = code_for(c);
        let s = c.to_string();
        let p = Petscii::from_str_lossy(&s);
        if p.as_bytes() != [w] {
            return Err(format!("U+{:04X} becomes {} instead of {:02x}", c as u32, show_bytes(p.as_bytes()), w));
        }
        if w != 0x7f && c != NONE {
            obs.nontrivial();
            if p.to_string() != s {
                return Err(format!("U+{:04X} comes back as {:?}", c as u32, p.to_string()));
            }
        }
        all.push(c);
        want.push(w);
    }
    let p: Petscii = all.as_str().into();
    if p.as_bytes() != &want[..] {
        return Err(format!("converting U+{:04X}.. together: {}", i * 256, diff(p.as_bytes(), &want)));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Text(String);

fn text_strategy() -> BoxedStrategy<Text> {
    let known = (0u8..=255).prop_map(shown);
    let c = prop_oneof![
        4 => known,
        2 => any::<char>(),
        1 => (0u32..0x3000).prop_map(|u| std::char::from_u32(u).unwrap_or('?')),
        1 => Just('"'),
    ];
    prop::collection::vec(c, 0..40).prop_map(|v| Text(v.into_iter().collect())).boxed()
}

fn text(c: &Text, obs: &mut Obs) -> Res {
    let s = &c.0;
    let want: Vec<u8> = s.chars().map(code_for).collect();
    if s.chars().any(|c| !c.is_ascii()) {
        obs.nontrivial();
    }
    let all: [Petscii; 4] =
        [Petscii::from_str_lossy(s), s.as_str().into(), s.clone().into(), (&s.clone()).into()];
    for p in all.iter() {
        if p.as_bytes() != &want[..] {
            return Err(format!("{:?}: {}", s, diff(p.as_bytes(), &want)));
        }
        if p.len() != s.chars().count() || p.is_empty() != s.is_empty() {
            return Err(format!("{:?}: length {} / {}", s, p.len(), p.is_empty()));
        }
    }
    let p = &all[0];
    let round = p.to_string();
    let expect: String =
        s.chars().map(|c| if code_for(c) == 0x7f { NONE } else { c }).collect();
    if round != expect {
        return Err(format!("{:?} comes back as {:?}", s, round));
    }
    // Once converted, converting again changes nothing any more.
    let again = Petscii::from_str_lossy(&round);
    if again.to_string() != round {
        return Err(format!("{:?} is shown as {:?} the second time", round, again.to_string()));
    }
    let id: Id = s.as_str().into();
    let w = [want.get(0).cloned().unwrap_or(0), want.get(1).cloned().unwrap_or(0)];
    let id2: Id = s.clone().into();
    let id3: Id = (&s.clone()).into();
    for x in [id, id2, id3].iter() {
        if [x[0], x[1]] != w {
            return Err(format!("{:?} as an id: {:02x} {:02x} instead of {:02x?}", s, x[0], x[1], w));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bytes {
    b: Vec<u8>,
    field: usize,
    pad: u8,
    noise: u8,
}

fn bytes_strategy() -> BoxedStrategy<Bytes> {
    let pad = prop_oneof![4 => Just(0xa0u8), 1 => Just(0u8), 1 => Just(0x20u8), 2 => any::<u8>()];
    (pad, 0usize..40, any::<u8>())
        .prop_flat_map(|(pad, field, noise)| {
            let b = prop_oneof![3 => any::<u8>(), 1 => Just(pad), 1 => Just(b'"')];
            (prop::collection::vec(b, 0..36), Just(pad), Just(field), Just(noise), 0usize..4, any::<bool>())
        })
        .prop_map(|(mut b, pad, field, noise, tail, fit)| {
            for _ in 0..tail.saturating_sub(1) {
                b.push(pad);
            }
            let field = if fit { (b.len() + noise as usize % 3).saturating_sub(1) } else { field };
            Bytes { b, field, pad, noise }
        })
        .boxed()
}

fn bytes(c: &Bytes, obs: &mut Obs) -> Res {
    let b = &c.b;
    let p = Petscii::from_bytes(b);
    let r: &[u8] = p.as_ref();
    if p.as_bytes() != &b[..] || r != &b[..] || p.len() != b.len() || p.is_empty() != b.is_empty() {
        return Err(format!("from_bytes keeps {}", show_bytes(p.as_bytes())));
    }
    for i in 0..b.len() {
        if p[i] != b[i] {
            return Err(format!("index {}: {:02x}", i, p[i]));
        }
    }
    let it: Vec<u8> = (&p).into_iter().cloned().collect();
    let it2: Vec<u8> = p.clone().into_iter().collect();
    if it != *b || it2 != *b {
        return Err("iteration differs from the bytes".to_string());
    }
    let s = p.to_string();
    let owned: String = p.clone().into();
    if s != shown_text(b) || s != owned {
        return Err(format!("{} displays as {:?}/{:?} instead of {:?}", show_bytes(b), s, owned, shown_text(b)));
    }
    let q = format!("{:?}", p);
    if q != format!("\"{}\"", shown_text(b).replace('"', "\\\"")) {
        return Err(format!("{} is quoted as {}", show_bytes(b), q));
    }
    // Padding
    let mut buf = vec![c.noise; c.field];
    let before = buf.clone();
    match p.write_bytes_with_padding(&mut buf, c.pad) {
        Ok(()) => {
            if b.len() > c.field {
                return Err(format!("{} bytes accepted for a field of {}", b.len(), c.field));
            }
            let mut want = b.clone();
            want.resize(c.field, c.pad);
            if buf != want {
                return Err(format!("padding: {}", diff(&buf, &want)));
            }
            let back = Petscii::from_padded_bytes(&buf, c.pad);
            let mut unpadded = b.clone();
            while unpadded.last() == Some(&c.pad) {
                unpadded.pop();
            }
            if back.as_bytes() != &unpadded[..] {
                return Err(format!("unpadding: {}", diff(back.as_bytes(), &unpadded)));
            }
            obs.label("padded");
        }
        Err(_) => {
            if b.len() <= c.field {
                return Err(format!("{} bytes refused for a field of {}", b.len(), c.field));
            }
            if buf != before {
                return Err(format!("a refused string was written: {}", diff(&buf, &before)));
            }
            obs.label("refused");
        }
    }
    let direct = Petscii::from_padded_bytes(b, c.pad);
    let end = b.iter().rposition(|x| *x != c.pad).map_or(0, |i| i + 1);
    if direct.as_bytes() != &b[..end] {
        return Err(format!("unpadding: {}", diff(direct.as_bytes(), &b[..end])));
    }
    if b.contains(&c.pad) && end > 0 {
        obs.nontrivial();
    }
    // Two-byte ids
    let w = [b.get(0).cloned().unwrap_or(0), b.get(1).cloned().unwrap_or(0)];
    let i1 = Id::from_bytes(b);
    let i2: Id = p.clone().into();
    for x in [i1, i2].iter() {
        if [x[0], x[1]] != w {
            return Err(format!("id of {}: {:02x} {:02x}", show_bytes(b), x[0], x[1]));
        }
        if x.to_string() != shown_text(&w) || String::from(*x) != shown_text(&w) {
            return Err(format!("id {:02x?} displays as {:?}", w, x.to_string()));
        }
        if Petscii::from(*x).as_bytes() != &w[..] {
            return Err(format!("id {:02x?} as a string: {:?}", w, Petscii::from(*x)));
        }
    }
    Ok(())
}

pub fn c18(ctx: &mut Ctx) {
    ctx.exhaustive("codes", 256, "all 256 codes", &codes);
    ctx.exhaustive("unicode", 0x1100, "blocks of 256 Unicode characters holding at least one translatable character", &unicode);
    ctx.sub("text", 300_000, "text with characters outside ASCII", &text_strategy, &text);
    ctx.sub("bytes", 400_000, "byte strings that contain the pad byte without consisting of it", &bytes_strategy, &bytes);
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pixels {
    seed: u64,
    density: u8,
    set: Vec<(u8, u8)>,
}

fn pixels_strategy() -> BoxedStrategy<Pixels> {
    (any::<u64>(), 0u8..4, prop::collection::vec((0u8..24, 0u8..21), 0..12))
        .prop_map(|(seed, density, set)| Pixels { seed, density, set })
        .boxed()
}

fn pixels(c: &Pixels) -> Vec<u8> {
    let mut rng = Rng::new(c.seed);
    let mut b = vec![0u8; 63];
    match c.density {
        0 => (),
        1 => rng.fill(&mut b),
        2 => b.iter_mut().for_each(|x| *x = rng.byte() & rng.byte() & rng.byte()),
        _ => b.iter_mut().for_each(|x| *x = 0xff),
    }
    for (x, y) in &c.set {
        b[*y as usize * 3 + *x as usize / 8] ^= 0x80 >> (x % 8);
    }
    b
}

/// The bitmap shown by 11 lines of 12 block characters.
fn recover(text: &str) -> Result<Vec<u8>, String> {
    let lines: Vec<&str> = text.split('\n').collect();
    if lines.len() != 12 || !lines[11].is_empty() {
        return Err(format!("{} lines", lines.len()));
    }
    let mut px = [[false; 24]; 22];
    for (r, l) in lines[..11].iter().enumerate() {
        let cs: Vec<char> = l.chars().collect();
        if cs.len() != 12 {
            return Err(format!("line {} has {} characters", r, cs.len()));
        }
        for (x, ch) in cs.iter().enumerate() {
            let n = (0..16u8)
                .find(|n| quadrant(n & 8 != 0, n & 4 != 0, n & 2 != 0, n & 1 != 0) == *ch)
                .ok_or_else(|| format!("character {:?} in line {}", ch, r))?;
            px[2 * r][2 * x] = n & 8 != 0;
            px[2 * r][2 * x + 1] = n & 4 != 0;
            px[2 * r + 1][2 * x] = n & 2 != 0;
            px[2 * r + 1][2 * x + 1] = n & 1 != 0;
        }
    }
    if px[21].iter().any(|p| *p) {
        return Err("a pixel below the last row".to_string());
    }
    let mut b = vec![0u8; 63];
    for y in 0..21 {
        for x in 0..24 {
            if px[y][x] {
                b[y * 3 + x / 8] |= 0x80 >> (x % 8);
            }
        }
    }
    Ok(b)
}

fn check_sprite(b: &[u8]) -> Res {
    let s = guard(|| Sprite::from_bytes(b))?;
    let text = guard(|| s.to_unicode())?;
    let want: String = sprite_lines(b).iter().map(|l| format!("{}\n", l)).collect();
    let got = recover(&text)?;
    if got != b {
        return Err(format!("the text shows another bitmap: {}", diff(&got, b)));
    }
    if text != want {
        return Err(format!("rendered as\n{}instead of\n{}", text, want));
    }
    let mut out = vec![0x5au8; 63];
    s.to_bytes(&mut out);
    if out != b {
        return Err(format!("bytes: {}", diff(&out, b)));
    }
    Ok(())
}

fn sprite(c: &Pixels, obs: &mut Obs) -> Res {
    let b = pixels(c);
    if b.iter().any(|x| *x != b[0]) {
        obs.nontrivial();
    }
    check_sprite(&b)
}

/// Every single pixel, set alone and cleared alone, and every byte value at every place.
fn each(i: &usize, obs: &mut Obs) -> Res {
    obs.nontrivial();
    let mut b = vec![0u8; 63];
    if *i < 504 {
        b[i / 8] = 0x80 >> (i % 8);
        check_sprite(&b)?;
        let inv: Vec<u8> = b.iter().map(|x| !x).collect();
        check_sprite(&inv)
    } else {
        let i = i - 504;
        b[i / 256] = (i % 256) as u8;
        check_sprite(&b)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Block {
    info: Info,
    icon: Pixels,
}

fn info(c: &Block, obs: &mut Obs) -> Res {
    let mut b = info_bytes(&c.info);
    b[5..68].copy_from_slice(&pixels(&c.icon));
    obs.nontrivial();
    let i = guard(|| GEOSInfo::from_bytes(&b))?;
    check_info(&i, &b)?;
    let text = guard(|| format!("{}", i))?;
    let want: String = info_lines(&b).iter().map(|l| format!("{}\n", l)).collect();
    if text != want {
        return Err(format!("info block shown as\n{}instead of\n{}", text, want));
    }
    Ok(())
}

pub fn c19(ctx: &mut Ctx) {
    ctx.exhaustive("each", 504 + 63 * 256, "every pixel alone, every pixel missing, every byte value in every place", &each);
    ctx.sub("sprite", 200_000, "sprites that are not one repeated byte", &pixels_strategy, &sprite);
    ctx.sub(
        "info",
        60_000,
        "all",
        &|| {
            (super::c14::info_case(), pixels_strategy())
                .prop_map(|(info, icon)| Block { info, icon })
                .boxed()
        },
        &info,
    );
}
