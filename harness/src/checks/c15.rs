//! Values keep their invariants through any edits, and edits do what they say and nothing else.
use crate::core::*;
use crate::gen::{self, Opt};
use crate::mk;
use crate::rng::Rng;
use crate::{ensure, ext};
use either::Either;
use lib::events::audio_sample as au;
use lib::events::storyboard::cmds::{Colours, ContinuingFields};
use lib::events::storyboard::sprites::Sprite;
use lib::hitobjects as ho;
use lib::timingpoints as tp;
use lib::{VersionedDefault, VersionedFrom, VersionedFromStr, VersionedToString, VersionedTryFrom};
use osu_file_parser as lib;
use std::path::{Path, PathBuf};

pub const C15: Check = Check {
    id: "C15",
    cases: (4_000_000, 6_000_000),
    rule: "a sequence of up to 30 edits of one value, after each of which its state, its text and what the text is read as were compared with a reference model; distinct by type and sequence",
    assumptions: &["a group of colours with a blue but no green value isn't appended, as that call can't be refused"],
    need: &[
        ("sequences", 50_000),
        ("edits", 200_000),
        ("refused edits", 20_000),
        ("hit sound", 3000),
        ("combo skip count", 3000),
        ("hit sample volume", 3000),
        ("sample volume", 3000),
        ("effects", 3000),
        ("file path", 3000),
        ("decimal", 3000),
        ("pairs of values", 3000),
        ("groups of colours", 3000),
        ("timing point", 3000),
        ("error", 3000),
        ("hit object", 3000),
    ],
    run,
    known: None,
    exhaustive: false,
};

fn ver(r: &mut Rng) -> u8 {
    gen::version(r)
}
fn byte(r: &mut Rng) -> u8 {
    match r.below(4) {
        0 => *r.pick(&[0u8, 1, 2, 6, 7, 8, 9, 15, 99, 100, 101, 127, 128, 255]),
        _ => r.below(256) as u8,
    }
}

fn hit_sound(cx: &mut Cx, log: &mut String) -> Res {
    let r = &mut cx.r;
    let v = ver(r);
    let mut bits = r.below(16) as u8;
    let mut h = if r.bool() {
        ho::HitSound::new(bits & 1 > 0, bits & 2 > 0, bits & 4 > 0, bits & 8 > 0)
    } else {
        <ho::HitSound as VersionedFrom<u8>>::from(bits | (r.below(16) as u8) << 4, v).expect("MONITOR: refused")
    };
    for _ in 0..r.below(12) {
        let i = r.below(4);
        let on = r.bool();
        *log += &format!(" {i}{on}");
        match i {
            0 => h.set_normal(on),
            1 => h.set_whistle(on),
            2 => h.set_finish(on),
            _ => h.set_clap(on),
        }
        bits = if on { bits | 1 << i } else { bits & !(1 << i) };
        cx.rec.counters.entry("edits".into()).and_modify(|c| *c += 1).or_insert(1);
        let got = (h.normal(), h.whistle(), h.finish(), h.clap());
        let want = (bits & 1 > 0 || bits == 0, bits & 2 > 0, bits & 4 > 0, bits & 8 > 0);
        ensure!(got == want, "hit sound {bits:#b} has flags {got:?}");
        let t = h.to_string(v);
        ensure!(t == Some(bits.to_string()), "hit sound {bits} is written as {t:?}");
        let back = ho::HitSound::from_str(&t.expect("MONITOR: no text"), v);
        ensure!(matches!(&back, Ok(Some(b)) if *b == h), "hit sound {bits} is read as {back:?}");
    }
    Ok(())
}

fn small(cx: &mut Cx, log: &mut String, kind: usize) -> Res {
    let v = ver(&mut cx.r);
    let n = 1 + cx.r.below(15);
    let first = byte(&mut cx.r);
    macro_rules! err_kind {
        ($e:expr, $low:expr, $high:expr, $x:expr) => {
            if let Err(e) = &$e {
                let d = format!("{e:?}");
                let want = if $x == 0 { $low } else { $high };
                ensure!(d.contains(want), "{} is refused as {d}", $x);
            }
        };
    }
    match kind {
        0 => {
            let c = ho::ComboSkipCount::new(first, v);
            ensure!(c.is_ok() == (first <= 7), "combo skip count {first} gives {c:?}");
            let t = <ho::ComboSkipCount as VersionedTryFrom<u8>>::try_from(first, v);
            ensure!(t.is_ok() == c.is_ok(), "combo skip count {first} gives {t:?} and {c:?}");
            let mut c = c.ok().flatten().unwrap_or_default();
            let mut want = if first <= 7 { first } else { 0 };
            for _ in 0..n {
                let x = byte(&mut cx.r);
                *log += &format!(" {x}");
                let res = c.set(x, v);
                ensure!(res.is_ok() == (x <= 7), "setting the combo skip count to {x} gives {res:?}");
                if x <= 7 {
                    want = x;
                } else {
                    cx.count("refused edits");
                }
                cx.count("edits");
                ensure!(c.get() == want, "combo skip count is {} instead of {want}", c.get());
                ensure!(<u8 as VersionedFrom<_>>::from(c, v) == Some(want), "combo skip count as number");
            }
        }
        1 => {
            let valid = (1..=100).contains(&first);
            let c = ho::Volume::new(Some(first));
            ensure!(c.is_ok() == valid, "hit sample volume {first} gives {c:?}");
            err_kind!(c, "VolumeTooLow", "VolumeTooHigh", first);
            let mut c = match c {
                Ok(c) => c,
                Err(_) => ho::Volume::new(None).map_err(|e| format!("{e:?}"))?,
            };
            let mut want = valid.then_some(first);
            for _ in 0..n {
                let x = byte(&mut cx.r);
                if cx.r.chance(20) {
                    *log += " timing";
                    c.set_use_timing_point_volume();
                    want = None;
                } else {
                    *log += &format!(" {x}");
                    let res = c.set_volume(x);
                    let ok = (1..=100).contains(&x);
                    ensure!(res.is_ok() == ok, "setting the volume of a hit sample to {x} gives {res:?}");
                    err_kind!(res, "VolumeTooLow", "VolumeTooHigh", x);
                    if ok {
                        want = Some(x);
                    } else {
                        cx.count("refused edits");
                    }
                }
                cx.count("edits");
                ensure!(c.volume() == want, "hit sample volume is {:?} instead of {want:?}", c.volume());
                ensure!(c.use_timing_point_volume() == want.is_none(), "{want:?}: uses the timing point's volume?");
                let i = <i32 as VersionedFrom<_>>::from(c, v);
                ensure!(i == Some(want.unwrap_or(0).into()), "{want:?} as a number is {i:?}");
                let back = ho::Volume::from_str(&i.expect("MONITOR: none").to_string(), v);
                ensure!(matches!(&back, Ok(Some(b)) if *b == c), "{i:?} is read as {back:?}");
            }
        }
        2 => {
            let c = au::Volume::new(first, v);
            ensure!(c.is_ok() == (first <= 100), "sample volume {first} gives {c:?}");
            let mut want = first;
            let mut c = match c {
                Ok(c) => c,
                Err(_) => {
                    want = 100;
                    <au::Volume as VersionedDefault>::default(v).ok_or("no default volume".to_string())?
                }
            };
            for _ in 0..n {
                let x = byte(&mut cx.r);
                *log += &format!(" {x}");
                let res = c.set(x, v);
                ensure!(res.is_ok() == (x <= 100), "setting the volume of a sample to {x} gives {res:?}");
                if x <= 100 {
                    want = x;
                } else {
                    cx.count("refused edits");
                }
                cx.count("edits");
                ensure!(c.get() == want, "sample volume is {} instead of {want}", c.get());
                let t = c.to_string(v);
                ensure!(t == Some(want.to_string()), "sample volume {want} is written as {t:?}");
                let back = au::Volume::from_str(&t.expect("MONITOR: no text"), v);
                ensure!(matches!(&back, Ok(Some(b)) if *b == c), "sample volume {want} is read as {back:?}");
            }
        }
        _ => {
            let mut want = gen::int(&mut cx.r, true);
            let mut c = tp::Volume::new(want, v).ok_or("no volume".to_string())?;
            for _ in 0..n {
                want = gen::int(&mut cx.r, true);
                *log += &format!(" {want}");
                c.set_volume(want);
                cx.count("edits");
                ensure!(c.volume() == want, "timing point volume {} instead of {want}", c.volume());
                ensure!(c.to_string(v) == Some(want.to_string()), "timing point volume {want} as text");
                ensure!(<i32 as VersionedFrom<tp::Volume>>::from(c, v) == Some(want), "timing point volume {want} as a number");
            }
        }
    }
    Ok(())
}

fn effects(cx: &mut Cx, log: &mut String) -> Res {
    let v = ver(&mut cx.r);
    let mut bits = if cx.r.bool() { cx.r.u64() as u32 } else { cx.r.below(16) as u32 };
    let mut e = if cx.r.bool() {
        <tp::Effects as VersionedFrom<u32>>::from(bits, v).expect("MONITOR: refused")
    } else {
        bits &= 9;
        tp::Effects::new(bits & 1 > 0, bits & 8 > 0)
    };
    for _ in 0..1 + cx.r.below(12) {
        let on = cx.r.bool();
        let k = cx.r.below(5);
        *log += &format!(" {k}{on}");
        match k {
            0 => {
                e.clear_unused_bits();
                bits &= 9;
            }
            1 | 2 => {
                e.set_kiai_time_enabled(on);
                bits = if on { bits | 1 } else { bits & !1 };
            }
            _ => {
                e.set_no_first_barline_in_taiko_mania(on);
                bits = if on { bits | 8 } else { bits & !8 };
            }
        }
        cx.count("edits");
        ensure!(e.kiai_time_enabled() == (bits & 1 > 0), "kiai of {bits:#b}");
        ensure!(e.no_first_barline_in_taiko_mania() == (bits & 8 > 0), "barline of {bits:#b}");
        ensure!(<u32 as VersionedFrom<_>>::from(e, v) == Some(bits), "effects {bits} as a number");
        let t = e.to_string(v);
        ensure!(t == Some(bits.to_string()), "effects {bits} are written as {t:?}");
        let back = tp::Effects::from_str(&t.expect("MONITOR: no text"), v);
        ensure!(matches!(&back, Ok(Some(b)) if *b == e), "effects {bits} are read as {back:?}");
    }
    Ok(())
}

fn path(cx: &mut Cx, log: &mut String) -> Res {
    let v = ver(&mut cx.r);
    let new = |r: &mut Rng| {
        let hostile = r.chance(30);
        let f = gen::file(r, hostile);
        match r.below(6) {
            0 => f.replace('.', " ."),
            1 => format!("dir one\\{f}"),
            _ => f,
        }
    };
    let mut want = new(&mut cx.r);
    let mut f = lib::FilePath::from(want.as_str());
    for _ in 0..cx.r.below(6) {
        *log += &format!(" {want:?}");
        ensure!(f.get() == Path::new(&want) && f.get().to_str() == Some(&want), "path {:?} instead of {want:?}", f.get());
        let quoted = want.len() > 1 && want.starts_with('"') && want.ends_with('"');
        let t = f.to_string(v);
        let text = if want.contains(' ') && !quoted { format!("\"{want}\"") } else { want.clone() };
        if want != "\"" {
            ensure!(t.as_ref() == Some(&text), "path {want:?} is written as {t:?}");
        }
        let s = Sprite::new(f.get());
        ensure!(s.is_ok() != want.starts_with('/'), "a sprite of {want:?} gives {s:?}");
        want = new(&mut cx.r);
        if cx.r.bool() {
            f.set(&want);
        } else {
            f.set(PathBuf::from(&want));
        }
        cx.count("edits");
    }
    Ok(())
}

fn decimal(cx: &mut Cx, log: &mut String) -> Res {
    let make = |r: &mut Rng| {
        let x = gen::dec(r, true);
        (mk::d(&x), x)
    };
    let (mut d, _) = make(&mut cx.r);
    let mut want: Either<rust_decimal::Decimal, String> = d.get().clone();
    for _ in 0..1 + cx.r.below(10) {
        match cx.r.below(6) {
            0 => {
                let (e, _) = make(&mut cx.r);
                want = e.get().clone();
                *d.get_mut() = want.clone();
            }
            1 => {
                let t = gen::num(&mut cx.r, true).text();
                *log += &format!(" from {t:?}");
                d = lib::Decimal::from(t.as_str());
                want = match t.parse() {
                    Ok(x) => Either::Left(x),
                    Err(_) => Either::Right(t.clone()),
                };
                let p = t.parse::<lib::Decimal>();
                ensure!(p.as_ref() == Ok(&d), "parsing {t:?} gives {p:?}, converting it {d:?}");
            }
            2 => {
                let t = gen::num(&mut cx.r, true).text();
                *log += &format!(" text {t:?}");
                d = lib::Decimal::new_from_str(&t);
                want = Either::Right(t);
            }
            3 => {
                let i = gen::int(&mut cx.r, true);
                d = lib::Decimal::from(i);
                want = Either::Left(i.into());
            }
            4 => {
                let x = mk::rd(cx.r.range(-100_000, 100_000) as i128, cx.r.below(5) as u32);
                d = if cx.r.bool() { lib::Decimal::new(x) } else { lib::Decimal::from(x) };
                want = Either::Left(x);
            }
            _ => {
                *log += " make";
                let res = d.try_make_decimal();
                let ok = match &want {
                    Either::Left(_) => true,
                    Either::Right(t) => match t.parse::<rust_decimal::Decimal>() {
                        Ok(x) => {
                            want = Either::Left(x);
                            true
                        }
                        Err(_) => false,
                    },
                };
                ensure!(res.is_ok() == ok, "making {want:?} a number gives {res:?}");
                if !ok {
                    cx.count("refused edits");
                }
            }
        }
        cx.count("edits");
        ensure!(d.get() == &want, "{:?} instead of {want:?}", d.get());
        // equal numbers can be written differently
        if let (Either::Left(a), Either::Left(b)) = (d.get(), &want) {
            ensure!(a.scale() == b.scale(), "{a} instead of {b}");
        }
        let text = match &want {
            Either::Left(x) => x.to_string(),
            Either::Right(t) => t.clone(),
        };
        ensure!(d.to_string() == text, "{want:?} is shown as {d}");
    }
    ensure!(*lib::Decimal::default().get() == Either::Left(0.into()), "the default number isn't 0");
    Ok(())
}

type Pairs = Vec<(i32, Option<i32>)>;

fn pairs(cx: &mut Cx, log: &mut String) -> Res {
    let pair = |r: &mut Rng| {
        let some = r.chance(60);
        (gen::int(r, false), some.then(|| gen::int(r, false)))
    };
    let start = (gen::int(&mut cx.r, false), gen::int(&mut cx.r, false));
    let n = cx.r.below(4);
    let list: Pairs = (0..n).map(|i| { let p = pair(&mut cx.r); if i + 1 < n && cx.r.chance(70) { (p.0, Some(3)) } else { p } }).collect();
    let valid = list.iter().rev().skip(1).all(|p| p.1.is_some());
    *log += &format!("{start:?} {list:?}");
    let f = ContinuingFields::new(start, list.clone());
    ensure!(f.is_ok() == valid, "{list:?} gives {f:?}");
    let (mut want, mut start) = if valid { (list, start) } else { (vec![], start) };
    let mut f = match f {
        Ok(f) => f,
        Err(_) => {
            cx.count("refused edits");
            ContinuingFields::new(start, vec![]).map_err(|e| e.to_string())?
        }
    };
    for _ in 0..1 + cx.r.below(8) {
        let p = pair(&mut cx.r);
        match cx.r.below(5) {
            0 => {
                start = (gen::int(&mut cx.r, false), 5);
                *f.start_values_mut() = start;
            }
            1 | 2 => {
                let mut i = cx.r.below(want.len() + 2);
                if cx.r.chance(8) {
                    // an index that's as good with fewer bits
                    i = i.wrapping_add(*cx.r.pick(&[1 << 8, 1 << 16, 1 << 32, usize::MAX, usize::MAX - 1]));
                }
                *log += &format!(" set {i} {p:?}");
                let before = f.clone();
                let ok = i < want.len() && (p.1.is_some() || i + 1 == want.len());
                let res = f.set_continuing_fields(i, p);
                ensure!(res.is_ok() == ok, "setting {i} of {want:?} to {p:?} gives {res:?}");
                if ok {
                    want[i] = p;
                } else {
                    ensure!(f == before, "a refused edit of {want:?} changed it to {f:?}");
                    cx.count("refused edits");
                    let d = format!("{res:?}");
                    let whole = p.1.is_some();
                    if whole {
                        ensure!(d.contains("IndexOutOfBounds"), "setting {i} of {want:?} to {p:?} gives {res:?}");
                        cx.count("kind of a refusal");
                    } else if i < want.len() {
                        ensure!(d.contains("Invalid"), "setting {i} of {want:?} to {p:?} gives {res:?}");
                        cx.count("kind of a refusal");
                    }
                }
            }
            _ => {
                *log += &format!(" push {p:?}");
                let n = want.len();
                if n > 0 && want[n - 1].1.is_none() {
                    // what was left out is the same as before
                    want[n - 1].1 = Some(if n > 1 { want[n - 2].1.unwrap() } else { start.1 });
                }
                want.push(p);
                f.push_continuing_fields(p);
            }
        }
        cx.count("edits");
        ensure!(f.start_values() == &start, "start {:?} instead of {start:?}", f.start_values());
        ensure!(f.continuing_fields() == want, "{:?} instead of {want:?}", f.continuing_fields());
        let mut text = vec![start.0.to_string(), start.1.to_string()];
        for (a, b) in &want {
            text.push(a.to_string());
            text.extend(b.map(|b| b.to_string()));
        }
        ensure!(f.to_string() == text.join(","), "{f} instead of {text:?}");
    }
    Ok(())
}

fn colours(cx: &mut Cx, log: &mut String) -> Res {
    type G = (u8, Option<u8>, Option<u8>);
    let group = |r: &mut Rng| -> G {
        let g = r.chance(70).then(|| byte(r));
        let b = (g.is_some() && r.chance(70)).then(|| byte(r));
        (byte(r), g, b)
    };
    let mut start = (byte(&mut cx.r), byte(&mut cx.r), byte(&mut cx.r));
    let n = cx.r.below(4);
    let list: Vec<G> = (0..n)
        .map(|i| {
            let mut g = group(&mut cx.r);
            if i + 1 < n && cx.r.chance(70) {
                g = (g.0, Some(7), Some(8));
            } else if cx.r.chance(10) {
                g.2 = Some(9);
            }
            g
        })
        .collect();
    let valid = list.iter().rev().skip(1).all(|p| p.1.is_some() && p.2.is_some())
        && list.iter().all(|p| p.1.is_some() || p.2.is_none());
    *log += &format!("{start:?} {list:?}");
    let f = Colours::new(start, list.clone());
    ensure!(f.is_ok() == valid, "{list:?} gives {f:?}");
    let mut want = if valid { list } else { vec![] };
    let mut f = match f {
        Ok(f) => f,
        Err(_) => {
            cx.count("refused edits");
            Colours::new(start, vec![]).map_err(|e| e.to_string())?
        }
    };
    for _ in 0..1 + cx.r.below(8) {
        let mut p = group(&mut cx.r);
        match cx.r.below(5) {
            0 => {
                start = (byte(&mut cx.r), 2, 3);
                *f.start_rgb_mut() = start;
            }
            1 | 2 => {
                if cx.r.chance(15) {
                    p.2 = Some(1);
                }
                let mut i = cx.r.below(want.len() + 2);
                if cx.r.chance(8) {
                    // an index that's as good with fewer bits
                    i = i.wrapping_add(*cx.r.pick(&[1 << 8, 1 << 16, 1 << 32, usize::MAX, usize::MAX - 1]));
                }
                *log += &format!(" set {i} {p:?}");
                let before = f.clone();
                let full = p.1.is_some() && p.2.is_some();
                let fine = p.1.is_some() || p.2.is_none();
                let ok = i < want.len() && fine && (full || i + 1 == want.len());
                let res = f.set_continuing_rgbs(i, p);
                ensure!(res.is_ok() == ok, "setting {i} of {want:?} to {p:?} gives {res:?}");
                if ok {
                    want[i] = p;
                } else {
                    ensure!(f == before, "a refused edit of {want:?} changed it to {f:?}");
                    cx.count("refused edits");
                    let d = format!("{res:?}");
                    let whole = full;
                    if whole {
                        ensure!(d.contains("IndexOutOfBounds"), "setting {i} of {want:?} to {p:?} gives {res:?}");
                        cx.count("kind of a refusal");
                    } else if i < want.len() {
                        ensure!(d.contains("Invalid"), "setting {i} of {want:?} to {p:?} gives {res:?}");
                        cx.count("kind of a refusal");
                    }
                }
            }
            _ => {
                *log += &format!(" push {p:?}");
                let n = want.len();
                if n > 0 {
                    let before = if n > 1 { (want[n - 2].1.unwrap(), want[n - 2].2.unwrap()) } else { (start.1, start.2) };
                    let l = &mut want[n - 1];
                    l.1 = l.1.or(Some(before.0));
                    l.2 = l.2.or(Some(before.1));
                }
                want.push(p);
                f.push_continuing_rgbs(p);
            }
        }
        cx.count("edits");
        ensure!(f.start_rgb() == &start, "start {:?} instead of {start:?}", f.start_rgb());
        ensure!(f.continuing_fields() == want, "{:?} instead of {want:?}", f.continuing_fields());
        let mut text = vec![start.0.to_string(), start.1.to_string(), start.2.to_string()];
        for (r, g, b) in &want {
            text.push(r.to_string());
            text.extend(g.iter().chain(b).map(|b| b.to_string()));
        }
        ensure!(f.to_string(14) == Some(text.join(",")), "{:?} instead of {text:?}", f.to_string(14));
    }
    Ok(())
}

fn timing_point(cx: &mut Cx, log: &mut String) -> Res {
    let v = 5 + cx.r.below(10) as u8;
    let o = Opt { hostile: false, ..Opt::usual(&mut cx.r) };
    let (mut want, mut t) = loop {
        let w = gen::tp(&mut cx.r, v, &o);
        if let Some(t) = mk::tp(&w) {
            break (w, t);
        }
    };
    want = ext::tp(&t);
    for _ in 0..1 + cx.r.below(8) {
        let k = cx.r.below(7);
        *log += &format!(" {k}");
        let i = gen::int(&mut cx.r, true);
        match k {
            0 => {
                t.set_time(i);
                want.time = crate::model::D::int(i.into());
            }
            1 => {
                t.set_meter(i);
                want.meter = i;
            }
            2 => {
                let i = if cx.r.bool() { cx.r.below(4) as i32 } else { i };
                t.set_sample_set(<tp::SampleSet as VersionedFrom<i32>>::from(i, v).expect("MONITOR: refused"));
                want.set = i;
            }
            3 => {
                let i = i.unsigned_abs();
                *t.sample_index_mut() = <tp::SampleIndex as VersionedFrom<u32>>::from(i, v).expect("MONITOR: refused");
                want.index = i;
            }
            4 => {
                t.set_volume(tp::Volume::new(i, v).expect("MONITOR: refused"));
                want.volume = i;
            }
            5 => {
                let on = cx.r.bool();
                t.set_uninherited(on);
                want.uninh = Some(on);
            }
            _ => {
                let bits = cx.r.u64() as u32;
                *t.effects_mut() = Some(<tp::Effects as VersionedFrom<u32>>::from(bits, v).expect("MONITOR: refused"));
                want.effects = Some(bits);
            }
        }
        cx.count("edits");
        let got = ext::tp(&t);
        ensure!(got == want, "edit {k}: {}", crate::model::diff(&want, &got));
        let line = t.to_string(v).unwrap_or_default();
        let text = crate::render::tp_line(&want, v);
        ensure!(line == text, "written as {line:?} instead of {text:?}");
    }
    Ok(())
}

#[derive(Debug)]
struct Inner(u64);
impl std::fmt::Display for Inner {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "inner {}", self.0)
    }
}
#[derive(Debug)]
struct Outer(u64);
impl From<Inner> for Outer {
    fn from(i: Inner) -> Outer {
        Outer(i.0)
    }
}
impl std::fmt::Display for Outer {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "outer {}", self.0)
    }
}

fn error(cx: &mut Cx, log: &mut String) -> Res {
    let x = cx.r.u64();
    let i = cx.r.below(20);
    let add = cx.r.below(20);
    *log += &format!("{x} {i} {add}");
    let lines: Vec<String> = (0..cx.r.below(30)).map(|n| if n % 3 == 0 { String::new() } else { format!(" line {n}\t") }).collect();
    let nl = if cx.r.bool() { "\r\n" } else { "\n" };
    let text = lines.join(nl);
    let mk = || lib::Error::new(Inner(x), i);
    let e = mk();
    ensure!(e.line_index() == i && e.error().0 == x, "new: {e:?}");
    ensure!(e.to_string() == format!("Line {}, inner {x}", i + 1), "shown as {e}");
    let line = lines.get(i).cloned().unwrap_or_default();
    let shown = e.display_error_with_line(&text);
    ensure!(shown == format!("Line {}: {line}, inner {x}", i + 1), "shown as {shown:?}");
    let f: lib::Error<Outer> = lib::Error::new_into(Inner(x), i);
    ensure!(f.line_index() == i && f.error().0 == x, "new_into: {f:?}");
    let f: lib::Error<Outer> = mk().error_into();
    ensure!(f.line_index() == i && f.error().0 == x, "error_into: {f:?}");
    let f: Result<(), lib::Error<Outer>> = lib::Error::error_result_into(Err(mk()));
    ensure!(matches!(&f, Err(f) if f.line_index() == i && f.error().0 == x), "error_result_into: {f:?}");
    let f: Result<(), lib::Error<Outer>> = lib::Error::processing_line(Err(mk()), add);
    ensure!(matches!(&f, Err(f) if f.line_index() == i + add && f.error().0 == x), "processing_line: {f:?}");
    let f: Result<u64, lib::Error<Outer>> = lib::Error::processing_line(Ok::<_, lib::Error<Inner>>(x), add);
    ensure!(matches!(f, Ok(y) if x == y), "processing_line of a value: {f:?}");
    let f = lib::Error::new_from_result(Err::<(), _>(Inner(x)), i);
    ensure!(matches!(&f, Err(f) if f.line_index() == i && f.error().0 == x), "new_from_result: {f:?}");
    let f: Result<(), lib::Error<Outer>> = lib::Error::new_from_result_into(Err::<(), _>(Inner(x)), i);
    ensure!(matches!(&f, Err(f) if f.line_index() == i && f.error().0 == x), "new_from_result_into: {f:?}");
    let f: lib::Error<Inner> = Inner(x).into();
    ensure!(f.line_index() == 0 && f.error().0 == x, "from: {f:?}");
    cx.count("edits");
    Ok(())
}

fn hit_object(cx: &mut Cx, log: &mut String) -> Res {
    use crate::model::*;
    let k = cx.r.below(3);
    let mut h = match k {
        0 => ho::HitObject::hitcircle_default(),
        1 => ho::HitObject::spinner_default(),
        _ => ho::HitObject::osu_mania_hold_default(),
    };
    let zero = D::int(0);
    let mut want = Ho {
        x: D::int(if k == 2 { 0 } else { 256 }),
        y: D::int(192),
        time: zero.clone(),
        new_combo: false,
        skip: 0,
        sound: 0,
        k: match k {
            0 => HoK::Circle,
            1 => HoK::Spinner { end: zero.clone() },
            _ => HoK::Hold { end: zero },
        },
        sample: None,
        trail: false,
        ..ext::ho(&h)
    };
    // no flags read as the normal sound
    let read = |w: &Ho| Ho { sound: w.sound.max(1), ..w.clone() };
    ensure!(ext::ho(&h) == read(&want), "a default object: {}", diff(&read(&want), &ext::ho(&h)));
    let v = *cx.r.pick(&[12u8, 13, 14]);
    let p = lib::Position::default();
    ensure!((ext::d(&p.x), ext::d(&p.y)) == (D::int(256), D::int(192)), "default position {p:?}");
    for _ in 0..1 + cx.r.below(8) {
        let k = cx.r.below(6);
        *log += &format!(" {k}");
        match k {
            0 => {
                want.time = gen::num(&mut cx.r, false);
                h.time = mk::d(&want.time);
            }
            1 => {
                want.x = gen::num(&mut cx.r, false);
                h.position.x = mk::d(&want.x);
            }
            2 => {
                want.new_combo = cx.r.bool();
                h.new_combo = want.new_combo;
            }
            3 => {
                let x = byte(&mut cx.r);
                let res = h.combo_skip_count.set(x, v);
                ensure!(res.is_ok() == (x <= 7), "combo skip count {x}: {res:?}");
                if x <= 7 {
                    want.skip = x;
                } else {
                    cx.count("refused edits");
                }
            }
            4 => {
                let on = cx.r.bool();
                h.hitsound.set_finish(on);
                want.sound = if on { want.sound | 4 } else { want.sound & !4 };
            }
            _ => {
                let o = Opt { hostile: false, ..Opt::usual(&mut cx.r) };
                let s = Hs { fields: 5, ..gen::hs(&mut cx.r, &o) };
                h.hitsample = Some(mk::hs(&s));
                want.sample = Some(s);
            }
        }
        cx.count("edits");
        let got = ext::ho(&h);
        ensure!(got == read(&want), "edit {k}: {}", diff(&read(&want), &got));
        let line = h.to_string(v).unwrap_or_default();
        let text = crate::render::ho_line(&want, v);
        ensure!(line == text, "written as {line:?} instead of {text:?}");
    }
    Ok(())
}

fn run(cx: &mut Cx) -> Res {
    let mut log = String::new();
    let kinds = [
        "hit sound",
        "combo skip count",
        "hit sample volume",
        "sample volume",
        "timing point volume",
        "effects",
        "file path",
        "decimal",
        "pairs of values",
        "groups of colours",
        "timing point",
        "error",
        "hit object",
    ];
    let k = cx.r.below(kinds.len());
    let res = match k {
        0 => hit_sound(cx, &mut log),
        1..=4 => small(cx, &mut log, k - 1),
        5 => effects(cx, &mut log),
        6 => path(cx, &mut log),
        7 => decimal(cx, &mut log),
        8 => pairs(cx, &mut log),
        9 => colours(cx, &mut log),
        10 => timing_point(cx, &mut log),
        11 => error(cx, &mut log),
        _ => hit_object(cx, &mut log),
    };
    cx.note("type", kinds[k]);
    cx.note("edits", log.as_str());
    res?;
    cx.count("sequences");
    cx.count(kinds[k]);
    cx.eval(&(k, &log), !log.is_empty());
    cx.sample(|| format!("{}: {log}", kinds[k]));
    Ok(())
}
