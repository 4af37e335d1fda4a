//! Codes and names of enumerations.
use super::common::*;
use crate::core::*;
use crate::gen;
use crate::rng::Rng;
use crate::{ensure, fail};
use lib::events::audio_sample as au;
use lib::events::normal_event as ne;
use lib::events::storyboard::cmds as lc;
use lib::events::storyboard::sprites as ls;
use lib::events::storyboard::types as lt;
use lib::{general as ge, hitobjects as ho, timingpoints as tp};
use lib::{Integer, VersionedFrom, VersionedFromRepr, VersionedTryFrom};
use osu_file_parser as lib;
use either::Either;
use std::fmt::Debug;
use std::num::{NonZeroU32, NonZeroUsize};

pub const C22: Check = Check {
    id: "C22",
    cases: (1_600_000, 60_000_000),
    rule: "one table of codes or names at one version: all its entries in both directions, and 6 texts that are nearly in it; distinct by table, version and text, the tables and versions are covered completely",
    assumptions: &[
        "codes with a plus sign or zeros in front may be refused, or read as the number they are",
        "a name is only equal to itself, letter by letter",
    ],
    need: &[
        ("entry", 500_000),
        ("entry of a field the version doesn't have", 20_000),
        ("refused text", 400_000),
        ("catch-all code", 50_000),
        ("in a file", 100_000),
        ("other spelling of a number", 10_000),
        ("number made into a value", 200_000),
    ],
    run,
    known: None,
    exhaustive: false,
};

const TABLES: usize = 25;

/// A text that is close to one of the names.
fn near(r: &mut Rng, names: &[String]) -> String {
    let n = r.pick(names).clone();
    let c: Vec<char> = n.chars().collect();
    match r.below(16) {
        0 => n.to_lowercase(),
        1 => n.to_uppercase(),
        2 => c[..c.len() - 1].iter().collect(),
        3 => format!("{n}{}", *r.pick(&["s", "1", " ", "\t", "0", ",", ":", "\u{0}", "\u{a0}", "|", "e0", ".0", "."])),
        4 => format!("{}{n}", *r.pick(&[" ", "\t", "-", "+", "0", "00", "a", "1", "\"", "\u{feff}", "0x", "."])),
        5 => String::new(),
        6 => r.range(-3, 400).to_string(),
        7 => (*r.pick(&["2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "255", "256", "65536", "1e0", "NaN", "-0", "+1", "٣", "１"]))
            .to_string(),
        8 => {
            let o = r.pick(names);
            format!("{n}{o}")
        }
        9 => c.iter().rev().collect(),
        10 => (*r.pick(&[
            "Normal", "Soft", "Drum", "None", "All", "Whistle", "Finish", "Clap", "Background", "Fail", "Pass", "Foreground", "Overlay", "Video", "Above", "Below", "NoChange", "TopLeft",
            "Center", "Centre", "LoopOnce", "LoopForever", "Passing", "Failing", "HitSound", "B", "C", "L", "P", "H", "V", "A", "S", "Catmull", "Taiko", "true", "false", "NoCountdown",
            "Half", "Double", "Osu", "TopCenter", "CenterLeft", "BottomCentre", "Custom",
        ]))
        .to_string(),
        11 => gen::word(r, true),
        12 => {
            let i = r.below(c.len());
            let mut c = c;
            c[i] = if c[i].is_ascii_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() };
            c.into_iter().collect()
        }
        13 => r.u64().to_string(),
        _ => n,
    }
}

enum Num {
    Plain(i128),
    /// the number in an unusual form
    Odd(i128),
    No,
}
fn num(s: &str) -> Num {
    let d = s.strip_prefix(['+', '-']).unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return Num::No;
    }
    let Ok(n) = s.parse::<i128>() else { return Num::No };
    if n.to_string() == s {
        Num::Plain(n)
    } else {
        Num::Odd(n)
    }
}

struct T<'a, X> {
    name: &'a str,
    entries: &'a [(X, &'a str)],
    /// what the version makes of an entry
    exists: &'a dyn Fn(&X) -> bool,
    /// other texts that are accepted
    other: &'a dyn Fn(i128) -> Option<X>,
    codes: bool,
}

fn table<X, E: Debug>(cx: &mut Cx, v: u8, t: &T<X>, read: &dyn Fn(&str) -> Result<Option<X>, E>, write: &dyn Fn(&X) -> Option<String>, write_gated: bool) -> Res
where
    X: PartialEq + Debug,
{
    cx.note("table", t.name);
    let names: Vec<String> = t.entries.iter().map(|(_, n)| (*n).to_string()).collect();
    for (x, n) in t.entries {
        let got = read(n);
        let here = (t.exists)(x);
        match &got {
            Ok(Some(g)) if here => ensure!(g == x, "{}: {n:?} is read as {g:?} instead of {x:?} at version {v}", t.name),
            Ok(None) if !here => cx.count("entry of a field the version doesn't have"),
            _ => fail!("{}: {n:?} gives {got:?} at version {v}", t.name),
        }
        let w = write(x);
        let want = (here || !write_gated).then(|| (*n).to_string());
        ensure!(w == want, "{}: {x:?} is written as {w:?} instead of {want:?} at version {v}", t.name);
        cx.count("entry");
    }
    if !t.entries.iter().all(|(x, _)| (t.exists)(x)) {
        return Ok(());
    }
    for _ in 0..6 {
        let s = near(&mut cx.r, &names);
        if names.contains(&s) {
            continue;
        }
        let got = read(&s);
        let (want, odd) = match num(&s) {
            Num::Plain(n) => ((t.other)(n), false),
            Num::Odd(n) => {
                let e = t.entries.iter().position(|(_, m)| t.codes && n.to_string() == *m);
                if let (Some(e), Ok(Some(g))) = (e, &got) {
                    ensure!(*g == t.entries[e].0, "{}: {s:?} is read as {g:?} at version {v}", t.name);
                    cx.count("other spelling of a number");
                    continue;
                }
                if e.is_some() && got.is_err() {
                    continue;
                }
                ((t.other)(n), true)
            }
            Num::No => (None, false),
        };
        match (&got, &want) {
            (Err(_), None) => cx.count("refused text"),
            (Err(_), Some(_)) if odd => (),
            (Ok(Some(g)), Some(w)) => {
                ensure!(g == w, "{}: {s:?} is read as {g:?} instead of {w:?} at version {v}", t.name);
                if !odd {
                    let w = write(g);
                    ensure!(w.as_deref() == Some(&s), "{}: {g:?} is written as {w:?} instead of {s:?} at version {v}", t.name);
                    cx.count("catch-all code");
                }
            }
            _ => fail!("{}: {s:?} gives {got:?} instead of {want:?} at version {v}", t.name),
        }
        cx.eval(&(t.name, v, &s), true);
    }
    cx.eval(&(t.name, v), true);
    Ok(())
}

fn none<X>(_: i128) -> Option<X> {
    None
}

/// The table's names in their place in a line.
fn in_line<X: PartialEq + Debug>(cx: &mut Cx, name: &str, line: &str, got: Option<X>, want: &X) -> Res {
    ensure!(got.as_ref() == Some(want), "{name}: {line:?} has {got:?} instead of {want:?}");
    cx.count("in a file");
    Ok(())
}

fn event(line: &str, v: u8) -> Option<lib::events::Event> {
    lib::events::Events::from_str(line, v).ok()??.0.pop()
}

const ORIGINS: [(ls::OriginType, &str); 10] = [
    (ls::OriginType::TopLeft, "TopLeft"),
    (ls::OriginType::Centre, "Centre"),
    (ls::OriginType::CentreLeft, "CentreLeft"),
    (ls::OriginType::TopRight, "TopRight"),
    (ls::OriginType::BottomCentre, "BottomCentre"),
    (ls::OriginType::TopCentre, "TopCentre"),
    (ls::OriginType::Custom, "Custom"),
    (ls::OriginType::CentreRight, "CentreRight"),
    (ls::OriginType::BottomLeft, "BottomLeft"),
    (ls::OriginType::BottomRight, "BottomRight"),
];

const EASINGS: [lt::Easing; 35] = {
    use lt::Easing::*;
    [
        Linear,
        EasingOut,
        EasingIn,
        QuadIn,
        QuadOut,
        QuadInOut,
        CubicIn,
        CubicOut,
        CubicInOut,
        QuartIn,
        QuartOut,
        QuartInOut,
        QuintIn,
        QuintOut,
        QuintInOut,
        SineIn,
        SineOut,
        SineInOut,
        ExpoIn,
        ExpoOut,
        ExpoInOut,
        CircIn,
        CircOut,
        CircInOut,
        ElasticIn,
        ElasticOut,
        ElasticHalfOut,
        ElasticQuarterOut,
        ElasticInOut,
        BackIn,
        BackOut,
        BackInOut,
        BounceIn,
        BounceOut,
        BounceInOut,
    ]
};

fn run(cx: &mut Cx) -> Res {
    let v = 3 + (cx.case % 12) as u8;
    let which = (cx.case / 12) as usize % TABLES;
    cx.note("version", v.to_string());
    fn yes<X>(_: &X) -> bool {
        true
    }
    match which {
        0 => {
            use ge::Countdown as X;
            let e = [(X::NoCountdown, "0"), (X::Normal, "1"), (X::Half, "2"), (X::Double, "3")];
            let t = T { name: "countdown", entries: &e, exists: &|_| v > 4, other: &none, codes: true };
            table(cx, v, &t, &|s| X::from_str(s, v), &|x| x.to_string(v), true)?;
            for n in (0..300).chain([usize::MAX, 1 << 32]) {
                let got = X::from_repr(n, v);
                let want = e.get(n).map(|e| e.0);
                let ok = match &got {
                    Ok(None) => v <= 4,
                    Ok(g) => v > 4 && *g == want,
                    Err(_) => v > 4 && want.is_none(),
                };
                ensure!(ok, "countdown {n} gives {got:?} at version {v}");
            }
        }
        1 => {
            use ge::SampleSet as X;
            let e = [(X::Normal, "Normal"), (X::Soft, "Soft"), (X::Drum, "Drum"), (X::None, "None")];
            let t = T { name: "default sample set", entries: &e, exists: &|_| v > 3, other: &none, codes: false };
            table(cx, v, &t, &|s| X::from_str(s, v), &|x| x.to_string(v), true)?;
            for (x, n) in &e {
                let l = format!("SampleSet: {n}");
                let g = lib::General::from_str(&l, v).ok().flatten().map(|g| g.sample_set);
                in_line(cx, "default sample set", &l, g, &(v > 3).then_some(*x))?;
            }
        }
        2 => {
            use ge::Mode as X;
            let e = [(X::Osu, "0"), (X::Taiko, "1"), (X::Catch, "2"), (X::Mania, "3")];
            let since = |x: &X| match x {
                X::Osu => 3,
                X::Taiko => 5,
                X::Catch => 7,
                _ => 10,
            };
            let t = T { name: "mode", entries: &e, exists: &|x| v >= since(x), other: &none, codes: true };
            table(cx, v, &t, &|s| X::from_str(s, v), &|x| x.to_string(v), false)?;
            for (x, n) in &e {
                let l = format!("Mode: {n}");
                let g = lib::General::from_str(&l, v).ok().flatten().map(|g| g.mode);
                in_line(cx, "mode", &l, g, &(v >= since(x)).then_some(*x))?;
            }
        }
        3 => {
            use ge::OverlayPosition as X;
            let e = [(X::NoChange, "NoChange"), (X::Below, "Below"), (X::Above, "Above")];
            let t = T { name: "overlay position", entries: &e, exists: &|_| v > 13, other: &none, codes: false };
            table(cx, v, &t, &|s| X::from_str(s, v), &|x| x.to_string(v), true)?;
        }
        4 | 5 => {
            use ne::types::OriginTypeLegacy as X;
            let e = [
                (X::TopLeft, "0"),
                (X::Centre, "1"),
                (X::CentreLeft, "2"),
                (X::TopRight, "3"),
                (X::BottomCentre, "4"),
                (X::TopCentre, "5"),
                (X::Custom, "6"),
                (X::CentreRight, "7"),
                (X::BottomLeft, "8"),
                (X::BottomRight, "9"),
            ];
            if which == 4 {
                let t = T { name: "old origin", entries: &e, exists: &yes, other: &none, codes: true };
                table(cx, v, &t, &|s| X::from_str(s, v), &|x| x.to_string(v), false)?;
                for n in (0..300).chain([usize::MAX, 1 << 32]) {
                    let (got, want) = (X::from_repr(n, v).ok().flatten(), e.get(n).map(|e| e.0));
                    ensure!(got == want, "old origin {n} is {got:?} instead of {want:?}");
                    if let Some(x) = got {
                        ensure!(<usize as VersionedFrom<X>>::from(x, v) == Some(n), "old origin {x:?} isn't {n}");
                    }
                }
            } else {
                for (x, n) in &e {
                    let l = format!("4,0,{n},a.png,0,0");
                    let g = match event(&l, v) {
                        Some(lib::events::Event::SpriteLegacy(s)) => Some(s.origin),
                        _ => None,
                    };
                    in_line(cx, "old origin", &l, g, x)?;
                    let l = format!("5,0,{n},a.png,0,0");
                    let g = match event(&l, v) {
                        Some(lib::events::Event::AnimationLegacy(s)) => Some(s.origin),
                        _ => None,
                    };
                    in_line(cx, "old origin", &l, g, x)?;
                }
            }
        }
        6 | 7 => {
            use ne::types::LayerLegacy as X;
            let e = [(X::Background, "0"), (X::Fail, "1"), (X::Pass, "2"), (X::Foreground, "3"), (X::Overlay, "4"), (X::Video, "5")];
            if which == 6 {
                let t = T { name: "old layer", entries: &e, exists: &yes, other: &none, codes: true };
                table(cx, v, &t, &|s| X::from_str(s, v), &|x| x.to_string(v), false)?;
                for n in (0..300).chain([usize::MAX, 1 << 32]) {
                    let (got, want) = (X::from_repr(n, v).ok().flatten(), e.get(n).map(|e| e.0));
                    ensure!(got == want, "old layer {n} is {got:?} instead of {want:?}");
                    if let Some(x) = got {
                        ensure!(<usize as VersionedFrom<X>>::from(x, v) == Some(n), "old layer {x:?} isn't {n}");
                    }
                }
            } else {
                for (x, n) in &e {
                    let l = format!("4,{n},1,a.png,0,0");
                    let g = match event(&l, v) {
                        Some(lib::events::Event::SpriteLegacy(s)) => Some(s.layer),
                        _ => None,
                    };
                    in_line(cx, "old layer", &l, g, x)?;
                    let l = format!("6,10,{n},a.wav,50");
                    let g = match event(&l, v) {
                        Some(lib::events::Event::SampleLegacy(s)) => Some(s.layer),
                        _ => None,
                    };
                    in_line(cx, "old layer", &l, g, x)?;
                }
            }
        }
        8 => {
            use au::Layer as X;
            let e = [(X::Background, "0"), (X::Fail, "1"), (X::Pass, "2"), (X::Foreground, "3")];
            let line = |n: &str| format!("Sample,10,{n},a.wav,50");
            let sample = |s: &str| match event(&line(s), v) {
                Some(lib::events::Event::AudioSample(s)) => Ok(Some(s.layer)),
                e => Err(e),
            };
            let write = |x: &X| {
                let a = au::AudioSample { time: 10, layer: *x, filepath: "a.wav".into(), volume: au::Volume::new(50, v).expect("MONITOR: refused") };
                a.to_string(v).map(|s| s.split(',').nth(2).unwrap_or("").to_string())
            };
            // what would change the line around it isn't a name
            let read = |s: &str| if s.contains([',', '\n', '\r']) { Err(None) } else { sample(s) };
            let t = T { name: "sample layer", entries: &e, exists: &yes, other: &none, codes: true };
            table(cx, v, &t, &read, &write, false)?;
            for n in (0..300).chain([usize::MAX, 1 << 32]) {
                let (got, want) = (X::from_repr(n, v).ok().flatten(), e.get(n).map(|e| e.0));
                ensure!(got == want, "sample layer {n} is {got:?} instead of {want:?}");
            }
        }
        9 => {
            use ls::Layer as X;
            let e = [(X::Background, "Background"), (X::Fail, "Fail"), (X::Pass, "Pass"), (X::Foreground, "Foreground"), (X::Overlay, "Overlay")];
            let t = T { name: "storyboard layer", entries: &e, exists: &yes, other: &none, codes: false };
            table(cx, v, &t, &|s| X::from_str(s, v), &|x| x.to_string(v), false)?;
            for (x, n) in &e {
                let l = format!("Sprite,{n},Centre,a.png,0,0");
                let g = match event(&l, v) {
                    Some(lib::events::Event::StoryboardObject(s)) => Some(s.layer),
                    _ => None,
                };
                in_line(cx, "storyboard layer", &l, g, x)?;
            }
        }
        10 => {
            use ls::Origin as X;
            let e: Vec<(X, &str)> = ORIGINS.iter().map(|(o, n)| (X { type_: Either::Left(*o), shorthand: false }, *n)).collect();
            let other = |n: i128| {
                let n = Integer::try_from(n).ok()?;
                Some(match ORIGINS.get(usize::try_from(n).unwrap_or(99)) {
                    Some((o, _)) => X { type_: Either::Left(*o), shorthand: true },
                    None => X { type_: Either::Right(n), shorthand: true },
                })
            };
            let t = T { name: "storyboard origin", entries: &e, exists: &yes, other: &other, codes: false };
            table(cx, v, &t, &|s| X::from_str(s, v), &|x| x.to_string(v), false)?;
            for (x, n) in &e {
                let l = format!("Sprite,Pass,{n},a.png,0,0");
                let g = match event(&l, v) {
                    Some(lib::events::Event::StoryboardObject(s)) => Some(s.origin),
                    _ => None,
                };
                in_line(cx, "storyboard origin", &l, g, x)?;
            }
            for n in (-300..300).chain([i32::MAX, i32::MIN]) {
                let got = <ls::OriginType as VersionedTryFrom<Integer>>::try_from(n, v).ok().flatten();
                let want = ORIGINS.get(usize::try_from(n).unwrap_or(99)).map(|o| o.0);
                ensure!(got == want, "storyboard origin {n} is {got:?} instead of {want:?}");
                if got.is_none() {
                    for shorthand in [true, false] {
                        let x = X { type_: Either::Right(n), shorthand };
                        ensure!(x.to_string(v) == Some(n.to_string()), "storyboard origin {n} is written as {:?}", x.to_string(v));
                    }
                }
                if let Some(x) = got {
                    ensure!(<Integer as VersionedFrom<ls::OriginType>>::from(x, v) == Some(n), "storyboard origin {x:?} isn't {n}");
                    let short: X = x.into();
                    ensure!(short.to_string(v) == Some(n.to_string()), "storyboard origin {x:?} is written as {:?}", short.to_string(v));
                    ensure!(X::from_str(&n.to_string(), v).ok().flatten() == Some(short), "storyboard origin {n} in short isn't {short:?}");
                }
            }
        }
        11 => {
            use ls::LoopType as X;
            let e = [(X::LoopForever, "LoopForever"), (X::LoopOnce, "LoopOnce")];
            let t = T { name: "loop type", entries: &e, exists: &yes, other: &none, codes: false };
            table(cx, v, &t, &|s| X::from_str(s, v), &|x| x.to_string(v), false)?;
            for (x, n) in &e {
                let l = format!("Animation,Pass,Centre,a.png,0,0,4,10,{n}");
                let g = match event(&l, v) {
                    Some(lib::events::Event::StoryboardObject(ls::Object { object_type: ls::ObjectType::Animation(a), .. })) => Some(a.loop_type),
                    _ => None,
                };
                in_line(cx, "loop type", &l, g, x)?;
            }
        }
        12 => {
            use lt::SampleSet as X;
            let e = [(X::All, "All"), (X::Normal, "Normal"), (X::Soft, "Soft"), (X::Drum, "Drum")];
            let t = T { name: "trigger sample set", entries: &e, exists: &yes, other: &none, codes: false };
            table(cx, v, &t, &|s| X::from_str(s, v), &|x| x.to_string(v), false)?;
        }
        13 => {
            use lt::Addition as X;
            let e = [(X::Whistle, "Whistle"), (X::Finish, "Finish"), (X::Clap, "Clap")];
            let t = T { name: "trigger addition", entries: &e, exists: &yes, other: &none, codes: false };
            table(cx, v, &t, &|s| X::from_str(s, v), &|x| x.to_string(v), false)?;
        }
        14 => {
            use lt::Parameter as X;
            let e = [(X::ImageFlipHorizontal, "H"), (X::ImageFlipVertical, "V"), (X::UseAdditiveColourBlending, "A")];
            let t = T { name: "parameter", entries: &e, exists: &yes, other: &none, codes: false };
            table(cx, v, &t, &|s| X::from_str(s, v), &|x| x.to_string(v), false)?;
            for (x, n) in &e {
                let l = format!("P,0,10,20,{n}");
                let c = lc::Command::from_str(&l, v).ok().flatten();
                let g = match &c {
                    Some(lc::Command { properties: lc::CommandProperties::Parameter { parameter, .. }, .. }) => Some(*parameter),
                    _ => None,
                };
                in_line(cx, "parameter", &l, g, x)?;
                let w = c.and_then(|c| c.to_string(v));
                ensure!(w.as_deref() == Some(&l), "{l:?} is written as {w:?}");
            }
        }
        15 => {
            use lt::Easing as X;
            let of = |n: Integer| EASINGS.get(usize::try_from(n).unwrap_or(99)).copied().unwrap_or(X::Other(n));
            for n in (-40..300).chain([i32::MAX, i32::MIN]) {
                let (want, got) = (of(n), <X as VersionedFrom<Integer>>::from(n, v));
                ensure!(got == Some(want), "easing {n} is {got:?} instead of {want:?}");
                ensure!(<Integer as VersionedFrom<X>>::from(want, v) == Some(n), "easing {want:?} isn't {n}");
                ensure!(want.to_string(v) == Some(n.to_string()), "easing {want:?} is written as {:?}", want.to_string(v));
                if n < 60 {
                    cx.count(if (0..35).contains(&n) { "entry" } else { "catch-all code" });
                    let l = format!("F,{n},10,20,0,1");
                    let g = match lc::Command::from_str(&l, v).ok().flatten() {
                        Some(lc::Command { properties: lc::CommandProperties::Fade { easing, .. }, .. }) => Some(easing),
                        _ => None,
                    };
                    in_line(cx, "easing", &l, g, &want)?;
                }
            }
        }
        16 => {
            use ho::CurveType as X;
            let e = [(X::Bezier, "B"), (X::Centripetal, "C"), (X::Linear, "L"), (X::PerfectCircle, "P")];
            let t = T { name: "curve type", entries: &e, exists: &yes, other: &none, codes: false };
            table(cx, v, &t, &|s| X::from_str(s, v), &|x| x.to_string(v), false)?;
            for (x, n) in &e {
                let l = format!("1,2,3,2,0,{n}|4:5|6:7|8:9,1,100");
                let g = match ho::HitObject::from_str(&l, v).ok().flatten().map(|o| o.obj_params) {
                    Some(ho::HitObjectParams::Slider(s)) => Some(s.curve_type),
                    _ => None,
                };
                in_line(cx, "curve type", &l, g, x)?;
            }
        }
        17 => {
            use ho::SampleSet as X;
            let e = [(X::NoCustomSampleSet, "0"), (X::NormalSet, "1"), (X::SoftSet, "2"), (X::DrumSet, "3")];
            let other = |n: i128| usize::try_from(n).ok().map(X::Other);
            let t = T { name: "hit sample set", entries: &e, exists: &yes, other: &other, codes: true };
            table(cx, v, &t, &|s| X::from_str(s, v), &|x| x.to_string(v), false)?;
            for (x, n) in &e {
                let l = format!("{n}:{n}");
                let g = ho::EdgeSet::from_str(&l, v).ok().flatten().map(|e| (e.normal_set, e.addition_set));
                in_line(cx, "hit sample set", &l, g, &(*x, *x))?;
            }
        }
        18 => {
            use ho::SampleIndex as X;
            let e = [(X::TimingPointSampleIndex, "0")];
            let other = |n: i128| usize::try_from(n).ok().and_then(NonZeroUsize::new).map(X::Index);
            let t = T { name: "hit sample index", entries: &e, exists: &yes, other: &other, codes: true };
            table(cx, v, &t, &|s| X::from_str(s, v), &|x| x.to_string(v), false)?;
            for n in [0, 1, 2, 7, usize::MAX] {
                let x = <X as VersionedFrom<usize>>::from(n, v);
                ensure!(x.and_then(|x| <usize as VersionedFrom<X>>::from(x, v)) == Some(n), "hit sample index {n} is {x:?}");
            }
        }
        19 => {
            use tp::SampleSet as X;
            let e = [(X::BeatmapDefault, "0"), (X::Normal, "1"), (X::Soft, "2"), (X::Drum, "3")];
            let other = |n: i128| Integer::try_from(n).ok().map(X::Other);
            let t = T { name: "timing point sample set", entries: &e, exists: &yes, other: &other, codes: true };
            table(cx, v, &t, &|s| X::from_str(s, v), &|x| x.to_string(v), false)?;
            for (i, (x, n)) in e.iter().enumerate() {
                ensure!(<Integer as VersionedFrom<X>>::from(*x, v) == Some(i as i32), "timing point sample set {x:?} isn't {i}");
                let l = match v {
                    3 => continue,
                    4 => format!("10,500,4,{n},1"),
                    _ => format!("10,500,4,{n},1,50,1,0"),
                };
                let g = tp::TimingPoint::from_str(&l, v).ok().flatten().map(|t| t.sample_set());
                in_line(cx, "timing point sample set", &l, g, x)?;
            }
        }
        20 => {
            use tp::SampleIndex as X;
            let e = [(X::OsuDefaultHitsounds, "0")];
            let other = |n: i128| u32::try_from(n).ok().and_then(NonZeroU32::new).map(X::Index);
            let t = T { name: "timing point sample index", entries: &e, exists: &yes, other: &other, codes: true };
            table(cx, v, &t, &|s| X::from_str(s, v), &|x| x.to_string(v), false)?;
        }
        21 => {
            // hit sounds are four flags in one code
            for n in 0..=255u8 {
                let want = ho::HitSound::new(n & 1 != 0, n & 2 != 0, n & 4 != 0, n & 8 != 0);
                let got = (<ho::HitSound as VersionedFrom<u8>>::from(n, v), ho::HitSound::from_str(&n.to_string(), v).ok().flatten());
                ensure!(got == (Some(want), Some(want)), "hit sound {n} is {got:?} instead of {want:?}");
                ensure!(want.to_string(v) == Some((n & 15).to_string()), "hit sound {want:?} is written as {:?}", want.to_string(v));
                let flags = (want.normal(), want.whistle(), want.finish(), want.clap());
                ensure!(flags == (n & 1 != 0 || n & 15 == 0, n & 2 != 0, n & 4 != 0, n & 8 != 0), "hit sound {n} has flags {flags:?}");
                cx.count("entry");
            }
            for s in ["256", "-1", "", "a", "1.0", " 1", "1 ", "4294967296"] {
                ensure!(ho::HitSound::from_str(s, v).is_err(), "hit sound {s:?} is accepted");
                cx.count("refused text");
            }
        }
        22 => {
            // the kind of an object, its combo flags and its combo skip are one code
            for n in 0..=255u8 {
                let kinds = [n & 1 != 0, n & 2 != 0, n & 8 != 0, n & 128 != 0];
                if kinds.iter().filter(|k| **k).count() != 1 {
                    continue;
                }
                let (l, k) = match kinds.iter().position(|k| *k).unwrap() {
                    0 => (format!("1,2,3,{n},0{}", if v == 3 { "," } else { "" }), 0),
                    1 => (format!("1,2,3,{n},0,B|4:5|6:7,1,100"), 1),
                    2 => (format!("1,2,3,{n},0,400"), 2),
                    _ => (format!("1,2,3,{n},0,400:0:0:0:0:"), 3),
                };
                let o = match ho::HitObject::from_str(&l, v) {
                    Ok(Some(o)) => o,
                    e => fail!("{l:?} gives {e:?} at version {v}"),
                };
                let kind = match &o.obj_params {
                    ho::HitObjectParams::HitCircle => 0,
                    ho::HitObjectParams::Slider(_) => 1,
                    ho::HitObjectParams::Spinner { .. } => 2,
                    ho::HitObjectParams::OsuManiaHold { .. } => 3,
                    _ => 9,
                };
                in_line(cx, "object type", &l, Some((kind, o.new_combo, o.combo_skip_count.get())), &(k, n & 4 != 0, n >> 4 & 7))?;
                let w = o.to_string(v).unwrap_or_default();
                ensure!(w.split(',').nth(3) == Some(&n.to_string()), "object type {n} is written in {w:?} at version {v}");
            }
        }
        24 => {
            // numbers made into values and back: the number is what's written and read
            let full = [0i64, 1, 2, 3, 4, 7, 8, 15, 16, 50, 99, 100, 101, 127, 128, 255, 256, 65_535, 65_536, i32::MAX as i64, i32::MAX as i64 + 1, u32::MAX as i64, -1, -100, i32::MIN as i64];
            let more: Vec<i64> = (0..16).map(|i| if i < 4 { cx.r.range(-300, 300) } else { cx.r.range(i32::MIN as i64, u32::MAX as i64) }).collect();
            for n in full.into_iter().chain(more) {
                let text = n.to_string();
                if let Ok(n) = i32::try_from(n) {
                    let x = <tp::Volume as VersionedFrom<i32>>::from(n, v);
                    let back = x.map(|x| (<i32 as VersionedFrom<tp::Volume>>::from(x, v), x.volume(), x.to_string(v), tp::Volume::new(n, v) == Some(x), tp::Volume::from_str(&text, v).ok().flatten() == Some(x)));
                    ensure!(back == Some((Some(n), n, Some(text.clone()), true, true)), "timing point volume {n} is {x:?} and back {back:?}");
                    let x = <tp::SampleSet as VersionedFrom<i32>>::from(n, v);
                    let back = x.map(|x| (<i32 as VersionedFrom<tp::SampleSet>>::from(x, v), x.to_string(v), tp::SampleSet::from_str(&text, v).ok().flatten() == Some(x)));
                    ensure!(back == Some((Some(n), Some(text.clone()), true)), "timing point sample set {n} is {x:?} and back {back:?}");
                    let d = lib::Decimal::from(n);
                    ensure!(std::string::ToString::to_string(&d) == text && d == lib::Decimal::from(text.as_str()), "decimal {n} is {d:?}");
                    cx.count("number made into a value");
                }
                if let Ok(n) = u32::try_from(n) {
                    let x = <tp::SampleIndex as VersionedFrom<u32>>::from(n, v);
                    let back = x.map(|x| (<i32 as VersionedFrom<tp::SampleIndex>>::from(x, v), x.to_string(v), tp::SampleIndex::from_str(&text, v).ok().flatten() == Some(x)));
                    ensure!(back == Some((i32::try_from(n).ok(), Some(text.clone()), true)), "timing point sample index {n} is {x:?} and back {back:?}");
                    let x = <tp::Effects as VersionedFrom<u32>>::from(n, v);
                    let back = x.map(|x| (<u32 as VersionedFrom<tp::Effects>>::from(x, v), x.to_string(v), tp::Effects::from_str(&text, v).ok().flatten() == Some(x)));
                    ensure!(back == Some((Some(n), Some(text.clone()), true)), "effects {n} are {x:?} and back {back:?}");
                    cx.count("number made into a value");
                }
                if let Ok(n) = usize::try_from(n) {
                    let x = ho::SampleSet::from_str(&text, v).ok().flatten();
                    let back = x.map(|x| (<usize as VersionedFrom<ho::SampleSet>>::from(x, v), x.to_string(v)));
                    ensure!(back == Some((Some(n), Some(text.clone()))), "hit sample set {n} is {x:?} and back {back:?}");
                    let x = <ho::SampleIndex as VersionedFrom<usize>>::from(n, v);
                    let back = x.map(|x| (<usize as VersionedFrom<ho::SampleIndex>>::from(x, v), x.to_string(v), ho::SampleIndex::from_str(&text, v).ok().flatten() == Some(x)));
                    ensure!(back == Some((Some(n), Some(text.clone()), true)), "hit sample index {n} is {x:?} and back {back:?}");
                    cx.count("number made into a value");
                }
                let Ok(n) = u8::try_from(n) else { continue };
                let x = <ho::ComboSkipCount as VersionedTryFrom<u8>>::try_from(n, v);
                ensure!(x.is_ok() == (n < 8), "combo skip {n} is {x:?}");
                if let Ok(x) = x {
                    let back = x.and_then(|x| <u8 as VersionedFrom<ho::ComboSkipCount>>::from(x, v));
                    ensure!(back == Some(n), "combo skip {n} is {x:?} and back {back:?}");
                }
                let x = <au::Volume as VersionedTryFrom<u8>>::try_from(n, v);
                ensure!(x.is_ok() == (n <= 100), "storyboard volume {n} is {x:?}");
                if let Ok(Some(x)) = x {
                    let back = (<u8 as VersionedFrom<au::Volume>>::from(x, v), x.get(), x.to_string(v), au::Volume::from_str(&text, v).ok().flatten() == Some(x));
                    ensure!(back == (Some(n), n, Some(text.clone()), true), "storyboard volume {n} is {x:?} and back {back:?}");
                }
                let x = ho::Volume::new(if n == 0 { None } else { Some(n) });
                ensure!(x.is_ok() == (n <= 100), "hit sample volume {n} is {x:?}");
                let read = ho::Volume::from_str(&text, v);
                ensure!(x.as_ref().ok() == read.as_ref().ok().and_then(|x| x.as_ref()), "hit sample volume {n} is {x:?}, and read as {read:?}");
                if let Ok(x) = x {
                    let back = (<i32 as VersionedFrom<ho::Volume>>::from(x, v), x.volume(), x.use_timing_point_volume());
                    ensure!(back == (Some(n as i32), Some(n).filter(|n| *n > 0), n == 0), "hit sample volume {n} is {x:?} and back {back:?}");
                }
                cx.count("number made into a value");
            }
        }
        _ => {
            // the whole of a trigger's name
            use lt::TriggerType as X;
            let set = [None, Some((lt::SampleSet::All, "All")), Some((lt::SampleSet::Normal, "Normal")), Some((lt::SampleSet::Soft, "Soft")), Some((lt::SampleSet::Drum, "Drum"))];
            let add = [None, Some((lt::Addition::Whistle, "Whistle")), Some((lt::Addition::Finish, "Finish")), Some((lt::Addition::Clap, "Clap"))];
            let mut all = vec![(X::Passing, "Passing".to_string()), (X::Failing, "Failing".to_string())];
            let i = *cx.r.pick(&[0, 1, 7, 10, 99, 123_456, usize::MAX]);
            for a in set {
                for b in set {
                    if a.is_none() && b.is_some() {
                        continue;
                    }
                    for c in add {
                        for d in [None, Some(i)] {
                            let s = format!("HitSound{}{}{}{}", a.map_or("", |a| a.1), b.map_or("", |b| b.1), c.map_or("", |c| c.1), d.map_or(String::new(), |d| d.to_string()));
                            let x = X::HitSound { sample_set: a.map(|a| a.0), additions_sample_set: b.map(|b| b.0), addition: c.map(|c| c.0), custom_sample_set: d };
                            all.push((x, s));
                        }
                    }
                }
            }
            for (x, s) in &all {
                let got = X::from_str(s, v).ok().flatten();
                ensure!(got == Some(*x), "trigger {s:?} is {got:?} instead of {x:?}");
                ensure!(x.to_string(v).as_deref() == Some(s), "trigger {x:?} is written as {:?} instead of {s:?}", x.to_string(v));
                cx.count("entry");
            }
            for s in ["", "Pass", "passing", "PassingFailing", "Hitsound", "HitSoundWhistleNormal", "HitSoundClap1Soft", "HitSound1Clap", "HitSoundSoftSoftSoft", "HitSoundClapClap", "HitSoundX", "HitSoundnormal", "HitSoundNormal ", "HitSound-1", "HitSound1a"] {
                let r = X::from_str(s, v);
                if s != s.trim() {
                    continue;
                }
                ensure!(r.is_err(), "trigger {s:?} is accepted as {r:?}");
                cx.count("refused text");
            }
            cx.eval(&("trigger", v, i), true);
        }
    }
    cx.eval(&("table", which, v), true);
    cx.sample(|| format!("table {which} at version {v}"));
    Ok(())
}
