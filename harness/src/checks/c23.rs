//! No undefined behaviour and no data race, whatever is read, written or edited, on any thread.
//!
//! The workload runs under several monitors at once (see run.sh): natively with debug assertions,
//! under AddressSanitizer, under ThreadSanitizer with an instrumented standard library, and in Miri.
use super::common::*;
use crate::core::*;
use crate::ensure;
use crate::exercise;
use crate::gen;
use crate::render::*;
use crate::share::Share;
use crate::sut;
use lib::VersionedFromStr;
use osu_file_parser as lib;
use std::marker::PhantomData;

pub const C23: Check = Check {
    id: "C23",
    cases: (40_000, 600_000),
    rule: "a workload (a text read, written and taken apart; values and errors shared by and sent between threads; a case of another property's check) run under a monitor: AddressSanitizer, ThreadSanitizer, Miri, or the native build with debug assertions; distinct by monitor and case",
    assumptions: &[
        "the standard library is instrumented for ThreadSanitizer and Miri, and not for AddressSanitizer, whose allocator it uses",
        "Miri sees small texts, and as many cases as fit",
    ],
    need: &[
        ("types checked for Send and Sync", 50),
        ("native: workloads", 1000),
        ("asan: workloads", 1000),
        ("tsan: workloads", 1000),
        ("tsan: values shared by threads", 300),
        ("miri: workloads", 24),
        ("miri: values shared by threads", 1),
    ],
    run,
    known: None,
    exhaustive: false,
};

struct Probe<T: ?Sized>(PhantomData<T>);
trait NotSend {
    const SEND: bool = false;
}
trait NotSync {
    const SYNC: bool = false;
}
impl<T: ?Sized> NotSend for Probe<T> {}
impl<T: ?Sized> NotSync for Probe<T> {}
impl<T: ?Sized + Send> Probe<T> {
    const SEND: bool = true;
}
impl<T: ?Sized + Sync> Probe<T> {
    const SYNC: bool = true;
}

macro_rules! probe {
    ($cx:expr; $($t:ty),+ $(,)?) => {
        $(
            ensure!(<Probe<$t>>::SEND, "{} can't be sent to another thread", stringify!($t));
            ensure!(<Probe<$t>>::SYNC, "{} can't be shared by threads", stringify!($t));
            $cx.count("types checked for Send and Sync");
        )+
    };
}

fn types(cx: &mut Cx) -> Res {
    use lib::events as e;
    use lib::events::storyboard as s;
    use lib::hitobjects as h;
    use lib::timingpoints as t;
    probe!(cx;
        lib::OsuFile, lib::Osb, lib::General, lib::Editor, lib::Metadata, lib::Difficulty, lib::Events,
        lib::TimingPoints, lib::Colours, lib::HitObjects, lib::Decimal, lib::Position, lib::FilePath,
        lib::ParseError, lib::Error<lib::ParseError>, lib::osb::ParseError, lib::Error<lib::osb::ParseError>,
        lib::osb::Variable, lib::osb::ParseVariableError,
        lib::general::Countdown, lib::general::SampleSet, lib::general::Mode, lib::general::OverlayPosition,
        lib::general::ParseError, lib::editor::ParseError, lib::metadata::ParseError, lib::difficulty::ParseError,
        lib::colours::Colour, lib::colours::Rgb, lib::colours::ParseError, lib::colours::ParseColourError,
        lib::colours::ParseRgbError,
        t::TimingPoint, t::SampleSet, t::SampleIndex, t::Volume, t::Effects, t::ParseError,
        h::HitObject, h::HitObjectParams, h::SlideParams, h::HitSample, h::HitSound, h::CurveType, h::CurvePoint, h::EdgeSet,
        h::SampleSet, h::SampleIndex, h::Volume, h::ComboSkipCount, h::ParseError, h::ParseHitObjectError,
        e::Event, e::Background, e::Video, e::Break, e::ColourTransformation, e::SpriteLegacy,
        e::AnimationLegacy, e::SampleLegacy, e::AudioSample, e::ParseError,
        s::sprites::Object, s::sprites::ObjectType, s::sprites::Animation, s::sprites::Sprite, s::sprites::Origin,
        s::sprites::Layer, s::sprites::LoopType,
        s::cmds::Command, s::cmds::CommandProperties, s::cmds::Colours, s::cmds::ContinuingFields<lib::Decimal>,
        s::types::Easing, s::types::TriggerType, s::types::Parameter, s::error::ParseCommandError,
        s::error::CommandPushError, s::error::ParseObjectError,
    );
    Ok(())
}

fn monitor() -> &'static str {
    match std::env::var("VERIF_MONITOR").as_deref() {
        Ok("asan") => "asan",
        Ok("tsan") => "tsan",
        Ok("miri") => "miri",
        _ => "native",
    }
}

/// Lines for a text that isn't too long for Miri.
const PARTS: &[(&str, &[&str])] = &[
    ("General", &["AudioFilename: a b.mp3", "Countdown: 2", "SampleSet: Soft", "StackLeniency: 0.75", "Mode: 3", "OverlayPosition: Above", "LetterboxInBreaks: 1"]),
    ("Editor", &["Bookmarks: 1,2,-3", "DistanceSpacing: 1.25", "BeatDivisor: 4", "TimelineZoom: 2.1"]),
    ("Metadata", &["Title:é : x", "TitleUnicode:東方", "Tags:a  b c", "BeatmapID:7"]),
    ("Difficulty", &["HPDrainRate:4.5", "SliderMultiplier:1.4", "SliderTickRate:2"]),
    ("Events", &["//c", "0,0,\"b g.png\",1,2", "Video,5,v.avi", "2,1,2", "3,1,2,3,4", "6,100,0,a.wav,50\n F,0,0,,1", "Sample,1,2,a.wav,100"]),
    ("Events", &["Sprite,Pass,Centre,\"a.png\",1,2\n F,0,0,1000,1,0.5\n L,0,5\n  M,0,0,,1,2,3,4\n T,HitSoundDrumWhistle2,0,1\n __C,0,1,2,1,2,3,4,5"]),
    ("Events", &["Animation,Fail,TopLeft,a.png,1,2,3,4,LoopOnce\n S,3,0,,1,2,3\n V,0,0,,1,2\n R,0,0,,1\n MX,0,0,,4\n P,0,0,,A", "4,0,1,a.png,1,2\n V,0,0,,1,2", "5,0,1,a.png\n C,0,0,,1,2,3"]),
    ("TimingPoints", &["0,500,4,1,0,100,1,0", "100.5,-50,4,1,0,100,0,9", "100,-5e1"]),
    ("Colours", &["Combo1 : 1,2,3", "SliderBorder : 255,0,9", "SliderTrackOverride:1,1,1"]),
    ("HitObjects", &["256,192,1000,1,0,0:0:0:0:", "1,2,3,6,2,B|1:2|3:4,1,100", "1,2,3,2,0,L|0:1,1,100,2|0,0:0|1:1,1:2:3:4:a.wav"]),
    ("HitObjects", &["1,2,3,12,8,100,0:0:0:50:", "1,2,3,128,0,5:0:0:0:0:", "0.5,-1,2,53,15", "1,2,3,2,0,P|1:2,1,100"]),
];
const OSB_PARTS: &[&str] = &[
    "[Variables]\n$a=100,2\n$b=0.5\n\n[Events]\nSprite,Pass,Centre,a.png,1,2\n F,0,0,,$a,$b\n M,0,$a",
    "[Events]\n//c\nSprite,Pass,3,a.png,1,2\n L,0,5\n  F,0,0,,1",
];

/// a text that isn't too long for Miri
fn text(cx: &mut Cx, osb: bool, small: bool) -> String {
    if !small {
        return any_text(cx, osb).1;
    }
    let r = &mut cx.r;
    let a = if osb {
        (*r.pick(OSB_PARTS)).to_string()
    } else {
        let (name, lines) = *r.pick(PARTS);
        let v = gen::version(r);
        let mut t = format!("{}\n\n[{name}]\n", version_line(v));
        for l in lines {
            if r.chance(60) {
                t += l;
                t.push('\n');
            }
        }
        t
    };
    if r.chance(60) {
        return a;
    }
    crate::mutate::one(r, &a, &a.clone())
}

/// A `String` with bytes that aren't UTF-8 is undefined behaviour in waiting, that no sanitizer sees.
fn valid(what: &str, s: &str) -> Res {
    ensure!(std::str::from_utf8(std::hint::black_box(s.as_bytes())).is_ok(), "{what} gives a string that isn't UTF-8: {:?}", s.as_bytes());
    Ok(())
}

/// the functions that take any two texts
fn compare(cx: &mut Cx, small: bool) -> Res {
    let osb = cx.r.chance(35);
    let mut a = text(cx, osb, small);
    for _ in 0..cx.r.below(3) {
        // a byte order mark, or a character of several bytes, anywhere
        let at: Vec<usize> = a.char_indices().map(|c| c.0).collect();
        if !at.is_empty() {
            let p = *cx.r.pick(&at);
            a.insert_str(p, cx.r.pick(&["\u{feff}", "\u{feff}", "é", "\u{1f3b5}", "\u{3000}", "\u{85}"]));
        }
    }
    let b = if cx.r.chance(50) { text(cx, osb, small) } else { crate::mutate::one(&mut cx.r, &a, &a.clone()) };
    cx.note("text", a.as_str());
    cx.note("second", b.as_str());
    for t in [&a, &b] {
        valid("trimming", &lib::osu_str_trimmer(t))?;
    }
    let _ = lib::osu_str_eq(&a, &b);
    Ok(())
}

fn read(cx: &mut Cx, small: bool) -> Res {
    let osb = cx.r.chance(35);
    let t = text(cx, osb, small);
    cx.note("text", t.as_str());
    if osb {
        match sut::osb(&t) {
            Ok(Some(o)) => {
                valid("writing a storyboard file", &lib::VersionedToString::to_string(&o, 14).unwrap_or_default())?;
                if !small {
                    exercise::osb(&o);
                }
            }
            Ok(None) => (),
            Err(e) => {
                for s in [e.display_error_with_line(&t), e.display_error_with_line(""), e.display_error_with_line("é"), e.to_string()] {
                    valid("showing an error", &s)?;
                }
            }
        }
    } else {
        match sut::parse(&t) {
            Ok(f) => {
                let s = f.to_string();
                valid("writing a file", &s)?;
                if small {
                    let _ = lib::osu_str_eq(&s, &t);
                    let _ = (f.clone() == f, hash_of(&f));
                } else {
                    exercise::file(&f);
                }
            }
            Err(e) => {
                for s in [e.display_error_with_line(&t), e.display_error_with_line("\né"), e.to_string(), format!("{e:?}")] {
                    valid("showing an error", &s)?;
                }
            }
        }
    }
    Ok(())
}

/// Several threads read, look at, write, copy, compare and drop the same values, change copies of their
/// own, and give them back.
fn threads(cx: &mut Cx, small: bool) {
    let t = text(cx, false, small);
    let b = text(cx, true, small);
    cx.note("text", t.as_str());
    cx.note("osb", b.as_str());
    let file = Share::new(sut::parse(&t));
    let osb = Share::new(sut::osb(&b));
    let k = if small { 2 } else { 3 };
    let gate = std::sync::Barrier::new(k);
    let back: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..k)
            .map(|n| {
                let (file, osb, gate, t, b) = (&file, &osb, &gate, &t, &b);
                s.spawn(move || {
                    gate.wait();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let own = match file.get() {
                            Ok(f) => {
                                let mut c = f.clone();
                                let _ = (c == *f, hash_of(f), f.to_string());
                                if n > 0 {
                                    c.version = 14 - n as u8;
                                    c.hitobjects = None;
                                    let _ = c.append_osb(b);
                                }
                                Some(c)
                            }
                            Err(e) => {
                                let _ = (e.to_string(), e.display_error_with_line(t), format!("{:?}", e.error()));
                                None
                            }
                        };
                        match osb.get() {
                            Ok(Some(o)) => {
                                let _ = (lib::VersionedToString::to_string(o, 14), o.clone() == *o);
                            }
                            Ok(None) => (),
                            Err(e) => drop((e.to_string(), e.display_error_with_line(b))),
                        }
                        // and reads its own
                        let again = sut::parse(t);
                        (own, again.ok(), <lib::Osb as VersionedFromStr>::from_str(b, 14).ok())
                    }));
                    Share::new(r.ok())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().ok().map(Share::take)).collect()
    });
    // what came back is used and dropped here
    for (own, again, osb) in back.into_iter().flatten().flatten() {
        let _ = (own.as_ref().map(ToString::to_string), again == own, osb.is_some());
    }
}

/// which of the other checks, whose cases are run
const SMALL: &[&str] = &["C15", "C16", "C12", "C20", "C15", "C22"];
const LARGE: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C16", "C17", "C18",
    "C19", "C20", "C21",
];

fn other(cx: &mut Cx, small: bool) -> &'static str {
    let id = *cx.r.pick(if small { SMALL } else { LARGE });
    let c = super::all().iter().find(|c| c.id == id).expect("a check");
    let mut rec = Rec::default();
    let mut inner = Cx {
        seed: cx.seed,
        case: cx.r.u64() % 1_000_000,
        r: crate::rng::Rng::new(cx.seed, id, cx.r.u64()),
        rec: &mut rec,
        thorough: false,
        notes: Vec::new(),
        listed: cx.listed,
    };
    // that check's verdict is its own
    let _ = guard(|| (c.run)(&mut inner));
    let notes = std::mem::take(&mut inner.notes);
    cx.notes.extend(notes);
    id
}

fn run(cx: &mut Cx) -> Res {
    let m = monitor();
    let small = m == "miri";
    cx.note("monitor", m);
    if cx.case < 16 && !small {
        types(cx)?;
    }
    // Miri's interpreter is slow on the generators the other checks use
    let kind = match cx.r.below(if small { 8 } else { 10 }) {
        0..=3 => {
            let mut res = Ok(());
            // a panic is for other checks to judge
            let _ = guard(|| {
                res = if cx.r.chance(25) { compare(cx, small) } else { read(cx, small) };
                Ok(())
            });
            res?;
            "texts read"
        }
        4..=6 => {
            let _ = guard(|| {
                threads(cx, small);
                Ok(())
            });
            "values shared by threads"
        }
        _ => {
            let id = other(cx, small);
            cx.count(&format!("{m}: cases of {id}"));
            "cases of other checks"
        }
    };
    cx.count(&format!("{m}: {kind}"));
    cx.count(&format!("{m}: workloads"));
    let case = cx.case;
    cx.eval(&(m, case), true);
    cx.sample(|| format!("{m}: {kind}"));
    Ok(())
}
