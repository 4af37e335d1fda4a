//! Single faults: a line that isn't valid, where it goes, and the error it has to give.
use crate::gen::{self, Opt};
use crate::model::*;
use crate::render::*;
use crate::rng::Rng;

pub struct Fault {
    /// section the lines go to
    pub section: &'static str,
    /// lines to put in, the last one being the wrong one
    pub lines: Vec<String>,
    /// name of the error
    pub kind: &'static str,
    pub class: &'static str,
    /// key this replaces
    pub key: Option<&'static str>,
    /// has to come after the line with the key
    pub after_key: bool,
}

fn calm() -> Opt {
    Opt {
        max: 4,
        hostile: false,
        spell: false,
        gated: false,
        present: 100,
    }
}

const BAD_INT: &[&str] = &["x", "", "1.5", "2147483648", "-2147483649", "1e3", "0x1", "é", "--1", " 1", "1_000", "\u{663}", "1.", "5-", "+", "-", "1+1", "0b1", "1\u{a0}2", "1 2", "+-1", "\u{ff11}", "1;2", "9999999999999999999999"];
const BAD_UINT: &[&str] = &["x", "", "1.5", "-1", "4294967296", "1e3", "é", "1_0", "\u{663}", "+", "-", "1+1", "0x1", "1 2", "--1", "1.", "1;2"];
const BAD_U8: &[&str] = &["x", "", "1.5", "-1", "256", "1000", "é", "1_0", "\u{663}", "+", "-", "0x1", "1 2", "1.", "1e1", "65536", "4294967297"];
const BAD_TIME: &[&str] = &["x", "1.5", "2147483648", "-2147483649", "1e3", "é", "1 ", "1_000", "\u{663}", "+", "-", "1.", "0x1", "1 2", "--1", "4294967297"];

pub fn with_field(line: &str, i: usize, v: &str) -> String {
    let mut f: Vec<&str> = line.split(',').collect();
    f[i] = v;
    f.join(",")
}

pub fn truncated(line: &str, n: usize) -> String {
    line.split(',').take(n).collect::<Vec<_>>().join(",")
}

fn one(section: &'static str, class: &'static str, line: String, kind: &'static str) -> Fault {
    Fault {
        section,
        lines: vec![line],
        kind,
        class,
        key: None,
        after_key: false,
    }
}

fn plain_ho(r: &mut Rng, v: u8, want: usize) -> String {
    loop {
        let mut h = gen::ho(r, v, &calm());
        h.trail = false;
        h.sample = None;
        let ok = match (&mut h.k, want) {
            (HoK::Circle, 0) => true,
            (HoK::Slider { level, sounds, sets, .. }, 1) => {
                *level = 0;
                sounds.clear();
                sets.clear();
                true
            }
            (HoK::Spinner { .. }, 2) | (HoK::Hold { .. }, 3) => true,
            _ => false,
        };
        if ok {
            return ho_line(&h, v);
        }
    }
}

pub fn hit_object(r: &mut Rng, v: u8) -> Fault {
    let s = "HitObjects";
    let kind = r.below(4);
    let l = plain_ho(r, v, kind);
    match r.below(10) {
        0 => {
            let n = 1 + r.below(4);
            let k = ["MissingY", "MissingTime", "MissingObjType", "MissingHitSound"][n - 1];
            one(s, "hit object fields", truncated(&l, n), k)
        }
        1 => one(s, "hit object type", with_field(&l, 3, r.pick(BAD_INT)), "InvalidObjType"),
        2 => one(
            s,
            "hit object type",
            with_field(&l, 3, r.pick(&["0", "4", "16", "64", "68", "256", "32", "112", "116", "512", "1024", "65536", "-256", "-2147483648"])),
            "UnknownObjType",
        ),
        3 => one(s, "hit sound", with_field(&l, 4, r.pick(BAD_U8)), "InvalidHitSound"),
        4 | 5 => {
            // hit sample
            let bad = *r.pick(&["x", "1:x", "1:2:x", "1:2:3:101", "1:2:3:x", "-1:0", "1:2:-3", "1:2:3:256:a", "1::2", "1.5:0", "1|2", "0:0:0:357:", "0:0:0:1.5:", "1:2:3:-:", "1:\u{663}", "1_0:0", "0:0:x:0:a"]);
            let l = match kind {
                0 => format!("{l},{bad}"),
                1 => format!("{l},,,{bad}"),
                2 => format!("{l},{bad}"),
                _ => format!("{l}{bad}"),
            };
            one(s, "hit sample", l, "InvalidHitSample")
        }
        6 => match kind {
            2 => one(s, "spinner", truncated(&l, 5), "MissingEndTime"),
            3 => one(s, "hold", truncated(&l, 5), "MissingEndTime"),
            1 => one(s, "slider", truncated(&l, 5), "MissingCurveType"),
            _ => one(s, "hit object fields", truncated(&l, 4), "MissingHitSound"),
        },
        _ => {
            let l = plain_ho(r, v, 1);
            match r.below(8) {
                5 => {
                    // one wrong point among good ones
                    let bad = *r.pick(&["x", "1", "", "1 2", "1;2"]);
                    let n = 1 + r.below(3);
                    let i = r.below(n + 1);
                    let mut p = vec!["1:2"; n];
                    p.insert(i, bad);
                    one(s, "slider list", with_field(&l, 5, &format!("B|{}", p.join("|"))), "")
                }
                6 => {
                    let bad = *r.pick(&["x", "", "-1", "256", "1.5", "0:0"]);
                    let n = 1 + r.below(3);
                    let i = r.below(n + 1);
                    let mut p = vec!["2"; n];
                    p.insert(i, bad);
                    let rest = *r.pick(&["", ",0:0", ",0:0,0:0:0:0:", ",,"]);
                    one(s, "slider list", format!("{l},{}{rest}", p.join("|")), "")
                }
                7 => {
                    let bad = *r.pick(&["x", "", "0", "0:", ":0", "x:0", "0:x", "-1:0", "0:0:0", "1.5:0"]);
                    let n = 1 + r.below(3);
                    let i = r.below(n + 1);
                    let mut p = vec!["1:2"; n];
                    p.insert(i, bad);
                    let rest = *r.pick(&["", ",0:0:0:0:"]);
                    one(s, "slider list", format!("{l},2|0,{}{rest}", p.join("|")), "")
                }
                0 => one(s, "slider", truncated(&l, 5), "MissingCurveType"),
                1 => one(
                    s,
                    "slider",
                    with_field(&l, 5, r.pick(&["X|1:2", "", "b|1:2", "Q", "1:2"])),
                    "InvalidCurveType",
                ),
                2 => one(s, "slider", truncated(&l, 6), "MissingSlidesCount"),
                3 => one(s, "slider", with_field(&l, 6, r.pick(BAD_INT)), "InvalidSlidesCount"),
                _ => one(s, "slider", truncated(&l, 7), "MissingLength"),
            }
        }
    }
}

pub fn timing_point(r: &mut Rng, v: u8) -> Fault {
    let s = "TimingPoints";
    let mut t = gen::tp(r, v, &calm());
    if v >= 5 {
        t.uninh = Some(true);
        t.effects = Some(1);
    }
    let l = tp_line(&t, v);
    let c = "timing point";
    if v == 3 {
        return one(s, c, truncated(&l, 1), "MissingBeatLength");
    }
    let max = match v {
        4 => 5,
        5 => 9,
        _ => 10,
    };
    match r.below(max + 2) {
        0 => one(s, c, truncated(&l, 1), "MissingBeatLength"),
        1 => one(s, c, truncated(&l, 2), "MissingMeter"),
        2 => one(s, c, with_field(&l, 2, r.pick(BAD_INT)), "InvalidMeter"),
        3 => one(s, c, truncated(&l, 3), "MissingSampleSet"),
        4 => one(s, c, with_field(&l, 3, r.pick(BAD_INT)), "InvalidSampleSet"),
        5 => one(s, c, truncated(&l, 4), "MissingSampleIndex"),
        6 => one(s, c, with_field(&l, 4, r.pick(BAD_UINT)), "InvalidSampleIndex"),
        7 if v >= 5 => one(s, c, truncated(&l, 5), "MissingVolume"),
        8 if v >= 5 => one(s, c, with_field(&l, 5, r.pick(BAD_INT)), "InvalidVolume"),
        9 if v >= 5 => one(
            s,
            c,
            with_field(&l, 6, r.pick(&["2", "x", "-1", "true", "10"])),
            "InvalidUninherited",
        ),
        10 if v >= 5 => one(s, c, with_field(&l, 7, r.pick(BAD_UINT)), "InvalidEffects"),
        11 if v >= 6 => one(s, c, truncated(&l, 7), "MissingEffects"),
        _ => one(s, c, truncated(&l, 3), "MissingSampleSet"),
    }
}

pub fn colour(r: &mut Rng) -> Fault {
    let s = "Colours";
    let c = "colour";
    let n = *r.pick(&["Combo1", "Combo12", "SliderTrackOverride", "SliderBorder"]);
    let (a, b, d) = (r.below(256), r.below(256), r.below(256));
    let bad = *r.pick(&["x", "", "-1", "256", "1000", "é", "_1", "\u{663}", "-", "65536", ".5", ":2", "65793", "4294967297"]);
    match r.below(9) {
        0 => {
            // only the start tells what it is
            let start = *r.pick(&["Foo", "combo", "xCombo", "_Combo", "ombo", "COMBO", "sliderBorder", "slider", "SLIDERBORDER", "éCombo", "1", "-Combo", "\"Combo", "Slider", "SliderTrack", "Track", "Border"]);
            one(s, c, format!("{start}1 : {a},{b},{d}"), "UnknownColourType")
        }
        1 | 2 => {
            let count = *r.pick(&["x", "", "-1", "+1", "_1", " 1", "\u{661}", "2147483648", "99999999999", "s", "#1", ".5"]);
            one(s, c, format!("Combo{count} : {a},{b},{d}"), "InvalidComboCount")
        }
        3 => {
            let sep = *r.pick(&["", " ", "x : ", " = ", "; ", "-:", ". ", " \u{ff1a} ", "_: ", "s: "]);
            one(s, c, format!("{n}{sep}{a},{b},{d}"), "InvalidColonSeparator")
        }
        4 => one(s, c, format!("{n} : {bad},{b},{d}"), "InvalidRed"),
        5 => one(s, c, format!("{n} : {a}"), "MissingGreen"),
        6 => one(s, c, format!("{n} : {a},{bad},{d}"), "InvalidGreen"),
        7 => one(s, c, format!("{n} : {a},{b}"), "MissingBlue"),
        _ => one(s, c, format!("{n} : {a},{b},{bad}"), "InvalidBlue"),
    }
}

/// A name next to a known one. Neither end is white space, a bracket or part of a comment mark.
pub fn near_name(r: &mut Rng, base: &str) -> String {
    let mut c: Vec<char> = base.chars().collect();
    let i = r.below(c.len());
    match r.below(9) {
        0 => c.insert(0, *r.pick(&['_', 'x', '-', '.', '0', '\'', 'é', '\u{200b}', '+', '#', '*', '$', '@', '"', 'Z'])),
        1 => c.push(*r.pick(&['_', 'x', '-', '.', '0', '\'', 'é', '\u{200b}', '+', '#', '*', '$', '@', '"', 's'])),
        2 => c[i] = if c[i].is_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() },
        3 => drop(c.remove(i)),
        4 => c.insert(i, c[i]),
        5 => c[i] = *r.pick(&['x', 'e', 'é', '_', '0', '\u{430}']),
        6 => c.insert(i.max(1), ' '),
        7 => c = c.iter().chain(&c).copied().collect(),
        _ => c = if r.bool() { base.to_lowercase().chars().collect() } else { base.to_uppercase().chars().collect() },
    }
    c.into_iter().collect()
}

/// `present` are keys the section has already.
pub fn pair(r: &mut Rng, section: usize, v: u8, present: &[&'static str]) -> Option<Fault> {
    let s = KV_NAMES[section];
    let schema = KV_SCHEMAS[section];
    let sep = if section < 2 { ": " } else { ":" };
    match r.below(7) {
        0 => {
            let k = match r.below(4) {
                0 => (*r.pick(&["Foo", "title ", "title", "", "Mode2", "AudioFileName", "ключ", "Bookmark"])).to_string(),
                1 => {
                    let other = KV_SCHEMAS[r.below(4)];
                    r.pick(other).0.to_string()
                }
                _ => {
                    let base = r.pick(schema).0;
                    near_name(r, base)
                },
            };
            if schema.iter().any(|(known, _)| *known == k) {
                return None;
            }
            Some(one(s, "unknown key", format!("{k}{sep}1"), "InvalidKey"))
        }
        1 if !present.is_empty() => {
            let key = *r.pick(present);
            let kind = schema.iter().find(|(k, _)| *k == key)?.1;
            let val = gen::val(r, kind, false);
            let line = kv_line(section, &Kv { key, val });
            Some(Fault {
                key: Some(key),
                after_key: true,
                ..one(s, "duplicate key", line, "DuplicateField")
            })
        }
        2 => {
            let l = match r.below(3) {
                0 => (*r.pick(&["no colon here", "Title", "abc", "1,2,3", "//comment"])).to_string(),
                1 => {
                    let base = r.pick(schema).0;
                    near_name(r, base)
                },
                _ => r.pick(schema).0.to_string(),
            };
            Some(one(s, "no colon", l, "InvalidColonSet"))
        }
        _ => {
            let (key, kind) = *r.pick(schema);
            let (bad, err): (&[&str], &'static str) = match kind {
                Kind::Int => (BAD_INT, "ParseIntError"),
                Kind::Bool => (&["2", "x", "", "true", "-1", "1.0", "10", "TRUE", "yes", "256", "257", "4294967297", "1 0", "\u{661}"], "ParseZeroOneBoolError"),
                Kind::Countdown if v >= 5 => (&["4", "x", "", "-1", "Normal", "1.0", "10", "256", "257", "4294967297", "half"], "ParseCountdownSpeedError"),
                Kind::SampleSet if v >= 4 => (&["normal", "4", "x", "", "Loud", "SOFT", "Nor mal", "Softs", "Drums", "Norma", "\"Soft\""], "ParseSampleSetError"),
                Kind::Mode => (&["4", "x", "", "-1", "osu", "1.0", "10", "256", "257", "4294967297", "mania"], "ParseGameModeError"),
                Kind::Overlay if v >= 14 => (&["below", "1", "", "x", "ABOVE", "No Change", "nochange", "Belows", "Bel ow", "0"], "ParseOverlayPositionError"),
                Kind::Ints => (&["x", "1,x", "1.5", "1,2,2147483648", "1;2", "1 2,3", "1,-", "1_0", "1,1e3", "1,2,x,4", "1|2", "-2147483649,1"], "ParseIntError"),
                _ => return None,
            };
            let bad = *r.pick(bad);
            // leading whitespace of a value isn't part of it
            if bad == " 1" {
                return None;
            }
            Some(Fault {
                key: Some(key),
                ..one(s, "value of a key", format!("{key}{sep}{bad}"), err)
            })
        }
    }
}

fn calm_event(r: &mut Rng, want: &str) -> Ev {
    loop {
        let mut e = gen::event(r, &calm());
        if e.k.name() != want {
            continue;
        }
        if let Some(f) = e.k.file_mut() {
            *f = "a.png".to_string();
        }
        if let EvK::Video { long, .. } | EvK::Break { long, .. } = &mut e.k {
            *long = r.bool();
        }
        e.cmds.clear();
        return e;
    }
}

const NAMES: &[&str] = &[
    "background",
    "video",
    "break",
    "colour transformation",
    "legacy sprite",
    "legacy animation",
    "legacy sample",
    "sprite",
    "animation",
    "audio sample",
];

pub fn event(r: &mut Rng, v: u8) -> Fault {
    let s = "Events";
    let name = *r.pick(NAMES);
    let mut e = calm_event(r, name);
    // positions and volumes always there
    match &mut e.k {
        EvK::Background { pos, .. }
        | EvK::Video { pos, .. }
        | EvK::SpriteLegacy { pos, .. }
        | EvK::AnimationLegacy { pos, .. } => *pos = Some((D::int(1), D::int(2))),
        EvK::SampleLegacy { vol, .. } => *vol = Some(7),
        EvK::Audio { omit_vol, .. } => *omit_vol = false,
        EvK::Animation { omit_loop, .. } => *omit_loop = false,
        _ => (),
    }
    let l = event_head(&e.k, v);
    let time = *r.pick(BAD_TIME);
    let u8s = *r.pick(BAD_U8);
    let vol = *r.pick(&["101", "x", "-1", "256", "1.5", "", "200", "1e1", "100.0", "357", "\u{663}", "1_0", "+", "-"]);
    let layer = *r.pick(&["5", "6", "x", "-1", "Pass", "", "256", "1.0", "\u{661}", "-", "4294967296", "65537"]);
    let layer_bad = if name.starts_with("legacy") && layer == "5" { "6" } else { layer };
    let origin = *r.pick(&["10", "x", "-1", "Centre", "", "256", "1.0", "\u{661}", "-", "4294967296"]);
    let cases: Vec<(String, &'static str)> = match name {
        "background" | "video" => vec![
            (truncated(&l, 1), "MissingStartTime"),
            (with_field(&l, 1, time), "InvalidStartTime"),
            (truncated(&l, 2), "MissingFileName"),
            (truncated(&l, 4), "MissingY"),
        ],
        "break" => vec![
            (truncated(&l, 1), "MissingStartTime"),
            (with_field(&l, 1, time), "InvalidStartTime"),
            (truncated(&l, 2), "MissingEndTime"),
            (with_field(&l, 2, time), "InvalidEndTime"),
        ],
        "colour transformation" => vec![
            (truncated(&l, 1), "MissingStartTime"),
            (with_field(&l, 1, time), "InvalidStartTime"),
            (truncated(&l, 2), "MissingRed"),
            (with_field(&l, 2, u8s), "InvalidRed"),
            (truncated(&l, 3), "MissingGreen"),
            (with_field(&l, 3, u8s), "InvalidGreen"),
            (truncated(&l, 4), "MissingBlue"),
            (with_field(&l, 4, u8s), "InvalidBlue"),
        ],
        "legacy sprite" | "legacy animation" => vec![
            (truncated(&l, 1), "MissingLayer"),
            (with_field(&l, 1, layer_bad), "InvalidLayer"),
            (truncated(&l, 2), "MissingOrigin"),
            (with_field(&l, 2, origin), "InvalidOrigin"),
            (truncated(&l, 3), "MissingFileName"),
            (truncated(&l, 5), "MissingY"),
        ],
        "legacy sample" => vec![
            (truncated(&l, 1), "MissingTime"),
            (truncated(&l, 2), "MissingLayer"),
            (with_field(&l, 2, layer_bad), "InvalidLayer"),
            (truncated(&l, 3), "MissingFileName"),
            (with_field(&l, 4, vol), "InvalidVolume"),
        ],
        "sprite" | "animation" => {
            let mut c = vec![
                (truncated(&l, 1), "MissingLayer"),
                (with_field(&l, 1, r.pick(&["0", "x", "", "pass", "Back"])), "InvalidLayer"),
                (truncated(&l, 2), "MissingOrigin"),
                (with_field(&l, 2, r.pick(&["x", "", "centre", "1.5", "Center"])), "InvalidOrigin"),
                (truncated(&l, 3), "MissingFilePath"),
                (truncated(&l, 4), "MissingPositionX"),
                (truncated(&l, 5), "MissingPositionY"),
            ];
            if name == "animation" {
                c.extend([
                    (truncated(&l, 6), "MissingFrameCount"),
                    (with_field(&l, 6, r.pick(BAD_UINT)), "InvalidFrameCount"),
                    (truncated(&l, 7), "MissingFrameDelay"),
                    (with_field(&l, 7, r.pick(&["x", "", "1e5", "1.2.3"])), "InvalidFrameDelay"),
                    (
                        with_field(&l, 8, r.pick(&["x", "Loop", "loopOnce", "1", "LoopTwice"])),
                        "InvalidLoopType",
                    ),
                ]);
            }
            c
        }
        _ => vec![
            (truncated(&l, 1), "MissingTime"),
            (with_field(&l, 1, time), "InvalidTime"),
            (truncated(&l, 2), "MissingLayer"),
            (with_field(&l, 2, r.pick(&["4", "x", "-1", "Pass", "", "256", "1.0", "-", "65537"])), "InvalidLayer"),
            (truncated(&l, 3), "MissingFilepath"),
            (with_field(&l, 4, vol), "InvalidVolume"),
        ],
    };
    let (line, kind) = r.pick(&cases).clone();
    one(s, "event", line, kind)
}

/// A wrong command, with an object that it's in.
pub fn command(r: &mut Rng, v: u8) -> Fault {
    let s = "Events";
    let host = loop {
        let mut e = gen::event(r, &calm());
        if e.k.takes_cmds() {
            e.cmds = gen::cmds(r, &calm());
            break e;
        }
    };
    let mut lines = event_lines(&host, v);
    let op = *r.pick(&["F", "MX", "MY", "S", "R", "M", "V", "C", "P"]);
    let t = r.range(0, 99_999);
    let e = r.range(0, 34);
    let val = r.range(0, 255);
    let bi = *r.pick(&["x", "1.5", "2147483648", "é", "-"]);
    let first = match op {
        "MX" => "MissingMoveX",
        "MY" => "MissingMoveY",
        _ => "",
    };
    let mut cases: Vec<(String, &'static str)> = vec![
        (format!("X,{e},{t},{t},{val}"), "UnknownCommandType"),
        (format!("Q,{e},{t},{t},{val}"), "UnknownCommandType"),
        (
            format!(
                "{},{e},{t},{t},{val}",
                r.pick(&["f", "mx", "my", "l", "t", "p", "XM", "YM", "é", "1", "-F", "-L", "\"F\"", "0", "Z", "XF", ".T", "A", "#F"])
            ),
            "UnknownCommandType",
        ),
        (
            op.to_string(),
            if op == "M" { "UnknownCommandType" } else { "MissingEasing" },
        ),
        (format!("{op},{bi},{t},{t},{val}"), "InvalidEasing"),
        (format!("{op},{e}"), "MissingStartTime"),
        (format!("{op},{e},{bi},{t},{val}"), "InvalidStartTime"),
        (format!("{op},{e},{t}"), "MissingEndTime"),
        (format!("{op},{e},{t},{bi},{val}"), "InvalidEndTime"),
        (format!("L,{t}"), "MissingLoopCount"),
        (format!("L,{t},{}", r.pick(&["x", "-1", "1.5", "4294967296", ""])), "InvalidLoopCount"),
        (format!("L,{bi},5"), "InvalidStartTime"),
        ("T".to_string(), "MissingTriggerType"),
        (
            format!("T,{},{t}", r.pick(&["x", "Hit", "HitSoundx", "passing", "HitSoundAllx"])),
            "InvalidTriggerType",
        ),
        (format!("T,Passing,{bi}"), "InvalidStartTime"),
        (format!("T,Failing,{t},{bi}"), "InvalidEndTime"),
        (format!("T,HitSoundClap,{t},{t},{bi}"), "InvalidGroupNumber"),
    ];
    match op {
        "C" => {
            let b = *r.pick(BAD_U8);
            cases.extend([
                (format!("C,{e},{t},{t}"), "MissingRed"),
                (format!("C,{e},{t},{t},{b},1,2"), "InvalidRed"),
                (format!("C,{e},{t},{t},{val}"), "MissingGreen"),
                (format!("C,{e},{t},{t},{val},{b},1"), "InvalidGreen"),
                (format!("C,{e},{t},{t},{val},2"), "MissingBlue"),
                (format!("C,{e},{t},{t},{val},2,{b}"), "InvalidBlue"),
                (format!("C,{e},{t},{t},1,2,3,4,5,6,x"), "InvalidContinuingColours"),
                (format!("C,{e},{t},{t},1,2,3,256"), "InvalidContinuingColours"),
            ]);
        }
        "P" => cases.extend([
            (format!("P,{e},{t},{t}"), "MissingParameterType"),
            (format!("P,{e},{t},{t},{}", r.pick(&["x", "h", "", "B"])), "InvalidParameterType"),
            (format!("P,{e},{t},{t},H,x"), "InvalidContinuingParameters"),
        ]),
        "M" => cases.extend([
            (format!("M,{e},{t},{t}"), "MissingMoveX"),
            (format!("M,{e},{t},{t},{val}"), "MissingMoveY"),
        ]),
        "V" => cases.extend([
            (format!("V,{e},{t},{t}"), "MissingScaleX"),
            (format!("V,{e},{t},{t},{val}"), "MissingScaleY"),
        ]),
        "F" => cases.push((format!("F,{e},{t},{t}"), "MissingStartOpacity")),
        "S" => cases.push((format!("S,{e},{t},{t}"), "MissingStartScale")),
        "R" => cases.push((format!("R,{e},{t},{t}"), "MissingStartRotation")),
        _ => cases.push((format!("{op},{e},{t},{t}"), first)),
    }
    let (c, kind) = r.pick(&cases).clone();
    lines.push(format!(" {c}"));
    Fault {
        lines,
        ..one(s, "command", String::new(), kind)
    }
}

/// A command where none can be, or nested under something that can't have commands.
pub fn placement(r: &mut Rng, v: u8) -> Fault {
    let s = "Events";
    let host = loop {
        let e = gen::event(r, &calm());
        if r.chance(40) != e.k.takes_cmds() {
            break e;
        }
    };
    let mut host = host;
    host.cmds.clear();
    let mut lines = event_lines(&host, v);
    if !host.k.takes_cmds() {
        lines.push(" F,0,1,2,0.5".to_string());
        return Fault {
            lines,
            ..one(s, "command without an object", String::new(), "StoryboardCmdWithNoSprite")
        };
    }
    match r.below(3) {
        0 => lines.push("  F,0,1,2,0.5".to_string()),
        1 => {
            lines.push(" F,0,1,2,0.5".to_string());
            lines.push("  F,0,1,2,0.5".to_string());
        }
        _ => {
            lines.push(" L,0,5".to_string());
            lines.push("   F,0,1,2,0.5".to_string());
        }
    }
    Fault {
        lines,
        ..one(s, "indentation", String::new(), "InvalidIndentation")
    }
}

pub fn unknown_event(r: &mut Rng) -> Fault {
    let l = *r.pick(&[
        "Foo,1,2,3",
        "7,1,2,3",
        "10,1,2",
        "-1,1,2",
        "sprite,Pass,Centre,a.png,1,2",
        "Videos,1,a.avi",
        "x",
        "Breaks,1,2",
        "22,1,2",
        "xSprite,Pass,Centre,a.png,1,2",
        "prite,Pass,Centre,a.png,1,2",
        "-Sprite,Pass,Centre,a.png,1,2",
        "animation,Pass,Centre,a.png,1,2,3,4",
        "sample,1,0,a.wav",
        "xSample,1,0,a.wav",
        "video,1,a.avi",
        "break,1,2",
        "xVideo,1,a.avi",
        "BREAK,1,2",
        "9,1,2,3",
        "Background,0,a.png",
        "Breakfast,1,2",
        "Break 1,2",
        "Videotape,1,a.avi",
        "0 0,a.png",
        "00,0,a.png",
        "3x,1,2,3",
        "4:0,1,a.png,1,2",
        "5.0,1,2",
        "55,1,2",
        "66,1,2",
        "éSprite,Pass,Centre,a.png,1,2",
        "+1,1,a.avi",
        ".0,0,a.png",
        "/0,0,a.png",
        "x0,0,a.png",
        "\"0\",0,a.png",
    ]);
    one("Events", "unknown event", l.to_string(), "UnknownEventType")
}

/// A fault and the place it goes to in `doc`; `None` when the draw doesn't fit.
pub fn any(r: &mut Rng, doc: &Doc) -> Option<Fault> {
    let v = doc.v;
    match r.below(14) {
        0..=2 => Some(hit_object(r, v)),
        3 | 4 => Some(timing_point(r, v)),
        5 if v >= 5 => Some(colour(r)),
        6..=8 => {
            let s = r.below(4);
            let present: Vec<_> = doc.kv[s].iter().flatten().map(|k| k.key).collect();
            pair(r, s, v, &present)
        }
        9 | 10 => Some(event(r, v)),
        11 | 12 => Some(command(r, v)),
        13 => Some(if r.bool() { placement(r, v) } else { unknown_event(r) }),
        _ => None,
    }
}

/// Puts the fault into the sections of `doc`; gives the sections, and section and index of the bad line.
pub fn plant(r: &mut Rng, doc: &Doc, f: &Fault) -> Option<(Vec<Sect>, usize, usize)> {
    let mut sects = sections(doc);
    let si = match sects.iter().position(|s| s.name == f.section) {
        Some(i) => i,
        None => {
            let kv = KV_NAMES.contains(&f.section);
            let i = r.below(sects.len() + 1);
            sects.insert(
                i,
                Sect {
                    name: f.section.to_string(),
                    kv,
                    lines: vec![],
                },
            );
            i
        }
    };
    let s = &mut sects[si];
    let mut at = r.below(s.lines.len() + 1);
    if let Some(key) = f.key {
        let is_key = |l: &String| l.split(':').next().is_some_and(|k| k.trim() == key);
        let pos = s.lines.iter().position(is_key);
        if f.after_key {
            let p = pos?;
            at = p + 1 + r.below(s.lines.len() - p);
        } else if let Some(p) = pos {
            s.lines.remove(p);
            at = at.min(s.lines.len());
        }
    }
    if f.section == "Events" {
        // not between an object and its commands
        while at < s.lines.len() && s.lines[at].starts_with([' ', '_']) {
            at += 1;
        }
    }
    let n = f.lines.len();
    for (i, l) in f.lines.iter().enumerate() {
        s.lines.insert(at + i, l.clone());
    }
    Some((sects, si, at + n - 1))
}

/// `kind` as a whole word of the error's debug text
pub fn names(debug: &str, kind: &str) -> bool {
    if kind.is_empty() {
        // any error of the section
        return true;
    }
    debug.match_indices(kind).any(|(i, _)| {
        let before = debug[..i].chars().next_back();
        let after = debug[i + kind.len()..].chars().next();
        let word = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_');
        !word(before) && !word(after)
    })
}
