//! Parsing gives a value or an error, whatever the text.
use super::common::*;
use crate::core::*;
use crate::faults;
use crate::gen::{self, Opt};
use crate::mutate;
use crate::render;
use crate::sut;
use lib::events::storyboard::cmds::Command;
use osu_file_parser as lib;

pub const C01: Check = Check {
    id: "C01",
    cases: (200_000, 6_000_000),
    rule: "a call of a parsing entry point, distinct by its text (and version); every text counts, including those that are rejected",
    assumptions: &[
        "inputs up to some ten kB; versions 3 to 14 for the parts that take a version",
        "the harness is built with overflow checks and debug assertions, so arithmetic overflow is a panic",
        "8 MB of stack, as on a main thread",
    ],
    need: &[
        ("large inputs", 100),
        ("whole file: accepted", 3000),
        ("whole file: rejected", 20_000),
        ("storyboard file: accepted", 1000),
        ("storyboard file: rejected", 3000),
        ("section: accepted", 10_000),
        ("section: rejected", 10_000),
        ("line: accepted", 2000),
        ("line: rejected", 10_000),
        ("comparison", 3000),
        ("a field with every token", 800),
        ("input: noise", 2000),
        ("input: damaged", 20_000),
    ],
    run,
    known: None,
    exhaustive: false,
};

macro_rules! each {
    ($cx:expr, $name:literal, $s:expr, $v:expr; $($t:ty),+) => {
        {$(
            let r = <$t>::from_str($s, $v);
            $cx.count(&format!("{}: {}", $name, is_ok(&r)));
            $cx.eval(&(stringify!($t), $s, $v), true);
        )+}
    };
}

fn section(cx: &mut Cx, name: &str, s: &str, v: u8) {
    match name {
        "General" => each!(cx, "section", s, v; lib::General),
        "Editor" => each!(cx, "section", s, v; lib::Editor),
        "Metadata" => each!(cx, "section", s, v; lib::Metadata),
        "Difficulty" => each!(cx, "section", s, v; lib::Difficulty),
        "Events" => each!(cx, "section", s, v; lib::Events),
        "TimingPoints" => each!(cx, "section", s, v; lib::TimingPoints),
        "Colours" => each!(cx, "section", s, v; lib::Colours),
        "HitObjects" => each!(cx, "section", s, v; lib::HitObjects),
        _ => each!(cx, "section", s, v; lib::General, lib::Editor, lib::Metadata, lib::Difficulty, lib::Events,
            lib::TimingPoints, lib::Colours, lib::HitObjects),
    }
}

/// every type that parses a line or a piece of one
fn pieces(cx: &mut Cx, s: &str, v: u8) {
    use lib::events as e;
    use lib::hitobjects as h;
    each!(cx, "line", s, v; h::HitObject, lib::timingpoints::TimingPoint, lib::colours::Colour, lib::colours::Rgb,
        Command, e::Background, e::Video, e::Break, e::ColourTransformation, e::SpriteLegacy, e::AnimationLegacy,
        e::SampleLegacy, e::AudioSample, e::storyboard::sprites::Object, lib::osb::Variable);
    each!(cx, "piece", s, v; h::HitSample, h::HitSound, h::CurveType, h::CurvePoint, h::EdgeSet, h::SampleSet,
        h::SampleIndex, h::Volume, lib::general::Countdown, lib::general::SampleSet, lib::general::Mode,
        lib::general::OverlayPosition, e::storyboard::types::TriggerType, e::storyboard::types::SampleSet,
        e::storyboard::types::Addition, e::storyboard::types::Parameter,
        e::storyboard::sprites::Layer, e::storyboard::sprites::Origin, e::storyboard::sprites::LoopType,
        lib::timingpoints::SampleSet, lib::timingpoints::Effects, lib::timingpoints::SampleIndex,
        lib::timingpoints::Volume);
    let d = s.parse::<lib::Decimal>();
    cx.count(&format!("piece: {}", is_ok(&d)));
    let _ = lib::Decimal::from(s);
}

fn run(cx: &mut Cx) -> Res {
    if cx.case % 1000 == 7 {
        let (text, osb) = super::c14::huge(cx, cx.case / 1000, 17);
        if osb {
            let r = <lib::Osb as VersionedFromStr>::from_str(&text, 14);
            cx.count(&format!("storyboard file: {}", is_ok(&r)));
        } else {
            let r = sut::parse(&text);
            cx.count(&format!("whole file: {}", is_ok(&r)));
            for (name, body) in bodies(&text) {
                section(cx, &name, &body, 14);
            }
        }
        cx.eval(&text, true);
        return Ok(());
    }
    match cx.r.below(10) {
        0..=4 => {
            let (kind, text) = any_text(cx, false);
            cx.note("text", text.as_str());
            cx.count(&format!("input: {kind}"));
            let r = sut::parse(&text);
            cx.count(&format!("whole file: {}", is_ok(&r)));
            if let Err(e) = &r {
                let d = format!("{:?}", e.error());
                cx.count(&format!("rejected in: {}", section_of(&d)));
            }
            cx.eval(&text, true);
            if let (Ok(mut f), true) = (r, cx.r.chance(30)) {
                let (_, osb) = any_text(cx, true);
                cx.note("osb", osb.as_str());
                let a = f.append_osb(&osb);
                cx.count(&format!("append: {}", is_ok(&a)));
                cx.eval(&(&text, &osb), true);
            }
            let (a, b) = (mutate::noise(&mut cx.r), text);
            let _ = lib::osu_str_eq(&a, &b);
            cx.count("comparison");
        }
        5 | 6 => {
            let (kind, text) = any_text(cx, true);
            cx.note("osb", text.as_str());
            cx.count(&format!("input: {kind}"));
            let v = *cx.r.pick(&[14u8, 14, 14, 13, 3]);
            let r = <lib::Osb as VersionedFromStr>::from_str(&text, v);
            cx.count(&format!("storyboard file: {}", is_ok(&r)));
            cx.eval(&(&text, v), true);
            if let Some((_, body)) = bodies(&text).into_iter().find(|b| b.0 == "Events") {
                let n = cx.r.below(4);
                let vars: Vec<_> = (0..n)
                    .map(|_| lib::osb::Variable {
                        name: (*cx.r.pick(mutate::TOKENS)).to_string(),
                        value: (*cx.r.pick(&["1", "", "x", ",", "$", "0,1"])).to_string(),
                    })
                    .collect();
                let r = lib::Events::from_str_variables(&body, 14, &vars);
                cx.count(&format!("events with variables: {}", is_ok(&r)));
            }
        }
        7 => {
            let (_, text) = any_text(cx, false);
            let v = gen::version(&mut cx.r);
            cx.note("text", text.as_str());
            for (name, body) in bodies(&text) {
                section(cx, &name, &body, v);
                if cx.r.chance(15) {
                    section(cx, "", &body, v);
                }
            }
        }
        8 if cx.r.chance(12) => {
            // every token in one field of a line, at versions with different rules
            let line = *cx.r.pick(mutate::LINES);
            let line = line.trim_start();
            let f = mutate::fields(line);
            let (a, b) = *cx.r.pick(&f);
            for v in [3u8, 4, 5, 14] {
                for t in mutate::TOKENS {
                    let s = format!("{}{t}{}", &line[..a], &line[b..]);
                    cx.note("line", s.as_str());
                    pieces(cx, &s, v);
                    cx.notes.pop();
                }
            }
            cx.count("a field with every token");
        }
        8 => {
            // lines at the edge of being valid
            let v = gen::version(&mut cx.r);
            let doc = { let o = Opt::small(&mut cx.r); gen::doc(&mut cx.r, v, &o) };
            let f = loop {
                if let Some(f) = faults::any(&mut cx.r, &doc) {
                    break f;
                }
            };
            for l in &f.lines {
                let l = mutate::many(&mut cx.r, l, "1,2,3\nabc");
                cx.note("line", l.as_str());
                pieces(cx, l.trim_start_matches([' ', '_']), v);
                pieces(cx, &l, v);
            }
        }
        _ => {
            let v = gen::version(&mut cx.r);
            let o = Opt::usual(&mut cx.r);
            let doc = gen::doc(&mut cx.r, v, &o);
            let lines: Vec<String> = render::sections(&doc).into_iter().flat_map(|s| s.lines).collect();
            for _ in 0..6 {
                let s = if lines.is_empty() || cx.r.chance(10) {
                    mutate::noise(&mut cx.r)
                } else {
                    let l = cx.r.pick(&lines).clone();
                    let o = cx.r.pick(&lines).clone();
                    mutate::many(&mut cx.r, &l, &o)
                };
                cx.note("line", s.as_str());
                pieces(cx, &s, v);
                // a part of a line
                let f: Vec<&str> = s.split([',', ':', '|']).collect();
                let p = (*cx.r.pick(&f)).to_string();
                cx.note("piece", p.as_str());
                pieces(cx, &p, v);
            }
        }
    }
    let s = cx.notes.last().map(|n| n.1.clone()).unwrap_or_default();
    cx.sample(|| s);
    Ok(())
}
