//! A file with a single fault is rejected, with the error that names it.
use crate::core::*;
use crate::faults;
use crate::gen::{self, Opt};
use crate::render::*;
use crate::sut;
use crate::{ensure, fail};
use osu_file_parser as lib;

pub const C07: Check = Check {
    id: "C07",
    cases: (1_200_000, 12_000_000),
    rule: "an otherwise well-formed file with exactly one fault, at a random place of a random section, of which the rejection and the kind of error were checked; distinct by text",
    assumptions: &[
        "the kind of error is the name of the error as its Debug form shows it",
        "a wrong item of a list field (curve points, edge sounds, edge sets) and a colour component with a fraction aren't claimed to have one kind of error, only to be rejected",
        "additional fields at the end of a line are no fault, the format allows for them",
    ],
    need: &[
        ("section General", 5000),
        ("section Editor", 5000),
        ("section Metadata", 2000),
        ("section Difficulty", 2000),
        ("section Events", 50_000),
        ("section TimingPoints", 20_000),
        ("section Colours", 10_000),
        ("section HitObjects", 40_000),
        ("on its own", 10_000),
        (".osb: ParseVariableError", 2000),
        (".osb: ParseEventsError", 5000),
    ],
    run,
    known: None,
    exhaustive: false,
};


/// The message tells what the kind of error does.
fn message(kind: &str, shown: &str) -> Res {
    let mut words: Vec<String> = Vec::new();
    for c in kind.chars() {
        if c.is_uppercase() || words.is_empty() {
            words.push(String::new());
        }
        words.last_mut().unwrap().extend(c.to_lowercase());
    }
    if words.first().is_some_and(|w| ["unknown", "duplicate"].contains(&w.as_str())) {
        ensure!(shown.to_lowercase().contains(&words[0]), "the message of {kind} is {shown:?}");
    }
    if words.len() < 2 || !["missing", "invalid"].contains(&words[0].as_str()) {
        return Ok(());
    }
    let plain = |s: &str| s.to_lowercase().chars().filter(|c| c.is_alphanumeric()).collect::<String>();
    let m = plain(shown);
    let other = if words[0] == "missing" { "invalid" } else { "missing" };
    // the last word can be another one for the same field
    let field = match kind {
        "InvalidColonSet" | "InvalidKey" | "InvalidIndentation" | "InvalidComboCount" | "InvalidColonSeparator" => return Ok(()),
        "MissingHeader" | "MissingEquals" => String::new(),
        k if k.contains("Continuing") => "continuing".to_string(),
        _ => words[1..].concat(),
    };
    if words[words.len() - 1] == "item" {
        ensure!(m.contains(&words[1]), "the message of {kind} is {shown:?}");
        return Ok(());
    }
    ensure!(m.contains(&words[0]) && !m.contains(other) && m.contains(&field), "the message of {kind} is {shown:?}");
    Ok(())
}

fn in_osb(cx: &mut Cx) -> Res {
    let o = Opt::small(&mut cx.r);
    let mut doc = gen::osb(&mut cx.r, &o);
    let (s, kind, class);
    if cx.r.chance(30) {
        doc.vars.get_or_insert_with(Vec::new);
        let mut all = osb_sections(&doc);
        let i = all.iter().position(|s| s.name == "Variables").expect("MONITOR: no variables");
        let (line, k) = *cx.r.pick(&[("a=b", "MissingHeader"), ("$ab", "MissingEquals"), ("$", "MissingEquals"), ("=", "MissingHeader"), ("x", "MissingHeader"), ("a$=b", "MissingHeader"), ("$a:b", "MissingEquals")]);
        let n = cx.r.below(all[i].lines.len() + 1);
        all[i].lines.insert(n, line.to_string());
        (s, kind, class) = (all, k, "ParseVariableError");
    } else {
        let mut host = crate::model::Doc::empty(14);
        host.events = Some(doc.events.clone().unwrap_or_default());
        let f = loop {
            if let Some(f) = faults::any(&mut cx.r, &host) {
                if f.section == "Events" {
                    break f;
                }
            }
        };
        let (planted, _, _) = faults::plant(&mut cx.r, &host, &f).unwrap();
        let mut all = osb_sections(&doc);
        let i = all.iter().position(|s| s.name == "Events").unwrap_or(all.len());
        all.truncate(i);
        all.push(planted[0].clone());
        (s, kind, class) = (all, f.kind, "ParseEventsError");
    }
    let text = dressed(None, &s, false, &mut cx.r);
    cx.note("osb", text.as_str());
    let mut f = lib::OsuFile::new(14);
    match f.append_osb(&text) {
        Ok(()) => fail!("an .osb with an invalid line ({kind}) is accepted"),
        Err(e) => {
            let d = format!("{:?}", e.error());
            ensure!(faults::names(&d, kind) && d.contains(class), "a wrong line in an .osb gives {d} instead of {kind}");
            message(kind, &e.error().to_string())?;
        }
    }
    cx.count(&format!(".osb: {class}"));
    cx.eval(&text, true);
    Ok(())
}

macro_rules! alone {
    ($t:ty, $s:expr, $v:expr) => {
        match <$t as lib::VersionedFromStr>::from_str($s, $v) {
            Ok(v) => return Err(Fail::Violation(format!("{:?} on its own is accepted as {v:?}", $s))),
            Err(e) => (format!("{e:?}"), e.to_string()),
        }
    };
}

/// A faulty line or value read on its own.
fn parts(cx: &mut Cx) -> Res {
    use lib::{colours, events, hitobjects as ho, timingpoints as tp};
    let v = gen::version(&mut cx.r);
    let (what, text, kind, (d, shown)) = if cx.r.chance(55) {
        let f = match cx.r.below(3) {
            0 => faults::hit_object(&mut cx.r, v),
            1 => faults::timing_point(&mut cx.r, v),
            _ => faults::colour(&mut cx.r),
        };
        let l = f.lines.last().unwrap().clone();
        let got = match f.section {
            "HitObjects" => alone!(ho::HitObject, &l, v),
            "TimingPoints" => alone!(tp::TimingPoint, &l, v),
            "Colours" => alone!(colours::Colour, &l, v),
            s => panic!("MONITOR: a fault in {s}"),
        };
        (f.section, l, f.kind, got)
    } else {
        let n = cx.r.below(12);
        let pick = |r: &mut crate::rng::Rng, of: &[(&'static str, &'static str)]| *r.pick(of);
        let ((text, kind), what) = match n {
            0 => (pick(&mut cx.r, &[("x:0", "InvalidFirstItem"), (":0", "InvalidFirstItem"), ("-1:2", "InvalidFirstItem"), ("0", "MissingSeparator"), ("3|1", "InvalidFirstItem"), ("0:x", "InvalidSecondItem"), ("0:", "InvalidSecondItem"), ("2:-1", "InvalidSecondItem"), ("1:2:3", "InvalidSecondItem")]), "EdgeSet"),
            1 => (pick(&mut cx.r, &[("1", "MissingSeparator"), ("", "MissingSeparator"), ("1;2", "MissingSeparator"), ("-5.5", "MissingSeparator")]), "CurvePoint"),
            2 => (pick(&mut cx.r, &[("x", "InvalidSampleSet"), ("1:x", "InvalidSampleSet"), ("1:2:x", "InvalidIndex"), ("1:2:-3", "InvalidIndex"), ("1:2:3:101", "InvalidVolume"), ("1:2:3:x", "InvalidVolume"), ("1:2:3:256:a", "InvalidVolume"), ("-1:0:0:0:", "InvalidSampleSet"), ("1::2", "InvalidSampleSet"), ("0:0::5:", "InvalidIndex"), ("0:0:0:-1:a.wav", "InvalidVolume")]), "HitSample"),
            3 => (pick(&mut cx.r, &[("101", "VolumeTooHigh"), ("255", "VolumeTooHigh"), ("256", "ParseIntError"), ("x", "ParseIntError"), ("", "ParseIntError"), ("-1", "ParseIntError")]), "Volume"),
            4 => (pick(&mut cx.r, &[("256", "ParseIntError"), ("x", "ParseIntError"), ("", "ParseIntError"), ("-1", "ParseIntError")]), "HitSound"),
            5 => (pick(&mut cx.r, &[("a=b", "MissingHeader"), ("", "MissingHeader"), ("=", "MissingHeader"), (" $a=b", "MissingHeader"), ("$ab", "MissingEquals"), ("$", "MissingEquals")]), "Variable"),
            6 => (pick(&mut cx.r, &[("x", "UnknownTriggerType"), ("passing", "UnknownTriggerType"), ("Passing1", "UnknownTriggerType"), ("", "UnknownTriggerType"), ("HitSoundX", "UnknownHitSoundType"), ("HitSoundAllX", "UnknownHitSoundType"), ("HitSoundWhistleDrum", "UnknownHitSoundType"), ("HitSoundAllDrumNormalWhistle4", "TooManyHitSoundFields"), ("HitSoundAllDrumWhistle4Soft", "TooManyHitSoundFields")]), "TriggerType"),
            7 => (pick(&mut cx.r, &[("X,0,0,,1", "UnknownCommandType"), ("", "UnknownCommandType"), ("F", "MissingEasing"), ("F,x,0,,1", "InvalidEasing"), ("M,0", "MissingStartTime"), ("S,0,x,,1", "InvalidStartTime"), ("R,0,0", "MissingEndTime"), ("L", "MissingStartTime"), ("L,0", "MissingLoopCount"), ("T", "MissingTriggerType"), ("T,Foo,0,1", "InvalidTriggerType"), ("P,0,0,,", "InvalidParameterType"), ("C,0,0,,256,0,0", "InvalidRed"), ("C,0,0,,25,0", "MissingBlue"), ("V,0,0,,1", "MissingScaleY")]), "Command"),
            8 => (pick(&mut cx.r, &[("Foo,Pass,Centre,a,0,0", "UnknownObjectType"), ("Sprite", "MissingLayer"), ("Sprite,Foo,Centre,a,0,0", "InvalidLayer"), ("Sprite,Pass", "MissingOrigin"), ("Sprite,Pass,Foo,a,0,0", "InvalidOrigin"), ("Sprite,Pass,Centre", "MissingFilePath"), ("Sprite,Pass,Centre,a", "MissingPositionX"), ("Sprite,Pass,Centre,a,0", "MissingPositionY"), ("Animation,Pass,Centre,a,0,0", "MissingFrameCount"), ("Animation,Pass,Centre,a,0,0,x,1,LoopOnce", "InvalidFrameCount"), ("Animation,Pass,Centre,a,0,0,1", "MissingFrameDelay"), ("Animation,Pass,Centre,a,0,0,1,1,Foo", "InvalidLoopType")]), "Object"),
            9 => (pick(&mut cx.r, &[("Foo,0,0,a,1", "WrongEvent"), ("Sample", "MissingTime"), ("Sample,x,0,a,1", "InvalidTime"), ("Sample,0", "MissingLayer"), ("Sample,0,9,a,1", "InvalidLayer"), ("Sample,0,0", "MissingFilepath"), ("Sample,0,0,a,101", "InvalidVolume"), ("Sample,0,0,a,x", "InvalidVolume")]), "AudioSample"),
            10 => (pick(&mut cx.r, &[("9,0,1", "WrongEventType"), ("2", "MissingStartTime"), ("2,x,1", "InvalidStartTime"), ("2,0", "MissingEndTime"), ("2,0,x", "InvalidEndTime"), ("Break,0,1.5", "InvalidEndTime")]), "Break"),
            _ => (pick(&mut cx.r, &[("x,0,0", "InvalidRed"), ("256,0,0", "InvalidRed"), ("", "InvalidRed"), ("1", "MissingGreen"), ("1,x,0", "InvalidGreen"), ("1,2", "MissingBlue"), ("1,2,256", "InvalidBlue"), ("1,2,-1", "InvalidBlue"), ("1,2,3,4", "InvalidBlue")]), "Rgb"),
        };
        let got = match n {
            0 => alone!(ho::types::EdgeSet, text, v),
            1 => alone!(ho::types::CurvePoint, text, v),
            2 => alone!(ho::types::HitSample, text, v),
            3 => alone!(ho::types::Volume, text, v),
            4 => alone!(ho::types::HitSound, text, v),
            5 => alone!(lib::osb::Variable, text, v),
            6 => alone!(events::storyboard::types::TriggerType, text, v),
            7 => alone!(events::storyboard::cmds::Command, text, v),
            8 => alone!(events::storyboard::sprites::Object, text, v),
            9 => alone!(events::audio_sample::AudioSample, text, v),
            10 => alone!(events::normal_event::Break, text, v),
            _ => alone!(colours::Rgb, text, v),
        };
        (what, text.to_string(), kind, got)
    };
    cx.note("text", text.as_str());
    ensure!(faults::names(&d, kind), "{what} {text:?} on its own at version {v} gives {d} instead of {kind}");
    message(kind, &shown)?;
    cx.count("on its own");
    cx.count(&format!("{what} on its own"));
    cx.eval(&(what, &text, v), true);
    Ok(())
}

fn run(cx: &mut Cx) -> Res {
    match cx.r.below(10) {
        0 => return parts(cx),
        1 => return in_osb(cx),
        _ => (),
    }
    let v = gen::version(&mut cx.r);
    let mut o = Opt::small(&mut cx.r);
    o.gated = false;
    let doc = gen::doc(&mut cx.r, v, &o);
    let (fault, sects, si, li) = loop {
        let Some(f) = faults::any(&mut cx.r, &doc) else { continue };
        let Some((s, si, li)) = faults::plant(&mut cx.r, &doc, &f) else { continue };
        break (f, s, si, li);
    };
    let _ = (si, li);
    let text = dressed(Some(v), &sects, false, &mut cx.r);
    cx.note("text", text.as_str());
    cx.note("fault", format!("{} in {}: {:?}", fault.kind, fault.section, fault.lines.last()));
    match sut::parse(&text) {
        Ok(_) => fail!("a file with an invalid line ({} in [{}]: {:?}) is accepted", fault.kind, fault.section, fault.lines.last()),
        Err(e) => {
            let d = format!("{:?}", e.error());
            ensure!(
                faults::names(&d, fault.kind) && d.contains(&format!("Parse{}Error", fault.section)),
                "{:?} in [{}] at version {v} gives {d} instead of {}",
                fault.lines.last(), fault.section, fault.kind
            );
            message(fault.kind, &e.error().to_string())?;
        }
    }
    cx.count(&format!("{}: {}", fault.class, fault.kind));
    cx.count(&format!("section {}", fault.section));
    cx.sample(|| format!("{:?} in [{}] at version {v}: {}", fault.lines.last(), fault.section, fault.kind));
    cx.eval(&text, true);
    Ok(())
}
