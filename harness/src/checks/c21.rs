//! Defaults, and what stands for a field that isn't there.
use super::common::*;
use crate::core::*;
use crate::{ensure, fail};
use lib::events::{self as ev, storyboard::sprites as ls, Event};
use lib::{colours, general as ge, hitobjects as ho, metadata as me, timingpoints as tp, VersionedDefault};
use osu_file_parser as lib;
use rust_decimal::Decimal;
use std::fmt::Debug;
use std::path::PathBuf;

pub const C21: Check = Check {
    id: "C21",
    cases: (700_000, 10_000_000),
    rule: "the defaults of all types at one version, their text and what it's read as, or a line that leaves out optional fields; distinct by version and line, all versions and all types are covered",
    assumptions: &["a field the format gives no default for is absent in the value"],
    need: &[("default", 200_000), ("no default, the version lacks the field", 15_000), ("default read back", 150_000), ("empty value", 10_000), ("field left out", 100_000), ("plain object", 30_000)],
    run,
    known: None,
    exhaustive: false,
};

/// A default, its text, and that the text is it again. `want` is the value and the text.
fn one<T>(cx: &mut Cx, name: &str, v: u8, want: Option<(T, &str)>) -> Res
where
    T: VersionedDefault + VersionedFromStr + VersionedToString + PartialEq + Debug,
    <T as VersionedFromStr>::Err: Debug,
{
    let got = T::default(v);
    match want {
        None => {
            ensure!(got.is_none(), "{name} has the default {got:?} at version {v}, which doesn't have it");
            cx.count("no default, the version lacks the field");
        }
        Some((x, s)) => {
            ensure!(got.as_ref() == Some(&x), "the default of {name} is {got:?} instead of {x:?} at version {v}");
            let w = x.to_string(v);
            ensure!(w.as_deref() == Some(s), "the default of {name} is written as {w:?} instead of {s:?} at version {v}");
            let back = T::from_str(s, v);
            ensure!(matches!(&back, Ok(Some(b)) if *b == x), "the default of {name}, {s:?}, is read as {back:?} at version {v}");
            cx.count("default");
            cx.count("default read back");
        }
    }
    cx.eval(&(name, v), true);
    Ok(())
}

fn defaults(cx: &mut Cx, v: u8) -> Res {
    macro_rules! field {
        ($t:ident, $x:expr, $s:expr) => {
            field!($t, $x, $s, true)
        };
        ($t:ident, $x:expr, $s:expr, $here:expr) => {
            one::<ge::$t>(cx, stringify!($t), v, if $here { Some((ge::$t::from($x), $s)) } else { None })?
        };
    }
    field!(AudioFilename, PathBuf::new(), "");
    field!(AudioLeadIn, 0, "0");
    field!(AudioHash, String::new(), "", v <= 13);
    field!(PreviewTime, -1, "-1");
    field!(StackLeniency, lib::Decimal::from(Decimal::new(7, 1)), "0.7");
    field!(LetterboxInBreaks, false, "0");
    field!(StoryFireInFront, true, "1");
    field!(UseSkinSprites, false, "0");
    field!(AlwaysShowPlayfield, false, "0");
    field!(SkinPreference, String::new(), "");
    field!(EpilepsyWarning, false, "0");
    field!(CountdownOffset, 0, "0");
    field!(SpecialStyle, false, "0");
    field!(WidescreenStoryboard, false, "0");
    field!(SamplesMatchPlaybackRate, false, "0");
    one(cx, "Countdown", v, (v > 4).then_some((ge::Countdown::Normal, "1")))?;
    one(cx, "SampleSet", v, (v > 3).then_some((ge::SampleSet::Normal, "Normal")))?;
    one(cx, "Mode", v, Some((ge::Mode::Osu, "0")))?;
    one(cx, "OverlayPosition", v, (v > 13).then_some((ge::OverlayPosition::NoChange, "NoChange")))?;
    one(cx, "Colours", v, (v > 4).then_some((lib::Colours(vec![]), "")))?;
    one(cx, "Events", v, Some((lib::Events(vec![]), "")))?;
    one(cx, "TimingPoints", v, Some((lib::TimingPoints(vec![]), "")))?;
    one(cx, "HitObjects", v, Some((lib::HitObjects(vec![]), "")))?;
    one(cx, "hit sample set", v, Some((ho::SampleSet::NoCustomSampleSet, "0")))?;
    one(cx, "hit sample index", v, Some((ho::SampleIndex::TimingPointSampleIndex, "0")))?;
    one(cx, "timing point sample index", v, Some((tp::SampleIndex::OsuDefaultHitsounds, "0")))?;
    one(cx, "sample volume", v, Some((ev::Volume::new(100, v).expect("MONITOR: refused"), "100")))?;
    one(cx, "loop type", v, Some((ls::LoopType::LoopForever, "LoopForever")))?;
    // these aren't written or read in the same form
    let tags = me::Tags::default(v);
    ensure!(tags == Some(me::Tags::from(Vec::new())), "the default of Tags is {tags:?}");
    let volume = ho::Volume::default(v);
    ensure!(volume.is_some_and(|x| x.volume().is_none() && x.use_timing_point_volume()), "the default of a hit sample's volume is {volume:?}");
    let volume = ho::Volume::from_str("0", v);
    ensure!(matches!(volume, Ok(x) if x == ho::Volume::default(v)), "volume 0 is {volume:?}");
    let Some(hs) = ho::HitSample::default(v) else { fail!("there is no default hit sample at version {v}") };
    let plain = ho::HitSample {
        normal_set: ho::SampleSet::NoCustomSampleSet,
        addition_set: ho::SampleSet::NoCustomSampleSet,
        index: ho::SampleIndex::TimingPointSampleIndex,
        volume: ho::Volume::new(None).expect("MONITOR: refused"),
        filename: String::new(),
    };
    ensure!(hs == plain, "the default hit sample is {hs:?} at version {v}");
    let w = hs.to_string(v);
    let want = match v {
        ..=9 => None,
        10 | 11 => Some("0:0:0"),
        _ => Some("0:0:0:0:"),
    };
    ensure!(w.as_deref() == want, "the default hit sample is written as {w:?} instead of {want:?} at version {v}");
    if let Some(w) = w {
        let back = ho::HitSample::from_str(&w, v);
        ensure!(matches!(&back, Ok(Some(b)) if *b == hs), "{w:?} is read as {back:?} at version {v}");
        cx.count("default read back");
    }
    cx.add("default", 3);
    // sections and files are empty
    ensure!(lib::General::new() == lib::General::default() && lib::General::new().to_string(v).as_deref() == Some(""), "a new general section isn't empty");
    ensure!(lib::Editor::new() == lib::Editor::default() && lib::Editor::new().to_string(v).as_deref() == Some(""), "a new editor section isn't empty");
    ensure!(lib::Metadata::new() == lib::Metadata::default() && lib::Metadata::new().to_string(v).as_deref() == Some(""), "a new metadata section isn't empty");
    ensure!(lib::Difficulty::new() == lib::Difficulty::default() && lib::Difficulty::new().to_string(v).as_deref() == Some(""), "a new difficulty section isn't empty");
    let file = lib::OsuFile::new(v);
    ensure!(file == lib::OsuFile::default(v) && file.version == v, "a new file isn't a default one: {file:?}");
    let absent = file.general.is_none()
        && file.editor.is_none()
        && file.metadata.is_none()
        && file.difficulty.is_none()
        && file.events.is_none()
        && file.timing_points.is_none()
        && file.colours.is_none()
        && file.hitobjects.is_none()
        && file.osb.is_none()
        && file.osb_to_string().is_none();
    ensure!(absent, "a new file has sections: {file:?}");
    let text = file.to_string();
    ensure!(text.trim_end() == format!("osu file format v{v}"), "a new file is written as {text:?}");
    let back = text.parse::<lib::OsuFile>();
    ensure!(matches!(&back, Ok(b) if *b == file), "a new file, {text:?}, is read as {back:?}");
    cx.add("default", 6);
    Ok(())
}

fn objects(cx: &mut Cx, v: u8) -> Res {
    let d = |x: i64| lib::Decimal::from(Decimal::from(x));
    for (i, o) in [ho::HitObject::hitcircle_default(), ho::HitObject::spinner_default(), ho::HitObject::osu_mania_hold_default()].into_iter().enumerate() {
        let ok = match (&o.obj_params, i) {
            (ho::HitObjectParams::HitCircle, 0) => true,
            (ho::HitObjectParams::Spinner { end_time }, 1) => *end_time == d(0),
            (ho::HitObjectParams::OsuManiaHold { end_time }, 2) => *end_time == d(0),
            _ => false,
        };
        ensure!(ok, "default object {i} is {o:?}");
        let at = (if i == 2 { d(0) } else { d(256) }, d(192));
        ensure!((&o.position.x, &o.position.y) == (&at.0, &at.1) && o.time == d(0), "default object {i} is {o:?}");
        ensure!(!o.new_combo && o.combo_skip_count.get() == 0 && o.hitsample.is_none(), "default object {i} is {o:?}");
        ensure!(o.hitsound == ho::HitSound::new(false, false, false, false) && o.hitsound.normal(), "default object {i} is {o:?}");
        let w = o.to_string(v);
        let t = if v < 5 { -24 } else { 0 };
        let want = match i {
            0 => format!("256,192,{t},1,0"),
            1 => format!("256,192,{t},8,0,{t}"),
            _ => format!("0,192,{t},128,0,{t}"),
        };
        let Some(w) = w else { fail!("default object {i} isn't written at version {v}") };
        ensure!(w.trim_end_matches([',', ':']) == want, "default object {i} is written as {w:?} instead of {want:?} at version {v}");
        let back = ho::HitObject::from_str(&w, v);
        match back {
            Ok(Some(mut b)) => {
                // a hold's end and its sample are in one field, and the comma at the end of a circle of version 3 is an empty sample
                if i == 2 || v == 3 && b.hitsample == ho::HitSample::default(v) {
                    b.hitsample = None;
                }
                ensure!(b == o, "default object {i}, {w:?}, is read as {b:?} at version {v}");
            }
            b => fail!("default object {i}, {w:?}, is read as {b:?} at version {v}"),
        }
        cx.count("plain object");
    }
    let p = lib::Position::default();
    ensure!(p.x == d(256) && p.y == d(192), "the default position is {p:?}");
    let n = lib::Decimal::default();
    ensure!(n == d(0), "the default decimal is {n:?}");
    Ok(())
}

fn left_out(cx: &mut Cx, v: u8) -> Res {
    let t = cx.r.range(0, 100_000) as i32;
    let (x, y) = (cx.r.range(0, 512), cx.r.range(0, 384));
    let late = if v < 5 { 24 } else { 0 };
    let d = |x: i64| lib::Decimal::from(Decimal::from(x));
    let event = |l: &str| -> Option<Event> { ev::Events::from_str(l, v).ok()??.0.pop() };
    let mut seen = |cx: &mut Cx, line: &str| {
        cx.eval(&(line, v), true);
        cx.count("field left out");
    };
    // positions of pictures
    for (with, line) in [(false, "0,0,\"a.png\"".to_string()), (true, format!("0,0,\"a.png\",{x},{y}"))] {
        match event(&line) {
            Some(Event::Background(b)) => {
                let want = with.then(|| lib::Position { x: d(x), y: d(y) });
                ensure!(b.position == want && b.commands.is_empty(), "{line:?} is read as {b:?}");
                let w = Event::Background(b).to_string(v);
                ensure!(w.as_deref() == Some(&line), "{line:?} is written as {w:?}");
            }
            e => fail!("{line:?} is read as {e:?}"),
        }
        seen(cx, &line);
    }
    for (with, line) in [(false, format!("Video,{t},\"a.avi\"")), (true, format!("Video,{t},\"a.avi\",{x},{y}"))] {
        match event(&line) {
            Some(Event::Video(b)) => {
                let want = with.then(|| lib::Position { x: d(x), y: d(y) });
                ensure!(b.position == want && b.start_time == t + late, "{line:?} is read as {b:?}");
                let w = Event::Video(b).to_string(v);
                ensure!(w.as_deref() == Some(&line), "{line:?} is written as {w:?}");
            }
            e => fail!("{line:?} is read as {e:?}"),
        }
        seen(cx, &line);
    }
    // a sample without volume is as loud as it gets
    let line = format!("Sample,{t},0,\"a.wav\"");
    match event(&line) {
        Some(Event::AudioSample(s)) => ensure!(s.volume.get() == 100, "{line:?} has volume {}", s.volume.get()),
        e => fail!("{line:?} is read as {e:?}"),
    }
    seen(cx, &line);
    // an animation without loop type
    let line = format!("Animation,Pass,Centre,\"a.png\",{x},{y},4,100");
    match event(&line) {
        Some(Event::StoryboardObject(ls::Object { object_type: ls::ObjectType::Animation(a), .. })) => {
            ensure!(a.loop_type == ls::LoopType::LoopForever, "{line:?} has loop type {:?}", a.loop_type);
        }
        e => fail!("{line:?} is read as {e:?}"),
    }
    seen(cx, &line);
    // objects without sample
    let end = t + 100;
    for (k, line) in [format!("{x},{y},{t},1,0"), format!("{x},{y},{t},2,0,L|1:2|3:4,2,50"), format!("{x},{y},{t},12,0,{end}")].iter().enumerate() {
        match ho::HitObject::from_str(line, v) {
            Ok(Some(o)) => {
                ensure!(o.hitsample.is_none() && o.time == d((t + late).into()), "{line:?} is read as {o:?}");
                if let ho::HitObjectParams::Slider(s) = &o.obj_params {
                    ensure!(k == 1 && s.edge_sounds.is_empty() && s.edge_sets.is_empty(), "{line:?} is read as {o:?}");
                }
            }
            e => fail!("{line:?} is read as {e:?} at version {v}"),
        }
        seen(cx, line);
    }
    // fields of a timing point
    for n in 2..=8usize {
        let fields = [t.to_string(), "500".into(), "3".into(), "2".into(), "7".into(), "60".into(), "0".into(), "9".into()];
        let line = fields[..n].join(",");
        let right = match v {
            3 => n == 2,
            4 => n == 5,
            _ => n == 8 || n == 6,
        };
        if !right || (n == 6 && v > 6) {
            continue;
        }
        let p = match tp::TimingPoint::from_str(&line, v) {
            Ok(Some(p)) => p,
            e => fail!("{line:?} is read as {e:?} at version {v}"),
        };
        ensure!(p.time() == &d((t + late).into()), "{line:?} is read as {p:?} at version {v}");
        if n > 2 {
            ensure!(p.meter() == 3 && p.sample_set() == tp::SampleSet::Soft, "{line:?} is read as {p:?} at version {v}");
        }
        ensure!(p.uninherited() == (n < 8), "{line:?} is read as {p:?} at version {v}");
        ensure!(p.effects().is_some() == (n == 8), "{line:?} is read as {p:?} at version {v}");
        let w = p.to_string(v);
        ensure!(w.as_deref() == Some(&line), "{line:?} is written as {w:?} at version {v}");
        seen(cx, &line);
    }
    // keys that aren't there, and keys with nothing after them
    let g = lib::General::from_str(&format!("PreviewTime: {t}"), v).ok().flatten();
    let mut want = lib::General::new();
    want.preview_time = Some(ge::PreviewTime::from(t));
    ensure!(g.as_ref() == Some(&want), "a general section of a preview time is read as {g:?}");
    seen(cx, &t.to_string());
    let line = "AudioFilename:\nSkinPreference:";
    let g = lib::General::from_str(line, v).ok().flatten();
    let mut want = lib::General::new();
    want.audio_filename = ge::AudioFilename::default(v);
    want.skin_preference = ge::SkinPreference::default(v);
    ensure!(g.as_ref() == Some(&want), "{line:?} is read as {g:?} at version {v}");
    cx.count("empty value");
    Ok(())
}

fn run(cx: &mut Cx) -> Res {
    let v = 3 + (cx.case % 12) as u8;
    cx.note("version", v.to_string());
    if cx.case < 12 || cx.r.chance(20) {
        defaults(cx, v)?;
        objects(cx, v)?;
    }
    left_out(cx, v)?;
    let _ = colours::Rgb { red: 0, green: 0, blue: 0 };
    cx.eval(&("version", v), true);
    cx.sample(|| format!("defaults of version {v}"));
    Ok(())
}
