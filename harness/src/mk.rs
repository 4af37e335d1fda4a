//! Library values built through the public interface from reference documents.
use crate::model::*;
use either::Either;
use lib::events::storyboard::cmds as lc;
use lib::events::storyboard::sprites as ls;
use lib::events::storyboard::types as lt;
use lib::events::EventWithCommands;
use lib::VersionedFrom;
use lib::VersionedFromRepr;
use osu_file_parser as lib;

pub fn rd(m: i128, s: u32) -> rust_decimal::Decimal {
    rust_decimal::Decimal::from_i128_with_scale(m, s)
}

pub fn d(x: &D) -> lib::Decimal {
    match x {
        D::N { m, s } => lib::Decimal::new(rd(*m, *s)),
        D::R(t) => lib::Decimal::new_from_str(t),
    }
}

pub fn pos(p: &(D, D)) -> lib::Position {
    let mut q = lib::Position::default();
    q.x = d(&p.0);
    q.y = d(&p.1);
    q
}

fn f(file: &str) -> lib::FilePath {
    lib::FilePath::from(file)
}

fn vals<'a>(kv: &'a [Kv], key: &str) -> Option<&'a V> {
    kv.iter().find(|k| k.key == key).map(|k| &k.val)
}
fn int(v: &V) -> i32 {
    match v {
        V::Int(i) => *i,
        _ => panic!("not an int"),
    }
}
fn text(v: &V) -> String {
    match v {
        V::Text(t) => t.clone(),
        _ => panic!("not a text"),
    }
}
fn boolean(v: &V) -> bool {
    match v {
        V::Bool(b) => *b,
        _ => panic!("not a bool"),
    }
}
fn dec(v: &V) -> lib::Decimal {
    match v {
        V::Dec(x) => d(x),
        _ => panic!("not a decimal"),
    }
}
fn ints(v: &V) -> Vec<i32> {
    match v {
        V::Ints(x) => x.clone(),
        _ => panic!("not a list"),
    }
}
fn code(v: &V) -> u8 {
    match v {
        V::Code(c) => *c,
        _ => panic!("not a code"),
    }
}

macro_rules! set {
    ($s:ident, $kv:ident, $($field:ident, $key:literal, $conv:expr;)*) => {
        $($s.$field = vals($kv, $key).map($conv).map(Into::into);)*
    };
}

pub fn general(kv: &[Kv]) -> lib::General {
    use lib::general::*;
    let mut g = General::new();
    set!(g, kv,
        audio_filename, "AudioFilename", |v| std::path::PathBuf::from(text(v));
        audio_lead_in, "AudioLeadIn", int;
        audio_hash, "AudioHash", text;
        preview_time, "PreviewTime", int;
        stack_leniency, "StackLeniency", dec;
        letterbox_in_breaks, "LetterboxInBreaks", boolean;
        story_fire_in_front, "StoryFireInFront", boolean;
        use_skin_sprites, "UseSkinSprites", boolean;
        always_show_playfield, "AlwaysShowPlayfield", boolean;
        skin_preference, "SkinPreference", text;
        epilepsy_warning, "EpilepsyWarning", boolean;
        countdown_offset, "CountdownOffset", int;
        special_style, "SpecialStyle", boolean;
        widescreen_storyboard, "WidescreenStoryboard", boolean;
        samples_match_playback_rate, "SamplesMatchPlaybackRate", boolean;
        editor_bookmarks, "EditorBookmarks", ints;
        editor_distance_spacing, "EditorDistanceSpacing", dec;
    );
    g.countdown = vals(kv, "Countdown").map(|v| {
        [Countdown::NoCountdown, Countdown::Normal, Countdown::Half, Countdown::Double]
            [code(v) as usize]
    });
    g.sample_set = vals(kv, "SampleSet").map(|v| {
        [SampleSet::Normal, SampleSet::Soft, SampleSet::Drum, SampleSet::None][code(v) as usize]
    });
    g.mode = vals(kv, "Mode")
        .map(|v| [Mode::Osu, Mode::Taiko, Mode::Catch, Mode::Mania][code(v) as usize]);
    g.overlay_position = vals(kv, "OverlayPosition").map(|v| {
        [OverlayPosition::NoChange, OverlayPosition::Below, OverlayPosition::Above]
            [code(v) as usize]
    });
    g
}

pub fn editor(kv: &[Kv]) -> lib::Editor {
    let mut e = lib::Editor::new();
    set!(e, kv,
        bookmarks, "Bookmarks", ints;
        distance_spacing, "DistanceSpacing", dec;
        beat_divisor, "BeatDivisor", dec;
        grid_size, "GridSize", int;
        timeline_zoom, "TimelineZoom", dec;
        current_time, "CurrentTime", int;
    );
    e
}

pub fn metadata(kv: &[Kv]) -> lib::Metadata {
    let mut m = lib::Metadata::new();
    set!(m, kv,
        title, "Title", text;
        title_unicode, "TitleUnicode", text;
        artist, "Artist", text;
        artist_unicode, "ArtistUnicode", text;
        creator, "Creator", text;
        version, "Version", text;
        source, "Source", text;
        tags, "Tags", |v| match v { V::Tags(t) => t.clone(), _ => panic!("not tags") };
        beatmap_id, "BeatmapID", int;
        beatmap_set_id, "BeatmapSetID", int;
    );
    m
}

pub fn difficulty(kv: &[Kv]) -> lib::Difficulty {
    let mut x = lib::Difficulty::new();
    set!(x, kv,
        hp_drain_rate, "HPDrainRate", dec;
        circle_size, "CircleSize", dec;
        overall_difficulty, "OverallDifficulty", dec;
        approach_rate, "ApproachRate", dec;
        slider_multiplier, "SliderMultiplier", dec;
        slider_tickrate, "SliderTickRate", dec;
    );
    x
}

/// Only what the constructors can build: an integer time, both optional fields there.
pub fn tp(t: &Tp) -> Option<lib::timingpoints::TimingPoint> {
    use lib::timingpoints::*;
    let time = match t.time {
        D::N { m, s: 0 } => i32::try_from(m).ok()?,
        _ => return None,
    };
    let mut p = TimingPoint::new_uninherited(
        time,
        d(&t.beat),
        t.meter,
        <SampleSet as VersionedFrom<i32>>::from(t.set, 14)?,
        <SampleIndex as VersionedFrom<u32>>::from(t.index, 14)?,
        Volume::new(t.volume, 14)?,
        <Effects as VersionedFrom<u32>>::from(t.effects?, 14)?,
    );
    p.set_uninherited(t.uninh?);
    Some(p)
}

pub fn colour(c: &Col) -> lib::colours::Colour {
    use lib::colours::*;
    let rgb = Rgb {
        red: c.rgb[0],
        green: c.rgb[1],
        blue: c.rgb[2],
    };
    match c.k {
        ColK::Combo(n) => Colour::Combo(n, rgb),
        ColK::SliderTrack => Colour::SliderTrackOverride(rgb),
        ColK::SliderBorder => Colour::SliderBorder(rgb),
    }
}

pub fn ho_set(n: usize) -> lib::hitobjects::SampleSet {
    use lib::hitobjects::SampleSet::*;
    match n {
        0 => NoCustomSampleSet,
        1 => NormalSet,
        2 => SoftSet,
        3 => DrumSet,
        n => Other(n),
    }
}

pub fn sound(bits: u8) -> lib::hitobjects::HitSound {
    lib::hitobjects::HitSound::new(bits & 1 != 0, bits & 2 != 0, bits & 4 != 0, bits & 8 != 0)
}

pub fn hs(h: &Hs) -> lib::hitobjects::HitSample {
    lib::hitobjects::HitSample {
        normal_set: ho_set(h.normal),
        addition_set: ho_set(h.addition),
        index: <lib::hitobjects::SampleIndex as VersionedFrom<usize>>::from(h.index, 14)
            .expect("MONITOR: no sample index"),
        volume: lib::hitobjects::Volume::new(h.volume).expect("MONITOR: volume rejected"),
        filename: h.file.clone(),
    }
}

pub fn ho(h: &Ho) -> lib::hitobjects::HitObject {
    use lib::hitobjects::*;
    let obj_params = match &h.k {
        HoK::Circle => HitObjectParams::HitCircle,
        HoK::Slider {
            curve,
            points,
            slides,
            length,
            sounds,
            sets,
            ..
        } => HitObjectParams::Slider(SlideParams::new(
            [CurveType::Bezier, CurveType::Centripetal, CurveType::Linear, CurveType::PerfectCircle]
                [*curve as usize],
            points.iter().map(|p| CurvePoint(pos(p))).collect(),
            *slides,
            d(length),
            sounds.iter().map(|s| sound(*s)).collect(),
            sets.iter()
                .map(|s| EdgeSet {
                    normal_set: ho_set(s.0),
                    addition_set: ho_set(s.1),
                })
                .collect(),
        )),
        HoK::Spinner { end } => HitObjectParams::Spinner { end_time: d(end) },
        HoK::Hold { end } => HitObjectParams::OsuManiaHold { end_time: d(end) },
    };
    let mut o = HitObject::hitcircle_default();
    o.position = pos(&(h.x.clone(), h.y.clone()));
    o.time = d(&h.time);
    o.obj_params = obj_params;
    o.new_combo = h.new_combo;
    o.combo_skip_count = ComboSkipCount::new(h.skip, 14)
        .ok()
        .flatten()
        .expect("MONITOR: combo skip count rejected");
    o.hitsound = sound(h.sound);
    o.hitsample = h.sample.as_ref().map(hs);
    o
}

pub fn easing(n: i32) -> lt::Easing {
    <lt::Easing as VersionedFrom<i32>>::from(n, 14).expect("MONITOR: no easing")
}

pub fn trigger(t: &Tt) -> lt::TriggerType {
    let set = |s: u8| {
        [
            lt::SampleSet::All,
            lt::SampleSet::Normal,
            lt::SampleSet::Soft,
            lt::SampleSet::Drum,
        ][s as usize]
    };
    match t {
        Tt::Passing => lt::TriggerType::Passing,
        Tt::Failing => lt::TriggerType::Failing,
        Tt::HitSound {
            set: s,
            add_set,
            addition,
            custom,
        } => lt::TriggerType::HitSound {
            sample_set: s.map(set),
            additions_sample_set: add_set.map(set),
            addition: addition.map(|a| {
                [lt::Addition::Whistle, lt::Addition::Finish, lt::Addition::Clap][a as usize]
            }),
            custom_sample_set: *custom,
        },
    }
}

pub fn param(p: u8) -> lt::Parameter {
    match p {
        0 => lt::Parameter::ImageFlipHorizontal,
        1 => lt::Parameter::ImageFlipVertical,
        _ => lt::Parameter::UseAdditiveColourBlending,
    }
}

pub fn cmd(c: &Cmd) -> lc::Command {
    use lc::CommandProperties::*;
    let properties = match &c.k {
        CmdK::Vals {
            op,
            easing: e,
            end,
            vals,
        } => {
            let easing = easing(*e);
            let end_time = *end;
            let rest: Vec<lib::Decimal> = vals[1..].iter().map(d).collect();
            let first = d(&vals[0]);
            let two = || {
                let c = vals[2..]
                    .chunks(2)
                    .map(|p| (d(&p[0]), p.get(1).map(d)))
                    .collect();
                lc::ContinuingFields::new((d(&vals[0]), d(&vals[1])), c)
                    .expect("MONITOR: continuing fields rejected")
            };
            match *op {
                "F" => Fade {
                    easing,
                    end_time,
                    start_opacity: first,
                    continuing_opacities: rest,
                },
                "MX" => MoveX {
                    easing,
                    end_time,
                    start_x: first,
                    continuing_x: rest,
                },
                "MY" => MoveY {
                    easing,
                    end_time,
                    start_y: first,
                    continuing_y: rest,
                },
                "S" => Scale {
                    easing,
                    end_time,
                    start_scale: first,
                    continuing_scales: rest,
                },
                "R" => Rotate {
                    easing,
                    end_time,
                    start_rotation: first,
                    continuing_rotations: rest,
                },
                "M" => Move {
                    easing,
                    end_time,
                    positions_xy: two(),
                },
                _ => VectorScale {
                    easing,
                    end_time,
                    scales_xy: two(),
                },
            }
        }
        CmdK::Colour {
            easing: e,
            end,
            vals,
        } => Colour {
            easing: easing(*e),
            end_time: *end,
            colours: lc::Colours::new(
                (vals[0], vals[1], vals[2]),
                vals[3..]
                    .chunks(3)
                    .map(|c| (c[0], c.get(1).copied(), c.get(2).copied()))
                    .collect(),
            )
            .expect("MONITOR: colours rejected"),
        },
        CmdK::Param {
            easing: e,
            end,
            vals,
        } => Parameter {
            easing: easing(*e),
            end_time: *end,
            parameter: param(vals[0]),
            continuing_parameters: vals[1..].iter().map(|p| param(*p)).collect(),
        },
        CmdK::Loop { count, cmds: c } => Loop {
            loop_count: *count,
            commands: cmds(c),
        },
        CmdK::Trigger {
            tt,
            end,
            group,
            cmds: c,
        } => Trigger {
            trigger_type: trigger(tt),
            end_time: *end,
            group_number: *group,
            commands: cmds(c),
        },
    };
    lc::Command {
        start_time: c.start,
        properties,
    }
}

pub fn cmds(c: &[Cmd]) -> Vec<lc::Command> {
    c.iter().map(cmd).collect()
}

pub fn layer(n: u8) -> ls::Layer {
    use ls::Layer::*;
    [Background, Fail, Pass, Foreground, Overlay][n as usize]
}

pub fn origin(o: i32, named: bool) -> ls::Origin {
    use ls::OriginType::*;
    let names = [
        TopLeft, Centre, CentreLeft, TopRight, BottomCentre, TopCentre, Custom, CentreRight,
        BottomLeft, BottomRight,
    ];
    // one without a name is a number either way
    match names.get(usize::try_from(o).unwrap_or(99)) {
        Some(n) => ls::Origin { type_: Either::Left(*n), shorthand: !named },
        None => ls::Origin { type_: Either::Right(o), shorthand: o % 2 == 0 },
    }
}

/// with `push`, commands are added one by one
pub fn event(e: &Ev, push: bool) -> lib::events::Event {
    use lib::events::normal_event::types::{LayerLegacy, OriginTypeLegacy};
    use lib::events::*;
    let ll = |n: u8| {
        LayerLegacy::from_repr(n as usize, 14)
            .ok()
            .flatten()
            .expect("MONITOR: legacy layer rejected")
    };
    let ol = |n: u8| {
        OriginTypeLegacy::from_repr(n as usize, 14)
            .ok()
            .flatten()
            .expect("MONITOR: legacy origin rejected")
    };
    let p = |p: &Option<(D, D)>| p.as_ref().map(pos);
    fn fill(o: &mut impl EventWithCommands, c: &[Cmd], push: bool) {
        if push {
            push_cmds(o, c, 1);
        } else {
            *o.commands_mut() = cmds(c);
        }
    }
    match &e.k {
        EvK::Comment(c) => Event::Comment(c.clone()),
        EvK::Background {
            start,
            file,
            pos: q,
        } => {
            let mut o = Background {
                start_time: *start,
                file_name: f(file),
                position: p(q),
                commands: vec![],
            };
            fill(&mut o, &e.cmds, push);
            Event::Background(o)
        }
        EvK::Video {
            start,
            file,
            pos: q,
            ..
        } => {
            let mut o = Video::new(*start, f(file), p(q));
            fill(&mut o, &e.cmds, push);
            Event::Video(o)
        }
        EvK::Break { start, end, .. } => Event::Break(Break::new(*start, *end)),
        EvK::ColourTrans { start, rgb } => Event::ColourTransformation(ColourTransformation {
            start_time: *start,
            red: rgb[0],
            green: rgb[1],
            blue: rgb[2],
        }),
        EvK::SpriteLegacy {
            layer,
            origin,
            file,
            pos: q,
        } => {
            let mut o = SpriteLegacy {
                layer: ll(*layer),
                origin: ol(*origin),
                file_name: f(file),
                position: p(q),
                commands: vec![],
            };
            fill(&mut o, &e.cmds, push);
            Event::SpriteLegacy(o)
        }
        EvK::AnimationLegacy {
            layer,
            origin,
            file,
            pos: q,
        } => {
            let mut o = AnimationLegacy {
                layer: ll(*layer),
                origin: ol(*origin),
                file_name: f(file),
                position: p(q),
                commands: vec![],
            };
            fill(&mut o, &e.cmds, push);
            Event::AnimationLegacy(o)
        }
        EvK::SampleLegacy {
            time,
            layer,
            file,
            vol,
        } => {
            let mut o = SampleLegacy {
                time: d(time),
                layer: ll(*layer),
                file_name: f(file),
                volume: vol.map(|v| Volume::new(v, 14).expect("MONITOR: volume rejected")),
                commands: vec![],
            };
            fill(&mut o, &e.cmds, push);
            Event::SampleLegacy(o)
        }
        EvK::Sprite {
            layer: l,
            origin: or,
            named,
            file,
            pos: q,
        } => {
            let mut o = ls::Object {
                layer: layer(*l),
                origin: origin(*or, *named),
                position: pos(q),
                object_type: ls::ObjectType::Sprite(ls::Sprite { filepath: f(file) }),
                commands: vec![],
            };
            fill(&mut o, &e.cmds, push);
            Event::StoryboardObject(o)
        }
        EvK::Animation {
            layer: l,
            origin: or,
            named,
            file,
            pos: q,
            frames,
            delay,
            once,
            ..
        } => {
            let D::N { m, s } = delay else {
                panic!("frame delay isn't a number")
            };
            let mut o = ls::Object {
                layer: layer(*l),
                origin: origin(*or, *named),
                position: pos(q),
                object_type: ls::ObjectType::Animation(ls::Animation {
                    frame_count: *frames,
                    frame_delay: rd(*m, *s),
                    loop_type: if *once {
                        ls::LoopType::LoopOnce
                    } else {
                        ls::LoopType::LoopForever
                    },
                    filepath: f(file),
                }),
                commands: vec![],
            };
            fill(&mut o, &e.cmds, push);
            Event::StoryboardObject(o)
        }
        EvK::Audio {
            time,
            layer,
            file,
            vol,
            ..
        } => Event::AudioSample(AudioSample {
            time: *time,
            layer: Layer::from_repr(*layer as usize, 14)
                .ok()
                .flatten()
                .expect("MONITOR: layer rejected"),
            filepath: f(file),
            volume: Volume::new(*vol, 14).expect("MONITOR: volume rejected"),
        }),
    }
}

pub fn push_cmds(o: &mut impl EventWithCommands, c: &[Cmd], depth: usize) {
    for c in c {
        let mut empty = c.clone();
        if let Some(c) = empty.children_mut() {
            c.clear();
        }
        o.try_push_cmd(cmd(&empty), depth)
            .expect("MONITOR: pushing a command is rejected");
        if let Some(c) = c.children() {
            push_cmds(o, c, depth + 1);
        }
    }
}

/// A document's timing points have to be buildable.
pub fn doc(x: &Doc, push: bool) -> lib::OsuFile {
    let mut o = lib::OsuFile::new(x.v);
    o.general = x.kv[0].as_ref().map(|k| general(k));
    o.editor = x.kv[1].as_ref().map(|k| editor(k));
    o.metadata = x.kv[2].as_ref().map(|k| metadata(k));
    o.difficulty = x.kv[3].as_ref().map(|k| difficulty(k));
    o.events = x
        .events
        .as_ref()
        .map(|e| lib::Events(e.iter().map(|e| event(e, push)).collect()));
    o.timing_points = x.tps.as_ref().map(|t| {
        lib::TimingPoints(t.iter().map(|t| tp(t).expect("MONITOR: timing point can't be built")).collect())
    });
    o.colours = x
        .colours
        .as_ref()
        .map(|c| lib::Colours(c.iter().map(colour).collect()));
    o.hitobjects = x
        .hos
        .as_ref()
        .map(|h| lib::HitObjects(h.iter().map(ho).collect()));
    o
}

pub fn osb(x: &OsbDoc, push: bool) -> lib::Osb {
    lib::Osb {
        variables: x.vars.as_ref().map(|v| {
            v.iter()
                .map(|(n, v)| lib::osb::Variable {
                    name: n.clone(),
                    value: v.clone(),
                })
                .collect()
        }),
        events: x
            .events
            .as_ref()
            .map(|e| lib::Events(e.iter().map(|e| event(e, push)).collect())),
    }
}

/// Makes every part of `x` one that can be built: drops spelling that has no setter.
pub fn buildable(x: &Doc) -> Doc {
    let mut x = norm(x);
    for t in x.tps.iter_mut().flatten() {
        if !matches!(t.time, D::N { s: 0, .. }) {
            t.time = D::int(1000);
        }
        if let D::N { m, .. } = t.time {
            if i32::try_from(m).is_err() {
                t.time = D::int(2_000_000_000);
            }
        }
        t.uninh = t.uninh.or(Some(true));
        t.effects = t.effects.or(Some(0));
    }
    x
}
