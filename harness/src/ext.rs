//! The library's values, read through its public interface, as a reference document.
use crate::model::*;
use either::Either;
use osu_file_parser as lib;
use lib::events::storyboard::cmds as lc;
use lib::events::storyboard::sprites as ls;
use lib::events::storyboard::types as lt;
use lib::events::EventWithCommands;
use lib::{VersionedFrom, VersionedToString};

pub fn d(x: &lib::Decimal) -> D {
    match x.get() {
        Either::Left(n) => D::N {
            m: n.mantissa(),
            s: n.scale(),
        },
        Either::Right(s) => D::R(s.clone()),
    }
}

fn rd(n: &rust_decimal::Decimal) -> D {
    D::N {
        m: n.mantissa(),
        s: n.scale(),
    }
}

fn pos(p: &lib::Position) -> (D, D) {
    (d(&p.x), d(&p.y))
}

fn fp(f: &lib::FilePath) -> String {
    f.get().display().to_string()
}

/// One field of a key-value section.
macro_rules! field {
    ($out:ident, $f:expr, $key:expr, $t:ty, $map:expr) => {
        if let Some(f) = $f.clone() {
            let raw: $t = f.into();
            #[allow(clippy::redundant_closure_call)]
            $out.push(Kv {
                key: $key,
                val: ($map)(raw),
            });
        }
    };
}

pub fn general(g: &lib::General) -> Vec<Kv> {
    use lib::general::*;
    let mut o = Vec::new();
    field!(o, g.audio_filename, "AudioFilename", std::path::PathBuf, |p: std::path::PathBuf| V::Text(
        p.display().to_string()
    ));
    field!(o, g.audio_lead_in, "AudioLeadIn", i32, V::Int);
    field!(o, g.audio_hash, "AudioHash", String, V::Text);
    field!(o, g.preview_time, "PreviewTime", i32, V::Int);
    if let Some(c) = &g.countdown {
        o.push(Kv {
            key: "Countdown",
            val: V::Code(countdown(*c)),
        });
    }
    if let Some(c) = &g.sample_set {
        o.push(Kv {
            key: "SampleSet",
            val: V::Code(match c {
                SampleSet::Normal => 0,
                SampleSet::Soft => 1,
                SampleSet::Drum => 2,
                SampleSet::None => 3,
                _ => 200,
            }),
        });
    }
    field!(o, g.stack_leniency, "StackLeniency", lib::Decimal, |x| V::Dec(d(&x)));
    if let Some(c) = &g.mode {
        o.push(Kv {
            key: "Mode",
            val: V::Code(match c {
                Mode::Osu => 0,
                Mode::Taiko => 1,
                Mode::Catch => 2,
                Mode::Mania => 3,
                _ => 200,
            }),
        });
    }
    field!(o, g.letterbox_in_breaks, "LetterboxInBreaks", bool, V::Bool);
    field!(o, g.story_fire_in_front, "StoryFireInFront", bool, V::Bool);
    field!(o, g.use_skin_sprites, "UseSkinSprites", bool, V::Bool);
    field!(o, g.always_show_playfield, "AlwaysShowPlayfield", bool, V::Bool);
    if let Some(c) = &g.overlay_position {
        o.push(Kv {
            key: "OverlayPosition",
            val: V::Code(match c {
                OverlayPosition::NoChange => 0,
                OverlayPosition::Below => 1,
                OverlayPosition::Above => 2,
                _ => 200,
            }),
        });
    }
    field!(o, g.skin_preference, "SkinPreference", String, V::Text);
    field!(o, g.epilepsy_warning, "EpilepsyWarning", bool, V::Bool);
    field!(o, g.countdown_offset, "CountdownOffset", i32, V::Int);
    field!(o, g.special_style, "SpecialStyle", bool, V::Bool);
    field!(o, g.widescreen_storyboard, "WidescreenStoryboard", bool, V::Bool);
    field!(
        o,
        g.samples_match_playback_rate,
        "SamplesMatchPlaybackRate",
        bool,
        V::Bool
    );
    field!(o, g.editor_bookmarks, "EditorBookmarks", Vec<i32>, V::Ints);
    field!(o, g.editor_distance_spacing, "EditorDistanceSpacing", lib::Decimal, |x| V::Dec(d(&x)));
    o
}

pub fn countdown(c: lib::general::Countdown) -> u8 {
    use lib::general::Countdown::*;
    match c {
        NoCountdown => 0,
        Normal => 1,
        Half => 2,
        Double => 3,
        _ => 200,
    }
}

pub fn editor(e: &lib::Editor) -> Vec<Kv> {
    let mut o = Vec::new();
    field!(o, e.bookmarks, "Bookmarks", Vec<i32>, V::Ints);
    field!(o, e.distance_spacing, "DistanceSpacing", lib::Decimal, |x| V::Dec(d(&x)));
    field!(o, e.beat_divisor, "BeatDivisor", lib::Decimal, |x| V::Dec(d(&x)));
    field!(o, e.grid_size, "GridSize", i32, V::Int);
    field!(o, e.timeline_zoom, "TimelineZoom", lib::Decimal, |x| V::Dec(d(&x)));
    field!(o, e.current_time, "CurrentTime", i32, V::Int);
    o
}

pub fn metadata(m: &lib::Metadata) -> Vec<Kv> {
    let mut o = Vec::new();
    field!(o, m.title, "Title", String, V::Text);
    field!(o, m.title_unicode, "TitleUnicode", String, V::Text);
    field!(o, m.artist, "Artist", String, V::Text);
    field!(o, m.artist_unicode, "ArtistUnicode", String, V::Text);
    field!(o, m.creator, "Creator", String, V::Text);
    field!(o, m.version, "Version", String, V::Text);
    field!(o, m.source, "Source", String, V::Text);
    field!(o, m.tags, "Tags", Vec<String>, V::Tags);
    field!(o, m.beatmap_id, "BeatmapID", i32, V::Int);
    field!(o, m.beatmap_set_id, "BeatmapSetID", i32, V::Int);
    o
}

pub fn difficulty(f: &lib::Difficulty) -> Vec<Kv> {
    let mut o = Vec::new();
    field!(o, f.hp_drain_rate, "HPDrainRate", lib::Decimal, |x| V::Dec(d(&x)));
    field!(o, f.circle_size, "CircleSize", lib::Decimal, |x| V::Dec(d(&x)));
    field!(o, f.overall_difficulty, "OverallDifficulty", lib::Decimal, |x| V::Dec(d(&x)));
    field!(o, f.approach_rate, "ApproachRate", lib::Decimal, |x| V::Dec(d(&x)));
    field!(o, f.slider_multiplier, "SliderMultiplier", lib::Decimal, |x| V::Dec(d(&x)));
    field!(o, f.slider_tickrate, "SliderTickRate", lib::Decimal, |x| V::Dec(d(&x)));
    o
}

pub fn tp_set(s: lib::timingpoints::SampleSet) -> i32 {
    use lib::timingpoints::SampleSet::*;
    match s {
        BeatmapDefault => 0,
        Normal => 1,
        Soft => 2,
        Drum => 3,
        Other(n) => n,
        _ => -77,
    }
}

pub fn tp(t: &lib::timingpoints::TimingPoint) -> Tp {
    // the beat length has no accessor
    let line = t.to_string(3).unwrap_or_default();
    let beat = line.split_once(',').map_or("", |(_, b)| b);
    Tp {
        time: d(t.time()),
        beat: d(&lib::Decimal::from(beat)),
        meter: t.meter(),
        set: tp_set(t.sample_set()),
        index: match t.sample_index() {
            lib::timingpoints::SampleIndex::OsuDefaultHitsounds => 0,
            lib::timingpoints::SampleIndex::Index(n) => n.get(),
            _ => 77_777,
        },
        volume: t.volume().volume(),
        uninh: Some(t.uninherited()),
        effects: t.effects().map(|e| {
            let n: u32 = <u32 as VersionedFrom<_>>::from(*e, 14).expect("MONITOR: no code or text for a value");
            assert!(
                e.kiai_time_enabled() == (n & 1 == 1)
                    && e.no_first_barline_in_taiko_mania() == (n & 8 == 8),
                "MONITOR: effect flags {e:?} don't agree with the value {n}"
            );
            n
        }),
        explicit_vol: false,
    }
}

pub fn colour(c: &lib::colours::Colour) -> Col {
    use lib::colours::Colour::*;
    let (k, rgb) = match c {
        Combo(n, rgb) => (ColK::Combo(*n), rgb),
        SliderTrackOverride(rgb) => (ColK::SliderTrack, rgb),
        SliderBorder(rgb) => (ColK::SliderBorder, rgb),
        _ => panic!("MONITOR: unknown colour {c:?}"),
    };
    Col {
        k,
        rgb: [rgb.red, rgb.green, rgb.blue],
        lower: false,
    }
}

pub fn ho_set(s: lib::hitobjects::SampleSet) -> usize {
    use lib::hitobjects::SampleSet::*;
    match s {
        NoCustomSampleSet => 0,
        NormalSet => 1,
        SoftSet => 2,
        DrumSet => 3,
        Other(n) => n,
        _ => 77_777,
    }
}

fn sound(h: &lib::hitobjects::HitSound) -> u8 {
    (h.normal() as u8)
        | ((h.whistle() as u8) << 1)
        | ((h.finish() as u8) << 2)
        | ((h.clap() as u8) << 3)
}

/// edge sounds keep the value as it's written
fn sound_text(h: &lib::hitobjects::HitSound) -> u8 {
    h.to_string(14).expect("MONITOR: no code or text for a value").parse().expect("MONITOR: the text of a value is not a number")
}

pub fn hs(h: &lib::hitobjects::HitSample) -> Hs {
    Hs {
        normal: ho_set(h.normal_set),
        addition: ho_set(h.addition_set),
        index: match h.index {
            lib::hitobjects::SampleIndex::TimingPointSampleIndex => 0,
            lib::hitobjects::SampleIndex::Index(n) => n.get(),
            _ => 77_777,
        },
        volume: h.volume.volume(),
        file: h.filename.clone(),
        fields: 5,
    }
}

pub fn ho(h: &lib::hitobjects::HitObject) -> Ho {
    use lib::hitobjects::HitObjectParams::*;
    let (x, y) = pos(&h.position);
    Ho {
        x,
        y,
        time: d(&h.time),
        new_combo: h.new_combo,
        skip: h.combo_skip_count.get(),
        sound: sound(&h.hitsound),
        sample: h.hitsample.as_ref().map(hs),
        k: match &h.obj_params {
            HitCircle => HoK::Circle,
            Slider(s) => HoK::Slider {
                curve: match s.curve_type {
                    lib::hitobjects::CurveType::Bezier => 0,
                    lib::hitobjects::CurveType::Centripetal => 1,
                    lib::hitobjects::CurveType::Linear => 2,
                    lib::hitobjects::CurveType::PerfectCircle => 3,
                    _ => 200,
                },
                points: s.curve_points.iter().map(|p| pos(&p.0)).collect(),
                slides: s.slides,
                length: d(&s.length),
                sounds: s.edge_sounds.iter().map(sound_text).collect(),
                sets: s
                    .edge_sets
                    .iter()
                    .map(|s| (ho_set(s.normal_set), ho_set(s.addition_set)))
                    .collect(),
                level: 0,
                first: None,
            },
            Spinner { end_time } => HoK::Spinner { end: d(end_time) },
            OsuManiaHold { end_time } => HoK::Hold { end: d(end_time) },
            _ => panic!("MONITOR: unknown hit object {h:?}"),
        },
        type_extra: 0,
        sound_extra: 0,
        trail: false,
    }
}

pub fn easing(e: lt::Easing) -> i32 {
    use lt::Easing::*;
    let names = [
        Linear,
        EasingOut,
        EasingIn,
        QuadIn,
        QuadOut,
        QuadInOut,
        CubicIn,
        CubicOut,
        CubicInOut,
        QuartIn,
        QuartOut,
        QuartInOut,
        QuintIn,
        QuintOut,
        QuintInOut,
        SineIn,
        SineOut,
        SineInOut,
        ExpoIn,
        ExpoOut,
        ExpoInOut,
        CircIn,
        CircOut,
        CircInOut,
        ElasticIn,
        ElasticOut,
        ElasticHalfOut,
        ElasticQuarterOut,
        ElasticInOut,
        BackIn,
        BackOut,
        BackInOut,
        BounceIn,
        BounceOut,
        BounceInOut,
    ];
    match e {
        Other(n) => n,
        e => names
            .iter()
            .position(|n| *n == e)
            .map_or(-77_777, |n| n as i32),
    }
}

pub fn trigger(t: &lt::TriggerType) -> Tt {
    use lt::TriggerType::*;
    let set = |s: lt::SampleSet| match s {
        lt::SampleSet::All => 0,
        lt::SampleSet::Normal => 1,
        lt::SampleSet::Soft => 2,
        lt::SampleSet::Drum => 3,
        _ => 200,
    };
    match t {
        Passing => Tt::Passing,
        Failing => Tt::Failing,
        HitSound {
            sample_set,
            additions_sample_set,
            addition,
            custom_sample_set,
        } => Tt::HitSound {
            set: sample_set.map(set),
            add_set: additions_sample_set.map(set),
            addition: addition.map(|a| match a {
                lt::Addition::Whistle => 0,
                lt::Addition::Finish => 1,
                lt::Addition::Clap => 2,
                _ => 200,
            }),
            custom: *custom_sample_set,
        },
        _ => panic!("MONITOR: unknown trigger {t:?}"),
    }
}

pub fn param(p: &lt::Parameter) -> u8 {
    match p {
        lt::Parameter::ImageFlipHorizontal => 0,
        lt::Parameter::ImageFlipVertical => 1,
        lt::Parameter::UseAdditiveColourBlending => 2,
        _ => 200,
    }
}

pub fn cmd(c: &lc::Command) -> Cmd {
    use lc::CommandProperties::*;
    let one = |op, e: &lt::Easing, end: &Option<i32>, s: &lib::Decimal, c: &[lib::Decimal]| {
        CmdK::Vals {
            op,
            easing: easing(*e),
            end: *end,
            vals: std::iter::once(s).chain(c).map(d).collect(),
        }
    };
    let two = |op, e: &lt::Easing, end: &Option<i32>, f: &lc::ContinuingFields<lib::Decimal>| {
        let mut vals = vec![d(&f.start_values().0), d(&f.start_values().1)];
        for (a, b) in f.continuing_fields() {
            vals.push(d(a));
            vals.extend(b.as_ref().map(d));
        }
        CmdK::Vals {
            op,
            easing: easing(*e),
            end: *end,
            vals,
        }
    };
    let k = match &c.properties {
        Fade {
            easing,
            end_time,
            start_opacity,
            continuing_opacities,
        } => one("F", easing, end_time, start_opacity, continuing_opacities),
        MoveX {
            easing,
            end_time,
            start_x,
            continuing_x,
        } => one("MX", easing, end_time, start_x, continuing_x),
        MoveY {
            easing,
            end_time,
            start_y,
            continuing_y,
        } => one("MY", easing, end_time, start_y, continuing_y),
        Scale {
            easing,
            end_time,
            start_scale,
            continuing_scales,
        } => one("S", easing, end_time, start_scale, continuing_scales),
        Rotate {
            easing,
            end_time,
            start_rotation,
            continuing_rotations,
        } => one("R", easing, end_time, start_rotation, continuing_rotations),
        Move {
            easing,
            end_time,
            positions_xy,
        } => two("M", easing, end_time, positions_xy),
        VectorScale {
            easing,
            end_time,
            scales_xy,
        } => two("V", easing, end_time, scales_xy),
        Colour {
            easing: e,
            end_time,
            colours,
        } => {
            let s = colours.start_rgb();
            let mut vals = vec![s.0, s.1, s.2];
            for (a, b, c) in colours.continuing_fields() {
                vals.push(*a);
                vals.extend(b);
                vals.extend(c);
            }
            CmdK::Colour {
                easing: easing(*e),
                end: *end_time,
                vals,
            }
        }
        Parameter {
            easing: e,
            end_time,
            parameter,
            continuing_parameters,
        } => CmdK::Param {
            easing: easing(*e),
            end: *end_time,
            vals: std::iter::once(parameter)
                .chain(continuing_parameters)
                .map(param)
                .collect(),
        },
        Loop {
            loop_count,
            commands,
        } => CmdK::Loop {
            count: *loop_count,
            cmds: cmds(commands),
        },
        Trigger {
            trigger_type,
            end_time,
            group_number,
            commands,
        } => CmdK::Trigger {
            tt: trigger(trigger_type),
            end: *end_time,
            group: *group_number,
            cmds: cmds(commands),
        },
        _ => panic!("MONITOR: unknown command {c:?}"),
    };
    Cmd {
        start: c.start_time,
        k,
    }
}

pub fn cmds(c: &[lc::Command]) -> Vec<Cmd> {
    c.iter().map(cmd).collect()
}

fn layer_legacy(l: lib::events::normal_event::types::LayerLegacy) -> u8 {
    <usize as VersionedFrom<_>>::from(l, 14).expect("MONITOR: no code or text for a value") as u8
}
fn origin_legacy(l: lib::events::normal_event::types::OriginTypeLegacy) -> u8 {
    <usize as VersionedFrom<_>>::from(l, 14).expect("MONITOR: no code or text for a value") as u8
}

pub fn origin_type(o: ls::OriginType) -> i32 {
    use ls::OriginType::*;
    [
        TopLeft,
        Centre,
        CentreLeft,
        TopRight,
        BottomCentre,
        TopCentre,
        Custom,
        CentreRight,
        BottomLeft,
        BottomRight,
    ]
    .iter()
    .position(|x| *x == o)
    .map_or(-77_777, |n| n as i32)
}

pub fn layer(l: ls::Layer) -> u8 {
    use ls::Layer::*;
    match l {
        Background => 0,
        Fail => 1,
        Pass => 2,
        Foreground => 3,
        Overlay => 4,
        _ => 200,
    }
}

pub fn event(e: &lib::events::Event) -> Ev {
    use lib::events::Event::*;
    let optpos = |p: &Option<lib::Position>| p.as_ref().map(pos);
    let (k, c): (EvK, &[lc::Command]) = match e {
        Comment(c) => (EvK::Comment(c.clone()), &[]),
        Background(b) => (
            EvK::Background {
                start: b.start_time,
                file: fp(&b.file_name),
                pos: optpos(&b.position),
            },
            b.commands(),
        ),
        Video(b) => (
            EvK::Video {
                long: false,
                start: b.start_time,
                file: fp(&b.file_name),
                pos: optpos(&b.position),
            },
            b.commands(),
        ),
        Break(b) => (
            EvK::Break {
                long: false,
                start: b.start_time,
                end: b.end_time,
            },
            &[],
        ),
        ColourTransformation(c) => (
            EvK::ColourTrans {
                start: c.start_time,
                rgb: [c.red, c.green, c.blue],
            },
            &[],
        ),
        SpriteLegacy(b) => (
            EvK::SpriteLegacy {
                layer: layer_legacy(b.layer),
                origin: origin_legacy(b.origin),
                file: fp(&b.file_name),
                pos: optpos(&b.position),
            },
            b.commands(),
        ),
        AnimationLegacy(b) => (
            EvK::AnimationLegacy {
                layer: layer_legacy(b.layer),
                origin: origin_legacy(b.origin),
                file: fp(&b.file_name),
                pos: optpos(&b.position),
            },
            b.commands(),
        ),
        SampleLegacy(b) => (
            EvK::SampleLegacy {
                time: d(&b.time),
                layer: layer_legacy(b.layer),
                file: fp(&b.file_name),
                vol: b.volume.map(|v| v.get()),
            },
            b.commands(),
        ),
        StoryboardObject(o) => {
            let layer = layer(o.layer);
            let named = !o.origin.shorthand;
            let origin = match o.origin.type_ {
                Either::Left(t) => origin_type(t),
                Either::Right(n) => {
                    assert!(
                        !(0..10).contains(&n),
                        "MONITOR: origin {n} isn't the documented origin"
                    );
                    n
                }
            };
            let k = match &o.object_type {
                ls::ObjectType::Sprite(s) => EvK::Sprite {
                    layer,
                    origin,
                    named,
                    file: fp(&s.filepath),
                    pos: pos(&o.position),
                },
                ls::ObjectType::Animation(a) => EvK::Animation {
                    layer,
                    origin,
                    named,
                    file: fp(&a.filepath),
                    pos: pos(&o.position),
                    frames: a.frame_count,
                    delay: rd(&a.frame_delay),
                    once: a.loop_type == ls::LoopType::LoopOnce,
                    omit_loop: false,
                },
                _ => panic!("MONITOR: unknown object {o:?}"),
            };
            (k, o.commands())
        }
        AudioSample(a) => (
            EvK::Audio {
                time: a.time,
                layer: match a.layer {
                    lib::events::Layer::Background => 0,
                    lib::events::Layer::Fail => 1,
                    lib::events::Layer::Pass => 2,
                    lib::events::Layer::Foreground => 3,
                    _ => 200,
                },
                file: fp(&a.filepath),
                vol: a.volume.get(),
                omit_vol: false,
            },
            &[],
        ),
        _ => panic!("MONITOR: unknown event {e:?}"),
    };
    Ev { k, cmds: cmds(c) }
}

pub fn events(e: &lib::Events) -> Vec<Ev> {
    e.0.iter().map(event).collect()
}

pub fn doc(f: &lib::OsuFile) -> Doc {
    Doc {
        v: f.version,
        kv: [
            f.general.as_ref().map(general),
            f.editor.as_ref().map(editor),
            f.metadata.as_ref().map(metadata),
            f.difficulty.as_ref().map(difficulty),
        ],
        events: f.events.as_ref().map(events),
        tps: f
            .timing_points
            .as_ref()
            .map(|t| t.0.iter().map(tp).collect()),
        colours: f
            .colours
            .as_ref()
            .map(|t| t.0.iter().map(colour).collect()),
        hos: f.hitobjects.as_ref().map(|t| t.0.iter().map(ho).collect()),
    }
}

pub fn osb(o: &lib::Osb) -> OsbDoc {
    OsbDoc {
        vars: o.variables.as_ref().map(|v| {
            v.iter()
                .map(|v| (v.name.clone(), v.value.clone()))
                .collect()
        }),
        events: o.events.as_ref().map(events),
    }
}
