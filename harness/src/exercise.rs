//! Calls everything a user can call on a parsed value; the monitor is that all of it returns.
use crate::core::hash_of;
use crate::model::Doc;
use lib::events::storyboard::cmds::{Command, CommandProperties};
use lib::events::storyboard::sprites::ObjectType;
use lib::events::{Event, EventWithCommands};
use lib::{VersionedFrom, VersionedToString};
use osu_file_parser as lib;

pub fn file(f: &lib::OsuFile) -> u64 {
    let mut calls = 0;
    let _ = format!("{f:?}");
    let c = f.clone();
    assert!(c == *f && hash_of(&c) == hash_of(f), "MONITOR: a clone isn't equal");
    for v in 3..=14u8 {
        let mut g = c.clone();
        g.version = v;
        let _ = g.to_string();
        calls += 1;
    }
    if let Some(t) = &f.timing_points {
        for t in &t.0 {
            tp(t);
            calls += 1;
        }
    }
    if let Some(h) = &f.hitobjects {
        for h in &h.0 {
            ho(h);
            calls += 1;
        }
    }
    if let Some(e) = &f.events {
        calls += events(e);
    }
    let _ = f.osb_to_string();
    let _: Doc = crate::ext::doc(f);
    calls
}

pub fn osb(o: &lib::Osb) -> u64 {
    let _ = format!("{o:?}");
    for v in 3..=14 {
        let _ = VersionedToString::to_string(o, v);
    }
    let mut n = 12;
    if let Some(e) = &o.events {
        n += events(e);
        if let Some(vars) = &o.variables {
            for v in [3, 14] {
                let _ = e.to_string_variables(v, vars);
            }
        }
    }
    n
}

fn tp(t: &lib::timingpoints::TimingPoint) {
    let _ = t.calc_bpm();
    let _ = t.calc_slider_velocity_multiplier();
    let _ = (t.time(), t.meter(), t.sample_set(), t.sample_index(), t.volume(), t.uninherited());
    let _ = t.effects().map(|e| (e.kiai_time_enabled(), e.no_first_barline_in_taiko_mania()));
    let _ = <i32 as VersionedFrom<_>>::from(t.sample_index(), 14);
    let _ = <i32 as VersionedFrom<_>>::from(t.sample_set(), 14);
}

fn ho(h: &lib::hitobjects::HitObject) {
    let _ = (h.hitsound.normal(), h.hitsound.whistle(), h.hitsound.finish(), h.hitsound.clap());
    let _ = h.combo_skip_count.get();
    if let Some(s) = &h.hitsample {
        let _ = (s.volume.volume(), s.volume.use_timing_point_volume());
        let _ = <i32 as VersionedFrom<_>>::from(s.volume, 14);
    }
    for v in [3, 9, 14] {
        let _ = VersionedToString::to_string(h, v);
    }
}

pub fn events(e: &lib::Events) -> u64 {
    let mut n = 0;
    for e in &e.0 {
        n += 1;
        for v in [3, 14] {
            let _ = VersionedToString::to_string(e, v);
        }
        let c: &[Command] = match e {
            Event::Background(o) => o.commands(),
            Event::Video(o) => o.commands(),
            Event::SpriteLegacy(o) => o.commands(),
            Event::AnimationLegacy(o) => o.commands(),
            Event::SampleLegacy(o) => o.commands(),
            Event::StoryboardObject(o) => {
                if let ObjectType::Animation(a) = &o.object_type {
                    if a.frame_count <= 3000 {
                        assert_eq!(
                            a.frame_file_names().len(),
                            a.frame_count as usize,
                            "MONITOR: number of frames"
                        );
                    }
                }
                o.commands()
            }
            _ => &[],
        };
        n += cmds(c, 0);
    }
    n
}

fn cmds(c: &[Command], depth: usize) -> u64 {
    let mut n = 0;
    for c in c {
        n += 1;
        let _ = VersionedToString::to_string(c, 14);
        if let CommandProperties::Loop { commands, .. } | CommandProperties::Trigger { commands, .. } = &c.properties {
            n += cmds(commands, depth + 1);
        }
    }
    n
}
