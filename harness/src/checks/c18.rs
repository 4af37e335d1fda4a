//! Documents built or edited in code are written as the file that says the same.
use super::c03::first_diff;
use super::c09::edges;
use crate::core::*;
use crate::ensure;
use crate::ext;
use crate::gen::{self, Opt};
use crate::mk;
use crate::model::*;
use crate::render::*;
use crate::rng::Rng;
use crate::sut;
use lib::events::{Event, EventWithCommands};
use lib::{VersionedFrom, VersionedToString};
use osu_file_parser as lib;

pub const C18: Check = Check {
    id: "C18",
    cases: (240_000, 3_000_000),
    rule: "a document built through the public interface, or one that was read and then edited up to 12 times (fields set, elements replaced, inserted, removed, swapped, sections added and dropped), whose text was compared with the reference renderer's after every edit and read back at the end; distinct by text and edits",
    assumptions: &[
        "texts set in code have no line breaks or surrounding whitespace",
        "times within 24 ms of the lower end of the 32-bit range are left out at versions 3 and 4",
        "a hold note without hit sample means the same as one with the default hit sample",
    ],
    need: &[
        ("built", 10_000),
        ("built by pushing commands", 4000),
        ("edited", 10_000),
        ("parts written on their own", 50_000),
        ("edits", 40_000),
        ("built storyboard file", 3000),
        ("edit: object field", 3000),
        ("edit: timing point field", 3000),
        ("edit: event field", 2000),
        ("edit: commands", 1000),
        ("edit: section dropped", 500),
    ],
    run,
    known: None,
    exhaustive: false,
};

fn trim(v: &mut V) {
    match v {
        V::Text(t) => *t = t.trim().to_string(),
        V::Dec(d) => plain_dec(d),
        _ => (),
    }
}
fn plain_dec(d: &mut D) {
    if let D::R(t) = d {
        if t.trim() != t.as_str() {
            *d = D::int(7);
        }
    }
}

/// Leaves out what can't be built, or not at that version.
fn sane(doc: &Doc) -> Doc {
    let v = doc.v;
    let mut d = mk::buildable(&project_read(doc, v));
    for kv in d.kv.iter_mut().flatten().flatten() {
        trim(&mut kv.val);
    }
    if v == 3 {
        for t in d.tps.iter_mut().flatten() {
            (t.meter, t.set, t.index, t.volume) = (4, 1, 1, 100);
        }
    }
    for e in d.events.iter_mut().flatten() {
        if let EvK::Comment(c) = &mut e.k {
            *c = c.trim().to_string();
        }
    }
    for h in d.hos.iter_mut().flatten() {
        ho_sane(h, v);
    }
    d
}

/// As the constructor spells it.
fn ho_sane(h: &mut Ho, v: u8) {
    h.type_extra = 0;
    h.sound_extra = 0;
    h.trail = v == 3 && matches!(h.k, HoK::Circle) && h.sample.is_none();
    match &mut h.k {
        HoK::Slider { level, first, sets, sounds, .. } => {
            *first = None;
            *level = if h.sample.is_some() {
                3
            } else if !sets.is_empty() {
                2
            } else {
                if sounds.is_empty() { 0 } else { 1 }
            };
        }
        HoK::Hold { .. } => {
            h.sample.get_or_insert_with(Hs::default);
        }
        _ => (),
    }
}

fn check(f: &lib::OsuFile, m: &Doc, what: &str) -> Result<String, Fail> {
    let out = f.to_string();
    let expected = plain(Some(m.v), &sections(&after_write(m, m.v)));
    ensure!(
        normal_form(&out) == normal_form(&expected),
        "{what} is written as something else: {}",
        first_diff(&normal_form(&expected), &normal_form(&out))
    );
    Ok(out)
}

/// A section, an object and a command are written on their own as they are in the file.
fn parts(cx: &mut Cx, f: &lib::OsuFile, out: &str) -> Res {
    use lib::events::{Event, EventWithCommands};
    use VersionedToString as W;
    let v = f.version;
    let mut n = 0;
    let mut want = format!("osu file format v{v}\n\n");
    let mut first = true;
    let mut add = |name: &str, text: Option<String>| {
        if let Some(t) = text {
            want += if first { "" } else { "\n\n" };
            want += &format!("[{name}]\n{t}");
            first = false;
        }
    };
    add("General", f.general.as_ref().and_then(|s| s.to_string(v)));
    add("Editor", f.editor.as_ref().and_then(|s| s.to_string(v)));
    add("Metadata", f.metadata.as_ref().and_then(|s| s.to_string(v)));
    add("Difficulty", f.difficulty.as_ref().and_then(|s| s.to_string(v)));
    add("Events", f.events.as_ref().and_then(|s| W::to_string(s, v)));
    add("TimingPoints", f.timing_points.as_ref().and_then(|s| W::to_string(s, v)));
    add("Colours", f.colours.as_ref().and_then(|s| W::to_string(s, v)));
    add("HitObjects", f.hitobjects.as_ref().and_then(|s| W::to_string(s, v)));
    ensure!(out == want, "the sections on their own are written differently: {}", first_diff(&want, out));
    fn lines<T: W>(items: &[T], v: u8) -> String {
        items.iter().filter_map(|i| i.to_string(v)).collect::<Vec<_>>().join("\n")
    }
    if let Some(e) = &f.events {
        let (w, g) = (W::to_string(e, v).unwrap_or_default(), lines(&e.0, v));
        ensure!(w == g, "the events on their own are written differently: {}", first_diff(&w, &g));
        for e in &e.0 {
            let none: &[lib::events::storyboard::cmds::Command] = &[];
            let (own, cmds, head) = match e {
                Event::Background(o) => (W::to_string(o, v), o.commands(), o.to_string_cmd(v)),
                Event::Video(o) => (W::to_string(o, v), o.commands(), o.to_string_cmd(v)),
                Event::SpriteLegacy(o) => (W::to_string(o, v), o.commands(), o.to_string_cmd(v)),
                Event::AnimationLegacy(o) => (W::to_string(o, v), o.commands(), o.to_string_cmd(v)),
                Event::SampleLegacy(o) => (W::to_string(o, v), o.commands(), o.to_string_cmd(v)),
                Event::StoryboardObject(o) => (W::to_string(o, v), o.commands(), o.to_string_cmd(v)),
                Event::Break(o) => (W::to_string(o, v), none, W::to_string(o, v)),
                Event::ColourTransformation(o) => (W::to_string(o, v), none, W::to_string(o, v)),
                Event::AudioSample(o) => (W::to_string(o, v), none, W::to_string(o, v)),
                _ => continue,
            };
            let whole = W::to_string(e, v);
            ensure!(own == whole, "an event is written as {whole:?}, what is in it as {own:?}");
            let Some(whole) = whole else {
                ensure!(head.is_none(), "an event that isn't written has the head {head:?}");
                continue;
            };
            let mut ls = whole.split('\n');
            ensure!(ls.next() == head.as_deref(), "{whole:?} has the head {head:?}");
            for c in cmds {
                let c = W::to_string(c, v);
                let l = ls.find(|l| !l.starts_with("  ")).and_then(|l| l.strip_prefix(' '));
                ensure!(l == c.as_deref(), "a command is written as {c:?} on its own and as {l:?} in {whole:?}");
                n += 1;
            }
            n += 1;
        }
    }
    if let Some(t) = &f.timing_points {
        let (w, g) = (W::to_string(t, v).unwrap_or_default(), lines(&t.0, v));
        ensure!(w == g, "the timing points on their own are written differently: {}", first_diff(&w, &g));
        n += t.0.len();
    }
    if let Some(c) = &f.colours {
        if let Some(w) = W::to_string(c, v) {
            let g = lines(&c.0, v);
            ensure!(w == g, "the colours on their own are written differently: {}", first_diff(&w, &g));
            n += c.0.len();
        }
    }
    if let Some(h) = &f.hitobjects {
        let (w, g) = (W::to_string(h, v).unwrap_or_default(), lines(&h.0, v));
        ensure!(w == g, "the hit objects on their own are written differently: {}", first_diff(&w, &g));
        n += h.0.len();
    }
    for _ in 0..n {
        cx.count("parts written on their own");
    }
    Ok(())
}

fn check_back(f: &lib::OsuFile, m: &Doc, out: &str, what: &str) -> Res {
    let g = sut::accept(out, &format!("the text of {what}"))?;
    sut::same_doc(&norm(&project_read(&after_write(m, m.v), m.v)), &g, &format!("{what}, read back"))?;
    ensure!(g.to_string() == out, "{what}, read back and written: {}", first_diff(out, &g.to_string()));
    let _ = f;
    Ok(())
}

enum Op {
    Replace,
    Insert,
    Remove,
    Swap,
    Append,
}

fn list_op<A, B>(r: &mut Rng, m: &mut Vec<A>, f: &mut Vec<B>, a: A, b: B) -> &'static str {
    let op = match r.below(5) {
        0 => Op::Replace,
        1 => Op::Insert,
        2 => Op::Remove,
        3 => Op::Swap,
        _ => Op::Append,
    };
    let n = m.len();
    if n == 0 {
        m.push(a);
        f.push(b);
        return "element appended";
    }
    let i = r.below(n);
    match op {
        Op::Replace => {
            m[i] = a;
            f[i] = b;
            "element replaced"
        }
        Op::Insert => {
            m.insert(i, a);
            f.insert(i, b);
            "element inserted"
        }
        Op::Remove => {
            m.remove(i);
            f.remove(i);
            "element removed"
        }
        Op::Swap => {
            let j = r.below(n);
            m.swap(i, j);
            f.swap(i, j);
            "elements swapped"
        }
        Op::Append => {
            m.push(a);
            f.push(b);
            "element appended"
        }
    }
}

fn one_item(r: &mut Rng, v: u8, o: &Opt, pick: usize) -> Doc {
    let mut d = Doc::empty(v);
    match pick {
        0 => d.hos = Some(vec![gen::ho(r, v, o)]),
        1 => d.tps = Some(vec![gen::tp(r, v, o)]),
        2 => d.colours = Some(vec![gen::colour(r, o)]),
        _ => d.events = Some(vec![gen::event(r, o)]),
    }
    let mut d = sane(&d);
    if let Some(e) = &mut d.events {
        norm_events(e);
    }
    d
}

fn int_dec(r: &mut Rng) -> D {
    let mut d = gen::dec(r, false);
    plain_dec(&mut d);
    d
}

fn edit_ho(r: &mut Rng, v: u8, o: &Opt, m: &mut Ho, f: &mut lib::hitobjects::HitObject) {
    use lib::hitobjects::*;
    match r.below(11) {
        0 => {
            m.x = int_dec(r);
            f.position.x = mk::d(&m.x);
        }
        1 => {
            m.y = int_dec(r);
            f.position.y = mk::d(&m.y);
        }
        2 => {
            m.time = int_dec(r);
            f.time = mk::d(&m.time);
        }
        3 => {
            m.new_combo = !m.new_combo;
            f.new_combo = m.new_combo;
        }
        4 => {
            m.skip = r.below(8) as u8;
            let _ = f.combo_skip_count.set(m.skip, 14);
        }
        5 => {
            m.sound = r.below(16) as u8;
            f.hitsound = mk::sound(m.sound);
        }
        6 => {
            let bit = 1 + r.below(3);
            let on = r.bool();
            m.sound = if on { m.sound | 1 << bit } else { m.sound & !(1 << bit) };
            match bit {
                1 => f.hitsound.set_whistle(on),
                2 => f.hitsound.set_finish(on),
                _ => f.hitsound.set_clap(on),
            }
        }
        7 => {
            let o = Opt { spell: false, ..o.clone() };
            let s = gen::hs(r, &o);
            f.hitsample = Some(mk::hs(&s));
            m.sample = Some(s);
            m.trail = false;
            if let HoK::Slider { level, .. } = &mut m.k {
                *level = 3;
            }
        }
        8 => {
            if matches!(m.k, HoK::Hold { .. }) {
                m.sample = Some(Hs::default());
                f.hitsample = Some(mk::hs(&Hs::default()));
            } else {
                // what it was given stays in the text
                if let HoK::Slider { level, .. } = &mut m.k {
                    if m.sample.is_some() {
                        return;
                    }
                    *level = (*level).min(2);
                }
                m.sample = None;
                f.hitsample = None;
                m.trail = v == 3 && matches!(m.k, HoK::Circle);
            }
        }
        9 => {
            if let Some(s) = &mut m.sample {
                let h = f.hitsample.as_mut().expect("MONITOR: the sample is gone");
                match r.below(4) {
                    0 => {
                        s.normal = r.below(5);
                        h.normal_set = mk::ho_set(s.normal);
                    }
                    1 => {
                        s.addition = r.below(5);
                        h.addition_set = mk::ho_set(s.addition);
                    }
                    2 => {
                        s.volume = Some(1 + r.below(100) as u8);
                        h.volume.set_volume(s.volume.unwrap()).expect("MONITOR: volume rejected");
                    }
                    _ => {
                        s.volume = None;
                        h.volume.set_use_timing_point_volume();
                    }
                }
            }
        }
        _ => match (&mut m.k, &mut f.obj_params) {
            (HoK::Slider { slides, length, points, curve, .. }, HitObjectParams::Slider(p)) => match r.below(4) {
                0 => {
                    *slides = 1 + r.below(9) as i32;
                    p.slides = *slides;
                }
                1 => {
                    *length = int_dec(r);
                    p.length = mk::d(length);
                }
                2 => {
                    let q = (int_dec(r), int_dec(r));
                    p.curve_points.push(CurvePoint(mk::pos(&q)));
                    points.push(q);
                }
                _ => {
                    *curve = r.below(4) as u8;
                    p.curve_type = [CurveType::Bezier, CurveType::Centripetal, CurveType::Linear, CurveType::PerfectCircle]
                        [*curve as usize];
                }
            },
            (HoK::Spinner { end }, HitObjectParams::Spinner { end_time })
            | (HoK::Hold { end }, HitObjectParams::OsuManiaHold { end_time }) => {
                *end = int_dec(r);
                *end_time = mk::d(end);
            }
            _ => {
                // another kind of object
                let end = int_dec(r);
                f.obj_params = HitObjectParams::Spinner { end_time: mk::d(&end) };
                m.k = HoK::Spinner { end };
                m.trail = false;
            }
        },
    }
}

fn edit_tp(r: &mut Rng, v: u8, m: &mut Tp, f: &mut lib::timingpoints::TimingPoint) {
    use lib::timingpoints::*;
    let n = match v {
        3 => 1,
        4 => 5,
        _ => 9,
    };
    match r.below(n) {
        0 => {
            let t = gen::int(r, false);
            m.time = D::int(i64::from(t));
            f.set_time(t);
        }
        1 => {
            m.meter = gen::int(r, true);
            f.set_meter(m.meter);
        }
        2 => {
            m.set = r.below(4) as i32;
            f.set_sample_set(<SampleSet as VersionedFrom<i32>>::from(m.set, 14).expect("MONITOR: sample set"));
        }
        3 => {
            m.index = r.below(100) as u32;
            *f.sample_index_mut() = <SampleIndex as VersionedFrom<u32>>::from(m.index, 14).expect("MONITOR: sample index");
        }
        4 => {
            m.volume = r.below(101) as i32;
            f.set_volume(Volume::new(m.volume, 14).expect("MONITOR: volume"));
        }
        5 | 6 => {
            m.uninh = Some(r.bool());
            f.set_uninherited(m.uninh.unwrap());
        }
        7 => {
            let e = *r.pick(&[0u32, 1, 8, 9, 2, 1 << 31]);
            m.effects = Some(e);
            *f.effects_mut() = <Effects as VersionedFrom<u32>>::from(e, 14);
        }
        _ => {
            if let (Some(e), Some(x)) = (&mut m.effects, f.effects_mut()) {
                let on = r.bool();
                let bit = if r.bool() { 0 } else { 3 };
                *e = if on { *e | 1 << bit } else { *e & !(1 << bit) };
                if bit == 0 {
                    x.set_kiai_time_enabled(on);
                } else {
                    x.set_no_first_barline_in_taiko_mania(on);
                }
            }
        }
    }
}

fn edit_event(r: &mut Rng, o: &Opt, m: &mut Ev, f: &mut Event) -> &'static str {
    let commands: Option<&mut Vec<lib::events::storyboard::cmds::Command>> = match f {
        Event::Background(e) => Some(e.commands_mut()),
        Event::Video(e) => Some(e.commands_mut()),
        Event::SpriteLegacy(e) => Some(e.commands_mut()),
        Event::AnimationLegacy(e) => Some(e.commands_mut()),
        Event::SampleLegacy(e) => Some(e.commands_mut()),
        Event::StoryboardObject(e) => Some(e.commands_mut()),
        _ => None,
    };
    if let (Some(c), true) = (commands, r.chance(60)) {
        let n = gen::cmd(r, o.hostile, 0);
        let b = mk::cmd(&n);
        list_op(r, &mut m.cmds, c, n, b);
        return "commands";
    }
    let t = r.range(-500, 400_000) as i32;
    let p = || (D::int(i64::from(t) + 1), D::int(i64::from(t) - 2));
    match (&mut m.k, f) {
        (EvK::Comment(c), Event::Comment(d)) => {
            *c = format!("comment {t}");
            d.clone_from(c);
        }
        (EvK::Background { start, pos, file }, Event::Background(e)) => match r.below(3) {
            0 => {
                *start = t;
                e.start_time = t;
            }
            1 => {
                *pos = Some(p());
                e.position = Some(mk::pos(&p()));
            }
            _ => {
                *file = format!("new{t}.png");
                e.file_name.set(&*file);
            }
        },
        (EvK::Video { start, pos, file, .. }, Event::Video(e)) => match r.below(3) {
            0 => {
                *start = t;
                e.start_time = t;
            }
            1 => {
                *pos = Some(p());
                e.position = Some(mk::pos(&p()));
            }
            _ => {
                *file = format!("new{t}.avi");
                e.file_name.set(&*file);
            }
        },
        (EvK::Break { start, end, .. }, Event::Break(e)) => {
            if r.bool() {
                *start = t;
                e.start_time = t;
            } else {
                *end = t;
                e.end_time = t;
            }
        }
        (EvK::ColourTrans { start, rgb }, Event::ColourTransformation(e)) => match r.below(4) {
            0 => {
                *start = t;
                e.start_time = t;
            }
            1 => {
                rgb[0] = t as u8;
                e.red = t as u8;
            }
            2 => {
                rgb[1] = t as u8;
                e.green = t as u8;
            }
            _ => {
                rgb[2] = t as u8;
                e.blue = t as u8;
            }
        },
        (EvK::Sprite { pos, .. } | EvK::Animation { pos, .. }, Event::StoryboardObject(e)) => {
            *pos = p();
            e.position = mk::pos(&p());
        }
        (EvK::Audio { time, vol, .. }, Event::AudioSample(e)) => {
            if r.bool() {
                *time = t;
                e.time = t;
            } else {
                *vol = t.unsigned_abs() as u8 % 101;
                e.volume.set(*vol, 14).expect("MONITOR: volume rejected");
            }
        }
        (EvK::SpriteLegacy { file, .. }, Event::SpriteLegacy(e)) => {
            *file = format!("new{t}.png");
            e.file_name.set(&*file);
        }
        (EvK::AnimationLegacy { pos, .. }, Event::AnimationLegacy(e)) => {
            *pos = Some(p());
            e.position = Some(mk::pos(&p()));
        }
        (EvK::SampleLegacy { vol, .. }, Event::SampleLegacy(e)) => {
            *vol = None;
            e.volume = None;
        }
        _ => panic!("MONITOR: an event changed its kind"),
    }
    "event field"
}

fn edit(r: &mut Rng, o: &Opt, m: &mut Doc, f: &mut lib::OsuFile) -> Option<&'static str> {
    let v = m.v;
    Some(match r.below(13) {
        0 | 1 => {
            let (ml, fl) = (m.hos.as_mut()?, &mut f.hitobjects.as_mut()?.0);
            let mut h = one_item(r, v, o, 0).hos?.pop()?;
            h.sample = h.sample.map(|s| Hs { fields: 5, ..s });
            let b = mk::ho(&h);
            list_op(r, ml, fl, h, b)
        }
        2 => {
            let (ml, fl) = (m.tps.as_mut()?, &mut f.timing_points.as_mut()?.0);
            let t = one_item(r, v, o, 1).tps?.pop()?;
            let b = mk::tp(&t)?;
            list_op(r, ml, fl, t, b)
        }
        3 => {
            let (ml, fl) = (m.colours.as_mut()?, &mut f.colours.as_mut()?.0);
            let t = one_item(r, v, o, 2).colours?.pop()?;
            let b = mk::colour(&t);
            list_op(r, ml, fl, t, b)
        }
        4 => {
            let (ml, fl) = (m.events.as_mut()?, &mut f.events.as_mut()?.0);
            let t = one_item(r, v, o, 3).events?.pop()?;
            let push = r.bool();
            let b = mk::event(&t, push);
            list_op(r, ml, fl, t, b)
        }
        5 | 6 => {
            let (ml, fl) = (m.hos.as_mut()?, &mut f.hitobjects.as_mut()?.0);
            if ml.is_empty() {
                return None;
            }
            let i = r.below(ml.len());
            edit_ho(r, v, o, &mut ml[i], &mut fl[i]);
            "object field"
        }
        7 | 8 => {
            let (ml, fl) = (m.tps.as_mut()?, &mut f.timing_points.as_mut()?.0);
            if ml.is_empty() {
                return None;
            }
            let i = r.below(ml.len());
            edit_tp(r, v, &mut ml[i], &mut fl[i]);
            "timing point field"
        }
        9 | 10 => {
            let (ml, fl) = (m.events.as_mut()?, &mut f.events.as_mut()?.0);
            if ml.is_empty() {
                return None;
            }
            let i = r.below(ml.len());
            edit_event(r, o, &mut ml[i], &mut fl[i])
        }
        11 => {
            let s = r.below(4);
            let mut d = Doc::empty(v);
            d.kv[s] = Some(gen::kv_section(r, s, v, o));
            let d = sane(&d);
            let new = d.kv[s].clone()?;
            // one field of it, or all of it
            let mut have = m.kv[s].clone().unwrap_or_default();
            if r.chance(60) && m.kv[s].is_some() {
                let k = new.first()?.clone();
                have.retain(|x| x.key != k.key);
                if r.chance(75) {
                    have.push(k);
                }
            } else {
                have = new;
            }
            match s {
                0 => f.general = Some(mk::general(&have)),
                1 => f.editor = Some(mk::editor(&have)),
                2 => f.metadata = Some(mk::metadata(&have)),
                _ => f.difficulty = Some(mk::difficulty(&have)),
            }
            m.kv[s] = Some(have);
            "pairs"
        }
        _ => {
            match r.below(8) {
                0 => (m.kv[0], f.general) = (None, None),
                1 => (m.kv[1], f.editor) = (None, None),
                2 => (m.kv[2], f.metadata) = (None, None),
                3 => (m.kv[3], f.difficulty) = (None, None),
                4 => (m.events, f.events) = (None, None),
                5 => (m.tps, f.timing_points) = (None, None),
                6 => (m.colours, f.colours) = (None, None),
                _ => (m.hos, f.hitobjects) = (None, None),
            }
            "section dropped"
        }
    })
}

fn run(cx: &mut Cx) -> Res {
    let v = gen::version(&mut cx.r);
    let o = Opt::usual(&mut cx.r);
    let k = cx.r.below(10);
    if k < 1 {
        let push = cx.r.bool();
        let mut doc = gen::osb(&mut cx.r, &Opt { spell: false, ..o });
        if cx.r.bool() {
            doc.vars = None;
        }
        for e in doc.events.iter_mut().flatten() {
            if let EvK::Comment(c) = &mut e.k {
                *c = c.trim().to_string();
            }
        }
        if let Some(e) = &mut doc.events {
            norm_events(e);
        }
        cx.note("document", format!("{doc:?}"));
        let b = mk::osb(&doc, push);
        let out = sut::osb_text(&b)?;
        cx.note("osb", out.as_str());
        let left = OsbDoc { vars: doc.vars.clone(), events: doc.events.as_ref().map(|e| events_after_write(e, 14)) };
        if doc.vars.as_ref().is_none_or(Vec::is_empty) {
            let e = plain(None, &osb_sections(&left));
            ensure!(e == out, "a built .osb is written as something else: {}", first_diff(&e, &out));
        }
        let g = sut::accept_osb(&out, "the text of a built .osb")?;
        let (mut e, mut got) = (left, ext::osb(&g));
        for d in [&mut e, &mut got] {
            if let Some(ev) = &mut d.events {
                norm_events(ev);
            }
        }
        ensure!(e == got, "a built .osb, read back: {}", diff(&e, &got));
        let mut f = lib::OsuFile::new(v);
        let before = f.to_string();
        f.osb = Some(b);
        ensure!(f.osb_to_string() == VersionedToString::to_string(f.osb.as_ref().unwrap(), v), "the .osb of a file is written differently");
        ensure!(f.to_string() == before, "a file's .osb is in the .osu");
        cx.count("built storyboard file");
        cx.eval(&doc, doc.events.is_some());
        return Ok(());
    }
    if k < 5 {
        let doc = sane(&gen::doc(&mut cx.r, v, &o));
        if v <= 4 && edges(&doc) {
            return Ok(());
        }
        let push = cx.r.bool();
        cx.note("document", format!("{doc:?}"));
        let f = mk::doc(&doc, push);
        let out = check(&f, &doc, "a built document")?;
        cx.note("text", out.as_str());
        check_back(&f, &doc, &out, "a built document")?;
        parts(cx, &f, &out)?;
        cx.count("built");
        if push {
            cx.count("built by pushing commands");
        }
        cx.sample(|| out.clone());
        cx.eval(&out, doc.items() > 0);
        return Ok(());
    }
    let o = Opt { gated: false, spell: false, ..o };
    let mut m = project_read(&gen::doc(&mut cx.r, v, &o), v);
    for h in m.hos.iter_mut().flatten() {
        if matches!(h.k, HoK::Hold { .. }) {
            h.sample.get_or_insert_with(Hs::default);
        }
        if h.trail {
            h.sample = Some(Hs::default());
            h.trail = false;
        }
    }
    let text = plain(Some(v), &sections(&m));
    cx.note("text", text.as_str());
    let mut f = sut::accept(&text, "a well-formed file")?;
    let n = 1 + cx.r.below(12);
    let mut done = String::new();
    for _ in 0..n {
        let Some(what) = edit(&mut cx.r, &o, &mut m, &mut f) else { continue };
        done += what;
        done.push(';');
        cx.note("edit", what);
        if v <= 4 && edges(&m) {
            return Ok(());
        }
        check(&f, &m, &format!("a file with an edit ({what})"))?;
        cx.count("edits");
        cx.count(&format!("edit: {what}"));
    }
    let out = check(&f, &m, "an edited file")?;
    check_back(&f, &m, &out, "an edited file")?;
    parts(cx, &f, &out)?;
    cx.count("edited");
    cx.eval(&(&out, done), n > 0);
    Ok(())
}
