//! Reading depends on the text alone: not on what was read before, the thread, or other sections.
use super::common::*;
use crate::core::*;
use crate::ensure;
use crate::faults;
use crate::gen::{self, Opt};
use crate::render::*;
use crate::share::Share;
use crate::sut;
use lib::events::storyboard::cmds;
use lib::VersionedFromStr;
use osu_file_parser as lib;

pub const C19: Check = Check {
    id: "C19",
    cases: (90_000, 1_500_000),
    rule: "a set of texts read one after another and on several threads at once, with all results compared; a file of which each section was read alone, or one section was exchanged; or a file to which storyboard files were appended, good and bad; distinct by texts",
    assumptions: &["sections are read alone without a blank first line, as the file's reader hands them on"],
    need: &[
        ("read again", 10_000),
        ("the same letters in another order", 2000),
        ("read on several threads", 4000),
        ("sections alone", 10_000),
        ("lines alone", 50_000),
        ("commands alone", 20_000),
        ("faulty sections alone", 2000),
        ("section exchanged", 3000),
        ("storyboard file appended", 2000),
        ("storyboard file refused", 2000),
        ("storyboard file at an older version", 500),
        ("threads at work at the same time", 500),
    ],
    run,
    known: None,
    exhaustive: false,
};

/// All there is to say about reading a text.
fn outcome(text: &str, osb: bool) -> String {
    if osb {
        match sut::osb(text) {
            Ok(o) => format!("{o:?}\n{:?}", o.as_ref().map(|o| lib::VersionedToString::to_string(o, 14))),
            Err(e) => format!("error {} {:?} {}", e.line_index(), e.error(), e.display_error_with_line(text)),
        }
    } else {
        match sut::parse(text) {
            Ok(f) => format!("{f:?}\n{f}"),
            Err(e) => format!("error {} {:?} {}", e.line_index(), e.error(), e.display_error_with_line(text)),
        }
    }
}

fn again(cx: &mut Cx) -> Res {
    let mut texts: Vec<(String, bool)> = (0..2 + cx.r.below(4))
        .map(|_| {
            let osb = cx.r.chance(35);
            (any_text(cx, osb).1, osb)
        })
        .collect();
    if cx.r.chance(30) {
        // the same letters in another order, right after it
        let i = cx.r.below(texts.len());
        let (t, osb) = texts[i].clone();
        let digits: Vec<usize> = t.bytes().enumerate().filter(|(_, b)| b.is_ascii_digit()).map(|(i, _)| i).skip(2).collect();
        if digits.len() > 1 {
            let mut b = t.into_bytes();
            let k = cx.r.below(digits.len() - 1);
            let l = k + 1 + if cx.r.bool() { 0 } else { cx.r.below(digits.len() - k - 1) };
            b.swap(digits[k], digits[l]);
            texts.insert(i + 1, (String::from_utf8(b).expect("MONITOR: only digits changed"), osb));
            cx.count("the same letters in another order");
        }
    }
    let n = texts.len();
    for (t, _) in &texts {
        cx.note("text", t.as_str());
    }
    let first: Vec<String> = texts.iter().map(|(t, o)| outcome(t, *o)).collect();
    let mut order: Vec<usize> = (0..n).collect();
    cx.r.shuffle(&mut order);
    for i in order {
        let (t, o) = &texts[i];
        ensure!(outcome(t, *o) == first[i], "text {i} is read differently the second time");
        // the same bytes somewhere else
        let moved = format!("{t} ");
        ensure!(outcome(&moved[..t.len()], *o) == first[i], "text {i} is read differently from another place in memory");
        cx.count("read again");
    }
    cx.eval(&texts, true);
    if cx.r.chance(50) {
        let k = 4;
        let orders: Vec<Vec<usize>> = (0..k)
            .map(|_| {
                let mut o: Vec<usize> = (0..2 * n).map(|i| i % n).collect();
                cx.r.shuffle(&mut o);
                o
            })
            .collect();
        let shared = Share::new(texts.iter().find(|t| !t.1).and_then(|t| sut::parse(&t.0).ok()));
        let written = shared.get().as_ref().map(ToString::to_string);
        let gate = std::sync::Barrier::new(k);
        let busy = std::sync::atomic::AtomicUsize::new(0);
        let most = std::sync::atomic::AtomicUsize::new(0);
        let wrong: Vec<Option<String>> = std::thread::scope(|s| {
            let hs: Vec<_> = orders
                .iter()
                .map(|o| {
                    let (texts, first, shared, written, gate, busy, most) = (&texts, &first, &shared, &written, &gate, &busy, &most);
                    s.spawn(move || {
                        use std::sync::atomic::Ordering::SeqCst;
                        gate.wait();
                        most.fetch_max(busy.fetch_add(1, SeqCst) + 1, SeqCst);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            for &i in o {
                                if outcome(&texts[i].0, texts[i].1) != first[i] {
                                    return Some(format!("text {i} is read differently on another thread"));
                                }
                                if let Some(f) = shared.get() {
                                    let c = f.clone();
                                    if Some(f.to_string()) != *written || c != *f {
                                        return Some("a shared value is written differently on another thread".to_string());
                                    }
                                }
                            }
                            None
                        }));
                        busy.fetch_sub(1, SeqCst);
                        r.unwrap_or_else(|_| Some("panic on another thread".to_string()))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or(None)).collect()
        });
        if let Some(w) = wrong.into_iter().flatten().next() {
            crate::fail!("{w}");
        }
        if most.into_inner() > 1 {
            cx.count("threads at work at the same time");
        }
        cx.count("read on several threads");
    }
    Ok(())
}

macro_rules! each_section {
    ($m:ident) => {
        $m!(kv "General" general General);
        $m!(kv "Editor" editor Editor);
        $m!(kv "Metadata" metadata Metadata);
        $m!(kv "Difficulty" difficulty Difficulty);
        $m!(list "Events" events Events);
        $m!(list "TimingPoints" timing_points TimingPoints);
        $m!(list "Colours" colours Colours);
        $m!(list "HitObjects" hitobjects HitObjects);
    };
}

fn alone(cx: &mut Cx) -> Res {
    let v = gen::version(&mut cx.r);
    let o = Opt { gated: true, ..Opt::usual(&mut cx.r) };
    let mut doc = gen::doc(&mut cx.r, v, &o);
    let sects = sections(&doc);
    let mut l = Layout::random(&mut cx.r);
    l.underscore = false;
    let text = lay(Some(&version_line(v)), &sects, &l, &mut cx.r).text;
    cx.note("text", text.as_str());
    let f = sut::accept(&text, "a well-formed file")?;
    macro_rules! one {
        (kv $name:literal $field:ident $ty:ident) => {
            if let Some(s) = sects.iter().find(|s| s.name == $name) {
                let body = s.lines.join("\n");
                cx.note("body", body.as_str());
                let a = lib::$ty::from_str(&body, v).map_err(|e| format!("[{}] alone is rejected: {e:?}", $name))?;
                ensure!(a == f.$field, "[{}] alone is {a:?}, in the file {:?}", $name, f.$field);
                cx.count("sections alone");
            } else {
                ensure!(f.$field.is_none(), "[{}] is there", $name);
            }
        };
        (list $name:literal $field:ident $ty:ident) => {
            if let Some(s) = sects.iter().find(|s| s.name == $name) {
                let body = s.lines.join("\n");
                cx.note("body", body.as_str());
                let a = <lib::$ty as VersionedFromStr>::from_str(&body, v).map_err(|e| format!("[{}] alone is rejected: {e:?}", $name))?;
                ensure!(a == f.$field, "[{}] alone is {a:?}, in the file {:?}", $name, f.$field);
                cx.count("sections alone");
            } else {
                ensure!(f.$field.is_none(), "[{}] is there", $name);
            }
        };
    }
    each_section!(one);
    lines_alone(cx, &f, &sects)?;
    // exchange a section
    let mut o2 = o.clone();
    o2.present = 100;
    let other = gen::doc(&mut cx.r, v, &o2);
    let n = cx.r.below(8);
    match n {
        0..=3 => doc.kv[n].clone_from(&other.kv[n]),
        4 => doc.events = other.events,
        5 => doc.tps = other.tps,
        6 => doc.colours = other.colours,
        _ => doc.hos = other.hos,
    }
    let text2 = lay(Some(&version_line(v)), &sections(&doc), &l, &mut cx.r).text;
    cx.note("exchanged", text2.as_str());
    let g = sut::accept(&text2, "a well-formed file")?;
    let mut i = 0;
    macro_rules! same {
        ($k:ident $name:literal $field:ident $ty:ident) => {
            ensure!(i == n || f.$field == g.$field, "[{}] changes with section {n}", $name);
            i += 1;
        };
    }
    each_section!(same);
    ensure!(i == 8, "eight sections");
    cx.count("section exchanged");
    cx.eval(&(&text, &text2), true);
    Ok(())
}

/// commands in the order of their lines, without what's in them
fn flat(cmds: &[cmds::Command], out: &mut Vec<cmds::Command>) {
    for c in cmds {
        let mut c = c.clone();
        let inner = match &mut c.properties {
            cmds::CommandProperties::Loop { commands, .. } | cmds::CommandProperties::Trigger { commands, .. } => std::mem::take(commands),
            _ => Vec::new(),
        };
        out.push(c);
        flat(&inner, out);
    }
}

/// Each line read on its own.
fn lines_alone(cx: &mut Cx, f: &lib::OsuFile, sects: &[Sect]) -> Res {
    use lib::events::{audio_sample::AudioSample, normal_event as ne, storyboard::sprites::Object, Event};
    let v = f.version;
    let lines = |name: &str| sects.iter().find(|s| s.name == name).map_or(&[][..], |s| &s.lines[..]);
    macro_rules! items {
        ($name:literal $items:expr, $ty:ty) => {
            let l = lines($name);
            ensure!(l.len() == $items.len(), "{} lines in [{}], {} items", l.len(), $name, $items.len());
            for (l, i) in l.iter().zip($items) {
                let a = <$ty as VersionedFromStr>::from_str(l, v).map_err(|e| format!("{l:?} alone is rejected: {e:?}"))?;
                ensure!(a.as_ref() == Some(i), "{l:?} alone is {a:?}, in the file {i:?}");
                cx.count("lines alone");
            }
        };
    }
    if let Some(o) = &f.hitobjects {
        items!("HitObjects" &o.0, lib::hitobjects::HitObject);
    }
    if let Some(o) = &f.timing_points {
        items!("TimingPoints" &o.0, lib::timingpoints::TimingPoint);
    }
    if let Some(o) = &f.colours {
        items!("Colours" &o.0, lib::colours::Colour);
    }
    let Some(events) = &f.events else { return Ok(()) };
    let mut lines = lines("Events").iter();
    for e in &events.0 {
        let Some(l) = lines.next() else { crate::fail!("more events than lines") };
        macro_rules! head {
            ($v:ident, $t:ident, $o:expr) => {{
                let a = <$t as VersionedFromStr>::from_str(l, v).map_err(|e| format!("{l:?} alone is rejected: {e:?}"))?;
                let Some(a) = a else { crate::fail!("{l:?} alone is nothing") };
                $o(Event::$v(a))
            }};
        }
        use ne::{AnimationLegacy, Background, Break, ColourTransformation, SampleLegacy, SpriteLegacy, Video};
        let mut inner = Vec::new();
        macro_rules! with {
            ($v:ident, $t:ident, $o:expr) => {{
                let mut o = $o.clone();
                flat(&o.commands, &mut inner);
                o.commands.clear();
                head!($v, $t, |a| a == Event::$v(o))
            }};
        }
        let same = match e {
            Event::Comment(c) => l.strip_prefix("//") == Some(c),
            Event::Background(o) => with!(Background, Background, o),
            Event::Video(o) => with!(Video, Video, o),
            Event::SpriteLegacy(o) => with!(SpriteLegacy, SpriteLegacy, o),
            Event::AnimationLegacy(o) => with!(AnimationLegacy, AnimationLegacy, o),
            Event::SampleLegacy(o) => with!(SampleLegacy, SampleLegacy, o),
            Event::StoryboardObject(o) => with!(StoryboardObject, Object, o),
            Event::Break(_) => head!(Break, Break, |a| a == *e),
            Event::ColourTransformation(_) => head!(ColourTransformation, ColourTransformation, |a| a == *e),
            Event::AudioSample(_) => head!(AudioSample, AudioSample, |a| a == *e),
            _ => true,
        };
        ensure!(same, "{l:?} alone isn't what it is in the file, {e:?}");
        cx.count("lines alone");
        for c in &inner {
            let Some(l) = lines.next() else { crate::fail!("more commands than lines") };
            let l = l.trim_start_matches([' ', '_']);
            let a = cmds::Command::from_str(l, v).map_err(|e| format!("{l:?} alone is rejected: {e:?}"))?;
            ensure!(a.as_ref() == Some(c), "{l:?} alone is {a:?}, in the file {c:?}");
            cx.count("commands alone");
        }
    }
    ensure!(lines.next().is_none(), "fewer events than lines");
    Ok(())
}

fn faulty(cx: &mut Cx) -> Res {
    let v = gen::version(&mut cx.r);
    let o = Opt { gated: false, ..Opt::small(&mut cx.r) };
    let doc = gen::doc(&mut cx.r, v, &o);
    let (fault, sects, si, _) = loop {
        let Some(f) = faults::any(&mut cx.r, &doc) else { continue };
        let Some((s, si, li)) = faults::plant(&mut cx.r, &doc, &f) else { continue };
        break (f, s, si, li);
    };
    let text = plain(Some(v), &sects);
    cx.note("text", text.as_str());
    let Err(e) = sut::parse(&text) else {
        crate::fail!("a file with a fault ({}) is accepted", fault.kind)
    };
    let whole = format!("{:?}", e.error());
    for (i, s) in sects.iter().enumerate() {
        let body = s.lines.join("\n");
        let mut found = None;
        macro_rules! err {
            (kv $name:literal $field:ident $ty:ident) => {
                if s.name == $name {
                    found = lib::$ty::from_str(&body, v).err().map(|e| format!("{:?}", e.error()));
                }
            };
            (list $name:literal $field:ident $ty:ident) => {
                if s.name == $name {
                    found = <lib::$ty as VersionedFromStr>::from_str(&body, v).err().map(|e| format!("{:?}", e.error()));
                }
            };
        }
        each_section!(err);
        match found {
            Some(d) => ensure!(i == si && whole.contains(&d), "[{}] alone gives {d}, the file {whole}", s.name),
            None => ensure!(i != si, "[{}] alone is accepted, the file gives {whole}", s.name),
        }
    }
    cx.count("faulty sections alone");
    cx.eval(&text, true);
    Ok(())
}

fn append(cx: &mut Cx) -> Res {
    let (mut doc, text) = fine_osu(&mut cx.r);
    cx.note("text", text.as_str());
    let mut f0 = sut::accept(&text, "a well-formed file")?;
    if cx.r.chance(60) {
        (f0.version, doc.v) = (14, 14);
    }
    let mut f = f0.clone();
    let mut out = f.to_string();
    ensure!(f.osb_to_string().is_none(), "a file without storyboard file has one");
    for _ in 0..1 + cx.r.below(4) {
        if cx.r.chance(20) {
            // the version is a field of the file
            doc.v = gen::version(&mut cx.r);
            (f0.version, f.version) = (doc.v, doc.v);
            out = f.to_string();
            cx.note("version", doc.v.to_string());
            cx.count("version changed");
        }
        let (_, o) = any_text(cx, true);
        cx.note("osb", o.as_str());
        let before = f.clone();
        let direct = <lib::Osb as VersionedFromStr>::from_str(&o, doc.v);
        match (f.append_osb(&o), direct) {
            (Ok(()), Ok(d)) => {
                ensure!(f.osb == d, "the appended storyboard file isn't what it is alone");
                if doc.v < 14 {
                    ensure!(f.osb.is_none(), "a storyboard file at version {}", doc.v);
                    cx.count("storyboard file at an older version");
                } else {
                    ensure!(f.osb.is_some(), "no storyboard file at version {}", doc.v);
                    let t = f.osb.as_ref().and_then(|o| lib::VersionedToString::to_string(o, 14));
                    ensure!(t == f.osb_to_string(), "the appended storyboard file is written differently");
                    cx.count("storyboard file appended");
                }
            }
            (Err(a), Err(b)) => {
                ensure!(f == before, "a refused storyboard file changed the file");
                ensure!(
                    a.line_index() == b.line_index() && format!("{:?}", a.error()) == format!("{:?}", b.error()),
                    "a storyboard file is refused for different reasons"
                );
                cx.count("storyboard file refused");
            }
            (a, b) => crate::fail!("a storyboard file is {} when appended, {} alone", is_ok(&a), is_ok(&b)),
        }
        ensure!(f.to_string() == out, "appending a storyboard file changed the file's text");
        let mut g = f.clone();
        g.osb = None;
        ensure!(g == f0, "appending a storyboard file changed the rest of the file");
        cx.eval(&(&text, &o), true);
    }
    Ok(())
}

fn run(cx: &mut Cx) -> Res {
    match cx.r.below(10) {
        0..=3 => again(cx),
        4..=6 => alone(cx),
        7 => faulty(cx),
        _ => append(cx),
    }
}
