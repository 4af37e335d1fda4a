//! Memory and time grow in proportion to the input.
use crate::alloc::{live, Meter};
use crate::core::*;
use crate::gen::{self, Opt};
use crate::render::*;
use crate::rng::Rng;
use crate::{ensure, fail};
use lib::VersionedFromStr;
use osu_file_parser as lib;

pub const C14: Check = Check {
    id: "C14",
    cases: (1200, 40_000),
    rule: "a text of which one dimension (lines of a section, parts of a line, commands, blank lines, ...) was made 16 times as large, with the allocation and the CPU time of reading, writing, comparing and copying both measured; distinct by the dimension and the two texts",
    assumptions: &[
        "one dimension grows at a time; the product of the numbers of variables and commands isn't bounded by this",
        "variables don't stand for other variables, as the text they stand for could then be exponentially longer",
        "allocations may grow by 40 when the input grows by 16, to leave room for growth strategies; time by 100, and only more than half a second in three attempts counts",
        "bytes allocated are counted exactly by the allocator; CPU time is of the measuring thread",
    ],
    need: &[("measurements", 3000), ("dimensions", 1000), ("memory given back", 1000)],
    run,
    known: None,
    exhaustive: false,
};

const GROW: usize = 16;

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
/// CPU time of this thread
fn cpu() -> f64 {
    let mut t = Timespec { s: 0, ns: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.s as f64 + t.ns as f64 / 1e9
}

struct Cost {
    what: &'static str,
    peak: usize,
    total: usize,
    cpu: f64,
}

fn measure<T>(what: &'static str, out: &mut Vec<Cost>, f: impl FnOnce() -> T) -> T {
    let m = Meter::start();
    let c = cpu();
    let r = f();
    let cpu = cpu() - c;
    let u = m.stop();
    out.push(Cost { what, peak: u.peak, total: u.total, cpu });
    r
}

fn costs(text: &str, osb: bool, bad: bool) -> Result<Vec<Cost>, Fail> {
    let mut c = Vec::new();
    macro_rules! rest {
        ($f:ident, $write:expr) => {
            let out = measure("writing", &mut c, || $write);
            let g = measure("copying", &mut c, || $f.clone());
            let same = measure("comparing", &mut c, || $f == g);
            ensure!(same, "a copy isn't equal");
            let h = measure("hashing", &mut c, || (hash_of(&$f), hash_of(&g)));
            ensure!(h.0 == h.1, "a copy has another hash");
            let e = measure("comparing texts", &mut c, || lib::osu_str_eq(&out, &out));
            ensure!(e, "a text isn't equal to itself");
            let e = measure("trimming", &mut c, || lib::osu_str_trimmer(text).len());
            ensure!(e <= text.len(), "a text is longer when trimmed");
            measure("showing", &mut c, || format!("{:?}", $f).len());
        };
    }
    if osb {
        match measure("reading", &mut c, || <lib::Osb as VersionedFromStr>::from_str(text, 14)) {
            Ok(Some(f)) => {
                if bad {
                    fail!("the wrong line is accepted");
                }
                rest!(f, lib::VersionedToString::to_string(&f, 14).unwrap_or_default());
            }
            Ok(None) => fail!("nothing was read"),
            Err(e) => {
                ensure!(bad, "rejected: {} {:?}", e.display_error_with_line(text).chars().take(300).collect::<String>(), e.error());
                measure("showing the error", &mut c, || e.display_error_with_line(text).len());
            }
        }
    } else {
        match measure("reading", &mut c, || text.parse::<lib::OsuFile>()) {
            Ok(f) => {
                if bad {
                    fail!("the wrong line is accepted");
                }
                rest!(f, f.to_string());
            }
            Err(e) => {
                ensure!(bad, "rejected: {} {:?}", e.display_error_with_line(text).chars().take(300).collect::<String>(), e.error());
                measure("showing the error", &mut c, || e.display_error_with_line(text).len());
            }
        }
    }
    Ok(c)
}

fn lines(r: &mut Rng, n: usize, mut f: impl FnMut(&mut Rng, &mut Vec<String>)) -> Vec<String> {
    // a few different ones, repeated
    let mut some = Vec::new();
    for _ in 0..40 {
        let mut one = Vec::new();
        f(r, &mut one);
        some.push(one);
    }
    let mut out = Vec::new();
    let mut i = 0;
    while out.len() < n {
        out.extend(some[i % 40].iter().cloned());
        i += 1;
    }
    out
}

pub const DIMENSIONS: &[&str] = &[
    "hit objects",
    "timing points",
    "colours",
    "events",
    "objects with commands",
    "commands of an object",
    "commands of a loop",
    "levels of commands",
    "colours of a command",
    "values of a command",
    "points of a slider",
    "sounds of a slider",
    "tags",
    "bookmarks",
    "length of a text value",
    "length of a file name",
    "length of a number",
    "length of a comment",
    "comments before the sections",
    "blank lines before the sections",
    "blank lines in a section",
    "blank lines between sections",
    "variables",
    "uses of a variable",
    "uses of a variable in a line",
    "length of a variable's value",
    "indentation",
    "wrong line at the end",
    "keys before a wrong line",
    "length of a wrong line",
    "length of a wrong header",
    "spaces at the ends",
    "spaces after a colon",
    "additional fields",
    "pushed values",
    "pushed colours",
    "pushed commands",
    "pushed commands of a loop",
    "frames",
];

/// A text one part of which is very large; true for a storyboard file.
pub fn huge(cx: &mut Cx, nth: u64, up_to: u32) -> (String, bool) {
    let dims: Vec<_> = DIMENSIONS.iter().filter(|d| !d.starts_with("pushed") && **d != "frames").collect();
    let dim = dims[(nth % dims.len() as u64) as usize];
    let cheap = ["blank", "comment", "space", "length", "keys"].iter().any(|c| dim.contains(c));
    let n = 1usize << (14 + cx.r.below(up_to as usize - 13) + 3 * cheap as usize);
    let n = n + cx.r.below(n);
    let v = 5 + cx.r.below(10) as u8;
    cx.note("large", *dim);
    cx.note("size", n.to_string());
    cx.count("large inputs");
    cx.count(&format!("large: {dim}"));
    text(&mut cx.r, dim, n, v)
}

/// What isn't read from a text.
fn built(r: &mut Rng, dim: &str, n: usize) -> Result<Vec<Cost>, Fail> {
    use lib::events::storyboard::{cmds, sprites};
    use lib::events::EventWithCommands;
    use lib::events::storyboard::types::Easing;
    let dec = rust_decimal::Decimal::ONE;
    let mut c = Vec::new();
    let sprite = || match lib::events::Events::from_str("Sprite,Pass,Centre,a.png,0,0", 14) {
        Ok(Some(e)) => match e.0.into_iter().next() {
            Some(lib::events::Event::StoryboardObject(o)) => Ok(o),
            e => fail!("a sprite is read as {e:?}"),
        },
        e => fail!("a sprite is read as {e:?}"),
    };
    let cmd = |properties| cmds::Command { start_time: Some(1.into()), properties };
    match dim {
        "pushed values" => {
            let mut f = cmds::ContinuingFields::new((dec, dec), vec![]).map_err(|e| Fail::Violation(format!("{e:?}")))?;
            measure("pushing", &mut c, || (0..n).for_each(|_| f.push_continuing_fields((dec, Some(dec)))));
            measure("copying", &mut c, || f.clone() == f);
        }
        "pushed colours" => {
            let mut f = cmds::Colours::new((1, 2, 3), vec![]).map_err(|e| Fail::Violation(format!("{e:?}")))?;
            measure("pushing", &mut c, || (0..n).for_each(|_| f.push_continuing_rgbs((1, Some(2), Some(3)))));
            measure("copying", &mut c, || f.clone() == f);
        }
        "frames" => {
            let a = sprites::Animation {
                frame_count: n as u32,
                frame_delay: dec,
                loop_type: sprites::LoopType::LoopOnce,
                filepath: std::path::PathBuf::from("a/b.png").into(),
            };
            measure("frames", &mut c, || a.frame_file_names().len());
        }
        _ => {
            let mut o = sprite()?;
            let fade = || {
                cmd(cmds::CommandProperties::Rotate {
                    easing: Easing::Linear,
                    end_time: None,
                    start_rotation: dec.into(),
                    continuing_rotations: vec![],
                })
            };
            let depth = if dim == "pushed commands" { 1 } else { 2 };
            if depth == 2 {
                let l = cmd(cmds::CommandProperties::Loop { loop_count: 3, commands: vec![] });
                ensure!(o.try_push_cmd(l, 1).is_ok(), "a loop is refused");
            }
            let ok = measure("pushing", &mut c, || (0..n).all(|_| o.try_push_cmd(fade(), depth).is_ok()));
            ensure!(ok, "a command is refused");
            let d = r.chance(50);
            let refused = measure("pushing refused", &mut c, || (0..n).all(|_| o.try_push_cmd(fade(), depth + 1 + d as usize).is_err()));
            ensure!(refused, "a command is accepted below one that is no loop");
            measure("writing", &mut c, || lib::VersionedToString::to_string(&o, 14).map(|s| s.len()));
        }
    }
    Ok(c)
}

/// The text in which the dimension has size `n`.
pub fn text(r: &mut Rng, dim: &str, n: usize, v: u8) -> (String, bool) {
    let o = Opt { hostile: false, ..Opt::usual(r) };
    let sprite = "Sprite,Pass,Centre,a.png,0,0";
    let mut osb = false;
    let mut pre = String::new();
    let mut extra: Option<(usize, &str)> = None;
    let sect = |name: &str, lines: Vec<String>| vec![Sect { name: name.to_string(), kv: false, lines }];
    let many = |s: &str, sep: &str| vec![s; n].join(sep);
    // the same or different ones, and more of them, as they are short
    let different = r.bool();
    let list = |f: fn(usize) -> String, sep: &str| {
        let k = if different { 3 * n } else { n };
        (0..k).map(|i| f(if different { i } else { 12 })).collect::<Vec<_>>().join(sep)
    };
    let events = |l: Vec<String>| sect("Events", l);
    let s = match dim {
        "hit objects" => sect("HitObjects", lines(r, n, |r, l| l.push(ho_line(&gen::ho(r, v, &o), v)))),
        "timing points" => sect("TimingPoints", lines(r, n, |r, l| l.push(tp_line(&gen::tp(r, v, &o), v)))),
        "colours" => sect("Colours", lines(r, n, |r, l| l.push(colour_line(&gen::colour(r, &o))))),
        "events" | "objects with commands" => {
            let cmds = dim == "objects with commands";
            osb = r.chance(30);
            let ve = if osb { 14 } else { v };
            let mut first = true;
            events(lines(r, n, |r, l| loop {
                let mut e = gen::event(r, &o);
                // the section's indentation starts with an object
                if e.k.takes_cmds() != cmds && (first || cmds) {
                    continue;
                }
                if !cmds {
                    e.cmds.clear();
                }
                first = false;
                l.extend(event_lines(&e, ve));
                return;
            }))
        }
        "commands of an object" | "uses of a variable" | "variables" | "length of a variable's value" => {
            let var = dim != "commands of an object";
            osb = var || r.bool();
            let uses = if dim == "uses of a variable" || !var { n } else { 20 };
            let mut l = vec![sprite.to_string()];
            l.extend(lines(r, uses, |r, l| {
                let mut c = gen::cmd(r, false, 0);
                if let Some(k) = c.children_mut() {
                    k.clear();
                }
                l.push(if var { " F,0,0,,$a".to_string() } else { format!(" {}", cmd_text(&c)) })
            }));
            let mut s = Vec::new();
            if var {
                let mut vars = vec![format!("$a={}", if dim.starts_with("len") { "1".repeat(n) } else { "1".to_string() })];
                if dim == "variables" {
                    vars.extend((0..n).map(|i| format!("$b{i:07}={i}")));
                }
                s = sect("Variables", vars);
            }
            s.extend(events(l));
            s
        }
        "uses of a variable in a line" => {
            osb = true;
            let mut s = sect("Variables", vec!["$a=1,2,3".to_string()]);
            s.extend(events(vec![sprite.to_string(), format!(" C,0,0,,{}", many("$a", ","))]));
            s
        }
        "commands of a loop" => {
            let mut l = vec![sprite.to_string(), " L,0,5".to_string()];
            l.extend((0..n).map(|i| format!("  F,0,{i},,0.5")));
            events(l)
        }
        "levels of commands" => {
            // the text grows with the square
            let n = 2 * (n as f64).sqrt() as usize;
            let mut l = vec![sprite.to_string()];
            l.extend((1..=n).map(|i| format!("{}L,0,5", " ".repeat(i))));
            events(l)
        }
        "indentation" => {
            let mut l = vec![sprite.to_string(), " L,0,5".to_string()];
            l.push(format!("{}F,0,0,,1", " ".repeat(n)));
            events(l)
        }
        "colours of a command" => events(vec![sprite.to_string(), format!(" C,0,0,,1,2,3,{}", list(|i| format!("{},{},{}", i % 256, i / 256 % 256, i / 65536), ","))]),
        "values of a command" => {
            let op = *r.pick(&["F", "S", "R", "MX", "MY"]);
            events(vec![sprite.to_string(), format!(" {op},0,0,100,1,{}", list(|i| format!("{i}"), ","))])
        }
        "points of a slider" => sect("HitObjects", vec![format!("0,0,0,2,0,B|{},1,100", list(|i| format!("{i}:20"), "|"))]),
        "sounds of a slider" => {
            sect("HitObjects", vec![format!("0,0,0,2,0,L|1:2,1,100,{},{}", many("2", "|"), many("0:1", "|"))])
        }
        "tags" => sect("Metadata", vec![format!("Tags:{}", list(|i| format!("t{i}"), " "))]),
        "bookmarks" => sect("Editor", vec![format!("Bookmarks: {}", list(|i| format!("{i}"), ","))]),
        "length of a text value" => sect("Metadata", vec![format!("Title:{}", many("ü", ""))]),
        "length of a file name" => events(vec![format!("0,0,\"{}.png\",0,0", many("ab ", ""))]),
        "length of a number" => sect("Difficulty", vec![format!("HPDrainRate:{}", many("0", ""))]),
        "length of a comment" => events(vec![format!("//{}", many("x", ""))]),
        "comments before the sections" => {
            pre = many("// nothing", "\n") + "\n";
            sect("Metadata", vec!["Title:a".to_string()])
        }
        "blank lines before the sections" => {
            pre = many("", "\n") + "\n";
            sect("Metadata", vec!["Title:a".to_string()])
        }
        "blank lines in a section" => {
            let (name, first, last) = *r.pick(&[
                ("General", "PreviewTime: 1", "Countdown: 0"),
                ("Editor", "GridSize: 4", "BeatDivisor: 4"),
                ("Metadata", "Title:a", "Artist:a"),
                ("Difficulty", "HPDrainRate:5", "CircleSize:5"),
                ("TimingPoints", "1,2,4,1,0,100,1,0", "1,2,4,1,0,100,1,0"),
                ("Colours", "Combo1 : 1,2,3", "Combo2 : 1,2,3"),
                ("HitObjects", "1,2,3,1,0,0:0:0:0:", "1,2,3,1,0,0:0:0:0:"),
                ("Events", "0,0,\"a.png\",0,0", "Sample,1,0,a.wav,100"),
            ]);
            let mut l = vec![first.to_string()];
            l.extend(vec![String::new(); n]);
            l.push(last.to_string());
            sect(name, l)
        }
        "blank lines between sections" => {
            extra = Some((n, "\n"));
            let mut s = sect("Metadata", vec!["Title:a".to_string()]);
            s.extend(sect("Editor", vec!["GridSize: 4".to_string()]));
            s
        }
        "keys before a wrong line" => {
            let mut l = match r.below(3) {
                // keys that are repeated, also wrong
                0 => vec!["Title:a".to_string(); n],
                1 => (0..n).map(|i| if i == 0 { "Title:a".to_string() } else { String::new() }).collect(),
                _ => (0..n).map(|i| format!("Title{i}:a")).collect(),
            };
            l.push("x".to_string());
            sect("Metadata", l)
        }
        "length of a wrong line" => match r.below(5) {
            0 => sect("Metadata", vec![many("ü", "")]),
            1 => sect("HitObjects", vec![format!("1,2,{}", many("x,", ""))]),
            2 => sect("TimingPoints", vec![format!("1,2,{}", many("x", ""))]),
            3 => events(vec![many("Ä,", "")]),
            _ => events(vec![sprite.to_string(), format!(" {},0,0,0,1", many("L", ""))]),
        },
        "length of a wrong header" => sect(&many("ü", ""), vec!["Title:a".to_string()]),
        "spaces at the ends" => {
            let sp = many(if r.bool() { " " } else { "\t" }, "");
            sect("Metadata", vec![format!("Title:a{sp}"), sp.clone(), format!("Artist:b{sp}")])
        }
        "spaces after a colon" => sect("Difficulty", vec![format!("HPDrainRate:{}5", many(" ", ""))]),
        "additional fields" => {
            sect("HitObjects", vec![format!("1,2,3,1,0,0:0:0:0:,{}", many("0", ","))])
        }
        _ => {
            let (name, mut l) = match r.below(4) {
                0 => ("HitObjects", lines(r, n, |r, l| l.push(ho_line(&gen::ho(r, v, &o), v)))),
                1 => ("TimingPoints", lines(r, n, |r, l| l.push(tp_line(&gen::tp(r, v, &o), v)))),
                2 => ("Colours", lines(r, n, |r, l| l.push(colour_line(&gen::colour(r, &o))))),
                _ => ("Events", lines(r, n, |_, l| l.push("Sample,1,0,a.wav,100".to_string()))),
            };
            l.push("1,x,x".to_string());
            sect(name, l)
        }
    };
    let mut t = if osb { String::new() } else { format!("osu file format v{v}\n{pre}\n") };
    t += &plain(None, &s);
    if let Some((n, what)) = extra {
        t = t.replace("\n[Editor]", &format!("{}\n[Editor]", what.repeat(n)));
    }
    (t, osb)
}

fn run(cx: &mut Cx) -> Res {
    let dim = DIMENSIONS[(cx.case % DIMENSIONS.len() as u64) as usize];
    // long enough for the constant part not to matter
    let base = match dim {
        "levels of commands" => 1500 + cx.r.below(3000),
        _ if cx.r.bool() => 400 + cx.r.below(600),
        // long enough for the time to show what isn't allocated
        _ => 2000 + cx.r.below(4000),
    };
    let v = 5 + cx.r.below(10) as u8;
    let seed = cx.r.u64();
    if dim.starts_with("pushed") || dim == "frames" {
        cx.note("dimension", dim);
        cx.note("size", base.to_string());
        let cost = |n| built(&mut Rng::new(seed, "c14", 0), dim, n);
        compare(cx, dim, &[base * 20, base * 20 * GROW], cost(base)?, cost(base * GROW)?, || cost(base), || Ok((cost(base)?, cost(base * GROW)?)))?;
        cx.count("dimensions");
        cx.count(&format!("dimension: {dim}"));
        cx.eval(&(dim, base), true);
        return Ok(());
    }
    let (small, osb) = text(&mut Rng::new(seed, "c14", 0), dim, base, v);
    let (large, _) = text(&mut Rng::new(seed, "c14", 0), dim, base * GROW, v);
    cx.note("dimension", dim);
    cx.note("size", base.to_string());
    cx.note("small", small.as_str());
    let bad = matches!(dim, "indentation") || dim.contains("wrong");
    let cost = || Ok((costs(&small, osb, bad)?, costs(&large, osb, bad)?));
    let (a, b) = cost()?;
    compare(cx, dim, &[small.len(), large.len()], a, b, || costs(&small, osb, bad), cost)?;
    cx.count("dimensions");
    cx.count(&format!("dimension: {dim}"));
    cx.eval(&(dim, &small, large.len()), true);
    cx.sample(|| format!("{dim}: {} and {} bytes: {}", small.len(), large.len(), small.chars().take(300).collect::<String>()));
    Ok(())
}

fn compare(
    cx: &mut Cx,
    dim: &str,
    len: &[usize; 2],
    a: Vec<Cost>,
    b: Vec<Cost>,
    once: impl Fn() -> Result<Vec<Cost>, Fail>,
    again: impl Fn() -> Result<(Vec<Cost>, Vec<Cost>), Fail>,
) -> Res {
    let (small, large) = (len[0], len[1]);
    ensure!(a.len() == b.len(), "{dim}: other results for the larger text");
    // once everything is dropped, nothing is kept that grows with the number of calls
    let mut kept = usize::MAX;
    for _ in 0..2 {
        let before = live();
        drop(once()?);
        kept = kept.min(live().saturating_sub(before));
    }
    ensure!(kept < 256, "{dim}: {kept} bytes are kept each time after everything of a text of {small} bytes is dropped");
    cx.count("memory given back");
    let grown = large as f64 / small as f64;
    for i in 0..a.len() {
        let what = a[i].what;
        // a fixed part that every call may need
        let slack = |x: usize| x.max(small * 2) as f64;
        for (name, x, y) in [("peak", a[i].peak, b[i].peak), ("total", a[i].total, b[i].total)] {
            let by = y as f64 / slack(x);
            ensure!(by <= 2.5 * grown, "{dim}: {what} allocates {y} bytes ({name}) for {large} bytes of text, and {x} for {small}");
        }
        let mut t = (a[i].cpu, b[i].cpu);
        for _ in 0..3 {
            if t.1 < 0.5 || t.1 < t.0.max(0.0005) * 100.0 {
                break;
            }
            let (c, d) = again()?;
            t = (t.0.max(c[i].cpu), t.1.min(d[i].cpu));
            cx.count("measured again");
        }
        ensure!(
            t.1 < 0.5 || t.1 < t.0.max(0.0005) * 100.0,
            "{dim}: {what} takes {:.3} s for {large} bytes of text, and {:.5} s for {small}",
            t.1, t.0
        );
        cx.count("measurements");
    }
    Ok(())
}
