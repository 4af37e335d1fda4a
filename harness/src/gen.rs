//! Random documents of the reference model.
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone)]
pub struct Opt {
    /// most items of a list section
    pub max: usize,
    /// unusual but valid values: extremes, text in number fields, unicode, odd file names
    pub hostile: bool,
    /// spelling choices that aren't what the writer would write
    pub spell: bool,
    /// keys that don't exist in the version
    pub gated: bool,
    /// probability in percent that a section is there
    pub present: u32,
}

impl Opt {
    pub fn usual(r: &mut Rng) -> Opt {
        Opt {
            max: if r.chance(10) { 25 } else { 7 },
            hostile: r.chance(50),
            spell: r.chance(60),
            gated: r.chance(50),
            present: *r.pick(&[100, 75, 40]),
        }
    }
    pub fn small(r: &mut Rng) -> Opt {
        Opt {
            max: 4,
            ..Opt::usual(r)
        }
    }
}

const RAW: &[&str] = &[
    "abc", "NaN", "", "1e5", "1.2.3", "--1", "é", "0x10", "∞", "1;2", "12ms", "٣", "-", ".", "1 ", "x y", "nan", "Infinity", "1E5", "+Inf",
];
const WORDS: &[&str] = &[
    "a",
    "Title",
    "audio.mp3",
    "hello world",
    "key: value",
    "a:b:c",
    "1,2,3",
    "x|y",
    "[Events]",
    "//comment",
    "\"quoted\"",
    "\"with space.png\"",
    "日本語 タイトル",
    "Ünïcödé",
    "🎵",
    "\u{feff}bom",
    "\u{3000}wide",
    "tab\there",
    "全角\u{3000}空白",
    "nb\u{a0}sp",
    "osu file format v14",
    "trailing  ",
    "back\\slash",
    "$var",
    "100%",
    "'",
    "\u{202e}rtl",
    "e\u{301}",
    "]",
    "key =value",
    "C:\\dir\\a.mp3",
];
const FILES: &[&str] = &[
    "bg.jpg",
    "sb\\star.png",
    "\"bg.jpg\"",
    "a b.png",
    "\"a b.png\"",
    "\" a.png \"",
    " a.png ",
    "a.png\t",
    "dir/sub/a.b.png",
    "",
    "noext",
    "a\u{3000}b.png",
    "a\u{a0}b c.png",
    "tab\tin.png",
    ".hidden",
    "日本.png",
    "../up.png",
    "a//b.png",
    "./x.png",
    "\"half quoted.png",
    "x:y.png",
    "[x].png",
    "a|b.png",
    "SB/Ünï.png",
    "\"",
    "\"\"",
    "\"é",
    "end quoted.png\"",
];

pub fn dec(r: &mut Rng, hostile: bool) -> D {
    let k = r.below(100);
    if hostile && k < 12 {
        return D::R((*r.pick(RAW)).to_string());
    }
    if k < 60 {
        return D::int(if r.chance(8) { 0 } else { r.range(-600, 4000) });
    }
    if k < 80 {
        return D::int(r.range(-2_000_000, 400_000_000));
    }
    if hostile && k > 93 {
        let m = i128::from(r.range(-4_000_000_000_000_000_000, 4_000_000_000_000_000_000))
            * i128::from(r.range(1, 900));
        return D::N {
            m,
            s: r.below(15) as u32,
        };
    }
    if hostile && k > 89 {
        // as many digits as fit, also after the offset of old versions is added
        let m = (i128::from(r.range(-1 << 62, 1 << 62)) << 34) + i128::from(r.range(0, 1 << 34));
        return D::N {
            m: m % 50_000_000_000_000_000_000_000_000_000,
            s: r.below(28) as u32,
        };
    }
    let s = 1 + r.below(if hostile { 12 } else { 4 }) as u32;
    D::N {
        m: i128::from(r.range(-9_999_999_999, 99_999_999_999)),
        s,
    }
}

/// A decimal that isn't at the start of a line, where a blank could be an indentation.
fn later(r: &mut Rng, hostile: bool) -> D {
    if hostile && r.chance(1) {
        let n = r.below(1000);
        return D::R(match r.below(5) {
            0 => format!("\t{n}"),
            1 => format!("  {n}.5"),
            2 => format!(" -{n}"),
            3 => format!(" {n} x"),
            _ => format!(" {n}"),
        });
    }
    dec(r, hostile)
}

/// a decimal that is a number
pub fn num(r: &mut Rng, hostile: bool) -> D {
    loop {
        let d = dec(r, hostile);
        if matches!(d, D::N { .. }) {
            return d;
        }
    }
}

pub fn int(r: &mut Rng, hostile: bool) -> i32 {
    if hostile && r.chance(25) {
        return *r.pick(&[
            i32::MAX,
            i32::MIN + 24,
            i32::MAX - 1,
            -1,
            0,
            i32::MAX - 24,
            1_000_000_007,
            -2_000_000_000,
        ]);
    }
    match r.below(4) {
        0 => r.range(-5, 20) as i32,
        1 => r.range(-100_000, 100_000) as i32,
        _ => r.range(0, 600_000) as i32,
    }
}

pub fn word(r: &mut Rng, hostile: bool) -> String {
    if hostile {
        let mut s = (*r.pick(WORDS)).to_string();
        while r.chance(30) {
            s.push_str(*r.pick(&[" ", "-", ":", ""]));
            s.push_str(*r.pick(WORDS));
        }
        if r.chance(4) {
            // whitespace, but not the kinds that separate
            s.push_str(*r.pick(&["\u{a0}", "\u{3000}", "\u{85}", "\u{2028}", "\u{b}", "\u{c}", "\u{200b}", "\u{feff}"]));
        }
        let n = r.many(0, 5000);
        while s.len() < n {
            let t = (*r.pick(WORDS)).to_string();
            s += &t;
        }
        s
    } else {
        let n = 1 + r.below(10);
        let n = r.many(n, 5000);
        (0..n)
            .map(|_| char::from(b'a' + r.below(26) as u8))
            .collect()
    }
}

/// text of a `key:value` pair's value
pub fn text(r: &mut Rng, hostile: bool) -> String {
    if r.chance(8) {
        return String::new();
    }
    let mut s = word(r, hostile);
    if !hostile && r.chance(50) {
        s.push(' ');
        s.push_str(&word(r, false));
    }
    s
}

pub fn file(r: &mut Rng, hostile: bool) -> String {
    if hostile {
        (*r.pick(FILES)).to_string()
    } else {
        let w = word(r, false);
        match r.below(4) {
            0 => format!("\"{w}.png\""),
            1 => format!("sb/{w}.jpg"),
            2 => format!("\"sb\\{w} x.png\""),
            _ => format!("{w}.png"),
        }
    }
}

pub fn u32v(r: &mut Rng, hostile: bool) -> u32 {
    if hostile && r.chance(20) {
        *r.pick(&[u32::MAX, i32::MAX as u32 + 1, i32::MAX as u32])
    } else {
        r.below(12) as u32
    }
}

pub fn usizev(r: &mut Rng, hostile: bool) -> usize {
    if hostile && r.chance(15) {
        *r.pick(&[usize::MAX, 1 << 40, 4, 99])
    } else {
        r.below(5)
    }
}

pub fn rgb(r: &mut Rng) -> [u8; 3] {
    let mut c = || match r.below(6) {
        0 => 0,
        1 => 255,
        _ => r.below(256) as u8,
    };
    [c(), c(), c()]
}

pub fn val(r: &mut Rng, kind: Kind, hostile: bool) -> V {
    match kind {
        Kind::Int => V::Int(int(r, hostile)),
        Kind::Dec => V::Dec(loop {
            let d = dec(r, hostile);
            // leading whitespace of a value isn't part of it
            if !d.text().starts_with([' ', '\t']) {
                break d;
            }
        }),
        Kind::Text => V::Text(text(r, hostile)),
        Kind::Bool => V::Bool(r.bool()),
        Kind::Ints => {
            let n = *r.pick(&[0, 1, 1, 2, 5]);
            let n = r.many(n, 4000);
            V::Ints((0..n).map(|_| int(r, hostile)).collect())
        }
        Kind::Tags => {
            let n = 1 + r.below(5);
            let n = r.many(n, 2000);
            let mut t: Vec<String> = (0..n)
                .map(|_| {
                    if hostile && r.chance(15) {
                        String::new()
                    } else if hostile {
                        r.pick(WORDS).replace(' ', "_")
                    } else {
                        word(r, false)
                    }
                })
                .collect();
            if t.len() > 1 && t[0].is_empty() {
                t[0] = "tag".to_string();
            }
            V::Tags(t)
        }
        Kind::Countdown | Kind::SampleSet | Kind::Mode => V::Code(r.below(4) as u8),
        Kind::Overlay => V::Code(r.below(3) as u8),
    }
}

pub fn kv_section(r: &mut Rng, section: usize, v: u8, o: &Opt) -> Vec<Kv> {
    let mut out = Vec::new();
    let density = *r.pick(&[100u32, 60, 25]);
    for (key, kind) in KV_SCHEMAS[section] {
        if !r.chance(density) {
            continue;
        }
        let val = val(r, *kind, o.hostile);
        if !o.gated && (!kv_reads(section, key, &val, v) || !kv_writes(section, key, v)) {
            continue;
        }
        out.push(Kv { key, val });
    }
    out
}

pub fn tp(r: &mut Rng, v: u8, o: &Opt) -> Tp {
    let mut t = Tp {
        time: dec(r, o.hostile),
        beat: if o.hostile && r.chance(3) {
            // near zero
            D::N { m: r.range(-3000, 3000).into(), s: 18 + r.below(11) as u32 }
        } else if r.bool() {
            num(r, o.hostile)
        } else {
            later(r, o.hostile)
        },
        meter: if r.chance(80) {
            1 + r.below(8) as i32
        } else {
            int(r, o.hostile)
        },
        set: if o.hostile && r.chance(20) {
            int(r, true)
        } else {
            r.below(4) as i32
        },
        index: u32v(r, o.hostile),
        volume: if o.hostile && r.chance(20) {
            int(r, true)
        } else {
            *r.pick(&[100, 100, 50, 0, 5, 99, 101])
        },
        uninh: None,
        effects: None,
        explicit_vol: o.spell && v == 4 && r.bool(),
    };
    if v == 3 {
        t.meter = 4;
        t.set = 1;
        t.index = 1;
        t.volume = 100;
    }
    let e = if o.hostile && r.chance(20) {
        *r.pick(&[u32::MAX, 1 << 31, 6, 0xF0])
    } else {
        *r.pick(&[0u32, 1, 8, 9])
    };
    if v == 5 {
        if r.chance(70) {
            t.uninh = Some(r.bool());
            if r.chance(60) {
                t.effects = Some(e);
            }
        }
    } else if v > 5 && r.chance(85) {
        t.uninh = Some(r.bool());
        t.effects = Some(e);
    }
    t
}

pub fn colour(r: &mut Rng, o: &Opt) -> Col {
    let k = match r.below(5) {
        0 => ColK::SliderTrack,
        1 => ColK::SliderBorder,
        _ => ColK::Combo(if o.hostile && r.chance(20) {
            i32::MAX
        } else {
            r.below(10) as i32
        }),
    };
    Col {
        lower: o.spell && k == ColK::SliderBorder && r.bool(),
        k,
        rgb: rgb(r),
    }
}

pub fn hs(r: &mut Rng, o: &Opt) -> Hs {
    let mut h = Hs {
        normal: usizev(r, o.hostile),
        addition: usizev(r, o.hostile),
        index: usizev(r, o.hostile),
        volume: match r.below(4) {
            0 => Some(1 + r.below(100) as u8),
            1 => Some(*r.pick(&[1, 100])),
            _ => None,
        },
        file: match r.below(4) {
            0 => {
                let f = file(r, o.hostile);
                f.replace(':', "_")
            }
            1 if o.hostile => "a,b.wav".to_string(),
            _ => String::new(),
        },
        fields: 5,
    };
    if o.spell && r.chance(40) {
        h.fields = r.below(6) as u8;
        if h.fields < 5 {
            h.file = String::new();
        }
        if h.fields < 4 {
            h.volume = None;
        }
        if h.fields < 3 {
            h.index = 0;
        }
        if h.fields < 2 {
            h.addition = 0;
        }
        if h.fields < 1 {
            h.normal = 0;
        }
    }
    h
}

pub fn ho(r: &mut Rng, v: u8, o: &Opt) -> Ho {
    let kind = r.below(5);
    let mut sample = if r.chance(60) { Some(hs(r, o)) } else { None };
    let mut type_extra = 0;
    if o.spell && r.chance(25) {
        let free: &[i32] = match kind {
            0 | 1 => &[2, 8, 128, 256, 1 << 20],
            2 => &[8, 128, 256],
            3 => &[128, 512],
            _ => &[256, 1 << 30],
        };
        type_extra = *r.pick(free);
    }
    let k = match kind {
        0 | 1 => HoK::Circle,
        2 => {
            let n = *r.pick(&[0usize, 1, 1, 2, 4, 9]);
            let n = r.many(n, 4000);
            let level = if sample.is_some() { 3 } else { r.below(3) as u8 };
            let edges = |r: &mut Rng| {
                let n = *r.pick(&[0usize, 1, 2, 2, 3]);
                r.many(n, 4000)
            };
            let ns = if level >= 1 { edges(r) } else { 0 };
            let nt = if level >= 2 { edges(r) } else { 0 };
            HoK::Slider {
                curve: r.below(4) as u8,
                points: (0..n).map(|_| point(r, o.hostile)).collect(),
                slides: if o.hostile && r.chance(15) {
                    int(r, true)
                } else {
                    1 + r.below(4) as i32
                },
                length: later(r, o.hostile),
                sounds: (0..ns).map(|_| r.below(16) as u8).collect(),
                sets: (0..nt)
                    .map(|_| (usizev(r, o.hostile), usizev(r, o.hostile)))
                    .collect(),
                level,
                first: if v == 3 && o.spell && r.bool() {
                    Some(point(r, o.hostile))
                } else {
                    None
                },
            }
        }
        3 => HoK::Spinner {
            end: dec(r, o.hostile),
        },
        _ => HoK::Hold {
            end: loop {
                let d = dec(r, o.hostile);
                if !d.text().contains(':') {
                    break d;
                }
            },
        },
    };
    let mut trail = false;
    if matches!(k, HoK::Circle) && v == 3 && sample.is_none() {
        trail = !o.spell || r.bool();
    }
    // the last field of a slider without edges is its length, which then can't be told apart from
    // one with trailing whitespace
    if matches!(k, HoK::Hold { .. }) && sample.is_some() && r.chance(20) {
        sample = None;
    }
    let (mut x, mut y) = (dec(r, o.hostile), later(r, o.hostile));
    if let HoK::Slider { points, .. } = &k {
        // a point where the slider starts
        if !points.is_empty() && r.chance(10) {
            let p = r.pick(points).clone();
            if p.0.text().trim() == p.0.text() && !p.0.text().contains(',') && !p.1.text().contains(',') {
                (x, y) = p;
            }
        }
    }
    Ho {
        x,
        y,
        time: dec(r, o.hostile),
        new_combo: r.chance(30),
        skip: if r.chance(20) { r.below(8) as u8 } else { 0 },
        sound: r.below(16) as u8,
        k,
        sample,
        type_extra,
        sound_extra: if o.spell && r.chance(15) {
            *r.pick(&[16u8, 32, 64, 128, 240])
        } else {
            0
        },
        trail,
    }
}

fn point(r: &mut Rng, hostile: bool) -> (D, D) {
    let mut c = || loop {
        let d = later(r, hostile);
        let t = d.text();
        if !t.contains(['|', ':', ',']) {
            return d;
        }
    };
    (c(), c())
}

pub fn trigger_type(r: &mut Rng, hostile: bool) -> Tt {
    match r.below(6) {
        0 => Tt::Passing,
        1 => Tt::Failing,
        _ => {
            let set = if r.chance(60) { Some(r.below(4) as u8) } else { None };
            Tt::HitSound {
                set,
                add_set: if set.is_some() && r.chance(50) {
                    Some(r.below(4) as u8)
                } else {
                    None
                },
                addition: if r.chance(50) { Some(r.below(3) as u8) } else { None },
                custom: if r.chance(50) {
                    Some(if hostile && r.chance(30) {
                        *r.pick(&[usize::MAX, 123_456, 10])
                    } else {
                        r.below(30)
                    })
                } else {
                    None
                },
            }
        }
    }
}

fn maybe_time(r: &mut Rng, hostile: bool, pct: u32) -> Option<i32> {
    if r.chance(pct) {
        Some(cmd_int(r, hostile))
    } else {
        None
    }
}

fn cmd_int(r: &mut Rng, hostile: bool) -> i32 {
    if hostile && r.chance(5) {
        i32::MIN
    } else {
        int(r, hostile)
    }
}

pub fn cmd(r: &mut Rng, hostile: bool, depth: usize) -> Cmd {
    let nest = depth > 0 && r.chance(35);
    let easing = if hostile && r.chance(15) {
        int(r, true)
    } else {
        r.below(35) as i32
    };
    let start = maybe_time(r, hostile, 92);
    let end = if start.is_some() {
        maybe_time(r, hostile, 65)
    } else {
        None
    };
    if nest {
        let n = *r.pick(&[0usize, 1, 2, 4]);
        let n = r.many(n, 2000);
        let cmds = repeating(r, n, |r| cmd(r, hostile, depth - 1));
        return if r.bool() {
            Cmd {
                start,
                k: CmdK::Loop {
                    count: if hostile && r.chance(10) {
                        u32::MAX
                    } else {
                        r.below(50) as u32
                    },
                    cmds,
                },
            }
        } else {
            Cmd {
                start: maybe_time(r, hostile, 60),
                k: CmdK::Trigger {
                    tt: trigger_type(r, hostile),
                    end: maybe_time(r, hostile, 60),
                    group: maybe_time(r, hostile, 40),
                    cmds,
                },
            }
        };
    }
    let k = match r.below(9) {
        0 => {
            let n = 3 + *r.pick(&[0usize, 0, 1, 2, 3, 6, 7]);
            let n = r.many(n, 3000);
            CmdK::Colour {
                easing,
                end,
                vals: (0..n).map(|_| r.below(256) as u8).collect(),
            }
        }
        1 => {
            let n = 1 + *r.pick(&[0usize, 0, 1, 2]);
            let n = r.many(n, 3000);
            CmdK::Param {
                easing,
                end,
                vals: (0..n).map(|_| r.below(3) as u8).collect(),
            }
        }
        n => {
            let op = ["F", "MX", "MY", "S", "R", "M", "V"][n - 2];
            let min = if op == "M" || op == "V" { 2 } else { 1 };
            let n = min + *r.pick(&[0usize, 0, 1, 2, 3, 6]);
            let n = r.many(n, 3000);
            CmdK::Vals {
                op,
                easing,
                end,
                vals: (0..n).map(|_| later(r, hostile)).collect(),
            }
        }
    };
    Cmd { start, k }
}

pub fn cmds(r: &mut Rng, o: &Opt) -> Vec<Cmd> {
    let n = *r.pick(&[0usize, 0, 1, 2, 4]);
    let n = r.many(n, 2000);
    let depth = *r.pick(&[0usize, 1, 2, 4]);
    if r.chance(2) {
        return deep(r, o.hostile);
    }
    repeating(r, n, |r| cmd(r, o.hostile, depth))
}

/// Many levels, with commands before and after the next one.
fn deep(r: &mut Rng, hostile: bool) -> Vec<Cmd> {
    let n = 3 + r.below(12);
    let mut list = Vec::new();
    for level in 0..r.many(n, 120) {
        let mut outer = loop {
            let c = cmd(r, hostile, 1);
            if level == 0 || c.children().is_some() {
                break c;
            }
        };
        if let Some(k) = outer.children_mut() {
            *k = list;
        }
        list = Vec::new();
        for _ in 0..r.below(2) {
            list.push(cmd(r, hostile, 1));
        }
        list.push(outer);
        for _ in 0..r.below(3) {
            list.push(cmd(r, hostile, 1));
        }
    }
    list
}

fn pos(r: &mut Rng, o: &Opt) -> Option<(D, D)> {
    if r.chance(15) {
        // with a meaning of their own: corner, default, centre of the screen
        let (x, y) = *r.pick(&[(0, 0), (256, 192), (320, 240)]);
        Some((D::int(x), D::int(y)))
    } else if r.chance(55) {
        Some((later(r, o.hostile), later(r, o.hostile)))
    } else {
        None
    }
}

pub fn event(r: &mut Rng, o: &Opt) -> Ev {
    let h = o.hostile;
    let k = match r.below(12) {
        0 => EvK::Comment(if r.chance(20) {
            String::new()
        } else {
            let space = if r.chance(25) { " " } else { "" };
            format!("{space}{}", word(r, h))
        }),
        1 => EvK::Background {
            start: cmd_int(r, h),
            file: file(r, h),
            pos: pos(r, o),
        },
        2 => EvK::Video {
            long: r.bool(),
            start: int(r, h),
            file: file(r, h),
            pos: pos(r, o),
        },
        3 => EvK::Break {
            long: r.bool(),
            start: int(r, h),
            end: int(r, h),
        },
        4 => EvK::ColourTrans {
            start: int(r, h),
            rgb: rgb(r),
        },
        5 => EvK::SpriteLegacy {
            layer: r.below(6) as u8,
            origin: r.below(10) as u8,
            file: file(r, h),
            pos: pos(r, o),
        },
        6 => EvK::AnimationLegacy {
            layer: r.below(6) as u8,
            origin: r.below(10) as u8,
            file: file(r, h),
            pos: pos(r, o),
        },
        7 => EvK::SampleLegacy {
            time: dec(r, h),
            layer: r.below(6) as u8,
            file: file(r, h),
            vol: if r.bool() {
                Some(r.below(101) as u8)
            } else {
                None
            },
        },
        8 | 9 => {
            let (origin, named) = origin(r, h);
            EvK::Sprite {
                layer: r.below(5) as u8,
                origin,
                named,
                file: file(r, h),
                pos: (dec(r, h), dec(r, h)),
            }
        }
        10 => {
            let (origin, named) = origin(r, h);
            let once = r.bool();
            EvK::Animation {
                layer: r.below(5) as u8,
                origin,
                named,
                file: file(r, h),
                pos: (dec(r, h), dec(r, h)),
                frames: if h && r.chance(10) {
                    u32::MAX
                } else {
                    r.below(40) as u32
                },
                delay: num(r, h),
                once,
                omit_loop: !once && o.spell && r.chance(40),
            }
        }
        _ => {
            let vol = *r.pick(&[100u8, 0, 1, 50, 99]);
            EvK::Audio {
                time: cmd_int(r, h),
                layer: r.below(4) as u8,
                file: file(r, h),
                vol,
                omit_vol: vol == 100 && o.spell && r.bool(),
            }
        }
    };
    let cmds = if k.takes_cmds() { cmds(r, o) } else { vec![] };
    Ev { k, cmds }
}

fn origin(r: &mut Rng, h: bool) -> (i32, bool) {
    if h && r.chance(15) {
        (*r.pick(&[10, 11, 12, -1, 99, i32::MAX, i32::MIN]), false)
    } else {
        (r.below(10) as i32, r.bool())
    }
}

fn list<T: Clone>(r: &mut Rng, o: &Opt, f: impl FnMut(&mut Rng) -> T) -> Vec<T> {
    let n = if r.chance(12) { 0 } else { 1 + r.below(o.max) };
    let n = r.many(n, 10_000);
    repeating(r, n, f)
}

/// Items that sometimes repeat one before them.
fn repeating<T: Clone>(r: &mut Rng, n: usize, mut f: impl FnMut(&mut Rng) -> T) -> Vec<T> {
    let mut list: Vec<T> = Vec::new();
    for _ in 0..n {
        let item = match list.len() {
            0 => f(r),
            len if r.chance(5) => list[if r.bool() { len - 1 } else { r.below(len) }].clone(),
            _ => f(r),
        };
        list.push(item);
    }
    list
}

pub fn doc(r: &mut Rng, v: u8, o: &Opt) -> Doc {
    let mut d = Doc::empty(v);
    for s in 0..4 {
        if r.chance(o.present) {
            d.kv[s] = Some(kv_section(r, s, v, o));
        }
    }
    if r.chance(o.present) {
        d.events = Some(list(r, o, |r| event(r, o)));
    }
    if r.chance(o.present) {
        d.tps = Some(list(r, o, |r| tp(r, v, o)));
    }
    if r.chance(o.present) && (v >= 5 || o.gated) {
        d.colours = Some(list(r, o, |r| colour(r, o)));
    }
    if r.chance(o.present) {
        d.hos = Some(list(r, o, |r| ho(r, v, o)));
    }
    d
}

pub fn version(r: &mut Rng) -> u8 {
    if r.chance(35) {
        *r.pick(&[3, 4, 5, 14])
    } else {
        r.range(3, 14) as u8
    }
}

const VAR_VALUES: &[&str] = &[
    "1", "100", "0.5", "-320", "255", "0,0", "1,2,3", "H", "abc", "1000,2000", "320,240", "1,0", "a=b", "=", "x==1", "$", "é",
];

pub const LONG_NAMES: &[&str] = &["veryLongVariableName", "position_of_the_star_", "A", "fade in ", "x.y-z", "L", "ÄÖÜäöü日本語"];

/// Names aren't prefixes of each other.
pub fn osb(r: &mut Rng, o: &Opt) -> OsbDoc {
    let mut names: Vec<String> = Vec::new();
    let n = r.below(5);
    for i in 0..n {
        let name = match r.below(6) {
            0 => format!("v{i}_"),
            1 => format!("{i}fade"),
            2 => format!("ü{i}x"),
            3 => format!("{}{i}", *r.pick(LONG_NAMES)),
            4 => format!("{i}{}{}", *r.pick(LONG_NAMES), r.below(1000)),
            _ => format!("{}{i}z", word(r, false)),
        };
        if names
            .iter()
            .all(|o| !o.starts_with(&name) && !name.starts_with(o.as_str()))
        {
            names.push(name);
        }
    }
    OsbDoc {
        vars: if r.chance(75) {
            Some(
                names
                    .into_iter()
                    .map(|n| (n, (*r.pick(VAR_VALUES)).to_string()))
                    .collect(),
            )
        } else {
            None
        },
        events: if r.chance(92) {
            Some(list(r, o, |r| event(r, o)))
        } else {
            None
        },
    }
}
