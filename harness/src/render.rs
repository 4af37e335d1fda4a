//! Text of reference documents, written from the format's description, and layouts of that text.
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sect {
    pub name: String,
    pub kv: bool,
    pub lines: Vec<String>,
}

fn opt<T: ToString>(v: &Option<T>) -> String {
    v.as_ref().map_or(String::new(), |v| v.to_string())
}

fn time_d(d: &D, v: u8) -> String {
    if v <= 4 {
        d.shift(-24).text()
    } else {
        d.text()
    }
}

fn time_i(t: i32, v: u8) -> String {
    if v <= 4 {
        (i64::from(t) - 24).to_string()
    } else {
        t.to_string()
    }
}

fn join<T: ToString>(v: &[T], sep: &str) -> String {
    v.iter()
        .map(ToString::to_string)
        .collect::<Vec<_>>()
        .join(sep)
}

pub fn kv_value(kind: Kind, val: &V) -> String {
    match (val, kind) {
        (V::Int(i), _) => i.to_string(),
        (V::Dec(d), _) => d.text(),
        (V::Text(t), _) => t.clone(),
        (V::Bool(b), _) => if *b { "1" } else { "0" }.to_string(),
        (V::Ints(v), _) => join(v, ","),
        (V::Tags(v), _) => v.join(" "),
        (V::Code(c), Kind::SampleSet) => SAMPLE_SETS[*c as usize].to_string(),
        (V::Code(c), Kind::Overlay) => OVERLAYS[*c as usize].to_string(),
        (V::Code(c), _) => c.to_string(),
    }
}

pub fn kv_line(section: usize, kv: &Kv) -> String {
    let kind = KV_SCHEMAS[section]
        .iter()
        .find(|(k, _)| *k == kv.key)
        .unwrap()
        .1;
    let sep = if section < 2 { ": " } else { ":" };
    format!("{}{sep}{}", kv.key, kv_value(kind, &kv.val))
}

pub fn hs_text(h: &Hs) -> String {
    let all = [
        h.normal.to_string(),
        h.addition.to_string(),
        h.index.to_string(),
        h.volume.unwrap_or(0).to_string(),
        h.file.clone(),
    ];
    all[..h.fields as usize].join(":")
}

pub fn ho_line(h: &Ho, v: u8) -> String {
    let bit = match h.k {
        HoK::Circle => 1,
        HoK::Slider { .. } => 2,
        HoK::Spinner { .. } => 8,
        HoK::Hold { .. } => 128,
    };
    let ty = bit | (i32::from(h.new_combo) << 2) | (i32::from(h.skip) << 4) | h.type_extra;
    let mut s = format!(
        "{},{},{},{ty},{}",
        h.x.text(),
        h.y.text(),
        time_d(&h.time, v),
        h.sound | h.sound_extra
    );
    match &h.k {
        HoK::Circle => {
            if let Some(h) = &h.sample {
                s += &format!(",{}", hs_text(h));
            } else if h.trail {
                s.push(',');
            }
        }
        HoK::Slider {
            curve,
            points,
            slides,
            length,
            sounds,
            sets,
            level,
            first,
        } => {
            s += &format!(",{}", CURVES[*curve as usize]);
            let mut pts: Vec<String> = Vec::new();
            if v == 3 {
                let (x, y) = match first {
                    Some(p) => p.clone(),
                    None => (h.x.clone(), h.y.clone()),
                };
                pts.push(format!("{}:{}", x.text(), y.text()));
            }
            pts.extend(points.iter().map(|(x, y)| format!("{}:{}", x.text(), y.text())));
            if !pts.is_empty() {
                s += &format!("|{}", pts.join("|"));
            }
            s += &format!(",{slides},{}", length.text());
            if *level >= 1 {
                s += &format!(",{}", join(sounds, "|"));
            }
            if *level >= 2 {
                let sets: Vec<_> = sets.iter().map(|(a, b)| format!("{a}:{b}")).collect();
                s += &format!(",{}", sets.join("|"));
            }
            if *level >= 3 {
                if let Some(h) = &h.sample {
                    s += &format!(",{}", hs_text(h));
                }
            }
        }
        HoK::Spinner { end } => {
            s += &format!(",{}", time_d(end, v));
            if let Some(h) = &h.sample {
                s += &format!(",{}", hs_text(h));
            }
        }
        HoK::Hold { end } => {
            s += &format!(
                ",{}:{}",
                time_d(end, v),
                h.sample.as_ref().map_or(String::new(), hs_text)
            );
        }
    }
    s
}

pub fn tp_line(t: &Tp, v: u8) -> String {
    let mut s = format!("{},{}", time_d(&t.time, v), t.beat.text());
    if v >= 4 {
        s += &format!(",{},{},{}", t.meter, t.set, t.index);
    }
    if v == 4 && (t.volume != 100 || t.explicit_vol) {
        s += &format!(",{}", t.volume);
    }
    if v >= 5 {
        s += &format!(",{}", t.volume);
        if let Some(u) = t.uninh {
            s += &format!(",{}", u8::from(u));
        }
        if let Some(e) = t.effects {
            s += &format!(",{e}");
        }
    }
    s
}

pub fn colour_line(c: &Col) -> String {
    let name = match c.k {
        ColK::Combo(n) => format!("Combo{n}"),
        ColK::SliderTrack => "SliderTrackOverride".to_string(),
        ColK::SliderBorder => if c.lower { "Sliderborder" } else { "SliderBorder" }.to_string(),
    };
    format!("{name} : {},{},{}", c.rgb[0], c.rgb[1], c.rgb[2])
}

pub fn trigger_text(t: &Tt) -> String {
    match t {
        Tt::Passing => "Passing".to_string(),
        Tt::Failing => "Failing".to_string(),
        Tt::HitSound {
            set,
            add_set,
            addition,
            custom,
        } => format!(
            "HitSound{}{}{}{}",
            set.map_or("", |s| TRIGGER_SETS[s as usize]),
            add_set.map_or("", |s| TRIGGER_SETS[s as usize]),
            addition.map_or("", |s| ADDITIONS[s as usize]),
            opt(custom)
        ),
    }
}

/// A command's text without indentation and without the commands in it.
pub fn cmd_text(c: &Cmd) -> String {
    match &c.k {
        CmdK::Vals {
            op,
            easing,
            end,
            vals,
        } => {
            let vals: Vec<_> = vals.iter().map(D::text).collect();
            format!(
                "{op},{easing},{},{},{}",
                opt(&c.start),
                opt(end),
                vals.join(",")
            )
        }
        CmdK::Colour { easing, end, vals } => format!(
            "C,{easing},{},{},{}",
            opt(&c.start),
            opt(end),
            join(vals, ",")
        ),
        CmdK::Param { easing, end, vals } => {
            let vals: Vec<_> = vals.iter().map(|p| PARAMS[*p as usize]).collect();
            format!(
                "P,{easing},{},{},{}",
                opt(&c.start),
                opt(end),
                vals.join(",")
            )
        }
        CmdK::Loop { count, .. } => format!("L,{},{count}", opt(&c.start)),
        CmdK::Trigger { tt, end, group, .. } => {
            let mut f = vec![trigger_text(tt), opt(&c.start), opt(end), opt(group)];
            while f.len() > 1 && f.last().unwrap().is_empty() {
                f.pop();
            }
            format!("T,{}", f.join(","))
        }
    }
}

pub fn cmd_lines(cmds: &[Cmd], depth: usize, out: &mut Vec<String>) {
    for c in cmds {
        out.push(format!("{}{}", " ".repeat(depth), cmd_text(c)));
        if let Some(c) = c.children() {
            cmd_lines(c, depth + 1, out);
        }
    }
}

fn pos_text(p: &Option<(D, D)>) -> String {
    p.as_ref()
        .map_or(String::new(), |(x, y)| format!(",{},{}", x.text(), y.text()))
}

fn origin_text(origin: i32, named: bool) -> String {
    if named {
        ORIGINS[origin as usize].to_string()
    } else {
        origin.to_string()
    }
}

pub fn event_head(e: &EvK, v: u8) -> String {
    match e {
        EvK::Comment(c) => format!("//{c}"),
        EvK::Background { start, file, pos } => format!("0,{start},{file}{}", pos_text(pos)),
        EvK::Video {
            long,
            start,
            file,
            pos,
        } => format!(
            "{},{},{file}{}",
            if *long { "Video" } else { "1" },
            time_i(*start, v),
            pos_text(pos)
        ),
        EvK::Break { long, start, end } => format!(
            "{},{},{}",
            if *long { "Break" } else { "2" },
            time_i(*start, v),
            time_i(*end, v)
        ),
        EvK::ColourTrans { start, rgb } => {
            format!("3,{},{},{},{}", time_i(*start, v), rgb[0], rgb[1], rgb[2])
        }
        EvK::SpriteLegacy {
            layer,
            origin,
            file,
            pos,
        } => format!("4,{layer},{origin},{file}{}", pos_text(pos)),
        EvK::AnimationLegacy {
            layer,
            origin,
            file,
            pos,
        } => format!("5,{layer},{origin},{file}{}", pos_text(pos)),
        EvK::SampleLegacy {
            time,
            layer,
            file,
            vol,
        } => format!(
            "6,{},{layer},{file}{}",
            time.text(),
            vol.map_or(String::new(), |v| format!(",{v}"))
        ),
        EvK::Sprite {
            layer,
            origin,
            named,
            file,
            pos,
        } => format!(
            "Sprite,{},{},{file},{},{}",
            LAYERS[*layer as usize],
            origin_text(*origin, *named),
            pos.0.text(),
            pos.1.text()
        ),
        EvK::Animation {
            layer,
            origin,
            named,
            file,
            pos,
            frames,
            delay,
            once,
            omit_loop,
        } => format!(
            "Animation,{},{},{file},{},{},{frames},{}{}",
            LAYERS[*layer as usize],
            origin_text(*origin, *named),
            pos.0.text(),
            pos.1.text(),
            delay.text(),
            if *omit_loop {
                ""
            } else if *once {
                ",LoopOnce"
            } else {
                ",LoopForever"
            }
        ),
        EvK::Audio {
            time,
            layer,
            file,
            vol,
            omit_vol,
        } => format!(
            "Sample,{time},{layer},{file}{}",
            if *omit_vol {
                String::new()
            } else {
                format!(",{vol}")
            }
        ),
    }
}

pub fn event_lines(e: &Ev, v: u8) -> Vec<String> {
    let mut out = vec![event_head(&e.k, v)];
    cmd_lines(&e.cmds, 1, &mut out);
    out
}

/// The sections in the writer's order.
pub fn sections(d: &Doc) -> Vec<Sect> {
    let v = d.v;
    let mut out = Vec::new();
    for i in 0..4 {
        if let Some(kv) = &d.kv[i] {
            out.push(Sect {
                name: KV_NAMES[i].to_string(),
                kv: true,
                lines: kv.iter().map(|kv| kv_line(i, kv)).collect(),
            });
        }
    }
    let mut list = |name: &str, lines: Option<Vec<String>>| {
        if let Some(lines) = lines {
            out.push(Sect {
                name: name.to_string(),
                kv: false,
                lines,
            });
        }
    };
    list(
        "Events",
        d.events
            .as_ref()
            .map(|e| e.iter().flat_map(|e| event_lines(e, v)).collect()),
    );
    list(
        "TimingPoints",
        d.tps
            .as_ref()
            .map(|t| t.iter().map(|t| tp_line(t, v)).collect()),
    );
    list(
        "Colours",
        d.colours
            .as_ref()
            .map(|c| c.iter().map(colour_line).collect()),
    );
    list(
        "HitObjects",
        d.hos
            .as_ref()
            .map(|h| h.iter().map(|h| ho_line(h, v)).collect()),
    );
    out
}

pub fn osb_sections(d: &OsbDoc) -> Vec<Sect> {
    let mut out = Vec::new();
    if let Some(vars) = &d.vars {
        out.push(Sect {
            name: "Variables".to_string(),
            kv: false,
            lines: vars.iter().map(|(n, v)| format!("${n}={v}")).collect(),
        });
    }
    if let Some(e) = &d.events {
        out.push(Sect {
            name: "Events".to_string(),
            kv: false,
            lines: e.iter().flat_map(|e| event_lines(e, 14)).collect(),
        });
    }
    out
}

/// How the writer lays sections out.
pub fn plain(version: Option<u8>, sections: &[Sect]) -> String {
    let body = sections
        .iter()
        .map(|s| format!("[{}]\n{}", s.name, s.lines.join("\n")))
        .collect::<Vec<_>>()
        .join("\n\n");
    match version {
        Some(v) => format!("osu file format v{v}\n\n{body}"),
        None => body,
    }
}

/// The plain text or, as often, one in some layout. `free` allows keys in another order and other
/// spacing around values.
pub fn dressed(version: Option<u8>, sections: &[Sect], free: bool, r: &mut Rng) -> String {
    if r.chance(55) {
        return plain(version, sections);
    }
    let mut l = Layout::random(r);
    if !free {
        l.shuffle_keys = false;
        l.kv_space = false;
        l.blank_inside = 0;
    }
    if version.is_none() {
        l.shuffle_sections = false;
    }
    lay(version.map(version_line).as_deref(), sections, &l, r).text
}

pub fn canonical(d: &Doc, w: u8) -> String {
    plain(Some(w), &sections(&after_write(d, w)))
}

#[derive(Clone, Debug)]
pub struct Layout {
    pub crlf: bool,
    pub bom: bool,
    pub lead_blank: usize,
    /// lines between the version and the first section, comments or blank
    pub pre: Vec<String>,
    pub shuffle_sections: bool,
    pub shuffle_keys: bool,
    /// spaces around values of keys
    pub kv_space: bool,
    /// a line (of a section) whose spacing is kept as it is
    pub exact: Option<(usize, usize)>,
    /// percent of blank lines inside of sections
    pub blank_inside: u32,
    /// blank lines that separate sections: 0 none, 1 exactly empty ones, 2 with whitespace, 3 any
    pub boundary: u8,
    pub underscore: bool,
    pub final_newline: bool,
}

impl Layout {
    pub fn writer() -> Layout {
        Layout {
            crlf: false,
            bom: false,
            lead_blank: 0,
            pre: vec![String::new()],
            shuffle_sections: false,
            shuffle_keys: false,
            kv_space: false,
            exact: None,
            blank_inside: 0,
            boundary: 1,
            underscore: false,
            final_newline: false,
        }
    }
    pub fn random(r: &mut Rng) -> Layout {
        let n = r.below(3);
        Layout {
            crlf: r.chance(40),
            bom: r.chance(25),
            lead_blank: if r.chance(20) { 1 + r.below(3) } else { 0 },
            pre: (0..n)
                .map(|_| (*r.pick(&["", "// a comment", "  // another", "", "//[x]", "  // [old]", "\t//[General]", "   ", "// [Events] ", " //", "//x:y", "  // osu file format v3", "// $a=b"])).to_string())
                .collect(),
            shuffle_sections: r.chance(40),
            shuffle_keys: r.chance(50),
            kv_space: r.chance(50),
            exact: None,
            blank_inside: *r.pick(&[0, 0, 20]),
            boundary: r.below(4) as u8,
            underscore: r.chance(30),
            final_newline: r.chance(60),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Loc {
    Blank,
    Version,
    Pre,
    /// of the n-th section of the input
    Header(usize),
    Line(usize, usize),
}

pub struct Laid {
    pub text: String,
    pub locs: Vec<Loc>,
    /// physical lines, without line ends
    pub lines: Vec<String>,
}

impl Laid {
    pub fn find(&self, loc: Loc) -> Option<usize> {
        self.locs.iter().position(|l| *l == loc)
    }
    /// number of sections before line `line` that have content and end with an exactly empty line
    pub fn empty_boundaries(&self, line: usize) -> usize {
        let mut n = 0;
        for i in 1..=line.min(self.locs.len() - 1) {
            if !matches!(self.locs[i], Loc::Header(_)) || !self.lines[i - 1].is_empty() {
                continue;
            }
            // does the section before have content?
            let content = self.locs[..i]
                .iter()
                .rev()
                .take_while(|l| !matches!(l, Loc::Header(_)))
                .any(|l| matches!(l, Loc::Line(..)));
            if content {
                n += 1;
            }
        }
        n
    }
}

/// Assembles the text. `version` is the first line (none for .osb).
pub fn lay(version: Option<&str>, sections: &[Sect], l: &Layout, r: &mut Rng) -> Laid {
    let mut lines: Vec<(Loc, String)> = Vec::new();
    if let Some(v) = version {
        for _ in 0..l.lead_blank {
            let s = if r.bool() { "" } else { "  " };
            lines.push((Loc::Blank, s.to_string()));
        }
        let bom = if l.bom { "\u{feff}" } else { "" };
        lines.push((Loc::Version, format!("{bom}{v}")));
    }
    if !(version.is_none() && l.pre.iter().all(String::is_empty)) {
        lines.extend(l.pre.iter().map(|p| (Loc::Pre, p.clone())));
    }
    let mut order: Vec<usize> = (0..sections.len()).collect();
    if l.shuffle_sections {
        r.shuffle(&mut order);
    }
    for (n, &si) in order.iter().enumerate() {
        let s = &sections[si];
        // a name starting with this is the whole line
        let header = match s.name.strip_prefix('\u{1}') {
            Some(raw) => raw.to_string(),
            None => format!("[{}]", s.name),
        };
        lines.push((Loc::Header(si), header));
        if l.blank_inside > 0 && !s.lines.is_empty() && r.chance(l.blank_inside) {
            for _ in 0..r.run() {
                lines.push((Loc::Blank, String::new()));
            }
        }
        let mut keys: Vec<usize> = (0..s.lines.len()).collect();
        if l.shuffle_keys && s.kv {
            r.shuffle(&mut keys);
        }
        for (pos, &li) in keys.iter().enumerate() {
            let mut line = s.lines[li].clone();
            if s.kv && l.kv_space && l.exact != Some((si, li)) {
                if let Some((k, v)) = line.split_once(':') {
                    let v = v.strip_prefix(' ').unwrap_or(v);
                    let sp = *r.pick(&["", " ", "  ", "\t", " \t "]);
                    let indent = if pos > 0 && r.chance(15) { *r.pick(&[" ", "  ", "\t", "\t "]) } else { "" };
                    line = format!("{indent}{k}:{sp}{v}");
                }
            }
            if l.underscore && !s.kv && line.starts_with(' ') {
                let n = line.len() - line.trim_start_matches(' ').len();
                let ind: String = (0..n).map(|_| if r.bool() { '_' } else { ' ' }).collect();
                line = format!("{ind}{}", &line[n..]);
            }
            lines.push((Loc::Line(si, li), line));
            if l.blank_inside > 0 && r.chance(l.blank_inside) {
                for _ in 0..r.run() {
                    let s = *r.pick(&["", "", "  ", "\t"]);
                    lines.push((Loc::Blank, s.to_string()));
                }
            }
        }
        if n + 1 < order.len() {
            // a blank line in the section's end is the boundary already; keep to its kind
            if l.boundary != 3 {
                while lines.last().is_some_and(|(l, _)| *l == Loc::Blank) {
                    lines.pop();
                }
            }
            let sep: &[&str] = match l.boundary {
                0 => &[],
                1 => &[""],
                2 => r.pick(&[&[" "] as &[&str], &["", "\t"], &["  ", " "]]),
                _ => r.pick(&[&[] as &[&str], &[""], &["", ""], &[" "], &[" ", ""], &["", " "], &["", "", "", ""], &["", " ", "", "\t", ""]]),
            };
            lines.extend(sep.iter().map(|s| (Loc::Blank, (*s).to_string())));
        }
    }
    let nl = if l.crlf { "\r\n" } else { "\n" };
    let (locs, lines): (Vec<_>, Vec<_>) = lines.into_iter().unzip();
    let mut text = lines.join(nl);
    if l.final_newline {
        text.push_str(nl);
    }
    Laid { text, locs, lines }
}

pub fn version_line(v: u8) -> String {
    format!("osu file format v{v}")
}

/// Own comparison form: `key:value` sections as sorted pairs without spacing, others as they are.
pub fn normal_form(text: &str) -> String {
    let mut out: Vec<String> = Vec::new();
    let mut pairs: Vec<String> = Vec::new();
    let mut kv = false;
    for line in text.split('\n') {
        if line.is_empty() {
            continue;
        }
        if let Some(name) = line.strip_prefix('[').and_then(|l| l.strip_suffix(']')) {
            pairs.sort();
            out.append(&mut pairs);
            kv = KV_NAMES.contains(&name);
            out.push(line.to_string());
        } else if kv {
            pairs.push(match line.split_once(':') {
                Some((k, v)) => format!("{k}:{}", v.trim_start_matches([' ', '\t'])),
                None => line.to_string(),
            });
        } else {
            out.push(line.to_string());
        }
    }
    pairs.sort();
    out.append(&mut pairs);
    out.join("\n")
}
