//! Single faults of the structure around sections.
use crate::render::*;
use crate::rng::Rng;

pub struct Broken {
    pub version: Option<String>,
    pub sections: Vec<Sect>,
    pub layout: Layout,
    pub kind: &'static str,
    pub class: &'static str,
    /// where the error is; `Pre` for the only line before the sections that isn't blank or a comment
    pub at: Loc,
}

fn raw(s: &str) -> String {
    format!("\u{1}{s}")
}

fn filler(r: &mut Rng, like: Option<&Sect>) -> Vec<String> {
    match like {
        Some(s) if r.bool() => s.lines.clone(),
        _ => vec![],
    }
}

pub fn unknown_name(r: &mut Rng, osb: bool) -> String {
    let known: &[&str] = if osb {
        &["Events", "Variables"]
    } else {
        &["General", "Editor", "Metadata", "Difficulty", "Events", "TimingPoints", "Colours", "HitObjects"]
    };
    if r.bool() {
        let base = *r.pick(known);
        let n = crate::faults::near_name(r, base);
        if !known.contains(&n.as_str()) {
            return n;
        }
    }
    let v: &[&str] = &[
        "Fonts", "general", "GENERAL", "HitObject", "Event", "", "Colors", "TimingPoint", "Metadata2", "Events ", " Events",
        "éditeur", "Mania",
    ];
    let o: &[&str] = &["General", "HitObjects", "Metadata", "TimingPoints"];
    (*if osb && r.chance(30) {
        r.pick(o)
    } else if !osb && r.chance(10) {
        &"Variables"
    } else {
        r.pick(v)
    })
    .to_string()
}

/// `None` when the draw doesn't fit.
pub fn breaking(r: &mut Rng, version: Option<u8>, sections: &[Sect]) -> Option<Broken> {
    let mut layout = Layout::random(r);
    layout.shuffle_sections = false;
    let osb = version.is_none();
    let mut b = Broken {
        version: version.map(version_line),
        sections: sections.to_vec(),
        layout,
        kind: "",
        class: "",
        at: Loc::Version,
    };
    let n = b.sections.len();
    match r.below(if osb { 5 } else { 7 }) {
        0 => {
            if n == 0 {
                return None;
            }
            let i = r.below(n);
            let at = i + 1 + r.below(n - i);
            let mut copy = sections[i].clone();
            copy.lines = filler(r, Some(&sections[i]));
            b.sections.insert(at, copy);
            (b.kind, b.class, b.at) = ("DuplicateSections", "section twice", Loc::Header(at));
        }
        1 => {
            let at = r.below(n + 1);
            let lines = filler(r, sections.first());
            b.sections.insert(
                at,
                Sect {
                    name: unknown_name(r, osb),
                    kv: false,
                    lines,
                },
            );
            (b.kind, b.class, b.at) = ("UnknownSection", "unknown section", Loc::Header(at));
        }
        2 => {
            let at = r.below(n + 1);
            let name = *r.pick(&["[General", "[Events", "[", "[Foo", "[HitObjects  ", "[[", "[Events)"]);
            let lines = filler(r, sections.first());
            b.sections.insert(
                at,
                Sect {
                    name: raw(name),
                    kv: false,
                    lines,
                },
            );
            (b.kind, b.class, b.at) = ("SectionNameNoCloseBracket", "header not closed", Loc::Header(at));
        }
        3 => {
            let name = *r.pick(&["General]", "Events]", "]", "Foo]", "x[Events]", "[Events]".trim_start_matches('[')]);
            b.sections.insert(
                0,
                Sect {
                    name: raw(name),
                    kv: false,
                    lines: vec![],
                },
            );
            (b.kind, b.class, b.at) = ("SectionNameNoOpenBracket", "header not opened", Loc::Header(0));
        }
        4 => {
            let line = *r.pick(&[
                "foo", "Title:x", "osu file format v14", "General", "0,0,\"bg.png\"", "/ /", "$a=b", "-",
                "http://a.b", "foo // bar", "foo//", "/", "/ // x", "x[General", "a]b", "(General)", "{General}",
                ";", "#x", "--", "\u{200b}", "\u{feff}x", "0", "\\\\ x", "/*", "é",
            ]);
            let i = r.below(b.layout.pre.len() + 1);
            b.layout.pre.insert(i, line.to_string());
            if !osb {
                // the line after the version is never part of it
                b.layout.pre.insert(0, String::new());
            }
            (b.kind, b.class, b.at) = ("UnexpectedLine", "line before the sections", Loc::Pre);
        }
        5 => {
            let v = *r.pick(&["2", "15", "x", "", "-1", "14.5", " 14", "256", "0", "99999999999999999999", "14x", "1 4", "XIV", "14\u{7f}", "14\u{0}", "14\u{a0}", "14,", "14.", "14]", "14//", "14\u{200b}", "1\r4", "14;", "\u{661}\u{664}", "0x0e", "14e0", "14\u{1}"]);
            b.version = Some(format!("osu file format v{v}"));
            (b.kind, b.class) = ("InvalidFileVersion", "version number");
        }
        _ => {
            let l = *r.pick(&["osu file format 14", "Osu file format v14", "// osu file format v14", "osu file formatv14", "v14", "[General]", "osu", "x osu file format v14"]);
            b.version = Some(l.to_string());
            (b.kind, b.class) = ("FileVersionDefinedWrong", "version line");
        }
    }
    Some(b)
}

impl Broken {
    pub fn lay(&self, r: &mut Rng) -> (Laid, usize) {
        let laid = lay(self.version.as_deref(), &self.sections, &self.layout, r);
        let blank = |l: &str| l.trim().is_empty() || l.trim().starts_with("//");
        let at = match self.at {
            Loc::Pre => laid
                .locs
                .iter()
                .zip(&laid.lines)
                .position(|(a, l)| *a == Loc::Pre && !blank(l)),
            at => laid.find(at),
        };
        let at = at.expect("the fault has a line");
        (laid, at)
    }
}
