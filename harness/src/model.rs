//! Reference model of a beatmap: what a file *means*, independent of the library's types.
//!
//! `Doc` holds meaning plus a few spelling choices (`long`, `explicit_vol`, …) that change the text
//! but not the meaning; `norm` clears the latter so that two documents can be compared with `==`.

/// A number field: either a plain decimal `m * 10^-s`, or text that isn't a number.
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum D {
    N { m: i128, s: u32 },
    R(String),
}

impl std::fmt::Debug for D {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            D::N { .. } => write!(f, "num {}", self.text()),
            D::R(s) => write!(f, "text {s:?}"),
        }
    }
}

impl D {
    pub fn int(v: i64) -> D {
        D::N {
            m: i128::from(v),
            s: 0,
        }
    }
    pub fn text(&self) -> String {
        match self {
            D::R(s) => s.clone(),
            D::N { m, s } => {
                let neg = *m < 0;
                let mut d = m.unsigned_abs().to_string();
                let s = *s as usize;
                if s > 0 {
                    while d.len() <= s {
                        d.insert(0, '0');
                    }
                    d.insert(d.len() - s, '.');
                }
                if neg {
                    d.insert(0, '-');
                }
                d
            }
        }
    }
    /// the same number `by` milliseconds later
    pub fn shift(&self, by: i128) -> D {
        match self {
            D::R(_) => self.clone(),
            D::N { m, s } => D::N {
                m: m + by * 10i128.pow(*s),
                s: *s,
            },
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum V {
    Int(i32),
    Dec(D),
    Text(String),
    Bool(bool),
    Ints(Vec<i32>),
    Tags(Vec<String>),
    /// index of an enumerated value
    Code(u8),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Int,
    Dec,
    Text,
    Bool,
    Ints,
    Tags,
    Countdown,
    SampleSet,
    Mode,
    Overlay,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Kv {
    pub key: &'static str,
    pub val: V,
}

pub type Schema = &'static [(&'static str, Kind)];

pub const GENERAL: Schema = &[
    ("AudioFilename", Kind::Text),
    ("AudioLeadIn", Kind::Int),
    ("AudioHash", Kind::Text),
    ("PreviewTime", Kind::Int),
    ("Countdown", Kind::Countdown),
    ("SampleSet", Kind::SampleSet),
    ("StackLeniency", Kind::Dec),
    ("Mode", Kind::Mode),
    ("LetterboxInBreaks", Kind::Bool),
    ("StoryFireInFront", Kind::Bool),
    ("UseSkinSprites", Kind::Bool),
    ("AlwaysShowPlayfield", Kind::Bool),
    ("OverlayPosition", Kind::Overlay),
    ("SkinPreference", Kind::Text),
    ("EpilepsyWarning", Kind::Bool),
    ("CountdownOffset", Kind::Int),
    ("SpecialStyle", Kind::Bool),
    ("WidescreenStoryboard", Kind::Bool),
    ("SamplesMatchPlaybackRate", Kind::Bool),
    ("EditorBookmarks", Kind::Ints),
    ("EditorDistanceSpacing", Kind::Dec),
];
pub const EDITOR: Schema = &[
    ("Bookmarks", Kind::Ints),
    ("DistanceSpacing", Kind::Dec),
    ("BeatDivisor", Kind::Dec),
    ("GridSize", Kind::Int),
    ("TimelineZoom", Kind::Dec),
    ("CurrentTime", Kind::Int),
];
pub const METADATA: Schema = &[
    ("Title", Kind::Text),
    ("TitleUnicode", Kind::Text),
    ("Artist", Kind::Text),
    ("ArtistUnicode", Kind::Text),
    ("Creator", Kind::Text),
    ("Version", Kind::Text),
    ("Source", Kind::Text),
    ("Tags", Kind::Tags),
    ("BeatmapID", Kind::Int),
    ("BeatmapSetID", Kind::Int),
];
pub const DIFFICULTY: Schema = &[
    ("HPDrainRate", Kind::Dec),
    ("CircleSize", Kind::Dec),
    ("OverallDifficulty", Kind::Dec),
    ("ApproachRate", Kind::Dec),
    ("SliderMultiplier", Kind::Dec),
    ("SliderTickRate", Kind::Dec),
];
pub const KV_NAMES: [&str; 4] = ["General", "Editor", "Metadata", "Difficulty"];
pub const KV_SCHEMAS: [Schema; 4] = [GENERAL, EDITOR, METADATA, DIFFICULTY];

pub const SAMPLE_SETS: [&str; 4] = ["Normal", "Soft", "Drum", "None"];
pub const OVERLAYS: [&str; 3] = ["NoChange", "Below", "Above"];
pub const LAYERS: [&str; 5] = ["Background", "Fail", "Pass", "Foreground", "Overlay"];
pub const ORIGINS: [&str; 10] = [
    "TopLeft",
    "Centre",
    "CentreLeft",
    "TopRight",
    "BottomCentre",
    "TopCentre",
    "Custom",
    "CentreRight",
    "BottomLeft",
    "BottomRight",
];
pub const TRIGGER_SETS: [&str; 4] = ["All", "Normal", "Soft", "Drum"];
pub const ADDITIONS: [&str; 3] = ["Whistle", "Finish", "Clap"];
pub const PARAMS: [&str; 3] = ["H", "V", "A"];
pub const CURVES: [&str; 4] = ["B", "C", "L", "P"];

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Tp {
    pub time: D,
    pub beat: D,
    pub meter: i32,
    pub set: i32,
    pub index: u32,
    pub volume: i32,
    pub uninh: Option<bool>,
    pub effects: Option<u32>,
    /// spelling: version 4, the volume is written although it's 100
    pub explicit_vol: bool,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum ColK {
    Combo(i32),
    SliderTrack,
    SliderBorder,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Col {
    pub k: ColK,
    pub rgb: [u8; 3],
    /// spelling: `Sliderborder`
    pub lower: bool,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Hs {
    pub normal: usize,
    pub addition: usize,
    pub index: usize,
    pub volume: Option<u8>,
    pub file: String,
    /// spelling: only this many of the five fields, the others being the default
    pub fields: u8,
}

impl Hs {
    pub fn default() -> Hs {
        Hs {
            normal: 0,
            addition: 0,
            index: 0,
            volume: None,
            file: String::new(),
            fields: 5,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum HoK {
    Circle,
    Slider {
        curve: u8,
        points: Vec<(D, D)>,
        slides: i32,
        length: D,
        sounds: Vec<u8>,
        sets: Vec<(usize, usize)>,
        /// spelling: how many of edge sounds / edge sets / hit sample are there
        level: u8,
        /// spelling: version 3, the first point of the text
        first: Option<(D, D)>,
    },
    Spinner {
        end: D,
    },
    Hold {
        end: D,
    },
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ho {
    pub x: D,
    pub y: D,
    pub time: D,
    pub new_combo: bool,
    pub skip: u8,
    /// bits whistle=2, finish=4, clap=8 and normal=1
    pub sound: u8,
    pub k: HoK,
    pub sample: Option<Hs>,
    /// spelling: more type bits that don't mean anything for this object
    pub type_extra: i32,
    /// spelling: more sound bits that don't mean anything
    pub sound_extra: u8,
    /// spelling: version 3 circle, trailing comma
    pub trail: bool,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Tt {
    HitSound {
        set: Option<u8>,
        add_set: Option<u8>,
        addition: Option<u8>,
        custom: Option<usize>,
    },
    Passing,
    Failing,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum CmdK {
    /// F MX MY S R (1+ values), M V (2+ values)
    Vals {
        op: &'static str,
        easing: i32,
        end: Option<i32>,
        vals: Vec<D>,
    },
    Colour {
        easing: i32,
        end: Option<i32>,
        vals: Vec<u8>,
    },
    Param {
        easing: i32,
        end: Option<i32>,
        vals: Vec<u8>,
    },
    Loop {
        count: u32,
        cmds: Vec<Cmd>,
    },
    Trigger {
        tt: Tt,
        end: Option<i32>,
        group: Option<i32>,
        cmds: Vec<Cmd>,
    },
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Cmd {
    pub start: Option<i32>,
    pub k: CmdK,
}

impl Cmd {
    pub fn children(&self) -> Option<&Vec<Cmd>> {
        match &self.k {
            CmdK::Loop { cmds, .. } | CmdK::Trigger { cmds, .. } => Some(cmds),
            _ => None,
        }
    }
    pub fn children_mut(&mut self) -> Option<&mut Vec<Cmd>> {
        match &mut self.k {
            CmdK::Loop { cmds, .. } | CmdK::Trigger { cmds, .. } => Some(cmds),
            _ => None,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum EvK {
    Comment(String),
    Background {
        start: i32,
        file: String,
        pos: Option<(D, D)>,
    },
    Video {
        long: bool,
        start: i32,
        file: String,
        pos: Option<(D, D)>,
    },
    Break {
        long: bool,
        start: i32,
        end: i32,
    },
    ColourTrans {
        start: i32,
        rgb: [u8; 3],
    },
    SpriteLegacy {
        layer: u8,
        origin: u8,
        file: String,
        pos: Option<(D, D)>,
    },
    AnimationLegacy {
        layer: u8,
        origin: u8,
        file: String,
        pos: Option<(D, D)>,
    },
    SampleLegacy {
        time: D,
        layer: u8,
        file: String,
        vol: Option<u8>,
    },
    Sprite {
        layer: u8,
        origin: i32,
        named: bool,
        file: String,
        pos: (D, D),
    },
    Animation {
        layer: u8,
        origin: i32,
        named: bool,
        file: String,
        pos: (D, D),
        frames: u32,
        delay: D,
        once: bool,
        /// spelling: the loop type (`LoopForever`) is left out
        omit_loop: bool,
    },
    Audio {
        time: i32,
        layer: u8,
        file: String,
        vol: u8,
        /// spelling: the volume (100) is left out
        omit_vol: bool,
    },
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ev {
    pub k: EvK,
    pub cmds: Vec<Cmd>,
}

impl EvK {
    pub fn takes_cmds(&self) -> bool {
        !matches!(
            self,
            EvK::Comment(_) | EvK::Break { .. } | EvK::ColourTrans { .. } | EvK::Audio { .. }
        )
    }
    pub fn file_mut(&mut self) -> Option<&mut String> {
        match self {
            EvK::Background { file, .. }
            | EvK::Video { file, .. }
            | EvK::SpriteLegacy { file, .. }
            | EvK::AnimationLegacy { file, .. }
            | EvK::SampleLegacy { file, .. }
            | EvK::Sprite { file, .. }
            | EvK::Animation { file, .. }
            | EvK::Audio { file, .. } => Some(file),
            _ => None,
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            EvK::Comment(_) => "comment",
            EvK::Background { .. } => "background",
            EvK::Video { .. } => "video",
            EvK::Break { .. } => "break",
            EvK::ColourTrans { .. } => "colour transformation",
            EvK::SpriteLegacy { .. } => "legacy sprite",
            EvK::AnimationLegacy { .. } => "legacy animation",
            EvK::SampleLegacy { .. } => "legacy sample",
            EvK::Sprite { .. } => "sprite",
            EvK::Animation { .. } => "animation",
            EvK::Audio { .. } => "audio sample",
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Doc {
    pub v: u8,
    pub kv: [Option<Vec<Kv>>; 4],
    pub events: Option<Vec<Ev>>,
    pub tps: Option<Vec<Tp>>,
    pub colours: Option<Vec<Col>>,
    pub hos: Option<Vec<Ho>>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct OsbDoc {
    pub vars: Option<Vec<(String, String)>>,
    pub events: Option<Vec<Ev>>,
}

impl Doc {
    pub fn empty(v: u8) -> Doc {
        Doc {
            v,
            kv: [None, None, None, None],
            events: None,
            tps: None,
            colours: None,
            hos: None,
        }
    }
    pub fn items(&self) -> usize {
        self.kv.iter().flatten().map(Vec::len).sum::<usize>()
            + self
                .events
                .iter()
                .flatten()
                .map(|e| 1 + count_cmds(&e.cmds))
                .sum::<usize>()
            + self.tps.as_ref().map_or(0, Vec::len)
            + self.colours.as_ref().map_or(0, Vec::len)
            + self.hos.as_ref().map_or(0, Vec::len)
    }
}

pub fn count_cmds(c: &[Cmd]) -> usize {
    c.iter()
        .map(|c| 1 + c.children().map_or(0, |c| count_cmds(c)))
        .sum()
}

/// Does a reader of version `v` take this key (with this value)?
pub fn kv_reads(section: usize, key: &str, val: &V, v: u8) -> bool {
    if section != 0 {
        return true;
    }
    match key {
        "Countdown" => v >= 5,
        "SampleSet" => v >= 4,
        "OverlayPosition" => v >= 14,
        "Mode" => match val {
            V::Code(0) => true,
            V::Code(1) => v >= 5,
            V::Code(2) => v >= 7,
            _ => v >= 10,
        },
        _ => true,
    }
}

/// Does a writer of version `v` write this key?
pub fn kv_writes(section: usize, key: &str, v: u8) -> bool {
    match (section, key) {
        (0, "Countdown") => v >= 5,
        (0, "SampleSet") => v >= 4,
        (0, "OverlayPosition") => v >= 14,
        (0, "AudioHash") => v <= 13,
        (0, "EditorBookmarks" | "EditorDistanceSpacing") => v <= 5,
        (1, "CurrentTime") => v == 10,
        _ => true,
    }
}

/// A file name as it's written: quoted if it has spaces.
pub fn quoted(file: &str) -> String {
    if file.contains(' ') && !(file.starts_with('"') && file.ends_with('"')) {
        format!("\"{file}\"")
    } else {
        file.to_string()
    }
}

/// Drops what a reader of `v` ignores in the text of `doc`.
pub fn project_read(doc: &Doc, v: u8) -> Doc {
    let mut d = doc.clone();
    d.v = v;
    for (i, s) in d.kv.iter_mut().enumerate() {
        if let Some(s) = s {
            s.retain(|kv| kv_reads(i, kv.key, &kv.val, v));
        }
    }
    if v <= 4 {
        d.colours = None;
    }
    d
}

/// What remains of `doc` when it's written as version `w` and read back as version `w`, as the
/// writer spells it.
pub fn after_write(doc: &Doc, w: u8) -> Doc {
    let mut d = doc.clone();
    d.v = w;
    for (i, s) in d.kv.iter_mut().enumerate() {
        if let Some(s) = s {
            s.retain(|kv| kv_writes(i, kv.key, w));
            let schema = KV_SCHEMAS[i];
            s.sort_by_key(|kv| schema.iter().position(|(k, _)| *k == kv.key));
        }
    }
    if w <= 4 {
        d.colours = None;
    }
    for c in d.colours.iter_mut().flatten() {
        c.lower = false;
    }
    if let Some(ev) = &mut d.events {
        *ev = events_after_write(ev, w);
    }
    for t in d.tps.iter_mut().flatten() {
        t.explicit_vol = false;
        if w == 3 {
            t.meter = 4;
            t.set = 1;
            t.index = 1;
            t.volume = 100;
        }
        if w <= 4 {
            t.uninh = None;
            t.effects = None;
        }
        if w >= 5 && t.uninh.is_none() && t.effects.is_some() {
            t.uninh = Some(true);
        }
        if w >= 6 && t.uninh.is_some() && t.effects.is_none() {
            t.effects = Some(0);
        }
    }
    for h in d.hos.iter_mut().flatten() {
        h.type_extra = 0;
        h.sound_extra = 0;
        h.trail = false;
        let had_sample = h.sample.is_some();
        if w <= 9 {
            h.sample = None;
        }
        if let Some(s) = &mut h.sample {
            s.fields = 5;
            if w <= 11 {
                s.volume = None;
                s.file = String::new();
                s.fields = 3;
            }
        }
        match &mut h.k {
            HoK::Circle if w == 3 => h.trail = true,
            HoK::Slider { level, first, .. } => {
                *first = None;
                if had_sample {
                    *level = if w <= 9 { 2 } else { 3 };
                }
            }
            _ => (),
        }
    }
    d
}

pub fn events_after_write(ev: &[Ev], w: u8) -> Vec<Ev> {
    let mut ev = ev.to_vec();
    if w >= 14 {
        ev.retain(|e| !matches!(e.k, EvK::ColourTrans { .. }));
    }
    for e in &mut ev {
        if let Some(f) = e.k.file_mut() {
            *f = quoted(f);
        }
        match &mut e.k {
            EvK::Animation { omit_loop, .. } => *omit_loop = false,
            EvK::Audio { omit_vol, .. } => *omit_vol = false,
            _ => (),
        }
    }
    ev
}

/// Clears the spelling choices, leaving what can be observed through the library's values.
pub fn norm(doc: &Doc) -> Doc {
    let mut d = doc.clone();
    for (i, s) in d.kv.iter_mut().enumerate() {
        if let Some(s) = s {
            let schema = KV_SCHEMAS[i];
            s.sort_by_key(|kv| schema.iter().position(|(k, _)| *k == kv.key));
        }
    }
    for c in d.colours.iter_mut().flatten() {
        c.lower = false;
    }
    if let Some(ev) = &mut d.events {
        norm_events(ev);
    }
    for t in d.tps.iter_mut().flatten() {
        t.explicit_vol = false;
        if t.uninh.is_none() {
            t.uninh = Some(true);
        }
    }
    for h in d.hos.iter_mut().flatten() {
        h.type_extra = 0;
        h.sound_extra = 0;
        if h.sound == 0 {
            h.sound = 1;
        }
        if h.sample.is_none() && (matches!(h.k, HoK::Hold { .. }) || h.trail) {
            h.sample = Some(Hs::default());
        }
        h.trail = false;
        if let Some(s) = &mut h.sample {
            s.fields = 5;
        }
        if let HoK::Slider { level, first, .. } = &mut h.k {
            *level = 0;
            *first = None;
        }
    }
    d
}

pub fn norm_events(ev: &mut [Ev]) {
    for e in ev {
        match &mut e.k {
            EvK::Video { long, .. } | EvK::Break { long, .. } => *long = false,
            EvK::Animation { omit_loop, .. } => *omit_loop = false,
            EvK::Audio { omit_vol, .. } => *omit_vol = false,
            _ => (),
        }
    }
}

/// First difference of two values by their pretty debug text.
pub fn diff<T: std::fmt::Debug>(expected: &T, got: &T) -> String {
    let a = format!("{expected:#?}");
    let b = format!("{got:#?}");
    let (a, b): (Vec<_>, Vec<_>) = (a.lines().collect(), b.lines().collect());
    let n = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let from = n.saturating_sub(6);
    let show = |v: &[&str]| {
        v.iter()
            .skip(from)
            .take(14)
            .map(|l| l.trim())
            .collect::<Vec<_>>()
            .join(" ")
    };
    format!("expected … {} …; got … {} …", show(&a), show(&b))
}
