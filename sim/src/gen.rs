//! Random programs.
use crate::core::Rng;
use crate::exec::{ICONS, SER_FIELDS};
use crate::spec::*;

/// Categories of operations and their weights.
#[derive(Clone, Copy, Debug, Default)]
pub struct W {
    pub cell: u32,
    pub fmt: u32,
    pub rowcol: u32,
    pub merge: u32,
    pub link: u32,
    pub image: u32,
    pub embed: u32,
    pub hdrimg: u32,
    pub chart: u32,
    pub note: u32,
    pub shape: u32,
    pub button: u32,
    pub table: u32,
    pub cf: u32,
    pub dv: u32,
    pub filter: u32,
    pub spark: u32,
    pub protect: u32,
    pub view: u32,
    pub print: u32,
    pub state: u32,
    pub names: u32,
    pub props: u32,
    pub reorder: u32,
    pub ser: u32,
    pub bad: u32,
    pub save: u32,
    pub addsheet: u32,
    pub autofit: u32,
    pub jump: u32,
    pub vba: u32,
}
#[derive(Clone, Debug)]
pub struct Prof {
    pub ops: (u64, u64),
    pub sheets: (u64, u64),
    /// Std, Low, Const, Chart
    pub kinds: [u32; 4],
    pub fmts: (u64, u64),
    pub w: W,
    /// Large strings, far rows and columns.
    pub extremes: bool,
    /// Read some images through the file system.
    pub files: bool,
    /// Conditions of autofilters (rows are hidden when saving).
    pub conditions: bool,
    /// Only operations that mean the same in all memory modes.
    pub modal: bool,
    /// The final operation is a save.
    pub end: bool,
    /// Some saves happen while the workbook is not valid.
    pub invalid: bool,
}
impl Prof {
    pub fn all() -> Prof {
        Prof {
            ops: (10, 60),
            sheets: (1, 5),
            kinds: [6, 2, 2, 1],
            fmts: (3, 10),
            w: W {
                cell: 30, fmt: 5, rowcol: 8, merge: 3, link: 4, image: 4, embed: 3, hdrimg: 1, chart: 4, note: 4, shape: 2, button: 2, table: 3, cf: 4, dv: 3,
                filter: 2, spark: 2, protect: 2, view: 2, print: 2, state: 2, names: 2, props: 1, reorder: 1, ser: 2, bad: 0, save: 0, addsheet: 1, autofit: 0,
                jump: 0, vba: 1,
            },
            extremes: false,
            files: true,
            conditions: true,
            modal: false,
            end: true,
            invalid: false,
        }
    }
    pub fn cells() -> Prof {
        let mut p = Prof::all();
        p.w = W { cell: 40, fmt: 6, rowcol: 5, merge: 4, link: 5, embed: 1, save: 2, table: 2, addsheet: 1, ..W::default() };
        p.extremes = true;
        p
    }
}

pub struct Sh {
    pub kind: Kind,
    /// First row that can still be written.
    pub cur: u32,
    pub blocks: Vec<Rng4>,
    pub tables: Vec<Rng4>,
    pub filter: Option<Rng4>,
    pub sers: Vec<(u8, Rng4)>,
    pub no_write: Vec<Rng4>,
    pub header: bool,
    pub footer: bool,
    pub links: Vec<(u32, u16)>,
    pub notes: Vec<(u32, u16)>,
    pub data: Vec<(u32, u16)>,
    pub charts: u32,
    pub formatted: Vec<(u32, u16)>,
    pub levels_r: std::collections::BTreeMap<u32, u8>,
    pub levels_c: std::collections::BTreeMap<u16, u8>,
    pub first_data: bool,
    pub name: String,
    /// Something refers to the sheet by name.
    pub refd: bool,
    /// No more serialized records after a save in constant memory mode.
    pub sealed: bool,
}
impl Sh {
    fn ws(&self) -> bool {
        self.kind != Kind::Chart
    }
    fn seq(&self) -> bool {
        matches!(self.kind, Kind::Low | Kind::Const)
    }
}

pub struct Gen {
    pub r: Rng,
    pub p: Prof,
    pub prog: Program,
    pub sh: Vec<Sh>,
    pub names: u32,
    pub vba: bool,
    pub tables: u32,
    pub saved: bool,
    props: u32,
    n_ws: u32,
    n_cs: u32,
}

const WORDS: &[&str] = &[
    "alpha", "Beta", "gamma delta", "x", "Total", "0", "12", "TRUE", "a<b & \"c\" > 'd'", " lead", "trail ", "tab\there", "line\nbreak", "\n", " ", "_x0041_", "_x000D_ x",
    "ctl\u{1}\u{1f}", "\r", "ünïcödé", "日本語", "😀", "\u{FFFE}", "=1+2", "#N/A", "']]>", "q'uote", "repeat", "repeat", "repeat", "1e5", "inf", "", "_", "_x", "_x00", "&amp;", "&lt;r&gt;",
    "<r>rich?</r>", "<r><t>x</t></r>", "_x005F_x0041_", "_x0041", "a_x000A_b\n", "\u{200B}", " nbsp", "\u{7f}", "NAN", "%20",
];
const NAMES: &[&str] = &["Data", "My Sheet", "A1", "O'Brien", "R1C1", "über", "2020", "Sales-Q1", "a.b", "RC", "Sheet 9", "XFD1", "c", "日本"];
const FORMULAS: &[&str] = &[
    "=A1+1", "=SUM(A1:B3)", "A2*2", "=\"a&b<c>\"", "=IF(A1>1,\"<\",\">\")", "=CONCAT(\"x\",A1)", "=STDEV.S(B1:B5)", "{=SUM(A1:A3)}", "=IFS(A1=1,2)", "=1&\"'\"",
    "={1,2}", "=My_IFS(A1)", "='IFS(x)'!A1", "=UNIQUE(A1:A5)", "=_xlfn.CONCAT(A1,\"b\")", "=LEN(\"CONCAT(\")", "=SUM({1,2;3,4})", "=_xlfn.UNIQUE(A1:A3)", "=A.IFS(2)", "=SORT(A1:A3,1)",
    "=IF(A1=\"\",\"\",TEXTJOIN(\",\",TRUE,A1:A3))", "=A1&\"\u{1}\"",
];
const RESULTS: &[&str] = &["0", "12.5", "text", "TRUE", "FALSE", "#N/A", "#DIV/0!", "a&b", "-3", "1e3"];
pub const LINKS: &[&str] = &[
    "https://www.rust-lang.org/", "http://example.com/a?b=1&c=2", "https://example.com/x#frag", "mailto:a@example.com", "internal:Sheet1!A1", "internal:'My Sheet'!B2:C3",
    "file:///C:\\Temp\\a.xlsx", "file://server/share/b.xlsx", "https://example.com/with space", "https://example.com/%41", "ftp://ftp.example.com/f", "https://example.com/1",
    "https://example.com/2", "https://example.com/3",
];

/// A sheet name as it is written in a formula.
pub fn quoted(n: &str) -> String {
    let simple = n.starts_with("Sheet") && n.chars().all(|c| c.is_ascii_alphanumeric()) || n.starts_with("Chart") && n.chars().all(|c| c.is_ascii_alphanumeric());
    if simple {
        n.to_string()
    } else {
        format!("'{}'", n.replace('\'', "''"))
    }
}

impl Gen {
    pub fn new(seed: u64, p: Prof) -> Gen {
        Gen { r: Rng::new(seed), p, prog: Program::default(), sh: vec![], names: 0, vba: false, tables: 0, saved: false, props: 0, n_ws: 0, n_cs: 0 }
    }
    fn word(&mut self) -> String {
        if self.p.extremes && self.r.chance(1, 150) {
            let n = *self.r.pick(&[32767usize, 32766, 5000, 255, 256]);
            let c = *self.r.pick(&["x", "é", "<", "ab "]);
            return c.chars().cycle().take(n).collect();
        }
        if self.r.chance(1, 2) {
            self.r.pick(WORDS).to_string()
        } else {
            let n = self.r.below(40);
            let w = *self.r.pick(WORDS);
            format!("s{n}{w}")
        }
    }
    fn plain(&mut self) -> String {
        let n = self.r.below(1000);
        let w = *self.r.pick(&["Alpha", "Beta & co", "Gamma <g>", "Delta \"d\"", "Epsilon 'e'", "Zeta"]);
        format!("{w} {n}")
    }
    fn num(&mut self) -> f64 {
        match self.r.below(12) {
            0..=5 => self.r.below(1000) as f64,
            6 => -(self.r.below(1000) as f64) / 7.0,
            7 => self.r.f01(),
            8 => *self.r.pick(&[0.1, 1e300, 5e-324, 1.7976931348623157e308, -0.0, 123456789012345680.0, 0.30000000000000004, 1e-7, 1e21, 4503599627370497.5]),
            9 => *self.r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
            10 => f64::from_bits(self.r.next()),
            _ => self.r.below(1 << 40) as f64 / 256.0,
        }
    }
    pub fn val(&mut self) -> Val {
        match self.r.below(20) {
            0..=5 => Val::n(self.num()),
            6..=11 => Val::Str(self.word()),
            12 | 13 => Val::Bool(self.r.chance(1, 2)),
            14 | 15 => {
                let f = self.r.pick(FORMULAS).to_string();
                let res = if self.r.chance(2, 3) { Some(self.r.pick(RESULTS).to_string()) } else { None };
                Val::Formula(f, res)
            }
            16 => Val::Date(1980 + self.r.below(100) as u16, 1 + self.r.below(12) as u8, 1 + self.r.below(28) as u8, self.r.below(24) as u8, self.r.below(60) as u8, self.r.below(60) as u8),
            17 | 18 => {
                let n = 1 + self.r.below(3);
                let mut v = vec![];
                for _ in 0..n {
                    let mut s = self.word();
                    if s.is_empty() || s.len() > 300 {
                        s = "seg".into();
                    }
                    let f = if self.r.chance(1, 2) { Some(self.f()) } else { None };
                    v.push((f, s));
                }
                Val::Rich(v)
            }
            _ => Val::Blank,
        }
    }
    fn f(&mut self) -> usize {
        self.r.below(self.prog.fmts.len() as u64) as usize
    }
    fn of(&mut self) -> Option<usize> {
        if self.r.chance(2, 5) {
            Some(self.f())
        } else {
            None
        }
    }
    fn color(&mut self) -> Col {
        if self.r.chance(1, 4) {
            Col::Theme(self.r.below(10) as u8, self.r.below(6) as u8)
        } else {
            Col::Rgb(*self.r.pick(&[0xFF0000, 0x00FF00, 0x0000FF, 0x123456, 0, 0xFFFFFF, 0x00B050, 0xABCDEF]))
        }
    }
    pub fn fmt(&mut self) -> Fmt {
        let mut f = Fmt::default();
        let n = 1 + self.r.below(4);
        for _ in 0..n {
            match self.r.below(22) {
                0 => f.bold = true,
                1 => f.italic = true,
                2 => f.strike = true,
                3 => f.underline = 1 + self.r.below(4) as u8,
                4 => f.script = 1 + self.r.below(2) as u8,
                5 => f.color = Some(self.color()),
                6 => f.name = Some(self.r.pick(&["Arial", "Courier New", "A & B"]).to_string()),
                7 => f.size2 = Some(*self.r.pick(&[16, 24, 21, 40])),
                8 | 9 => {
                    f.num = Some(self.r.pick(&["0.00", "#,##0", "yyyy-mm-dd", "0.000%", "[Red]0;\"a<b\"", "General", "hh:mm", "@", "0.0000", "d mmm", "$#,##0"]).to_string());
                    f.num_idx = None;
                }
                10 => {
                    f.num_idx = Some(*self.r.pick(&[1, 2, 3, 9, 10, 14, 22, 37, 44, 49]));
                    f.num = None;
                }
                11 => f.halign = 1 + self.r.below(7) as u8,
                12 => f.valign = 1 + self.r.below(5) as u8,
                13 => {
                    if f.halign == 0 || f.halign == 1 || f.halign == 3 {
                        f.indent = 1 + self.r.below(4) as u8
                    }
                }
                14 => f.rot = Some(*self.r.pick(&[45, -45, 90, -90, 270, 1])),
                15 => f.wrap = true,
                16 => {
                    f.bg = Some(self.color());
                    if self.r.chance(1, 6) {
                        f.fg = Some(self.color());
                    }
                    if self.r.chance(1, 3) {
                        f.pattern = 2 + self.r.below(17) as u8;
                        f.fg = Some(self.color());
                    }
                }
                17 => {
                    f.pattern = 1 + self.r.below(18) as u8;
                    if f.pattern == 1 {
                        f.fg = Some(self.color());
                        if self.r.chance(1, 2) {
                            f.bg = Some(self.color());
                        }
                    }
                }
                18 => {
                    let s = self.r.below(5) as usize;
                    f.border[s].0 = 1 + self.r.below(13) as u8;
                    if self.r.chance(1, 2) {
                        f.border[s].1 = Some(self.color());
                    }
                    if s == 4 {
                        f.diag = 1 + self.r.below(3) as u8;
                    }
                }
                19 => {
                    let c = if self.r.chance(1, 2) { Some(self.color()) } else { None };
                    for s in 0..4 {
                        f.border[s] = (1, c);
                    }
                }
                20 => match self.r.below(5) {
                    0 => f.unlocked = true,
                    1 => f.hidden = true,
                    2 => f.quote = true,
                    3 => f.checkbox = true,
                    _ => f.hyperlink = true,
                },
                _ => match self.r.below(4) {
                    0 => f.reading = 1 + self.r.below(2) as u8,
                    1 => f.family = Some(self.r.below(4) as u8),
                    2 => f.charset = Some(*self.r.pick(&[128, 161, 204])),
                    _ => f.shrink = !f.wrap,
                },
            }
        }
        if f.wrap || matches!(f.halign, 4 | 5 | 7) || f.valign >= 4 {
            f.shrink = false;
        }
        if f.indent > 0 && !matches!(f.halign, 0 | 1 | 3) {
            f.indent = 0;
        }
        if f.hyperlink {
            f.color = None;
            f.underline = 0;
            f.name = None;
        }
        f
    }
    /// A free cell on a sheet.
    fn cell(&mut self, h: usize) -> (u32, u16) {
        for _ in 0..20 {
            let (r, c) = self.cell_any(h);
            if !self.sh[h].no_write.iter().any(|b| b.has(r, c)) {
                return (r, c);
            }
        }
        (self.sh[h].cur.max(200) + self.r.below(20) as u32, self.r.below(12) as u16)
    }
    fn row(&mut self, h: usize) -> u32 {
        let s = &self.sh[h];
        if s.seq() {
            s.cur + *self.r.pick(&[0u32, 0, 0, 0, 0, 0, 0, 1, 1, 1, 2, 4])
        } else {
            self.r.below(24) as u32
        }
    }
    fn cell_any(&mut self, h: usize) -> (u32, u16) {
        let mut r = self.row(h);
        let mut c = self.r.below(9) as u16;
        if self.p.extremes && self.r.chance(1, 80) {
            if !self.sh[h].seq() {
                r = *self.r.pick(&[100u32, 255, 300, 1023, 5000]);
            }
            c = *self.r.pick(&[25u16, 26, 27, 255, 701, 702, 16383]);
        } else if !self.sh[h].seq() && !self.sh[h].data.is_empty() && self.r.chance(1, 4) {
            return *self.r.pick(&self.sh[h].data.clone());
        }
        (r, c)
    }
    fn wrote(&mut self, h: usize, r: u32, c: u16) {
        let s = &mut self.sh[h];
        if s.seq() {
            s.cur = s.cur.max(r);
        }
        s.first_data = true;
        if s.data.len() < 40 {
            s.data.push((r, c));
        }
    }
    /// Any position, for objects that are not cell data.
    fn pos(&mut self) -> (u32, u16) {
        (self.r.below(24) as u32, self.r.below(9) as u16)
    }
    fn offset(&mut self) -> (u32, u32) {
        match self.r.below(8) {
            0 => (3, 4),
            1 => (self.r.below(200) as u32, self.r.below(80) as u32),
            _ => (0, 0),
        }
    }
    fn rect(&mut self, maxh: u64, maxw: u64) -> Rng4 {
        let (r, c) = self.pos();
        let r2 = r + self.r.below(maxh) as u32;
        let c2 = c + self.r.below(maxw) as u16;
        Rng4::new(r, c, r2, c2)
    }
    /// A rectangle that overlaps no merged range, table or serialized area.
    fn block(&mut self, h: usize, hgt: (u64, u64), wid: (u64, u64)) -> Option<Rng4> {
        for _ in 0..12 {
            let r = if self.sh[h].seq() { self.row(h) + 1 } else { self.r.below(30) as u32 };
            let c = self.r.below(10) as u16;
            let g = Rng4::new(r, c, r + self.r.range(hgt.0, hgt.1) as u32 - 1, c + self.r.range(wid.0, wid.1) as u16 - 1);
            let s = &self.sh[h];
            if s.blocks.iter().any(|b| b.hits(&g)) || s.filter.as_ref().is_some_and(|b| b.hits(&g)) || s.no_write.iter().any(|b| b.hits(&g)) {
                continue;
            }
            return Some(g);
        }
        None
    }
    fn img(&mut self) -> Img {
        let id = self.r.below(6) as u32;
        let url = if self.r.chance(1, 4) { Some(self.weblink()) } else { None };
        let tip = if url.is_some() && self.r.chance(1, 3) { Some(self.plain()) } else { None };
        Img {
            id,
            ty: (id % 4) as u8,
            w: 20 + 13 * id as u16,
            h: 15 + 9 * id as u16,
            alt: if self.r.chance(1, 3) { Some(self.plain()) } else { None },
            decorative: self.r.chance(1, 10),
            url,
            tip,
            from_file: self.p.files && self.r.chance(1, 3),
            mov: if self.r.chance(1, 3) { 1 + self.r.below(4) as u8 } else { 0 },
            scale: if self.r.chance(1, 5) { *self.r.pick(&[50, 200, 150]) } else { 0 },
        }
    }
    fn weblink(&mut self) -> String {
        let k = self.r.below(5);
        match self.r.below(4) {
            0 => self.r.pick(LINKS).to_string(),
            1 => {
                let f = *self.r.pick(&["top", "end", "a b"]);
                let u = *self.r.pick(&["https://example.com/o1", "file:///docs\\a.xlsx", "file:///C:\\Temp\\a b.xlsx", "file:///../x.xlsx"]);
                format!("{u}#{f}")
            }
            _ => format!("https://example.com/o{k}"),
        }
    }
    fn ws_handles(&self) -> Vec<usize> {
        (0..self.sh.len()).filter(|h| self.sh[*h].ws()).collect()
    }
    fn rf(&mut self, tall: bool) -> Ref {
        let hs = self.ws_handles();
        let h = *self.r.pick(&hs);
        self.sh[h].refd = true;
        let (r, c) = self.pos();
        let n = 1 + self.r.below(6) as u32;
        let g = if tall { Rng4::new(r, c, r + n - 1, c) } else { Rng4::new(r, c, r, c + n as u16 - 1) };
        Ref { h, g }
    }
    fn rf1(&mut self) -> Ref {
        let mut r = self.rf(true);
        r.g.r2 = r.g.r1;
        r
    }
    pub fn chart(&mut self, nest: bool) -> ChartSpec {
        let ty = if nest { *self.r.pick(&[0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 15, 17, 18, 19, 20, 21]) } else { *self.r.pick(&[1, 4]) };
        let n = 1 + self.r.below(3);
        let axes = !matches!(ty, 3 | 7);
        let mut series = vec![];
        for i in 0..n {
            let tall = self.r.chance(4, 5);
            let vals = self.rf(tall);
            let cats = if matches!(ty, 5 | 6 | 19 | 20 | 21) || self.r.chance(1, 2) { Some(self.rf(tall)) } else { None };
            let (mut name, mut name_ref) = (None, None);
            match self.r.below(3) {
                0 => name = Some(self.plain()),
                1 => name_ref = Some(self.rf1()),
                _ => {}
            }
            series.push(Series {
                vals,
                cats,
                name,
                name_ref,
                second: nest && axes && i > 0 && matches!(ty, 0 | 1 | 4) && self.r.chance(1, 3),
                color: if self.r.chance(1, 4) { Some(0x112233) } else { None },
                label_refs: if self.r.chance(1, 8) { vec![self.rf1(), self.rf1()] } else { vec![] },
                err_ref: if axes && matches!(ty, 0 | 1) && self.r.chance(1, 8) { Some((self.rf(true), self.rf(true))) } else { None },
                trend: if matches!(ty, 0 | 1) && self.r.chance(1, 8) { 1 + self.r.below(3) as u8 } else { 0 },
            });
        }
        let mut axis: [Option<String>; 4] = Default::default();
        let mut axis_ref: [Option<Ref>; 4] = Default::default();
        if axes {
            for i in 0..2 {
                match self.r.below(5) {
                    0 => axis[i] = Some(self.plain()),
                    1 => axis_ref[i] = Some(self.rf1()),
                    _ => {}
                }
            }
            if series.iter().any(|s| s.second) && self.r.chance(1, 2) {
                match self.r.below(2) {
                    0 => axis[3] = Some(self.plain()),
                    _ => axis_ref[3] = Some(self.rf1()),
                }
            }
        }
        let (mut title, mut title_ref) = (None, None);
        match self.r.below(4) {
            0 => title = Some(self.plain()),
            1 => title_ref = Some(self.rf1()),
            _ => {}
        }
        ChartSpec {
            ty,
            series,
            title,
            title_ref,
            axis,
            axis_ref,
            alt: if self.r.chance(1, 4) { Some(self.plain()) } else { None },
            name: if self.r.chance(1, 4) { Some(self.plain()) } else { None },
            style: if self.r.chance(1, 4) { 1 + self.r.below(48) as u8 } else { 0 },
            w: if self.r.chance(1, 4) { 300 } else { 0 },
            h: if self.r.chance(1, 4) { 200 } else { 0 },
            combine: if nest && matches!(ty, 0) && self.r.chance(1, 4) { Some(Box::new(self.chart(false))) } else { None },
            mov: if self.r.chance(1, 4) { 1 + self.r.below(4) as u8 } else { 0 },
            legend: self.r.below(3) as u8,
        }
    }
    pub fn cf(&mut self, g: &Rng4) -> CfSpec {
        let f = if self.r.chance(3, 4) { Some(self.f()) } else { None };
        let mut with_f = true;
        let c = |r: &mut Rng| r.below(0xFFFFFF) as u32;
        let oi = |r: &mut Rng| if r.chance(1, 2) { Some(r.below(50) as i32) } else { None };
        let cf = match self.r.below(14) {
            0 | 1 => Cf::Cell { rule: self.r.below(8) as u8, a: self.r.below(50) as i32, b: 50 + self.r.below(50) as i32 },
            2 => Cf::CellText { rule: self.r.below(6) as u8, a: self.plain() },
            3 => Cf::Blank { invert: self.r.chance(1, 2) },
            4 => Cf::Error { invert: self.r.chance(1, 2) },
            5 => Cf::Dup { invert: self.r.chance(1, 2) },
            6 => Cf::Formula { f: self.r.pick(&["=ISODD(A1)", "=$A$1>5", "=A1<\"x\""]).to_string() },
            7 => Cf::Average { rule: self.r.below(10) as u8 },
            8 => Cf::Top { rule: self.r.below(4) as u8, n: 1 + self.r.below(90) as u16 },
            9 => Cf::Text { rule: self.r.below(4) as u8, s: self.r.pick(&["abc", "x&y", "a b", "naïve", "日本", "say \"hi\""]).to_string() },
            10 => Cf::Date { rule: self.r.below(10) as u8 },
            11 => {
                with_f = false;
                if self.r.chance(1, 2) {
                    Cf::Two { min: oi(&mut self.r), max: oi(&mut self.r), c1: c(&mut self.r), c2: c(&mut self.r) }
                } else {
                    Cf::Three { min: oi(&mut self.r), mid: oi(&mut self.r), max: oi(&mut self.r), c1: c(&mut self.r), c2: c(&mut self.r), c3: c(&mut self.r) }
                }
            }
            12 => {
                with_f = false;
                Cf::Bar {
                    color: c(&mut self.r),
                    classic: self.r.chance(1, 3),
                    solid: self.r.chance(1, 3),
                    only: self.r.chance(1, 3),
                    dir: self.r.below(3) as u8,
                    min: oi(&mut self.r),
                    max: oi(&mut self.r),
                    opt: (self.r.next() & self.r.next() & 0x7F) as u8,
                }
            }
            _ => {
                with_f = false;
                let ty = self.r.below(ICONS.len() as u64) as u8;
                let custom = if self.r.chance(1, 2) { *self.r.pick(&[1, 2, 5, 6]) } else { 0 };
                Cf::Icons { ty, rev: custom & 1 == 0 && self.r.chance(1, 3), only: self.r.chance(1, 3), custom }
            }
        };
        let multi = if self.r.chance(1, 6) { Some(format!("{} {}", g.a1(), a1_range(60, 2, 63, 3))) } else { None };
        CfSpec { cf, f: if with_f { f } else { None }, stop: self.r.chance(1, 6), multi }
    }
    pub fn dv(&mut self, g: &Rng4) -> DvSpec {
        let ru = self.r.below(8) as u8;
        let (a, b) = (self.r.below(50) as i32, 50 + self.r.below(50) as i32);
        let rule = match self.r.below(10) {
            0 | 1 => DvRule::Whole(ru, a, b),
            2 => DvRule::WholeF(ru, "=$A$1".into(), "=$A$2+1".into()),
            3 => DvRule::Decimal(ru, a, b),
            4 | 5 => {
                let n = 1 + self.r.below(4);
                DvRule::List((0..n).map(|i| if self.r.chance(1, 8) { format!("<é{i}> & \"q\"") } else { format!("item{i} {}", self.r.below(9)) }).collect())
            }
            6 => DvRule::ListF("=$E$4:$G$4".into()),
            7 => DvRule::Date(ru, (2020, 1, 1 + a as u8 % 28), (2024, 12, 5)),
            8 => {
                if self.r.chance(1, 2) {
                    DvRule::Len(ru, a as u32, b as u32)
                } else {
                    DvRule::Custom("=AND(F5=50,G5=60)".into())
                }
            }
            _ => DvRule::Any,
        };
        let mut o = |n: usize| if self.r.chance(1, 3) { Some(self.plain().chars().take(n).collect::<String>()) } else { None };
        let mut in_title = o(30);
        let in_msg = o(200);
        let err_title = o(30);
        let err_msg = o(200);
        if matches!(rule, DvRule::Any) && in_title.is_none() && in_msg.is_none() {
            in_title = Some("Title".into());
        }
        DvSpec {
            rule,
            in_title,
            in_msg,
            err_title,
            err_msg,
            style: self.r.below(3) as u8,
            no_blank: self.r.chance(1, 5),
            no_drop: self.r.chance(1, 5),
            no_in: self.r.chance(1, 8),
            no_err: self.r.chance(1, 8),
            multi: if self.r.chance(1, 6) { Some(format!("{} {}", g.a1(), a1_range(70, 2, 71, 3))) } else { None },
        }
    }
    fn spark(&mut self, data: Ref) -> SparkSpec {
        SparkSpec {
            data,
            ty: self.r.below(3) as u8,
            flags: (self.r.next() & self.r.next() & 0xFFF) as u16,
            style: if self.r.chance(1, 3) { 1 + self.r.below(36) as u8 } else { 0 },
            color: if self.r.chance(1, 3) { Some(0x445566) } else { None },
            weight4: if self.r.chance(1, 4) { 6 } else { 0 },
            max: if self.r.chance(1, 5) { Some(10) } else { None },
            min: if self.r.chance(1, 5) { Some(-10) } else { None },
            empty: self.r.below(3) as u8,
            dates: if self.r.chance(1, 8) { Some(self.rf(true)) } else { None },
        }
    }
    fn table(&mut self, h: usize, force_cols: bool) -> Option<SOp> {
        let total = self.r.chance(1, 3);
        let no_header = self.r.chance(1, 8);
        let hh = if total { 3 } else { 2 };
        let g = self.block(h, (hh + no_header as u64, hh + 3), (1, 4))?;
        let seq = self.sh[h].seq();
        self.tables += 1;
        let w = (g.c2 - g.c1 + 1) as usize;
        let ncols = if force_cols || seq || self.r.chance(3, 4) { w } else { self.r.below(w as u64 + 1) as usize };
        let tn = self.tables;
        let mut cols = vec![];
        for i in 0..ncols {
            let header = if (seq && !no_header) || self.r.chance(3, 4) { Some(format!("{} {tn} {i}", *self.r.pick(&["Col", "H & x", "Näme"]))) } else { None };
            let mut c = TCol { header, ..TCol::default() };
            if self.r.chance(1, 4) {
                c.formula = Some(self.r.pick(&["SUM(10, 20)", "=A1+1", "ROW()"]).to_string());
            }
            if total {
                match self.r.below(3) {
                    0 => c.func = 1 + self.r.below(9) as u8,
                    1 => c.label = Some(self.plain()),
                    _ => {}
                }
            }
            if self.r.chance(1, 4) {
                c.fmt = Some(self.f());
            }
            if self.r.chance(1, 6) {
                c.hfmt = Some(self.f());
            }
            cols.push(c);
        }
        let t = TableSpec {
            name: if self.r.chance(1, 2) { Some(format!("Tbl_{tn}")) } else { None },
            cols,
            no_header,
            total,
            no_filter: self.r.chance(1, 6),
            no_banded: self.r.chance(1, 6),
            banded_cols: self.r.chance(1, 6),
            first: self.r.chance(1, 6),
            last: self.r.chance(1, 6),
            style: self.r.below(9) as u8,
        };
        let s = &mut self.sh[h];
        s.blocks.push(g.clone());
        s.tables.push(g.clone());
        s.first_data = true;
        if !no_header {
            s.no_write.push(Rng4::new(g.r1, g.c1, g.r1, g.c2));
            if s.seq() {
                s.cur = s.cur.max(g.r1);
            }
        }
        if total {
            s.no_write.push(Rng4::new(g.r2, g.c1, g.r2, g.c2));
        }
        Some(SOp::Table { g, t })
    }
    fn seq_rowcol_row(&mut self, h: usize) -> u32 {
        let s = &self.sh[h];
        if s.seq() {
            // Not yet flushed for certain.
            s.cur + 1 + self.r.below(4) as u32
        } else {
            self.r.below(26) as u32
        }
    }
    fn rowcol(&mut self, h: usize) -> Option<SOp> {
        let col = |g: &mut Gen| {
            let c1 = g.r.below(10) as u16;
            let c2 = if g.r.chance(2, 3) { c1 } else { c1 + g.r.below(4) as u16 };
            (c1, c2)
        };
        let seq = self.sh[h].seq();
        Some(match self.r.below(14) {
            0 | 1 => SOp::RowH { r: self.seq_rowcol_row(h), h4: *self.r.pick(&[40, 60, 61, 81, 120, 200, 0]) },
            2 | 3 => SOp::RowFmt { r: self.seq_rowcol_row(h), f: self.f() },
            4 => SOp::RowHide { r: self.seq_rowcol_row(h), on: self.r.chance(3, 4) },
            5 => {
                let r1 = self.seq_rowcol_row(h);
                let r2 = r1 + self.r.below(4) as u32;
                if (r1..=r2).any(|r| self.sh[h].levels_r.get(&r).copied().unwrap_or(0) >= 6) {
                    return None;
                }
                for r in r1..=r2 {
                    *self.sh[h].levels_r.entry(r).or_default() += 1;
                }
                SOp::RowGroup { r1, r2, collapsed: self.r.chance(1, 4) }
            }
            6 | 7 => {
                let (c1, c2) = col(self);
                SOp::ColW { c1, c2, w4: *self.r.pick(&[10, 35, 36, 40, 80, 200, 0, 1021]) }
            }
            8 | 9 => {
                // Rows that a save completed don't get later column formats.
                if seq && (self.sh[h].first_data || self.sh[h].sealed) {
                    return None;
                }
                let (c1, c2) = col(self);
                SOp::ColFmt { c1, c2, f: self.f() }
            }
            10 => {
                let (c1, c2) = col(self);
                SOp::ColHide { c1, c2 }
            }
            11 => {
                let (c1, c2) = col(self);
                if (c1..=c2).any(|r| self.sh[h].levels_c.get(&r).copied().unwrap_or(0) >= 6) {
                    return None;
                }
                for r in c1..=c2 {
                    *self.sh[h].levels_c.entry(r).or_default() += 1;
                }
                SOp::ColGroup { c1, c2, collapsed: self.r.chance(1, 4) }
            }
            12 => {
                if seq && (self.sh[h].first_data || self.sh[h].cur > 0) {
                    return None;
                }
                if self.r.chance(1, 2) && !self.sh[h].first_data {
                    SOp::DefaultRowH(*self.r.pick(&[60, 80, 100]))
                } else if !seq {
                    SOp::HideUnused(self.r.chance(2, 3))
                } else {
                    return None;
                }
            }
            _ => {
                if self.r.chance(1, 2) {
                    SOp::SymAbove(self.r.chance(2, 3))
                } else {
                    SOp::SymLeft(self.r.chance(2, 3))
                }
            }
        })
    }
    fn cells(&mut self, h: usize) -> SOp {
        match self.r.below(14) {
            0 => {
                let (r, c) = self.cell(h);
                let n = 1 + self.r.below(5);
                let v: Vec<Val> = (0..n).map(|_| self.simple()).collect();
                if (0..n as u16).any(|i| self.sh[h].no_write.iter().any(|b| b.has(r, c + i))) || c > 16000 {
                    return self.one(h, r, c);
                }
                for i in 0..n as u16 {
                    self.wrote(h, r, c + i);
                }
                SOp::RowVals { r, c, v, f: self.of() }
            }
            1 => {
                let (r, c) = self.cell(h);
                let n = 1 + self.r.below(5);
                let v: Vec<Val> = (0..n).map(|_| self.simple()).collect();
                if (0..n as u32).any(|i| self.sh[h].no_write.iter().any(|b| b.has(r + i, c))) {
                    return self.one(h, r, c);
                }
                for i in 0..n as u32 {
                    self.wrote(h, r + i, c);
                }
                SOp::ColVals { r, c, v, f: self.of() }
            }
            2 if !self.sh[h].seq() => {
                let (r, c) = self.cell(h);
                let v: Vec<Vec<i32>> = (0..1 + self.r.below(3)).map(|_| (0..1 + self.r.below(3)).map(|_| self.r.below(100) as i32).collect()).collect();
                let g = Rng4::new(r, c, r + 4, c + 4);
                if self.sh[h].no_write.iter().any(|b| b.hits(&g)) || c > 16000 {
                    return self.one(h, r, c);
                }
                SOp::Matrix { r, c, v, cols: self.r.chance(1, 2) }
            }
            _ => {
                let (r, c) = self.cell(h);
                self.one(h, r, c)
            }
        }
    }
    fn simple(&mut self) -> Val {
        loop {
            let v = self.val();
            if matches!(v, Val::Num(_) | Val::Str(_) | Val::Bool(_)) {
                return v;
            }
        }
    }
    fn one(&mut self, h: usize, r: u32, c: u16) -> SOp {
        let v = self.val();
        let f = self.of();
        let keeps = !matches!(&v, Val::Str(s) if s.is_empty() && f.is_none());
        if keeps {
            self.wrote(h, r, c);
        }
        SOp::Cell { r, c, v, f, via: self.r.below(3) as u8 }
    }
    fn fmt_op(&mut self, h: usize) -> Option<SOp> {
        let seq = self.sh[h].seq();
        if seq {
            // Rows before the current one can't be changed.
            let cur = self.sh[h].cur;
            let v: Vec<(u32, u16)> = self.sh[h].data.iter().copied().filter(|x| x.0 == cur).collect();
            let (r, c) = if v.is_empty() || self.r.chance(1, 3) { self.cell(h) } else { *self.r.pick(&v) };
            if self.sh[h].no_write.iter().any(|b| b.has(r, c)) {
                return None;
            }
            return Some(match self.r.below(8) {
                0..=2 => {
                    self.wrote(h, r, c);
                    SOp::CellFmt { r, c, f: self.f() }
                }
                3 | 4 => {
                    let g = self.block(h, (1, 4), (1, 4))?;
                    self.sh[h].blocks.push(g.clone());
                    self.wrote(h, g.r1, g.c1);
                    if self.r.chance(1, 2) {
                        SOp::RangeFmt { g, f: self.f() }
                    } else {
                        SOp::RangeBorder { g, f: self.f(), b: self.f() }
                    }
                }
                5 | 6 => SOp::Clear { r, c },
                _ => SOp::ClearFmt { r, c },
            });
        }
        let (r, c) = self.cell(h);
        Some(match self.r.below(8) {
            0..=2 => SOp::CellFmt { r, c, f: self.f() },
            3 => {
                let g = self.rect(3, 3);
                SOp::RangeFmt { g, f: self.f() }
            }
            4 => {
                let g = self.rect(4, 4);
                SOp::RangeBorder { g, f: self.f(), b: self.f() }
            }
            5 => SOp::Clear { r, c },
            6 => SOp::ClearFmt { r, c },
            _ => {
                if self.r.chance(1, 3) {
                    match self.r.below(3) {
                        0 => SOp::ResultDefault(self.r.pick(RESULTS).to_string()),
                        1 => SOp::NanText(self.r.pick(&["NaN", "nan!", "n/a"]).to_string()),
                        _ => SOp::InfText(self.r.pick(&["Inf", "∞"]).to_string()),
                    }
                } else {
                    SOp::SetResult { r, c, res: self.r.pick(RESULTS).to_string() }
                }
            }
        })
    }
    fn merge(&mut self, h: usize) -> Option<SOp> {
        match self.r.below(5) {
            0 | 1 => {
                let mut g = self.block(h, (1, 3), (1, 3))?;
                if g.single() {
                    g.c2 += 1;
                    if self.sh[h].blocks.iter().any(|b| b.hits(&g)) || self.sh[h].no_write.iter().any(|b| b.hits(&g)) || self.sh[h].filter.as_ref().is_some_and(|b| b.hits(&g)) {
                        return None;
                    }
                }
                let f = self.f();
                let text = self.word();
                self.sh[h].blocks.push(g.clone());
                self.wrote(h, g.r1, g.c1);
                Some(SOp::Merge { g, text, f })
            }
            2 | 3 => {
                let g = self.block(h, (1, 3), (1, 3))?;
                let formula = self.r.pick(&["{=SUM(A1:B1*A2:B2)}", "=TREND(C1:C3)", "=FREQUENCY(A1:A3,B1)", "=LEN(A1:A3)"]).to_string();
                let res = if self.r.chance(1, 2) { Some(self.r.pick(RESULTS).to_string()) } else { None };
                let f = self.of();
                let dynamic = self.r.chance(1, 3);
                self.wrote(h, g.r1, g.c1);
                if self.sh[h].seq() {
                    // Its lower rows are not in memory for a table.
                    self.sh[h].blocks.push(g.clone());
                }
                Some(SOp::Array { g, formula, res, f, dynamic })
            }
            _ => {
                let (r, c) = self.cell(h);
                self.wrote(h, r, c);
                Some(SOp::Check { r, c, b: self.r.chance(1, 2), f: self.of() })
            }
        }
    }
    fn print(&mut self) -> Print {
        match self.r.below(22) {
            0 | 1 => {
                let g = self.rect(9, 6);
                Print::Area(match self.r.below(12) {
                    0 => Rng4 { r1: 0, r2: 1_048_575, ..g },
                    1 => Rng4 { c1: 0, c2: 16_383, ..g },
                    2 => Rng4::new(0, 0, 1_048_575, 16_383),
                    _ => g,
                })
            }
            2 | 3 => {
                let a = self.r.below(5) as u32;
                Print::RepeatRows(a, a + self.r.below(3) as u32)
            }
            4 | 5 => {
                let a = self.r.below(5) as u16;
                Print::RepeatCols(a, a + self.r.below(3) as u16)
            }
            6 => Print::Landscape,
            7 => Print::Portrait,
            8 => Print::Paper(*self.r.pick(&[1, 9, 8, 11])),
            9 => Print::PageOrder(self.r.chance(2, 3)),
            10 => Print::Header(format!("&L{}&C&P", self.r.below(10))),
            11 => Print::Footer(format!("&R{}", self.r.below(10))),
            12 => Print::ScaleWithDoc(self.r.chance(1, 2)),
            13 => Print::AlignWithPage(self.r.chance(1, 2)),
            14 => Print::Margins([self.r.below(200) as u16, 60, 100, 110, 25, self.r.below(99) as u16]),
            15 => Print::FirstPage(self.r.below(9) as u16),
            16 => Print::Scale(*self.r.pick(&[50, 75, 100, 120])),
            17 => Print::Fit(self.r.below(3) as u16, self.r.below(3) as u16),
            18 => {
                if self.r.chance(1, 2) {
                    Print::CenterH(self.r.chance(2, 3))
                } else {
                    Print::CenterV(self.r.chance(2, 3))
                }
            }
            19 => match self.r.below(4) {
                0 => Print::Gridlines(self.r.chance(2, 3)),
                1 => Print::BlackWhite(self.r.chance(2, 3)),
                2 => Print::Draft(self.r.chance(2, 3)),
                _ => Print::Headings(self.r.chance(2, 3)),
            },
            20 => {
                let n = 1 + self.r.below(4);
                let low = self.r.below(2);
                Print::Breaks((0..n).map(|_| (low + self.r.below(30)) as u32).collect())
            }
            _ => {
                let n = 1 + self.r.below(3);
                let low = self.r.below(2);
                Print::VBreaks((0..n).map(|_| (low + self.r.below(12)) as u32).collect())
            }
        }
    }
    fn view(&mut self) -> View {
        match self.r.below(12) {
            0 | 1 => View::Zoom(*self.r.pick(&[75, 100, 120, 400, 10])),
            2 | 3 => View::Freeze(self.r.below(4) as u32, self.r.below(3) as u16),
            4 => {
                // The top cell must be below the frozen pane to make sense.
                View::FreezeTop(10 + self.r.below(9) as u32, 5 + self.r.below(4) as u16)
            }
            5 => {
                let g = self.rect(4, 4);
                View::Selection(match self.r.below(3) {
                    0 => Rng4::new(g.r2, g.c2, g.r1, g.c1),
                    _ => g,
                })
            }
            6 => View::TopLeft(self.r.below(20) as u32 & !3, self.r.below(9) as u16 & !3),
            7 => View::Rtl(self.r.chance(2, 3)),
            8 => View::Gridlines(self.r.chance(1, 3)),
            9 => View::Layout,
            10 => View::BreakPreview,
            _ => View::Normal,
        }
    }
    fn state(&mut self, h: usize) -> State {
        match self.r.below(8) {
            0 => State::Active(self.r.chance(3, 4)),
            1 => State::Selected(self.r.chance(3, 4)),
            2 if h > 0 => State::Hidden(self.r.chance(3, 4)),
            3 if h > 0 => State::VeryHidden(self.r.chance(3, 4)),
            4 => State::First(self.r.chance(3, 4)),
            5 => State::TabColor(*self.r.pick(&[0xFF0000, 0x00FF00, 0x123456])),
            _ => {
                if self.sh[h].refd {
                    return State::Selected(true);
                }
                self.names += 1;
                let n = self.names;
                let w = *self.r.pick(NAMES);
                let name = if n == 1 { w.to_string() } else { format!("{w}{n}") };
                self.sh[h].name = name.clone();
                State::Name(name)
            }
        }
    }
    fn ser(&mut self, h: usize) -> Option<SOp> {
        if self.sh[h].sealed {
            return None;
        }
        let have: Vec<u8> = self.sh[h].sers.iter().map(|s| s.0).collect();
        let free: Vec<u8> = (0..3u8).filter(|k| !have.contains(k)).collect();
        if have.is_empty() || (!free.is_empty() && self.r.chance(1, 4)) {
            let kind = *self.r.pick(&free);
            let fields = SER_FIELDS[kind as usize].1;
            if self.sh[h].seq() && !have.is_empty() {
                return None;
            }
            // Columns are reserved from here to the bottom.
            let w = fields.len() as u16;
            let r = if self.sh[h].seq() { self.sh[h].cur + 1 } else { self.r.below(12) as u32 };
            let c = 12 + self.r.below(12) as u16;
            let area = Rng4::new(r, c, r + 60, c + w - 1);
            if self.sh[h].no_write.iter().any(|b| b.hits(&area)) || self.sh[h].blocks.iter().any(|b| b.hits(&area)) {
                return None;
            }
            let via = if kind == 2 { *self.r.pick(&[0, 6, 3]) } else { self.r.below(6) as u8 };
            let mut opts = vec![];
            let mut custom = false;
            if via == 2 || via == 5 {
                custom = self.r.chance(1, 3);
                for f in fields {
                    if self.r.chance(1, 2) {
                        opts.push(SerField {
                            field: f.to_string(),
                            rename: if self.r.chance(1, 2) { Some(format!("{f} renamed")) } else { None },
                            hf: if self.r.chance(1, 3) { Some(self.f()) } else { None },
                            vf: if self.r.chance(1, 3) { Some(self.f()) } else { None },
                            skip: self.r.chance(1, 5),
                            width2: if self.r.chance(1, 4) { 30 } else { 0 },
                        });
                    }
                }
                if self.r.chance(1, 3) {
                    opts.reverse();
                }
                if opts.iter().all(|o| o.skip) {
                    custom = false;
                }
                if opts.iter().filter(|o| o.skip).count() == fields.len() {
                    opts[0].skip = false;
                }
            }
            let table = (via == 2 || via == 5) && !self.sh[h].seq() && self.r.chance(1, 3);
            let noheaders = (via == 2 || via == 5) && !table && self.r.chance(1, 6);
            let f = if via == 1 || via == 4 || ((via == 2 || via == 5) && self.r.chance(1, 2)) { Some(self.f()) } else { None };
            self.sh[h].no_write.push(area.clone());
            self.sh[h].blocks.push(area.clone());
            self.sh[h].sers.push((kind, area));
            self.sh[h].first_data = true;
            if self.sh[h].seq() {
                self.sh[h].cur = r;
                if noheaders {
                    // The first record goes to the row of the headers.
                    self.sh[h].sers.last_mut().unwrap().1.r1 -= 1;
                }
            }
            let head = SOp::Ser(Ser::Head { kind, r, c, via, f, opts, custom, table, noheaders });
            if table {
                // A table needs a row.
                self.prog.ops.push(Op::S(h, head));
                let n = self.sh[h].sers.len();
                self.sh[h].sers[n - 1].1.r1 += 1;
                return Some(SOp::Ser(Ser::Rec { kind, n: 5, s: self.plain(), b: true, o: Some(1) }));
            }
            return Some(head);
        }
        let kind = *self.r.pick(&have);
        let i = self.sh[h].sers.iter().position(|s| s.0 == kind).unwrap();
        if kind == 1 && !self.sh[h].seq() && self.r.chance(1, 5) {
            let n = 1 + self.r.below(3) as usize;
            let k = n as u32;
            if self.sh[h].sers[i].1.r1 + 20 + k > self.sh[h].sers[i].1.r2 {
                return None;
            }
            self.sh[h].sers[i].1.r1 += k;
            return Some(SOp::Ser(Ser::Vecs { n: (0..n).map(|_| self.r.below(99) as i32).collect(), s: (0..n).map(|_| self.plain()).collect() }));
        }
        {
            let s = &mut self.sh[h];
            // One more record: `r1` follows the next row.
            if s.sers[i].1.r1 + 20 > s.sers[i].1.r2 {
                return None;
            }
            s.sers[i].1.r1 += 1;
            if s.seq() {
                let r = s.sers[i].1.r1;
                if s.cur > r {
                    // Rows already flushed: records would be lost.
                    s.sers[i].1.r1 -= 1;
                    return None;
                }
                s.cur = s.cur.max(r);
            }
        }
        Some(SOp::Ser(Ser::Rec {
            kind,
            n: self.r.below(200) as i32,
            s: self.plain(),
            b: self.r.chance(1, 2),
            o: if self.r.chance(1, 2) { Some(self.r.below(50) as i32) } else { None },
        }))
    }
    pub fn bad(&mut self, h: usize) -> Bad {
        let (r, c) = {
            // A cell nothing else uses, often outside the used area.
            let (r, c) = self.pos();
            if self.r.chance(1, 2) {
                (r + 80, c + 30)
            } else {
                (r, c)
            }
        };
        let g = {
            let g = self.rect(3, 3);
            if self.r.chance(1, 2) {
                Rng4::new(g.r1 + 90, g.c1 + 40, g.r2 + 90, g.c2 + 40)
            } else {
                g
            }
        };
        let merged: Vec<Rng4> = self.sh[h].blocks.clone();
        let tables = self.sh[h].tables.clone();
        let filter = self.sh[h].filter.clone();
        for _ in 0..20 {
            let b = match self.r.below(66) {
                0 => Bad::NumLimit { row: self.r.chance(1, 2) },
                1 => Bad::StrLimit,
                2 => Bad::StrLong { r, c },
                3 => Bad::RichEmpty { r, c },
                4 => Bad::RichEmptySeg { r, c },
                5 => Bad::RichLong { r, c },
                6 => Bad::FormulaLimit,
                7 => Bad::ArrayOrder { g },
                8 => Bad::ArrayLimit,
                9 => Bad::BoolLimit,
                10 => Bad::BlankLimit,
                11 => Bad::UrlBad { r, c },
                12 => Bad::UrlLong { r, c },
                13 => Bad::UrlTipLong { r, c },
                14 => Bad::MergeOrder { g },
                15 => Bad::MergeSingle { r, c },
                16 => Bad::MergeLimit,
                17..=19 => {
                    let only: Vec<Rng4> = merged
                        .iter()
                        .filter(|m| !tables.contains(m) && !self.sh[h].sers.iter().any(|s| s.1.c1 == m.c1 && s.1.r2 == m.r2))
                        .cloned()
                        .collect();
                    if only.is_empty() {
                        continue;
                    }
                    let m = self.r.pick(&only).clone();
                    let mut g = m.clone();
                    match self.r.below(3) {
                        0 => {}
                        1 => g.r2 += 1,
                        _ => {
                            if g.c1 > 0 {
                                g.c1 -= 1
                            } else {
                                g.c2 += 1
                            }
                        }
                    }
                    Bad::MergeOverlap { g }
                }
                20..=22 => {
                    if tables.is_empty() {
                        continue;
                    }
                    let m = self.r.pick(&tables).clone();
                    let mut g = m.clone();
                    if self.r.chance(1, 2) {
                        g.r1 = g.r2;
                        g.r2 += 3;
                    }
                    g.c2 += 1;
                    if g.r1 == g.r2 {
                        g.r2 += 1;
                    }
                    Bad::TableOverlap { g, header: if self.r.chance(1, 2) { Some("New header".into()) } else { None } }
                }
                23 => Bad::TableOrder { g },
                24 => Bad::TableTooSmall { r, c },
                25 => {
                    let mut g = g;
                    g.c2 = g.c1 + 1;
                    g.r2 = g.r1 + 2;
                    Bad::TableDupHeader { g }
                }
                26 => continue,
                27 => {
                    if tables.is_empty() {
                        continue;
                    }
                    Bad::FilterOverlap { g: self.r.pick(&tables).clone() }
                }
                28 => Bad::FilterOrder { g },
                29 => {
                    let Some(f) = &filter else { continue };
                    Bad::FilterCol { col: f.c2 + 1 + self.r.below(4) as u16 }
                }
                30 => Bad::CfOrder { g },
                31 | 32 => Bad::CfInvalid { g, kind: self.r.below(4) as u8 },
                33 => Bad::DvOrder { g },
                34 => Bad::DvInvalid { g },
                35 => Bad::SparkNoRange { r, c },
                36 => Bad::SparkOrder { g },
                37 => {
                    let mut g = g;
                    g.r2 = g.r1 + 1;
                    g.c2 = g.c1 + 1;
                    Bad::SparkGroupSize { g }
                }
                38 | 39 => Bad::SheetName {
                    name: self.r.pick(&["", "[bad]", "a/b", "'quote", "a name that is longer than thirty-one characters", "q?", "x:y", "a*b", "b\\c"]).to_string(),
                },
                40 => Bad::NoteLong { r, c },
                41 => Bad::NoteLimit,
                42 => Bad::ImageLimit { ty: self.r.below(4) as u8 },
                43 => Bad::EmbedLimit { ty: self.r.below(4) as u8 },
                44 => Bad::ChartLimit,
                45 => Bad::ChartNoSeries { r, c },
                46 => Bad::ShapeLimit,
                47 => Bad::ButtonLimit,
                48 => Bad::CheckLimit,
                49 => Bad::FmtLimit,
                50 => Bad::RangeFmtOrder { g },
                51 => match self.r.below(6) {
                    0 => Bad::RowHeightLimit,
                    1 => Bad::RowFmtLimit,
                    2 => Bad::RowHideLimit,
                    3 => Bad::ColWidthLimit,
                    4 => Bad::ColFmtLimit,
                    _ => Bad::ColHideLimit,
                },
                52 => Bad::ColRangeOrder { c1: g.c1, c2: g.c2 },
                53 => Bad::GroupOrder { r1: g.r1, r2: g.r2 },
                54 => Bad::GroupLimit,
                55 => Bad::ColGroupOrder { c1: g.c1, c2: g.c2 },
                56 => match self.r.below(4) {
                    0 => Bad::FreezeLimit,
                    1 => Bad::FreezeTopBad { r, c },
                    2 => Bad::SelectionOrder { g },
                    _ => Bad::TopLeftLimit,
                },
                57 => Bad::AreaOrder { g },
                58 => Bad::RepeatOrder { r1: g.r1, r2: g.r2 },
                59 => Bad::RepeatColOrder { c1: g.c1, c2: g.c2 },
                60 => Bad::BreaksMany,
                61 => Bad::UnprotectOrder { g },
                62 => Bad::IgnoreOrder { g },
                63 => {
                    if self.sh[h].header {
                        continue;
                    }
                    Bad::HdrImgMissing { text: 0 }
                }
                64 => Bad::DateLimit,
                _ => match self.r.below(6) {
                    0 => Bad::VbaName { name: "1bad name".into() },
                    1 => Bad::RowValsLimit { r },
                    2 => {
                        if self.sh[h].footer {
                            continue;
                        }
                        Bad::HdrFormatMissing
                    }
                    3 => Bad::SerUnregistered,
                    4 => Bad::SerHeadersBad { r, c },
                    _ => Bad::DateLimit,
                },
            };
            return b;
        }
        Bad::StrLimit
    }

    fn add_sheet(&mut self, kind: Kind) {
        let how = self.r.chance(1, 4) as u8;
        let name = if how == 1 || self.r.chance(1, 6) {
            self.names += 1;
            let w = *self.r.pick(NAMES);
            Some(format!("{w}{}", if self.names == 1 { String::new() } else { self.names.to_string() }))
        } else {
            None
        };
        let actual = match (&name, kind) {
            (Some(n), _) => n.clone(),
            (None, Kind::Chart) => format!("Chart{}", self.n_cs + 1),
            _ => format!("Sheet{}", self.n_ws + 1),
        };
        if how == 0 {
            if kind == Kind::Chart {
                self.n_cs += 1;
            } else {
                self.n_ws += 1;
            }
        }
        self.prog.ops.push(Op::Add { kind, how, name });
        let h = self.sh.len();
        self.sh.push(Sh {
            kind,
            cur: 0,
            blocks: vec![],
            tables: vec![],
            filter: None,
            sers: vec![],
            no_write: vec![],
            header: false,
            footer: false,
            links: vec![],
            notes: vec![],
            data: vec![],
            charts: 0,
            formatted: vec![],
            levels_r: Default::default(),
            levels_c: Default::default(),
            first_data: false,
            name: actual,
            refd: false,
            sealed: false,
        });
        if kind == Kind::Chart {
            // A chartsheet needs its chart.
            let mut ch = self.chart(true);
            ch.alt = None;
            self.sh[h].charts = 1;
            self.prog.ops.push(Op::S(h, SOp::Chart { r: 0, c: 0, ch, x: 0, y: 0 }));
        }
    }
    fn pick_kind(&mut self) -> Kind {
        let t: u32 = self.p.kinds.iter().sum();
        let mut x = self.r.below(t as u64) as u32;
        for (i, k) in [Kind::Std, Kind::Low, Kind::Const, Kind::Chart].iter().enumerate() {
            if x < self.p.kinds[i] {
                return *k;
            }
            x -= self.p.kinds[i];
        }
        Kind::Std
    }
    /// One more operation, or several that belong together.
    pub fn step(&mut self) {
        let w = self.p.w;
        let list = [
            w.cell, w.fmt, w.rowcol, w.merge, w.link, w.image, w.embed, w.hdrimg, w.chart, w.note, w.shape, w.button, w.table, w.cf, w.dv, w.filter, w.spark,
            w.protect, w.view, w.print, w.state, w.names, w.props, w.reorder, w.ser, w.bad, w.save, w.addsheet, w.autofit, w.jump, w.vba,
        ];
        let t: u32 = list.iter().sum();
        let mut x = self.r.below(t as u64) as u32;
        let mut k = 0;
        for (i, w) in list.iter().enumerate() {
            if x < *w {
                k = i;
                break;
            }
            x -= w;
        }
        if self.sh.is_empty() {
            return;
        }
        let h = self.r.below(self.sh.len() as u64) as usize;
        if !self.sh[h].ws() && !matches!(k, 18..=23 | 26..=27 | 29 | 30) {
            return;
        }
        if let Some(s) = self.sheet_op(h, k) {
            self.prog.ops.push(Op::S(h, s));
        }
    }
    /// An operation of category `k` on sheet `h`; workbook operations are
    /// pushed directly.
    pub fn sheet_op(&mut self, h: usize, k: usize) -> Option<SOp> {
        let ws = self.sh[h].ws();
        Some(match k {
            0 => self.cells(h),
            1 => return self.fmt_op(h),
            2 => return self.rowcol(h),
            3 => return self.merge(h),
            4 => {
                let (r, c) = self.cell(h);
                let link = self.r.pick(LINKS).to_string();
                let v = Val::Url {
                    link,
                    text: if self.r.chance(1, 2) { Some(self.plain()) } else { None },
                    tip: if self.r.chance(1, 4) { Some(self.plain()) } else { None },
                };
                self.wrote(h, r, c);
                SOp::Cell { r, c, v, f: if self.r.chance(1, 4) { Some(self.f()) } else { None }, via: self.r.below(2) as u8 }
            }
            5 => {
                let (r, c) = self.pos();
                match self.r.below(6) {
                    0 => SOp::ImageFit { r, c, img: Img { scale: 0, ..self.img() }, keep: self.r.chance(1, 2) },
                    1 => {
                        let (x, y) = (5 + self.r.below(150) as u32, self.r.below(60) as u32);
                        SOp::Image { r, c, img: self.img(), x, y }
                    }
                    _ => SOp::Image { r, c, img: self.img(), x: 0, y: 0 },
                }
            }
            6 => {
                if self.sh[h].kind == Kind::Const || self.sh[h].kind == Kind::Low {
                    if self.p.modal {
                        return None;
                    }
                }
                let (r, c) = self.cell(h);
                self.wrote(h, r, c);
                let mut img = self.img();
                img.scale = 0;
                img.mov = 0;
                if img.url.as_ref().is_some_and(|u| !u.starts_with("https://example.com/o") || u.contains('#')) {
                    img.url = None;
                    img.tip = None;
                }
                SOp::Embed { r, c, img, f: if self.r.chance(1, 4) { Some(self.f()) } else { None } }
            }
            7 => {
                if self.r.chance(1, 3) {
                    SOp::Background(Img { url: None, from_file: false, ..self.img() })
                } else {
                    let footer = self.r.chance(1, 3);
                    let done = if footer { self.sh[h].footer } else { self.sh[h].header };
                    if done {
                        return None;
                    }
                    let t = "&L&G&C&G&R&G".to_string();
                    if footer {
                        self.sh[h].footer = true;
                    } else {
                        self.sh[h].header = true;
                    }
                    self.prog.ops.push(Op::S(h, SOp::Print(if footer { Print::Footer(t) } else { Print::Header(t) })));
                    let pos = self.r.below(3) as u8;
                    if self.r.chance(1, 3) {
                        let img = Img { url: None, mov: 0, decorative: false, ..self.img() };
                        self.prog.ops.push(Op::S(h, SOp::HdrImg { pos: (pos + 1) % 3, footer, img }));
                    }
                    SOp::HdrImg { pos, footer, img: Img { url: None, mov: 0, decorative: false, ..self.img() } }
                }
            }
            8 => {
                let (r, c) = self.pos();
                let ch = self.chart(true);
                let (x, y) = self.offset();
                SOp::Chart { r, c, ch, x, y }
            }
            9 => {
                if self.r.chance(1, 6) {
                    return Some(if self.r.chance(1, 2) { SOp::ShowNotes(self.r.chance(2, 3)) } else { SOp::NoteAuthor(self.r.pick(&["Zed", "Ann & Bo"]).to_string()) });
                }
                let (mut r, mut c) = self.pos();
                if self.p.extremes && self.r.chance(1, 6) {
                    if self.r.chance(1, 2) {
                        r = 1048572 + self.r.below(4) as u32;
                    }
                    if self.r.chance(1, 2) {
                        c = 16380 + self.r.below(4) as u16;
                    }
                }
                SOp::Note {
                    r,
                    c,
                    text: self.plain(),
                    author: if self.r.chance(1, 2) { Some(self.r.pick(&["Mary", "Bob", "Ann", "X & Y"]).to_string()) } else { None },
                    vis: if self.r.chance(1, 4) { Some(self.r.chance(1, 2)) } else { None },
                    w: if self.r.chance(1, 4) { 200 } else { 0 },
                    h: if self.r.chance(1, 4) { 90 } else { 0 },
                    prefix: self.r.chance(1, 2),
                    alt: if self.r.chance(1, 4) { Some(self.plain()) } else { None },
                }
            }
            10 => {
                let (r, c) = self.pos();
                let (x, y) = self.offset();
                let text = match self.r.below(5) {
                    0 => format!("{}\n{}", self.plain(), self.plain()),
                    1 => format!("{}\n\n  {}", self.plain(), self.plain()),
                    _ => self.plain(),
                };
                let link = if self.r.chance(1, 6) { Some(self.rf1()) } else { None };
                SOp::Shape {
                    r,
                    c,
                    text,
                    w: if self.r.chance(1, 4) { 222 } else { 0 },
                    h: 0,
                    alt: if self.r.chance(1, 4) { Some(self.plain()) } else { None },
                    url: if self.r.chance(1, 4) { Some(self.weblink()) } else { None },
                    link,
                    x,
                    y,
                }
            }
            11 => {
                let (r, c) = self.pos();
                let (x, y) = self.offset();
                SOp::Button {
                    r,
                    c,
                    caption: if self.r.chance(1, 2) { Some(self.plain()) } else { None },
                    mac: if self.r.chance(1, 2) { Some("do_it".into()) } else { None },
                    w: if self.r.chance(1, 4) { 100 } else { 0 },
                    h: 0,
                    alt: if self.r.chance(1, 4) { Some(self.plain()) } else { None },
                    x,
                    y,
                }
            }
            12 => return self.table(h, false),
            13 => {
                let g = self.rect(5, 3);
                let cf = self.cf(&g);
                SOp::Cf { g, cf }
            }
            14 => {
                let g = self.rect(5, 3);
                let dv = self.dv(&g);
                SOp::Dv { g, dv }
            }
            15 => {
                if self.sh[h].filter.is_none() {
                    if self.sh[h].seq() && self.p.modal {
                        return None;
                    }
                    for _ in 0..10 {
                        let mut g = self.rect(8, 4);
                        g.r2 += 2;
                        if self.sh[h].blocks.iter().any(|b| b.hits(&g)) {
                            continue;
                        }
                        self.sh[h].filter = Some(g.clone());
                        return Some(SOp::Autofilter { g });
                    }
                    return None;
                }
                if !self.p.conditions || self.sh[h].seq() {
                    return None;
                }
                let g = self.sh[h].filter.clone().unwrap();
                if self.r.chance(1, 8) {
                    return Some(SOp::FilterOff);
                }
                let col = g.c1 + self.r.below((g.c2 - g.c1 + 1) as u64) as u16;
                let fv = |g: &mut Gen| if g.r.chance(1, 2) { FV::N(g.r.below(100) as i32) } else { FV::S(g.r.pick(&["repeat", "x", "Beta", "s1"]).to_string()) };
                let fl = if self.r.chance(1, 2) {
                    FilterSpec::List {
                        strs: (0..1 + self.r.below(2)).map(|_| self.r.pick(&["repeat", "x", "Total", "REPEAT"]).to_string()).collect(),
                        nums: (0..self.r.below(2)).map(|_| self.r.below(100) as i32).collect(),
                        blanks: self.r.chance(1, 3),
                    }
                } else {
                    let v1 = fv(self);
                    let c1 = match v1 {
                        FV::N(_) => self.r.below(6) as u8,
                        FV::S(_) => *self.r.pick(&[0u8, 1, 6, 7, 8, 9, 10, 11]),
                    };
                    let second = if self.r.chance(1, 3) {
                        let v = fv(self);
                        let c = match v {
                            FV::N(_) => self.r.below(6) as u8,
                            FV::S(_) => *self.r.pick(&[0u8, 1, 6, 8, 10]),
                        };
                        Some((c, v))
                    } else {
                        None
                    };
                    FilterSpec::Custom { c1, v1, or: second.is_some() && self.r.chance(1, 2), second }
                };
                SOp::Filter { col, fl }
            }
            16 => {
                if self.r.chance(2, 3) {
                    let (r, c) = self.pos();
                    let tall = self.r.chance(1, 2);
                    let data = self.rf(tall);
                    SOp::Spark { r, c: c + 20, sp: self.spark(data) }
                } else {
                    // A column of sparklines, each with its row of data.
                    let n = 2 + self.r.below(3) as u32;
                    let (r, c) = self.pos();
                    let mut data = self.rf(false);
                    let mut sp = self.spark(data.clone());
                    if sp.flags & (1 << 9) != 0 {
                        data.g.r2 = data.g.r1 + 4;
                        data.g.c2 = data.g.c1 + n as u16 - 1;
                    } else {
                        data.g.r2 = data.g.r1 + n - 1;
                        data.g.c2 = data.g.c1 + 4;
                    }
                    sp.data = data;
                    sp.dates = None;
                    let n = n - 1;
                    let g = if self.r.chance(1, 2) { Rng4::new(r, c + 20, r + n, c + 20) } else { Rng4::new(r, c + 20, r, c + 20 + n as u16) };
                    SOp::SparkGroup { g, sp }
                }
            }
            17 => match self.r.below(5) {
                0 => SOp::Protect { pw: None, opts: None },
                1 => SOp::Protect { pw: Some("abc123".into()), opts: None },
                2 => SOp::Protect { pw: None, opts: Some((self.r.next() & 0x7FFF) as u16) },
                3 => {
                    let g = self.rect(3, 3);
                    let name = if self.r.chance(1, 3) { Some(format!("Range{}x", self.r.below(1000))) } else { None };
                    SOp::Unprotect { g, pw: if name.is_some() && self.r.chance(1, 2) { Some("pw".into()) } else { None }, name }
                }
                _ => SOp::Ignore { g: self.rect(3, 3), kind: self.r.below(9) as u8 },
            },
            18 => {
                let v = self.view();
                if !ws && !matches!(v, View::Zoom(_)) {
                    return None;
                }
                SOp::View(v)
            }
            19 => {
                let p = self.print();
                if !ws && !matches!(p, Print::Landscape | Print::Paper(_) | Print::Margins(_)) {
                    return None;
                }
                if matches!(p, Print::Header(_)) && self.sh[h].header || matches!(p, Print::Footer(_)) && self.sh[h].footer {
                    return None;
                }
                SOp::Print(p)
            }
            20 => SOp::State(self.state(h)),
            21 => {
                let names = ["Alpha", "beta_1", "Zed.x", "_u", "Local"];
                self.names += 1;
                let n = self.names;
                let i = self.r.below(6) as usize;
                let name = if i < 4 {
                    format!("{}{n}", names[i])
                } else {
                    self.sh[h].refd = true;
                    format!("{}!{}{n}", quoted(&self.sh[h].name), names[4])
                };
                self.prog.ops.push(Op::DefName { name, formula: self.r.pick(&["=Sheet1!$A$1:$B$2", "=0.96", "=\"a&b\"", "=Sheet1!$G$1"]).to_string() });
                return None;
            }
            22 => {
                if self.props > 2 {
                    return None;
                }
                self.props += 1;
                let n = self.r.below(3);
                let mut custom = vec![];
                for i in 0..n {
                    let v = match self.r.below(4) {
                        0 => Val::n(self.r.below(99) as f64),
                        1 => Val::Bool(true),
                        2 => Val::s("text & more"),
                        _ => Val::Date(2021, 2, 3, 0, 0, 0),
                    };
                    custom.push((format!("Prop {i}"), v));
                }
                let op = Op::Props {
                    title: if self.r.chance(1, 2) { Some(self.plain()) } else { None },
                    author: if self.r.chance(1, 2) { Some(self.plain()) } else { None },
                    company: if self.r.chance(1, 3) { Some(self.plain()) } else { None },
                    custom,
                    created: Some((2023, 1 + self.r.below(12) as u8, 5)),
                };
                self.prog.ops.push(op);
                return None;
            }
            23 => {
                let n = self.sh.len() as u64;
                let op = match self.r.below(6) {
                    0 => Op::SortSheets,
                    1 => Op::RegFormat(self.f()),
                    2 => Op::ReadOnly,
                    3 => Op::LargeZip(self.r.chance(1, 2)),
                    _ => {
                        let (a, b) = (self.r.below(n) as usize, self.r.below(n) as usize);
                        if a == b {
                            return None;
                        }
                        Op::Swap(a, b)
                    }
                };
                self.prog.ops.push(op);
                return None;
            }
            24 => {
                return self.ser(h);
            }
            25 => {
                let op = match self.r.below(20) {
                    0 => Op::BadName { name: self.r.pick(&["1abc", "a b", "2x", "x!"]).to_string() },
                    1 => Op::BadLookup { idx: self.r.below(2) as usize },
                    _ => Op::S(h, SOp::Bad(self.bad(h))),
                };
                self.prog.ops.push(op);
                return None;
            }
            26 => {
                let n = self.sh.len() as u64;
                if self.p.invalid && n > 1 && self.r.chance(1, 3) {
                    // A save that the library rejects.
                    let b = self.r.below(n) as usize;
                    let a = (b + 1 + self.r.below(n - 1) as usize) % n as usize;
                    let bad = if self.r.chance(1, 2) { self.sh[a].name.to_uppercase() } else { "Gone away".to_string() };
                    let good = self.sh[b].name.clone();
                    self.prog.ops.push(Op::S(b, SOp::State(State::Name(bad))));
                    self.prog.ops.push(Op::Save(Via::Buffer));
                    self.prog.ops.push(Op::S(b, SOp::State(State::Name(good))));
                } else {
                    self.prog.ops.push(Op::Save(Via::Buffer));
                }
                self.saved = true;
                self.after_save();
                return None;
            }
            27 => {
                if self.sh.len() < 8 {
                    let k = self.pick_kind();
                    self.add_sheet(k);
                }
                return None;
            }
            28 => {
                if self.sh[h].seq() {
                    return None;
                }
                SOp::Autofit
            }
            29 => {
                let d = *self.r.pick(&[-86400, -3600, 3600, 86400 * 40, -86400 * 3000, 1]);
                self.prog.ops.push(Op::Jump(d));
                return None;
            }
            _ => {
                if self.vba {
                    return None;
                }
                self.vba = true;
                self.prog.ops.push(Op::Vba);
                return None;
            }
        })
    }
    /// In constant memory mode a save completes all rows mentioned so far.
    fn after_save(&mut self) {
        for h in 0..self.sh.len() {
            if self.sh[h].seq() {
                let mut hi = self.sh[h].cur;
                for o in &self.prog.ops {
                    match o {
                        Op::S(g, s) if *g == h => hi = hi.max(extent(s)),
                        Op::Par(v) => {
                            for (g, l) in v {
                                if *g == h {
                                    for s in l {
                                        hi = hi.max(extent(s));
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                }
                self.sh[h].cur = hi + 1;
                self.sh[h].sealed = true;
            }
        }
    }
    pub fn start(&mut self) {
        let n = self.r.range(self.p.fmts.0, self.p.fmts.1);
        for i in 0..n {
            let f = if i > 0 && self.r.chance(1, 5) {
                // The same again, or almost the same.
                let k = self.r.below(i) as usize;
                let mut f = self.prog.fmts[k].clone();
                if self.r.chance(2, 3) {
                    match self.r.below(4) {
                        0 => f.bold = !f.bold,
                        1 => f.border[self.r.below(4) as usize].0 = 1 + self.r.below(13) as u8,
                        2 => f.unlocked = !f.unlocked,
                        _ => {
                            if !f.hyperlink {
                                f.color = Some(Col::Rgb(0x224466 + self.r.below(3) as u32))
                            }
                        }
                    }
                }
                f
            } else if self.r.chance(1, 20) {
                Fmt::default()
            } else {
                self.fmt()
            };
            self.prog.fmts.push(f);
        }
        let n = self.r.range(self.p.sheets.0, self.p.sheets.1);
        let w = [self.p.kinds[0], self.p.kinds[1], self.p.kinds[2]];
        for i in 0..n {
            let mut k = self.pick_kind();
            if i == 0 && k == Kind::Chart {
                k = if w[0] > 0 {
                    Kind::Std
                } else if w[1] > 0 {
                    Kind::Low
                } else {
                    Kind::Const
                };
            }
            self.add_sheet(k);
        }
    }
    pub fn finish(mut self) -> Program {
        if self.p.end {
            self.prog.ops.push(Op::Save(Via::Buffer));
        }
        self.prog
    }
}

/// The last row that an operation can write to.
pub fn extent(s: &SOp) -> u32 {
    match s {
        SOp::Cell { r, .. } | SOp::RowVals { r, .. } | SOp::Check { r, .. } | SOp::Embed { r, .. } | SOp::CellFmt { r, .. } => *r,
        SOp::ColVals { r, v, .. } => *r + v.len() as u32,
        SOp::Matrix { r, v, .. } => *r + v.len() as u32 + v.iter().map(|x| x.len()).max().unwrap_or(0) as u32,
        SOp::Array { g, .. } | SOp::Merge { g, .. } | SOp::Table { g, .. } | SOp::RangeFmt { g, .. } | SOp::RangeBorder { g, .. } => g.r2,
        SOp::RowH { r, .. } | SOp::RowFmt { r, .. } | SOp::RowHide { r, .. } => *r,
        SOp::RowGroup { r2, .. } => *r2 + 1,
        SOp::Ser(Ser::Head { r, .. }) => *r,
        SOp::Note { r, .. } => *r,
        _ => 0,
    }
}

pub fn generate(seed: u64, p: &Prof) -> Program {
    let mut g = Gen::new(seed, p.clone());
    g.start();
    let n = g.r.range(p.ops.0, p.ops.1);
    for _ in 0..n {
        g.step();
    }
    g.finish()
}
