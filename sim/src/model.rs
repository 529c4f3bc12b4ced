//! The reference model: interprets a program and states what each saved file
//! must show, in the words of `decode`.
use crate::core::hash_bytes;
use crate::decode::*;
use crate::exec::{img_bytes, img_dpi, Out};
use crate::pkg::Node;
use crate::spec::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn nd(name: &str, attrs: &[(&str, &str)], kids: Vec<Node>) -> Node {
    Node { name: name.into(), attrs: attrs.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(), kids, text: String::new() }
}

// ---------------------------------------------------------------------------
// Formats.
// ---------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub struct M {
    pub num: String,
    pub idx: u8,
    pub bold: bool,
    pub italic: bool,
    pub strike: bool,
    pub underline: u8,
    pub script: u8,
    pub color: Option<Col>,
    pub name: String,
    pub size2: u16,
    pub family: u8,
    pub charset: u8,
    pub scheme: bool,
    pub link: bool,
    pub halign: u8,
    pub valign: u8,
    pub wrap: bool,
    pub shrink: bool,
    pub indent: u8,
    pub rot: i16,
    pub reading: u8,
    pub pattern: u8,
    pub bg: Option<Col>,
    pub fg: Option<Col>,
    pub border: [(u8, Option<Col>); 5],
    pub diag: u8,
    pub locked: bool,
    pub hidden: bool,
    pub quote: bool,
    pub checkbox: bool,
}
impl Default for M {
    fn default() -> M {
        M {
            num: String::new(),
            idx: 0,
            bold: false,
            italic: false,
            strike: false,
            underline: 0,
            script: 0,
            color: None,
            name: "Calibri".into(),
            size2: 22,
            family: 2,
            charset: 0,
            scheme: true,
            link: false,
            halign: 0,
            valign: 0,
            wrap: false,
            shrink: false,
            indent: 0,
            rot: 0,
            reading: 0,
            pattern: 0,
            bg: None,
            fg: None,
            border: [(0, None); 5],
            diag: 0,
            locked: true,
            hidden: false,
            quote: false,
            checkbox: false,
        }
    }
}
const PATTERNS: [&str; 19] = [
    "none", "solid", "mediumGray", "darkGray", "lightGray", "darkHorizontal", "darkVertical", "darkDown", "darkUp", "darkGrid", "darkTrellis", "lightHorizontal",
    "lightVertical", "lightDown", "lightUp", "lightGrid", "lightTrellis", "gray125", "gray0625",
];
const BORDERS: [&str; 14] = [
    "none", "thin", "medium", "dashed", "dotted", "thick", "double", "hair", "mediumDashed", "dashDot", "mediumDashDot", "dashDotDot", "mediumDashDotDot", "slantDashDot",
];
const TINTS: [[&str; 5]; 4] = [
    ["-4.9989318521683403E-2", "-0.14999847407452621", "-0.249977111117893", "-0.34998626667073579", "-0.499984740745262"],
    ["0.499984740745262", "0.34998626667073579", "0.249977111117893", "0.14999847407452621", "4.9989318521683403E-2"],
    ["-9.9978637043366805E-2", "-0.249977111117893", "-0.499984740745262", "-0.749992370372631", "-0.89999084444715716"],
    ["0.79998168889431442", "0.59999389629810485", "0.39997558519241921", "-0.249977111117893", "-0.499984740745262"],
];
pub fn col_attrs(c: &Col) -> Vec<(String, String)> {
    match c {
        Col::Rgb(x) => vec![("rgb".into(), format!("FF{:06X}", x))],
        Col::Theme(c, s) => {
            let mut v = vec![("theme".to_string(), c.to_string())];
            if *s > 0 {
                v.push(("tint".into(), TINTS[(*c as usize).min(3)][(*s as usize - 1).min(4)].to_string()));
            }
            v
        }
    }
}
fn color_node(name: &str, c: &Col) -> Node {
    Node { name: name.into(), attrs: col_attrs(c), kids: vec![], text: String::new() }
}
fn half(n: u16) -> String {
    if n % 2 == 0 {
        (n / 2).to_string()
    } else {
        format!("{}.5", n / 2)
    }
}
impl M {
    pub fn of(f: &Fmt) -> M {
        let mut m = M::default();
        if let Some(n) = &f.num {
            m.num = n.clone();
        }
        if let Some(n) = f.num_idx {
            m.idx = n;
            m.num = format!("#{n}");
        }
        if f.hyperlink {
            m.link = true;
            m.color = Some(Col::Theme(10, 0));
            m.underline = 1;
            m.scheme = false;
        }
        m.bold = f.bold;
        m.italic = f.italic;
        m.strike = f.strike;
        if f.underline > 0 {
            m.underline = f.underline;
        }
        m.script = f.script;
        if f.color.is_some() {
            m.color = f.color;
        }
        if let Some(n) = &f.name {
            m.name = n.clone();
            if n != "Calibri" {
                m.scheme = false;
            }
        }
        if let Some(s) = f.size2 {
            m.size2 = s;
        }
        if let Some(s) = f.family {
            m.family = s;
        }
        if let Some(s) = f.charset {
            m.charset = s;
        }
        m.halign = f.halign;
        m.valign = f.valign;
        m.wrap = f.wrap;
        m.shrink = f.shrink;
        m.indent = f.indent;
        if let Some(r) = f.rot {
            m.rot = match r {
                270 => 255,
                r if r < 0 => 90 - r,
                r => r,
            };
        }
        m.reading = f.reading;
        m.pattern = f.pattern;
        m.bg = f.bg;
        m.fg = f.fg;
        m.border = f.border;
        m.diag = f.diag;
        m.locked = !f.unlocked;
        m.hidden = f.hidden;
        m.quote = f.quote;
        m.checkbox = f.checkbox;
        m
    }
    fn hyperlink() -> M {
        M::of(&Fmt { hyperlink: true, ..Fmt::default() })
    }
    /// The format of a cell where a row and a column with formats meet.
    fn merge(&self, o: &M) -> M {
        let d = M::default();
        let mut m = self.clone();
        m.hidden |= o.hidden;
        m.checkbox |= o.checkbox;
        m.quote |= o.quote;
        m.locked &= o.locked;
        if m.num.is_empty() {
            m.num = o.num.clone();
            m.idx = o.idx;
        }
        m.fg = m.fg.or(o.fg);
        m.bg = m.bg.or(o.bg);
        if m.pattern == 0 {
            m.pattern = o.pattern;
        }
        m.bold |= o.bold;
        m.italic |= o.italic;
        m.strike |= o.strike;
        if m.family == d.family {
            m.family = o.family;
        }
        if m.charset == d.charset {
            m.charset = o.charset;
        }
        if m.name == d.name {
            m.name = o.name.clone();
        }
        if m.size2 == d.size2 {
            m.size2 = o.size2;
        }
        if m.scheme {
            m.scheme = o.scheme;
        }
        m.color = m.color.or(o.color);
        if m.script == 0 {
            m.script = o.script;
        }
        if m.underline == 0 {
            m.underline = o.underline;
        }
        for i in 0..5 {
            if m.border[i].0 == 0 {
                m.border[i].0 = o.border[i].0;
            }
            m.border[i].1 = m.border[i].1.or(o.border[i].1);
        }
        if m.diag == 0 {
            m.diag = o.diag;
        }
        m.shrink |= o.shrink;
        m.wrap |= o.wrap;
        if m.indent == 0 {
            m.indent = o.indent;
        }
        if m.rot == 0 {
            m.rot = o.rot;
        }
        if m.reading == 0 {
            m.reading = o.reading;
        }
        if m.halign == 0 {
            m.halign = o.halign;
        }
        if m.valign == 0 {
            m.valign = o.valign;
        }
        m
    }
    fn u_text(u: u8) -> &'static str {
        ["", "", "double", "singleAccounting", "doubleAccounting"][u as usize % 5]
    }
    fn color_text(c: &Col) -> String {
        col_attrs(c).iter().map(|(k, v)| format!("{k}:{v}")).collect::<Vec<_>>().join(",")
    }
    fn marks(&self) -> Vec<String> {
        let mut v = vec![];
        if self.bold {
            v.push("b=".to_string());
        }
        if self.italic {
            v.push("i=".to_string());
        }
        if self.strike {
            v.push("strike=".to_string());
        }
        if self.underline > 0 {
            v.push(format!("u={}", M::u_text(self.underline)));
        }
        if self.script > 0 {
            v.push(format!("vertAlign={}", ["", "superscript", "subscript"][self.script as usize % 3]));
        }
        v
    }
    pub fn font(&self) -> String {
        let mut v = self.marks();
        v.push(format!("sz={}", half(self.size2)));
        v.push(format!("color={}", self.color.as_ref().map_or("theme:1".to_string(), M::color_text)));
        v.push(format!("name={}", self.name));
        if self.family > 0 {
            v.push(format!("family={}", self.family));
        }
        if self.charset > 0 {
            v.push(format!("charset={}", self.charset));
        }
        if self.scheme {
            v.push("scheme=minor".into());
        }
        v.sort();
        v.join(";")
    }
    fn font_default(&self) -> bool {
        let d = M::default();
        !(self.bold || self.italic || self.strike || self.underline > 0 || self.script > 0 || self.color.is_some() || self.link)
            && self.name == d.name
            && self.size2 == d.size2
            && self.family == d.family
            && self.charset == d.charset
            && self.scheme == d.scheme
    }
    fn fill(&self) -> (Node, bool) {
        let p = PATTERNS[self.pattern as usize % 19];
        let plain = |p: &str| nd("fill", &[], vec![nd("patternFill", &[("patternType", p)], vec![])]);
        if self.fg.is_none() && self.bg.is_none() {
            return (plain(p), self.pattern != 0);
        }
        let solid = self.pattern <= 1;
        // A solid fill has one visible colour, which is the "foreground" of a
        // file and the background of a format.
        let (fg, bg) = match (solid, self.fg, self.bg) {
            (true, None, Some(b)) => (Some(b), None),
            (true, Some(f), Some(b)) => (Some(b), Some(f)),
            (_, f, b) => (f, b),
        };
        let mut kids = vec![];
        if let Some(f) = fg {
            kids.push(color_node("fgColor", &f));
        }
        kids.push(bg.map_or(nd("bgColor", &[("indexed", "64")], vec![]), |b| color_node("bgColor", &b)));
        (nd("fill", &[], vec![nd("patternFill", &[("patternType", if solid { "solid" } else { p })], kids)]), true)
    }
    fn side(name: &str, b: &(u8, Option<Col>)) -> Node {
        if b.0 == 0 {
            return nd(name, &[], vec![]);
        }
        let c = b.1.as_ref().map_or(nd("color", &[("auto", "1")], vec![]), |c| color_node("color", c));
        nd(name, &[("style", BORDERS[b.0 as usize % 14])], vec![c])
    }
    fn diag_attrs(&self) -> &'static [(&'static str, &'static str)] {
        match self.diag {
            1 => &[("diagonalUp", "1")],
            2 => &[("diagonalDown", "1")],
            3 => &[("diagonalUp", "1"), ("diagonalDown", "1")],
            _ => &[],
        }
    }
    fn border_default(&self) -> bool {
        self.diag == 0 && self.border.iter().all(|b| b.0 == 0 && b.1.is_none())
    }
    fn border_node(&self) -> Node {
        let n = ["left", "right", "top", "bottom", "diagonal"];
        nd("border", self.diag_attrs(), (0..5).map(|i| M::side(n[i], &self.border[i])).collect())
    }
    fn num_text(&self) -> String {
        if self.idx > 0 {
            format!("#{}", self.idx)
        } else if self.num.is_empty() {
            "#0".into()
        } else {
            format!("{:?}", self.num)
        }
    }
    /// The style record of a cell.
    pub fn record(&self) -> String {
        let (fill, has_fill) = self.fill();
        let mut a: Vec<String> = vec![format!(" xfId={}", self.link as u8)];
        if self.quote {
            a.push(" quotePrefix=1".into());
        }
        if !self.num.is_empty() || self.idx > 0 {
            a.push(" applyNumberFormat=1".into());
        }
        if !self.font_default() && !self.link {
            a.push(" applyFont=1".into());
        }
        if has_fill {
            a.push(" applyFill=1".into());
        }
        if !self.border_default() {
            a.push(" applyBorder=1".into());
        }
        let aligned = self.halign > 0 || self.indent > 0 || self.rot != 0 || self.wrap || self.shrink || self.reading > 0;
        if aligned || self.valign > 0 || self.link {
            a.push(" applyAlignment=1".into());
        }
        let protect = self.hidden || !self.locked;
        if protect || self.link {
            a.push(" applyProtection=1".into());
        }
        a.sort();
        let mut kids = String::new();
        if aligned || (self.valign > 0 && self.valign != 2) {
            let mut v: Vec<(&str, String)> = vec![];
            let mut h = self.halign;
            if self.indent > 0 && !matches!(h, 1 | 3 | 7) && !matches!(self.valign, 1 | 2) {
                h = 1;
            }
            if h > 0 {
                v.push(("horizontal", ["", "left", "center", "right", "fill", "justify", "centerContinuous", "distributed"][h as usize % 8].into()));
            }
            if self.valign > 0 && self.valign != 2 {
                v.push(("vertical", ["", "top", "", "center", "justify", "distributed"][self.valign as usize % 6].into()));
            }
            if self.indent > 0 {
                v.push(("indent", self.indent.to_string()));
            }
            if self.rot != 0 {
                v.push(("textRotation", self.rot.to_string()));
            }
            if self.wrap {
                v.push(("wrapText", "1".into()));
            }
            if self.shrink && !self.wrap && !matches!(h, 4 | 5 | 7) {
                v.push(("shrinkToFit", "1".into()));
            }
            if self.reading > 0 {
                v.push(("readingOrder", self.reading.to_string()));
            }
            v.sort();
            let v: Vec<(&str, &str)> = v.iter().map(|(k, x)| (*k, x.as_str())).collect();
            kids.push(' ');
            kids.push_str(&nd("alignment", &v, vec![]).flat());
        }
        if protect {
            let mut v = vec![];
            if self.hidden {
                v.push(("hidden", "1"));
            }
            if !self.locked {
                v.push(("locked", "0"));
            }
            kids.push(' ');
            kids.push_str(&nd("protection", &v, vec![]).flat());
        }
        if self.checkbox {
            kids.push_str(" checkbox");
        }
        format!("font {} | {} | {} | num {} |{} |{kids}", self.font(), fill.flat(), self.border_node().flat(), self.num_text(), a.concat())
    }
    /// The record of a format that changes cells, of a conditional format or
    /// a table column.
    pub fn dxf(&self) -> String {
        let mut r = String::new();
        if self.bold || self.italic || self.strike || self.underline > 0 || self.color.is_some() {
            let mut v = self.marks();
            if let Some(c) = &self.color {
                v.push(format!("color={}", M::color_text(c)));
            }
            v.sort();
            r.push_str(&format!("font {} | ", v.join(";")));
        }
        if !self.num.is_empty() || self.idx > 0 {
            let code = if self.idx > 0 { builtin_code(self.idx).to_string() } else { self.num.clone() };
            r.push_str(&format!("num {code:?} | "));
        }
        if self.pattern > 0 || self.bg.is_some() || self.fg.is_some() {
            let p = PATTERNS[self.pattern as usize % 19];
            let n = if self.bg.is_none() && self.fg.is_none() {
                nd("fill", &[], vec![nd("patternFill", &[("patternType", p)], vec![])])
            } else {
                let mut kids = vec![];
                if let Some(f) = &self.fg {
                    kids.push(color_node("fgColor", f));
                }
                kids.push(self.bg.map_or(nd("bgColor", &[("indexed", "64")], vec![]), |b| color_node("bgColor", &b)));
                let a = [("patternType", p)];
                nd("fill", &[], vec![nd("patternFill", if self.pattern <= 1 { &[] } else { &a }, kids)])
            };
            r.push_str(&format!("{} | ", n.flat()));
        }
        if !self.border_default() {
            let n = ["left", "right", "top", "bottom"];
            let mut kids: Vec<Node> = (0..4).map(|i| M::side(n[i], &self.border[i])).collect();
            kids.push(nd("vertical", &[], vec![]));
            kids.push(nd("horizontal", &[], vec![]));
            r.push_str(&format!("{} | ", nd("border", self.diag_attrs(), kids).flat()));
        }
        if self.checkbox {
            r.push_str("checkbox | ");
        }
        r
    }
}
fn builtin_code(i: u8) -> &'static str {
    match i {
        1 => "0",
        2 => "0.00",
        3 => "#,##0",
        4 => "#,##0.00",
        9 => "0%",
        10 => "0.00%",
        14 => "m/d/yy",
        22 => "m/d/yy h:mm",
        37 => "(#,##0_);(#,##0)",
        44 => "_($* #,##0.00_);_($* (#,##0.00);_($* \"-\"??_);_(@_)",
        49 => "@",
        _ => "?",
    }
}

// ---------------------------------------------------------------------------
// Cells.
// ---------------------------------------------------------------------------
/// Functions that need a prefix in a file: the name and the kind of prefix.
const FUTURE: &[(&str, u8)] = &[
    ("CONCAT", 0), ("STDEV.S", 0), ("IFS", 0), ("UNIQUE", 1), ("SEQUENCE", 1), ("XLOOKUP", 1), ("SORT", 2), ("FILTER", 2), ("TEXTJOIN", 0), ("RANK.EQ", 0), ("ISOWEEKNUM", 0),
];
/// The text of a formula in a file, and whether its result can spill.
pub fn formula_text(f: &str) -> (String, bool) {
    let mut f = f;
    if let Some(x) = f.strip_prefix('{') {
        f = x.strip_suffix('}').unwrap_or(x);
    }
    f = f.strip_prefix('=').unwrap_or(f);
    let c: Vec<char> = f.chars().collect();
    let done = f.contains("_xlfn.");
    let (mut out, mut dynamic) = (String::new(), false);
    let mut i = 0;
    while i < c.len() {
        let start = i;
        match c[i] {
            '"' | '\'' => {
                let q = c[i];
                i += 1;
                while i < c.len() && c[i] != q {
                    i += 1;
                }
                i = (i + 1).min(c.len());
                out.extend(&c[start..i]);
            }
            '[' => {
                let mut depth = 0;
                while i < c.len() {
                    match c[i] {
                        '\'' => i += 1,
                        '[' => depth += 1,
                        ']' => depth -= 1,
                        _ => {}
                    }
                    i += 1;
                    if depth == 0 {
                        break;
                    }
                }
                i = i.min(c.len());
                out.extend(&c[start..i]);
            }
            x if x.is_alphanumeric() || matches!(x, '_' | '\\' | '.') => {
                while i < c.len() && (c[i].is_alphanumeric() || matches!(c[i], '_' | '\\' | '.')) {
                    i += 1;
                }
                let name: String = c[start..i].iter().collect();
                if c.get(i) == Some(&'(') {
                    let bare = name.rsplit("_xlfn.").next().unwrap_or("");
                    let bare = bare.strip_prefix("_xlws.").unwrap_or(bare);
                    if let Some(x) = FUTURE.iter().find(|x| x.0 == bare) {
                        dynamic |= x.1 > 0;
                        if !done {
                            out.push_str(if x.1 == 2 { "_xlfn._xlws." } else { "_xlfn." });
                        }
                    }
                }
                out.push_str(&name);
            }
            x => {
                out.push(x);
                i += 1;
            }
        }
    }
    // How escapes in formulas are read is not settled.
    (unescape(&out), dynamic)
}
fn result_text(r: &str) -> String {
    match r.parse::<f64>() {
        Ok(x) => format!("n {:?}", format!("{x:?}")),
        _ => match r {
            "#DIV/0!" | "#N/A" | "#NAME?" | "#NULL!" | "#NUM!" | "#REF!" | "#VALUE!" | "#GETTING_DATA" => format!("e {r:?}"),
            "TRUE" => "b \"1\"".into(),
            "FALSE" => "b \"0\"".into(),
            _ => format!("str {r:?}"),
        },
    }
}
/// The serial number of a date.
pub fn serial(y: i64, m: i64, d: i64, secs: i64) -> f64 {
    // Days from civil.
    let yy = if m <= 2 { y - 1 } else { y };
    let era = yy.div_euclid(400);
    let yoe = yy - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    let days = era * 146097 + doe - 719468;
    let mut s = days + 25569;
    if s < 61 {
        s -= 1;
    }
    s as f64 + secs as f64 / 86400.0
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cv {
    Blank,
    Num(f64),
    Date(f64),
    Str(String),
    Rich(String),
    Bool(bool),
    Formula { text: String, res: String },
    Array { dynamic: bool, range: String, text: String, res: String },
    Pic(String),
}
impl Cv {
    fn text(&self) -> Option<String> {
        Some(match self {
            Cv::Blank => return None,
            Cv::Num(x) | Cv::Date(x) => format!("number {x:?}"),
            Cv::Str(s) => format!("text {:?}", short(s)),
            Cv::Rich(s) => format!("rich {:?}", short(s)),
            Cv::Bool(b) => format!("boolean {}", *b as u8),
            Cv::Formula { text, res } => format!("formula {text:?} result {}", result_text(res)),
            Cv::Array { dynamic, range, text, res } => format!("array{} {range} {text:?} result {}", if *dynamic { " dynamic" } else { "" }, result_text(res)),
            Cv::Pic(s) => s.clone(),
        })
    }
}
#[derive(Clone, Debug)]
pub struct MCell {
    pub v: Cv,
    pub f: M,
}
#[derive(Clone, Debug, Default)]
pub struct MRow {
    pub height: f64,
    pub f: Option<M>,
    pub hidden: bool,
    pub level: u8,
    pub collapsed: bool,
}
#[derive(Clone, Debug)]
pub struct MCol {
    pub width: f64,
    pub f: Option<M>,
    pub hidden: bool,
    pub level: u8,
    pub collapsed: bool,
}
impl Default for MCol {
    fn default() -> MCol {
        MCol { width: 8.43, f: None, hidden: false, level: 0, collapsed: false }
    }
}
#[derive(Clone, Debug)]
pub struct MLink {
    pub link: String,
    pub text: Option<String>,
    pub tip: Option<String>,
}
#[derive(Clone, Debug)]
struct MSerCol {
    field: String,
    vf: Option<M>,
    col: u16,
}
#[derive(Clone, Debug)]
struct MSer {
    next: u32,
    cols: Vec<MSerCol>,
    heads: bool,
    /// The area of its table so far.
    table: Option<(u32, u16, u16)>,
}
impl MSer {
    fn table(&self) -> Option<(Rng4, TableSpec)> {
        self.table.map(|t| (Rng4::new(t.0, t.1, self.next - 1, t.2), TableSpec { no_header: !self.heads, ..TableSpec::default() }))
    }
}
pub struct MSheet {
    pub kind: Kind,
    pub name: String,
    pub cells: BTreeMap<(u32, u16), MCell>,
    /// Rows that have, or had, cells.
    seen: BTreeSet<u32>,
    pub rows: BTreeMap<u32, MRow>,
    pub cols: BTreeMap<u16, MCol>,
    pub def_h: f64,
    pub hide_unused: bool,
    pub above: bool,
    pub left: bool,
    pub links: BTreeMap<(u32, u16), MLink>,
    sers: BTreeMap<u8, MSer>,
    default_result: String,
    nan: String,
    inf: String,
    /// The operations that are not about cells, in order.
    pub ops: Vec<SOp>,
    /// The sizes of images fitted to cells, by the number of their operation.
    pub fits: BTreeMap<usize, (f64, f64)>,
}
impl MSheet {
    fn new(kind: Kind, name: String) -> MSheet {
        MSheet {
            kind,
            name,
            cells: BTreeMap::new(),
            seen: BTreeSet::new(),
            rows: BTreeMap::new(),
            cols: BTreeMap::new(),
            def_h: 15.0,
            hide_unused: false,
            above: false,
            left: false,
            links: BTreeMap::new(),
            sers: BTreeMap::new(),
            default_result: "0".into(),
            nan: "NAN".into(),
            inf: "INF".into(),
            ops: vec![],
            fits: BTreeMap::new(),
        }
    }
    /// The size of a cell in pixels at this time.
    pub fn cell_size(&self, r: u32, c: u16, after: bool) -> (f64, f64) {
        let w = match self.cols.get(&c) {
            Some(x) if x.hidden && !after => 0.0,
            Some(x) if x.width < 1.0 => (x.width * 12.0).round(),
            Some(x) => (x.width * 7.0).round() + 5.0,
            None => 64.0,
        };
        let h = match self.rows.get(&r) {
            Some(x) if x.hidden && !after => 0.0,
            Some(x) => (x.height * 4.0 / 3.0).floor(),
            None => (self.def_h * 4.0 / 3.0).floor(),
        };
        (w, h)
    }
    /// The format of a cell written without one.
    fn crossing(&self, r: u32, c: u16) -> M {
        match (self.rows.get(&r).and_then(|x| x.f.as_ref()), self.cols.get(&c).and_then(|x| x.f.as_ref())) {
            (Some(a), Some(b)) => a.merge(b),
            _ => M::default(),
        }
    }
    fn set(&mut self, r: u32, c: u16, v: Cv, f: Option<&M>) {
        let f = match (f, &v) {
            // A blank cell always has a format argument.
            (Some(f), Cv::Blank) if *f == M::default() => self.crossing(r, c),
            (Some(f), _) => f.clone(),
            (None, _) => self.crossing(r, c),
        };
        self.cells.insert((r, c), MCell { v, f });
        self.seen.insert(r);
    }
    fn string(&mut self, r: u32, c: u16, s: &str, f: Option<&M>) {
        match (s.is_empty(), f) {
            (true, None) => {}
            (true, Some(f)) => self.set(r, c, Cv::Blank, Some(f)),
            (false, f) => self.set(r, c, Cv::Str(s.to_string()), f),
        }
    }
    fn number(&mut self, r: u32, c: u16, x: f64, f: Option<&M>) {
        if x.is_nan() {
            let s = self.nan.clone();
            self.string(r, c, &s, f);
        } else if x == f64::INFINITY {
            let s = self.inf.clone();
            self.string(r, c, &s, f);
        } else if x == f64::NEG_INFINITY {
            self.string(r, c, "-INF", f);
        } else {
            self.set(r, c, Cv::Num(x), f);
        }
    }
    fn array(&mut self, g: &Rng4, formula: &str, res: &Option<String>, f: Option<&M>, dynamic: bool) {
        let (text, d) = formula_text(formula);
        let res = res.clone().filter(|r| !r.is_empty()).unwrap_or(self.default_result.clone());
        self.set(g.r1, g.c1, Cv::Array { dynamic: dynamic || d, range: g.a1(), text, res }, f);
        for (r, c) in g.cells() {
            if (r, c) != (g.r1, g.c1) {
                self.number(r, c, 0.0, f);
            }
        }
    }
    fn formula(&mut self, r: u32, c: u16, formula: &str, res: &Option<String>, f: Option<&M>) {
        let (text, d) = formula_text(formula);
        if d {
            return self.array(&Rng4::new(r, c, r, c), formula, res, f, true);
        }
        let res = res.clone().filter(|r| !r.is_empty()).unwrap_or(self.default_result.clone());
        self.set(r, c, Cv::Formula { text, res }, f);
    }
    fn val(&mut self, r: u32, c: u16, v: &Val, f: Option<&M>, fm: &[M]) {
        match v {
            Val::Num(b) => self.number(r, c, f64::from_bits(*b), f),
            Val::Str(s) => self.string(r, c, s, f),
            Val::Bool(b) => self.set(r, c, Cv::Bool(*b), f),
            Val::Blank => self.set(r, c, Cv::Blank, Some(f.unwrap_or(&M::default()))),
            Val::Formula(s, res) => self.formula(r, c, s, res, f),
            Val::Date(y, m, d, h, mi, s) => {
                let x = serial(*y as i64, *m as i64, *d as i64, *h as i64 * 3600 + *mi as i64 * 60 + *s as i64);
                self.set(r, c, Cv::Date(x), f)
            }
            Val::Rich(segs) => {
                let mut t = String::new();
                for (i, (sf, s)) in segs.iter().enumerate() {
                    let m = sf.map_or(M::default(), |i| fm[i].clone());
                    let font = if i == 0 && m == M::default() { "-".to_string() } else { m.font() };
                    t.push_str(&format!("[{font}|{s}]"));
                }
                self.set(r, c, Cv::Rich(t), f)
            }
            Val::Url { link, text, tip } => {
                let shown = text.clone().filter(|t| !t.is_empty()).unwrap_or(link_text(link));
                let h = M::hyperlink();
                self.string(r, c, &shown, Some(f.unwrap_or(&h)));
                self.links.insert((r, c), MLink { link: link.clone(), text: text.clone(), tip: tip.clone() });
            }
        }
    }
    fn cell_fmt(&mut self, r: u32, c: u16, f: &M) {
        match self.cells.get_mut(&(r, c)) {
            Some(x) => x.f = f.clone(),
            None => {
                if self.seen.contains(&r) || *f != M::default() {
                    self.cells.insert((r, c), MCell { v: Cv::Blank, f: f.clone() });
                    self.seen.insert(r);
                }
            }
        }
    }
    fn row(&mut self, r: u32) -> &mut MRow {
        let h = self.def_h;
        self.rows.entry(r).or_insert(MRow { height: h, ..MRow::default() })
    }
    fn col(&mut self, c: u16) -> &mut MCol {
        self.cols.entry(c).or_default()
    }
    fn col_width(&mut self, c: u16, w: f64) {
        if w == 0.0 {
            self.col(c).hidden = true;
        } else {
            self.col(c).width = w.min(255.0);
        }
    }
    fn table(&mut self, g: &Rng4, t: &TableSpec, fm: &[M]) {
        let d = M::default();
        let n = (g.c2 - g.c1 + 1) as usize;
        let head = !t.no_header;
        for i in 0..n {
            let c = g.c1 + i as u16;
            let k = t.cols.get(i).cloned().unwrap_or_default();
            let f = k.fmt.map(|f| fm[f].clone());
            if head {
                let name = self.table_header(g, t, i);
                let hf = k.hfmt.map(|f| fm[f].clone());
                self.string(g.r1, c, &name, hf.as_ref());
            }
            let last = if t.total { g.r2 - 1 } else { g.r2 };
            if t.total {
                if let Some(l) = k.label.as_ref().filter(|l| !l.is_empty()) {
                    self.string(g.r2, c, l, Some(f.as_ref().unwrap_or(&d)));
                } else if k.func > 0 {
                    let x = self.table_total(g, t, i);
                    self.formula(g.r2, c, &x, &None, Some(f.as_ref().unwrap_or(&d)));
                }
            }
            let first = if head { g.r1 + 1 } else { g.r1 };
            if let Some(x) = &k.formula {
                let x = table_formula(x);
                for r in first..=last {
                    self.formula(r, c, &x, &None, Some(f.as_ref().unwrap_or(&d)));
                }
            }
            if let Some(f) = &f {
                for r in first..=last {
                    if let Some(x) = self.cells.get_mut(&(r, c)) {
                        x.f = f.clone();
                    }
                }
                if t.total && k.func > 0 {
                    if let Some(x) = self.cells.get_mut(&(g.r2, c)) {
                        x.f = f.clone();
                    }
                }
            }
        }
    }
    /// The name of a table column.
    pub fn table_header(&self, g: &Rng4, t: &TableSpec, i: usize) -> String {
        if let Some(h) = t.cols.get(i).and_then(|k| k.header.clone()).filter(|h| !h.is_empty()) {
            return h;
        }
        if !t.no_header {
            if let Some(MCell { v: Cv::Str(s), .. }) = self.cells.get(&(g.r1, g.c1 + i as u16)) {
                return s.clone();
            }
        }
        format!("Column{}", i + 1)
    }
    pub fn table_total(&self, g: &Rng4, t: &TableSpec, i: usize) -> String {
        let k = &t.cols[i];
        let n = match k.func {
            1 => 101,
            2 => 103,
            3 => 102,
            4 => 104,
            5 => 105,
            6 => 109,
            7 => 107,
            8 => 110,
            _ => return "SUM(1,2)".into(),
        };
        let name: String = self.table_header(g, t, i).chars().flat_map(|c| if matches!(c, '\'' | '#' | '[' | ']') { vec!['\'', c] } else { vec![c] }).collect();
        format!("SUBTOTAL({n},[{name}])")
    }
    fn ser(&mut self, s: &Ser, fm: &[M]) {
        match s {
            Ser::Head { kind, r, c, via, f, opts, custom, table, noheaders } => {
                let fields = crate::exec::SER_FIELDS[*kind as usize].1;
                let f = f.map(|f| fm[f].clone());
                // Header, header format, field, value format, width.
                let mut cols: Vec<(String, Option<M>, String, Option<M>, u16)> = vec![];
                if *via == 6 && *kind == 2 {
                    cols.push(("Gamma name".into(), None, "name".into(), None, 0));
                    cols.push(("id".into(), None, "id".into(), Some(M { bold: true, ..M::default() }), 0));
                } else if matches!(via, 0 | 1 | 3 | 4) {
                    let hf = if matches!(via, 1 | 4) { f.clone().unwrap_or(fm[0].clone()) } else { M::default() };
                    cols.extend(fields.iter().map(|x| (x.to_string(), Some(hf.clone()), x.to_string(), None, 0)));
                } else {
                    let one = |o: &SerField| {
                        (
                            o.rename.clone().unwrap_or(o.field.clone()),
                            o.hf.map(|i| fm[i].clone()).or(f.clone()),
                            o.field.clone(),
                            o.vf.map(|i| fm[i].clone()),
                            o.width2,
                        )
                    };
                    if *custom {
                        cols.extend(opts.iter().filter(|o| !o.skip).map(one));
                    } else {
                        for x in fields {
                            match opts.iter().find(|o| o.field == *x) {
                                Some(o) if o.skip => {}
                                Some(o) => cols.push(one(o)),
                                None => cols.push((x.to_string(), f.clone(), x.to_string(), None, 0)),
                            }
                        }
                    }
                }
                let heads = !(*noheaders && matches!(via, 2 | 5));
                let mut v = vec![];
                for (i, (head, hf, field, vf, w)) in cols.into_iter().enumerate() {
                    let cc = c + i as u16;
                    if heads {
                        self.string(*r, cc, &head, hf.as_ref());
                    }
                    if w > 0 {
                        self.col_width(cc, w as f64 / 2.0);
                    }
                    v.push(MSerCol { field, vf, col: cc });
                }
                let t = if *table && matches!(via, 2 | 5) { Some((*r, *c, *c + v.len() as u16 - 1)) } else { None };
                // The records of an earlier registration keep their table.
                if let Some((g, t)) = self.sers.get(kind).and_then(MSer::table) {
                    self.add_table(&g, &t);
                }
                self.sers.insert(*kind, MSer { next: if heads { r + 1 } else { *r }, cols: v, heads, table: t });
            }
            Ser::Rec { kind, n, s, b, o } => match kind {
                0 => self.record(
                    0,
                    &[("Number", Val::n(*n as f64)), ("Text", Val::s(s)), ("Flag", Val::Bool(*b)), ("Maybe", o.map_or(Val::s(""), |o| Val::n(o as f64)))],
                    fm,
                ),
                1 => self.record(1, &[("text", Val::s(s)), ("ratio", Val::n(*n as f64 / 8.0)), ("The Number", Val::n(o.unwrap_or(7) as f64))], fm),
                _ => self.record(2, &[("id", Val::n(*n as u8 as f64)), ("name", Val::s(s))], fm),
            },
            Ser::Vecs { n, s } => {
                for (n, s) in n.iter().zip(s) {
                    self.record(1, &[("text", Val::s(s)), ("ratio", Val::n(*n as f64)), ("The Number", Val::n(n.wrapping_mul(2) as f64))], fm);
                }
            }
        }
    }
    fn record(&mut self, kind: u8, vals: &[(&str, Val)], fm: &[M]) {
        let Some(mut s) = self.sers.remove(&kind) else { return };
        for k in &s.cols {
            if let Some((_, v)) = vals.iter().find(|v| v.0 == k.field) {
                self.val(s.next, k.col, v, k.vf.as_ref(), fm);
            }
        }
        s.next += 1;
        self.sers.insert(kind, s);
    }
    /// Tables of serialized records.
    pub fn ser_tables(&self) -> Vec<(Rng4, TableSpec)> {
        let mut v: Vec<_> = self.sers.values().filter_map(MSer::table).collect();
        v.sort_by_key(|g| (g.0.r1, g.0.c1));
        v
    }
    /// A table whose headers are those of now.
    pub fn resolved(&self, g: &Rng4, t: &TableSpec) -> TableSpec {
        let mut t2 = t.clone();
        let n = (g.c2 - g.c1 + 1) as usize;
        t2.cols.resize(n, TCol::default());
        for i in 0..n {
            t2.cols[i].header = Some(self.table_header(g, t, i));
        }
        t2
    }
    fn add_table(&mut self, g: &Rng4, t: &TableSpec) {
        let t2 = self.resolved(g, t);
        self.ops.push(SOp::Table { g: g.clone(), t: t2 });
    }
}
pub fn table_formula(f: &str) -> String {
    let (f, _) = (f.strip_prefix('=').unwrap_or(f), 0);
    let mut s = String::new();
    let mut q = false;
    for c in f.chars() {
        if c == '"' {
            q = !q;
        }
        if c == '@' && !q {
            s.push_str("[#This Row],");
        } else {
            s.push(c);
        }
    }
    s
}
/// What a cell with a link shows.
pub fn link_text(l: &str) -> String {
    for p in ["mailto:", "internal:", "file:///", "file://"] {
        if let Some(x) = l.strip_prefix(p) {
            return x.to_string();
        }
    }
    l.to_string()
}

pub struct Model {
    pub fm: Vec<M>,
    pub fmts: Vec<Fmt>,
    pub sheets: Vec<MSheet>,
    pub order: Vec<usize>,
    added: [usize; 2],
    /// Workbook operations, in order.
    pub ops: Vec<Op>,
}
impl Model {
    pub fn new(p: &Program) -> Model {
        Model { fm: p.fmts.iter().map(M::of).collect(), fmts: p.fmts.clone(), sheets: vec![], order: vec![], added: [0; 2], ops: vec![] }
    }
    pub fn step(&mut self, op: &Op) {
        match op {
            Op::Add { kind, how, name } => {
                // Only the sheets of add_worksheet() and its kin are counted.
                let chart = (*kind == Kind::Chart) as usize;
                self.added[chart] += (*how == 0) as usize;
                let same = self.added[chart];
                let n = match (name, how, kind) {
                    (Some(n), ..) => n.clone(),
                    (None, 0, Kind::Chart) => format!("Chart{same}"),
                    (None, 0, _) => format!("Sheet{same}"),
                    (None, ..) => format!("Sheet{}", self.sheets.len() + 1),
                };
                self.order.push(self.sheets.len());
                self.sheets.push(MSheet::new(*kind, n));
            }
            Op::S(h, s) => {
                let fm = self.fm.clone();
                self.sheet(*h, s, &fm);
            }
            Op::Par(v) => {
                let fm = self.fm.clone();
                for (h, l) in v {
                    for s in l {
                        self.sheet(*h, s, &fm);
                    }
                }
            }
            Op::Swap(a, b) => {
                let f = |x: usize| self.order.iter().position(|y| *y == x);
                if let (Some(i), Some(j)) = (f(*a), f(*b)) {
                    self.order.swap(i, j);
                }
            }
            Op::SortSheets => {
                let n: Vec<String> = self.sheets.iter().map(|s| s.name.clone()).collect();
                self.order.sort_by_key(|h| n[*h].clone());
            }
            Op::Save(_) => {}
            _ => self.ops.push(op.clone()),
        }
    }
    fn sheet(&mut self, h: usize, s: &SOp, fm: &[M]) {
        let fmts = &self.fmts;
        let Some(w) = self.sheets.get_mut(h) else { return };
        let g = |f: &Option<usize>| f.map(|f| &fm[f]);
        match s {
            SOp::Cell { r, c, v, f, .. } => w.val(*r, *c, v, g(f), fm),
            SOp::RowVals { r, c, v, f } => {
                for (i, v) in v.iter().enumerate() {
                    w.val(*r, c + i as u16, v, g(f), fm);
                }
            }
            SOp::ColVals { r, c, v, f } => {
                for (i, v) in v.iter().enumerate() {
                    w.val(r + i as u32, *c, v, g(f), fm);
                }
            }
            SOp::Matrix { r, c, v, cols } => {
                for (i, l) in v.iter().enumerate() {
                    for (j, x) in l.iter().enumerate() {
                        let (a, b) = if *cols { (r + j as u32, c + i as u16) } else { (r + i as u32, c + j as u16) };
                        w.number(a, b, *x as f64, None);
                    }
                }
            }
            SOp::Array { g: a, formula, res, f, dynamic } => w.array(a, formula, res, g(f), *dynamic),
            SOp::Merge { g: a, text, f } => {
                w.string(a.r1, a.c1, text, Some(&fm[*f]));
                for (r, c) in a.cells() {
                    if (r, c) != (a.r1, a.c1) {
                        w.set(r, c, Cv::Blank, Some(&fm[*f]));
                    }
                }
                w.ops.push(s.clone());
            }
            SOp::CellFmt { r, c, f } => w.cell_fmt(*r, *c, &fm[*f]),
            SOp::RangeFmt { g: a, f } => {
                for (r, c) in a.cells() {
                    w.cell_fmt(r, c, &fm[*f]);
                }
            }
            SOp::RangeBorder { g: a, f, b } => {
                for (r, c) in a.cells() {
                    let mut m = fm[*f].clone();
                    let b = &fm[*b].border;
                    if c == a.c1 {
                        m.border[0] = b[0];
                    }
                    if c == a.c2 {
                        m.border[1] = b[1];
                    }
                    if r == a.r1 {
                        m.border[2] = b[2];
                    }
                    if r == a.r2 {
                        m.border[3] = b[3];
                    }
                    w.cell_fmt(r, c, &m);
                }
            }
            SOp::Clear { r, c } => {
                w.cells.remove(&(*r, *c));
            }
            SOp::ClearFmt { r, c } => {
                if let Some(x) = w.cells.get_mut(&(*r, *c)) {
                    x.f = M::default();
                }
            }
            SOp::SetResult { r, c, res } => {
                if let Some(MCell { v: Cv::Formula { res: x, .. } | Cv::Array { res: x, .. }, .. }) = w.cells.get_mut(&(*r, *c)) {
                    *x = res.clone();
                }
            }
            SOp::ResultDefault(t) => w.default_result = t.clone(),
            SOp::NanText(t) => w.nan = t.clone(),
            SOp::InfText(t) => w.inf = t.clone(),
            SOp::Check { r, c, b, f } => {
                let mut fm2 = f.map_or(Fmt::default(), |f| fmts[f].clone());
                fm2.checkbox = true;
                w.set(*r, *c, Cv::Bool(*b), Some(&M::of(&fm2)));
            }
            SOp::Embed { r, c, img, f } => {
                let mut v = vec![(if img.decorative { "6" } else { "5" }).to_string()];
                if let Some(a) = &img.alt {
                    v.push(a.clone());
                }
                let pic = Cv::Pic(format!("picture {:016x} {v:?}", hash_bytes(&img_bytes(img))));
                let h = M::hyperlink();
                let mut f = g(f);
                if let Some(u) = &img.url {
                    w.links.insert((*r, *c), MLink { link: u.clone(), text: None, tip: img.tip.clone() });
                    f = f.or(Some(&h));
                }
                w.set(*r, *c, pic, f);
            }
            SOp::RowH { r, h4 } => {
                if *h4 == 0 {
                    w.row(*r).hidden = true;
                } else {
                    w.row(*r).height = *h4 as f64 / 4.0;
                }
            }
            SOp::RowFmt { r, f } => w.row(*r).f = Some(fm[*f].clone()),
            SOp::RowHide { r, on } => {
                if *on {
                    w.row(*r).hidden = true;
                } else if let Some(x) = w.rows.get_mut(r) {
                    x.hidden = false;
                }
            }
            SOp::RowGroup { r1, r2, collapsed } => {
                for r in *r1..=*r2 {
                    let x = w.row(r);
                    x.level += 1;
                    x.hidden |= *collapsed;
                }
                if *collapsed {
                    w.row(r2 + 1).collapsed = true;
                }
            }
            SOp::ColW { c1, c2, w4 } => (*c1..=*c2).for_each(|c| w.col_width(c, *w4 as f64 / 4.0)),
            SOp::ColFmt { c1, c2, f } => (*c1..=*c2).for_each(|c| w.col(c).f = Some(fm[*f].clone())),
            SOp::ColHide { c1, c2 } => (*c1..=*c2).for_each(|c| w.col(c).hidden = true),
            SOp::ColGroup { c1, c2, collapsed } => {
                for c in *c1..=*c2 {
                    let x = w.col(c);
                    x.level += 1;
                    x.hidden |= *collapsed;
                }
                if *collapsed {
                    w.col(c2 + 1).collapsed = true;
                }
            }
            SOp::DefaultRowH(h4) => {
                if *h4 > 0 {
                    w.def_h = *h4 as f64 / 4.0;
                }
            }
            SOp::HideUnused(b) => w.hide_unused = *b,
            SOp::SymAbove(b) => w.above = *b,
            SOp::SymLeft(b) => w.left = *b,
            SOp::Table { g: a, t } => {
                w.add_table(a, t);
                w.table(a, t, fm);
            }
            SOp::Ser(x) => w.ser(x, fm),
            SOp::ImageFit { r, c, img, keep } => {
                let own = |n: u16| n as f64 * 96.0 / img_dpi(img);
                let (iw, ih) = (own(img.w), own(img.h));
                let (cw, chh) = w.cell_size(*r, *c, img.mov == 4);
                let (mut sx, mut sy) = (cw / iw, chh / ih);
                if cw == 0.0 || chh == 0.0 {
                    let s = if img.scale > 0 { img.scale as f64 / 100.0 } else { 1.0 };
                    (sx, sy) = (s, s);
                } else if *keep {
                    sx = sx.min(sy);
                    sy = sx;
                }
                w.fits.insert(w.ops.len(), (iw * sx, ih * sy));
                w.ops.push(s.clone());
            }
            SOp::State(State::Name(n)) => w.name = n.clone(),
            _ => w.ops.push(s.clone()),
        }
    }
    pub fn facts(&self) -> Facts {
        let mut out = Facts::new();
        self.cells(&mut out);
        self.ranges(&mut out);
        self.book(&mut out);
        for v in out.values_mut() {
            v.sort();
        }
        out
    }
    fn cells(&self, out: &mut Facts) {
        let def = M::default().record();
        for (i, h) in self.order.iter().enumerate() {
            let w = &self.sheets[*h];
            if w.kind == Kind::Chart {
                continue;
            }
            let at = format!("sheet {i} {:?}", w.name);
            for ((r, c), x) in &w.cells {
                if let Some(t) = x.v.text() {
                    put(out, "cell", format!("{at} {}: {t}", a1(*r, *c)));
                }
                let mut f = x.f.clone();
                if f == M::default() {
                    f = w.rows.get(r).and_then(|x| x.f.clone()).unwrap_or_default();
                }
                if f == M::default() {
                    f = w.cols.get(c).and_then(|x| x.f.clone()).unwrap_or_default();
                }
                let rec = f.record();
                if rec != def {
                    put(out, "fmt", format!("{at} {}: {rec}", a1(*r, *c)));
                }
            }
            for (r, x) in &w.rows {
                let mut d = String::new();
                if x.height != w.def_h {
                    d.push_str(&format!(" height {}", x.height));
                }
                if x.hidden {
                    d.push_str(" hidden");
                }
                if x.level > 0 {
                    d.push_str(&format!(" level {}", x.level));
                }
                if x.collapsed {
                    d.push_str(" collapsed");
                }
                if !d.is_empty() {
                    put(out, "rowcol", format!("{at} row {}{d}", r + 1));
                }
                let rec = x.f.clone().unwrap_or_default().record();
                if rec != def {
                    put(out, "fmt", format!("{at} row {}: {rec}", r + 1));
                }
            }
            for (c, x) in &w.cols {
                let mut d = String::new();
                if x.width != 8.43 || x.hidden {
                    d.push_str(&format!(" width {}", file_width(x.width, x.hidden)));
                }
                if x.hidden {
                    d.push_str(" hidden");
                }
                if x.level > 0 {
                    d.push_str(&format!(" level {}", x.level));
                }
                if x.collapsed {
                    d.push_str(" collapsed");
                }
                if !d.is_empty() {
                    put(out, "rowcol", format!("{at} column {}{d}", col_name(*c)));
                }
                let rec = x.f.clone().unwrap_or_default().record();
                if rec != def {
                    put(out, "fmt", format!("{at} column {}: {rec}", col_name(*c)));
                }
            }
            put(out, "rowcol", format!("{at} default height {} custom {} hidden {}", w.def_h, w.def_h != 15.0, w.hide_unused));
            if w.above {
                put(out, "rowcol", format!("{at} symbols above"));
            }
            if w.left {
                put(out, "rowcol", format!("{at} symbols left"));
            }
        }
    }
}
/// The width of a column in a file, from its width in characters.
fn file_width(w: f64, hidden: bool) -> f64 {
    if hidden && w == 8.43 {
        return 0.0;
    }
    if w < 1.0 {
        ((w * 12.0).round() / 7.0 * 256.0).floor() / 256.0
    } else {
        (((w * 7.0).round() + 5.0) / 7.0 * 256.0).floor() / 256.0
    }
}

/// The first difference between what a file must show and what it shows.
pub fn differ(cats: &[&str], want: &Facts, got: &Facts) -> Option<String> {
    let open: BTreeSet<&str> = want.get("open").into_iter().flatten().map(|s| s.as_str()).collect();
    for c in cats {
        let (mut a, mut b): (BTreeMap<&str, i64>, BTreeMap<&str, i64>) = Default::default();
        for s in want.get(c).into_iter().flatten() {
            *a.entry(s).or_default() += 1;
        }
        // What the model leaves open isn't compared.
        for s in got.get(c).into_iter().flatten().filter(|s| !open.contains(s.as_str())) {
            *b.entry(s).or_default() += 1;
        }
        let missing = a.iter().find(|(k, n)| b.get(*k).copied().unwrap_or(0) < **n);
        let extra = b.iter().find(|(k, n)| a.get(*k).copied().unwrap_or(0) < **n);
        match (missing, extra) {
            (None, None) => {}
            (Some(m), Some(e)) => return Some(format!("expected: {}\n      found: {}", m.0, e.0)),
            (Some(m), None) => return Some(format!("missing: {}", m.0)),
            (None, Some(e)) => return Some(format!("not expected: {}", e.0)),
        }
    }
    None
}
pub fn count(cats: &[&str], f: &Facts) -> u64 {
    cats.iter().map(|c| f.get(c).map_or(0, |v| v.len() as u64)).sum()
}
pub fn ok(o: Option<&Out>) -> bool {
    o.is_some_and(|o| o.ok())
}
