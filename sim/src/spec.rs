//! Programs: histories of library calls as data, so that they can be
//! generated, executed, interpreted by the reference model, minimised and
//! stored in replay files.
use serde::{Deserialize, Serialize};

/// A cell format. `None`/0/false means "not set".
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct Fmt {
    #[serde(skip_serializing_if = "Option::is_none")]
    pub num: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub num_idx: Option<u8>,
    #[serde(skip_serializing_if = "is_false")]
    pub bold: bool,
    #[serde(skip_serializing_if = "is_false")]
    pub italic: bool,
    #[serde(skip_serializing_if = "is_false")]
    pub strike: bool,
    #[serde(skip_serializing_if = "is_zero")]
    pub underline: u8,
    #[serde(skip_serializing_if = "is_zero")]
    pub script: u8,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub color: Option<Col>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub name: Option<String>,
    /// Half points.
    #[serde(skip_serializing_if = "Option::is_none")]
    pub size2: Option<u16>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub family: Option<u8>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub charset: Option<u8>,
    /// 1 left .. 7 distributed, as in `FormatAlign`.
    #[serde(skip_serializing_if = "is_zero")]
    pub halign: u8,
    /// 1 top, 2 bottom, 3 center, 4 justify, 5 distributed.
    #[serde(skip_serializing_if = "is_zero")]
    pub valign: u8,
    #[serde(skip_serializing_if = "is_false")]
    pub wrap: bool,
    #[serde(skip_serializing_if = "is_false")]
    pub shrink: bool,
    #[serde(skip_serializing_if = "is_zero")]
    pub indent: u8,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub rot: Option<i16>,
    #[serde(skip_serializing_if = "is_zero")]
    pub reading: u8,
    #[serde(skip_serializing_if = "is_zero")]
    pub pattern: u8,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub bg: Option<Col>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub fg: Option<Col>,
    /// left, right, top, bottom, diagonal: style and colour.
    #[serde(skip_serializing_if = "no_border")]
    pub border: [(u8, Option<Col>); 5],
    /// 1 up, 2 down, 3 both.
    #[serde(skip_serializing_if = "is_zero")]
    pub diag: u8,
    #[serde(skip_serializing_if = "is_false")]
    pub unlocked: bool,
    #[serde(skip_serializing_if = "is_false")]
    pub hidden: bool,
    #[serde(skip_serializing_if = "is_false")]
    pub quote: bool,
    #[serde(skip_serializing_if = "is_false")]
    pub checkbox: bool,
    #[serde(skip_serializing_if = "is_false")]
    pub hyperlink: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Col {
    Rgb(u32),
    Theme(u8, u8),
}
fn is_false(b: &bool) -> bool {
    !*b
}
fn is_zero(b: &u8) -> bool {
    *b == 0
}
fn no_border(b: &[(u8, Option<Col>); 5]) -> bool {
    b.iter().all(|x| x.0 == 0 && x.1.is_none())
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Val {
    /// The bits of a double.
    Num(u64),
    Str(String),
    Bool(bool),
    Blank,
    Formula(String, Option<String>),
    /// year, month, day, hour, minute, second
    Date(u16, u8, u8, u8, u8, u8),
    Rich(Vec<(Option<usize>, String)>),
    Url { link: String, text: Option<String>, tip: Option<String> },
}
impl Val {
    pub fn n(x: f64) -> Val {
        Val::Num(x.to_bits())
    }
    pub fn s(x: &str) -> Val {
        Val::Str(x.to_string())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    Std,
    Low,
    Const,
    Chart,
}

/// An image: content is a function of `id`, so equal ids are equal bytes.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Img {
    pub id: u32,
    /// 0 png, 1 jpeg, 2 gif, 3 bmp
    pub ty: u8,
    pub w: u16,
    pub h: u16,
    #[serde(default)]
    pub alt: Option<String>,
    #[serde(default)]
    pub decorative: bool,
    #[serde(default)]
    pub url: Option<String>,
    #[serde(default)]
    pub tip: Option<String>,
    /// Read it from a file through the simulated file system.
    #[serde(default)]
    pub from_file: bool,
    /// Movement option 0..3, 0 = default.
    #[serde(default)]
    pub mov: u8,
    /// Scale in percent, 0 = unset.
    #[serde(default)]
    pub scale: u16,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Rng4 {
    pub r1: u32,
    pub c1: u16,
    pub r2: u32,
    pub c2: u16,
}
impl Rng4 {
    pub fn new(r1: u32, c1: u16, r2: u32, c2: u16) -> Rng4 {
        Rng4 { r1, c1, r2, c2 }
    }
    pub fn has(&self, r: u32, c: u16) -> bool {
        r >= self.r1 && r <= self.r2 && c >= self.c1 && c <= self.c2
    }
    pub fn hits(&self, o: &Rng4) -> bool {
        self.r1 <= o.r2 && o.r1 <= self.r2 && self.c1 <= o.c2 && o.c1 <= self.c2
    }
    pub fn a1(&self) -> String {
        a1_range(self.r1, self.c1, self.r2, self.c2)
    }
    pub fn single(&self) -> bool {
        self.r1 == self.r2 && self.c1 == self.c2
    }
    pub fn cells(&self) -> Vec<(u32, u16)> {
        let mut v = vec![];
        for r in self.r1..=self.r2 {
            for c in self.c1..=self.c2 {
                v.push((r, c));
            }
        }
        v
    }
}

/// A reference to cells of a sheet given by handle.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Ref {
    pub h: usize,
    pub g: Rng4,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Series {
    pub vals: Ref,
    #[serde(default)]
    pub cats: Option<Ref>,
    #[serde(default)]
    pub name: Option<String>,
    #[serde(default)]
    pub name_ref: Option<Ref>,
    #[serde(default)]
    pub second: bool,
    #[serde(default)]
    pub color: Option<u32>,
    /// Custom data labels taken from cells or text.
    #[serde(default)]
    pub label_refs: Vec<Ref>,
    #[serde(default)]
    pub err_ref: Option<(Ref, Ref)>,
    #[serde(default)]
    pub trend: u8,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ChartSpec {
    /// Index in `CHART_TYPES`.
    pub ty: u8,
    pub series: Vec<Series>,
    #[serde(default)]
    pub title: Option<String>,
    #[serde(default)]
    pub title_ref: Option<Ref>,
    /// x, y, x2, y2 axis names.
    #[serde(default)]
    pub axis: [Option<String>; 4],
    #[serde(default)]
    pub axis_ref: [Option<Ref>; 4],
    #[serde(default)]
    pub alt: Option<String>,
    #[serde(default)]
    pub name: Option<String>,
    #[serde(default)]
    pub style: u8,
    #[serde(default)]
    pub w: u16,
    #[serde(default)]
    pub h: u16,
    #[serde(default)]
    pub combine: Option<Box<ChartSpec>>,
    #[serde(default)]
    pub mov: u8,
    #[serde(default)]
    pub legend: u8,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct TCol {
    pub header: Option<String>,
    pub formula: Option<String>,
    /// 0 none, 1..8 as in TableFunction, 9 custom
    pub func: u8,
    pub label: Option<String>,
    pub fmt: Option<usize>,
    pub hfmt: Option<usize>,
}
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct TableSpec {
    pub name: Option<String>,
    pub cols: Vec<TCol>,
    pub no_header: bool,
    pub total: bool,
    pub no_filter: bool,
    pub no_banded: bool,
    pub banded_cols: bool,
    pub first: bool,
    pub last: bool,
    /// 0 default (medium 9), 1 none, 2.. a choice of styles
    pub style: u8,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Cf {
    /// rule 0..7 (=,!=,>,>=,<,<=,between,not between)
    Cell { rule: u8, a: i32, b: i32 },
    CellText { rule: u8, a: String },
    Blank { invert: bool },
    Error { invert: bool },
    Dup { invert: bool },
    Formula { f: String },
    Average { rule: u8 },
    Top { rule: u8, n: u16 },
    Text { rule: u8, s: String },
    Date { rule: u8 },
    Two { min: Option<i32>, max: Option<i32>, c1: u32, c2: u32 },
    Three { min: Option<i32>, mid: Option<i32>, max: Option<i32>, c1: u32, c2: u32, c3: u32 },
    Bar { color: u32, classic: bool, solid: bool, only: bool, dir: u8, min: Option<i32>, max: Option<i32>, #[serde(default)] opt: u8 },
    /// Type index in ICONS.
    /// Custom rules: 1 also a custom icon, 2 rules only, +4 with "greater than".
    Icons { ty: u8, rev: bool, only: bool, custom: u8 },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct CfSpec {
    pub cf: Cf,
    #[serde(default)]
    pub f: Option<usize>,
    #[serde(default)]
    pub stop: bool,
    #[serde(default)]
    pub multi: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum DvRule {
    Whole(u8, i32, i32),
    WholeF(u8, String, String),
    Decimal(u8, i32, i32),
    List(Vec<String>),
    ListF(String),
    Date(u8, (u16, u8, u8), (u16, u8, u8)),
    Len(u8, u32, u32),
    Custom(String),
    Any,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct DvSpec {
    pub rule: DvRule,
    #[serde(default)]
    pub in_title: Option<String>,
    #[serde(default)]
    pub in_msg: Option<String>,
    #[serde(default)]
    pub err_title: Option<String>,
    #[serde(default)]
    pub err_msg: Option<String>,
    /// 0 stop 1 warning 2 information
    #[serde(default)]
    pub style: u8,
    #[serde(default)]
    pub no_blank: bool,
    #[serde(default)]
    pub no_drop: bool,
    #[serde(default)]
    pub no_in: bool,
    #[serde(default)]
    pub no_err: bool,
    #[serde(default)]
    pub multi: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FilterSpec {
    List { strs: Vec<String>, nums: Vec<i32>, blanks: bool },
    Custom { c1: u8, v1: FV, second: Option<(u8, FV)>, or: bool },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FV {
    N(i32),
    S(String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SparkSpec {
    pub data: Ref,
    /// 0 line 1 column 2 winloss
    pub ty: u8,
    #[serde(default)]
    pub flags: u16,
    #[serde(default)]
    pub style: u8,
    #[serde(default)]
    pub color: Option<u32>,
    #[serde(default)]
    pub weight4: u16,
    #[serde(default)]
    pub max: Option<i32>,
    #[serde(default)]
    pub min: Option<i32>,
    #[serde(default)]
    pub empty: u8,
    #[serde(default)]
    pub dates: Option<Ref>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum View {
    Zoom(u16),
    Freeze(u32, u16),
    FreezeTop(u32, u16),
    Selection(Rng4),
    TopLeft(u32, u16),
    Rtl(bool),
    Gridlines(bool),
    Layout,
    BreakPreview,
    Normal,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Print {
    Area(Rng4),
    RepeatRows(u32, u32),
    RepeatCols(u16, u16),
    Landscape,
    Portrait,
    Paper(u8),
    PageOrder(bool),
    Header(String),
    Footer(String),
    ScaleWithDoc(bool),
    AlignWithPage(bool),
    /// In 1/100 inch: left, right, top, bottom, header, footer.
    Margins([u16; 6]),
    FirstPage(u16),
    Scale(u16),
    Fit(u16, u16),
    CenterH(bool),
    CenterV(bool),
    Gridlines(bool),
    BlackWhite(bool),
    Draft(bool),
    Headings(bool),
    Breaks(Vec<u32>),
    VBreaks(Vec<u32>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum State {
    Active(bool),
    Selected(bool),
    Hidden(bool),
    VeryHidden(bool),
    First(bool),
    TabColor(u32),
    Name(String),
}

/// Calls that the documentation says are rejected.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Bad {
    NumLimit { row: bool },
    StrLimit,
    StrLong { r: u32, c: u16 },
    RichEmpty { r: u32, c: u16 },
    RichEmptySeg { r: u32, c: u16 },
    RichLong { r: u32, c: u16 },
    FormulaLimit,
    ArrayOrder { g: Rng4 },
    ArrayLimit,
    BoolLimit,
    BlankLimit,
    UrlBad { r: u32, c: u16 },
    UrlLong { r: u32, c: u16 },
    UrlTipLong { r: u32, c: u16 },
    MergeOrder { g: Rng4 },
    MergeSingle { r: u32, c: u16 },
    MergeLimit,
    /// Overlaps an existing merged range or table.
    MergeOverlap { g: Rng4 },
    TableOverlap { g: Rng4, header: Option<String> },
    TableOrder { g: Rng4 },
    TableTooSmall { r: u32, c: u16 },
    TableDupHeader { g: Rng4 },
    TableName { g: Rng4, name: String },
    FilterOverlap { g: Rng4 },
    FilterOrder { g: Rng4 },
    FilterCol { col: u16 },
    CfOrder { g: Rng4 },
    CfInvalid { g: Rng4, kind: u8 },
    DvOrder { g: Rng4 },
    DvInvalid { g: Rng4 },
    SparkNoRange { r: u32, c: u16 },
    SparkOrder { g: Rng4 },
    SparkGroupSize { g: Rng4 },
    SheetName { name: String },
    NoteLong { r: u32, c: u16 },
    NoteLimit,
    ImageLimit { ty: u8 },
    EmbedLimit { ty: u8 },
    ChartLimit,
    ChartNoSeries { r: u32, c: u16 },
    ShapeLimit,
    ButtonLimit,
    CheckLimit,
    FmtLimit,
    RangeFmtOrder { g: Rng4 },
    RowHeightLimit,
    RowFmtLimit,
    RowHideLimit,
    ColWidthLimit,
    ColFmtLimit,
    ColHideLimit,
    ColRangeOrder { c1: u16, c2: u16 },
    GroupOrder { r1: u32, r2: u32 },
    GroupLimit,
    ColGroupOrder { c1: u16, c2: u16 },
    FreezeLimit,
    FreezeTopBad { r: u32, c: u16 },
    SelectionOrder { g: Rng4 },
    TopLeftLimit,
    AreaOrder { g: Rng4 },
    RepeatOrder { r1: u32, r2: u32 },
    RepeatColOrder { c1: u16, c2: u16 },
    BreaksMany,
    UnprotectOrder { g: Rng4 },
    IgnoreOrder { g: Rng4 },
    HdrImgMissing { text: u8 },
    DateLimit,
    VbaName { name: String },
    RowValsLimit { r: u32 },
    HdrFormatMissing,
    SerUnregistered,
    SerHeadersBad { r: u32, c: u16 },
}

/// Field lists of the serializable structs used by the harness are fixed; see
/// `exec::ser`.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ser {
    /// Register struct `kind` at the cell: via 0 serialize_headers, 1 with
    /// format, 2 with options (renamed/formatted/skipped fields),
    /// 3 deserialize_headers, 4 XlsxSerialize derive-like trait.
    Head { kind: u8, r: u32, c: u16, via: u8, f: Option<usize>, opts: Vec<SerField> , custom: bool, table: bool, noheaders: bool},
    /// Serialize one record with this payload.
    Rec { kind: u8, n: i32, s: String, b: bool, o: Option<i32> },
    /// A record of vectors, which serializes as columns.
    Vecs { n: Vec<i32>, s: Vec<String> },
}
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct SerField {
    pub field: String,
    pub rename: Option<String>,
    pub hf: Option<usize>,
    pub vf: Option<usize>,
    pub skip: bool,
    pub width2: u16,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SOp {
    Cell { r: u32, c: u16, v: Val, #[serde(default)] f: Option<usize>, #[serde(default)] via: u8 },
    RowVals { r: u32, c: u16, v: Vec<Val>, #[serde(default)] f: Option<usize> },
    ColVals { r: u32, c: u16, v: Vec<Val>, #[serde(default)] f: Option<usize> },
    Matrix { r: u32, c: u16, v: Vec<Vec<i32>>, #[serde(default)] cols: bool },
    Array { g: Rng4, formula: String, #[serde(default)] res: Option<String>, #[serde(default)] f: Option<usize>, #[serde(default)] dynamic: bool },
    Merge { g: Rng4, text: String, f: usize },
    CellFmt { r: u32, c: u16, f: usize },
    RangeFmt { g: Rng4, f: usize },
    RangeBorder { g: Rng4, f: usize, b: usize },
    Clear { r: u32, c: u16 },
    ClearFmt { r: u32, c: u16 },
    SetResult { r: u32, c: u16, res: String },
    ResultDefault(String),
    NanText(String),
    InfText(String),
    Check { r: u32, c: u16, b: bool, #[serde(default)] f: Option<usize> },
    Embed { r: u32, c: u16, img: Img, #[serde(default)] f: Option<usize> },
    /// Heights and widths in quarters of a unit.
    RowH { r: u32, h4: u32 },
    RowFmt { r: u32, f: usize },
    RowHide { r: u32, on: bool },
    RowGroup { r1: u32, r2: u32, collapsed: bool },
    ColW { c1: u16, c2: u16, w4: u32 },
    ColFmt { c1: u16, c2: u16, f: usize },
    ColHide { c1: u16, c2: u16 },
    ColGroup { c1: u16, c2: u16, collapsed: bool },
    DefaultRowH(u32),
    HideUnused(bool),
    SymAbove(bool),
    SymLeft(bool),
    Autofit,
    Image { r: u32, c: u16, img: Img, x: u32, y: u32 },
    ImageFit { r: u32, c: u16, img: Img, keep: bool },
    Background(Img),
    HdrImg { pos: u8, footer: bool, img: Img },
    Chart { r: u32, c: u16, ch: ChartSpec, x: u32, y: u32 },
    Note { r: u32, c: u16, text: String, author: Option<String>, vis: Option<bool>, w: u16, h: u16, prefix: bool, alt: Option<String> },
    Shape { r: u32, c: u16, text: String, w: u16, h: u16, alt: Option<String>, url: Option<String>, link: Option<Ref>, x: u32, y: u32 },
    Button { r: u32, c: u16, caption: Option<String>, mac: Option<String>, w: u16, h: u16, alt: Option<String>, x: u32, y: u32 },
    ShowNotes(bool),
    NoteAuthor(String),
    Table { g: Rng4, t: TableSpec },
    Cf { g: Rng4, cf: CfSpec },
    Dv { g: Rng4, dv: DvSpec },
    Autofilter { g: Rng4 },
    Filter { col: u16, fl: FilterSpec },
    FilterOff,
    Spark { r: u32, c: u16, sp: SparkSpec },
    SparkGroup { g: Rng4, sp: SparkSpec },
    Protect { pw: Option<String>, opts: Option<u16> },
    Unprotect { g: Rng4, name: Option<String>, pw: Option<String> },
    Ignore { g: Rng4, kind: u8 },
    View(View),
    Print(Print),
    State(State),
    Ser(Ser),
    VbaName(String),
    Bad(Bad),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Via {
    /// `save()` to /simfs/out/<name>
    Path(String),
    Buffer,
    /// `save_to_writer` with the simulated writer.
    Writer,
    /// ... wrapped in a `BufWriter` of this capacity.
    BufWriter(u32),
    /// ... with a `Cursor<Vec<u8>>`.
    Cursor,
    /// ... with a `std::fs::File` at /simfs/out/<name>.
    File(String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    /// how: 0 add_*(), 1 Worksheet::new*/new_worksheet_* and push.
    Add { kind: Kind, #[serde(default)] how: u8, #[serde(default)] name: Option<String> },
    S(usize, SOp),
    /// Different worksheets filled by different threads.
    Par(Vec<(usize, Vec<SOp>)>),
    DefName { name: String, formula: String },
    BadName { name: String },
    /// A lookup that fails.
    BadLookup { idx: usize },
    Props { title: Option<String>, author: Option<String>, company: Option<String>, custom: Vec<(String, Val)>, created: Option<(u16, u8, u8)> },
    Vba,
    VbaName(String),
    ReadOnly,
    LargeZip(bool),
    TempDir(String),
    /// Exchange two sheets in the workbook.
    Swap(usize, usize),
    /// Sort the sheets by name.
    SortSheets,
    RegFormat(usize),
    /// The wall clock jumps.
    Jump(i64),
    Save(Via),
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Program {
    pub fmts: Vec<Fmt>,
    pub ops: Vec<Op>,
}

pub fn col_name(c: u16) -> String {
    let mut n = c as u32 + 1;
    let mut s = String::new();
    while n > 0 {
        let r = (n - 1) % 26;
        s.insert(0, (b'A' + r as u8) as char);
        n = (n - 1) / 26;
    }
    s
}
pub fn a1(r: u32, c: u16) -> String {
    format!("{}{}", col_name(c), r + 1)
}
pub fn a1_abs(r: u32, c: u16) -> String {
    format!("${}${}", col_name(c), r + 1)
}
pub fn a1_range(r1: u32, c1: u16, r2: u32, c2: u16) -> String {
    if r1 == r2 && c1 == c2 {
        a1(r1, c1)
    } else {
        format!("{}:{}", a1(r1, c1), a1(r2, c2))
    }
}
pub fn a1_range_abs(g: &Rng4) -> String {
    if g.single() {
        a1_abs(g.r1, g.c1)
    } else {
        format!("{}:{}", a1_abs(g.r1, g.c1), a1_abs(g.r2, g.c2))
    }
}
