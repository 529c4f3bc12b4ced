//! Turns a package into statements about what a spreadsheet application would
//! show: an independent reader, the first half of the refinement checks.
use crate::core::hash_bytes;
use crate::pkg::{Node, Pkg};
use crate::spec::*;
use std::collections::{BTreeMap, BTreeSet};

/// Statements by category.
pub type Facts = BTreeMap<&'static str, Vec<String>>;

pub fn put(f: &mut Facts, cat: &'static str, s: String) {
    f.entry(cat).or_default().push(s);
}

pub fn short(s: &str) -> String {
    if s.chars().count() > 200 {
        let a: String = s.chars().take(40).collect();
        format!("{a}...({} chars, hash {:x})", s.chars().count(), hash_bytes(s.as_bytes()))
    } else {
        s.to_string()
    }
}

fn num(s: &str) -> usize {
    s.parse().unwrap_or(usize::MAX)
}

/// Undo the `_xHHHH_` escapes of spreadsheet strings.
pub fn unescape(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '_' && i + 6 < c.len() && c[i + 1] == 'x' && c[i + 6] == '_' {
            let h: String = c[i + 2..i + 6].iter().collect();
            if h.chars().all(|x| x.is_ascii_hexdigit()) {
                if let Some(x) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                    out.push(x);
                    i += 7;
                    continue;
                }
            }
        }
        out.push(c[i]);
        i += 1;
    }
    out
}
/// The text of a `<t>` element.
fn t_text(n: &Node) -> String {
    let s = if n.attr("xml:space") == Some("preserve") { n.text.as_str() } else { n.text.trim_matches([' ', '\t', '\n', '\r']) };
    unescape(s)
}
/// The children of a font, sorted by name so that the two places that write
/// fonts are comparable.
fn font_text(f: &Node) -> String {
    let mut v: Vec<String> = f
        .kids
        .iter()
        .map(|k| {
            let n = if k.name == "rFont" { "name" } else { k.name.as_str() };
            let a: Vec<String> = k.attrs.iter().map(|(k, v)| if k == "val" { v.clone() } else { format!("{k}:{v}") }).collect();
            format!("{n}={}", a.join(","))
        })
        .collect();
    v.sort();
    v.join(";")
}
/// A string item: plain or rich text.
pub fn si_text(n: &Node) -> String {
    if n.kids.iter().any(|k| k.name == "r") {
        let runs: Vec<String> = n
            .kids("r")
            .map(|r| format!("[{}|{}]", r.kid("rPr").map_or("-".to_string(), font_text), r.kid("t").map(t_text).unwrap_or_default()))
            .collect();
        format!("rich {:?}", short(&runs.concat()))
    } else {
        format!("text {:?}", short(&n.kid("t").map(t_text).unwrap_or_default()))
    }
}

/// The meaning of a style record.
pub struct Styles {
    pub xfs: Vec<String>,
    pub dxfs: Vec<String>,
    pub problems: Vec<String>,
}
pub fn styles(s: &Node) -> Styles {
    let kids = |n: &str| -> Vec<&Node> { s.kid(n).map(|k| k.kids.iter().collect()).unwrap_or_default() };
    let (fonts, fills, borders) = (kids("fonts"), kids("fills"), kids("borders"));
    let nums: BTreeMap<String, String> = kids("numFmts").iter().map(|n| (n.a("numFmtId"), n.a("formatCode"))).collect();
    let mut problems = vec![];
    let font_t: Vec<String> = fonts.iter().map(|f| font_text(f)).collect();
    let fill_t: Vec<String> = fills.iter().map(|f| f.flat()).collect();
    let mut seen = BTreeSet::new();
    for (what, v) in [("font", &font_t), ("fill", &fill_t)] {
        for x in v.iter() {
            // The font of notes is always written, and the default colours
            // may also be asked for.
            let exempt = ["Tahoma", "color=theme:1;", "color=theme:10;"];
            if !seen.insert((what, x.clone())) && !exempt.iter().any(|e| x.contains(e)) {
                problems.push(format!("the same {what} is stored twice: {x}"));
            }
        }
    }
    let mut seen = BTreeSet::new();
    for (id, code) in &nums {
        if !seen.insert(code.clone()) {
            problems.push(format!("the same number format is stored twice: {code}"));
        }
        if num(id) < 164 {
            problems.push(format!("number format {id} {code:?} has the number of a built-in format"));
        }
    }
    let get = |v: &[String], i: &str| v.get(num(i)).cloned().unwrap_or("missing".into());
    let xfs = kids("cellXfs")
        .iter()
        .map(|x| {
            let id = x.a("numFmtId");
            let code = if num(&id) >= 164 { format!("{:?}", nums.get(&id).map_or("missing", |c| c.as_str())) } else { format!("#{id}") };
            let mut r = format!(
                "font {} | {} | {} | num {code} |",
                get(&font_t, &x.a("fontId")),
                get(&fill_t, &x.a("fillId")),
                borders.get(num(&x.a("borderId"))).map_or("missing".into(), |b| b.flat())
            );
            let mut a: Vec<String> = x.attrs.iter().filter(|a| !matches!(a.0.as_str(), "fontId" | "fillId" | "borderId" | "numFmtId")).map(|(k, v)| format!(" {k}={v}")).collect();
            a.sort();
            r.push_str(&a.concat());
            r.push_str(" |");
            for k in &x.kids {
                if k.name == "extLst" {
                    r.push_str(" checkbox");
                } else {
                    let mut k = k.clone();
                    k.attrs.sort();
                    r.push(' ');
                    r.push_str(&k.flat());
                }
            }
            r
        })
        .collect();
    let dxfs = kids("dxfs")
        .iter()
        .map(|d| {
            let mut r = String::new();
            for k in &d.kids {
                match k.name.as_str() {
                    "font" => r.push_str(&format!("font {} | ", font_text(k))),
                    "numFmt" => r.push_str(&format!("num {:?} | ", k.a("formatCode"))),
                    "extLst" => r.push_str("checkbox | "),
                    _ => r.push_str(&format!("{} | ", k.flat())),
                }
            }
            r
        })
        .collect();
    Styles { xfs, dxfs, problems }
}

pub struct Sheet {
    pub name: String,
    pub state: String,
    /// The part.
    pub path: String,
    pub chart: bool,
}
pub struct Dec<'a> {
    pub p: &'a Pkg,
    pub sheets: Vec<Sheet>,
    pub st: Styles,
    pub sst: Vec<String>,
    /// What the images in cells are, by value metadata number from 1.
    pub vm: Vec<String>,
}

pub fn media_hash(p: &Pkg, part: &str) -> String {
    p.parts.get(part).map_or(format!("missing {part}"), |b| format!("{:016x}", hash_bytes(b)))
}

fn value_metadata(p: &Pkg) -> Vec<String> {
    let Some(m) = p.xml.get("xl/metadata.xml") else { return vec![] };
    let rel_part = "xl/richData/richValueRel.xml";
    let rels: Vec<String> = p
        .xml
        .get(rel_part)
        .map(|n| n.kids.iter().map(|k| p.follow(rel_part, &k.attrs.iter().find(|a| a.0.ends_with("id")).map_or(String::new(), |a| a.1.clone())).unwrap_or("missing".into())).collect())
        .unwrap_or_default();
    let rv: Vec<String> = p
        .xml
        .get("xl/richData/rdrichvalue.xml")
        .map(|n| {
            n.kids
                .iter()
                .map(|k| {
                    let v: Vec<String> = k.kids.iter().map(|v| v.text.clone()).collect();
                    let img = v.first().and_then(|i| rels.get(num(i))).map_or("missing".to_string(), |t| media_hash(p, t));
                    format!("picture {img} {:?}", &v[1.min(v.len())..])
                })
                .collect()
        })
        .unwrap_or_default();
    // The rich values by the index in their future metadata.
    let future: Vec<String> = m
        .kids("futureMetadata")
        .filter(|f| f.attr("name") == Some("XLRICHVALUE"))
        .flat_map(|f| f.kids("bk"))
        .map(|b| b.all("xlrd:rvb").first().map_or(String::new(), |r| rv.get(num(&r.a("i"))).cloned().unwrap_or("missing".into())))
        .collect();
    m.kid("valueMetadata")
        .map(|v| v.kids("bk").map(|b| b.kid("rc").map_or("missing".into(), |r| future.get(num(&r.a("v"))).cloned().unwrap_or("missing".into()))).collect())
        .unwrap_or_default()
}

impl<'a> Dec<'a> {
    pub fn new(p: &'a Pkg) -> Result<Dec<'a>, String> {
        let wb = p.xml.get("xl/workbook.xml").ok_or("no workbook")?;
        let mut sheets = vec![];
        for s in wb.path(&["sheets"]).ok_or("no sheets")?.kids.iter() {
            let path = p.follow("xl/workbook.xml", &s.a("r:id")).ok_or("a sheet has no part")?;
            sheets.push(Sheet { name: s.a("name"), state: s.a("state"), chart: path.contains("chartsheet"), path });
        }
        let st = styles(p.xml.get("xl/styles.xml").ok_or("no styles")?);
        let sst = p.xml.get("xl/sharedStrings.xml").map(|s| s.kids("si").map(si_text).collect()).unwrap_or_default();
        Ok(Dec { p, sheets, st, sst, vm: value_metadata(p) })
    }
    pub fn xf(&self, i: &str) -> String {
        if i.is_empty() {
            return self.st.xfs.first().cloned().unwrap_or_default();
        }
        self.st.xfs.get(num(i)).cloned().unwrap_or(format!("missing style {i}"))
    }
    fn is_default(&self, rec: &str) -> bool {
        self.st.xfs.first().is_some_and(|d| d == rec)
    }
    fn cell_value(&self, c: &Node) -> Option<String> {
        let v = c.kid("v").map(|v| v.text.clone());
        let t = c.a("t");
        if let Some(f) = c.kid("f") {
            let res = v.unwrap_or("none".into());
            let kind = if t.is_empty() { "n".to_string() } else { t };
            // A number means its value.
            let res = match (kind.as_str(), res.parse::<f64>()) {
                ("n", Ok(x)) => format!("{x:?}"),
                _ => res,
            };
            let text = unescape(&f.text);
            if f.attr("t") == Some("array") {
                let d = if c.attr("cm").is_some() { " dynamic" } else { "" };
                return Some(format!("array{d} {} {text:?} result {kind} {res:?}", f.a("ref")));
            }
            return Some(format!("formula {text:?} result {kind} {res:?}"));
        }
        Some(match (t.as_str(), v) {
            ("", None) => return None,
            ("" | "n", Some(v)) => match v.parse::<f64>() {
                Ok(x) if x.is_finite() => format!("number {x:?}"),
                _ => format!("bad number {v:?}"),
            },
            ("s", Some(v)) => self.sst.get(num(&v)).cloned().unwrap_or("missing string".into()),
            ("inlineStr", _) => c.kid("is").map_or("nothing".into(), si_text),
            ("b", Some(v)) => format!("boolean {v}"),
            ("e", Some(_)) if c.attr("vm").is_some() => self.vm.get(num(&c.a("vm")).wrapping_sub(1)).cloned().unwrap_or("missing picture".into()),
            (t, v) => format!("type {t} {v:?}"),
        })
    }
    pub fn cells(&self, out: &mut Facts) -> Result<(), String> {
        for (i, s) in self.sheets.iter().enumerate() {
            if s.chart {
                continue;
            }
            let n = self.p.xml.get(&s.path).ok_or("a sheet part is missing")?;
            let at = format!("sheet {i} {:?}", s.name);
            let data = n.kid("sheetData").ok_or("no sheetData")?;
            let fp = n.kid("sheetFormatPr").ok_or("no sheetFormatPr")?;
            let def_h: f64 = fp.a("defaultRowHeight").parse().map_err(|_| "bad defaultRowHeight")?;
            let flag = |n: &Node, k: &str| n.attr(k) == Some("1");
            let mut max_level = [0usize; 2];
            for r in data.kids("row") {
                let rn = num(&r.a("r")) as u32;
                let ht: f64 = r.attr("ht").map_or(def_h, |h| h.parse().unwrap_or(-1.0));
                let mut d = String::new();
                if ht != def_h {
                    d.push_str(&format!(" height {ht}"));
                    if !flag(r, "customHeight") {
                        d.push_str(" not custom");
                    }
                }
                if flag(r, "hidden") {
                    d.push_str(" hidden");
                }
                if let Some(l) = r.attr("outlineLevel") {
                    d.push_str(&format!(" level {l}"));
                    max_level[0] = max_level[0].max(num(l));
                }
                if flag(r, "collapsed") {
                    d.push_str(" collapsed");
                }
                if !d.is_empty() {
                    put(out, "rowcol", format!("{at} row {rn}{d}"));
                }
                if let Some(x) = r.attr("s") {
                    if !flag(r, "customFormat") {
                        put(out, "fmt", format!("{at} row {rn} has a style without customFormat"));
                    }
                    let rec = self.xf(x);
                    if !self.is_default(&rec) {
                        put(out, "fmt", format!("{at} row {rn}: {rec}"));
                    }
                }
                for c in r.kids("c") {
                    let rf = c.a("r");
                    if let Some(v) = self.cell_value(c) {
                        put(out, "cell", format!("{at} {rf}: {v}"));
                    }
                    let rec = self.xf(&c.a("s"));
                    if !self.is_default(&rec) {
                        put(out, "fmt", format!("{at} {rf}: {rec}"));
                    }
                }
            }
            for c in n.kid("cols").map(|c| c.kids.iter().collect::<Vec<_>>()).unwrap_or_default() {
                let (a, b) = (num(&c.a("min")), num(&c.a("max")));
                if b < a || b > 16384 {
                    return Err(format!("{at}: columns {a} to {b}"));
                }
                let mut d = String::new();
                if flag(c, "customWidth") {
                    d.push_str(&format!(" width {}", c.a("width")));
                }
                if flag(c, "hidden") {
                    d.push_str(" hidden");
                }
                if let Some(l) = c.attr("outlineLevel") {
                    d.push_str(&format!(" level {l}"));
                    max_level[1] = max_level[1].max(num(l));
                }
                if flag(c, "collapsed") {
                    d.push_str(" collapsed");
                }
                for k in a..=b {
                    if !d.is_empty() {
                        put(out, "rowcol", format!("{at} column {}{d}", col_name(k as u16 - 1)));
                    }
                    if let Some(x) = c.attr("style") {
                        let rec = self.xf(x);
                        if !self.is_default(&rec) {
                            put(out, "fmt", format!("{at} column {}: {rec}", col_name(k as u16 - 1)));
                        }
                    }
                }
            }
            put(out, "rowcol", format!("{at} default height {def_h} custom {} hidden {}", flag(fp, "customHeight"), flag(fp, "zeroHeight")));
            for (k, l) in [("outlineLevelRow", max_level[0]), ("outlineLevelCol", max_level[1])] {
                let v = fp.attr(k).map_or(0, num);
                if v < l {
                    put(out, "rowcol", format!("{at} {k} is {v} but there is a level {l}"));
                }
            }
            if let Some(o) = n.path(&["sheetPr", "outlinePr"]) {
                if o.attr("summaryBelow") == Some("0") {
                    put(out, "rowcol", format!("{at} symbols above"));
                }
                if o.attr("summaryRight") == Some("0") {
                    put(out, "rowcol", format!("{at} symbols left"));
                }
            }
        }
        for p in &self.st.problems {
            put(out, "fmt", p.clone());
        }
        Ok(())
    }
}

pub fn decode(p: &Pkg) -> Result<Facts, String> {
    let d = Dec::new(p)?;
    let mut out = Facts::new();
    d.cells(&mut out)?;
    d.ranges(&mut out)?;
    d.book(&mut out)?;
    for v in out.values_mut() {
        v.sort();
    }
    Ok(out)
}
