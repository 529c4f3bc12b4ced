//! Images, charts, notes, shapes and buttons, and what charts remember of the
//! cells: what a package says and what the model says.
use crate::core::{self, hash_bytes};
use crate::decode::*;
use crate::exec::{chart_type, guard, img_bytes, img_dpi, Exec};
use crate::fs;
use crate::gen::quoted;
use crate::model::*;
use crate::pkg::{Node, Pkg};
use crate::ranges::{object_target, unquoted};
use crate::spec::*;
use std::cell::RefCell;
use std::collections::BTreeMap;

/// The sizes of the rows and columns of a sheet, in pixels, as in a file.
#[derive(Clone, Debug, Default)]
pub struct Geo {
    cols: BTreeMap<u32, (u32, bool)>,
    rows: BTreeMap<u32, (u32, bool)>,
    def_h: u32,
}
fn px_h(h: f64) -> u32 {
    (h * 4.0 / 3.0) as u32
}
impl Geo {
    fn of(n: &Node) -> Geo {
        let f = |n: &Node, k: &str| n.attr(k).and_then(|x| x.parse::<f64>().ok());
        let mut g = Geo { def_h: 20, ..Geo::default() };
        if let Some(h) = n.kid("sheetFormatPr").and_then(|p| f(p, "defaultRowHeight")) {
            g.def_h = px_h(h);
        }
        for c in n.kid("cols").map(|c| c.kids.iter().collect::<Vec<_>>()).unwrap_or_default() {
            let (a, b) = (f(c, "min").unwrap_or(1.0) as u32, f(c, "max").unwrap_or(1.0) as u32);
            let hidden = c.attr("hidden") == Some("1");
            let w = f(c, "width").map_or(64, |w| (w * 7.0).round() as u32);
            for k in a..=b.min(16384) {
                g.cols.insert(k - 1, (w, hidden));
            }
        }
        for r in n.kid("sheetData").map(|c| c.kids.iter().collect::<Vec<_>>()).unwrap_or_default() {
            let hidden = r.attr("hidden") == Some("1");
            let h = f(r, "ht").map_or(g.def_h, px_h);
            if hidden || h != g.def_h {
                g.rows.insert((f(r, "r").unwrap_or(1.0) as u32).saturating_sub(1), (h, hidden));
            }
        }
        g
    }
    fn col(&self, c: u32, after: bool) -> f64 {
        let (w, hidden) = self.cols.get(&c).copied().unwrap_or((64, false));
        if hidden && !after {
            0.0
        } else {
            w as f64
        }
    }
    fn corner(&self, a: &Node, k: &str) -> String {
        let f = |s: &str| float(a, &[k, s]);
        let (mut r, mut c, mut x, mut y) = (f("xdr:row") as u32, f("xdr:col") as u32, f("xdr:colOff") / 9525.0, f("xdr:rowOff") / 9525.0);
        let w = self.cols.get(&c).map_or(64, |x| x.0) as f64;
        let h = self.rows.get(&r).map_or(self.def_h, |x| x.0) as f64;
        if (x - w).abs() < 0.01 && w > 0.0 && c < 16383 {
            (c, x) = (c + 1, 0.0);
        }
        if (y - h).abs() < 0.01 && h > 0.0 && r < 1048575 {
            (r, y) = (r + 1, 0.0);
        }
        spot(r, c, x, y)
    }
    fn row(&self, r: u32, after: bool) -> f64 {
        let (h, hidden) = self.rows.get(&r).copied().unwrap_or((self.def_h, false));
        if hidden && !after {
            0.0
        } else {
            h as f64
        }
    }
    /// The cell, and the place in it, at this distance from a cell.
    fn walk(size: impl Fn(u32) -> f64, mut i: u32, mut d: f64, last: u32) -> (u32, f64) {
        loop {
            let s = size(i);
            // The end of a cell is the start of the next one.
            if d < s - 0.01 || i >= last {
                return (i, d.min(s));
            }
            d = (d - s).max(0.0);
            i += 1;
        }
    }
    /// Where an object is, from the cell and offset of its corner and its size.
    fn place(&self, r: u32, c: u32, x: f64, y: f64, size: Option<(f64, f64)>, after: bool) -> String {
        let (lc, lr) = (16383, 1048575);
        let (c1, x1) = Self::walk(|k| self.col(k, after), c, x, lc);
        let (r1, y1) = Self::walk(|k| self.row(k, after), r, y, lr);
        let mut s = spot(r1, c1, x1, y1);
        if let Some((w, h)) = size {
            let (c2, x2) = Self::walk(|k| self.col(k, after), c1, x1 + w, lc);
            let (r2, y2) = Self::walk(|k| self.row(k, after), r1, y1 + h, lr);
            s.push_str(" to ");
            s.push_str(&spot(r2, c2, x2, y2));
        }
        s
    }
}
fn spot(r: u32, c: u32, x: f64, y: f64) -> String {
    format!("{}+({x:.1},{y:.1})", a1(r, c.min(16383) as u16))
}

pub fn decode(p: &Pkg, out: &mut Facts) -> Result<(), String> {
    Dec::new(p)?.objects(out)?;
    for k in ["obj", "cache"] {
        if let Some(v) = out.get_mut(k) {
            v.sort();
        }
    }
    Ok(())
}
/// The sizes of the sheets of a package, in order.
pub fn geometry(p: &Pkg) -> Vec<Geo> {
    let Ok(d) = Dec::new(p) else { return vec![] };
    d.sheets.iter().map(|s| p.xml.get(&s.path).map(Geo::of).unwrap_or_default()).collect()
}

fn text_of(n: &Node) -> String {
    let mut v = vec![];
    for p in n.all("a:p") {
        let t: String = p.all("a:t").iter().map(|t| t.text.clone()).collect();
        v.push(if t.trim().is_empty() { String::new() } else { t });
    }
    v.join("\n")
}
fn formula_of(n: &Node) -> Option<String> {
    n.all("c:f").first().map(|f| unquoted(&f.text))
}
/// A title or name: text or a reference.
fn title_of(n: &Node) -> String {
    match (formula_of(n), n.all("c:v").first()) {
        (Some(f), _) => format!("={f}"),
        (None, Some(v)) => format!("{:?}", v.text),
        _ => format!("{:?}", text_of(n)),
    }
}

/// The references of a chart with what it remembers of their cells.
fn caches(n: &Node, role: &str, out: &mut Vec<String>) {
    let role = match n.name.as_str() {
        "c:title" | "c:tx" | "c:cat" | "c:val" | "c:plus" | "c:minus" => n.name[2..].to_string(),
        "c:xVal" => "cat".into(),
        "c:yVal" => "val".into(),
        _ => role.to_string(),
    };
    if let Some(f) = n.kid("c:f") {
        let mut d = format!("{role} {}: ", unquoted(&f.text));
        match n.kid("c:numCache").or(n.kid("c:strCache")) {
            None => d.push_str("nothing"),
            Some(c) => {
                let strings = c.name == "c:strCache";
                d.push_str(&format!("{} of {}", if strings { "text" } else { "numbers" }, c.kid("c:ptCount").map_or("none".into(), |p| p.a("val"))));
                for p in c.kids("c:pt") {
                    let v = p.kid("c:v").map_or(String::new(), |v| unescape(&v.text));
                    match v.parse::<f64>() {
                        _ if strings && v.is_empty() => {}
                        Ok(x) if !strings => d.push_str(&format!(" {}={x:?}", p.a("idx"))),
                        _ => d.push_str(&format!(" {}={:?}", p.a("idx"), short(&v))),
                    }
                }
            }
        }
        out.push(d);
    }
    for k in &n.kids {
        caches(k, &role, out);
    }
}

/// A chart without what it remembers of cells and without its axis numbers.
fn skeleton(n: &Node, ids: &mut Vec<String>) -> Option<Node> {
    if n.name == "c:numCache" || n.name == "c:strCache" {
        return None;
    }
    let mut m = Node { name: n.name.clone(), attrs: n.attrs.clone(), text: n.text.clone(), ..nd("", &[], vec![]) };
    if n.name == "c:numRef" || n.name == "c:strRef" {
        m.name = "ref".into();
    }
    if n.name == "c:axId" || n.name == "c:crossAx" {
        let v = n.a("val");
        let i = ids.iter().position(|x| *x == v).unwrap_or_else(|| {
            ids.push(v);
            ids.len() - 1
        });
        m.attrs = vec![("val".into(), i.to_string())];
    }
    // Some number formats follow the cells.
    let follows = |k: &Node| k.name == "c:numFmt" && k.attr("sourceLinked") == Some("1");
    m.kids = n.kids.iter().filter(|k| !follows(k)).filter_map(|k| skeleton(k, ids)).collect();
    Some(m)
}
fn skeleton_text(n: &Node) -> String {
    let s = skeleton(n, &mut vec![]).map_or(String::new(), |n| n.flat());
    if std::env::var("DST_XML").is_ok() {
        return s;
    }
    format!("{:016x}", hash_bytes(s.as_bytes()))
}

/// What a chart shows.
fn chart_text(n: &Node) -> String {
    let mut d = String::new();
    let Some(c) = n.kid("c:chart") else { return "no chart".into() };
    d.push_str(&format!("title {}", c.kid("c:title").map_or("-".into(), title_of)));
    let Some(a) = c.kid("c:plotArea") else { return "no plot area".into() };
    let mut axes: Vec<String> = vec![];
    for k in &a.kids {
        if k.name.ends_with("Chart") {
            d.push_str(&format!(" | {}", &k.name[2..]));
            for o in ["c:barDir", "c:grouping", "c:scatterStyle", "c:radarStyle"] {
                if let Some(o) = k.kid(o) {
                    d.push_str(&format!(" {}", o.a("val")));
                }
            }
            for s in k.kids("c:ser") {
                let f = |a: &str, b: &str| s.kid(a).or(s.kid(b)).and_then(formula_of).unwrap_or("-".into());
                let idx = s.kid("c:idx").map_or("?".into(), |i| i.a("val"));
                d.push_str(&format!(
                    " [{idx} name {} cat {} val {}",
                    s.kid("c:tx").map_or("-".into(), title_of),
                    f("c:cat", "c:xVal"),
                    f("c:val", "c:yVal")
                ));
                if let Some(c) = s.path(&["c:spPr", "a:solidFill", "a:srgbClr"]).filter(|_| k.name != "c:scatterChart") {
                    d.push_str(&format!(" colour {}", c.a("val")));
                }
                for t in s.kids("c:trendline") {
                    d.push_str(&format!(" trend {}", t.kid("c:trendlineType").map_or("?".into(), |t| t.a("val"))));
                }
                for e in s.kids("c:errBars") {
                    let f = |k: &str| e.kid(k).and_then(formula_of).unwrap_or("-".into());
                    d.push_str(&format!(" error {} {}", f("c:plus"), f("c:minus")));
                }
                for l in s.kids("c:dLbls").flat_map(|l| l.kids("c:dLbl")) {
                    d.push_str(&format!(" label {} {}", l.kid("c:idx").map_or("?".into(), |i| i.a("val")), formula_of(l).unwrap_or("-".into())));
                }
                d.push(']');
            }
        } else if let Some(t) = k.kid("c:title") {
            axes.push(title_of(t));
        }
    }
    axes.sort();
    d.push_str(&format!(" | axes {axes:?}"));
    if let Some(l) = c.kid("c:legend") {
        d.push_str(&format!(" legend {}", l.kid("c:legendPos").map_or("?".into(), |l| l.a("val"))));
    }
    d
}

fn float(n: &Node, p: &[&str]) -> f64 {
    n.path(p).and_then(|n| n.text.parse().ok()).unwrap_or(-1.0)
}
fn named(name: &str) -> String {
    let default = ["Picture ", "Chart ", "TextBox "].iter().any(|p| name.strip_prefix(p).is_some_and(|x| !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit())));
    if default {
        String::new()
    } else {
        format!(" name {name:?}")
    }
}

impl Dec<'_> {
    pub fn objects(&self, out: &mut Facts) -> Result<(), String> {
        for (i, s) in self.sheets.iter().enumerate() {
            let n = self.p.xml.get(&s.path).ok_or("a sheet part is missing")?;
            let at = format!("sheet {i} {:?}", s.name);
            let part = |k: &str| -> Result<Option<String>, String> {
                match n.kid(k) {
                    None => Ok(None),
                    Some(k) => Ok(Some(self.p.follow(&s.path, &k.a("r:id")).ok_or("a part of a sheet is missing")?)),
                }
            };
            if let Some(p) = part("picture")? {
                put(out, "obj", format!("{at} background {}", media_hash(self.p, &p)));
            }
            if let Some(p) = part("drawing")? {
                self.drawing(&at, &p, &Geo::of(n), out)?;
            }
            let mut note_shapes: BTreeMap<String, String> = BTreeMap::new();
            if let Some(p) = part("legacyDrawing")? {
                let v = self.p.xml.get(&p).ok_or("a drawing is missing")?;
                for sh in v.kids("v:shape") {
                    let Some(c) = sh.kid("x:ClientData") else { continue };
                    let f: Vec<f64> = c.kid("x:Anchor").map_or(vec![], |a| a.text.split(',').filter_map(|x| x.trim().parse().ok()).collect());
                    let place = match f[..] {
                        [c1, x1, r1, y1, c2, x2, r2, y2] => format!("{} to {}", spot(r1 as u32, c1 as u32, x1, y1), spot(r2 as u32, c2 as u32, x2, y2)),
                        _ => "nowhere".into(),
                    };
                    let t = |k: &str| c.kid(k).map_or("?".to_string(), |x| x.text.clone());
                    if c.attr("ObjectType") == Some("Note") {
                        let (r, k) = (t("x:Row").parse().unwrap_or(9999999u32), t("x:Column").parse().unwrap_or(16383u16));
                        let style = sh.a("style");
                        let vis = c.kid("x:Visible").is_some();
                        if vis == style.contains("visibility:hidden") {
                            put(out, "obj", format!("{at} a note is visible and hidden"));
                        }
                        note_shapes.insert(a1(r, k), format!("{place} visible {vis} alt {:?}", sh.a("alt")));
                    } else {
                        let text: String = sh.all("font").iter().map(|f| f.text.clone()).collect();
                        put(out, "obj", format!("{at} button {place} {text:?} macro {:?} alt {:?}", t("x:FmlaMacro"), sh.a("alt")));
                    }
                }
            }
            if let Some(r) = self.p.rels.get(&s.path).and_then(|r| r.iter().find(|r| r.kind == "comments")) {
                let p = self.p.follow(&s.path, &r.id).ok_or("the comments are missing")?;
                let c = self.p.xml.get(&p).ok_or("the comments are missing")?;
                let authors: Vec<String> = c.kid("authors").map(|a| a.kids.iter().map(|a| a.text.clone()).collect()).unwrap_or_default();
                for k in c.kid("commentList").map(|c| c.kids.iter().collect::<Vec<_>>()).unwrap_or_default() {
                    let author = k.a("authorId").parse::<usize>().ok().and_then(|i| authors.get(i).cloned()).unwrap_or("nobody".into());
                    let text: String = k.all("t").iter().map(|t| if t.attr("xml:space") == Some("preserve") { t.text.as_str() } else { t.text.trim_matches([' ', '\t', '\n', '\r']) }).map(unescape).collect();
                    let rf = k.a("ref");
                    let shape = note_shapes.remove(&rf).unwrap_or("without a shape".into());
                    put(out, "obj", format!("{at} note {rf} by {author:?} {:?} {shape}", short(&text)));
                }
            }
            for (k, v) in note_shapes {
                put(out, "obj", format!("{at} a note shape of {k} without a note: {v}"));
            }
            if let Some(p) = part("legacyDrawingHF")? {
                let v = self.p.xml.get(&p).ok_or("a drawing is missing")?;
                for sh in v.kids("v:shape") {
                    let d = sh.kid("v:imagedata").map_or(String::new(), |d| d.a("o:relid"));
                    let h = self.p.follow(&p, &d).map_or("missing".into(), |m| media_hash(self.p, &m));
                    let style = sh.a("style");
                    let size = |k: &str| style.split(';').find_map(|x| x.strip_prefix(k)).and_then(|x| x.strip_suffix("pt")).and_then(|x| x.parse::<f64>().ok()).unwrap_or(-1.0);
                    put(out, "obj", format!("{at} page image {} {h} {:?}x{:?}", sh.a("id"), size("width:"), size("height:")));
                }
            }
        }
        Ok(())
    }
    fn drawing(&self, at: &str, part: &str, geo: &Geo, out: &mut Facts) -> Result<(), String> {
        let d = self.p.xml.get(part).ok_or("a drawing is missing")?;
        let mut n_chart = 0;
        for a in &d.kids {
            let place = if a.name == "xdr:absoluteAnchor" {
                let e = a.kid("xdr:ext").ok_or("no size")?;
                format!("the whole sheet {}x{}", e.a("cx"), e.a("cy"))
            } else {
                format!("{} to {}", geo.corner(a, "xdr:from"), geo.corner(a, "xdr:to"))
            };
            let mv = a.attr("editAs").unwrap_or("twoCell");
            let nv = a.all("xdr:cNvPr");
            let nv = nv.first().ok_or("an anonymous object")?;
            let mut more = format!("{mv}{}", named(&nv.a("name")));
            if let Some(x) = nv.attr("descr") {
                more.push_str(&format!(" alt {x:?}"));
            }
            if !nv.all("adec:decorative").is_empty() {
                more.push_str(" decorative");
            }
            if let Some(l) = nv.kid("a:hlinkClick") {
                let t = match self.p.rel(part, &l.a("r:id")) {
                    None => "missing".to_string(),
                    Some(r) => format!("{} external {}", r.target, r.external),
                };
                more.push_str(&format!(" link {t} tip {:?}", l.a("tooltip")));
            }
            if let Some(p) = a.kid("xdr:pic") {
                let b = p.all("a:blip");
                let h = b.first().and_then(|b| self.p.follow(part, &b.a("r:embed"))).map_or("missing".into(), |m| media_hash(self.p, &m));
                put(out, "obj", format!("{at} image {h} {place} {more}"));
            } else if let Some(s) = a.kid("xdr:sp") {
                let t = s.kid("xdr:txBody").map(text_of).unwrap_or_default();
                put(out, "obj", format!("{at} textbox {t:?} from {:?} {place} {more}", s.a("textlink")));
            } else if let Some(g) = a.kid("xdr:graphicFrame") {
                let id = g.all("c:chart").first().map_or(String::new(), |c| c.a("r:id"));
                let p = self.p.follow(part, &id).ok_or("a chart is missing")?;
                let c = self.p.xml.get(&p).ok_or("a chart is missing")?;
                put(out, "obj", format!("{at} chart {place} {more}: {} {}", chart_text(c), skeleton_text(c)));
                let mut v = vec![];
                caches(c, "", &mut v);
                for l in v {
                    put(out, "cache", format!("{at} chart {n_chart} {l}"));
                }
                n_chart += 1;
            } else {
                put(out, "obj", format!("{at} something {place} {more}"));
            }
        }
        Ok(())
    }
}

thread_local! {
    static ALONE: RefCell<BTreeMap<String, String>> = const { RefCell::new(BTreeMap::new()) };
}
/// The same chart, made by the real code in a workbook without anything else.
fn alone(ch: &ChartSpec, names: &[String], chartsheet: bool) -> String {
    let key = format!("{chartsheet} {names:?} {}", serde_json::to_string(ch).unwrap_or_default());
    if let Some(s) = ALONE.with(|a| a.borrow().get(&key).cloned()) {
        return s;
    }
    let mut ops: Vec<Op> = names.iter().map(|n| Op::Add { kind: Kind::Std, how: 0, name: Some(n.clone()) }).collect();
    ops.push(Op::Add { kind: if chartsheet { Kind::Chart } else { Kind::Std }, how: 0, name: Some("its own sheet".into()) });
    ops.push(Op::S(names.len(), SOp::Chart { r: 0, c: 0, ch: ch.clone(), x: 0, y: 0 }));
    ops.push(Op::Save(Via::Buffer));
    let prog = Program { fmts: vec![], ops };
    let make = || -> Result<String, String> {
        fs::Fs::reset(&Default::default());
        let mut out = Err("no file".to_string());
        core::run(&core::Sched::plain(), 1 << 40, || {
            let mut x = Exec::new(&prog);
            for o in &prog.ops {
                if let Op::Save(v) = o {
                    let (o, b) = x.save(v);
                    out = b.ok_or(o.text());
                } else {
                    x.step(o);
                }
            }
            let _ = guard(|| {
                drop(x);
                Ok(())
            });
        });
        let p = Pkg::read(&out?)?;
        Ok(skeleton_text(p.xml.get("xl/charts/chart1.xml").ok_or("no chart")?))
    };
    let s = make().unwrap_or_else(|e| format!("cannot be made alone: {e}"));
    ALONE.with(|a| {
        let mut a = a.borrow_mut();
        if a.len() > 2000 {
            a.clear();
        }
        a.insert(key, s.clone());
    });
    s
}

fn kind_text(ty: u8) -> &'static str {
    use rust_xlsxwriter::ChartType::*;
    match chart_type(ty) {
        Column => "barChart col clustered",
        ColumnStacked => "barChart col stacked",
        ColumnPercentStacked => "barChart col percentStacked",
        Bar => "barChart bar clustered",
        BarStacked => "barChart bar stacked",
        BarPercentStacked => "barChart bar percentStacked",
        Line => "lineChart standard",
        LineStacked => "lineChart stacked",
        LinePercentStacked => "lineChart percentStacked",
        Area => "areaChart standard",
        AreaStacked => "areaChart stacked",
        AreaPercentStacked => "areaChart percentStacked",
        Pie => "pieChart",
        Doughnut => "doughnutChart",
        Radar => "radarChart marker",
        RadarWithMarkers => "radarChart marker",
        RadarFilled => "radarChart filled",
        Scatter | ScatterStraight | ScatterStraightWithMarkers => "scatterChart lineMarker",
        ScatterSmooth | ScatterSmoothWithMarkers => "scatterChart smoothMarker",
        Stock => "stockChart",
        _ => "?",
    }
}

impl Model {
    fn rf(&self, r: &Ref) -> String {
        unquoted(&format!("{}!{}", quoted(&self.sheets[r.h].name), a1_range_abs(&r.g)))
    }
    fn name_text(&self, t: &Option<String>, r: &Option<Ref>) -> String {
        match (r, t) {
            (Some(r), _) => format!("={}", self.rf(r)),
            (None, Some(t)) if !t.is_empty() => format!("{t:?}"),
            _ => "-".into(),
        }
    }
    fn chart_groups(&self, ch: &ChartSpec, from: usize, d: &mut String) -> usize {
        // Series are counted from the ones of the primary axis.
        let mut idx = from;
        for second in [false, true] {
            let list: Vec<&Series> = ch.series.iter().filter(|s| s.second == second).collect();
            if list.is_empty() {
                continue;
            }
            d.push_str(&format!(" | {}", kind_text(ch.ty)));
            for s in list {
                d.push_str(&format!(
                    " [{idx} name {} cat {} val {}",
                    self.name_text(&s.name, &s.name_ref),
                    s.cats.as_ref().map_or("-".into(), |r| self.rf(r)),
                    self.rf(&s.vals)
                ));
                if let Some(c) = s.color.filter(|_| !kind_text(ch.ty).starts_with("scatter")) {
                    d.push_str(&format!(" colour {c:06X}"));
                }
                match s.trend {
                    0 => {}
                    1 => d.push_str(" trend linear"),
                    2 => d.push_str(" trend poly"),
                    _ => d.push_str(" trend movingAvg"),
                }
                if let Some((a, b)) = &s.err_ref {
                    d.push_str(&format!(" error {} {}", self.rf(a), self.rf(b)));
                }
                for (i, r) in s.label_refs.iter().enumerate().take(s.vals.g.cells().len()) {
                    d.push_str(&format!(" label {i} {}", self.rf(r)));
                }
                d.push(']');
                idx += 1;
            }
        }
        from + ch.series.len()
    }
    fn chart_text(&self, ch: &ChartSpec) -> String {
        let mut d = format!("title {}", self.name_text(&ch.title, &ch.title_ref));
        let n = self.chart_groups(ch, 0, &mut d);
        if let Some(c) = &ch.combine {
            self.chart_groups(c, n, &mut d);
        }
        let mut axes: Vec<String> = (0..4).map(|i| self.name_text(&ch.axis[i], &ch.axis_ref[i])).filter(|t| t != "-").collect();
        axes.sort();
        d.push_str(&format!(" | axes {axes:?}"));
        match ch.legend {
            1 => {}
            2 => d.push_str(" legend t"),
            _ => d.push_str(" legend r"),
        }
        d
    }
    /// What a chart must remember of a range.
    fn cache(&self, r: &Ref, role: &str) -> String {
        let w = &self.sheets[r.h];
        let f = self.rf(r);
        let mut d = format!("{role} {f}: ");
        let cells: Vec<Option<&Cv>> = r.g.cells().iter().map(|(r, c)| if w.kind == Kind::Std { w.cells.get(&(*r, *c)).map(|c| &c.v) } else { None }).collect();
        // Titles and names are always text, values are always numbers.
        let text = match role {
            "title" | "tx" => true,
            "cat" => cells.iter().any(|c| matches!(c, Some(Cv::Str(_)))),
            _ => false,
        };
        d.push_str(&format!("{} of {}", if text { "text" } else { "numbers" }, cells.len()));
        for (i, c) in cells.iter().enumerate() {
            match c {
                Some(Cv::Num(x) | Cv::Date(x)) if text => d.push_str(&format!(" {i}={:?}", short(&x.to_string()))),
                Some(Cv::Num(x) | Cv::Date(x)) => d.push_str(&format!(" {i}={x:?}")),
                Some(Cv::Str(s)) if s.is_empty() => {}
                Some(Cv::Str(s)) if text => d.push_str(&format!(" {i}={:?}", short(s))),
                Some(Cv::Str(s)) => {
                    let x = s.parse::<f64>().ok().filter(|x| x.is_finite()).unwrap_or(0.0);
                    d.push_str(&format!(" {i}={x:?}"));
                }
                _ => {}
            }
        }
        d
    }
    fn chart_caches(&self, ch: &ChartSpec, main: bool, out: &mut Vec<String>) {
        for s in &ch.series {
            if let Some(r) = &s.name_ref {
                out.push(self.cache(r, "tx"));
            }
            if let Some(r) = &s.cats {
                out.push(self.cache(r, "cat"));
            }
            out.push(self.cache(&s.vals, "val"));
            if let Some((a, b)) = &s.err_ref {
                out.push(self.cache(a, "plus"));
                out.push(self.cache(b, "minus"));
            }
            for r in s.label_refs.iter().take(s.vals.g.cells().len()) {
                out.push(self.cache(r, "tx"));
            }
        }
        if main {
            for r in [&ch.title_ref].into_iter().chain(&ch.axis_ref).flatten() {
                out.push(self.cache(r, "tx"));
            }
        }
        if let Some(c) = &ch.combine {
            self.chart_caches(c, false, out);
        }
    }
    pub fn objects(&self, geo: &[Geo], out: &mut Facts) {
        let names: Vec<String> = self.sheets.iter().map(|s| s.name.clone()).collect();
        let none = Geo { def_h: 20, ..Geo::default() };
        for (i, h) in self.order.iter().enumerate() {
            let w = &self.sheets[*h];
            let mut g = geo.get(i).unwrap_or(&none).clone();
            // The sizes that hidden rows and columns have when shown are not
            // in the file.
            for (c, x) in g.cols.iter_mut().filter(|x| x.1 .1) {
                x.0 = w.cell_size(0, *c as u16, true).0 as u32;
            }
            for (r, x) in g.rows.iter_mut().filter(|x| x.1 .1) {
                x.0 = w.cell_size(*r, 0, true).1 as u32;
            }
            let at = format!("sheet {i} {:?}", w.name);
            let sheet_chart = w.kind == Kind::Chart;
            let mut landscape = true;
            let mut say: Vec<String> = vec![];
            type Key = (u32, u16, u32, u32);
            let mut images: BTreeMap<Key, (&Img, Option<(f64, f64)>)> = BTreeMap::new();
            let mut charts: BTreeMap<Key, &ChartSpec> = BTreeMap::new();
            let mut shapes: BTreeMap<Key, &SOp> = BTreeMap::new();
            let mut buttons: BTreeMap<Key, &SOp> = BTreeMap::new();
            let mut notes: BTreeMap<(u32, u16), &SOp> = BTreeMap::new();
            let mut back = None;
            let mut page: BTreeMap<String, &Img> = BTreeMap::new();
            let (mut show, mut author) = (false, "Author".to_string());
            for (k, op) in w.ops.iter().enumerate() {
                match op {
                    SOp::Image { r, c, img, x, y } => {
                        let s = if img.scale > 0 { img.scale as f64 / 100.0 } else { 1.0 };
                        let f = |n: u16| n as f64 * s * 96.0 / img_dpi(img);
                        images.insert((*r, *c, *y, *x), (img, Some((f(img.w), f(img.h)))));
                    }
                    SOp::ImageFit { r, c, img, .. } => {
                        images.insert((*r, *c, 0, 0), (img, w.fits.get(&k).copied()));
                    }
                    SOp::Background(img) => back = Some(img),
                    SOp::HdrImg { pos, footer, img } => {
                        page.insert(format!("{}{}", ["L", "C", "R"][*pos as usize % 3], if *footer { "F" } else { "H" }), img);
                    }
                    SOp::Chart { ch, .. } if sheet_chart => {
                        charts.insert((0, 0, 0, 0), ch);
                    }
                    SOp::Chart { r, c, ch, x, y } => {
                        charts.insert((*r, *c, *y, *x), ch);
                    }
                    SOp::Note { r, c, .. } => {
                        notes.insert((*r, *c), op);
                    }
                    SOp::Shape { r, c, x, y, .. } => {
                        shapes.insert((*r, *c, *y, *x), op);
                    }
                    SOp::Button { r, c, x, y, .. } => {
                        buttons.insert((*r, *c, *y, *x), op);
                    }
                    SOp::ShowNotes(b) => show = *b,
                    SOp::NoteAuthor(s) => author = s.clone(),
                    SOp::Print(Print::Landscape) => landscape = true,
                    SOp::Print(Print::Portrait) => landscape = false,
                    _ => {}
                }
            }
            let pic = |i: &Img| format!("{:016x}", hash_bytes(&img_bytes(i)));
            let link = |u: &Option<String>, tip: &Option<String>| match u {
                None => String::new(),
                Some(u) => {
                    let (t, external) = object_target(u);
                    format!(" link {t} external {external} tip {:?}", tip.clone().unwrap_or_default())
                }
            };
            let alt = |a: &Option<String>| a.as_ref().filter(|a| !a.is_empty()).map_or(String::new(), |a| format!(" alt {a:?}"));
            let mv = |m: u8, default: &'static str| match m {
                0 => default,
                1 | 4 => "twoCell",
                2 => "oneCell",
                _ => "absolute",
            };
            if let Some(b) = back {
                say.push(format!("background {}", pic(b)));
            }
            for (k, img) in &page {
                let s = if img.scale > 0 { img.scale as f64 / 100.0 } else { 1.0 };
                let f = |n: u16| (n as f64 * 96.0 / img_dpi(img) * s + 0.25).floor() * 0.75;
                say.push(format!("page image {k} {} {:?}x{:?}", pic(img), f(img.w), f(img.h)));
            }
            for ((r, c, y, x), (img, size)) in &images {
                let place = g.place(*r, *c as u32, *x as f64, *y as f64, *size, img.mov == 4);
                let d = if img.decorative { " decorative" } else { "" };
                say.push(format!("image {} {place} {}{}{d}{}", pic(img), mv(img.mov, "oneCell"), alt(&img.alt), link(&img.url, &img.tip)));
            }
            for (n, ((r, c, y, x), ch)) in charts.iter().enumerate() {
                let or = |n: u16, d: f64| if n > 0 { n as f64 } else { d };
                let place = if sheet_chart {
                    format!("the whole sheet {}", if landscape { "9308969x6078325" } else { "6162675x6124575" })
                } else {
                    g.place(*r, *c as u32, *x as f64, *y as f64, Some((or(ch.w, 480.0), or(ch.h, 288.0))), ch.mov == 4)
                };
                let m = if sheet_chart { "twoCell" } else { mv(ch.mov, "twoCell") };
                let name = ch.name.as_ref().filter(|n| !n.is_empty()).map_or(String::new(), |n| named(n));
                say.push(format!("chart {place} {m}{name}{}: {} {}", alt(&ch.alt), self.chart_text(ch), alone(ch, &names, sheet_chart)));
                let mut v = vec![];
                self.chart_caches(ch, true, &mut v);
                for l in v {
                    put(out, "cache", format!("{at} chart {n} {l}"));
                }
            }
            for ((r, c, y, x), op) in &shapes {
                let SOp::Shape { text, w, h, alt: a, url, link: l, .. } = op else { continue };
                let or = |n: u16, d: f64| if n > 0 { n as f64 } else { d };
                let place = g.place(*r, *c as u32, *x as f64, *y as f64, Some((or(*w, 192.0), or(*h, 120.0))), false);
                let from = l.as_ref().map_or(String::new(), |l| format!("{}!{}", names[l.h], a1_abs(l.g.r1, l.g.c1)));
                let text = text.lines().map(|t| if t.trim().is_empty() { "" } else { t }).collect::<Vec<_>>().join("\n");
                say.push(format!("textbox {text:?} from {from:?} {place} twoCell{}{}", alt(a), link(url, &None)));
            }
            for (k, ((r, c, y, x), op)) in buttons.iter().enumerate() {
                let SOp::Button { caption, mac, w, h, alt: a, .. } = op else { continue };
                let or = |n: u16, d: f64| if n > 0 { n as f64 } else { d };
                let place = g.place(*r, *c as u32, *x as f64, *y as f64, Some((or(*w, 64.0), or(*h, 20.0))), false);
                let text = caption.clone().filter(|c| !c.is_empty()).unwrap_or(format!("Button {}", k + 1));
                let mac = mac.clone().unwrap_or(format!("Button{}_Click", k + 1));
                say.push(format!("button {place} {text:?} macro {:?} alt {:?}", format!("[0]!{mac}"), a.clone().unwrap_or_default()));
            }
            for ((r, c), op) in &notes {
                let SOp::Note { text, author: a, vis, w, h, prefix, alt, .. } = op else { continue };
                let a = a.clone().unwrap_or(author.clone());
                let or = |n: u16, d: f64| if n > 0 { n as f64 } else { d };
                // Next to the cell, but not over the edges of the sheet.
                let (lr, lc) = (1048575, 16383u32);
                let nr = match lr - *r {
                    0 | 1 | 2 => lr - [4, 5, 6][(lr - *r) as usize],
                    _ => r.saturating_sub(1),
                };
                let nc = match lc - *c as u32 {
                    k @ (0 | 1 | 2) => lc - [3, 4, 5][k as usize],
                    _ => *c as u32 + 1,
                };
                let y = match (*r, lr - *r) {
                    (0, _) => 2.0,
                    (_, 0) => 14.0,
                    (_, 1 | 2) => 16.0,
                    _ => 10.0,
                };
                let x = if lc - *c as u32 <= 2 { 49.0 } else { 15.0 };
                let place = g.place(nr, nc, x, y, Some((or(*w, 128.0), or(*h, 74.0))), false);
                let text = if *prefix { format!("{a}:\n{text}") } else { text.clone() };
                say.push(format!("note {} by {a:?} {:?} {place} visible {} alt {:?}", a1(*r, *c), short(&text), vis.unwrap_or(show), alt.clone().unwrap_or_default()));
            }
            for s in say {
                put(out, "obj", format!("{at} {s}"));
            }
        }
        for k in ["obj", "cache"] {
            if let Some(v) = out.get_mut(k) {
                v.sort();
            }
        }
    }
}
