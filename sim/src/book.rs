//! The structure of a workbook - sheets, states, names, views, printing and
//! protection: what a package says about it and what the model says.
use crate::decode::*;
use crate::gen::quoted;
use crate::model::*;
use crate::pkg::Node;
use crate::ranges::{canon, password_hash};
use crate::spec::*;
use std::collections::BTreeMap;

/// Sheet names without their quotes, where they stand before a '!'.
fn plain_refs(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '"' {
            out.push(c[i]);
            i += 1;
            while i < c.len() {
                out.push(c[i]);
                i += 1;
                if c[i - 1] == '"' {
                    break;
                }
            }
            continue;
        }
        if c[i] == '\'' {
            let mut name = String::new();
            let mut j = i + 1;
            while j < c.len() {
                if c[j] == '\'' && c.get(j + 1) == Some(&'\'') {
                    name.push('\'');
                    j += 2;
                } else if c[j] == '\'' {
                    break;
                } else {
                    name.push(c[j]);
                    j += 1;
                }
            }
            if c.get(j + 1) == Some(&'!') {
                out.push_str(&name);
                i = j + 1;
                continue;
            }
        }
        out.push(c[i]);
        i += 1;
    }
    out
}

/// Attributes that differ from their defaults.
fn effective(n: &Node, defaults: &[(&str, &str)], drop: &[&str]) -> String {
    let mut v: Vec<String> = n
        .attrs
        .iter()
        .filter(|(k, _)| !drop.contains(&k.as_str()))
        .map(|(k, x)| {
            let x = match x.as_str() {
                "true" => "1",
                "false" => "0",
                x => x,
            };
            (k, x)
        })
        .filter(|(k, x)| !defaults.iter().any(|(d, y)| d == k && y == x))
        .map(|(k, x)| format!(" {k}={:?}", unescape(x)))
        .collect();
    v.sort();
    v.concat()
}
const VIEW: [(&str, &str); 10] = [
    ("showGridLines", "1"),
    ("rightToLeft", "0"),
    ("tabSelected", "0"),
    ("view", "normal"),
    ("topLeftCell", "A1"),
    ("zoomScale", "100"),
    ("zoomScaleNormal", "100"),
    ("zoomScalePageLayoutView", "100"),
    ("zoomScaleSheetLayoutView", "100"),
    ("showRowColHeaders", "1"),
];
const SETUP: [(&str, &str); 10] = [
    ("paperSize", "1"),
    ("scale", "100"),
    ("fitToWidth", "1"),
    ("fitToHeight", "1"),
    ("pageOrder", "downThenOver"),
    ("orientation", "portrait"),
    ("blackAndWhite", "0"),
    ("draft", "0"),
    ("firstPageNumber", "1"),
    ("useFirstPageNumber", "0"),
];
const OPTIONS: [(&str, &str); 4] = [("horizontalCentered", "0"), ("verticalCentered", "0"), ("headings", "0"), ("gridLines", "0")];
const HF: [(&str, &str); 2] = [("scaleWithDoc", "1"), ("alignWithMargins", "1")];
/// The default of each attribute is the locked state of a protected sheet.
const PROTECTION: [(&str, &str); 16] = [
    ("sheet", "0"),
    ("objects", "0"),
    ("scenarios", "0"),
    ("formatCells", "1"),
    ("formatColumns", "1"),
    ("formatRows", "1"),
    ("insertColumns", "1"),
    ("insertRows", "1"),
    ("insertHyperlinks", "1"),
    ("deleteColumns", "1"),
    ("deleteRows", "1"),
    ("selectLockedCells", "0"),
    ("sort", "1"),
    ("autoFilter", "1"),
    ("pivotTables", "1"),
    ("selectUnlockedCells", "0"),
];

impl Dec<'_> {
    pub fn book(&self, out: &mut Facts) -> Result<(), String> {
        let wb = &self.p.xml["xl/workbook.xml"];
        let mut add = |t: String| put(out, "book", t);
        let mut ids: BTreeMap<String, u32> = BTreeMap::new();
        let mut names: BTreeMap<String, u32> = BTreeMap::new();
        for s in wb.path(&["sheets"]).into_iter().flat_map(|s| s.kids.iter()) {
            *ids.entry(s.a("sheetId")).or_default() += 1;
            *names.entry(s.a("name").to_lowercase()).or_default() += 1;
        }
        if ids.values().chain(names.values()).any(|n| *n > 1) {
            add("two sheets with one name or id".into());
        }
        for (i, s) in self.sheets.iter().enumerate() {
            let state = if s.state.is_empty() { "visible" } else { &s.state };
            add(format!("sheet {i} {:?} {} {state}", s.name, if s.chart { "chart" } else { "worksheet" }));
        }
        let view = wb.path(&["bookViews", "workbookView"]).ok_or("no workbook view")?;
        let n = |k: &str| view.attr(k).unwrap_or("0").to_string();
        add(format!("active {} first {}", n("activeTab"), n("firstSheet")));
        for d in wb.kids("definedNames").flat_map(|d| d.kids.iter()) {
            let local = d.attr("localSheetId").unwrap_or("-");
            add(format!("name {:?} sheet {local} hidden {} is {:?}", d.a("name"), d.attr("hidden").unwrap_or("0"), plain_refs(&unescape(&d.text))));
        }
        if wb.kid("fileSharing").is_some_and(|f| f.attr("readOnlyRecommended") == Some("1")) {
            add("read only recommended".into());
        }
        if let Some(n) = wb.kid("workbookPr").and_then(|w| w.attr("codeName")) {
            add(format!("workbook code name {n:?}"));
        }
        for (i, s) in self.sheets.iter().enumerate() {
            let n = self.p.xml.get(&s.path).ok_or("a sheet part is missing")?;
            let at = format!("sheet {i} {:?}", s.name);
            let mut say = |t: String| put(out, "book", format!("{at} {t}"));
            if let Some(p) = n.kid("sheetPr") {
                if let Some(c) = p.attr("codeName") {
                    say(format!("code name {c:?}"));
                }
                if let Some(c) = p.kid("tabColor") {
                    say(format!("tab colour{}", effective(c, &[], &[])));
                }
                if p.path(&["pageSetUpPr"]).is_some_and(|p| p.attr("fitToPage") == Some("1")) {
                    say("fit to page".into());
                }
            }
            let v: Vec<&Node> = n.kids("sheetViews").flat_map(|v| v.kids.iter()).collect();
            if v.len() != 1 {
                say(format!("{} views", v.len()));
            }
            for v in v {
                say(format!("view{}", effective(v, &VIEW, &["workbookViewId"])));
                for k in &v.kids {
                    match (k.name.as_str(), k.attr("pane")) {
                        // Where the cursor is in each pane has no meaning here.
                        ("selection", Some(_)) => {}
                        _ => say(canon(k, &[])),
                    }
                }
            }
            if let Some(o) = n.kid("printOptions").map(|o| effective(o, &OPTIONS, &[])).filter(|o| !o.is_empty()) {
                say(format!("print options{o}"));
            }
            if let Some(m) = n.kid("pageMargins") {
                let v: Vec<String> = ["left", "right", "top", "bottom", "header", "footer"].iter().map(|k| m.a(k).parse::<f64>().map_or("?".into(), |x| format!("{x}"))).collect();
                say(format!("margins {}", v.join(" ")));
            }
            let setup = match n.kid("pageSetup") {
                Some(o) => effective(o, &SETUP, &["horizontalDpi", "verticalDpi"]),
                // Chartsheets are landscape unless they say otherwise.
                None if n.name == "chartsheet" => " orientation=\"landscape\"".into(),
                None => String::new(),
            };
            if !setup.is_empty() {
                say(format!("page setup{setup}"));
            }
            if let Some(h) = n.kid("headerFooter") {
                let t = |k: &str| h.kid(k).map_or(String::new(), |x| unescape(&x.text));
                say(format!("header {:?} footer {:?}{}", t("oddHeader"), t("oddFooter"), effective(h, &HF, &[])));
            }
            for k in ["rowBreaks", "colBreaks"] {
                let v: Vec<String> = n.kids(k).flat_map(|b| b.kids.iter()).map(|b| b.a("id")).collect();
                if !v.is_empty() {
                    say(format!("{k} {}", v.join(" ")));
                }
            }
            if let Some(p) = n.kid("sheetProtection") {
                say(format!("protection{}", effective(p, &PROTECTION, &[])));
            }
        }
        Ok(())
    }
}

#[derive(Clone)]
struct Tab {
    active: bool,
    selected: bool,
    first: bool,
    state: &'static str,
}

impl Model {
    pub fn book(&self, out: &mut Facts) {
        let tabs: Vec<Tab> = self
            .order
            .iter()
            .map(|h| {
                let mut t = Tab { active: false, selected: false, first: false, state: "visible" };
                for op in &self.sheets[*h].ops {
                    let SOp::State(s) = op else { continue };
                    match s {
                        State::Active(b) => {
                            t.active = *b;
                            if *b {
                                t.selected = true;
                                t.state = "visible";
                            }
                        }
                        State::Selected(b) => {
                            t.selected = *b;
                            if *b {
                                t.state = "visible";
                            }
                        }
                        State::Hidden(b) | State::VeryHidden(b) => {
                            t.state = match (s, b) {
                                (_, false) => "visible",
                                (State::Hidden(_), _) => "hidden",
                                _ => "veryHidden",
                            };
                            if *b {
                                t.selected = false;
                                t.active = false;
                            }
                        }
                        State::First(b) => {
                            t.first = *b;
                            if *b {
                                t.state = "visible";
                            }
                        }
                        _ => {}
                    }
                }
                t
            })
            .collect();
        let active = tabs.iter().rposition(|t| t.active).unwrap_or(0);
        let first = tabs.iter().rposition(|t| t.first).unwrap_or(0);
        let xlsm = self.ops.iter().any(|o| matches!(o, Op::Vba));
        let mut book: Vec<String> = vec![];
        let mut wb_code = if xlsm { Some("ThisWorkbook".to_string()) } else { None };
        // The application wants the first visible tab as a count from one.
        book.push(format!("active {active} first {}", if first > 0 { first + 1 } else { 0 }));
        for o in &self.ops {
            match o {
                Op::DefName { name, formula } => {
                    let (sheet, n) = match name.rsplit_once('!') {
                        None => ("-".to_string(), name.as_str()),
                        Some((s, n)) => {
                            let s = plain_refs(&format!("{s}!"));
                            let s = &s[..s.len() - 1];
                            (self.order.iter().position(|h| self.sheets[*h].name == s).map_or("unknown".into(), |i| i.to_string()), n)
                        }
                    };
                    book.push(format!("name {n:?} sheet {sheet} hidden 0 is {:?}", plain_refs(formula.strip_prefix('=').unwrap_or(formula))));
                }
                Op::ReadOnly => {
                    if !book.iter().any(|b| b.starts_with("read only")) {
                        book.push("read only recommended".into());
                    }
                }
                Op::VbaName(n) => wb_code = Some(n.clone()),
                _ => {}
            }
        }
        if let Some(n) = wb_code {
            book.push(format!("workbook code name {n:?}"));
        }
        for b in book {
            put(out, "book", b);
        }
        for (i, h) in self.order.iter().enumerate() {
            let w = &self.sheets[*h];
            let t = &tabs[i];
            let chart = w.kind == Kind::Chart;
            let state = if i == active { "visible" } else { t.state };
            put(out, "book", format!("sheet {i} {:?} {} {state}", w.name, if chart { "chart" } else { "worksheet" }));
            let at = format!("sheet {i} {:?}", w.name);
            let mut say: Vec<String> = vec![];
            let mut v: BTreeMap<&str, String> = BTreeMap::new();
            let mut code = if xlsm { Some(format!("Sheet{}", i + 1)) } else { None };
            let mut tab = None;
            let (mut freeze, mut top) = ((0, 0), (0, 0));
            let mut selection: Option<String> = None;
            let (mut view, mut zoom) = ("normal", 100);
            let mut setup: BTreeMap<&str, String> = BTreeMap::new();
            if chart {
                setup.insert("orientation", "landscape".into());
            }
            let mut options: BTreeMap<&str, bool> = BTreeMap::new();
            let mut fit: Option<(u16, u16)> = None;
            let mut sizes = (1, 1);
            let mut scale = 100;
            let mut margins = [0.7, 0.7, 0.75, 0.75, 0.3, 0.3];
            let (mut header, mut footer, mut hf) = (String::new(), String::new(), false);
            let (mut with_doc, mut with_page) = (true, true);
            let (mut rows, mut cols): (Vec<u32>, Vec<u32>) = (vec![], vec![]);
            let (mut on, mut hash, mut opts) = (false, String::new(), 0u16);
            let (mut area, mut rep_rows, mut rep_cols, mut filter) = (None, None, None, None);
            for op in &w.ops {
                match op {
                    SOp::State(State::TabColor(c)) => tab = Some(*c),
                    SOp::VbaName(n) => code = Some(n.clone()),
                    SOp::Autofilter { g } => filter = Some(g.clone()),
                    SOp::HdrImg { .. } => hf = true,
                    SOp::Protect { pw, opts: o } => {
                        on = true;
                        match (pw, o) {
                            (Some(p), _) => hash = password_hash(p).map_or(String::new(), |h| format!(" password={h:?}")),
                            (None, Some(o)) => opts = *o,
                            _ => {}
                        }
                    }
                    SOp::View(x) => match x {
                        View::Zoom(z) => zoom = *z,
                        View::Freeze(r, c) => freeze = (*r, *c),
                        View::FreezeTop(r, c) => top = (*r, *c),
                        View::Selection(g) => selection = Some(canon(&nd("selection", &[("activeCell", &a1(g.r1, g.c1)), ("sqref", &ordered(g).a1())], vec![]), &[])),
                        View::TopLeft(r, c) => {
                            // The first cell is what a view starts with.
                            v.remove("topLeftCell");
                            if (*r, *c) != (0, 0) {
                                v.insert("topLeftCell", a1(*r, *c));
                            }
                        }
                        View::Rtl(b) => {
                            v.remove("rightToLeft");
                            if *b {
                                v.insert("rightToLeft", "1".into());
                            }
                        }
                        View::Gridlines(b) => {
                            v.remove("showGridLines");
                            if !*b {
                                v.insert("showGridLines", "0".into());
                            }
                        }
                        View::Layout => view = "pageLayout",
                        View::BreakPreview => view = "pageBreakPreview",
                        View::Normal => view = "normal",
                    },
                    SOp::Print(x) => {
                        let mut set = |k: &'static str, x: Option<String>| match x {
                            Some(x) => setup.insert(k, x),
                            None => setup.remove(k),
                        };
                        match x {
                            Print::Area(g) => area = Some(g.clone()).filter(|g| !(whole_rows(g) && whole_cols(g))),
                            Print::RepeatRows(a, b) => rep_rows = Some((*a, *b)),
                            Print::RepeatCols(a, b) => rep_cols = Some((*a, *b)),
                            Print::Landscape => {
                                set("orientation", Some("landscape".into()));
                            }
                            Print::Portrait => {
                                set("orientation", None);
                            }
                            Print::Paper(n) => {
                                set("paperSize", if *n > 1 { Some(n.to_string()) } else { None });
                            }
                            Print::PageOrder(b) => {
                                set("pageOrder", if *b { None } else { Some("overThenDown".into()) });
                            }
                            Print::FirstPage(n) => {
                                set("firstPageNumber", if *n > 1 { Some(n.to_string()) } else { None });
                                set("useFirstPageNumber", if *n > 0 { Some("1".into()) } else { None });
                            }
                            Print::BlackWhite(b) => {
                                set("blackAndWhite", b.then(|| "1".into()));
                            }
                            Print::Draft(b) => {
                                set("draft", b.then(|| "1".into()));
                            }
                            Print::Scale(n) => {
                                scale = *n;
                                fit = None;
                            }
                            Print::Fit(a, b) => {
                                scale = 100;
                                sizes = (*a, *b);
                                fit = Some(sizes);
                            }
                            Print::Header(s) => {
                                header = s.clone();
                                hf = true;
                            }
                            Print::Footer(s) => {
                                footer = s.clone();
                                hf = true;
                            }
                            Print::ScaleWithDoc(b) => {
                                with_doc = *b;
                                hf |= !*b;
                            }
                            Print::AlignWithPage(b) => {
                                with_page = *b;
                                hf |= !*b;
                            }
                            Print::Margins(m) => margins = m.map(|x| x as f64 / 100.0),
                            Print::CenterH(b) => {
                                options.insert("horizontalCentered", *b);
                            }
                            Print::CenterV(b) => {
                                options.insert("verticalCentered", *b);
                            }
                            Print::Gridlines(b) => {
                                options.insert("gridLines", *b);
                            }
                            Print::Headings(b) => {
                                options.insert("headings", *b);
                            }
                            Print::Breaks(b) => breaks(&mut rows, b),
                            Print::VBreaks(b) => breaks(&mut cols, b),
                        }
                    }
                    _ => {}
                }
            }
            let text = |m: &BTreeMap<&str, String>| m.iter().map(|(k, v)| format!(" {k}={v:?}")).collect::<String>();
            if let Some(c) = code {
                say.push(format!("code name {c:?}"));
            }
            if let Some(c) = tab {
                say.push(format!("tab colour rgb=\"FF{c:06X}\""));
            }
            if t.selected || i == active {
                v.insert("tabSelected", "1".into());
            }
            if view != "normal" {
                v.insert("view", view.into());
            }
            if zoom != 100 {
                v.insert("zoomScale", zoom.to_string());
                match view {
                    "pageLayout" => v.insert("zoomScalePageLayoutView", zoom.to_string()),
                    "normal" if chart => None,
                    "normal" => v.insert("zoomScaleNormal", zoom.to_string()),
                    _ => v.insert("zoomScaleSheetLayoutView", zoom.to_string()),
                };
            }
            say.push(format!("view{}", text(&v)));
            if freeze != (0, 0) {
                let (r, c): (u32, u16) = freeze;
                let cell = if top == (0, 0) { freeze } else { top };
                let active = match (r > 0, c > 0) {
                    (true, true) => "bottomRight",
                    (false, _) => "topRight",
                    _ => "bottomLeft",
                };
                let (x, y, cell) = (c.to_string(), r.to_string(), a1(cell.0, cell.1));
                let mut a = vec![("topLeftCell", cell.as_str()), ("activePane", active), ("state", "frozen")];
                if c > 0 {
                    a.push(("xSplit", &x));
                }
                if r > 0 {
                    a.push(("ySplit", &y));
                }
                say.push(canon(&nd("pane", &a, vec![]), &[]));
            }
            say.extend(selection);
            let o: String = options.iter().filter(|(_, b)| **b).map(|(k, _)| format!(" {k}=\"1\"")).collect();
            if !o.is_empty() {
                say.push(format!("print options{o}"));
            }
            say.push(format!("margins {}", margins.map(|m| format!("{m}")).join(" ")));
            if let Some((a, b)) = fit {
                say.push("fit to page".into());
                if a != 1 {
                    setup.insert("fitToWidth", a.to_string());
                }
                if b != 1 {
                    setup.insert("fitToHeight", b.to_string());
                }
            } else if scale != 100 {
                setup.insert("scale", scale.to_string());
            }
            if !setup.is_empty() {
                say.push(format!("page setup{}", text(&setup)));
            }
            if hf && !w.ops.iter().any(|o| matches!(o, SOp::HdrImg { .. })) {
                let x = [(with_page, " alignWithMargins=\"0\""), (with_doc, " scaleWithDoc=\"0\"")].iter().filter(|(b, _)| !b).map(|(_, s)| *s).collect::<String>();
                say.push(format!("header {header:?} footer {footer:?}{x}"));
            }
            for (k, b) in [("rowBreaks", &rows), ("colBreaks", &cols)] {
                if !b.is_empty() {
                    say.push(format!("{k} {}", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
                }
            }
            if on {
                let b = |i: u16| opts & (1 << i) != 0;
                let mut a: Vec<String> = vec![" sheet=\"1\"".into()];
                if !hash.is_empty() {
                    a.push(hash.clone());
                }
                for (i, k) in [
                    (2, "formatCells"), (3, "formatColumns"), (4, "formatRows"), (5, "insertColumns"), (6, "insertRows"), (7, "insertHyperlinks"), (8, "deleteColumns"),
                    (9, "deleteRows"), (10, "sort"), (11, "autoFilter"), (12, "pivotTables"),
                ] {
                    if b(i) {
                        a.push(format!(" {k}=\"0\""));
                    }
                }
                for (on, k) in [(!b(14), "objects"), (!b(13), "scenarios"), (b(0), "selectLockedCells"), (b(1), "selectUnlockedCells")] {
                    if on {
                        a.push(format!(" {k}=\"1\""));
                    }
                }
                a.sort();
                say.push(format!("protection{}", a.concat()));
            }
            for s in say {
                put(out, "book", format!("{at} {s}"));
            }
            let mut name = |n: &str, hidden: u8, r: String| put(out, "book", format!("name {n:?} sheet {i} hidden {hidden} is {:?}", plain_refs(&r)));
            if let Some(g) = filter {
                name("_xlnm._FilterDatabase", 1, self.area(*h, &g));
            }
            if let Some(g) = area {
                let q = quoted(&w.name);
                let r = if whole_rows(&g) {
                    format!("{q}!${}:${}", g.r1 + 1, g.r2 + 1)
                } else if whole_cols(&g) {
                    format!("{q}!${}:${}", col_name(g.c1), col_name(g.c2))
                } else {
                    self.area(*h, &g)
                };
                name("_xlnm.Print_Area", 0, r);
            }
            let q = quoted(&w.name);
            let r = rep_rows.map(|(a, b)| format!("{q}!${}:${}", a + 1, b + 1));
            let c = rep_cols.map(|(a, b)| format!("{q}!${}:${}", col_name(a), col_name(b)));
            if let Some(r) = match (c, r) {
                (Some(c), Some(r)) => Some(format!("{c},{r}")),
                (c, r) => c.or(r),
            } {
                name("_xlnm.Print_Titles", 0, r);
            }
        }
    }
}
fn whole_rows(g: &Rng4) -> bool {
    g.c1 == 0 && g.c2 == 16_383
}
fn whole_cols(g: &Rng4) -> bool {
    g.r1 == 0 && g.r2 == 1_048_575
}
fn ordered(g: &Rng4) -> Rng4 {
    Rng4::new(g.r1.min(g.r2), g.c1.min(g.c2), g.r1.max(g.r2), g.c1.max(g.c2))
}
fn breaks(to: &mut Vec<u32>, b: &[u32]) {
    let mut v: Vec<u32> = b.iter().copied().filter(|x| *x > 0).collect();
    v.sort();
    v.dedup();
    if !b.is_empty() {
        *to = v;
    }
}
