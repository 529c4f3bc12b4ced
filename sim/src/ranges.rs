//! Tables, rules, filters, sparklines, links, merged and protected ranges:
//! what a package says about them and what the model says about them.
use crate::decode::*;
use crate::exec::{BAR_COLORS, ICONS, TABLE_STYLE_NAMES};
use crate::gen::quoted;
use crate::model::*;
use crate::pkg::{rels_source, Node};
use crate::spec::*;
use std::collections::BTreeMap;

/// A canonical rendering of a node: attributes sorted, namespaces and the
/// given attributes left out.
pub fn canon(n: &Node, drop: &[&str]) -> String {
    let mut a: Vec<String> = n
        .attrs
        .iter()
        .filter(|(k, _)| !k.starts_with("xmlns") && !drop.contains(&k.as_str()))
        .map(|(k, v)| format!(" {k}={:?}", unescape(v)))
        .collect();
    a.sort();
    let mut s = format!("<{}{}>", n.name, a.concat());
    if n.kids.is_empty() {
        let t = unescape(&n.text);
        // Whether a sheet name is quoted without need does not matter.
        s.push_str(&if n.name == "xm:f" { unquoted(&t) } else { t });
    }
    for k in &n.kids {
        s.push_str(&canon(k, drop));
    }
    s.push_str("</>");
    s
}
pub fn unquoted(s: &str) -> String {
    match s.strip_prefix('\'').and_then(|x| x.rsplit_once("'!")) {
        Some((n, r)) => format!("{}!{r}", n.replace("''", "'")),
        None => s.to_string(),
    }
}
/// The colour of the line or columns in the built-in sparkline styles.
fn spark_style(n: u8) -> String {
    let theme = |t: u8, tint: &str| format!("theme {t} {tint}");
    match n {
        0..=24 => {
            let n = n.max(1) - 1;
            theme(4 + n % 6, ["-0.499984740745262", "-0.249977111117893", "", "0.39997558519241921"][n as usize / 6])
        }
        25 => theme(1, "0.499984740745262"),
        26 => theme(1, "0.34998626667073579"),
        27 => "FF323232".into(),
        28 => "FF000000".into(),
        29 => "FF376092".into(),
        30 => "FF0070C0".into(),
        31 => "FF5F5F5F".into(),
        32 => "FF5687C2".into(),
        33 => "FFC6EFCE".into(),
        34 => "FF00B050".into(),
        35 => theme(3, ""),
        _ => theme(1, ""),
    }
}
fn tx(name: &str, text: &str) -> Node {
    Node { text: text.to_string(), ..nd(name, &[], vec![]) }
}
type A = Vec<(&'static str, String)>;
fn node(name: &str, a: &A, kids: Vec<Node>) -> Node {
    let v: Vec<(&str, &str)> = a.iter().map(|(k, v)| (*k, v.as_str())).collect();
    nd(name, &v, kids)
}

const X14_COLORS: [&str; 5] = ["x14:borderColor", "x14:negativeFillColor", "x14:negativeBorderColor", "x14:axisColor", "x14:fillColor"];

impl Dec<'_> {
    fn dxf(&self, i: Option<&str>) -> String {
        match i {
            None => String::new(),
            Some(i) => format!(" dxf {}", i.parse::<usize>().ok().and_then(|i| self.st.dxfs.get(i)).map_or("missing", |s| s.as_str())),
        }
    }
    pub fn ranges(&self, out: &mut Facts) -> Result<(), String> {
        for (i, s) in self.sheets.iter().enumerate() {
            if s.chart {
                continue;
            }
            let n = self.p.xml.get(&s.path).ok_or("a sheet part is missing")?;
            let at = format!("sheet {i} {:?}", s.name);
            let mut add = |t: String| put(out, "range", format!("{at} {t}"));
            let list = |k: &'static str| -> Vec<&Node> { n.kids(k).flat_map(|k| k.kids.iter()).collect() };
            for m in list("mergeCells") {
                add(format!("merged {}", m.a("ref")));
            }
            for l in list("hyperlinks") {
                let target = match l.attr("r:id") {
                    None => "-".to_string(),
                    Some(id) => match self.p.rel(&s.path, id) {
                        None => "missing".into(),
                        Some(r) if !r.external => format!("inside the package: {}", r.target),
                        Some(r) => r.target.clone(),
                    },
                };
                add(format!("link {} to {target:?} at {:?} tip {:?}", l.a("ref"), l.a("location"), unescape(&l.a("tooltip"))));
            }
            for t in list("tableParts") {
                let part = self.p.follow(&s.path, &t.a("r:id")).ok_or("a table has no part")?;
                let t = self.p.xml.get(&part).ok_or("a table part is missing")?;
                let mut d = format!("table {} {:?} {:?}", t.a("ref"), t.a("name"), t.a("displayName"));
                for k in ["headerRowCount", "totalsRowCount"] {
                    if let Some(v) = t.attr(k) {
                        d.push_str(&format!(" {k}={v}"));
                    }
                }
                d.push_str(&format!(" filter {}", t.kid("autoFilter").map_or("-".into(), |f| f.a("ref"))));
                d.push_str(&t.kid("tableStyleInfo").map_or("no style".into(), |f| canon(f, &[])));
                add(d);
                for c in t.kid("tableColumns").into_iter().flat_map(|c| c.kids.iter()) {
                    add(format!("table {} {}{}", t.a("ref"), canon(c, &["dataDxfId"]), self.dxf(c.attr("dataDxfId"))));
                }
            }
            // Conditional formats: base rules and their extensions.
            let ext = |k: &'static str| -> Vec<&Node> { n.kids("extLst").flat_map(|e| e.kids.iter()).flat_map(|e| e.kids(k)).flat_map(|g| g.kids.iter()).collect() };
            let mut rules: Vec<(i64, String)> = vec![];
            let mut x14: BTreeMap<String, (String, &Node)> = BTreeMap::new();
            for g in ext("x14:conditionalFormattings") {
                let sq = g.kid("xm:sqref").map_or(String::new(), |s| s.text.clone());
                for r in g.kids("x14:cfRule") {
                    if x14.insert(r.a("id"), (sq.clone(), r)).is_some() {
                        add(format!("cf: the id {} twice", r.a("id")));
                    }
                }
            }
            // The colours of a bar as they come out.
            let ext_text = |r: &Node, fill: &str| {
                let mut r = r.clone();
                for b in r.kids.iter_mut().filter(|b| b.name == "x14:dataBar") {
                    let c = |k: &str| b.kid(k).map_or("none".to_string(), |c| c.a("rgb"));
                    let on = |k: &str| matches!(b.a(k).as_str(), "1" | "true");
                    let same = b.attr("negativeBarBorderColorSameAsPositive").is_none_or(|v| v == "1" || v == "true");
                    let border = if on("border") { c("x14:borderColor") } else { "none".into() };
                    let negative = if on("negativeBarColorSameAsPositive") { fill.to_string() } else { c("x14:negativeFillColor") };
                    let nborder = match (on("border"), same) {
                        (false, _) => "none".into(),
                        (_, true) => border.clone(),
                        _ => c("x14:negativeBorderColor"),
                    };
                    let v = nd("colors", &[("border", &border), ("negative", &negative), ("nborder", &nborder), ("axis", &c("x14:axisColor"))], vec![]);
                    b.kids.retain(|k| !X14_COLORS.contains(&k.name.as_str()));
                    b.attrs.retain(|(k, _)| !k.starts_with("negativeBar") && k != "border");
                    b.kids.push(v);
                }
                canon(&r, &["id", "priority"])
            };
            for g in n.kids("conditionalFormatting") {
                for r in g.kids("cfRule") {
                    let mut b = r.clone();
                    let id = b.all("x14:id").first().map(|i| i.text.clone());
                    b.kids.retain(|k| k.name != "extLst");
                    let mut d = format!("cf {} {}{}", g.a("sqref"), canon(&b, &["dxfId", "priority"]), self.dxf(r.attr("dxfId")));
                    if let Some(id) = id {
                        match x14.remove(&id) {
                            Some((sq, _)) if sq != g.a("sqref") => d.push_str(&format!(" extension of {sq}")),
                            Some((_, x)) => d.push_str(&ext_text(x, &r.all("color").first().map_or(String::new(), |c| c.a("rgb")))),
                            None => d.push_str(" extension missing"),
                        }
                    }
                    rules.push((r.a("priority").parse().unwrap_or(-1), d));
                }
            }
            for (sq, r) in x14.values() {
                rules.push((r.a("priority").parse().unwrap_or(-1), format!("cf {sq} {}", ext_text(r, ""))));
            }
            rules.sort();
            for (k, (_, d)) in rules.iter().enumerate() {
                add(format!("priority {} {d}", k + 1));
            }
            for v in list("dataValidations") {
                add(format!("dv {}", canon(v, &[])));
            }
            if let Some(f) = n.kid("autoFilter") {
                add(format!("filter {}", canon(f, &[])));
                if f.kids.iter().any(|k| k.name == "filterColumn") {
                    let g = crate::pkg::parse_range(&f.a("ref")).ok_or("bad autofilter range")?;
                    let hidden: Vec<usize> = list("sheetData").iter().filter(|r| r.attr("hidden") == Some("1")).map(|r| r.a("r").parse().unwrap_or(0)).collect();
                    for r in g.0 + 1..=g.2 {
                        let h = hidden.contains(&(r as usize + 1));
                        add(format!("row {} {}", r + 1, if h { "filtered" } else { "shown" }));
                    }
                }
            }
            for g in ext("x14:sparklineGroups") {
                let mut g2 = g.clone();
                let color = g.kid("x14:colorSeries").map_or(String::new(), |c| match c.attr("rgb") {
                    Some(c) => c.to_string(),
                    None => format!("theme {} {}", c.a("theme"), c.a("tint")),
                });
                g2.kids.retain(|k| !k.name.starts_with("x14:color"));
                add(format!("sparklines {} color {color}", canon(&g2, &[])));
            }
            for r in list("protectedRanges") {
                add(canon(r, &[]));
            }
            for r in list("ignoredErrors") {
                add(canon(r, &[]));
            }
        }
        let _ = rels_source;
        Ok(())
    }
}

const OPS: [&str; 8] = ["equal", "notEqual", "greaterThan", "greaterThanOrEqual", "lessThan", "lessThanOrEqual", "between", "notBetween"];

fn escape_link(s: &str) -> String {

        let b = s.as_bytes();
        if b.windows(3).any(|w| w[0] == b'%' && w[1].is_ascii_hexdigit() && w[2].is_ascii_hexdigit()) {
            return s.to_string();
        }
        s.chars()
            .map(|c| match c {
                '%' | '"' | ' ' | '<' | '>' | '[' | ']' | '^' | '`' | '{' | '}' => format!("%{:02x}", c as u32),
                c => c.to_string(),
            })
            .collect()
}
/// Where the link of an object leads, and if that is outside of the workbook.
pub fn object_target(l: &str) -> (String, bool) {
    if let Some(x) = l.strip_prefix("internal:") {
        return (format!("#{x}"), false);
    }
    if let Some(x) = l.strip_prefix("file:///").or(l.strip_prefix("file://")) {
        let abs = x.starts_with("\\\\") || x.as_bytes().get(1) == Some(&b':');
        let t = if abs { l.to_string() } else { x.replace('\\', "/") };
        return (escape_link(&t).replace('#', "%23"), true);
    }
    (escape_link(l), true)
}
/// Where a link leads: target and location.
pub fn link_target(l: &str) -> (String, String) {
    let escape = escape_link;
    let split = |s: &str| match s.split_once('#') {
        Some((a, b)) => (escape(a), b.to_string()),
        None => (escape(s), String::new()),
    };
    if let Some(x) = l.strip_prefix("internal:") {
        return ("-".into(), x.to_string());
    }
    if l.starts_with("mailto:") {
        return (escape(l), String::new());
    }
    if let Some(x) = l.strip_prefix("file:///").or(l.strip_prefix("file://")) {
        // Absolute paths keep the scheme.
        let abs = x.starts_with("\\\\") || x.as_bytes().get(1) == Some(&b':');
        return split(if abs { l } else { x });
    }
    split(l)
}

fn hash(pw: &str) -> Option<String> {
    if pw.is_empty() {
        return None;
    }
    let mut h: u32 = 0;
    for (i, b) in pw.bytes().enumerate() {
        // Each byte is rotated by its position in 15 bits.
        let k = (i as u32 + 1) % 15;
        let b = b as u32;
        h ^= ((b << k) | (b >> (15 - k))) & 0x7FFF;
    }
    Some(format!("{:04X}", h ^ pw.len() as u32 ^ 0xCE4B))
}
pub fn password_hash(pw: &str) -> Option<String> {
    hash(pw)
}

fn argb(c: u32) -> String {
    format!("FF{:06X}", c & 0xFFFFFF)
}
fn cfvo(t: &str, v: Option<String>) -> Node {
    let mut a: A = vec![("type", t.to_string())];
    if let Some(v) = v {
        a.push(("val", v));
    }
    node("cfvo", &a, vec![])
}
fn x_cfvo(t: &str, v: Option<String>) -> Node {
    node("x14:cfvo", &vec![("type", t.to_string())], v.map(|v| tx("xm:f", &v)).into_iter().collect())
}
/// A conditional format as its rule and the extension of the rule.
fn cf_nodes(g: &Rng4, s: &CfSpec) -> (Option<Node>, Option<Node>) {
    let anchor = a1(g.r1, g.c1);
    let dq = |s: &str| s.replace('"', "\"\"");
    let mut a: A = vec![];
    if s.stop {
        a.push(("stopIfTrue", "1".into()));
    }
    let mut rule = |t: &str, more: A, kids: Vec<Node>| {
        let mut a = a.clone();
        a.push(("type", t.to_string()));
        a.extend(more);
        node("cfRule", &a, kids)
    };
    let f = |s: String| vec![tx("formula", &s)];
    let base = match &s.cf {
        Cf::Cell { rule: r, a, b } => {
            let mut k = f(a.to_string());
            if r % 8 > 5 {
                k.extend(f(b.to_string()));
            }
            rule("cellIs", vec![("operator", OPS[*r as usize % 8].into())], k)
        }
        Cf::CellText { rule: r, a } => rule("cellIs", vec![("operator", OPS[*r as usize % 6].into())], f(format!("\"{}\"", dq(a)))),
        Cf::Blank { invert: false } => rule("containsBlanks", vec![], f(format!("LEN(TRIM({anchor}))=0"))),
        Cf::Blank { .. } => rule("notContainsBlanks", vec![], f(format!("LEN(TRIM({anchor}))>0"))),
        Cf::Error { invert: false } => rule("containsErrors", vec![], f(format!("ISERROR({anchor})"))),
        Cf::Error { .. } => rule("notContainsErrors", vec![], f(format!("NOT(ISERROR({anchor}))"))),
        Cf::Dup { invert } => rule(if *invert { "uniqueValues" } else { "duplicateValues" }, vec![], vec![]),
        Cf::Formula { f: x } => rule("expression", vec![], f(x.trim_start_matches('=').to_string())),
        Cf::Average { rule: r } => {
            let r = *r as usize % 10;
            let mut m: A = vec![];
            if r % 2 == 1 {
                m.push(("aboveAverage", "0".into()));
            }
            if r / 2 == 1 {
                m.push(("equalAverage", "1".into()));
            }
            if r > 3 {
                m.push(("stdDev", (r / 2 - 1).to_string()));
            }
            rule("aboveAverage", m, vec![])
        }
        Cf::Top { rule: r, n } => {
            let mut m: A = vec![("rank", n.to_string())];
            if r % 2 == 1 {
                m.push(("bottom", "1".into()));
            }
            if r % 4 > 1 {
                m.push(("percent", "1".into()));
            }
            rule("top10", m, vec![])
        }
        Cf::Text { rule: r, s } => {
            let (q, n) = (dq(s), s.chars().count());
            let (t, op, x) = match r % 4 {
                0 => ("containsText", "containsText", format!("NOT(ISERROR(SEARCH(\"{q}\",{anchor})))")),
                1 => ("notContainsText", "notContains", format!("ISERROR(SEARCH(\"{q}\",{anchor}))")),
                2 => ("beginsWith", "beginsWith", format!("LEFT({anchor},{n})=\"{q}\"")),
                _ => ("endsWith", "endsWith", format!("RIGHT({anchor},{n})=\"{q}\"")),
            };
            rule(t, vec![("operator", op.into()), ("text", s.clone())], f(x))
        }
        Cf::Date { rule: r } => {
            let r = *r as usize % 10;
            let a = &anchor;
            let day = format!("FLOOR({a},1)");
            let int = format!("ROUNDDOWN({a},0)");
            let month = |d: &str, m: &str, y: &str| format!("AND(MONTH({a})=MONTH(TODAY()){d}1,OR(YEAR({a})=YEAR(TODAY()),AND(MONTH({a})={m},YEAR({a})=YEAR(TODAY()){y}1)))");
            let (p, x) = match r {
                0 => ("yesterday", format!("{day}=TODAY()-1")),
                1 => ("today", format!("{day}=TODAY()")),
                2 => ("tomorrow", format!("{day}=TODAY()+1")),
                3 => ("last7Days", format!("AND(TODAY()-{day}<=6,{day}<=TODAY())")),
                4 => ("lastWeek", format!("AND(TODAY()-{int}>=(WEEKDAY(TODAY())),TODAY()-{int}<(WEEKDAY(TODAY())+7))")),
                5 => ("thisWeek", format!("AND(TODAY()-{int}<=WEEKDAY(TODAY())-1,{int}-TODAY()<=7-WEEKDAY(TODAY()))")),
                6 => ("nextWeek", format!("AND({int}-TODAY()>(7-WEEKDAY(TODAY())),{int}-TODAY()<(15-WEEKDAY(TODAY())))")),
                7 => ("lastMonth", month("-", "1", "-")),
                8 => ("thisMonth", format!("AND(MONTH({a})=MONTH(TODAY()),YEAR({a})=YEAR(TODAY()))")),
                _ => ("nextMonth", month("+", "12", "+")),
            };
            rule("timePeriod", vec![("timePeriod", p.into())], f(x))
        }
        Cf::Two { .. } | Cf::Three { .. } => {
            let v = |t: &str, v: &Option<i32>, d: &str, dv: &str| match v {
                Some(x) => cfvo(t, Some(x.to_string())),
                None => cfvo(d, Some(dv.into())),
            };
            let color = |c: u32| node("color", &vec![("rgb", argb(c))], vec![]);
            let kids = match &s.cf {
                Cf::Two { min, max, c1, c2 } => vec![v("num", min, "min", "0"), v("percent", max, "max", "0"), color(*c1), color(*c2)],
                Cf::Three { min, mid, max, c1, c2, c3 } => vec![
                    v("num", min, "min", "0"),
                    v("percentile", mid, "percentile", "50"),
                    v("percent", max, "max", "0"),
                    color(*c1),
                    color(*c2),
                    color(*c3),
                ],
                _ => vec![],
            };
            rule("colorScale", vec![], vec![nd("colorScale", &[], kids)])
        }
        Cf::Bar { color, classic, solid, only, dir, min, max, opt } => {
            let auto = |t: &str| cfvo(t, if *classic { Some("0".into()) } else { None });
            let mut kids = vec![
                min.map_or(auto("min"), |m| cfvo("num", Some(m.to_string()))),
                max.map_or(auto("max"), |m| cfvo("num", Some(m.to_string()))),
            ];
            kids.push(node("color", &vec![("rgb", argb(*color))], vec![]));
            let m: A = if *only { vec![("showValue", "0".into())] } else { vec![] };
            let base = rule("dataBar", vec![], vec![node("dataBar", &m, kids)]);
            if *classic {
                return (Some(base), None);
            }
            let mut m: A = vec![("minLength", "0".into()), ("maxLength", "100".into())];
            if *solid {
                m.push(("gradient", "0".into()));
            }
            if *dir > 0 {
                m.push(("direction", if *dir == 1 { "leftToRight" } else { "rightToLeft" }.into()));
            }
            if opt & 12 > 0 {
                m.push(("axisPosition", if opt & 4 > 0 { "none" } else { "middle" }.into()));
            }
            let c = |on: bool, c: String| if on { c } else { "none".into() };
            let negative = if opt & 2 > 0 { argb(BAR_COLORS[0]) } else { "FFFF0000".into() };
            let colors: A = vec![
                ("border", c(opt & 1 == 0, if opt & 16 > 0 { argb(BAR_COLORS[1]) } else { argb(*color) })),
                ("nborder", c(opt & 1 == 0, if opt & 32 > 0 { argb(BAR_COLORS[2]) } else { negative.clone() })),
                ("negative", negative),
                ("axis", c(opt & 4 == 0, if opt & 64 > 0 { argb(BAR_COLORS[3]) } else { "FF000000".into() })),
            ];
            let kids = vec![
                min.map_or(x_cfvo("autoMin", None), |m| x_cfvo("num", Some(m.to_string()))),
                max.map_or(x_cfvo("autoMax", None), |m| x_cfvo("num", Some(m.to_string()))),
                node("colors", &colors, vec![]),
            ];
            let ext = node("x14:cfRule", &vec![("type", "dataBar".into())], vec![node("x14:dataBar", &m, kids)]);
            return (Some(base), Some(ext));
        }
        Cf::Icons { ty, rev, only, custom } => {
            let (name, n) = ICONS[*ty as usize % ICONS.len()];
            let mut m: A = vec![];
            if name != "3TrafficLights1" {
                m.push(("iconSet", name.into()));
            }
            if *only {
                m.push(("showValue", "0".into()));
            }
            if *rev {
                m.push(("reverse", "1".into()));
            }
            let steps: &[i32] = match n {
                3 => &[0, 33, 67],
                4 => &[0, 25, 50, 75],
                _ => &[0, 20, 40, 60, 80],
            };
            if custom & 1 == 0 && !matches!(name, "3Stars" | "3Triangles" | "5Boxes") {
                let kids = if *custom > 0 {
                    let mut v = vec![cfvo("percent", Some("0".into()))];
                    v.extend((1..n).map(|i| cfvo("num", Some((10 * i as i32).to_string()))));
                    if custom & 4 > 0 {
                        v[1].attrs.push(("gte".into(), "0".into()));
                    }
                    v
                } else {
                    steps.iter().map(|x| cfvo("percent", Some(x.to_string()))).collect()
                };
                rule("iconSet", vec![], vec![node("iconSet", &m, kids)])
            } else {
                let mut kids: Vec<Node> = vec![];
                if *custom > 0 {
                    kids.push(x_cfvo("percent", Some("0".into())));
                    kids.extend((1..n).map(|i| x_cfvo("num", Some((10 * i as i32).to_string()))));
                    if custom & 4 > 0 {
                        kids[1].attrs.push(("gte".into(), "0".into()));
                    }
                }
                if custom & 1 > 0 {
                    m.push(("custom", "1".into()));
                    kids.push(node("x14:cfIcon", &vec![("iconSet", "5Boxes".into()), ("iconId", "2".into())], vec![]));
                    kids.extend((1..n).map(|i| node("x14:cfIcon", &vec![("iconSet", name.into()), ("iconId", i.to_string())], vec![])));
                } else if *custom == 0 {
                    kids.extend(steps.iter().map(|x| x_cfvo("percent", Some(x.to_string()))));
                }
                let mut a: A = vec![("type", "iconSet".into())];
                if s.stop {
                    a.push(("stopIfTrue", "1".into()));
                }
                return (None, Some(node("x14:cfRule", &a, vec![node("x14:iconSet", &m, kids)])));
            }
        }
    };
    (Some(base), None)
}

fn dv_node(sqref: &str, d: &DvSpec) -> Option<Node> {
    let mut a: A = vec![("sqref", sqref.to_string())];
    let op = |a: &mut A, r: u8| {
        if r % 8 != 6 {
            a.push(("operator", OPS[r as usize % 8].into()));
        }
        r % 8 > 5
    };
    let mut two = |a: &mut A, t: &'static str, r: u8, x: String, y: String| {
        a.push(("type", t.into()));
        let mut v = vec![x];
        if op(a, r) {
            v.push(y);
        }
        v
    };
    let strip = |s: &str| s.strip_prefix('=').unwrap_or(s).to_string();
    let v = match &d.rule {
        DvRule::Whole(r, x, y) => two(&mut a, "whole", *r, x.to_string(), y.to_string()),
        DvRule::WholeF(r, x, y) => two(&mut a, "whole", *r, strip(x), strip(y)),
        DvRule::Decimal(r, x, y) => two(&mut a, "decimal", *r, (*x as f64 / 4.0).to_string(), (*y as f64 / 4.0).to_string()),
        DvRule::Date(r, x, y) => {
            let s = |d: &(u16, u8, u8)| serial(d.0 as i64, d.1 as i64, d.2 as i64, 0).to_string();
            two(&mut a, "date", *r, s(x), s(y))
        }
        DvRule::Len(r, x, y) => two(&mut a, "textLength", *r, x.to_string(), y.to_string()),
        DvRule::List(l) => {
            a.push(("type", "list".into()));
            vec![format!("\"{}\"", l.iter().map(|s| s.replace('"', "\"\"")).collect::<Vec<_>>().join(","))]
        }
        DvRule::ListF(f) => {
            a.push(("type", "list".into()));
            vec![strip(f)]
        }
        DvRule::Custom(f) => {
            a.push(("type", "custom".into()));
            vec![strip(f)]
        }
        DvRule::Any => vec![],
    };
    let any = v.is_empty();
    let texts = [("promptTitle", &d.in_title), ("prompt", &d.in_msg), ("errorTitle", &d.err_title), ("error", &d.err_msg)];
    let texts: A = texts.iter().filter_map(|(k, v)| (*v).clone().filter(|v| !v.is_empty()).map(|v| (*k, v))).collect();
    if any && texts.is_empty() {
        return None;
    }
    a.extend(texts);
    if !any && d.style > 0 {
        a.push(("errorStyle", if d.style == 1 { "warning" } else { "information" }.into()));
    }
    for (k, v) in [("allowBlank", !d.no_blank), ("showDropDown", d.no_drop), ("showInputMessage", !d.no_in), ("showErrorMessage", !d.no_err)] {
        if v {
            a.push((k, "1".into()));
        }
    }
    Some(node("dataValidation", &a, v.iter().enumerate().map(|(i, s)| tx(if i == 0 { "formula1" } else { "formula2" }, s)).collect()))
}

fn filter_node(col: u16, f: &FilterSpec) -> Node {
    let k = match f {
        FilterSpec::List { strs, nums, blanks } => {
            let a: A = if *blanks { vec![("blank", "1".into())] } else { vec![] };
            let v = strs.iter().cloned().chain(nums.iter().map(|n| n.to_string()));
            node("filters", &a, v.map(|v| node("filter", &vec![("val", v)], vec![])).collect())
        }
        FilterSpec::Custom { c1, v1, second, or } => {
            let one = |c: u8, v: &FV| {
                let v = match v {
                    FV::N(n) => n.to_string(),
                    FV::S(s) => s.clone(),
                };
                let c = c % 12;
                let v = match c {
                    6 | 7 => format!("{v}*"),
                    8 | 9 => format!("*{v}"),
                    10 | 11 => format!("*{v}*"),
                    _ => v,
                };
                let mut a: A = vec![("val", v)];
                let op = if c < 6 { OPS[c as usize] } else { ["equal", "notEqual"][c as usize % 2] };
                if op != "equal" {
                    a.push(("operator", op.into()));
                }
                node("customFilter", &a, vec![])
            };
            let mut v = vec![one(*c1, v1)];
            v.extend(second.iter().map(|(c, v)| one(*c, v)));
            let a: A = if second.is_some() && !*or { vec![("and", "1".into())] } else { vec![] };
            node("customFilters", &a, v)
        }
    };
    node("filterColumn", &vec![("colId", col.to_string())], vec![k])
}
/// Whether a cell passes a filter; `None` where the model doesn't say.
fn passes(v: Option<&Cv>, f: &FilterSpec) -> Option<bool> {
    let norm = |s: &str| s.to_lowercase().trim().to_string();
    match f {
        FilterSpec::List { strs, nums, blanks } => match v {
            None | Some(Cv::Blank) => Some(*blanks),
            Some(Cv::Str(s)) => {
                let s = norm(s);
                Some(strs.iter().any(|x| norm(x) == s) || nums.iter().any(|n| n.to_string() == s) || (*blanks && s.is_empty()))
            }
            Some(Cv::Num(x)) => Some(nums.iter().any(|n| *n as f64 == *x)),
            _ => None,
        },
        FilterSpec::Custom { c1, v1, second, or } => {
            let one = |c: u8, w: &FV| match (v, w) {
                (Some(Cv::Str(s)), FV::S(w)) => {
                    let (s, w) = (norm(s), norm(w));
                    let r = match c % 12 {
                        0 | 1 => s == w,
                        6 | 7 => s.starts_with(&w),
                        8 | 9 => s.ends_with(&w),
                        10 | 11 => s.contains(&w),
                        _ => return None,
                    };
                    Some(r == (c % 2 == 0))
                }
                (Some(Cv::Num(x)), FV::N(n)) => {
                    let n = *n as f64;
                    Some(match c % 12 {
                        0 => *x == n,
                        1 => *x != n,
                        2 => *x > n,
                        3 => *x >= n,
                        4 => *x < n,
                        5 => *x <= n,
                        _ => return None,
                    })
                }
                _ => None,
            };
            let a = one(*c1, v1);
            match second {
                None => a,
                Some((c, w)) => match (a, one(*c, w)) {
                    (Some(a), Some(b)) => Some(if *or { a || b } else { a && b }),
                    _ => None,
                },
            }
        }
    }
}

impl Model {
    fn range_ref(&self, r: &Ref) -> String {
        self.area(r.h, &r.g)
    }
    pub fn area(&self, h: usize, g: &Rng4) -> String {
        format!("{}!{}", quoted(&self.sheets[h].name), a1_range_abs(g))
    }
    fn sparklines(&self, cells: Vec<(String, String)>, s: &SparkSpec) -> String {
        let fl = |i: u16| s.flags & (1 << i) != 0;
        let mut a: A = vec![];
        if let Some(m) = s.max {
            a.push(("manualMax", m.to_string()));
        }
        if let Some(m) = s.min {
            a.push(("manualMin", m.to_string()));
        }
        match s.ty {
            1 => a.push(("type", "column".into())),
            2 => a.push(("type", "stacked".into())),
            _ => {}
        }
        if s.weight4 > 0 {
            a.push(("lineWeight", (s.weight4 as f64 / 4.0).to_string()));
        }
        if s.dates.is_some() {
            a.push(("dateAxis", "1".into()));
        }
        match s.empty {
            1 => {}
            2 => a.push(("displayEmptyCellsAs", "span".into())),
            _ => a.push(("displayEmptyCellsAs", "gap".into())),
        }
        for (i, k) in ["high", "low", "first", "last", "negative", "markers", "displayXAxis", "displayHidden", "rightToLeft"].iter().enumerate() {
            if fl(i as u16) {
                a.push((k, "1".into()));
            }
        }
        for (k, v, g) in [("minAxisType", s.min.is_some(), fl(11)), ("maxAxisType", s.max.is_some(), fl(10))] {
            if v {
                a.push((k, "custom".into()));
            } else if g {
                a.push((k, "group".into()));
            }
        }
        let mut kids = vec![];
        if let Some(d) = &s.dates {
            kids.push(tx("xm:f", &self.range_ref(d).replace('$', "")));
        }
        let v = cells.iter().map(|(c, f)| nd("x14:sparkline", &[], vec![tx("xm:f", f), tx("xm:sqref", c)])).collect();
        kids.push(nd("x14:sparklines", &[], v));
        format!("sparklines {} color", canon(&node("x14:sparklineGroup", &a, kids), &[]))
    }
    pub fn ranges(&self, out: &mut Facts) {
        let mut table_no = 0;
        for (i, h) in self.order.iter().enumerate() {
            let w = &self.sheets[*h];
            if w.kind == Kind::Chart {
                continue;
            }
            let at = format!("sheet {i} {:?}", w.name);
            let mut facts: Vec<String> = vec![];
            let mut open: Vec<String> = vec![];
            let dxf = |f: &Option<usize>| f.map_or(String::new(), |f| format!(" dxf {}", self.fm[f].dxf()));
            let mut cfs: Vec<(String, Vec<String>)> = vec![];
            let mut dvs: BTreeMap<String, &DvSpec> = BTreeMap::new();
            let mut filter: Option<(Rng4, BTreeMap<u16, &FilterSpec>)> = None;
            let mut auto = true;
            let mut free = 0;
            let mut ignored: BTreeMap<u8, Vec<String>> = BTreeMap::new();
            let mut tables: Vec<(Rng4, TableSpec)> = vec![];
            for op in &w.ops {
                match op {
                    SOp::Merge { g, .. } => facts.push(format!("merged {}", g.a1())),
                    SOp::Table { g, t } => tables.push((g.clone(), t.clone())),
                    SOp::Cf { g, cf } => {
                        let sq = cf.multi.clone().unwrap_or(g.a1());
                        let (base, ext) = cf_nodes(g, cf);
                        let mut d = format!("cf {sq} ");
                        if let Some(b) = &base {
                            d.push_str(&canon(b, &[]));
                            d.push_str(&dxf(&cf.f));
                        }
                        if let Some(e) = &ext {
                            d.push_str(&canon(e, &[]));
                        }
                        match cfs.iter_mut().find(|x| x.0 == sq) {
                            Some(x) => x.1.push(d),
                            None => cfs.push((sq, vec![d])),
                        }
                    }
                    SOp::Dv { g, dv } => {
                        let sq = dv.multi.clone().unwrap_or(g.a1());
                        if dv_node(&sq, dv).is_some() {
                            dvs.insert(sq, dv);
                        }
                    }
                    SOp::Autofilter { g } => filter = Some((g.clone(), BTreeMap::new())),
                    SOp::Filter { col, fl } => {
                        if let Some(f) = &mut filter {
                            f.1.insert(*col, fl);
                        }
                    }
                    SOp::FilterOff => auto = false,
                    SOp::Spark { r, c, sp } => {
                        let f = self.range_ref(&sp.data).replace('$', "");
                        facts.push(self.sparklines(vec![(a1(*r, *c), f)], sp));
                    }
                    SOp::SparkGroup { g, sp } => {
                        let d = &sp.data.g;
                        let by_col = sp.flags & (1 << 9) != 0;
                        let v = g
                            .cells()
                            .iter()
                            .enumerate()
                            .map(|(k, (r, c))| {
                                let k = k as u32;
                                let x = if by_col { Rng4::new(d.r1, d.c1 + k as u16, d.r2, d.c1 + k as u16) } else { Rng4::new(d.r1 + k, d.c1, d.r1 + k, d.c2) };
                                (a1(*r, *c), self.area(sp.data.h, &x).replace('$', ""))
                            })
                            .collect();
                        facts.push(self.sparklines(v, sp));
                    }
                    SOp::Unprotect { g, name, pw } => {
                        free += 1;
                        let n = name.clone().filter(|n| !n.is_empty()).unwrap_or(format!("Range{free}"));
                        let mut a: A = vec![("sqref", g.a1()), ("name", n)];
                        if let Some(h) = hash(pw.as_deref().unwrap_or("")) {
                            a.push(("password", h));
                        }
                        facts.push(canon(&node("protectedRange", &a, vec![]), &[]));
                    }
                    SOp::Ignore { g, kind } => ignored.entry(kind % 9).or_default().push(g.a1()),
                    _ => {}
                }
            }
            // The colours of sparklines.
            let colors: Vec<String> = w
                .ops
                .iter()
                .filter_map(|o| match o {
                    SOp::Spark { sp, .. } | SOp::SparkGroup { sp, .. } => Some(match (sp.color, sp.style) {
                        (Some(c), _) => argb(c),
                        (None, n) => spark_style(n),
                    }),
                    _ => None,
                })
                .collect();
            for (f, c) in facts.iter_mut().filter(|f| f.starts_with("sparklines")).zip(colors) {
                f.push_str(&format!(" {c}"));
            }
            for ((r, c), l) in &w.links {
                let (t, loc) = link_target(&l.link);
                facts.push(format!("link {} to {t:?} at {loc:?} tip {:?}", a1(*r, *c), l.tip.as_deref().unwrap_or("")));
            }
            tables.extend(w.ser_tables().into_iter().map(|(g, t)| {
                let t = w.resolved(&g, &t);
                (g, t)
            }));
            for (g, t) in &tables {
                table_no += 1;
                let name = t.name.clone().unwrap_or(format!("Table{table_no}"));
                let mut d = format!("table {} {name:?} {name:?}", g.a1());
                if t.no_header {
                    d.push_str(" headerRowCount=0");
                }
                if t.total {
                    d.push_str(" totalsRowCount=1");
                }
                let f = Rng4::new(g.r1, g.c1, g.r2 - t.total as u32, g.c2);
                d.push_str(&format!(" filter {}", if t.no_header || t.no_filter { "-".into() } else { f.a1() }));
                let b = |x: bool| if x { "1".to_string() } else { "0".into() };
                let mut a: A = vec![
                    ("showFirstColumn", b(t.first)),
                    ("showLastColumn", b(t.last)),
                    ("showRowStripes", b(!t.no_banded)),
                    ("showColumnStripes", b(t.banded_cols)),
                ];
                let style = TABLE_STYLE_NAMES[t.style as usize % TABLE_STYLE_NAMES.len()];
                if !style.is_empty() {
                    a.push(("name", style.into()));
                }
                d.push_str(&canon(&node("tableStyleInfo", &a, vec![]), &[]));
                facts.push(d);
                for (k, c) in t.cols.iter().enumerate() {
                    let mut a: A = vec![("id", (k + 1).to_string()), ("name", c.header.clone().unwrap_or_default())];
                    let mut kids = vec![];
                    if let Some(l) = c.label.as_ref().filter(|l| !l.is_empty()) {
                        a.push(("totalsRowLabel", l.clone()));
                    } else if c.func > 0 {
                        a.push(("totalsRowFunction", ["", "average", "count", "countNums", "max", "min", "sum", "stdDev", "var", "custom"][c.func as usize].into()));
                    }
                    if let Some(f) = &c.formula {
                        kids.push(tx("calculatedColumnFormula", &formula_text(&table_formula(f)).0));
                    }
                    if c.func == 9 {
                        kids.push(tx("totalsRowFormula", "SUM(1,2)"));
                    }
                    facts.push(format!("table {} {}{}", g.a1(), canon(&node("tableColumn", &a, kids), &[]), dxf(&c.fmt)));
                }
            }
            let mut k = 0;
            for (_, v) in cfs {
                for d in v {
                    k += 1;
                    facts.push(format!("priority {k} {d}"));
                }
            }
            for (sq, d) in dvs {
                facts.extend(dv_node(&sq, d).map(|n| format!("dv {}", canon(&n, &[]))));
            }
            if let Some((g, cols)) = filter {
                let kids = cols.iter().map(|(c, f)| filter_node(c - g.c1, f)).collect();
                facts.push(format!("filter {}", canon(&node("autoFilter", &vec![("ref", g.a1())], kids), &[])));
                if !cols.is_empty() {
                    for r in g.r1 + 1..=g.r2 {
                        let own = w.rows.get(&r).is_some_and(|x| x.hidden);
                        let mut pass = Some(true);
                        for (c, f) in &cols {
                            match passes(w.cells.get(&(r, *c)).map(|x| &x.v), f) {
                                Some(true) => {}
                                Some(false) => pass = Some(false),
                                None if pass == Some(true) => pass = None,
                                None => {}
                            }
                        }
                        if own {
                            pass = Some(false);
                        } else if !auto {
                            pass = Some(true);
                        }
                        match pass {
                            Some(p) => facts.push(format!("row {} {}", r + 1, if p { "shown" } else { "filtered" })),
                            None => open.extend(["shown", "filtered"].map(|s| format!("row {} {s}", r + 1))),
                        }
                    }
                }
            }
            for (kind, v) in ignored {
                let k = ["numberStoredAsText", "evalError", "formula", "emptyCellReference", "formulaRange", "listDataValidation", "twoDigitTextYear", "unlockedFormula", "calculatedColumn"][kind as usize];
                facts.push(canon(&nd("ignoredError", &[("sqref", &v.join(" ")), (k, "1")], vec![]), &[]));
            }
            for f in facts {
                put(out, "range", format!("{at} {f}"));
            }
            for f in open {
                put(out, "open", format!("{at} {f}"));
            }
        }
    }
}
