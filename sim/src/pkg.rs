//! A strict reader for the saved packages: zip container, XML and OPC
//! relationships. It is independent of the library under test.

use std::collections::{BTreeMap, BTreeSet};

pub struct Entry {
    pub name: String,
    pub data: Vec<u8>,
    pub method: u16,
}

fn u16le(b: &[u8], o: usize) -> Result<u64, String> {
    b.get(o..o + 2).map(|s| u16::from_le_bytes([s[0], s[1]]) as u64).ok_or("truncated".into())
}
fn u32le(b: &[u8], o: usize) -> Result<u64, String> {
    b.get(o..o + 4).map(|s| u32::from_le_bytes([s[0], s[1], s[2], s[3]]) as u64).ok_or("truncated".into())
}
fn u64le(b: &[u8], o: usize) -> Result<u64, String> {
    b.get(o..o + 8).map(|s| u64::from_le_bytes(s.try_into().unwrap())).ok_or("truncated".into())
}

/// Sizes and offset with the zip64 extra field applied.
fn zip64(extra: &[u8], vals: &mut [&mut u64]) -> Result<(), String> {
    let mut o = 0;
    while o + 4 <= extra.len() {
        let id = u16le(extra, o)?;
        let n = u16le(extra, o + 2)? as usize;
        if o + 4 + n > extra.len() {
            return Err("bad extra field".into());
        }
        if id == 1 {
            let body = &extra[o + 4..o + 4 + n];
            let mut p = 0;
            for v in vals.iter_mut() {
                if **v == 0xFFFF_FFFF {
                    **v = u64le(body, p)?;
                    p += 8;
                }
            }
        }
        o += 4 + n;
    }
    Ok(())
}

/// Read a zip archive and check everything a strict consumer would check.
pub fn read_zip(b: &[u8]) -> Result<Vec<Entry>, String> {
    if b.len() < 22 {
        return Err("too short for a zip archive".into());
    }
    let eocd = b.len() - 22;
    if u32le(b, eocd)? != 0x0605_4b50 {
        return Err("no end of central directory at the end".into());
    }
    let total = u16le(b, eocd + 10)?;
    if u16le(b, eocd + 8)? != total || u16le(b, eocd + 4)? != 0 || u16le(b, eocd + 6)? != 0 {
        return Err("inconsistent end of central directory".into());
    }
    if u16le(b, eocd + 20)? != 0 {
        return Err("unexpected archive comment".into());
    }
    let cd_size = u32le(b, eocd + 12)? as usize;
    let cd_off = u32le(b, eocd + 16)? as usize;
    if cd_off.checked_add(cd_size) != Some(eocd) {
        return Err("central directory does not end where the trailer starts".into());
    }
    let mut out = vec![];
    let mut names = BTreeSet::new();
    let mut p = cd_off;
    let mut expect = 0usize;
    for i in 0..total {
        if u32le(b, p)? != 0x0201_4b50 {
            return Err(format!("bad central directory entry {i}"));
        }
        let method = u16le(b, p + 10)?;
        let crc = u32le(b, p + 16)?;
        let mut csize = u32le(b, p + 20)?;
        let mut usize_ = u32le(b, p + 24)?;
        let nlen = u16le(b, p + 28)? as usize;
        let xlen = u16le(b, p + 30)? as usize;
        let clen = u16le(b, p + 32)? as usize;
        let mut off = u32le(b, p + 42)?;
        let name = b.get(p + 46..p + 46 + nlen).ok_or("truncated name")?;
        let name = String::from_utf8(name.to_vec()).map_err(|_| "name is not UTF-8")?;
        let extra = b.get(p + 46 + nlen..p + 46 + nlen + xlen).ok_or("truncated extra")?;
        zip64(extra, &mut [&mut usize_, &mut csize, &mut off])?;
        p += 46 + nlen + xlen + clen;
        if p > eocd {
            return Err("central directory overruns".into());
        }
        if name.is_empty() || name.starts_with('/') || name.chars().any(|c| c.is_control() || c == '\\') {
            return Err(format!("invalid entry name {name:?}"));
        }
        if !names.insert(name.clone()) {
            return Err(format!("duplicate entry {name}"));
        }
        let lo = off as usize;
        if lo != expect {
            return Err(format!("entry {name} starts at {lo}, not {expect}"));
        }
        if u32le(b, lo)? != 0x0403_4b50 {
            return Err(format!("no local header for {name}"));
        }
        let lflags = u16le(b, lo + 6)?;
        if lflags & !0x0800 != 0 {
            return Err(format!("unsupported flags {lflags:x} on {name}"));
        }
        let lmethod = u16le(b, lo + 8)?;
        let lcrc = u32le(b, lo + 14)?;
        let mut lcs = u32le(b, lo + 18)?;
        let mut lus = u32le(b, lo + 22)?;
        let lnlen = u16le(b, lo + 26)? as usize;
        let lxlen = u16le(b, lo + 28)? as usize;
        let lname = b.get(lo + 30..lo + 30 + lnlen).ok_or("truncated local name")?;
        let lextra = b.get(lo + 30 + lnlen..lo + 30 + lnlen + lxlen).ok_or("truncated local extra")?;
        zip64(lextra, &mut [&mut lus, &mut lcs])?;
        if lname != name.as_bytes() || lmethod != method || lcrc != crc || lcs != csize || lus != usize_ {
            return Err(format!("local header of {name} disagrees with the directory"));
        }
        let start = lo + 30 + lnlen + lxlen;
        let end = start.checked_add(csize as usize).ok_or("overflow")?;
        if end > cd_off {
            return Err(format!("data of {name} overruns"));
        }
        let raw = &b[start..end];
        let data = match method {
            0 => raw.to_vec(),
            8 => miniz_oxide::inflate::decompress_to_vec_with_limit(raw, usize_ as usize + 1)
                .map_err(|e| format!("cannot inflate {name}: {e}"))?,
            m => return Err(format!("method {m} on {name}")),
        };
        if data.len() as u64 != usize_ {
            return Err(format!("size of {name} is {}, not {usize_}", data.len()));
        }
        if crc32fast::hash(&data) as u64 != crc {
            return Err(format!("checksum of {name} differs"));
        }
        expect = end;
        out.push(Entry { name, data, method: method as u16 });
    }
    if p != eocd {
        // A zip64 trailer may sit between the directory and the end record.
        return Err("central directory size differs".into());
    }
    if expect != cd_off {
        return Err("gap before the central directory".into());
    }
    Ok(out)
}

// ---------------------------------------------------------------------------
// XML
// ---------------------------------------------------------------------------
#[derive(Debug, Default, Clone, PartialEq)]
pub struct Node {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
    pub text: String,
}
impl Node {
    pub fn attr(&self, n: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == n).map(|a| a.1.as_str())
    }
    pub fn a(&self, n: &str) -> String {
        self.attr(n).unwrap_or("").to_string()
    }
    pub fn kid(&self, n: &str) -> Option<&Node> {
        self.kids.iter().find(|k| k.name == n)
    }
    pub fn kids<'a>(&'a self, n: &'a str) -> impl Iterator<Item = &'a Node> {
        self.kids.iter().filter(move |k| k.name == n)
    }
    /// Follow a path of child names.
    pub fn path(&self, p: &[&str]) -> Option<&Node> {
        let mut n = self;
        for s in p {
            n = n.kid(s)?;
        }
        Some(n)
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Node)) {
        f(self);
        for k in &self.kids {
            k.walk(f);
        }
    }
    pub fn all<'a>(&'a self, name: &str) -> Vec<&'a Node> {
        let mut v = vec![];
        self.walk(&mut |n| {
            if n.name == name {
                v.push(n)
            }
        });
        v
    }
    pub fn deep_text(&self) -> String {
        let mut s = self.text.clone();
        for k in &self.kids {
            s.push_str(&k.deep_text());
        }
        s
    }
    /// A canonical one-line rendering.
    pub fn flat(&self) -> String {
        let mut s = format!("<{}", self.name);
        for (k, v) in &self.attrs {
            s.push_str(&format!(" {k}={v:?}"));
        }
        s.push('>');
        if self.kids.is_empty() || !self.text.trim().is_empty() {
            s.push_str(&self.text);
        }
        for k in &self.kids {
            s.push_str(&k.flat());
        }
        s.push_str("</>");
        s
    }
}

struct P<'a> {
    s: &'a str,
    i: usize,
}
fn legal(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r') || (c >= ' ' && c != '\u{FFFE}' && c != '\u{FFFF}')
}
fn name_start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || c as u32 > 0x7f
}
fn name_char(c: char) -> bool {
    name_start(c) || c.is_ascii_digit() || matches!(c, '-' | '.' | ':')
}
impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn err<T>(&self, m: &str) -> Result<T, String> {
        let mut a = self.i.saturating_sub(60);
        while !self.s.is_char_boundary(a) {
            a -= 1;
        }
        let near: String = self.s[a..].chars().take(120).collect();
        Err(format!("{m} at byte {} near {near:?}", self.i))
    }
    fn ws(&mut self) -> bool {
        let n = self.rest().len() - self.rest().trim_start_matches([' ', '\t', '\n', '\r']).len();
        self.i += n;
        n > 0
    }
    fn name(&mut self) -> Result<String, String> {
        let r = self.rest();
        let mut n = 0;
        for (k, c) in r.char_indices() {
            if if k == 0 { name_start(c) } else { name_char(c) } {
                n = k + c.len_utf8();
            } else {
                break;
            }
        }
        if n == 0 {
            return self.err("expected a name");
        }
        self.i += n;
        Ok(r[..n].to_string())
    }
    fn entity(&mut self, out: &mut String) -> Result<(), String> {
        // At '&'.
        let r = self.rest();
        let Some(end) = r.find(';') else { return self.err("unterminated entity") };
        let e = &r[1..end];
        let c = match e {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let v = if let Some(h) = e.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = e.strip_prefix('#') {
                    d.parse().ok()
                } else {
                    None
                };
                match v.and_then(char::from_u32) {
                    Some(c) if legal(c) => c,
                    _ => return self.err("bad entity"),
                }
            }
        };
        out.push(c);
        self.i += end + 1;
        Ok(())
    }
    fn element(&mut self, depth: usize) -> Result<Node, String> {
        if depth > 100 {
            return self.err("too deep");
        }
        // At '<'.
        self.i += 1;
        let mut n = Node { name: self.name()?, ..Default::default() };
        loop {
            let had_ws = self.ws();
            let r = self.rest();
            if r.starts_with("/>") {
                self.i += 2;
                return Ok(n);
            }
            if r.starts_with('>') {
                self.i += 1;
                break;
            }
            if !had_ws {
                return self.err("expected whitespace before an attribute");
            }
            let k = self.name()?;
            if !self.rest().starts_with('=') {
                return self.err("expected =");
            }
            self.i += 1;
            let q = match self.rest().chars().next() {
                Some(c @ ('"' | '\'')) => c,
                _ => return self.err("expected a quote"),
            };
            self.i += 1;
            let mut v = String::new();
            loop {
                let Some(c) = self.rest().chars().next() else { return self.err("unterminated attribute") };
                if c == q {
                    self.i += 1;
                    break;
                }
                match c {
                    '<' => return self.err("< in an attribute"),
                    '&' => self.entity(&mut v)?,
                    // Attribute value normalisation.
                    '\t' | '\n' | '\r' => {
                        v.push(' ');
                        self.i += 1;
                    }
                    c if legal(c) => {
                        v.push(c);
                        self.i += c.len_utf8();
                    }
                    _ => return self.err("illegal character in an attribute"),
                }
            }
            if n.attrs.iter().any(|a| a.0 == k) {
                return self.err(&format!("duplicate attribute {k}"));
            }
            n.attrs.push((k, v));
        }
        loop {
            let r = self.rest();
            if r.is_empty() {
                return self.err("unterminated element");
            }
            if r.starts_with("</") {
                self.i += 2;
                let e = self.name()?;
                if e != n.name {
                    return self.err(&format!("</{e}> closes <{}>", n.name));
                }
                self.ws();
                if !self.rest().starts_with('>') {
                    return self.err("expected >");
                }
                self.i += 1;
                return Ok(n);
            }
            if r.starts_with("<!") || r.starts_with("<?") {
                return self.err("unexpected markup");
            }
            if r.starts_with('<') {
                let k = self.element(depth + 1)?;
                n.kids.push(k);
                continue;
            }
            if r.starts_with('&') {
                self.entity(&mut n.text)?;
                continue;
            }
            let c = r.chars().next().unwrap();
            if !legal(c) {
                return self.err("illegal character");
            }
            if r.starts_with("]]>") {
                return self.err("]]> in text");
            }
            // Line end normalisation.
            if c == '\r' {
                n.text.push('\n');
                self.i += if r.starts_with("\r\n") { 2 } else { 1 };
                continue;
            }
            n.text.push(c);
            self.i += c.len_utf8();
        }
    }
}

fn check_ns(n: &Node, scope: &mut Vec<String>) -> Result<(), String> {
    let before = scope.len();
    for (k, _) in &n.attrs {
        if let Some(p) = k.strip_prefix("xmlns:") {
            scope.push(p.to_string());
        }
    }
    let need = |q: &str, scope: &Vec<String>| -> Result<(), String> {
        if let Some((p, l)) = q.split_once(':') {
            if p != "xml" && p != "xmlns" && !scope.iter().any(|s| s == p) {
                return Err(format!("undeclared namespace prefix in {q}"));
            }
            if l.contains(':') || l.is_empty() {
                return Err(format!("bad name {q}"));
            }
        }
        Ok(())
    };
    need(&n.name, scope)?;
    for (k, _) in &n.attrs {
        need(k, scope)?;
    }
    for k in &n.kids {
        check_ns(k, scope)?;
    }
    scope.truncate(before);
    Ok(())
}

/// Parse a document strictly.
pub fn parse_xml(b: &[u8]) -> Result<Node, String> {
    let s = std::str::from_utf8(b).map_err(|e| format!("not UTF-8: {e}"))?;
    let mut p = P { s, i: 0 };
    if s.starts_with("<?xml ") {
        match s.find("?>") {
            Some(e) => p.i = e + 2,
            None => return p.err("unterminated declaration"),
        }
    }
    p.ws();
    if !p.rest().starts_with('<') {
        return p.err("expected the root element");
    }
    let n = p.element(0)?;
    p.ws();
    if !p.rest().is_empty() {
        return p.err("content after the root element");
    }
    check_ns(&n, &mut vec![])?;
    Ok(n)
}

// ---------------------------------------------------------------------------
// The package
// ---------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Rel {
    pub id: String,
    pub kind: String,
    pub target: String,
    pub external: bool,
}
pub struct Pkg {
    pub parts: BTreeMap<String, Vec<u8>>,
    pub xml: BTreeMap<String, Node>,
    pub rels: BTreeMap<String, Vec<Rel>>,
    pub order: Vec<String>,
}

fn is_xml(name: &str) -> bool {
    name.ends_with(".xml") || name.ends_with(".rels") || name.ends_with(".vml")
}
/// The part whose relationships are in this `.rels` file.
pub fn rels_source(name: &str) -> Option<String> {
    let n = name.strip_suffix(".rels")?;
    if n == "_rels/" {
        return Some(String::new());
    }
    let (dir, file) = n.rsplit_once("/_rels/").or_else(|| n.strip_prefix("_rels/").map(|f| ("", f)))?;
    if file.is_empty() {
        return Some(String::new());
    }
    Some(if dir.is_empty() { file.to_string() } else { format!("{dir}/{file}") })
}
pub fn resolve(source: &str, target: &str) -> String {
    if let Some(t) = target.strip_prefix('/') {
        return t.to_string();
    }
    let mut dir: Vec<&str> = source.split('/').collect();
    dir.pop();
    for s in target.split('/') {
        match s {
            ".." => {
                dir.pop();
            }
            "." => {}
            s => dir.push(s),
        }
    }
    dir.join("/")
}

impl Pkg {
    pub fn read(b: &[u8]) -> Result<Pkg, String> {
        let entries = read_zip(b)?;
        let mut p = Pkg { parts: BTreeMap::new(), xml: BTreeMap::new(), rels: BTreeMap::new(), order: vec![] };
        for e in entries {
            if is_xml(&e.name) {
                let n = parse_xml(&e.data).map_err(|m| format!("{}: {m}", e.name))?;
                p.xml.insert(e.name.clone(), n);
            }
            p.order.push(e.name.clone());
            p.parts.insert(e.name, e.data);
        }
        let names: Vec<String> = p.xml.keys().filter(|n| n.ends_with(".rels")).cloned().collect();
        for n in names {
            let src = rels_source(&n).ok_or(format!("odd relationships part {n}"))?;
            let mut v = vec![];
            let root = &p.xml[&n];
            if root.name != "Relationships" {
                return Err(format!("{n}: root is {}", root.name));
            }
            for r in &root.kids {
                v.push(Rel {
                    id: r.a("Id"),
                    kind: r.a("Type").rsplit('/').next().unwrap_or("").to_string(),
                    target: r.a("Target"),
                    external: r.attr("TargetMode") == Some("External"),
                });
            }
            p.rels.insert(src, v);
        }
        Ok(p)
    }
    pub fn rel(&self, src: &str, id: &str) -> Option<&Rel> {
        self.rels.get(src)?.iter().find(|r| r.id == id)
    }
    /// The part that relationship `id` of `src` leads to.
    pub fn follow(&self, src: &str, id: &str) -> Option<String> {
        let r = self.rel(src, id)?;
        if r.external {
            return None;
        }
        Some(resolve(src, &r.target))
    }
    pub fn rels_of<'a>(&'a self, src: &str, kind: &'a str) -> impl Iterator<Item = &'a Rel> {
        self.rels.get(src).into_iter().flatten().filter(move |r| r.kind == kind)
    }
}

// ---------------------------------------------------------------------------
// Integrity of a package (C11)
// ---------------------------------------------------------------------------
const CT: &[(&str, &str)] = &[
    ("xl/worksheets/sheet", "application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml"),
    ("xl/chartsheets/sheet", "application/vnd.openxmlformats-officedocument.spreadsheetml.chartsheet+xml"),
    ("xl/drawings/drawing", "application/vnd.openxmlformats-officedocument.drawing+xml"),
    ("xl/charts/chart", "application/vnd.openxmlformats-officedocument.drawingml.chart+xml"),
    ("xl/tables/table", "application/vnd.openxmlformats-officedocument.spreadsheetml.table+xml"),
    ("xl/comments", "application/vnd.openxmlformats-officedocument.spreadsheetml.comments+xml"),
    ("xl/styles.xml", "application/vnd.openxmlformats-officedocument.spreadsheetml.styles+xml"),
    ("xl/sharedStrings.xml", "application/vnd.openxmlformats-officedocument.spreadsheetml.sharedStrings+xml"),
    ("xl/theme/theme", "application/vnd.openxmlformats-officedocument.theme+xml"),
    ("docProps/core.xml", "application/vnd.openxmlformats-package.core-properties+xml"),
    ("docProps/app.xml", "application/vnd.openxmlformats-officedocument.extended-properties+xml"),
    ("docProps/custom.xml", "application/vnd.openxmlformats-officedocument.custom-properties+xml"),
    ("xl/metadata.xml", "application/vnd.openxmlformats-officedocument.spreadsheetml.sheetMetadata+xml"),
];

/// Every internal inconsistency of a package.
pub fn integrity(p: &Pkg) -> Vec<String> {
    let mut bad = vec![];
    // Content types.
    let Some(ct) = p.xml.get("[Content_Types].xml") else {
        return vec!["no [Content_Types].xml".into()];
    };
    let mut defaults = BTreeMap::new();
    let mut overrides = BTreeMap::new();
    for k in &ct.kids {
        match k.name.as_str() {
            "Default" => {
                if defaults.insert(k.a("Extension").to_lowercase(), k.a("ContentType")).is_some() {
                    bad.push(format!("content type default for {} twice", k.a("Extension")));
                }
            }
            "Override" => {
                let n = k.a("PartName");
                if !n.starts_with('/') {
                    bad.push(format!("content type override {n} is not absolute"));
                }
                let n = n.trim_start_matches('/').to_string();
                if !p.parts.contains_key(&n) {
                    bad.push(format!("content type override for missing part {n}"));
                }
                if overrides.insert(n.clone(), k.a("ContentType")).is_some() {
                    bad.push(format!("content type override for {n} twice"));
                }
            }
            o => bad.push(format!("odd content type element {o}")),
        }
    }
    for n in p.parts.keys() {
        if n == "[Content_Types].xml" {
            continue;
        }
        let ext = n.rsplit('.').next().unwrap_or("").to_lowercase();
        let t = overrides.get(n).or_else(|| defaults.get(&ext));
        match t {
            None => bad.push(format!("no content type for {n}")),
            Some(t) => {
                if let Some((_, want)) = CT.iter().find(|(p, _)| n.starts_with(p) && n.ends_with(".xml")) {
                    if t != want {
                        bad.push(format!("content type of {n} is {t}"));
                    }
                }
                if n.ends_with(".xml") && t == "application/xml" {
                    bad.push(format!("no specific content type for {n}"));
                }
                let img = match ext.as_str() {
                    "png" => "image/png",
                    "jpeg" | "jpg" => "image/jpeg",
                    "gif" => "image/gif",
                    "bmp" => "image/bmp",
                    _ => t.as_str(),
                };
                if t != img {
                    bad.push(format!("content type of {n} is {t}"));
                }
            }
        }
    }
    // Relationships.
    let mut reached: BTreeSet<String> = BTreeSet::new();
    for (src, rels) in &p.rels {
        if !src.is_empty() && !p.parts.contains_key(src) {
            bad.push(format!("relationships of missing part {src}"));
        }
        let mut ids = BTreeSet::new();
        let mut targets = BTreeSet::new();
        for r in rels {
            if !ids.insert(r.id.clone()) {
                bad.push(format!("relationship id {} of {src} twice", r.id));
            }
            if r.external {
                continue;
            }
            if r.target.starts_with('#') {
                continue;
            }
            let t = resolve(src, &r.target);
            if !p.parts.contains_key(&t) {
                bad.push(format!("relationship {} of {src} leads to missing {t}", r.id));
            }
            if !targets.insert((r.kind.clone(), t.clone())) && r.kind != "image" {
                bad.push(format!("{src} is related to {t} twice"));
            }
            reached.insert(t);
        }
    }
    for n in p.parts.keys() {
        if n == "[Content_Types].xml" || n.ends_with(".rels") {
            continue;
        }
        if !reached.contains(n) {
            bad.push(format!("part {n} is not reachable"));
        }
    }
    // Relationship ids used in a part exist there, and all of them are used.
    for (name, root) in &p.xml {
        if name.ends_with(".rels") {
            continue;
        }
        let mut used = BTreeSet::new();
        root.walk(&mut |n| {
            for (k, v) in &n.attrs {
                if matches!(k.as_str(), "r:id" | "r:embed" | "r:link" | "o:relid" | "r:pict") && !v.is_empty() {
                    used.insert(v.clone());
                    if p.rel(name, v).is_none() {
                        bad.push(format!("{name}: {} uses relationship {v}, which does not exist", n.name));
                    }
                }
            }
        });
        if let Some(rels) = p.rels.get(name) {
            if name == "xl/workbook.xml" {
                continue;
            }
            for r in rels {
                // Comments, VML drawings of notes and signatures are found by type.
                if matches!(r.kind.as_str(), "comments" | "vbaProjectSignature") {
                    continue;
                }
                if !used.contains(&r.id) {
                    bad.push(format!("{name}: relationship {} ({}) is not used", r.id, r.kind));
                }
            }
        }
    }
    workbook_ids(p, &mut bad);
    bad
}

fn num(s: &str) -> i64 {
    s.parse().unwrap_or(-1)
}

fn uniq(bad: &mut Vec<String>, what: &str, v: impl IntoIterator<Item = String>) {
    let mut s = BTreeSet::new();
    for x in v {
        if !s.insert(x.clone()) {
            bad.push(format!("{what} {x:?} is not unique"));
        }
    }
}
fn count_attr(bad: &mut Vec<String>, part: &str, n: &Node, attr: &str) {
    if let Some(c) = n.attr(attr) {
        if num(c) != n.kids.len() as i64 {
            bad.push(format!("{part}: {} {attr} is {c} but there are {}", n.name, n.kids.len()));
        }
    }
}

/// Order of the children of a worksheet.
const ORDER: &[&str] = &[
    "sheetPr", "dimension", "sheetViews", "sheetFormatPr", "cols", "sheetData", "sheetCalcPr",
    "sheetProtection", "protectedRanges", "scenarios", "autoFilter", "sortState", "dataConsolidate",
    "customSheetViews", "mergeCells", "phoneticPr", "conditionalFormatting", "dataValidations",
    "hyperlinks", "printOptions", "pageMargins", "pageSetup", "headerFooter", "rowBreaks", "colBreaks",
    "customProperties", "cellWatches", "ignoredErrors", "smartTags", "drawing", "legacyDrawing",
    "legacyDrawingHF", "drawingHF", "picture", "oleObjects", "controls", "webPublishItems", "tableParts",
    "extLst",
];

pub fn parse_ref(s: &str) -> Option<(u32, u32)> {
    let s: String = s.chars().filter(|c| *c != '$').collect();
    let n = s.find(|c: char| c.is_ascii_digit())?;
    let (l, d) = s.split_at(n);
    if l.is_empty() || l.len() > 3 {
        return None;
    }
    let mut c = 0u32;
    for b in l.bytes() {
        if !b.is_ascii_uppercase() {
            return None;
        }
        c = c * 26 + (b - b'A') as u32 + 1;
    }
    let r: u32 = d.parse().ok()?;
    if r == 0 || r > 1_048_576 || c > 16_384 || d.starts_with('0') {
        return None;
    }
    Some((r - 1, c - 1))
}
pub fn parse_range(s: &str) -> Option<(u32, u32, u32, u32)> {
    let (a, b) = s.split_once(':').unwrap_or((s, s));
    let (r1, c1) = parse_ref(a)?;
    let (r2, c2) = parse_ref(b)?;
    if r2 < r1 || c2 < c1 {
        return None;
    }
    Some((r1, c1, r2, c2))
}

fn workbook_ids(p: &Pkg, bad: &mut Vec<String>) {
    let Some(wb) = p.xml.get("xl/workbook.xml") else {
        bad.push("no workbook part".into());
        return;
    };
    let sheets: Vec<&Node> = wb.kid("sheets").map(|s| s.kids.iter().collect()).unwrap_or_default();
    if sheets.is_empty() {
        bad.push("no sheets".into());
    }
    uniq(bad, "sheet name", sheets.iter().map(|s| s.a("name").to_lowercase()));
    uniq(bad, "sheetId", sheets.iter().map(|s| s.a("sheetId")));
    uniq(bad, "sheet relationship", sheets.iter().map(|s| s.a("r:id")));
    if let Some(d) = wb.kid("definedNames") {
        uniq(
            bad,
            "defined name",
            d.kids.iter().map(|n| format!("{}!{}", n.a("localSheetId"), n.a("name").to_lowercase())),
        );
        for n in &d.kids {
            if let Some(i) = n.attr("localSheetId") {
                if num(i) < 0 || num(i) as usize >= sheets.len() {
                    bad.push(format!("localSheetId {i} out of range"));
                }
            }
        }
    }
    if let Some(v) = wb.path(&["bookViews", "workbookView"]) {
        if let Some(a) = v.attr("activeTab") {
            if num(a) < 0 || num(a) as usize >= sheets.len() {
                bad.push(format!("activeTab {a} out of range"));
            }
        }
    }
    // Styles.
    let (mut n_xf, mut n_dxf) = (0i64, 0i64);
    match p.xml.get("xl/styles.xml") {
        None => bad.push("no styles part".into()),
        Some(st) => {
            for k in &st.kids {
                count_attr(bad, "styles", k, "count");
            }
            let len = |n: &str| st.kid(n).map_or(0, |k| k.kids.len() as i64);
            n_xf = len("cellXfs");
            n_dxf = len("dxfs");
            let fmts: BTreeSet<String> =
                st.kid("numFmts").map(|k| k.kids.iter().map(|n| n.a("numFmtId")).collect()).unwrap_or_default();
            if let Some(k) = st.kid("numFmts") {
                uniq(bad, "numFmtId", k.kids.iter().map(|n| n.a("numFmtId")));
            }
            for group in ["cellStyleXfs", "cellXfs"] {
                for x in st.kid(group).map(|k| k.kids.iter().collect::<Vec<_>>()).unwrap_or_default() {
                    for (a, lim) in [("fontId", len("fonts")), ("fillId", len("fills")), ("borderId", len("borders"))] {
                        let v = num(&x.a(a));
                        if v < 0 || v >= lim {
                            bad.push(format!("styles: {group} {a} {v} out of range"));
                        }
                    }
                    if let Some(i) = x.attr("xfId") {
                        if num(i) < 0 || num(i) >= len("cellStyleXfs") {
                            bad.push(format!("styles: xfId {i} out of range"));
                        }
                    }
                    let f = x.a("numFmtId");
                    if num(&f) >= 164 && !fmts.contains(&f) {
                        bad.push(format!("styles: numFmtId {f} is not defined"));
                    }
                }
            }
            for s in st.kid("cellStyles").map(|k| k.kids.iter().collect::<Vec<_>>()).unwrap_or_default() {
                let i = num(&s.a("xfId"));
                if i < 0 || i >= len("cellStyleXfs") {
                    bad.push(format!("styles: cellStyle xfId {i} out of range"));
                }
            }
        }
    }
    // Strings.
    let mut n_sst = 0i64;
    let mut sst_count = None;
    if let Some(s) = p.xml.get("xl/sharedStrings.xml") {
        n_sst = s.kids.len() as i64;
        if num(&s.a("uniqueCount")) != n_sst {
            bad.push(format!("uniqueCount is {} but there are {n_sst} strings", s.a("uniqueCount")));
        }
        sst_count = Some(num(&s.a("count")));
        uniq(bad, "shared string", s.kids.iter().map(|k| format!("{} {:?}", k.flat(), k.deep_text())));
    }
    let mut sst_refs = 0i64;
    let mut sst_used = BTreeSet::new();
    // Metadata.
    let meta_cells = p.xml.get("xl/metadata.xml").and_then(|m| m.kid("cellMetadata")).map_or(0, |k| k.kids.len() as i64);
    let meta_values =
        p.xml.get("xl/metadata.xml").and_then(|m| m.kid("valueMetadata")).map_or(0, |k| k.kids.len() as i64);

    let mut table_ids = vec![];
    let mut table_names = vec![];
    for (name, ws) in &p.xml {
        if name.starts_with("xl/tables/") {
            table_ids.push(ws.a("id"));
            table_names.push(ws.a("displayName").to_lowercase());
            table_part(name, ws, n_dxf, bad);
        }
        if name.starts_with("xl/drawings/drawing") {
            uniq(
                bad,
                &format!("{name}: object id"),
                ws.all("xdr:cNvPr").iter().map(|n| n.a("id")),
            );
        }
        if name.starts_with("xl/drawings/vmlDrawing") {
            uniq(bad, &format!("{name}: shape id"), ws.all("v:shape").iter().map(|n| n.a("id")));
        }
        if name.starts_with("xl/comments") {
            let authors = ws.kid("authors").map_or(0, |a| a.kids.len() as i64);
            for c in ws.all("comment") {
                if num(&c.a("authorId")) < 0 || num(&c.a("authorId")) >= authors {
                    bad.push(format!("{name}: authorId {} out of range", c.a("authorId")));
                }
            }
            uniq(bad, &format!("{name}: comment at"), ws.all("comment").iter().map(|c| c.a("ref")));
        }
        if name == "xl/metadata.xml" {
            for k in &ws.kids {
                if k.attr("count").is_some() {
                    count_attr(bad, name, k, "count");
                }
            }
        }
        let is_ws = name.starts_with("xl/worksheets/sheet");
        if !is_ws && !name.starts_with("xl/chartsheets/sheet") {
            continue;
        }
        if is_ws {
            let mut last = 0;
            for k in &ws.kids {
                match ORDER.iter().position(|o| *o == k.name) {
                    None => bad.push(format!("{name}: odd element {}", k.name)),
                    Some(i) => {
                        if i < last || (i == last && last != 0 && k.name != "conditionalFormatting") {
                            bad.push(format!("{name}: {} out of order or repeated", k.name));
                        }
                        last = i;
                    }
                }
            }
        }
        for (el, at) in [
            ("mergeCells", "count"),
            ("dataValidations", "count"),
            ("tableParts", "count"),
            ("rowBreaks", "count"),
            ("colBreaks", "count"),
        ] {
            if let Some(k) = ws.kid(el) {
                count_attr(bad, name, k, at);
                if k.kids.is_empty() {
                    bad.push(format!("{name}: empty {el}"));
                }
            }
        }
        // Rows and cells strictly ascending, references valid.
        let mut last_row = 0i64;
        let mut bounds: Option<(u32, u32, u32, u32)> = None;
        for row in ws.kid("sheetData").map(|s| s.kids.iter().collect::<Vec<_>>()).unwrap_or_default() {
            let r = num(&row.a("r"));
            if r <= last_row || r > 1_048_576 {
                bad.push(format!("{name}: row {r} follows row {last_row}"));
            }
            last_row = r;
            if let Some(s) = row.attr("s") {
                if num(s) < 0 || num(s) >= n_xf {
                    bad.push(format!("{name}: row {r} has style {s}"));
                }
            }
            let span = row.attr("spans").and_then(|s| {
                let (a, b) = s.split_once(':')?;
                Some((num(a), num(b)))
            });
            let mut last_col = -1i64;
            for c in &row.kids {
                let Some((cr, cc)) = parse_ref(&c.a("r")) else {
                    bad.push(format!("{name}: bad cell reference {}", c.a("r")));
                    continue;
                };
                if cr as i64 + 1 != r || cc as i64 <= last_col {
                    bad.push(format!("{name}: cell {} out of place in row {r}", c.a("r")));
                }
                last_col = cc as i64;
                if let Some((a, b)) = span {
                    if (cc as i64) + 1 < a || (cc as i64) + 1 > b {
                        bad.push(format!("{name}: cell {} outside the row's spans {a}:{b}", c.a("r")));
                    }
                }
                bounds = Some(match bounds {
                    None => (cr, cc, cr, cc),
                    Some(x) => (x.0.min(cr), x.1.min(cc), x.2.max(cr), x.3.max(cc)),
                });
                if let Some(s) = c.attr("s") {
                    if num(s) < 0 || num(s) >= n_xf {
                        bad.push(format!("{name}: cell {} has style {s} of {n_xf}", c.a("r")));
                    }
                }
                if c.attr("t") == Some("s") {
                    let v = c.kid("v").map(|v| v.text.clone()).unwrap_or_default();
                    sst_refs += 1;
                    sst_used.insert(num(&v));
                    if num(&v) < 0 || num(&v) >= n_sst {
                        bad.push(format!("{name}: cell {} uses string {v} of {n_sst}", c.a("r")));
                    }
                }
                if let Some(v) = c.attr("cm") {
                    if num(v) < 1 || num(v) > meta_cells {
                        bad.push(format!("{name}: cell {} has cm {v} of {meta_cells}", c.a("r")));
                    }
                }
                if let Some(v) = c.attr("vm") {
                    if num(v) < 1 || num(v) > meta_values {
                        bad.push(format!("{name}: cell {} has vm {v} of {meta_values}", c.a("r")));
                    }
                }
            }
        }
        if let (Some(b), Some(d)) = (bounds, ws.kid("dimension")) {
            match parse_range(&d.a("ref")) {
                None => bad.push(format!("{name}: bad dimension {}", d.a("ref"))),
                Some(x) => {
                    if x.0 > b.0 || x.1 > b.1 || x.2 < b.2 || x.3 < b.3 {
                        bad.push(format!("{name}: cells lie outside the dimension {}", d.a("ref")));
                    }
                }
            }
        }
        // Columns do not overlap.
        let mut last = 0i64;
        for c in ws.kid("cols").map(|s| s.kids.iter().collect::<Vec<_>>()).unwrap_or_default() {
            let (a, b) = (num(&c.a("min")), num(&c.a("max")));
            if a <= last || b < a || b > 16_384 {
                bad.push(format!("{name}: columns {a}-{b} overlap or are out of order"));
            }
            last = b;
            if let Some(s) = c.attr("style") {
                if num(s) < 0 || num(s) >= n_xf {
                    bad.push(format!("{name}: column {a} has style {s}"));
                }
            }
        }
        // Merged ranges and tables do not overlap.
        let mut ranges = vec![];
        for m in ws.kid("mergeCells").map(|s| s.kids.iter().collect::<Vec<_>>()).unwrap_or_default() {
            match parse_range(&m.a("ref")) {
                None => bad.push(format!("{name}: bad merged range {}", m.a("ref"))),
                Some(r) => ranges.push(r),
            }
        }
        for i in 0..ranges.len() {
            for j in 0..i {
                let (a, b) = (ranges[i], ranges[j]);
                if a.0 <= b.2 && b.0 <= a.2 && a.1 <= b.3 && b.1 <= a.3 {
                    bad.push(format!("{name}: merged ranges overlap"));
                }
            }
        }
        // Conditional formats.
        let mut prios = vec![];
        for cf in ws.all("cfRule").into_iter().chain(ws.all("x14:cfRule")) {
            if cf.attr("priority").is_some() {
                prios.push(cf.a("priority"));
            }
            if let Some(d) = cf.attr("dxfId") {
                if num(d) < 0 || num(d) >= n_dxf {
                    bad.push(format!("{name}: dxfId {d} of {n_dxf}"));
                }
            }
        }
        uniq(bad, &format!("{name}: rule priority"), prios);
        uniq(bad, &format!("{name}: hyperlink on"), ws.all("hyperlink").iter().map(|h| h.a("ref")));
        uniq(bad, &format!("{name}: x14 id"), ws.all("x14:cfRule").iter().filter(|c| c.attr("id").is_some()).map(|c| c.a("id")));
        let ids: BTreeSet<String> = ws.all("x14:cfRule").iter().map(|c| c.a("id")).collect();
        for i in ws.all("x14:id") {
            if !ids.contains(&i.text) {
                bad.push(format!("{name}: rule extension {} does not exist", i.text));
            }
        }
    }
    uniq(bad, "table id", table_ids);
    uniq(bad, "table name", table_names);
    if let Some(c) = sst_count {
        if c != sst_refs {
            // The count is that of references, which overwritten cells may
            // leave too high; it may never be too low.
            if c < sst_refs {
                bad.push(format!("string count {c} is less than the {sst_refs} references"));
            }
        }
    }
}

fn table_part(name: &str, t: &Node, n_dxf: i64, bad: &mut Vec<String>) {
    let Some(r) = parse_range(&t.a("ref")) else {
        bad.push(format!("{name}: bad range {}", t.a("ref")));
        return;
    };
    if let Some(c) = t.kid("tableColumns") {
        count_attr(bad, name, c, "count");
        if c.kids.len() as u32 != r.3 - r.1 + 1 {
            bad.push(format!("{name}: {} columns for range {}", c.kids.len(), t.a("ref")));
        }
        uniq(bad, &format!("{name}: column id"), c.kids.iter().map(|k| k.a("id")));
        uniq(bad, &format!("{name}: column name"), c.kids.iter().map(|k| k.a("name").to_lowercase()));
        for k in &c.kids {
            for (a, v) in &k.attrs {
                if a.ends_with("DxfId") && (num(v) < 0 || num(v) >= n_dxf) {
                    bad.push(format!("{name}: {a} {v} of {n_dxf}"));
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------
// Equality up to the numbering of shared strings and style records
// ---------------------------------------------------------------------------

/// The style records, resolved: cell formats and differential formats.
pub fn style_records(styles: &Node) -> (Vec<String>, Vec<String>) {
    let kids = |n: &str| -> Vec<&Node> { styles.kid(n).map(|k| k.kids.iter().collect()).unwrap_or_default() };
    let (fonts, fills, borders) = (kids("fonts"), kids("fills"), kids("borders"));
    let nums: BTreeMap<String, String> = kids("numFmts").iter().map(|n| (n.a("numFmtId"), n.a("formatCode"))).collect();
    let pick = |v: &[&Node], i: &str| v.get(num(i) as usize).map_or("?".to_string(), |n| n.flat());
    let xfs = kids("cellXfs")
        .iter()
        .map(|x| {
            let mut s = String::new();
            for (k, v) in &x.attrs {
                match k.as_str() {
                    "fontId" => s.push_str(&pick(&fonts, v)),
                    "fillId" => s.push_str(&pick(&fills, v)),
                    "borderId" => s.push_str(&pick(&borders, v)),
                    "numFmtId" => s.push_str(&format!("num={}", nums.get(v).map_or(v.clone(), |c| format!("{c:?}")))),
                    _ => s.push_str(&format!(" {k}={v}")),
                }
            }
            for k in &x.kids {
                s.push_str(&k.flat());
            }
            s
        })
        .collect();
    let dxfs = kids("dxfs")
        .iter()
        .map(|d| {
            let mut d = (*d).clone();
            for k in d.kids.iter_mut() {
                if k.name == "numFmt" {
                    k.attrs.retain(|a| a.0 != "numFmtId");
                }
            }
            d.flat()
        })
        .collect();
    (xfs, dxfs)
}

fn resolve_ids(n: &mut Node, xfs: &[String], dxfs: &[String], sst: &[String]) {
    if n.name == "row" {
        // Written if an extension was in use when the row was.
        n.attrs.retain(|a| a.0 != "x14ac:dyDescent");
    }
    let get = |v: &[String], i: &str| v.get(num(i) as usize).cloned().unwrap_or(format!("?{i}"));
    for (k, v) in n.attrs.iter_mut() {
        match (n.name.as_str(), k.as_str()) {
            ("c" | "row", "s") | ("col", "style") => *v = get(xfs, v),
            ("cfRule", "dxfId") | (_, "dataDxfId" | "headerRowDxfId" | "totalsRowDxfId") => *v = get(dxfs, v),
            _ => {}
        }
    }
    if n.name == "c" && n.attr("t") == Some("s") {
        for k in n.kids.iter_mut() {
            if k.name == "v" {
                k.text = get(sst, &k.text);
            }
        }
    }
    for k in n.kids.iter_mut() {
        resolve_ids(k, xfs, dxfs, sst);
    }
}

/// Axis ids are local to a chart part.
fn axis_ids(n: &mut Node, seen: &mut Vec<String>) {
    if n.name.ends_with("axId") || n.name.ends_with("crossAx") {
        for (_, v) in n.attrs.iter_mut() {
            let k = seen.iter().position(|s| s == v).unwrap_or_else(|| {
                seen.push(v.clone());
                seen.len() - 1
            });
            *v = format!("axis{k}");
        }
    }
    for k in n.kids.iter_mut() {
        axis_ids(k, seen);
    }
}

/// Media files by their content, and images in cells by what they refer to:
/// the order in which several worksheets use images numbers them.
fn resolve_media(p: &mut Pkg) {
    let media: BTreeMap<String, String> = p
        .parts
        .iter()
        .filter(|(n, _)| n.starts_with("xl/media/"))
        .map(|(n, d)| {
            let ext = n.rsplit('.').next().unwrap_or("").to_string();
            (n.trim_start_matches("xl/").to_string(), format!("media/{:016x}.{ext}", crate::core::hash_bytes(d)))
        })
        .collect();
    for (name, n) in p.xml.iter_mut().filter(|(n, _)| n.ends_with(".rels")) {
        for k in n.kids.iter_mut() {
            for a in k.attrs.iter_mut().filter(|a| a.0 == "Target") {
                if let Some((_, t)) = media.iter().find(|(m, _)| a.1.ends_with(m.as_str())) {
                    a.1 = t.clone();
                }
            }
            if name.contains("richValueRel") {
                k.attrs.sort();
            }
        }
    }
    let mut out: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for (n, d) in std::mem::take(&mut p.parts) {
        match media.get(n.trim_start_matches("xl/")) {
            // As often as it is there.
            Some(t) if n.starts_with("xl/") => out.entry(format!("xl/{t}")).or_default().push(1),
            _ => {
                out.insert(n, d);
            }
        }
    }
    p.parts = out;
    let target: BTreeMap<String, String> =
        p.xml.get("xl/richData/_rels/richValueRel.xml.rels").map(|n| n.kids.iter().map(|k| (k.a("Id"), k.a("Target"))).collect()).unwrap_or_default();
    let rels: Vec<String> = p
        .xml
        .get("xl/richData/richValueRel.xml")
        .map(|n| n.kids.iter().map(|k| target.get(&k.a("r:id")).or(target.get(&k.a("id"))).cloned().unwrap_or("?".into())).collect())
        .unwrap_or_default();
    let rv: Vec<String> = p
        .xml
        .get("xl/richData/rdrichvalue.xml")
        .map(|n| {
            n.kids
                .iter()
                .map(|k| {
                    let v: Vec<String> = k.kids.iter().map(|v| v.text.clone()).collect();
                    let img = v.first().and_then(|i| rels.get(num(i) as usize)).cloned().unwrap_or("?".into());
                    format!("{img} {:?} {:?}", v.get(1..), k.attrs)
                })
                .collect()
        })
        .unwrap_or_default();
    if rv.is_empty() {
        return;
    }
    let list = |mut v: Vec<String>| {
        v.sort();
        Node { name: "list".into(), text: v.join("\n"), ..Node::default() }
    };
    for n in ["xl/richData/_rels/richValueRel.xml.rels", "xl/richData/richValueRel.xml"] {
        p.xml.insert(n.into(), list(rels.clone()));
    }
    p.xml.insert("xl/richData/rdrichvalue.xml".into(), list(rv.clone()));
    for (_, n) in p.xml.iter_mut().filter(|(n, _)| n.starts_with("xl/worksheets/sheet")) {
        for d in n.kids.iter_mut().filter(|k| k.name == "sheetData") {
            for c in d.kids.iter_mut().flat_map(|r| r.kids.iter_mut()) {
                for a in c.attrs.iter_mut().filter(|a| a.0 == "vm") {
                    a.1 = rv.get((num(&a.1) - 1).max(0) as usize).cloned().unwrap_or("?".into());
                }
            }
        }
    }
}

/// Every part in a form that does not depend on how shared strings and style
/// records are numbered.
pub fn canonical(b: &[u8]) -> Result<BTreeMap<String, String>, String> {
    let mut p = Pkg::read(b)?;
    resolve_media(&mut p);
    let none = Node::default();
    let styles = p.xml.get("xl/styles.xml").unwrap_or(&none);
    let (xfs, dxfs) = style_records(styles);
    let sst: Vec<String> = p.xml.get("xl/sharedStrings.xml").map(|n| n.kids.iter().map(|k| k.flat() + &k.deep_text()).collect()).unwrap_or_default();
    let mut out = BTreeMap::new();
    for (name, data) in &p.parts {
        let s = match name.as_str() {
            "xl/sharedStrings.xml" => {
                let mut v = sst.clone();
                v.sort();
                let n = &p.xml[name];
                format!("count {} unique {} {}", n.a("count"), n.a("uniqueCount"), v.join("\n"))
            }
            "xl/styles.xml" => {
                let (mut x, mut d) = (xfs.clone(), dxfs.clone());
                x.sort();
                d.sort();
                let mut s = format!("{}\n{}", x.join("\n"), d.join("\n"));
                for k in &styles.kids {
                    if !matches!(k.name.as_str(), "numFmts" | "cellXfs" | "cellStyleXfs" | "dxfs" | "colors") {
                        let mut v: Vec<String> = k.kids.iter().map(|x| x.flat()).collect();
                        if matches!(k.name.as_str(), "fonts" | "fills" | "borders") {
                            v.sort();
                        }
                        s.push_str(&format!("\n{} {:?} {}", k.name, k.attrs, v.join("\n")));
                    } else if k.name == "colors" {
                        let mut v: Vec<String> = k.all("color").iter().map(|x| x.flat()).collect();
                        v.sort();
                        s.push_str(&v.join("\n"));
                    }
                }
                s
            }
            _ => match p.xml.get(name) {
                Some(n) => {
                    let mut n = n.clone();
                    resolve_ids(&mut n, &xfs, &dxfs, &sst);
                    if name.starts_with("xl/charts/") {
                        axis_ids(&mut n, &mut vec![]);
                    }
                    n.flat() + &n.deep_text()
                }
                None => format!("{:x} {}", crate::core::hash_bytes(data), data.len()),
            },
        };
        out.insert(name.clone(), s);
    }
    Ok(out)
}

/// Nothing if the files are equal up to numbering, otherwise the difference.
pub fn differ(a: &[u8], b: &[u8]) -> Option<String> {
    if a == b {
        return None;
    }
    let (x, y) = match (canonical(a), canonical(b)) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(e), _) => return Some(format!("the first is not a readable package: {e}")),
        (_, Err(e)) => return Some(format!("the second is not a readable package: {e}")),
    };
    first_difference(&x, &y)
}

/// Like `canonical()`, but also independent of how a worksheet keeps its cells:
/// strings are inlined, what only speeds up reading is left out, and so are the
/// values cached in charts, which need cells that are still in memory.
pub fn modal(b: &[u8]) -> Result<BTreeMap<String, String>, String> {
    let mut p = Pkg::read(b)?;
    resolve_media(&mut p);
    let none = Node::default();
    let styles = p.xml.get("xl/styles.xml").cloned().unwrap_or(none);
    let (xfs, dxfs) = style_records(&styles);
    let inner = |n: &Node| n.kids.iter().map(|k| k.flat()).collect::<String>();
    let sst: Vec<String> = p.xml.get("xl/sharedStrings.xml").map(|n| n.kids.iter().map(inner).collect()).unwrap_or_default();
    let mut out = BTreeMap::new();
    for (name, n) in p.xml.iter_mut() {
        if name == "xl/sharedStrings.xml" || name == "xl/styles.xml" {
            continue;
        }
        if name == "[Content_Types].xml" {
            n.kids.retain(|k| !k.a("PartName").ends_with("sharedStrings.xml"));
        }
        if name == "xl/_rels/workbook.xml.rels" {
            n.kids.retain(|k| !k.a("Target").ends_with("sharedStrings.xml"));
            for k in n.kids.iter_mut() {
                k.attrs.retain(|a| a.0 != "Id");
            }
        }
        resolve_ids(n, &xfs, &dxfs, &sst);
        if name.starts_with("xl/worksheets/") {
            n.kids.retain(|k| k.name != "dimension");
            // Depends on a later value of the cell.
            for h in n.kids.iter_mut().filter(|k| k.name == "hyperlinks").flat_map(|k| k.kids.iter_mut()) {
                if h.attr("r:id").is_some() {
                    h.attrs.retain(|a| a.0 != "display");
                }
            }
            let height = n.kid("sheetFormatPr").map(|k| k.a("defaultRowHeight")).unwrap_or_default();
            for d in n.kids.iter_mut().filter(|k| k.name == "sheetData") {
                for r in d.kids.iter_mut() {
                    r.attrs.retain(|a| a.0 != "spans");
                    for c in r.kids.iter_mut() {
                        if c.attr("t") == Some("inlineStr") {
                            for a in c.attrs.iter_mut() {
                                if a.0 == "t" {
                                    a.1 = "s".into();
                                }
                            }
                            let t = c.kids.first().map(inner).unwrap_or_default();
                            c.kids = vec![Node { name: "v".into(), text: t, ..Node::default() }];
                        }
                    }
                }
                d.kids.retain(|r| !r.kids.is_empty() || r.attrs.iter().any(|a| a.0 != "r" && a.0 != "customHeight" && !(a.0 == "ht" && a.1 == height)));
            }
        }
        if name.starts_with("xl/charts/") {
            axis_ids(n, &mut vec![]);
            strip_caches(n);
        }
        out.insert(name.clone(), n.flat());
    }
    for (name, data) in &p.parts {
        if !p.xml.contains_key(name) {
            out.insert(name.clone(), format!("{:x} {}", crate::core::hash_bytes(data), data.len()));
        }
    }
    Ok(out)
}
fn strip_caches(n: &mut Node) {
    n.kids.retain(|k| !k.name.ends_with("Cache"));
    if n.name.ends_with("catAx") {
        n.kids.retain(|k| !k.name.ends_with("numFmt"));
    }
    if matches!(n.name.rsplit(':').next(), Some("strRef" | "numRef")) {
        // The cached values say which.
        n.name = "c:ref".into();
    }
    for k in n.kids.iter_mut() {
        strip_caches(k);
    }
}

/// The first difference of two canonical forms.
pub fn first_difference(x: &BTreeMap<String, String>, y: &BTreeMap<String, String>) -> Option<String> {
    for (n, d) in x {
        match y.get(n) {
            None => return Some(format!("part {n} is only in the first")),
            Some(e) if e != d => {
                let (d, e) = (d.as_bytes(), e.as_bytes());
                let k = d.iter().zip(e.iter()).take_while(|(p, q)| p == q).count();
                let cut = |v: &[u8]| String::from_utf8_lossy(&v[k.saturating_sub(60).min(v.len())..(k + 80).min(v.len())]).into_owned();
                return Some(format!("part {n} differs: {:?} / {:?}", cut(d), cut(e)));
            }
            _ => {}
        }
    }
    y.keys().find(|n| !x.contains_key(*n)).map(|n| format!("part {n} is only in the second"))
}
