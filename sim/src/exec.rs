//! Executes a program against the real library.
use crate::core::*;
use crate::fs;
use crate::spec::*;
use rust_xlsxwriter::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const VBA_DATA: usize = 9000;

pub fn color(c: &Col) -> Color {
    match c {
        Col::Rgb(x) => Color::RGB(*x),
        Col::Theme(a, b) => Color::Theme(*a, *b),
    }
}
pub fn border_style(n: u8) -> FormatBorder {
    use FormatBorder::*;
    [None, Thin, Medium, Dashed, Dotted, Thick, Double, Hair, MediumDashed, DashDot, MediumDashDot, DashDotDot, MediumDashDotDot, SlantDashDot][n as usize % 14]
}
pub fn pattern(n: u8) -> FormatPattern {
    use FormatPattern::*;
    [None, Solid, MediumGray, DarkGray, LightGray, DarkHorizontal, DarkVertical, DarkDown, DarkUp, DarkGrid, DarkTrellis, LightHorizontal, LightVertical, LightDown, LightUp, LightGrid, LightTrellis, Gray125, Gray0625][n as usize % 19]
}
pub fn format(f: &Fmt) -> Format {
    let mut x = Format::new();
    if let Some(n) = &f.num {
        x = x.set_num_format(n);
    }
    if let Some(n) = f.num_idx {
        x = x.set_num_format_index(n);
    }
    if f.hyperlink {
        x = x.set_hyperlink();
    }
    if f.bold {
        x = x.set_bold();
    }
    if f.italic {
        x = x.set_italic();
    }
    if f.strike {
        x = x.set_font_strikethrough();
    }
    use FormatUnderline as U;
    if f.underline > 0 {
        x = x.set_underline([U::None, U::Single, U::Double, U::SingleAccounting, U::DoubleAccounting][f.underline as usize % 5]);
    }
    if f.script > 0 {
        x = x.set_font_script([FormatScript::None, FormatScript::Superscript, FormatScript::Subscript][f.script as usize % 3]);
    }
    if let Some(c) = &f.color {
        x = x.set_font_color(color(c));
    }
    if let Some(n) = &f.name {
        x = x.set_font_name(n);
    }
    if let Some(n) = f.size2 {
        x = x.set_font_size(n as f64 / 2.0);
    }
    if let Some(n) = f.family {
        x = x.set_font_family(n);
    }
    if let Some(n) = f.charset {
        x = x.set_font_charset(n);
    }
    use FormatAlign as A;
    if f.halign > 0 {
        x = x.set_align([A::General, A::Left, A::Center, A::Right, A::Fill, A::Justify, A::CenterAcross, A::Distributed][f.halign as usize % 8]);
    }
    if f.valign > 0 {
        x = x.set_align([A::Bottom, A::Top, A::Bottom, A::VerticalCenter, A::VerticalJustify, A::VerticalDistributed][f.valign as usize % 6]);
    }
    if f.wrap {
        x = x.set_text_wrap();
    }
    if f.shrink {
        x = x.set_shrink();
    }
    if f.indent > 0 {
        x = x.set_indent(f.indent);
    }
    if let Some(r) = f.rot {
        x = x.set_rotation(r);
    }
    if f.reading > 0 {
        x = x.set_reading_direction(f.reading);
    }
    if f.pattern > 0 {
        x = x.set_pattern(pattern(f.pattern));
    }
    if let Some(c) = &f.bg {
        x = x.set_background_color(color(c));
    }
    if let Some(c) = &f.fg {
        x = x.set_foreground_color(color(c));
    }
    let b = &f.border;
    if b[0].0 > 0 {
        x = x.set_border_left(border_style(b[0].0));
    }
    if b[1].0 > 0 {
        x = x.set_border_right(border_style(b[1].0));
    }
    if b[2].0 > 0 {
        x = x.set_border_top(border_style(b[2].0));
    }
    if b[3].0 > 0 {
        x = x.set_border_bottom(border_style(b[3].0));
    }
    if b[4].0 > 0 {
        x = x.set_border_diagonal(border_style(b[4].0));
    }
    if let Some(c) = &b[0].1 {
        x = x.set_border_left_color(color(c));
    }
    if let Some(c) = &b[1].1 {
        x = x.set_border_right_color(color(c));
    }
    if let Some(c) = &b[2].1 {
        x = x.set_border_top_color(color(c));
    }
    if let Some(c) = &b[3].1 {
        x = x.set_border_bottom_color(color(c));
    }
    if let Some(c) = &b[4].1 {
        x = x.set_border_diagonal_color(color(c));
    }
    use FormatDiagonalBorder as D;
    if f.diag > 0 {
        x = x.set_border_diagonal_type([D::None, D::BorderUp, D::BorderDown, D::BorderUpDown][f.diag as usize % 4]);
    }
    if f.unlocked {
        x = x.set_unlocked();
    }
    if f.hidden {
        x = x.set_hidden();
    }
    if f.quote {
        x = x.set_quote_prefix();
    }
    if f.checkbox {
        x = x.set_checkbox();
    }
    x
}

// ---------------------------------------------------------------------------
// Images and other input files.
// ---------------------------------------------------------------------------
pub fn img_ext(ty: u8) -> &'static str {
    ["png", "jpeg", "gif", "bmp"][ty as usize % 4]
}
/// Dots per metre of some of the images.
const PPM: u32 = 5669;
fn dense(i: &Img) -> bool {
    i.ty % 4 == 0 && i.id >= 4
}
pub fn img_dpi(i: &Img) -> f64 {
    if dense(i) {
        PPM as f64 * 0.0254
    } else {
        96.0
    }
}
pub fn img_bytes(i: &Img) -> Vec<u8> {
    let mut v = vec![];
    let mut payload = vec![];
    let mut r = Rng::new(i.id as u64 + 77);
    for _ in 0..(24 + r.below(60)) {
        payload.push(r.next() as u8);
    }
    payload.extend_from_slice(&i.id.to_be_bytes());
    match i.ty % 4 {
        0 => {
            v.extend_from_slice(b"\x89PNG\r\n\x1a\n");
            let chunk = |v: &mut Vec<u8>, t: &[u8], d: &[u8]| {
                v.extend_from_slice(&(d.len() as u32).to_be_bytes());
                let at = v.len();
                v.extend_from_slice(t);
                v.extend_from_slice(d);
                let c = crc32fast::hash(&v[at..]);
                v.extend_from_slice(&c.to_be_bytes());
            };
            let mut h = vec![];
            h.extend_from_slice(&(i.w as u32).to_be_bytes());
            h.extend_from_slice(&(i.h as u32).to_be_bytes());
            h.extend_from_slice(&[8, 2, 0, 0, 0]);
            chunk(&mut v, b"IHDR", &h);
            if dense(i) {
                let mut h = vec![];
                h.extend_from_slice(&PPM.to_be_bytes());
                h.extend_from_slice(&PPM.to_be_bytes());
                h.push(1);
                chunk(&mut v, b"pHYs", &h);
            }
            chunk(&mut v, b"IDAT", &payload);
            chunk(&mut v, b"IEND", &[]);
        }
        1 => {
            v.extend_from_slice(&[0xFF, 0xD8, 0xFF, 0xE0, 0, 16]);
            v.extend_from_slice(b"JFIF\0\x01\x01\x01\0\x60\0\x60\0\0");
            v.extend_from_slice(&[0xFF, 0xC0, 0, 17, 8]);
            v.extend_from_slice(&i.h.to_be_bytes());
            v.extend_from_slice(&i.w.to_be_bytes());
            v.extend_from_slice(&[3, 1, 0x22, 0, 2, 0x11, 1, 3, 0x11, 1]);
            v.extend_from_slice(&[0xFF, 0xDA, 0, 8]);
            v.extend_from_slice(&payload);
            v.extend_from_slice(&[0xFF, 0xD9]);
        }
        2 => {
            v.extend_from_slice(b"GIF89a");
            v.extend_from_slice(&i.w.to_le_bytes());
            v.extend_from_slice(&i.h.to_le_bytes());
            v.extend_from_slice(&payload);
            v.push(0x3B);
        }
        _ => {
            v.extend_from_slice(b"BM");
            let len = 54 + payload.len() as u32;
            v.extend_from_slice(&len.to_le_bytes());
            v.extend_from_slice(&[0; 4]);
            v.extend_from_slice(&54u32.to_le_bytes());
            v.extend_from_slice(&40u32.to_le_bytes());
            v.extend_from_slice(&(i.w as u32).to_le_bytes());
            v.extend_from_slice(&(i.h as u32).to_le_bytes());
            v.extend_from_slice(&[1, 0, 24, 0]);
            v.extend_from_slice(&[0; 24]);
            v.extend_from_slice(&payload);
        }
    }
    v
}
pub fn img_path(i: &Img) -> String {
    format!("/simfs/media/img{}_{}_{}x{}.{}", i.id, i.ty, i.w, i.h, img_ext(i.ty))
}
pub fn vba_bytes() -> Vec<u8> {
    let mut r = Rng::new(4242);
    (0..VBA_DATA).map(|_| r.next() as u8).collect()
}
/// Put the input files a program needs into the simulated file system.
pub fn put_media(p: &Program) {
    let put = |i: &Img| {
        if i.from_file {
            fs::fs().put(&img_path(i), &img_bytes(i));
        }
    };
    let sop = |s: &SOp| match s {
        SOp::Image { img, .. } | SOp::ImageFit { img, .. } | SOp::Embed { img, .. } | SOp::HdrImg { img, .. } | SOp::Background(img) => put(img),
        _ => {}
    };
    for o in &p.ops {
        match o {
            Op::S(_, s) => sop(s),
            Op::Par(v) => v.iter().for_each(|(_, l)| l.iter().for_each(sop)),
            Op::Vba => fs::fs().put("/simfs/media/vba.bin", &vba_bytes()),
            _ => {}
        }
    }
}
fn movement(m: u8) -> ObjectMovement {
    match m {
        1 => ObjectMovement::MoveAndSizeWithCells,
        2 => ObjectMovement::MoveButDontSizeWithCells,
        4 => ObjectMovement::MoveAndSizeWithCellsAfter,
        _ => ObjectMovement::DontMoveOrSizeWithCells,
    }
}
pub fn image(i: &Img) -> Result<Image, XlsxError> {
    let mut x = if i.from_file { Image::new(img_path(i))? } else { Image::new_from_buffer(&img_bytes(i))? };
    if let Some(a) = &i.alt {
        x = x.set_alt_text(a);
    }
    if i.decorative {
        x = x.set_decorative(true);
    }
    if let Some(u) = &i.url {
        let mut url = Url::new(u);
        if let Some(t) = &i.tip {
            url = url.set_tip(t);
        }
        x = x.set_url(url)?;
    }
    if i.mov > 0 {
        x = x.set_object_movement(movement(i.mov));
    }
    if i.scale > 0 {
        x = x.set_scale_width(i.scale as f64 / 100.0).set_scale_height(i.scale as f64 / 100.0);
    }
    Ok(x)
}

// ---------------------------------------------------------------------------
// Other objects.
// ---------------------------------------------------------------------------
pub const CHART_TYPES: usize = 23;
pub fn chart_type(n: u8) -> ChartType {
    use ChartType::*;
    [
        Column, Line, Bar, Pie, Area, Scatter, ScatterStraight, Doughnut, Radar, ColumnStacked, LineStacked, BarStacked, AreaStacked, ColumnPercentStacked,
        BarPercentStacked, AreaPercentStacked, LinePercentStacked, RadarWithMarkers, RadarFilled, ScatterStraightWithMarkers, ScatterSmooth,
        ScatterSmoothWithMarkers, Stock,
    ][n as usize % CHART_TYPES]
}
pub struct Names<'a>(pub &'a [String]);
impl Names<'_> {
    fn range(&self, r: &Ref) -> ChartRange {
        ChartRange::new_from_range(&self.0[r.h], r.g.r1, r.g.c1, r.g.r2, r.g.c2)
    }
}
pub fn chart(ch: &ChartSpec, n: &Names) -> Chart {
    let mut c = Chart::new(chart_type(ch.ty));
    for s in &ch.series {
        let mut x = ChartSeries::new();
        x.set_values(&n.range(&s.vals));
        if let Some(r) = &s.cats {
            x.set_categories(&n.range(r));
        }
        if let Some(t) = &s.name {
            x.set_name(t);
        }
        if let Some(r) = &s.name_ref {
            x.set_name(&n.range(r));
        }
        if s.second {
            x.set_secondary_axis(true);
        }
        if let Some(k) = s.color {
            let mut f = ChartFormat::new();
            f.set_solid_fill(ChartSolidFill::new().set_color(Color::RGB(k)));
            x.set_format(&mut f);
        }
        if !s.label_refs.is_empty() {
            let mut l = ChartDataLabel::new();
            l.show_value();
            x.set_data_label(&l);
            let v: Vec<ChartDataLabel> = s
                .label_refs
                .iter()
                .map(|r| {
                    let mut d = ChartDataLabel::new();
                    d.set_value(&n.range(r));
                    d
                })
                .collect();
            x.set_custom_data_labels(&v);
        }
        if let Some((a, b)) = &s.err_ref {
            let mut e = ChartErrorBars::new();
            e.set_type(ChartErrorBarsType::Custom(n.range(a), n.range(b)));
            x.set_y_error_bars(&e);
        }
        if s.trend > 0 {
            let mut t = ChartTrendline::new();
            t.set_type(match s.trend {
                1 => ChartTrendlineType::Linear,
                2 => ChartTrendlineType::Polynomial(3),
                _ => ChartTrendlineType::MovingAverage(2),
            });
            x.set_trendline(&t);
        }
        c.push_series(&x);
    }
    if let Some(t) = &ch.title {
        c.title().set_name(t);
    }
    if let Some(r) = &ch.title_ref {
        c.title().set_name(&n.range(r));
    }
    for i in 0..4 {
        let t = ch.axis[i].clone();
        let r = ch.axis_ref[i].as_ref().map(|r| n.range(r));
        let a = match i {
            0 => c.x_axis(),
            1 => c.y_axis(),
            2 => c.x2_axis(),
            _ => c.y2_axis(),
        };
        if let Some(t) = t {
            a.set_name(&t);
        }
        if let Some(r) = r {
            a.set_name(&r);
        }
    }
    if let Some(a) = &ch.alt {
        c.set_alt_text(a);
    }
    if let Some(a) = &ch.name {
        c.set_name(a);
    }
    if ch.style > 0 {
        c.set_style(ch.style);
    }
    if ch.w > 0 {
        c.set_width(ch.w as u32);
    }
    if ch.h > 0 {
        c.set_height(ch.h as u32);
    }
    match ch.legend {
        1 => {
            c.legend().set_hidden();
        }
        2 => {
            c.legend().set_position(ChartLegendPosition::Top);
        }
        _ => {}
    }
    if ch.mov > 0 {
        c.set_object_movement(movement(ch.mov));
    }
    if let Some(o) = &ch.combine {
        c.combine(&chart(o, n));
    }
    c
}
pub fn tfunc(n: u8) -> TableFunction {
    use TableFunction::*;
    match n {
        1 => Average,
        2 => Count,
        3 => CountNumbers,
        4 => Max,
        5 => Min,
        6 => Sum,
        7 => StdDev,
        8 => Var,
        9 => Custom(Formula::new("=SUM(1,2)")),
        _ => None,
    }
}
pub fn table_style(n: u8) -> TableStyle {
    use TableStyle::*;
    [Medium9, None, Light1, Light21, Medium1, Medium28, Dark1, Dark11, Light9][n as usize % 9]
}
pub const TABLE_STYLE_NAMES: [&str; 9] = [
    "TableStyleMedium9", "", "TableStyleLight1", "TableStyleLight21", "TableStyleMedium1", "TableStyleMedium28", "TableStyleDark1", "TableStyleDark11", "TableStyleLight9",
];
pub fn table(t: &TableSpec, fm: &[Format]) -> Table {
    let mut x = Table::new();
    if !t.cols.is_empty() {
        let v: Vec<TableColumn> = t
            .cols
            .iter()
            .map(|c| {
                let mut k = TableColumn::new();
                if let Some(h) = &c.header {
                    k = k.set_header(h);
                }
                if let Some(h) = &c.formula {
                    k = k.set_formula(h.as_str());
                }
                if c.func > 0 {
                    k = k.set_total_function(tfunc(c.func));
                }
                if let Some(h) = &c.label {
                    k = k.set_total_label(h);
                }
                if let Some(f) = c.fmt {
                    k = k.set_format(&fm[f]);
                }
                if let Some(f) = c.hfmt {
                    k = k.set_header_format(&fm[f]);
                }
                k
            })
            .collect();
        x = x.set_columns(&v);
    }
    if let Some(n) = &t.name {
        x = x.set_name(n);
    }
    if t.no_header {
        x = x.set_header_row(false);
    }
    if t.total {
        x = x.set_total_row(true);
    }
    if t.no_filter {
        x = x.set_autofilter(false);
    }
    if t.no_banded {
        x = x.set_banded_rows(false);
    }
    if t.banded_cols {
        x = x.set_banded_columns(true);
    }
    if t.first {
        x = x.set_first_column(true);
    }
    if t.last {
        x = x.set_last_column(true);
    }
    if t.style > 0 {
        x = x.set_style(table_style(t.style));
    }
    x
}
pub const ICONS: [(&str, u8); 20] = [
    ("3Arrows", 3), ("3ArrowsGray", 3), ("3Flags", 3), ("3TrafficLights1", 3), ("3TrafficLights2", 3), ("3Signs", 3), ("3Symbols", 3), ("3Symbols2", 3),
    ("3Stars", 3), ("3Triangles", 3), ("4Arrows", 4), ("4ArrowsGray", 4), ("4RedToBlack", 4), ("4Rating", 4), ("4TrafficLights", 4), ("5Arrows", 5),
    ("5ArrowsGray", 5), ("5Rating", 5), ("5Quarters", 5), ("5Boxes", 5),
];
fn icon_type(n: u8) -> ConditionalFormatIconType {
    use ConditionalFormatIconType::*;
    [
        ThreeArrows, ThreeArrowsGray, ThreeFlags, ThreeTrafficLights, ThreeTrafficLightsWithRim, ThreeSigns, ThreeSymbolsCircled, ThreeSymbols, ThreeStars,
        ThreeTriangles, FourArrows, FourArrowsGray, FourRedToBlack, FourHistograms, FourTrafficLights, FiveArrows, FiveArrowsGray, FiveHistograms, FiveQuadrants,
        FiveBoxes,
    ][n as usize % 20]
}
fn cell_rule<T: IntoConditionalFormatValue>(rule: u8, a: T, b: T) -> ConditionalFormatCellRule<T> {
    use ConditionalFormatCellRule::*;
    match rule % 8 {
        0 => EqualTo(a),
        1 => NotEqualTo(a),
        2 => GreaterThan(a),
        3 => GreaterThanOrEqualTo(a),
        4 => LessThan(a),
        5 => LessThanOrEqualTo(a),
        6 => Between(a, b),
        _ => NotBetween(a, b),
    }
}
macro_rules! cf_common {
    ($x:expr, $s:expr, $fm:expr) => {{
        let mut x = $x;
        if let Some(f) = $s.f {
            x = x.set_format(&$fm[f]);
        }
        cf_nofmt!(x, $s)
    }};
}
macro_rules! cf_nofmt {
    ($x:expr, $s:expr) => {{
        let mut x = $x;
        if $s.stop {
            x = x.set_stop_if_true(true);
        }
        if let Some(m) = &$s.multi {
            x = x.set_multi_range(m);
        }
        x
    }};
}
fn add_cf(ws: &mut Worksheet, g: &Rng4, s: &CfSpec, fm: &[Format]) -> Result<(), XlsxError> {
    macro_rules! add {
        ($x:expr) => {{
            let x = $x;
            ws.add_conditional_format(g.r1, g.c1, g.r2, g.c2, &x)?;
        }};
    }
    match &s.cf {
        Cf::Cell { rule, a, b } => add!(cf_common!(ConditionalFormatCell::new().set_rule(cell_rule(*rule, *a, *b)), s, fm)),
        Cf::CellText { rule, a } => add!(cf_common!(ConditionalFormatCell::new().set_rule(cell_rule(*rule % 6, a.as_str(), a.as_str())), s, fm)),
        Cf::Blank { invert } => {
            let mut x = ConditionalFormatBlank::new();
            if *invert {
                x = x.invert();
            }
            add!(cf_common!(x, s, fm))
        }
        Cf::Error { invert } => {
            let mut x = ConditionalFormatError::new();
            if *invert {
                x = x.invert();
            }
            add!(cf_common!(x, s, fm))
        }
        Cf::Dup { invert } => {
            let mut x = ConditionalFormatDuplicate::new();
            if *invert {
                x = x.invert();
            }
            add!(cf_common!(x, s, fm))
        }
        Cf::Formula { f } => add!(cf_common!(ConditionalFormatFormula::new().set_rule(f.as_str()), s, fm)),
        Cf::Average { rule } => {
            use ConditionalFormatAverageRule::*;
            let r = [
                AboveAverage, BelowAverage, EqualOrAboveAverage, EqualOrBelowAverage, OneStandardDeviationAbove, OneStandardDeviationBelow,
                TwoStandardDeviationsAbove, TwoStandardDeviationsBelow, ThreeStandardDeviationsAbove, ThreeStandardDeviationsBelow,
            ][*rule as usize % 10]
                .clone();
            add!(cf_common!(ConditionalFormatAverage::new().set_rule(r), s, fm))
        }
        Cf::Top { rule, n } => {
            use ConditionalFormatTopRule::*;
            let r = match rule % 4 {
                0 => Top(*n),
                1 => Bottom(*n),
                2 => TopPercent(*n),
                _ => BottomPercent(*n),
            };
            add!(cf_common!(ConditionalFormatTop::new().set_rule(r), s, fm))
        }
        Cf::Text { rule, s: t } => {
            use ConditionalFormatTextRule::*;
            let r = match rule % 4 {
                0 => Contains(t.clone()),
                1 => DoesNotContain(t.clone()),
                2 => BeginsWith(t.clone()),
                _ => EndsWith(t.clone()),
            };
            add!(cf_common!(ConditionalFormatText::new().set_rule(r), s, fm))
        }
        Cf::Date { rule } => {
            use ConditionalFormatDateRule::*;
            let r = [Yesterday, Today, Tomorrow, Last7Days, LastWeek, ThisWeek, NextWeek, LastMonth, ThisMonth, NextMonth][*rule as usize % 10].clone();
            add!(cf_common!(ConditionalFormatDate::new().set_rule(r), s, fm))
        }
        Cf::Two { min, max, c1, c2 } => {
            let mut x = ConditionalFormat2ColorScale::new().set_minimum_color(Color::RGB(*c1)).set_maximum_color(Color::RGB(*c2));
            if let Some(m) = min {
                x = x.set_minimum(ConditionalFormatType::Number, *m);
            }
            if let Some(m) = max {
                x = x.set_maximum(ConditionalFormatType::Percent, *m);
            }
            add!(cf_nofmt!(x, s))
        }
        Cf::Three { min, mid, max, c1, c2, c3 } => {
            let mut x = ConditionalFormat3ColorScale::new()
                .set_minimum_color(Color::RGB(*c1))
                .set_midpoint_color(Color::RGB(*c2))
                .set_maximum_color(Color::RGB(*c3));
            if let Some(m) = min {
                x = x.set_minimum(ConditionalFormatType::Number, *m);
            }
            if let Some(m) = mid {
                x = x.set_midpoint(ConditionalFormatType::Percentile, *m);
            }
            if let Some(m) = max {
                x = x.set_maximum(ConditionalFormatType::Percent, *m);
            }
            add!(cf_nofmt!(x, s))
        }
        Cf::Bar { color, classic, solid, only, dir, min, max, opt } => {
            let mut x = ConditionalFormatDataBar::new().set_fill_color(Color::RGB(*color));
            if *classic {
                x = x.use_classic_style();
            } else {
                use ConditionalFormatDataBarAxisPosition as Ax;
                let on = |i: u8| opt & (1 << i) > 0;
                if on(0) {
                    x = x.set_border_off(true);
                }
                if on(1) {
                    x = x.set_negative_fill_color(BAR_COLORS[0]);
                }
                if on(2) {
                    x = x.set_axis_position(Ax::None);
                } else if on(3) {
                    x = x.set_axis_position(Ax::Midpoint);
                }
                if on(4) {
                    x = x.set_border_color(BAR_COLORS[1]);
                }
                if on(5) {
                    x = x.set_negative_border_color(BAR_COLORS[2]);
                }
                if on(6) {
                    x = x.set_axis_color(BAR_COLORS[3]);
                }
                if *solid {
                    x = x.set_solid_fill(true);
                }
                if *dir > 0 {
                    use ConditionalFormatDataBarDirection::*;
                    x = x.set_direction(if *dir == 1 { LeftToRight } else { RightToLeft });
                }
            }
            if *only {
                x = x.set_bar_only(true);
            }
            if let Some(m) = min {
                x = x.set_minimum(ConditionalFormatType::Number, *m);
            }
            if let Some(m) = max {
                x = x.set_maximum(ConditionalFormatType::Number, *m);
            }
            add!(cf_nofmt!(x, s))
        }
        Cf::Icons { ty, rev, only, custom } => {
            let mut x = ConditionalFormatIconSet::new().set_icon_type(icon_type(*ty));
            if *rev {
                x = x.reverse_icons(true);
            }
            if *only {
                x = x.show_icons_only(true);
            }
            if *custom > 0 {
                let n = ICONS[*ty as usize % 20].1;
                let v: Vec<ConditionalFormatCustomIcon> = (0..n)
                    .map(|i| {
                        let mut k = ConditionalFormatCustomIcon::new();
                        if i == 0 && custom & 1 > 0 {
                            k = k.set_icon_type(ConditionalFormatIconType::FiveBoxes, 2);
                        } else if i > 0 {
                            k = k.set_rule(ConditionalFormatType::Number, 10 * i as i32);
                        }
                        if i == 1 && custom & 4 > 0 {
                            k = k.set_greater_than(true);
                        }
                        k
                    })
                    .collect();
                x = x.set_icons(&v);
            }
            add!(cf_nofmt!(x, s))
        }
    }
    Ok(())
}
fn dv_rule<T: IntoDataValidationValue>(rule: u8, a: T, b: T) -> DataValidationRule<T> {
    use DataValidationRule::*;
    match rule % 8 {
        0 => EqualTo(a),
        1 => NotEqualTo(a),
        2 => GreaterThan(a),
        3 => GreaterThanOrEqualTo(a),
        4 => LessThan(a),
        5 => LessThanOrEqualTo(a),
        6 => Between(a, b),
        _ => NotBetween(a, b),
    }
}
fn dv(d: &DvSpec) -> Result<DataValidation, XlsxError> {
    let mut x = DataValidation::new();
    x = match &d.rule {
        DvRule::Whole(r, a, b) => x.allow_whole_number(dv_rule(*r, *a, *b)),
        DvRule::WholeF(r, a, b) => x.allow_whole_number_formula(dv_rule(*r, Formula::new(a), Formula::new(b))),
        DvRule::Decimal(r, a, b) => x.allow_decimal_number(dv_rule(*r, *a as f64 / 4.0, *b as f64 / 4.0)),
        DvRule::List(v) => x.allow_list_strings(v)?,
        DvRule::ListF(f) => x.allow_list_formula(Formula::new(f)),
        DvRule::Date(r, a, b) => {
            x.allow_date(dv_rule(*r, ExcelDateTime::from_ymd(a.0, a.1, a.2)?, ExcelDateTime::from_ymd(b.0, b.1, b.2)?))
        }
        DvRule::Len(r, a, b) => x.allow_text_length(dv_rule(*r, *a, *b)),
        DvRule::Custom(f) => x.allow_custom(Formula::new(f)),
        DvRule::Any => x.allow_any_value(),
    };
    if let Some(t) = &d.in_title {
        x = x.set_input_title(t)?;
    }
    if let Some(t) = &d.in_msg {
        x = x.set_input_message(t)?;
    }
    if let Some(t) = &d.err_title {
        x = x.set_error_title(t)?;
    }
    if let Some(t) = &d.err_msg {
        x = x.set_error_message(t)?;
    }
    match d.style {
        1 => x = x.set_error_style(DataValidationErrorStyle::Warning),
        2 => x = x.set_error_style(DataValidationErrorStyle::Information),
        _ => {}
    }
    if d.no_blank {
        x = x.ignore_blank(false);
    }
    if d.no_drop {
        x = x.show_dropdown(false);
    }
    if d.no_in {
        x = x.show_input_message(false);
    }
    if d.no_err {
        x = x.show_error_message(false);
    }
    if let Some(m) = &d.multi {
        x = x.set_multi_range(m);
    }
    Ok(x)
}
pub fn criteria(n: u8) -> FilterCriteria {
    use FilterCriteria::*;
    match n % 12 {
        0 => EqualTo,
        1 => NotEqualTo,
        2 => GreaterThan,
        3 => GreaterThanOrEqualTo,
        4 => LessThan,
        5 => LessThanOrEqualTo,
        6 => BeginsWith,
        7 => DoesNotBeginWith,
        8 => EndsWith,
        9 => DoesNotEndWith,
        10 => Contains,
        _ => DoesNotContain,
    }
}
fn filter(f: &FilterSpec) -> FilterCondition {
    let mut x = FilterCondition::new();
    match f {
        FilterSpec::List { strs, nums, blanks } => {
            for s in strs {
                x = x.add_list_filter(s.as_str());
            }
            for n in nums {
                x = x.add_list_filter(*n);
            }
            if *blanks {
                x = x.add_list_blanks_filter();
            }
        }
        FilterSpec::Custom { c1, v1, second, or } => {
            let add = |x: FilterCondition, c: u8, v: &FV| match v {
                FV::N(n) => x.add_custom_filter(criteria(c), *n),
                FV::S(s) => x.add_custom_filter(criteria(c), s.as_str()),
            };
            x = add(x, *c1, v1);
            if let Some((c, v)) = second {
                x = add(x, *c, v);
            }
            if *or {
                x = x.add_custom_boolean_or();
            }
        }
    }
    x
}
fn sparkline(s: &SparkSpec, n: &Names) -> Sparkline {
    let mut x = Sparkline::new().set_range(&n.range(&s.data));
    match s.ty {
        1 => x = x.set_type(SparklineType::Column),
        2 => x = x.set_type(SparklineType::WinLose),
        _ => {}
    }
    let fl = |i: u16| s.flags & (1 << i) != 0;
    if fl(0) {
        x = x.show_high_point(true);
    }
    if fl(1) {
        x = x.show_low_point(true);
    }
    if fl(2) {
        x = x.show_first_point(true);
    }
    if fl(3) {
        x = x.show_last_point(true);
    }
    if fl(4) {
        x = x.show_negative_points(true);
    }
    if fl(5) {
        x = x.show_markers(true);
    }
    if fl(6) {
        x = x.show_axis(true);
    }
    if fl(7) {
        x = x.show_hidden_data(true);
    }
    if fl(8) {
        x = x.set_right_to_left(true);
    }
    if fl(9) {
        x = x.set_column_order(true);
    }
    if fl(10) {
        x = x.set_group_max(true);
    }
    if fl(11) {
        x = x.set_group_min(true);
    }
    match s.empty {
        1 => x = x.show_empty_cells_as(ChartEmptyCells::Zero),
        2 => x = x.show_empty_cells_as(ChartEmptyCells::Connected),
        _ => {}
    }
    if s.style > 0 {
        x = x.set_style(s.style);
    }
    if let Some(c) = s.color {
        x = x.set_sparkline_color(Color::RGB(c));
    }
    if s.weight4 > 0 {
        x = x.set_line_weight(s.weight4 as f64 / 4.0);
    }
    if let Some(m) = s.max {
        x = x.set_custom_max(m);
    }
    if let Some(m) = s.min {
        x = x.set_custom_min(m);
    }
    if let Some(r) = &s.dates {
        x = x.set_date_range(&n.range(r));
    }
    x
}
pub const BAR_COLORS: [u32; 4] = [0x112233, 0x445566, 0x778899, 0xAABBCC];
pub fn ignore_kind(k: u8) -> IgnoreError {
    use IgnoreError::*;
    match k % 9 {
        0 => NumberStoredAsText,
        1 => FormulaError,
        2 => FormulaDiffers,
        3 => FormulaRefersToEmptyCells,
        4 => FormulaOmitsCells,
        5 => DataValidationError,
        6 => TwoDigitTextYear,
        7 => UnlockedCellsWithFormula,
        _ => InconsistentColumnFormula,
    }
}
fn datetime(v: &Val) -> Result<ExcelDateTime, XlsxError> {
    match v {
        Val::Date(y, m, d, h, mi, s) => ExcelDateTime::from_ymd(*y, *m, *d)?.and_hms(*h as u16, *mi, *s as f64),
        _ => unreachable!(),
    }
}
fn formula(f: &str, res: &Option<String>) -> Formula {
    let mut x = Formula::new(f);
    if let Some(r) = res {
        x = x.set_result(r);
    }
    x
}
fn url(link: &str, text: &Option<String>, tip: &Option<String>) -> Url {
    let mut u = Url::new(link);
    if let Some(t) = text {
        u = u.set_text(t);
    }
    if let Some(t) = tip {
        u = u.set_tip(t);
    }
    u
}

// ---------------------------------------------------------------------------
// Serialized structs. A record carries only the fields the harness knows.
// ---------------------------------------------------------------------------
#[derive(Serialize, Deserialize, Default)]
#[serde(rename_all = "PascalCase")]
struct Alpha {
    number: i32,
    text: String,
    flag: bool,
    maybe: Option<i32>,
}
#[derive(Serialize, Deserialize, Default)]
struct Beta {
    text: String,
    ratio: f64,
    #[serde(rename = "The Number")]
    number: i32,
}
#[derive(Serialize, Deserialize, Default)]
struct Gamma {
    id: u8,
    name: String,
}
impl XlsxSerialize for Gamma {
    fn to_serialize_field_options() -> SerializeFieldOptions {
        SerializeFieldOptions::new().set_struct_name("Gamma").set_custom_headers(&[
            CustomSerializeField::new("name").rename("Gamma name"),
            CustomSerializeField::new("id").set_value_format(Format::new().set_bold()),
        ])
    }
}
pub const SER_FIELDS: [(&str, &[&str]); 3] =
    [("Alpha", &["Number", "Text", "Flag", "Maybe"]), ("Beta", &["text", "ratio", "The Number"]), ("Gamma", &["id", "name"])];

fn ser_opts(opts: &[SerField], only: bool, f: Option<usize>, table: bool, noh: bool, fm: &[Format]) -> SerializeFieldOptions {
    let v: Vec<CustomSerializeField> = opts
        .iter()
        .map(|o| {
            let mut c = CustomSerializeField::new(&o.field);
            if let Some(r) = &o.rename {
                c = c.rename(r);
            }
            if let Some(f) = o.hf {
                c = c.set_header_format(&fm[f]);
            }
            if let Some(f) = o.vf {
                c = c.set_value_format(&fm[f]);
            }
            if o.skip {
                c = c.skip(true);
            }
            if o.width2 > 0 {
                c = c.set_column_width(o.width2 as f64 / 2.0);
            }
            c
        })
        .collect();
    let mut x = SerializeFieldOptions::new().set_custom_headers(&v);
    if only {
        x = x.use_custom_headers_only(true);
    }
    if let Some(f) = f {
        x = x.set_header_format(&fm[f]);
    }
    if table {
        x = x.set_table_default();
    }
    if noh {
        x = x.hide_headers(true);
    }
    x
}
fn serialize(ws: &mut Worksheet, s: &Ser, fm: &[Format]) -> Result<(), XlsxError> {
    match s {
        Ser::Head { kind, r, c, via, f, opts, custom, table, noheaders } => {
            macro_rules! head {
                ($t:ty) => {
                    match via {
                        0 => ws.serialize_headers(*r, *c, &<$t>::default())?,
                        1 => ws.serialize_headers_with_format(*r, *c, &<$t>::default(), &fm[f.unwrap_or(0)])?,
                        2 => ws.serialize_headers_with_options(*r, *c, &<$t>::default(), &ser_opts(opts, *custom, *f, *table, *noheaders, fm))?,
                        3 => ws.deserialize_headers::<$t>(*r, *c)?,
                        4 => ws.deserialize_headers_with_format::<$t>(*r, *c, &fm[f.unwrap_or(0)])?,
                        _ => ws.deserialize_headers_with_options::<$t>(*r, *c, &ser_opts(opts, *custom, *f, *table, *noheaders, fm))?,
                    }
                };
            }
            match kind {
                0 => head!(Alpha),
                1 => head!(Beta),
                _ => {
                    if *via == 6 {
                        ws.set_serialize_headers::<Gamma>(*r, *c)?
                    } else {
                        head!(Gamma)
                    }
                }
            };
        }
        Ser::Rec { kind, n, s, b, o } => {
            match kind {
                0 => ws.serialize(&Alpha { number: *n, text: s.clone(), flag: *b, maybe: *o })?,
                1 => ws.serialize(&Beta { text: s.clone(), ratio: *n as f64 / 8.0, number: o.unwrap_or(7) })?,
                _ => ws.serialize(&Gamma { id: *n as u8, name: s.clone() })?,
            };
        }
        Ser::Vecs { n, s } => {
            let v: Vec<Beta> = n.iter().zip(s).map(|(n, s)| Beta { text: s.clone(), ratio: *n as f64, number: n * 2 }).collect();
            ws.serialize(&v)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// Worksheet operations.
// ---------------------------------------------------------------------------
pub struct Ctx<'a> {
    pub fm: &'a [Format],
    pub names: &'a [String],
}

#[derive(Clone)]
enum Any {
    N(f64),
    S(String),
    B(bool),
}
impl IntoExcelData for Any {
    fn write(self, ws: &mut Worksheet, row: RowNum, col: ColNum) -> Result<&mut Worksheet, XlsxError> {
        match self {
            Any::N(n) => ws.write_number(row, col, n),
            Any::S(s) => ws.write_string(row, col, s),
            Any::B(b) => ws.write_boolean(row, col, b),
        }
    }
    fn write_with_format<'a, 'b>(self, ws: &'a mut Worksheet, row: RowNum, col: ColNum, f: &'b Format) -> Result<&'a mut Worksheet, XlsxError> {
        match self {
            Any::N(n) => ws.write_number_with_format(row, col, n, f),
            Any::S(s) => ws.write_string_with_format(row, col, s, f),
            Any::B(b) => ws.write_boolean_with_format(row, col, b, f),
        }
    }
}
fn any(v: &Val) -> Any {
    match v {
        Val::Num(b) => Any::N(f64::from_bits(*b)),
        Val::Str(s) => Any::S(s.clone()),
        Val::Bool(b) => Any::B(*b),
        _ => Any::S(String::new()),
    }
}

fn write_cell(ws: &mut Worksheet, cx: &Ctx, r: u32, c: u16, v: &Val, f: Option<usize>, via: u8) -> Result<(), XlsxError> {
    let f = f.map(|i| &cx.fm[i]);
    match (v, via, f) {
        (Val::Num(b), 0, None) => ws.write_number(r, c, f64::from_bits(*b))?,
        (Val::Num(b), 0, Some(f)) => ws.write_number_with_format(r, c, f64::from_bits(*b), f)?,
        (Val::Num(b), _, None) => ws.write(r, c, f64::from_bits(*b))?,
        (Val::Num(b), _, Some(f)) => ws.write_with_format(r, c, f64::from_bits(*b), f)?,
        (Val::Str(s), 0, None) => ws.write_string(r, c, s)?,
        (Val::Str(s), 0, Some(f)) => ws.write_string_with_format(r, c, s, f)?,
        (Val::Str(s), 1, None) => ws.write(r, c, s.as_str())?,
        (Val::Str(s), 1, Some(f)) => ws.write_with_format(r, c, s.as_str(), f)?,
        (Val::Str(s), _, None) => ws.write(r, c, Some(s.clone()))?,
        (Val::Str(s), _, Some(f)) => ws.write_with_format(r, c, s.clone(), f)?,
        (Val::Bool(b), 0, None) => ws.write_boolean(r, c, *b)?,
        (Val::Bool(b), 0, Some(f)) => ws.write_boolean_with_format(r, c, *b, f)?,
        (Val::Bool(b), _, None) => ws.write(r, c, *b)?,
        (Val::Bool(b), _, Some(f)) => ws.write_with_format(r, c, *b, f)?,
        (Val::Blank, _, None) => ws.write_blank(r, c, &Format::default())?,
        (Val::Blank, _, Some(f)) => ws.write_blank(r, c, f)?,
        (Val::Formula(s, res), 0, None) => ws.write_formula(r, c, formula(s, res))?,
        (Val::Formula(s, res), 0, Some(f)) => ws.write_formula_with_format(r, c, formula(s, res), f)?,
        (Val::Formula(s, res), _, None) => ws.write(r, c, formula(s, res))?,
        (Val::Formula(s, res), _, Some(f)) => ws.write_with_format(r, c, formula(s, res), f)?,
        (Val::Date(..), 0, None) => ws.write_datetime(r, c, &datetime(v)?)?,
        (Val::Date(..), 0, Some(f)) => ws.write_datetime_with_format(r, c, &datetime(v)?, f)?,
        (Val::Date(..), _, None) => ws.write(r, c, &datetime(v)?)?,
        (Val::Date(..), _, Some(f)) => ws.write_with_format(r, c, &datetime(v)?, f)?,
        (Val::Rich(segs), _, f) => {
            let d = Format::default();
            let v: Vec<(&Format, &str)> = segs.iter().map(|(i, s)| (i.map_or(&d, |i| &cx.fm[i]), s.as_str())).collect();
            match f {
                None => ws.write_rich_string(r, c, &v)?,
                Some(f) => ws.write_rich_string_with_format(r, c, &v, f)?,
            }
        }
        (Val::Url { link, text, tip }, 0, f) => match (text, f) {
            (None, None) => ws.write_url(r, c, url(link, text, tip))?,
            (None, Some(f)) => ws.write_url_with_format(r, c, url(link, text, tip), f)?,
            (Some(t), None) => ws.write_url_with_text(r, c, url(link, &None, tip), t)?,
            (Some(t), Some(f)) => ws.write_url_with_options(r, c, link.as_str(), t, tip.clone().unwrap_or_default(), Some(f))?,
        },
        (Val::Url { link, text, tip }, _, None) => ws.write(r, c, url(link, text, tip))?,
        (Val::Url { link, text, tip }, _, Some(f)) => ws.write_with_format(r, c, url(link, text, tip), f)?,
    };
    Ok(())
}

pub fn apply(ws: &mut Worksheet, cx: &Ctx, op: &SOp) -> Result<(), XlsxError> {
    let fm = cx.fm;
    let names = Names(cx.names);
    match op {
        SOp::Cell { r, c, v, f, via } => write_cell(ws, cx, *r, *c, v, *f, *via)?,
        SOp::RowVals { r, c, v, f } => {
            let it = v.iter().map(any);
            match f {
                None => ws.write_row(*r, *c, it)?,
                Some(f) => ws.write_row_with_format(*r, *c, it, &fm[*f])?,
            };
        }
        SOp::ColVals { r, c, v, f } => {
            let it = v.iter().map(any);
            match f {
                None => ws.write_column(*r, *c, it)?,
                Some(f) => ws.write_column_with_format(*r, *c, it, &fm[*f])?,
            };
        }
        SOp::Matrix { r, c, v, cols } => {
            if *cols {
                ws.write_column_matrix(*r, *c, v.iter().map(|x| x.iter().copied()))?;
            } else {
                ws.write_row_matrix(*r, *c, v.iter().map(|x| x.iter().copied()))?;
            }
        }
        SOp::Array { g, formula: s, res, f, dynamic } => {
            let x = formula(s, res);
            match (dynamic, f) {
                (false, None) => ws.write_array_formula(g.r1, g.c1, g.r2, g.c2, x)?,
                (false, Some(f)) => ws.write_array_formula_with_format(g.r1, g.c1, g.r2, g.c2, x, &fm[*f])?,
                (true, None) => ws.write_dynamic_array_formula(g.r1, g.c1, g.r2, g.c2, x)?,
                (true, Some(f)) => ws.write_dynamic_array_formula_with_format(g.r1, g.c1, g.r2, g.c2, x, &fm[*f])?,
            };
        }
        SOp::Merge { g, text, f } => {
            ws.merge_range(g.r1, g.c1, g.r2, g.c2, text, &fm[*f])?;
        }
        SOp::CellFmt { r, c, f } => {
            ws.set_cell_format(*r, *c, &fm[*f])?;
        }
        SOp::RangeFmt { g, f } => {
            ws.set_range_format(g.r1, g.c1, g.r2, g.c2, &fm[*f])?;
        }
        SOp::RangeBorder { g, f, b } => {
            ws.set_range_format_with_border(g.r1, g.c1, g.r2, g.c2, &fm[*f], &fm[*b])?;
        }
        SOp::Clear { r, c } => {
            ws.clear_cell(*r, *c);
        }
        SOp::ClearFmt { r, c } => {
            ws.clear_cell_format(*r, *c);
        }
        SOp::SetResult { r, c, res } => {
            ws.set_formula_result(*r, *c, res);
        }
        SOp::ResultDefault(s) => {
            ws.set_formula_result_default(s);
        }
        SOp::NanText(s) => {
            ws.set_nan_value(s);
        }
        SOp::InfText(s) => {
            ws.set_infinity_value(s);
        }
        SOp::Check { r, c, b, f } => {
            match f {
                None => ws.insert_checkbox(*r, *c, *b)?,
                Some(f) => ws.insert_checkbox_with_format(*r, *c, *b, &fm[*f])?,
            };
        }
        SOp::Embed { r, c, img, f } => {
            let i = image(img)?;
            match f {
                None => ws.embed_image(*r, *c, &i)?,
                Some(f) => ws.embed_image_with_format(*r, *c, &i, &fm[*f])?,
            };
        }
        SOp::RowH { r, h4 } => {
            ws.set_row_height(*r, *h4 as f64 / 4.0)?;
        }
        SOp::RowFmt { r, f } => {
            ws.set_row_format(*r, &fm[*f])?;
        }
        SOp::RowHide { r, on } => {
            if *on {
                ws.set_row_hidden(*r)?;
            } else {
                ws.set_row_unhidden(*r)?;
            }
        }
        SOp::RowGroup { r1, r2, collapsed } => {
            if *collapsed {
                ws.group_rows_collapsed(*r1, *r2)?;
            } else {
                ws.group_rows(*r1, *r2)?;
            }
        }
        SOp::ColW { c1, c2, w4 } => {
            if c1 == c2 {
                ws.set_column_width(*c1, *w4 as f64 / 4.0)?;
            } else {
                ws.set_column_range_width(*c1, *c2, *w4 as f64 / 4.0)?;
            }
        }
        SOp::ColFmt { c1, c2, f } => {
            if c1 == c2 {
                ws.set_column_format(*c1, &fm[*f])?;
            } else {
                ws.set_column_range_format(*c1, *c2, &fm[*f])?;
            }
        }
        SOp::ColHide { c1, c2 } => {
            if c1 == c2 {
                ws.set_column_hidden(*c1)?;
            } else {
                ws.set_column_range_hidden(*c1, *c2)?;
            }
        }
        SOp::ColGroup { c1, c2, collapsed } => {
            if *collapsed {
                ws.group_columns_collapsed(*c1, *c2)?;
            } else {
                ws.group_columns(*c1, *c2)?;
            }
        }
        SOp::DefaultRowH(h) => {
            ws.set_default_row_height(*h as f64 / 4.0);
        }
        SOp::HideUnused(b) => {
            ws.hide_unused_rows(*b);
        }
        SOp::SymAbove(b) => {
            ws.group_symbols_above(*b);
        }
        SOp::SymLeft(b) => {
            ws.group_symbols_to_left(*b);
        }
        SOp::Autofit => {
            ws.autofit();
        }
        SOp::Image { r, c, img, x, y } => {
            let i = image(img)?;
            if *x == 0 && *y == 0 {
                ws.insert_image(*r, *c, &i)?;
            } else {
                ws.insert_image_with_offset(*r, *c, &i, *x, *y)?;
            }
        }
        SOp::ImageFit { r, c, img, keep } => {
            ws.insert_image_fit_to_cell(*r, *c, &image(img)?, *keep)?;
        }
        SOp::Background(img) => {
            ws.insert_background_image(&image(img)?);
        }
        SOp::HdrImg { pos, footer, img } => {
            let p = match pos % 3 {
                0 => HeaderImagePosition::Left,
                1 => HeaderImagePosition::Center,
                _ => HeaderImagePosition::Right,
            };
            if *footer {
                ws.set_footer_image(&image(img)?, p)?;
            } else {
                ws.set_header_image(&image(img)?, p)?;
            }
        }
        SOp::Chart { r, c, ch, x, y } => {
            let k = chart(ch, &names);
            if *x == 0 && *y == 0 {
                ws.insert_chart(*r, *c, &k)?;
            } else {
                ws.insert_chart_with_offset(*r, *c, &k, *x, *y)?;
            }
        }
        SOp::Note { r, c, text, author, vis, w, h, prefix, alt } => {
            let mut n = Note::new(text);
            if let Some(a) = author {
                n = n.set_author(a);
            }
            if let Some(v) = vis {
                n = n.set_visible(*v);
            }
            if *w > 0 {
                n = n.set_width(*w as u32);
            }
            if *h > 0 {
                n = n.set_height(*h as u32);
            }
            if !*prefix {
                n = n.add_author_prefix(false);
            }
            if let Some(a) = alt {
                n = n.set_alt_text(a);
            }
            ws.insert_note(*r, *c, &n)?;
        }
        SOp::Shape { r, c, text, w, h, alt, url, link, x, y } => {
            let mut s = Shape::textbox().set_text(text);
            if *w > 0 {
                s = s.set_width(*w as u32);
            }
            if *h > 0 {
                s = s.set_height(*h as u32);
            }
            if let Some(a) = alt {
                s = s.set_alt_text(a);
            }
            if let Some(u) = url {
                s = s.set_url(u.as_str())?;
            }
            if let Some(l) = link {
                s = s.set_text_link(format!("={}!{}", cx.names[l.h], a1_abs(l.g.r1, l.g.c1)).as_str());
            }
            ws.insert_shape_with_offset(*r, *c, &s, *x, *y)?;
        }
        SOp::Button { r, c, caption, mac, w, h, alt, x, y } => {
            let mut b = Button::new();
            if let Some(s) = caption {
                b = b.set_caption(s);
            }
            if let Some(s) = mac {
                b = b.set_macro(s);
            }
            if *w > 0 {
                b = b.set_width(*w as u32);
            }
            if *h > 0 {
                b = b.set_height(*h as u32);
            }
            if let Some(a) = alt {
                b = b.set_alt_text(a);
            }
            ws.insert_button_with_offset(*r, *c, &b, *x, *y)?;
        }
        SOp::ShowNotes(b) => {
            ws.show_all_notes(*b);
        }
        SOp::NoteAuthor(s) => {
            ws.set_default_note_author(s);
        }
        SOp::Table { g, t } => {
            ws.add_table(g.r1, g.c1, g.r2, g.c2, &table(t, fm))?;
        }
        SOp::Cf { g, cf } => add_cf(ws, g, cf, fm)?,
        SOp::Dv { g, dv: d } => {
            ws.add_data_validation(g.r1, g.c1, g.r2, g.c2, &dv(d)?)?;
        }
        SOp::Autofilter { g } => {
            ws.autofilter(g.r1, g.c1, g.r2, g.c2)?;
        }
        SOp::Filter { col, fl } => {
            ws.filter_column(*col, &filter(fl))?;
        }
        SOp::FilterOff => {
            ws.filter_automatic_off();
        }
        SOp::Spark { r, c, sp } => {
            ws.add_sparkline(*r, *c, &sparkline(sp, &names))?;
        }
        SOp::SparkGroup { g, sp } => {
            ws.add_sparkline_group(g.r1, g.c1, g.r2, g.c2, &sparkline(sp, &names))?;
        }
        SOp::Protect { pw, opts } => match (pw, opts) {
            (None, None) => {
                ws.protect();
            }
            (Some(p), _) => {
                ws.protect_with_password(p);
            }
            (None, Some(o)) => {
                let b = |i: u16| o & (1 << i) != 0;
                ws.protect_with_options(&ProtectionOptions {
                    select_locked_cells: !b(0),
                    select_unlocked_cells: !b(1),
                    format_cells: b(2),
                    format_columns: b(3),
                    format_rows: b(4),
                    insert_columns: b(5),
                    insert_rows: b(6),
                    insert_links: b(7),
                    delete_columns: b(8),
                    delete_rows: b(9),
                    sort: b(10),
                    use_autofilter: b(11),
                    use_pivot_tables: b(12),
                    edit_scenarios: b(13),
                    edit_objects: b(14),
                    ..ProtectionOptions::default()
                });
            }
        },
        SOp::Unprotect { g, name, pw } => {
            if name.is_none() && pw.is_none() {
                ws.unprotect_range(g.r1, g.c1, g.r2, g.c2)?;
            } else {
                ws.unprotect_range_with_options(g.r1, g.c1, g.r2, g.c2, name.as_deref().unwrap_or(""), pw.as_deref().unwrap_or(""))?;
            }
        }
        SOp::Ignore { g, kind } => {
            if g.single() {
                ws.ignore_error(g.r1, g.c1, ignore_kind(*kind))?;
            } else {
                ws.ignore_error_range(g.r1, g.c1, g.r2, g.c2, ignore_kind(*kind))?;
            }
        }
        SOp::View(v) => match v {
            View::Zoom(z) => {
                ws.set_zoom(*z);
            }
            View::Freeze(r, c) => {
                ws.set_freeze_panes(*r, *c)?;
            }
            View::FreezeTop(r, c) => {
                ws.set_freeze_panes_top_cell(*r, *c)?;
            }
            View::Selection(g) => {
                ws.set_selection(g.r1, g.c1, g.r2, g.c2)?;
            }
            View::TopLeft(r, c) => {
                ws.set_top_left_cell(*r, *c)?;
            }
            View::Rtl(b) => {
                ws.set_right_to_left(*b);
            }
            View::Gridlines(b) => {
                ws.set_screen_gridlines(*b);
            }
            View::Layout => {
                ws.set_view_page_layout();
            }
            View::BreakPreview => {
                ws.set_view_page_break_preview();
            }
            View::Normal => {
                ws.set_view_normal();
            }
        },
        SOp::Print(p) => match p {
            Print::Area(g) => {
                ws.set_print_area(g.r1, g.c1, g.r2, g.c2)?;
            }
            Print::RepeatRows(a, b) => {
                ws.set_repeat_rows(*a, *b)?;
            }
            Print::RepeatCols(a, b) => {
                ws.set_repeat_columns(*a, *b)?;
            }
            Print::Landscape => {
                ws.set_landscape();
            }
            Print::Portrait => {
                ws.set_portrait();
            }
            Print::Paper(n) => {
                ws.set_paper_size(*n);
            }
            Print::PageOrder(b) => {
                ws.set_page_order(*b);
            }
            Print::Header(s) => {
                ws.set_header(s);
            }
            Print::Footer(s) => {
                ws.set_footer(s);
            }
            Print::ScaleWithDoc(b) => {
                ws.set_header_footer_scale_with_doc(*b);
            }
            Print::AlignWithPage(b) => {
                ws.set_header_footer_align_with_page(*b);
            }
            Print::Margins(m) => {
                let x = |i: usize| m[i] as f64 / 100.0;
                ws.set_margins(x(0), x(1), x(2), x(3), x(4), x(5));
            }
            Print::FirstPage(n) => {
                ws.set_print_first_page_number(*n);
            }
            Print::Scale(n) => {
                ws.set_print_scale(*n);
            }
            Print::Fit(w, h) => {
                ws.set_print_fit_to_pages(*w, *h);
            }
            Print::CenterH(b) => {
                ws.set_print_center_horizontally(*b);
            }
            Print::CenterV(b) => {
                ws.set_print_center_vertically(*b);
            }
            Print::Gridlines(b) => {
                ws.set_print_gridlines(*b);
            }
            Print::BlackWhite(b) => {
                ws.set_print_black_and_white(*b);
            }
            Print::Draft(b) => {
                ws.set_print_draft(*b);
            }
            Print::Headings(b) => {
                ws.set_print_headings(*b);
            }
            Print::Breaks(v) => {
                ws.set_page_breaks(v)?;
            }
            Print::VBreaks(v) => {
                ws.set_vertical_page_breaks(v)?;
            }
        },
        SOp::State(s) => match s {
            State::Active(b) => {
                ws.set_active(*b);
            }
            State::Selected(b) => {
                ws.set_selected(*b);
            }
            State::Hidden(b) => {
                ws.set_hidden(*b);
            }
            State::VeryHidden(b) => {
                ws.set_very_hidden(*b);
            }
            State::First(b) => {
                ws.set_first_tab(*b);
            }
            State::TabColor(c) => {
                ws.set_tab_color(Color::RGB(*c));
            }
            State::Name(n) => {
                ws.set_name(n)?;
            }
        },
        SOp::Ser(s) => serialize(ws, s, fm)?,
        SOp::VbaName(n) => {
            ws.set_vba_name(n)?;
        }
        SOp::Bad(b) => bad(ws, cx, b)?,
    }
    Ok(())
}

const RMAX: u32 = 1_048_576;
const CMAX: u16 = 16_384;

fn bad(ws: &mut Worksheet, cx: &Ctx, b: &Bad) -> Result<(), XlsxError> {
    let fmt = Format::new().set_bold();
    let dflt = Format::default();
    let img = |ty: u8| image(&Img { id: 999, ty, w: 10, h: 10, alt: None, decorative: false, url: None, tip: None, from_file: false, mov: 0, scale: 0 });
    let smallchart = || {
        let mut c = Chart::new(ChartType::Line);
        c.add_series().set_values(("Sheet1", 0, 0, 1, 0));
        c
    };
    let long = || "x".repeat(32_768);
    match b {
        Bad::NumLimit { row: true } => ws.write_number(RMAX, 0, 1.0)?,
        Bad::NumLimit { row: false } => ws.write_number_with_format(0, CMAX, 1.0, &fmt)?,
        Bad::StrLimit => ws.write_string(RMAX, 3, "never")?,
        Bad::StrLong { r, c } => ws.write_string(*r, *c, long())?,
        Bad::RichEmpty { r, c } => ws.write_rich_string(*r, *c, &[])?,
        Bad::RichEmptySeg { r, c } => ws.write_rich_string(*r, *c, &[(&dflt, "a"), (&fmt, "")])?,
        Bad::RichLong { r, c } => ws.write_rich_string(*r, *c, &[(&dflt, "a"), (&fmt, &long())])?,
        Bad::FormulaLimit => ws.write_formula(0, CMAX, "=1+1")?,
        Bad::ArrayOrder { g } => ws.write_array_formula(g.r2 + 1, g.c1, g.r1, g.c2, "{=SUM(A1:A3)}")?,
        Bad::ArrayLimit => ws.write_array_formula(0, 0, RMAX, 0, "{=SUM(A1:A3)}")?,
        Bad::BoolLimit => ws.write_boolean(RMAX, 0, true)?,
        Bad::BlankLimit => ws.write_blank(RMAX, 0, &fmt)?,
        Bad::UrlBad { r, c } => ws.write_url(*r, *c, "nothing:at all")?,
        Bad::UrlLong { r, c } => ws.write_url(*r, *c, format!("https://example.com/{}", "u".repeat(2100)).as_str())?,
        Bad::UrlTipLong { r, c } => ws.write_url(*r, *c, Url::new("https://example.com").set_tip("t".repeat(300)))?,
        Bad::MergeOrder { g } => ws.merge_range(g.r2 + 1, g.c1, g.r1, g.c2, "m", &fmt)?,
        Bad::MergeSingle { r, c } => ws.merge_range(*r, *c, *r, *c, "m", &fmt)?,
        Bad::MergeLimit => ws.merge_range(0, 0, RMAX, 1, "m", &fmt)?,
        Bad::MergeOverlap { g } => ws.merge_range(g.r1, g.c1, g.r2, g.c2, "overlap", &fmt)?,
        Bad::TableOverlap { g, header } => {
            let mut t = Table::new();
            if let Some(h) = header {
                t = t.set_columns(&[TableColumn::new().set_header(h)]);
            }
            ws.add_table(g.r1, g.c1, g.r2, g.c2, &t)?
        }
        Bad::TableOrder { g } => ws.add_table(g.r2 + 1, g.c1, g.r1, g.c2, &Table::new())?,
        Bad::TableTooSmall { r, c } => ws.add_table(*r, *c, *r, *c, &Table::new())?,
        Bad::TableDupHeader { g } => {
            ws.add_table(g.r1, g.c1, g.r2, g.c2, &Table::new().set_columns(&[TableColumn::new().set_header("dup"), TableColumn::new().set_header("DUP")]))?
        }
        Bad::TableName { g, name } => ws.add_table(g.r1, g.c1, g.r2, g.c2, &Table::new().set_name(name))?,
        Bad::FilterOverlap { g } => ws.autofilter(g.r1, g.c1, g.r2, g.c2)?,
        Bad::FilterOrder { g } => ws.autofilter(g.r2 + 1, g.c1, g.r1, g.c2)?,
        Bad::FilterCol { col } => ws.filter_column(*col, &FilterCondition::new().add_list_filter("x"))?,
        Bad::CfOrder { g } => ws.add_conditional_format(g.r2 + 1, g.c1, g.r1, g.c2, &ConditionalFormatBlank::new().set_format(&fmt))?,
        Bad::CfInvalid { g, kind } => match kind % 4 {
            0 => ws.add_conditional_format(g.r1, g.c1, g.r2, g.c2, &ConditionalFormatCell::new().set_format(&fmt))?,
            1 => ws.add_conditional_format(g.r1, g.c1, g.r2, g.c2, &ConditionalFormatTop::new().set_rule(ConditionalFormatTopRule::Top(0)).set_format(&fmt))?,
            2 => ws.add_conditional_format(
                g.r1,
                g.c1,
                g.r2,
                g.c2,
                &ConditionalFormatIconSet::new().set_icon_type(ConditionalFormatIconType::ThreeFlags).set_icons(&[ConditionalFormatCustomIcon::new()]),
            )?,
            _ => ws.add_conditional_format(
                g.r1,
                g.c1,
                g.r2,
                g.c2,
                &ConditionalFormatText::new().set_rule(ConditionalFormatTextRule::Contains(String::new())).set_format(&fmt),
            )?,
        },
        Bad::DvOrder { g } => ws.add_data_validation(g.r2 + 1, g.c1, g.r1, g.c2, &DataValidation::new().allow_whole_number(DataValidationRule::EqualTo(1)))?,
        Bad::DvInvalid { g } => {
            let d = DataValidation::new().set_input_title("a title that is longer than the thirty two characters allowed")?;
            ws.add_data_validation(g.r1, g.c1, g.r2, g.c2, &d)?
        }
        Bad::SparkNoRange { r, c } => ws.add_sparkline(*r, *c, &Sparkline::new())?,
        Bad::SparkOrder { g } => ws.add_sparkline_group(g.r2 + 1, g.c1, g.r1, g.c2, &Sparkline::new().set_range(("Sheet1", 0, 0, 1, 3)))?,
        Bad::SparkGroupSize { g } => ws.add_sparkline_group(g.r1, g.c1, g.r2, g.c2, &Sparkline::new().set_range(("Sheet1", 0, 0, 40, 3)))?,
        Bad::SheetName { name } => ws.set_name(name)?,
        Bad::NoteLong { r, c } => ws.insert_note(*r, *c, &Note::new(long()))?,
        Bad::NoteLimit => ws.insert_note(RMAX, 0, &Note::new("n"))?,
        Bad::ImageLimit { ty } => ws.insert_image(RMAX, 0, &img(*ty)?)?,
        Bad::EmbedLimit { ty } => ws.embed_image(0, CMAX, &img(*ty)?)?,
        Bad::ChartLimit => ws.insert_chart(RMAX, 0, &smallchart())?,
        Bad::ChartNoSeries { r, c } => ws.insert_chart(*r, *c, &Chart::new(ChartType::Bar))?,
        Bad::ShapeLimit => ws.insert_shape(0, CMAX, &Shape::textbox().set_text("s"))?,
        Bad::ButtonLimit => ws.insert_button(RMAX, 0, &Button::new())?,
        Bad::CheckLimit => ws.insert_checkbox(RMAX, 0, true)?,
        Bad::FmtLimit => ws.set_cell_format(RMAX, 0, &fmt)?,
        Bad::RangeFmtOrder { g } => ws.set_range_format(g.r2 + 1, g.c1, g.r1, g.c2, &fmt)?,
        Bad::RowHeightLimit => ws.set_row_height(RMAX, 20)?,
        Bad::RowFmtLimit => ws.set_row_format(RMAX, &fmt)?,
        Bad::RowHideLimit => ws.set_row_hidden(RMAX)?,
        Bad::ColWidthLimit => ws.set_column_width(CMAX, 20)?,
        Bad::ColFmtLimit => ws.set_column_format(CMAX, &fmt)?,
        Bad::ColHideLimit => ws.set_column_hidden(CMAX)?,
        Bad::ColRangeOrder { c1, c2 } => ws.set_column_range_width(c2 + 1, *c1, 30)?,
        Bad::GroupOrder { r1, r2 } => ws.group_rows(r2 + 1, *r1)?,
        Bad::GroupLimit => ws.group_rows(0, RMAX)?,
        Bad::ColGroupOrder { c1, c2 } => ws.group_columns(c2 + 1, *c1)?,
        Bad::FreezeLimit => ws.set_freeze_panes(RMAX, 0)?,
        Bad::FreezeTopBad { r, c } => {
            let _ = (r, c);
            ws.set_freeze_panes_top_cell(RMAX, 0)?
        }
        Bad::SelectionOrder { .. } => ws.set_selection(0, CMAX, 1, CMAX)?,
        Bad::TopLeftLimit => ws.set_top_left_cell(RMAX, 0)?,
        Bad::AreaOrder { g } => ws.set_print_area(g.r2 + 1, g.c1, g.r1, g.c2)?,
        Bad::RepeatOrder { r1, r2 } => ws.set_repeat_rows(r2 + 1, *r1)?,
        Bad::RepeatColOrder { c1, c2 } => ws.set_repeat_columns(c2 + 1, *c1)?,
        Bad::BreaksMany => ws.set_page_breaks(&(1..1100).collect::<Vec<u32>>())?,
        Bad::UnprotectOrder { g } => ws.unprotect_range(g.r2 + 1, g.c1, g.r1, g.c2)?,
        Bad::IgnoreOrder { g } => ws.ignore_error_range(g.r2 + 1, g.c1, g.r1, g.c2, IgnoreError::NumberStoredAsText)?,
        Bad::HdrImgMissing { .. } => {
            // A position for which the header has no &G placeholder is needed;
            // with no header at all every position is rejected.
            ws.set_header_image(&img(0)?, HeaderImagePosition::Left)?
        }
        Bad::DateLimit => ws.write_datetime(RMAX, 0, &ExcelDateTime::from_ymd(2020, 1, 1)?)?,
        Bad::VbaName { name } => ws.set_vba_name(name)?,
        Bad::RowValsLimit { r } => {
            let _ = r;
            ws.write_row(RMAX, 0, [1, 2, 3])?
        }
        Bad::HdrFormatMissing => ws.set_footer_image(&img(0)?, HeaderImagePosition::Right)?,
        Bad::SerUnregistered => {
            ws.serialize_headers(RMAX, 0, &Beta::default())?
        }
        Bad::SerHeadersBad { r, c } => ws.serialize_headers_with_options(
            *r,
            *c,
            &Alpha::default(),
            &SerializeFieldOptions::new().set_custom_headers(&[CustomSerializeField::new("NoSuchField")]),
        )?,
    };
    let _ = cx;
    Ok(())
}

// ---------------------------------------------------------------------------
// Workbooks.
// ---------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Out {
    Ok,
    Err(String),
    Panic(String),
}
impl Out {
    pub fn ok(&self) -> bool {
        matches!(self, Out::Ok)
    }
    pub fn panic(&self) -> bool {
        matches!(self, Out::Panic(_))
    }
    pub fn text(&self) -> String {
        match self {
            Out::Ok => "Ok".into(),
            Out::Err(e) => format!("Err({e})"),
            Out::Panic(e) => format!("panic: {e}"),
        }
    }
}
thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| {
            let mut p = p.borrow_mut();
            if p.is_empty() {
                *p = format!("{m} at {l}");
            }
        });
        LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).push(format!("{m} at {l}"));
    }));
}
pub static LAST_PANIC: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);

pub fn guard(f: impl FnOnce() -> Result<(), XlsxError>) -> Out {
    PANIC.with(|p| p.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(())) => Out::Ok,
        Ok(Err(e)) => Out::Err(e.to_string()),
        Err(p) => {
            let mut m = PANIC.with(|p| p.borrow().clone());
            if m.is_empty() {
                m = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
            }
            Out::Panic(m)
        }
    }
}

pub struct Exec {
    pub wb: Workbook,
    pub fm: Vec<Format>,
    /// Handle at each position, kind and name of each handle.
    pub order: Vec<usize>,
    pub kinds: Vec<Kind>,
    pub names: Vec<String>,
    /// Results of all operations so far.
    pub outs: Vec<Out>,
    /// The result of each save: index in `outs`, bytes if there are any.
    pub saves: Vec<(usize, Option<Vec<u8>>)>,
    pub n_cells: u64,
}
impl Exec {
    pub fn new(p: &Program) -> Exec {
        Exec {
            wb: Workbook::new(),
            fm: p.fmts.iter().map(format).collect(),
            order: vec![],
            kinds: vec![],
            names: vec![],
            outs: vec![],
            saves: vec![],
            n_cells: 0,
        }
    }
    pub fn pos(&self, h: usize) -> usize {
        self.order.iter().position(|x| *x == h).unwrap()
    }
    pub fn save(&mut self, via: &Via) -> (Out, Option<Vec<u8>>) {
        let wb = &mut self.wb;
        match via {
            Via::Path(n) => {
                let p = format!("/simfs/out/{n}");
                let o = guard(|| wb.save(&p));
                let b = fs::fs().get(&p);
                (o, b)
            }
            Via::Buffer => {
                let mut v = None;
                let o = guard(|| {
                    v = Some(wb.save_to_buffer()?);
                    Ok(())
                });
                (o, v)
            }
            Via::Writer => {
                let (w, d) = fs::SimWriter::new();
                let o = guard(|| wb.save_to_writer(w));
                let b = d.lock().unwrap_or_else(|e| e.into_inner()).clone();
                (o, Some(b))
            }
            Via::BufWriter(cap) => {
                let (w, d) = fs::SimWriter::new();
                let bw = std::io::BufWriter::with_capacity(*cap as usize, w);
                let o = guard(|| wb.save_to_writer(bw));
                let b = d.lock().unwrap_or_else(|e| e.into_inner()).clone();
                (o, Some(b))
            }
            Via::Cursor => {
                let mut c = std::io::Cursor::new(Vec::new());
                let o = guard(|| wb.save_to_writer(&mut c));
                (o, Some(c.into_inner()))
            }
            Via::File(n) => {
                let p = format!("/simfs/out/{n}");
                let o = guard(|| {
                    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&p)?;
                    wb.save_to_writer(f)
                });
                let b = fs::fs().get(&p);
                (o, b)
            }
        }
    }
    pub fn step(&mut self, op: &Op) -> Out {
        let o = self.step_inner(op);
        self.outs.push(o.clone());
        o
    }
    fn step_inner(&mut self, op: &Op) -> Out {
        match op {
            Op::Add { kind, how, name } => {
                let wb = &mut self.wb;
                let mut got = String::new();
                let o = guard(|| {
                    let pos = wb.worksheets().len();
                    match (kind, how) {
                        (Kind::Std, 0) => {
                            wb.add_worksheet();
                        }
                        (Kind::Low, 0) => {
                            wb.add_worksheet_with_low_memory();
                        }
                        (Kind::Const, 0) => {
                            wb.add_worksheet_with_constant_memory();
                        }
                        (Kind::Chart, 0) => {
                            wb.add_chartsheet();
                        }
                        (Kind::Std, _) => wb.push_worksheet(Worksheet::new()),
                        (Kind::Low, _) => {
                            let w = wb.new_worksheet_with_low_memory();
                            wb.push_worksheet(w);
                        }
                        (Kind::Const, _) => {
                            let w = wb.new_worksheet_with_constant_memory();
                            wb.push_worksheet(w);
                        }
                        (Kind::Chart, _) => wb.push_worksheet(Worksheet::new_chartsheet()),
                    }
                    let ws = wb.worksheet_from_index(pos)?;
                    if let Some(n) = name {
                        ws.set_name(n)?;
                    }
                    got = ws.name();
                    Ok(())
                });
                if !o.panic() {
                    self.order.push(self.kinds.len());
                    self.kinds.push(*kind);
                    self.names.push(got);
                }
                o
            }
            Op::S(h, s) => {
                let pos = self.pos(*h);
                let cx = Ctx { fm: &self.fm, names: &self.names };
                let wb = &mut self.wb;
                self.n_cells += 1;
                let o = guard(|| {
                    let ws = wb.worksheet_from_index(pos)?;
                    apply(ws, &cx, s)
                });
                if let SOp::State(State::Name(n)) = s {
                    if o.ok() {
                        self.names[*h] = n.clone();
                    }
                }
                o
            }
            Op::Par(v) => {
                let cx = Ctx { fm: &self.fm, names: &self.names };
                let order = &self.order;
                let wb = &mut self.wb;
                let results = std::sync::Mutex::new(vec![]);
                let o = guard(|| {
                    let mut sheets: Vec<(usize, &mut Worksheet)> = wb.worksheets_mut().iter_mut().enumerate().map(|(i, w)| (order[i], w)).collect();
                    std::thread::scope(|sc| {
                        let mut hs = vec![];
                        for (h, l) in v {
                            let i = sheets.iter().position(|x| x.0 == *h).expect("sheet");
                            let (_, ws) = sheets.swap_remove(i);
                            let cx = &cx;
                            let results = &results;
                            hs.push(sc.spawn(move || {
                                for s in l {
                                    let o = guard(|| apply(ws, cx, s));
                                    if !o.ok() {
                                        results.lock().unwrap().push(o.clone());
                                        if o.panic() {
                                            break;
                                        }
                                    }
                                }
                            }));
                        }
                        for h in hs {
                            let _ = h.join();
                        }
                    });
                    Ok(())
                });
                let r = results.into_inner().unwrap();
                match r.iter().find(|o| o.panic()).or(r.first()) {
                    Some(x) => x.clone(),
                    None => o,
                }
            }
            Op::DefName { name, formula } => {
                let wb = &mut self.wb;
                guard(|| wb.define_name(name, formula).map(|_| ()))
            }
            Op::BadName { name } => {
                let wb = &mut self.wb;
                guard(|| wb.define_name(name, "=1").map(|_| ()))
            }
            Op::BadLookup { idx } => {
                let wb = &mut self.wb;
                guard(|| {
                    if idx % 2 == 0 {
                        wb.worksheet_from_index(500 + idx)?;
                    } else {
                        wb.worksheet_from_name("no such sheet")?;
                    }
                    Ok(())
                })
            }
            Op::Props { title, author, company, custom, created } => {
                let wb = &mut self.wb;
                guard(|| {
                    let mut p = DocProperties::new();
                    if let Some(s) = title {
                        p = p.set_title(s);
                    }
                    if let Some(s) = author {
                        p = p.set_author(s);
                    }
                    if let Some(s) = company {
                        p = p.set_company(s);
                    }
                    for (n, v) in custom {
                        p = match v {
                            Val::Num(b) => p.set_custom_property(n, f64::from_bits(*b)),
                            Val::Bool(b) => p.set_custom_property(n, *b),
                            Val::Str(s) => p.set_custom_property(n, s.as_str()),
                            Val::Date(..) => p.set_custom_property(n, &datetime(v)?),
                            _ => p,
                        };
                    }
                    if let Some((y, m, d)) = created {
                        p = p.set_creation_datetime(&ExcelDateTime::from_ymd(*y, *m, *d)?);
                    }
                    wb.set_properties(&p);
                    Ok(())
                })
            }
            Op::Vba => {
                let wb = &mut self.wb;
                guard(|| wb.add_vba_project("/simfs/media/vba.bin").map(|_| ()))
            }
            Op::VbaName(n) => {
                let wb = &mut self.wb;
                guard(|| wb.set_vba_name(n).map(|_| ()))
            }
            Op::ReadOnly => {
                self.wb.read_only_recommended();
                Out::Ok
            }
            Op::LargeZip(b) => {
                self.wb.use_zip_large_file(*b);
                Out::Ok
            }
            Op::TempDir(d) => {
                let wb = &mut self.wb;
                guard(|| wb.set_tempdir(d).map(|_| ()))
            }
            Op::Swap(a, b) => {
                let (i, j) = (self.pos(*a), self.pos(*b));
                self.wb.worksheets_mut().swap(i, j);
                self.order.swap(i, j);
                Out::Ok
            }
            Op::SortSheets => {
                self.wb.worksheets_mut().sort_by_key(|w| w.name());
                let names = &self.names;
                self.order.sort_by_key(|h| names[*h].clone());
                Out::Ok
            }
            Op::RegFormat(i) => {
                let f = self.fm[*i].clone();
                let wb = &mut self.wb;
                guard(|| {
                    wb.register_format(&f);
                    Ok(())
                })
            }
            Op::Jump(s) => {
                fs::fs().jump_clock(*s);
                Out::Ok
            }
            Op::Save(via) => {
                let (o, b) = self.save(via);
                self.saves.push((self.outs.len(), b));
                o
            }
        }
    }
    /// Run all of a program; stop at the first panic.
    pub fn run(&mut self, ops: &[Op]) -> bool {
        for op in ops {
            if self.step(op).panic() {
                return false;
            }
        }
        true
    }
}
