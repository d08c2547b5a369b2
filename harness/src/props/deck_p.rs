//! Slide content read back from the package and compared with what was put in:
//! C03 text, C12 charts, C13 tables, C14 images, C16 hyperlinks, C17 shapes and connectors, C18 text formatting.
use crate::engine::*;
use crate::opc::Pkg;
use crate::xml::{is_xml_char, El};
use crate::gen;
use ppt_rs::generator::*;

const R: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";

/// Text as an XML processor delivers it: characters XML cannot hold removed, line ends normalised.
pub fn norm(s: &str) -> String {
    s.chars().filter(|c| is_xml_char(*c)).collect::<String>().replace("\r\n", "\n").replace('\r', "\n")
}
pub fn up(c: &str) -> String {
    c.trim_start_matches('#').to_uppercase()
}
pub fn para_text(p: &El) -> String {
    let mut o = String::new();
    for k in p.els() {
        match k.name.as_str() {
            "r" | "fld" => {
                for t in k.els().filter(|e| e.name == "t") {
                    o.push_str(&t.text());
                }
            }
            "br" => o.push('\n'),
            _ => {}
        }
    }
    o
}
pub fn paras(tx: &El) -> Vec<&El> {
    tx.els().filter(|e| e.name == "p").collect()
}
pub fn body_text(tx: &El) -> String {
    paras(tx).iter().map(|p| para_text(p)).collect::<Vec<_>>().join("\n")
}
pub fn sp_text(sp: &El) -> String {
    sp.child("txBody").map(body_text).unwrap_or_default()
}
/// One slide's shape tree, sorted by kind but otherwise in document order.
#[derive(Default)]
pub struct Tree {
    pub sps: Vec<El>,
    pub tables: Vec<El>,
    pub charts: Vec<El>,
    pub pics: Vec<El>,
    pub cxns: Vec<El>,
    pub other: Vec<String>,
}
pub fn tree(p: &Pkg, slide: &str) -> Result<Tree, String> {
    let x = p.xml(slide)?;
    let t = x.path(&["cSld", "spTree"]).ok_or("slide has no shape tree")?;
    let mut o = Tree::default();
    for k in t.els() {
        match k.name.as_str() {
            "nvGrpSpPr" | "grpSpPr" => {}
            "sp" => o.sps.push(k.clone()),
            "pic" => o.pics.push(k.clone()),
            "cxnSp" => o.cxns.push(k.clone()),
            "graphicFrame" => {
                if k.find("tbl").is_some() {
                    o.tables.push(k.clone())
                } else {
                    o.charts.push(k.clone())
                }
            }
            n => o.other.push(n.to_string()),
        }
    }
    Ok(o)
}
/// The bullets a slide shows, column by column.
pub fn body_columns(s: &SlideContent) -> Vec<Vec<BulletPoint>> {
    let all: Vec<BulletPoint> = if s.bullets.is_empty() { s.content.iter().map(|t| BulletPoint::new(t).with_style(s.bullet_style)).collect() } else { s.bullets.clone() };
    if all.is_empty() {
        return vec![];
    }
    match s.layout {
        SlideLayout::TitleAndContent if s.table.is_some() => vec![],
        SlideLayout::TitleAndContent | SlideLayout::TitleAndBigContent | SlideLayout::CenteredTitle | SlideLayout::SectionHeader => vec![all],
        SlideLayout::TwoColumn => {
            let n = all.len().div_ceil(2);
            let (a, b) = all.split_at(n);
            [a, b].iter().filter(|v| !v.is_empty()).map(|v| v.to_vec()).collect()
        }
        _ => vec![],
    }
}
/// The shapes of a slide, split by role.
pub struct Roles<'a> {
    pub title: Option<&'a El>,
    pub body: Vec<&'a El>,
    pub shapes: Vec<&'a El>,
    pub code: Vec<&'a El>,
    pub labels: Vec<&'a El>,
}
pub fn roles<'a>(t: &'a Tree, s: &SlideContent) -> Result<Roles<'a>, String> {
    let has_title = s.layout != SlideLayout::Blank;
    let nb = body_columns(s).len();
    let nl = s.connectors.iter().filter(|c| c.label.is_some()).count();
    let want = has_title as usize + nb + s.shapes.len() + s.code_blocks.len() + nl;
    if t.sps.len() != want {
        return Err(format!("slide shows {} text shapes, expected {want} (title {}, body {nb}, shapes {}, code {}, labels {nl})", t.sps.len(), has_title as usize, s.shapes.len(), s.code_blocks.len()));
    }
    let mut i = t.sps.iter();
    let title = if has_title { i.next() } else { None };
    let body = i.by_ref().take(nb).collect();
    let shapes = i.by_ref().take(s.shapes.len()).collect();
    let code = i.by_ref().take(s.code_blocks.len()).collect();
    Ok(Roles { title, body, shapes, code, labels: i.collect() })
}
pub fn e<T>(r: Result<T, String>) -> Result<T, Fail> {
    r.map_err(|m| Fail { msg: m })
}
pub fn build(d: &gen::Deck) -> Result<Vec<u8>, Fail> {
    create_pptx_with_settings(&d.title, &d.slides, d.settings.clone()).map_err(|e| Fail { msg: format!("build: {e}") })
}
/// Package plus slide part names, checked to be one per slide.
pub fn open(d: &gen::Deck, b: &[u8]) -> Result<(Pkg, Vec<String>), Fail> {
    let p = e(Pkg::read(b))?;
    let sl = e(p.slide_paths())?;
    ensure!(sl.len() == d.slides.len(), "{} slides put in, {} in the package", d.slides.len(), sl.len());
    Ok((p, sl))
}
fn eqs(what: &str, got: &str, want: &str) -> Res {
    if got != want {
        return fail(format!("{what}: expected {want:?}, package has {got:?}"));
    }
    Ok(())
}
fn xfrm(el: &El) -> Option<&El> {
    el.els().find(|k| k.name == "xfrm").or_else(|| el.child("spPr").and_then(|s| s.child("xfrm")))
}
fn check_xfrm(what: &str, el: &El, x: u64, y: u64, w: u64, h: u64) -> Res {
    let Some(f) = xfrm(el) else { return fail(format!("{what}: no transform")) };
    let g = |c: &str, a: &str| f.child(c).and_then(|k| k.attr(a)).unwrap_or("-").to_string();
    let got = format!("{},{},{},{}", g("off", "x"), g("off", "y"), g("ext", "cx"), g("ext", "cy"));
    eqs(&format!("{what}: position and size"), &got, &format!("{x},{y},{w},{h}"))
}

// ---------------------------------------------------------------- C03 text
pub fn code_ok(got: &str, want: &str) -> bool {
    let g: Vec<&str> = got.split('\n').map(|l| if l == " " { "" } else { l }).collect();
    let w = norm(want);
    let w: Vec<&str> = w.split('\n').map(|l| if l == " " { "" } else { l }).collect();
    let tr = |v: &[&str]| {
        let mut v = v.to_vec();
        while v.last() == Some(&"") {
            v.pop();
        }
        v.join("\n")
    };
    tr(&g) == tr(&w)
}
pub fn notes_text(p: &Pkg, slide: &str) -> Result<Option<String>, String> {
    let Some(n) = p.related(slide, "notesSlide")?.first().cloned() else { return Ok(None) };
    let x = p.xml(&n)?;
    let mut o = None;
    for sp in x.all("sp") {
        let ph = sp.path(&["nvSpPr", "nvPr", "ph"]);
        if ph.map(|p| p.attr("type") == Some("body")).unwrap_or(false) {
            o = Some(sp_text(sp));
        }
    }
    Ok(Some(o.ok_or("notes without body placeholder")?))
}
pub fn check_slide_text(p: &Pkg, path: &str, s: &SlideContent, nr: usize) -> Res {
    let t = e(tree(p, path))?;
    let r = e(roles(&t, s))?;
    if let Some(sp) = r.title {
        eqs(&format!("slide {nr} title"), &norm(&sp_text(sp)), &norm(&s.title))?;
    }
    for (ci, (col, sp)) in body_columns(s).iter().zip(&r.body).enumerate() {
        let want = col.iter().map(|b| norm(&b.text)).collect::<Vec<_>>().join("\n");
        eqs(&format!("slide {nr} body {ci}"), &norm(&sp_text(sp)), &want)?;
    }
    for (i, (sh, sp)) in s.shapes.iter().zip(&r.shapes).enumerate() {
        let want = norm(sh.text.as_deref().unwrap_or(""));
        let got = norm(&sp_text(sp));
        // a trailing line end adds no visible line
        if got != want && got.trim_end_matches('\n') != want.trim_end_matches('\n') {
            return fail(format!("slide {nr} shape {i}: expected text {want:?}, package has {got:?}"));
        }
    }
    for (i, (cb, sp)) in s.code_blocks.iter().zip(&r.code).enumerate() {
        let got = norm(&sp_text(sp));
        ensure!(code_ok(&got, &cb.code), "slide {nr} code block {i}: expected {:?}, package has {got:?}", cb.code);
    }
    for (i, (c, sp)) in s.connectors.iter().filter(|c| c.label.is_some()).zip(&r.labels).enumerate() {
        eqs(&format!("slide {nr} connector label {i}"), &norm(&sp_text(sp)), &norm(c.label.as_deref().unwrap_or("")))?;
    }
    ensure!(t.tables.len() == s.table.is_some() as usize, "slide {nr}: {} tables in the package, expected {}", t.tables.len(), s.table.is_some() as usize);
    if let (Some(tb), Some(el)) = (&s.table, t.tables.first()) {
        let rows = el.all("tr");
        ensure!(rows.len() == tb.rows.len(), "slide {nr}: table has {} rows, expected {}", rows.len(), tb.rows.len());
        for (ri, (row, tr)) in tb.rows.iter().zip(rows).enumerate() {
            let tcs: Vec<&El> = tr.els().filter(|k| k.name == "tc").collect();
            ensure!(tcs.len() == row.cells.len(), "slide {nr}: row {ri} has {} cells, expected {}", tcs.len(), row.cells.len());
            for (ci, (c, tc)) in row.cells.iter().zip(tcs).enumerate() {
                let want = if c.h_merge || c.v_merge { String::new() } else { norm(&c.text) };
                let got = tc.child("txBody").map(body_text).unwrap_or_default();
                eqs(&format!("slide {nr} cell {ri},{ci}"), &norm(&got), &want)?;
            }
        }
    }
    let n = e(notes_text(p, path))?;
    match (&s.notes, n) {
        (None, None) => {}
        (Some(w), Some(g)) => eqs(&format!("slide {nr} notes"), &norm(&g), &norm(w))?,
        (Some(w), None) => return fail(format!("slide {nr}: notes {w:?} missing")),
        (None, Some(g)) => return fail(format!("slide {nr}: notes {g:?} appeared")),
    }
    Ok(())
}
pub fn check_core_title(p: &Pkg, title: &str) -> Res {
    let x = e(p.xml("docProps/core.xml"))?;
    let got = x.child("title").map(|t| t.text()).unwrap_or_default();
    eqs("presentation title", &norm(&got), &norm(title))
}
fn mixed(s: &mut Src) -> String {
    match s.below(4) {
        0 => gen::hostile(s),
        1 => gen::multiline(s),
        _ => gen::text0(s),
    }
}
fn c03_deck(c: &mut Ctx) -> Res {
    let mut d = gen::deck(&mut c.s, mixed, true);
    for s in &mut d.slides {
        if c.s.chance(20) {
            let n = c.s.len(1, 3);
            s.bullets.clear();
            s.content = (0..n).map(|_| mixed(&mut c.s)).collect();
            c.label("plain content");
        }
    }
    c.note(|| format!("{d:#?}"));
    c.nontrivial(d.slides.iter().any(|s| !s.bullets.is_empty() || !s.shapes.is_empty() || s.table.is_some()));
    let b = build(&d)?;
    let (p, sl) = open(&d, &b)?;
    check_core_title(&p, &d.title)?;
    for (i, (s, path)) in d.slides.iter().zip(&sl).enumerate() {
        check_slide_text(&p, path, s, i + 1)?;
    }
    Ok(())
}
/// many slides: order and count
fn c03_order(c: &mut Ctx) -> Res {
    let n = c.s.len(1, 40);
    let slides: Vec<SlideContent> = (0..n)
        .map(|i| {
            let t = format!("{} {}", i, gen::text0(&mut c.s));
            let mut s = SlideContent::new(&t).layout(*c.s.pick(&[SlideLayout::TitleAndContent, SlideLayout::TitleOnly, SlideLayout::TwoColumn]));
            for _ in 0..c.s.len(0, 4) {
                s = s.add_bullet(&gen::text0(&mut c.s));
            }
            if c.s.chance(30) {
                s = s.notes(&gen::text0(&mut c.s));
            }
            s
        })
        .collect();
    let d = gen::Deck { title: gen::text0(&mut c.s), slides, settings: None };
    c.note(|| format!("{d:#?}"));
    c.nontrivial(n > 9);
    let b = build(&d)?;
    let (p, sl) = open(&d, &b)?;
    for (i, (s, path)) in d.slides.iter().zip(&sl).enumerate() {
        check_slide_text(&p, path, s, i + 1)?;
    }
    Ok(())
}
pub fn c03() -> Prop {
    Prop {
        id: "C03",
        rule: "deck has at least one bullet, shape or table (deck), more than nine slides (order)",
        assumptions: &["line ends are compared after XML normalisation (CR and CRLF read back as LF)", "characters XML 1.0 cannot hold are expected to be removed"],
        subs: vec![Sub { name: "deck", quick: 1500, run: c03_deck }, Sub { name: "order", quick: 200, run: c03_order }],
        probes: vec![],
    }
}

// ---------------------------------------------------------------- C12 charts
fn pts(el: Option<&El>) -> Vec<(usize, String)> {
    let Some(el) = el else { return vec![] };
    el.all("pt").iter().map(|p| (p.attr("idx").and_then(|i| i.parse().ok()).unwrap_or(usize::MAX), p.child("v").map(|v| v.text()).unwrap_or_default())).collect()
}
fn count(el: Option<&El>) -> Option<usize> {
    el.and_then(|e| e.find("ptCount")).and_then(|p| p.attr("val")).and_then(|v| v.parse().ok())
}
fn check_str(what: &str, el: Option<&El>, want: &[String]) -> Res {
    let got = pts(el);
    let w: Vec<(usize, String)> = want.iter().enumerate().map(|(i, t)| (i, norm(t))).collect();
    let got: Vec<(usize, String)> = got.into_iter().map(|(i, t)| (i, norm(&t))).collect();
    ensure!(got == w, "{what}: expected {w:?}, chart has {got:?}");
    ensure!(count(el) == Some(want.len()), "{what}: point count {:?}, expected {}", count(el), want.len());
    Ok(())
}
fn check_num(what: &str, el: Option<&El>, want: &[f64]) -> Res {
    let got = pts(el);
    ensure!(count(el) == Some(want.len()), "{what}: {:?} values declared, expected {}", count(el), want.len());
    // a value that is no number is a gap
    let want: Vec<(usize, f64)> = want.iter().copied().enumerate().filter(|(_, v)| v.is_finite()).collect();
    ensure!(got.len() == want.len(), "{what}: {} values, expected {}", got.len(), want.len());
    for ((gi, gv), (i, w)) in got.iter().zip(&want) {
        let v: f64 = gv.parse().map_err(|_| Fail { msg: format!("{what}: value {gv:?} is not a number") })?;
        ensure!(gi == i && v == *w, "{what}: value {i} is {gv} (index {gi}), expected {w}");
    }
    Ok(())
}
/// Cells of every sheet of an embedded workbook: (sheet, column, row) -> (is a number, text)
type Cells = std::collections::HashMap<(String, String, usize), (bool, String)>;
fn workbook_cells(bytes: &[u8]) -> Result<Cells, String> {
    const OR: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
    let p = Pkg::read(bytes)?;
    let wb = &p.main_part()?;
    let strings: Vec<String> = match p.related(wb, "sharedStrings")?.first() {
        Some(t) => p.xml(t)?.els().filter(|k| k.name == "si").map(|k| k.all("t").iter().map(|t| t.text()).collect::<String>()).collect(),
        None => vec![],
    };
    let mut out = Cells::new();
    for sh in p.xml(wb)?.all("sheet") {
        let name = sh.attr("name").unwrap_or("").to_string();
        let part = p.resolve(wb, sh.attr_ns(OR, "id").unwrap_or(""))?.ok_or("sheet without part")?;
        let x = p.xml(&part)?;
        let mut last_row = 0;
        for row in x.all("row") {
            let r: usize = row.attr("r").and_then(|r| r.parse().ok()).ok_or("row without number")?;
            if r <= last_row {
                return Err(format!("workbook row {r} after row {last_row}"));
            }
            last_row = r;
            let mut last_col = (0, String::new());
            for c in row.els().filter(|k| k.name == "c") {
                let at = c.attr("r").ok_or("cell without reference")?;
                let col: String = at.chars().take_while(|c| c.is_ascii_alphabetic()).collect();
                if at[col.len()..].parse::<usize>().ok() != Some(r) {
                    return Err(format!("workbook cell {at} is in row {r}"));
                }
                let here = (col.len(), col.clone());
                if here <= last_col {
                    return Err(format!("workbook cell {at} out of order"));
                }
                last_col = here;
                let v = c.child("v").map(|v| v.text());
                let val = match c.attr("t").unwrap_or("n") {
                    "n" => (true, v.unwrap_or_default()),
                    "s" => {
                        let i: usize = v.and_then(|v| v.parse().ok()).ok_or("bad shared string")?;
                        (false, strings.get(i).cloned().ok_or("shared string out of range")?)
                    }
                    "inlineStr" => (false, c.child("is").map(|k| k.all("t").iter().map(|t| t.text()).collect()).unwrap_or_default()),
                    "str" => (false, v.unwrap_or_default()),
                    o => return Err(format!("workbook cell {at} of type {o}")),
                };
                out.insert((name.clone(), col, r), val);
            }
        }
    }
    Ok(out)
}
/// Cells a formula such as Sheet1!$B$2:$B$7 names (one column)
fn formula_cells(f: &str) -> Option<Vec<(String, String, usize)>> {
    let (sheet, range) = f.rsplit_once('!')?;
    let sheet = sheet.trim_matches('\'').to_string();
    let cell = |t: &str| -> Option<(String, usize)> {
        let t = t.replace('$', "");
        let col: String = t.chars().take_while(|c| c.is_ascii_alphabetic()).collect();
        Some((col.clone(), t[col.len()..].parse().ok()?))
    };
    let (a, b) = match range.split_once(':') {
        Some((a, b)) => (cell(a)?, cell(b)?),
        None => (cell(range)?, cell(range)?),
    };
    (a.0 == b.0 && a.1 <= b.1).then(|| (a.1..=b.1).map(|r| (sheet.clone(), a.0.clone(), r)).collect())
}
/// Every cached value of the chart stands in the cell of the embedded workbook its formula names
fn check_workbook(x: &El, cells: &Cells) -> Res {
    let (strs, nums) = (x.all("strRef"), x.all("numRef"));
    for (num, r) in strs.iter().map(|r| (false, *r)).chain(nums.iter().map(|r| (true, *r))) {
        let f = r.child("f").map(|f| f.text()).unwrap_or_default();
        let got = pts(Some(r));
        if got.is_empty() {
            continue;
        }
        let Some(at) = formula_cells(&f) else { return fail(format!("chart data formula {f:?} cannot be read")) };
        ensure!(Some(at.len()) == count(Some(r)), "formula {f} names {} cells for {:?} values", at.len(), count(Some(r)));
        for (i, v) in &got {
            let Some(k) = at.get(*i) else { return fail(format!("formula {f} has no cell for value {i}")) };
            match cells.get(k) {
                // an empty text may be an empty cell
                None => ensure!(!num && v.is_empty(), "{f}: cell {}{} is empty, chart shows {v:?}", k.1, k.2),
                Some((n, t)) => {
                    let same = if num { *n && t.parse::<f64>().ok() == v.parse::<f64>().ok() } else { norm(t) == norm(v) };
                    ensure!(same, "{f}: cell {}{} of the workbook holds {t:?}, chart shows {v:?}", k.1, k.2);
                }
            }
        }
    }
    Ok(())
}
pub fn chart_el_name(t: ChartType) -> &'static str {
    use ChartType::*;
    match t {
        Bar | BarHorizontal | BarStacked | BarStacked100 => "barChart",
        Line | LineMarkers | LineStacked => "lineChart",
        Pie => "pieChart",
        Doughnut => "doughnutChart",
        Area | AreaStacked | AreaStacked100 => "areaChart",
        Scatter | ScatterLines | ScatterSmooth => "scatterChart",
        Bubble => "bubbleChart",
        Radar | RadarFilled => "radarChart",
        StockHLC | StockOHLC => "stockChart",
        Combo => "barChart",
    }
}
pub fn check_chart(p: &Pkg, part: &str, c: &Chart) -> Res {
    use ChartType::*;
    let x = e(p.xml(part))?;
    let Some(ch) = x.child("chart") else { return fail("chart part without chart") };
    let title = ch.path(&["title", "tx", "rich"]).map(body_text).unwrap_or_default();
    eqs("chart title", &norm(&title), &norm(&c.title))?;
    let Some(plot) = ch.child("plotArea") else { return fail("no plot area") };
    let kinds: Vec<&El> = plot.els().filter(|k| k.name.ends_with("Chart")).collect();
    let want: Vec<&str> = if c.chart_type == Combo && c.series.len() > 1 { vec!["barChart", "lineChart"] } else { vec![chart_el_name(c.chart_type)] };
    let names: Vec<&str> = kinds.iter().map(|k| k.name.as_str()).collect();
    ensure!(names == want, "chart of type {:?} is drawn as {names:?}, expected {want:?}", c.chart_type);
    let v = |k: &El, n: &str| k.child(n).and_then(|g| g.attr("val")).unwrap_or("-").to_string();
    match c.chart_type {
        Bar | BarHorizontal | BarStacked | BarStacked100 => {
            let (dir, grp) = match c.chart_type {
                Bar => ("col", "clustered"),
                BarHorizontal => ("bar", "clustered"),
                BarStacked => ("col", "stacked"),
                _ => ("col", "percentStacked"),
            };
            eqs("bar direction", &v(kinds[0], "barDir"), dir)?;
            eqs("bar grouping", &v(kinds[0], "grouping"), grp)?;
            ensure!((v(kinds[0], "overlap") == "100") == (grp != "clustered"), "stacked bars must overlap fully, clustered bars must not");
        }
        Line | LineMarkers => eqs("line grouping", &v(kinds[0], "grouping"), "standard")?,
        LineStacked => eqs("line grouping", &v(kinds[0], "grouping"), "stacked")?,
        Area => eqs("area grouping", &v(kinds[0], "grouping"), "standard")?,
        AreaStacked => eqs("area grouping", &v(kinds[0], "grouping"), "stacked")?,
        AreaStacked100 => eqs("area grouping", &v(kinds[0], "grouping"), "percentStacked")?,
        Radar => ensure!(["marker", "standard"].contains(&v(kinds[0], "radarStyle").as_str()), "radar style {}", v(kinds[0], "radarStyle")),
        RadarFilled => eqs("radar style", &v(kinds[0], "radarStyle"), "filled")?,
        ScatterSmooth => ensure!(v(kinds[0], "scatterStyle").starts_with("smooth"), "smooth scatter drawn with {}", v(kinds[0], "scatterStyle")),
        Scatter | ScatterLines => ensure!(!v(kinds[0], "scatterStyle").starts_with("smooth"), "scatter drawn with {}", v(kinds[0], "scatterStyle")),
        _ => {}
    }
    // series, over all plots in order
    let sers: Vec<(&str, &El)> = kinds.iter().flat_map(|k| k.els().filter(|s| s.name == "ser").map(|s| (k.name.as_str(), s))).collect();
    let shown: Vec<&ChartSeries> = if matches!(c.chart_type, Pie | Doughnut) { c.series.iter().take(1).collect() } else { c.series.iter().collect() };
    ensure!(sers.len() == shown.len(), "{} series drawn, expected {}", sers.len(), shown.len());
    let mut idx = std::collections::BTreeSet::new();
    for (i, ((_, el), s)) in sers.iter().zip(&shown).enumerate() {
        let w = format!("series {i} ({:?})", c.chart_type);
        check_str(&format!("{w} name"), el.child("tx"), &[s.name.clone()])?;
        for n in ["idx", "order"] {
            ensure!(idx.insert((n, v(el, n))), "{w}: {n} {} used twice", v(el, n));
        }
        let no_marker = el.path(&["marker", "symbol"]).and_then(|k| k.attr("val")) == Some("none");
        let no_line = el.path(&["spPr", "ln", "noFill"]).is_some();
        match c.chart_type {
            Line | LineStacked => ensure!(no_marker, "{w}: a plain line chart draws markers"),
            LineMarkers => ensure!(!no_marker && !no_line && v(kinds[0], "marker") != "0", "{w}: markers or line missing"),
            Scatter => ensure!(no_line && !no_marker, "{w}: a scatter chart of points connects them or leaves them out"),
            ScatterLines => ensure!(!no_line && !bit(Some(&v(el, "smooth"))), "{w}: line missing or curved"),
            ScatterSmooth => ensure!(!no_line && bit(Some(&v(el, "smooth"))), "{w}: curve missing or straight"),
            _ => {}
        }
        if matches!(c.chart_type, Scatter | ScatterLines | ScatterSmooth | Bubble) {
            let xs: Vec<f64> = (0..s.values.len()).map(|i| (i + 1) as f64).collect();
            check_num(&format!("{w} x"), el.child("xVal"), &xs)?;
            check_num(&format!("{w} y"), el.child("yVal"), &s.values)?;
            if c.chart_type == Bubble {
                let sz: Vec<f64> = s.values.iter().map(|v| v.abs()).collect();
                check_num(&format!("{w} size"), el.child("bubbleSize"), &sz)?;
            }
        } else {
            check_str(&format!("{w} categories"), el.child("cat"), &c.categories)?;
            check_num(&format!("{w} values"), el.child("val"), &s.values)?;
        }
    }
    if c.chart_type == Combo {
        let bars = (c.series.len() / 2).max(1);
        ensure!(sers.iter().filter(|(k, _)| *k == "barChart").count() == bars, "combo chart of {} series must draw the first {bars} as bars", c.series.len());
    }
    // axes: every axis a plot refers to exists, and crosses one that exists
    let ids: Vec<String> = plot.els().filter(|k| k.name.ends_with("Ax")).map(|a| v(a, "axId")).collect();
    for k in &kinds {
        let r: Vec<String> = k.els().filter(|a| a.name == "axId").map(|a| a.attr("val").unwrap_or("").to_string()).collect();
        let pie = matches!(c.chart_type, Pie | Doughnut);
        ensure!(r.len() == if pie { 0 } else { 2 }, "{} refers to {} axes", k.name, r.len());
        ensure!(r.iter().all(|i| ids.contains(i)), "{} refers to axes {r:?}, plot has {ids:?}", k.name);
    }
    for a in plot.els().filter(|k| k.name.ends_with("Ax")) {
        ensure!(ids.contains(&v(a, "crossAx")) && v(a, "crossAx") != v(a, "axId"), "axis {} crosses {}", v(a, "axId"), v(a, "crossAx"));
    }
    Ok(())
}
pub fn check_slide_charts(p: &Pkg, path: &str, s: &SlideContent, used: &mut std::collections::BTreeSet<String>) -> Res {
    let t = e(tree(p, path))?;
    ensure!(t.charts.len() == s.charts.len(), "{path}: {} charts, expected {}", t.charts.len(), s.charts.len());
    for (i, (el, c)) in t.charts.iter().zip(&s.charts).enumerate() {
        check_xfrm(&format!("{path} chart {i}"), el, c.x as u64, c.y as u64, c.width as u64, c.height as u64)?;
        let rid = el.find("chart").and_then(|k| k.attr_ns(R, "id")).unwrap_or("").to_string();
        let part = e(p.resolve(path, &rid))?.ok_or(Fail { msg: format!("{path}: chart relationship {rid:?} missing") })?;
        ensure!(used.insert(part.clone()), "chart part {part} is shared by two charts");
        check_chart(p, &part, c).map_err(|f| Fail { msg: format!("{path} chart {i}: {}", f.msg) })?;
        let wb = e(p.related(&part, "package"))?;
        ensure!(wb.len() == 1 && p.parts.contains_key(&wb[0]), "{part}: embedded workbook missing");
        let cells = e(workbook_cells(&p.parts[&wb[0]]))?;
        check_workbook(&e(p.xml(&part))?, &cells).map_err(|f| Fail { msg: format!("{path} chart {i} ({:?}): {}", c.chart_type, f.msg) })?;
    }
    Ok(())
}
fn c12_run(c: &mut Ctx) -> Res {
    let n = c.s.len(1, 3);
    let mut total = 0;
    let slides: Vec<SlideContent> = (0..n)
        .map(|_| {
            let mut s = SlideContent::new(&gen::text0(&mut c.s)).layout(*c.s.pick(gen::LAYOUTS));
            for _ in 0..c.s.len(0, 4) {
                let mut ch = gen::chart(&mut c.s, gen::text0);
                if c.s.chance(10) {
                    // more series than letters in the alphabet
                    let k = c.s.len(20, 60);
                    while ch.series.len() < k && !matches!(ch.chart_type, ChartType::StockHLC | ChartType::StockOHLC) {
                        let v = ch.categories.iter().map(|_| gen::num(&mut c.s)).collect();
                        ch.series.push(ChartSeries::new(&gen::text0(&mut c.s), v));
                    }
                    c.label("many series");
                }
                if c.s.chance(8) {
                    // measurements that are missing
                    for se in &mut ch.series {
                        for v in &mut se.values {
                            if c.s.chance(25) {
                                *v = *c.s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
                            }
                        }
                    }
                    c.label("gaps");
                }
                c.label(format!("{:?}", ch.chart_type));
                s = s.add_chart(ch);
                total += 1;
            }
            if c.s.chance(30) {
                s = s.notes("n");
            }
            if c.s.chance(30) {
                let pool = vec![vec![1u8, 2, 3]];
                s = s.add_image(gen::image(&mut c.s, &pool).0);
            }
            if c.s.chance(20) {
                let mut tb = gen::table(&mut c.s, gen::text0);
                if c.s.chance(20) && !tb.rows.iter().any(|r| r.cells.iter().any(|k| k.h_merge || k.v_merge)) {
                    c.label("ragged");
                    for r in &mut tb.rows {
                        let keep = c.s.usize(r.cells.len() + 1);
                        r.cells.truncate(keep);
                    }
                    let keep = c.s.usize(tb.column_widths.len() + 1);
                    tb.column_widths.truncate(keep);
                }
                s = s.table(tb);
            }
            s
        })
        .collect();
    let d = gen::Deck { title: "t".into(), slides, settings: None };
    c.note(|| format!("{d:#?}"));
    c.nontrivial(total > 0);
    let b = build(&d)?;
    let (p, sl) = open(&d, &b)?;
    let mut used = Default::default();
    for (s, path) in d.slides.iter().zip(&sl) {
        check_slide_charts(&p, path, s, &mut used)?;
    }
    Ok(())
}
pub fn c12() -> Prop {
    Prop {
        id: "C12",
        rule: "at least one chart in the deck",
        assumptions: &["stock charts have three or four series"],
        subs: vec![Sub { name: "charts", quick: 2500, run: c12_run }],
        probes: vec![],
    }
}

// ---------------------------------------------------------------- C13 tables
fn bit(v: Option<&str>) -> bool {
    matches!(v, Some("1") | Some("true"))
}
fn underlined(v: Option<&str>) -> bool {
    v.map(|u| u != "none").unwrap_or(false)
}
fn solid(el: Option<&El>) -> Option<String> {
    el.and_then(|p| p.child("solidFill")).and_then(|f| f.child("srgbClr")).and_then(|c| c.attr("val")).map(|s| s.to_string())
}
pub fn check_table(el: &El, tb: &Table) -> Res {
    // A table with rows of unequal length has as many columns as its longest row,
    // and empty cells fill the shorter ones.
    let n = tb.rows.iter().map(|r| r.cells.len()).max().unwrap_or(0).max(tb.column_widths.len());
    let mut tb = tb.clone();
    let added = n - tb.column_widths.len();
    for row in &mut tb.rows {
        row.cells.resize_with(n, || TableCell::new(""));
    }
    if added > 0 {
        for g in el.all("gridCol").iter().skip(tb.column_widths.len()) {
            let w = g.attr("w").and_then(|w| w.parse::<u32>().ok()).unwrap_or(0);
            ensure!(w > 0, "the table has a column without width");
            tb.column_widths.push(w);
        }
    }
    let w: u64 = tb.column_widths.iter().map(|w| *w as u64).sum();
    let h: u64 = tb.rows.iter().map(|r| r.height.unwrap_or(400_000) as u64).sum();
    check_xfrm("table", el, tb.x as u64, tb.y as u64, w, h)?;
    let cols: Vec<String> = el.all("gridCol").iter().map(|g| g.attr("w").unwrap_or("-").to_string()).collect();
    let want: Vec<String> = tb.column_widths.iter().map(|w| w.to_string()).collect();
    ensure!(cols == want, "column widths {cols:?}, expected {want:?}");
    let trs = el.all("tr");
    ensure!(trs.len() == tb.rows.len(), "{} rows, expected {}", trs.len(), tb.rows.len());
    let mut covered = std::collections::BTreeSet::new();
    for (ri, (row, tr)) in tb.rows.iter().zip(&trs).enumerate() {
        eqs(&format!("row {ri} height"), tr.attr("h").unwrap_or("-"), &row.height.unwrap_or(400_000).to_string())?;
        let tcs: Vec<&El> = tr.els().filter(|k| k.name == "tc").collect();
        ensure!(tcs.len() == row.cells.len(), "row {ri}: {} cells, expected {}", tcs.len(), row.cells.len());
        for (ci, (c, tc)) in row.cells.iter().zip(tcs).enumerate() {
            let w = format!("cell {ri},{ci}");
            let got = (bit(tc.attr("hMerge")), bit(tc.attr("vMerge")));
            ensure!(got == (c.h_merge, c.v_merge), "{w}: merged left/up {got:?}, expected {:?}", (c.h_merge, c.v_merge));
            let text = tc.child("txBody").map(body_text).unwrap_or_default();
            if c.h_merge || c.v_merge {
                ensure!(text.is_empty(), "{w} is covered by a merge but has text {text:?}");
                ensure!(covered.contains(&(ri, ci)), "{w} is marked merged, but no span covers it");
                continue;
            }
            let sp = |a: &str| tc.attr(a).and_then(|v| v.parse::<usize>().ok()).unwrap_or(1);
            let (gs, rs) = (sp("gridSpan"), sp("rowSpan"));
            ensure!(gs == c.grid_span.unwrap_or(1) as usize && rs == c.row_span.unwrap_or(1) as usize, "{w}: spans {gs}x{rs}, expected {:?}x{:?}", c.grid_span, c.row_span);
            for r in ri..ri + rs {
                for k in ci..ci + gs {
                    ensure!((r, k) == (ri, ci) || covered.insert((r, k)), "{w}: span overlaps another");
                }
            }
            eqs(&format!("{w} text"), &norm(&text), &norm(&c.text))?;
            let tcpr = tc.child("tcPr");
            eqs(&format!("{w} fill"), &solid(tcpr).unwrap_or_default(), &c.background_color.as_deref().map(up).unwrap_or_default())?;
            let anchor = tcpr.and_then(|t| t.attr("anchor")).unwrap_or("t");
            let va = match c.valign {
                table::CellVAlign::Top => "t",
                table::CellVAlign::Middle => "ctr",
                table::CellVAlign::Bottom => "b",
            };
            eqs(&format!("{w} vertical alignment"), anchor, va)?;
            if !norm(&c.text).is_empty() {
                for p in tc.all("p") {
                    let al = p.child("pPr").and_then(|q| q.attr("algn")).unwrap_or("l");
                    let wa = match c.align {
                        table::CellAlign::Left => "l",
                        table::CellAlign::Center => "ctr",
                        table::CellAlign::Right => "r",
                        table::CellAlign::Justify => "just",
                    };
                    eqs(&format!("{w} alignment"), al, wa)?;
                    for r in p.els().filter(|k| k.name == "r") {
                        let pr = r.child("rPr");
                        let a = |n: &str| pr.and_then(|p| p.attr(n));
                        ensure!(bit(a("b")) == c.bold && bit(a("i")) == c.italic && underlined(a("u")) == c.underline, "{w}: bold/italic/underline {:?}/{:?}/{:?}, expected {}/{}/{}", a("b"), a("i"), a("u"), c.bold, c.italic, c.underline);
                        eqs(&format!("{w} size"), a("sz").unwrap_or(""), &c.font_size.map(|s| (s as u64 * 100).to_string()).unwrap_or_default())?;
                        eqs(&format!("{w} text colour"), &solid(pr).unwrap_or_default(), &c.text_color.as_deref().map(up).unwrap_or_default())?;
                        let face = pr.and_then(|p| p.child("latin")).and_then(|l| l.attr("typeface")).unwrap_or("");
                        eqs(&format!("{w} typeface"), face, c.font_family.as_deref().unwrap_or(""))?;
                    }
                }
            }
        }
    }
    for (r, c) in &covered {
        let ok = tb.rows.get(*r).and_then(|x| x.cells.get(*c)).map(|x| x.h_merge || x.v_merge).unwrap_or(false);
        ensure!(ok, "span covers cell {r},{c}, which is not marked as merged");
    }
    Ok(())
}
fn c13_run(c: &mut Ctx) -> Res {
    let n = c.s.len(1, 3);
    let slides: Vec<SlideContent> = (0..n)
        .map(|_| {
            let mut s = SlideContent::new(&gen::text0(&mut c.s)).layout(*c.s.pick(gen::LAYOUTS));
            for _ in 0..c.s.len(0, 2) {
                s = s.add_bullet(&gen::text0(&mut c.s));
            }
            if c.s.chance(85) {
                let mut tb = gen::table(&mut c.s, gen::text0);
                if c.s.chance(20) && !tb.rows.iter().any(|r| r.cells.iter().any(|k| k.h_merge || k.v_merge)) {
                    c.label("ragged");
                    for r in &mut tb.rows {
                        let keep = c.s.usize(r.cells.len() + 1);
                        r.cells.truncate(keep);
                    }
                    let keep = c.s.usize(tb.column_widths.len() + 1);
                    tb.column_widths.truncate(keep);
                }
                s = s.table(tb);
            }
            if c.s.chance(20) {
                s = s.add_chart(gen::chart(&mut c.s, gen::text0));
            }
            s
        })
        .collect();
    let d = gen::Deck { title: "t".into(), slides, settings: None };
    c.note(|| format!("{d:#?}"));
    let merged = d.slides.iter().any(|s| s.table.as_ref().map(|t| t.rows.iter().any(|r| r.cells.iter().any(|c| c.h_merge || c.v_merge))).unwrap_or(false));
    if merged {
        c.label("merged");
    }
    c.nontrivial(d.slides.iter().any(|s| s.table.as_ref().map(|t| t.rows.len() * t.column_widths.len() > 1).unwrap_or(false)));
    let b = build(&d)?;
    let (p, sl) = open(&d, &b)?;
    for (i, (s, path)) in d.slides.iter().zip(&sl).enumerate() {
        let t = e(tree(&p, path))?;
        ensure!(t.tables.len() == s.table.is_some() as usize, "slide {}: {} tables, expected {}", i + 1, t.tables.len(), s.table.is_some() as usize);
        if let Some(tb) = &s.table {
            check_table(&t.tables[0], tb).map_err(|f| Fail { msg: format!("slide {}: {}", i + 1, f.msg) })?;
        }
    }
    Ok(())
}
pub fn c13() -> Prop {
    Prop {
        id: "C13",
        rule: "a table of more than one cell",
        assumptions: &["rows have one cell per column; merged regions are given the way the API documents (origin span, markers on the covered cells)"],
        subs: vec![Sub { name: "tables", quick: 2500, run: c13_run }],
        probes: vec![],
    }
}

// ---------------------------------------------------------------- C14 images
fn c14_run(c: &mut Ctx) -> Res {
    let pool: Vec<Vec<u8>> = c.s.vec(1, 4, |s| gen::image_bytes(s));
    let n = c.s.len(1, 4);
    let mut expect: Vec<Vec<Vec<u8>>> = vec![];
    let dir = c.file("img");
    let _ = std::fs::create_dir_all(&dir);
    let mut slides = vec![];
    for si in 0..n {
        let mut s = SlideContent::new(&gen::text0(&mut c.s)).layout(*c.s.pick(gen::LAYOUTS));
        let mut ex = vec![];
        for k in 0..c.s.len(0, 4) {
            let (mut im, data) = gen::image(&mut c.s, &pool);
            if c.s.chance(15) {
                // from a file on disk
                let ext = *c.s.pick(&["png", "jpg", "gif"]);
                let f = dir.join(format!("i{si}_{k}.{ext}"));
                std::fs::write(&f, &data).map_err(|x| Fail { msg: x.to_string() })?;
                let mut im2 = ImageBuilder::new(f.to_str().unwrap_or(""), im.width, im.height).position(im.x, im.y).build();
                im2.source = Some(ppt_rs::generator::images::ImageSource::File(f.to_str().unwrap_or("").to_string()));
                im2.alt_text = im.alt_text.clone();
                im2.crop = im.crop.clone();
                im2.effects = im.effects.clone();
                im = im2;
                c.label("file");
            }
            if c.s.chance(10) {
                // no bytes: skipped
                let mut ghost = im.clone();
                ghost.source = Some(ppt_rs::generator::images::ImageSource::File(dir.join("missing.png").to_str().unwrap_or("").to_string()));
                s = s.add_image(ghost);
                c.label("unreadable");
            }
            ex.push(data);
            s = s.add_image(im);
        }
        if c.s.chance(30) {
            s = s.notes("n");
        }
        if c.s.chance(25) {
            s = s.add_chart(gen::chart(&mut c.s, gen::text0));
        }
        if c.s.chance(25) {
            s = s.add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 1, 1).with_hyperlink(gen::hyperlink(&mut c.s, n)));
        }
        if c.s.chance(15) {
            s = s.with_ink(gen::ink(&mut c.s));
        }
        expect.push(ex);
        slides.push(s);
    }
    let d = gen::Deck { title: "t".into(), slides, settings: None };
    c.note(|| format!("{d:#?}"));
    c.nontrivial(expect.iter().flatten().count() > 0);
    let b = build(&d)?;
    let (p, sl) = open(&d, &b)?;
    for ((s, path), ex) in d.slides.iter().zip(&sl).zip(&expect) {
        let t = e(tree(&p, path))?;
        let imgs: Vec<&Image> = s.images.iter().filter(|i| i.get_bytes().is_some()).collect();
        ensure!(t.pics.len() == ex.len() && imgs.len() == ex.len(), "{path}: {} pictures ({} readable), expected {}", t.pics.len(), imgs.len(), ex.len());
        for (i, ((pic, im), data)) in t.pics.iter().zip(imgs).zip(ex).enumerate() {
            let w = format!("{path} picture {i}");
            check_xfrm(&w, pic, im.x as u64, im.y as u64, im.width as u64, im.height as u64)?;
            let Some(blip) = pic.path(&["blipFill", "blip"]) else { return fail(format!("{w}: no blip")) };
            let rid = blip.attr_ns(R, "embed").unwrap_or("");
            let part = e(p.resolve(path, rid))?.ok_or(Fail { msg: format!("{w}: relationship {rid:?} missing") })?;
            let got = p.parts.get(&part).ok_or(Fail { msg: format!("{w}: part {part} missing") })?;
            ensure!(got == data, "{w}: {part} holds {} bytes that differ from the {} put in", got.len(), data.len());
            let ct = e(crate::opc::content_types(&p))?;
            let ext = im.format.to_lowercase();
            let want = match ext.as_str() {
                "jpg" | "jpeg" => "image/jpeg",
                "png" => "image/png",
                "gif" => "image/gif",
                "bmp" => "image/bmp",
                "tiff" => "image/tiff",
                "svg" => "image/svg+xml",
                o => return fail(format!("format {o}")),
            };
            eqs(&format!("{w} content type"), ct.of(&part).unwrap_or("-"), want)?;
            let nv = pic.path(&["nvPicPr", "cNvPr"]);
            eqs(&format!("{w} alternative text"), nv.and_then(|n| n.attr("descr")).unwrap_or(""), &im.alt_text.as_deref().map(norm).unwrap_or_default())?;
            let src = pic.path(&["blipFill", "srcRect"]);
            let z = Default::default();
            let cr = im.crop.as_ref().unwrap_or(&z);
            for (n, f) in [("l", cr.left), ("t", cr.top), ("r", cr.right), ("b", cr.bottom)] {
                let g: i64 = src.and_then(|s| s.attr(n)).and_then(|v| v.parse().ok()).unwrap_or(0);
                ensure!(g == (f * 100_000.0).round() as i64, "{w}: crop {n} is {g}, expected {f} of the side");
            }
            let fx: std::collections::BTreeSet<String> = pic.find("effectLst").map(|l| l.els().map(|k| k.name.clone()).collect()).unwrap_or_default();
            let wf: std::collections::BTreeSet<String> = im
                .effects
                .iter()
                .map(|e| match e {
                    ImageEffect::Shadow => "outerShdw",
                    ImageEffect::Reflection => "reflection",
                    ImageEffect::Glow => "glow",
                    ImageEffect::SoftEdges => "softEdge",
                    ImageEffect::InnerShadow => "innerShdw",
                    ImageEffect::Blur => "blur",
                })
                .map(String::from)
                .collect();
            ensure!(fx == wf, "{w}: effects {fx:?}, expected {wf:?}");
        }
    }
    Ok(())
}
use ppt_rs::generator::images::ImageEffect;
pub fn c14() -> Prop {
    Prop {
        id: "C14",
        rule: "at least one image with bytes",
        assumptions: &["crop fractions are between 0 and 0.49 per side", "images whose bytes cannot be read are skipped by design"],
        subs: vec![Sub { name: "images", quick: 1500, run: c14_run }],
        probes: vec![],
    }
}

// ---------------------------------------------------------------- C16 hyperlinks
fn c16_run(c: &mut Ctx) -> Res {
    let n = c.s.len(1, 4);
    let pool = vec![vec![1u8, 2, 3], vec![9u8]];
    let mut slides = vec![];
    let mut cnt = 0;
    for _ in 0..n {
        let mut s = SlideContent::new(&gen::text0(&mut c.s)).layout(*c.s.pick(gen::LAYOUTS));
        let m = c.s.len(0, 6);
        for i in 0..m {
            let mut sh = Shape::new(*c.s.pick(gen::SHAPES), 1, 2, 3, 4);
            if c.s.chance(70) {
                let mut h = gen::hyperlink(&mut c.s, n);
                if c.s.chance(25) {
                    h.action = HyperlinkAction::email_with_subject(*c.s.pick(&["a@b.c", "x.y+z@example.org"]), &gen::text(&mut c.s));
                }
                if c.s.chance(30) {
                    h = h.with_r_id(&format!("rIdLink{i}"));
                }
                sh = sh.with_hyperlink(h);
                cnt += 1;
            }
            if c.s.bool() {
                sh = sh.with_text(&gen::text0(&mut c.s));
            }
            s = s.add_shape(sh);
        }
        if c.s.chance(40) {
            s = s.add_image(gen::image(&mut c.s, &pool).0);
        }
        if c.s.chance(30) {
            s = s.notes("n");
        }
        if c.s.chance(30) {
            s = s.add_chart(gen::chart(&mut c.s, gen::text0));
        }
        slides.push(s);
    }
    let d = gen::Deck { title: "t".into(), slides, settings: None };
    c.note(|| format!("{d:#?}"));
    c.nontrivial(cnt > 0);
    let b = build(&d)?;
    let (p, sl) = open(&d, &b)?;
    for (s, path) in d.slides.iter().zip(&sl) {
        let t = e(tree(&p, path))?;
        let r = e(roles(&t, s))?;
        let rels = e(p.rels(path))?;
        for (i, (sh, sp)) in s.shapes.iter().zip(&r.shapes).enumerate() {
            let w = format!("{path} shape {i}");
            let hl = sp.all("hlinkClick");
            let Some(h) = &sh.hyperlink else {
                ensure!(hl.is_empty(), "{w}: has a link nobody asked for");
                continue;
            };
            ensure!(hl.len() == 1, "{w}: {} links, expected 1", hl.len());
            let hl = hl[0];
            eqs(&format!("{w} tooltip"), hl.attr("tooltip").unwrap_or(""), &h.tooltip.as_deref().map(norm).unwrap_or_default())?;
            ensure!(bit(hl.attr("highlightClick")) == h.highlight_click, "{w}: highlight on click {:?}, expected {}", hl.attr("highlightClick"), h.highlight_click);
            let rid = hl.attr_ns(R, "id").unwrap_or("");
            let rel = rels.iter().find(|r| r.id == rid);
            let act = hl.attr("action").unwrap_or("");
            use HyperlinkAction::*;
            let jump = match &h.action {
                FirstSlide => "firstslide",
                LastSlide => "lastslide",
                NextSlide => "nextslide",
                PreviousSlide => "previousslide",
                EndShow => "endshow",
                _ => "",
            };
            if !jump.is_empty() {
                eqs(&format!("{w} action"), act, &format!("ppaction://hlinkshowjump?jump={jump}"))?;
                continue;
            }
            let Some(rel) = rel else { return fail(format!("{w}: relationship {rid:?} missing")) };
            match &h.action {
                Slide(k) => {
                    eqs(&format!("{w} action"), act, "ppaction://hlinksldjump")?;
                    ensure!(!rel.external, "{w}: slide link is external");
                    let tgt = e(p.resolve(path, rid))?.unwrap_or_default();
                    eqs(&format!("{w} target"), &tgt, &sl[*k as usize - 1])?;
                }
                a => {
                    ensure!(rel.external, "{w}: external link is not marked external");
                    ensure!(act.is_empty(), "{w}: unexpected action {act}");
                    ensure!(rel.kind() == "hyperlink", "{w}: relationship of type {}", rel.kind());
                    let tgt = rel.target.clone();
                    match a {
                        Url(u) => eqs(&format!("{w} target"), &tgt, u)?,
                        File(f) => {
                            // the usual spellings of a local path and of a network share
                            let p = f.replace('\\', "/");
                            let mut ok = vec![format!("file:///{p}")];
                            match p.strip_prefix("//") {
                                Some(share) => ok.extend([format!("file://{share}"), format!("file:////{share}")]),
                                None => ok.push(format!("file://{p}")),
                            }
                            if !p.starts_with('/') {
                                ok.truncate(1);
                            }
                            ensure!(ok.contains(&tgt), "{w} target {tgt:?}, expected {:?}", ok[0]);
                        }
                        Email { address, subject } => {
                            let Some(rest) = tgt.strip_prefix("mailto:") else { return fail(format!("{w}: mail target {tgt:?}")) };
                            let (ad, sub) = match rest.split_once('?') {
                                None => (rest.to_string(), None),
                                Some((a, q)) => {
                                    let Some(v) = q.strip_prefix("subject=") else { return fail(format!("{w}: mail query {q:?}")) };
                                    ensure!(!v.contains(['&', '#', ' ', '"', '<', '>']), "{w}: mail subject is not escaped for a URL: {v:?}");
                                    (a.to_string(), Some(pct(v)))
                                }
                            };
                            eqs(&format!("{w} address"), &ad, address)?;
                            ensure!(sub == *subject, "{w}: mail subject {sub:?}, expected {subject:?}");
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    Ok(())
}
fn pct(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let Ok(v) = u8::from_str_radix(&s[i + 1..i + 3], 16) {
                o.push(v);
                i += 3;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    String::from_utf8_lossy(&o).into_owned()
}
pub fn c16() -> Prop {
    Prop { id: "C16", rule: "at least one hyperlink", assumptions: &["slide links point at slides of the deck"], subs: vec![Sub { name: "links", quick: 2500, run: c16_run }], probes: vec![] }
}

// ---------------------------------------------------------------- C17 shapes and connectors
pub fn preset(t: ShapeType) -> Option<String> {
    use ShapeType::*;
    let d = format!("{t:?}");
    let mut cs = d.chars();
    let camel: String = cs.next().map(|c| c.to_ascii_lowercase()).into_iter().chain(cs).collect();
    Some(match t {
        Rectangle => "rect".into(),
        RoundedRectangle => "roundRect".into(),
        Circle => "ellipse".into(),
        RightTriangle => "rtTriangle".into(),
        UTurnArrow => "uturnArrow".into(),
        FlowChartData => "flowChartInputOutput".into(),
        FlowChartOffPageConnector => "flowChartOffpageConnector".into(),
        PentagonArrow => "homePlate".into(),
        ChevronArrow => "chevron".into(),
        IsoscelesTrapezoid => "trapezoid".into(),
        Cylinder => "can".into(),
        PictureFrame => "frame".into(),
        Lightning => "lightningBolt".into(),
        // several presets may stand for these
        Ribbon | Cone | MusicNote | Seal | Seal4 | Seal8 | Seal16 | Seal32 | Brace | Bracket | Plus | Minus | CurvedLeftRightArrow | CurvedUpDownArrow => return None,
        _ => camel,
    })
}
fn grad(s: &mut Src) -> (shapes::GradientFill, i64, Vec<(i64, String, Option<i64>)>) {
    use shapes::{GradientDirection as D, GradientFill, GradientStop};
    let (d, ang) = match s.below(5) {
        0 => (D::Horizontal, 0),
        1 => (D::Vertical, 90),
        2 => (D::DiagonalDown, 45),
        3 => (D::DiagonalUp, 315),
        _ => {
            let a = s.range(0, 359);
            (D::Angle(a as u32), a)
        }
    };
    let (a, b, m) = (gen::color(s), gen::color(s), gen::color(s));
    let three = s.bool();
    let mut stops = vec![(0, up(&a), None)];
    let mut g = if three {
        stops.push((50, up(&m), None));
        GradientFill::three_color(&a, &m, &b, d)
    } else {
        GradientFill::linear(&a, &b, d)
    };
    stops.push((100, up(&b), None));
    if s.chance(40) {
        let (c, pos) = (gen::color(s), s.range(0, 100));
        let mut st = GradientStop::new(&c, pos as u32);
        let mut tr = None;
        if s.bool() {
            let q = s.range(0, 100);
            st = st.with_transparency(q as u32);
            tr = Some((100 - q) * 1000);
        }
        g = g.with_stop(st);
        stops.push((pos, up(&c), tr));
    }
    let mut stops: Vec<_> = stops.into_iter().map(|(p, c, t)| (p * 1000, c, t)).collect();
    stops.sort();
    (g, ang * 60000, stops)
}
fn alpha(c: &El) -> Option<i64> {
    c.child("alpha").and_then(|a| a.attr("val")).and_then(|v| v.parse().ok())
}
fn c17_shapes(c: &mut Ctx) -> Res {
    let n = c.s.len(1, 6);
    let mut s = SlideContent::new("t").layout(*c.s.pick(gen::LAYOUTS));
    let mut fills = vec![];
    for _ in 0..n {
        let mut sh = Shape::new(*c.s.pick(gen::SHAPES), gen::emu(&mut c.s), gen::emu(&mut c.s), gen::ext(&mut c.s), gen::ext(&mut c.s));
        let mut f: (Option<(String, Option<i64>)>, Option<(i64, Vec<(i64, String, Option<i64>)>)>) = (None, None);
        match c.s.below(4) {
            0 => {}
            1 => {
                let (g, a, st) = grad(&mut c.s);
                sh = sh.with_gradient(g);
                f.1 = Some((a, st));
            }
            _ => {
                let col = gen::color(&mut c.s);
                let mut fl = ShapeFill::new(&col);
                let mut tr = None;
                if c.s.bool() {
                    let q = c.s.range(0, 100);
                    fl = fl.with_transparency(q as u32);
                    tr = Some((100 - q) * 1000);
                }
                sh = sh.with_fill(fl);
                f.0 = Some((up(&col), tr));
            }
        }
        if c.s.bool() {
            sh = sh.with_line(ShapeLine::new(&gen::color(&mut c.s), c.s.range(0, 20_116_800) as u32));
        }
        if c.s.bool() {
            sh = sh.with_rotation(c.s.range(-720, 720) as i32);
        }
        if c.s.bool() {
            sh = sh.with_text(&gen::text0(&mut c.s));
        }
        if c.s.chance(20) {
            sh = sh.with_hyperlink(gen::hyperlink(&mut c.s, 1));
        }
        fills.push(f);
        s = s.add_shape(sh);
    }
    for _ in 0..c.s.len(0, 2) {
        s = s.add_bullet("b");
    }
    let d = gen::Deck { title: "t".into(), slides: vec![s], settings: None };
    c.note(|| format!("{d:#?}"));
    c.nontrivial(fills.iter().any(|f| f.0.is_some() || f.1.is_some()));
    let b = build(&d)?;
    let (p, sl) = open(&d, &b)?;
    let t = e(tree(&p, &sl[0]))?;
    let s = &d.slides[0];
    let r = e(roles(&t, s))?;
    for (i, ((sh, sp), (fill, gr))) in s.shapes.iter().zip(&r.shapes).zip(&fills).enumerate() {
        let w = format!("shape {i} ({:?})", sh.shape_type);
        check_xfrm(&w, sp, sh.x as u64, sh.y as u64, sh.width as u64, sh.height as u64)?;
        let spr = sp.child("spPr");
        let prst = spr.and_then(|s| s.child("prstGeom")).and_then(|g| g.attr("prst")).unwrap_or("");
        match preset(sh.shape_type) {
            Some(want) if is_prst(&want) => eqs(&format!("{w} geometry"), prst, &want)?,
            _ => ensure!(is_prst(prst), "{w}: geometry {prst:?} does not exist"),
        }
        let rot: i64 = xfrm(sp).and_then(|x| x.attr("rot")).and_then(|v| v.parse().ok()).unwrap_or(0);
        let want = sh.rotation.unwrap_or(0) as i64;
        ensure!((rot - want * 60000).rem_euclid(360 * 60000) == 0, "{w}: rotation {rot}, expected {want} degrees");
        match (fill, gr) {
            (_, Some((ang, stops))) => {
                let Some(g) = spr.and_then(|s| s.child("gradFill")) else { return fail(format!("{w}: gradient missing")) };
                let mut got: Vec<(i64, String, Option<i64>)> = g
                    .all("gs")
                    .iter()
                    .filter_map(|k| Some((k.attr("pos")?.parse().ok()?, k.child("srgbClr")?.attr("val")?.to_string(), alpha(k.child("srgbClr")?))))
                    .collect();
                let pos: Vec<i64> = got.iter().map(|g| g.0).collect();
                ensure!(pos.windows(2).all(|w| w[0] <= w[1]), "{w}: gradient stops out of order {pos:?}");
                got.sort();
                ensure!(got == *stops, "{w}: gradient stops {got:?}, expected {stops:?}");
                let a: i64 = g.child("lin").and_then(|l| l.attr("ang")).and_then(|v| v.parse().ok()).unwrap_or(-1);
                ensure!(a == *ang, "{w}: gradient angle {a}, expected {ang}");
            }
            (Some((col, tr)), None) => {
                let k = spr.and_then(|s| s.child("solidFill")).and_then(|f| f.child("srgbClr"));
                eqs(&format!("{w} fill"), k.and_then(|k| k.attr("val")).unwrap_or("none"), col)?;
                let a = k.and_then(alpha);
                ensure!(a.unwrap_or(100_000) == tr.unwrap_or(100_000), "{w}: opacity {a:?}, expected {tr:?}");
            }
            _ => ensure!(spr.map(|s| s.child("solidFill").is_none() && s.child("gradFill").is_none()).unwrap_or(true), "{w}: fill nobody asked for"),
        }
        let ln = spr.and_then(|s| s.child("ln"));
        match &sh.line {
            None => ensure!(ln.is_none(), "{w}: outline nobody asked for"),
            Some(l) => {
                eqs(&format!("{w} outline width"), ln.and_then(|l| l.attr("w")).unwrap_or("-"), &l.width.to_string())?;
                eqs(&format!("{w} outline colour"), &solid(ln).unwrap_or_default(), &up(&l.color))?;
            }
        }
    }
    Ok(())
}
fn c17_conns(c: &mut Ctx) -> Res {
    let n = c.s.len(1, 5);
    let ns = c.s.len(0, 3);
    let mut s = SlideContent::new("t").layout(*c.s.pick(gen::LAYOUTS));
    for i in 0..ns {
        s = s.add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 10, 10).with_id(500 + i as u32));
    }
    for _ in 0..n {
        let mut k = gen::connector(&mut c.s, gen::text0);
        if ns > 0 && c.s.chance(60) {
            k = k.connect_start(500 + c.s.usize(ns) as u32, *c.s.pick(gen::SITES));
        }
        if ns > 0 && c.s.chance(60) {
            k = k.connect_end(500 + c.s.usize(ns) as u32, *c.s.pick(gen::SITES));
        }
        s = s.add_connector(k);
    }
    let d = gen::Deck { title: "t".into(), slides: vec![s], settings: None };
    c.note(|| format!("{d:#?}"));
    c.nontrivial(true);
    let b = build(&d)?;
    let (p, sl) = open(&d, &b)?;
    let t = e(tree(&p, &sl[0]))?;
    let s = &d.slides[0];
    let r = e(roles(&t, s))?;
    ensure!(t.cxns.len() == s.connectors.len(), "{} connectors, expected {}", t.cxns.len(), s.connectors.len());
    let shape_ids: Vec<String> = r.shapes.iter().map(|s| s.path(&["nvSpPr", "cNvPr"]).and_then(|c| c.attr("id")).unwrap_or("").to_string()).collect();
    for (i, (k, el)) in s.connectors.iter().zip(&t.cxns).enumerate() {
        let w = format!("connector {i}");
        let (x0, y0, x1, y1) = (k.start_x as i64, k.start_y as i64, k.end_x as i64, k.end_y as i64);
        let f = xfrm(el).ok_or(Fail { msg: format!("{w}: no transform") })?;
        let g = |c: &str, a: &str| f.child(c).and_then(|k| k.attr(a)).and_then(|v| v.parse::<i64>().ok()).unwrap_or(-1);
        let (ox, oy, cx, cy) = (g("off", "x"), g("off", "y"), g("ext", "cx"), g("ext", "cy"));
        let (fh, fv) = (bit(f.attr("flipH")), bit(f.attr("flipV")));
        // the drawn line runs from the box's top left to its bottom right, then is flipped
        let start = (if fh { ox + cx } else { ox }, if fv { oy + cy } else { oy });
        let end = (if fh { ox } else { ox + cx }, if fv { oy } else { oy + cy });
        ensure!(start == (x0, y0) && end == (x1, y1), "{w}: drawn {start:?} to {end:?}, expected {:?} to {:?}", (x0, y0), (x1, y1));
        let spr = el.child("spPr");
        let prst = spr.and_then(|s| s.child("prstGeom")).and_then(|g| g.attr("prst")).unwrap_or("");
        let fam = match k.connector_type {
            ConnectorType::Straight => "straightConnector",
            ConnectorType::Elbow => "bentConnector",
            ConnectorType::Curved => "curvedConnector",
        };
        ensure!(prst.starts_with(fam), "{w}: geometry {prst}, expected {fam}");
        let Some(ln) = spr.and_then(|s| s.child("ln")) else { return fail(format!("{w}: no line")) };
        eqs(&format!("{w} width"), ln.attr("w").unwrap_or(""), &k.line.width.to_string())?;
        eqs(&format!("{w} colour"), &solid(Some(ln)).unwrap_or_default(), &up(&k.line.color))?;
        let dash = match k.line.dash {
            LineDash::Solid => "solid",
            LineDash::Dash => "dash",
            LineDash::Dot => "dot",
            LineDash::DashDot => "dashDot",
            LineDash::DashDotDot => "lgDashDotDot",
            LineDash::LongDash => "lgDash",
            LineDash::LongDashDot => "lgDashDot",
        };
        eqs(&format!("{w} dash"), ln.child("prstDash").and_then(|d| d.attr("val")).unwrap_or("solid"), dash)?;
        for (el, a) in [("headEnd", k.start_arrow), ("tailEnd", k.end_arrow)] {
            let want = match a {
                ArrowType::None => "none",
                ArrowType::Triangle => "triangle",
                ArrowType::Stealth => "stealth",
                ArrowType::Diamond => "diamond",
                ArrowType::Oval => "oval",
                ArrowType::Open => "arrow",
            };
            let got = ln.child(el);
            eqs(&format!("{w} {el}"), got.and_then(|g| g.attr("type")).unwrap_or("none"), want)?;
            if a != ArrowType::None {
                let sz = match k.arrow_size {
                    ArrowSize::Small => "sm",
                    ArrowSize::Medium => "med",
                    ArrowSize::Large => "lg",
                };
                for n in ["w", "len"] {
                    eqs(&format!("{w} {el} size"), got.and_then(|g| g.attr(n)).unwrap_or("med"), sz)?;
                }
            }
        }
        for (n, id, site) in [("stCxn", k.start_shape_id, k.start_site), ("endCxn", k.end_shape_id, k.end_site)] {
            let got = el.find(n);
            match (id, site) {
                (Some(id), Some(site)) => {
                    let Some(gt) = got else { return fail(format!("{w}: {n} missing")) };
                    eqs(&format!("{w} {n} shape"), gt.attr("id").unwrap_or(""), &id.to_string())?;
                    ensure!(shape_ids.contains(&id.to_string()), "{w}: glued to shape {id}, slide has {shape_ids:?}");
                    use ConnectionSite::*;
                    let fixed = match site {
                        Top => Some("0"),
                        Right => Some("1"),
                        Bottom => Some("2"),
                        Left => Some("3"),
                        _ => None,
                    };
                    if let Some(f) = fixed {
                        eqs(&format!("{w} {n} site {site:?}"), gt.attr("idx").unwrap_or(""), f)?;
                    }
                }
                _ => ensure!(got.is_none(), "{w}: {n} nobody asked for"),
            }
        }
    }
    Ok(())
}
pub fn c17() -> Prop {
    Prop {
        id: "C17",
        rule: "a shape with a fill (shapes); every case (connectors)",
        assumptions: &["shape ids given by the caller start at 500 and are unique", "rotations are compared modulo a full turn"],
        subs: vec![Sub { name: "shapes", quick: 2500, run: c17_shapes }, Sub { name: "connectors", quick: 2000, run: c17_conns }],
        probes: vec![],
    }
}

// ---------------------------------------------------------------- C18 text formatting
#[derive(Debug, PartialEq, Clone)]
struct Fmt {
    sz: String,
    b: bool,
    i: bool,
    u: bool,
    strike: bool,
    base: i64,
    color: Option<String>,
    hi: Option<String>,
    face: Option<String>,
}
fn fmt_of(pr: Option<&El>) -> Fmt {
    let a = |n: &str| pr.and_then(|p| p.attr(n));
    Fmt {
        sz: a("sz").unwrap_or("").into(),
        b: bit(a("b")),
        i: bit(a("i")),
        u: underlined(a("u")),
        strike: a("strike").map(|s| s != "noStrike").unwrap_or(false),
        base: a("baseline").and_then(|v| v.parse().ok()).unwrap_or(0),
        color: solid(pr),
        hi: pr.and_then(|p| p.child("highlight")).and_then(|h| h.child("srgbClr")).and_then(|c| c.attr("val")).map(String::from),
        face: pr.and_then(|p| p.child("latin")).and_then(|h| h.attr("typeface")).map(String::from),
    }
}
pub fn bullet_xml_ok(p: Option<&El>, st: &BulletStyle) -> bool {
    let bu: Vec<&El> = p.map(|p| p.els().filter(|k| ["buChar", "buAutoNum", "buNone", "buBlip"].contains(&k.name.as_str())).collect()).unwrap_or_default();
    if bu.len() != 1 {
        return false;
    }
    let auto = |t: &str| bu[0].name == "buAutoNum" && bu[0].attr("type") == Some(t) && bu[0].attr("startAt").is_none();
    match st {
        BulletStyle::Bullet => bu[0].name == "buChar" && bu[0].attr("char") == Some("•"),
        BulletStyle::Custom(c) => bu[0].name == "buChar" && bu[0].attr("char") == Some(c.to_string().as_str()),
        BulletStyle::None => bu[0].name == "buNone",
        BulletStyle::Number => auto("arabicPeriod"),
        BulletStyle::LetterLower => auto("alphaLcPeriod"),
        BulletStyle::LetterUpper => auto("alphaUcPeriod"),
        BulletStyle::RomanLower => auto("romanLcPeriod"),
        BulletStyle::RomanUpper => auto("romanUcPeriod"),
    }
}
fn c18_run(c: &mut Ctx) -> Res {
    let n = c.s.len(1, 3);
    let mut slides = vec![];
    for _ in 0..n {
        let mut s = SlideContent::new(&gen::text(&mut c.s)).layout(*c.s.pick(&[
            SlideLayout::TitleAndContent,
            SlideLayout::TitleAndBigContent,
            SlideLayout::TwoColumn,
            SlideLayout::TitleOnly,
            SlideLayout::CenteredTitle,
            SlideLayout::SectionHeader,
        ]));
        if c.s.chance(70) {
            s = s.title_bold(c.s.bool()).title_italic(c.s.bool()).title_underline(c.s.bool()).content_bold(c.s.bool()).content_italic(c.s.bool()).content_underline(c.s.bool());
            if c.s.bool() {
                s = s.title_size(c.s.range(1, 400) as u32);
            }
            if c.s.bool() {
                s = s.content_size(c.s.range(1, 400) as u32);
            }
            if c.s.bool() {
                s = s.title_color(&gen::color(&mut c.s));
            }
            if c.s.bool() {
                s = s.content_color(&gen::color(&mut c.s));
            }
        }
        if c.s.chance(20) {
            s.content = c.s.vec(1, 4, gen::text);
            if c.s.bool() {
                s = s.with_bullet_style(gen::bullet_style(&mut c.s));
            }
        } else {
            for _ in 0..c.s.len(0, 6) {
                let b = gen::bullet(&mut c.s, gen::text);
                s.content.push(b.text.clone());
                s.bullets.push(b);
            }
        }
        slides.push(s);
    }
    let d = gen::Deck { title: "t".into(), slides, settings: None };
    c.note(|| format!("{d:#?}"));
    c.nontrivial(d.slides.iter().any(|s| s.bullets.iter().any(|b| b.format.is_some())));
    let b = build(&d)?;
    let (p, sl) = open(&d, &b)?;
    for (si, (s, path)) in d.slides.iter().zip(&sl).enumerate() {
        let t = e(tree(&p, path))?;
        let r = e(roles(&t, s))?;
        if let Some(sp) = r.title {
            for run in sp.all("r") {
                let f = fmt_of(run.child("rPr"));
                let want = Fmt {
                    sz: s.title_size.map(|z| (z as u64 * 100).to_string()).unwrap_or_default(),
                    b: s.title_bold || s.layout == SlideLayout::SectionHeader,
                    i: s.title_italic,
                    u: s.title_underline,
                    strike: false,
                    base: 0,
                    color: s.title_color.as_deref().map(up),
                    hi: None,
                    face: f.face.clone(),
                };
                let mut f2 = f.clone();
                if s.title_size.is_none() {
                    f2.sz = String::new();
                }
                ensure!(f2 == want, "slide {} title formatting {f:?}, expected {want:?}", si + 1);
            }
        }
        for (col, sp) in body_columns(s).iter().zip(&r.body) {
            let ps = sp.child("txBody").map(paras).unwrap_or_default();
            ensure!(ps.len() == col.len(), "slide {}: {} paragraphs, expected {}", si + 1, ps.len(), col.len());
            for (bi, (b, para)) in col.iter().zip(ps).enumerate() {
                let w = format!("slide {} bullet {bi}", si + 1);
                let pr = para.child("pPr");
                ensure!(bullet_xml_ok(pr, &b.style), "{w}: marker for {:?} is {}", b.style, pr.map(|p| p.canon()).unwrap_or_default());
                let a = |n: &str| pr.and_then(|p| p.attr(n)).and_then(|v| v.parse::<i64>().ok()).unwrap_or(0);
                ensure!(a("lvl") == b.level as i64, "{w}: level {}, expected {}", a("lvl"), b.level);
                ensure!(a("indent") <= 0 && a("marL") + a("indent") == 457_200 * b.level as i64, "{w}: margin {} with indent {} does not put level {} at its place", a("marL"), a("indent"), b.level);
                let f0 = b.format.clone().unwrap_or_default();
                for run in para.els().filter(|k| k.name == "r") {
                    let f = fmt_of(run.child("rPr"));
                    let size = f0.font_size.or(s.content_size);
                    let want = Fmt {
                        sz: size.map(|z| (z as u64 * 100).to_string()).unwrap_or_default(),
                        b: f0.bold || s.content_bold,
                        i: f0.italic || s.content_italic,
                        u: f0.underline || s.content_underline,
                        strike: f0.strikethrough,
                        base: if f0.subscript { -25000 } else if f0.superscript { 30000 } else { 0 },
                        color: f0.color.as_deref().or(s.content_color.as_deref()).map(up),
                        hi: f0.highlight.as_deref().map(up),
                        face: f0.font_family.clone(),
                    };
                    let mut f2 = f.clone();
                    if size.is_none() {
                        f2.sz = String::new();
                    }
                    ensure!(f2 == want, "{w}: formatting {f:?}, expected {want:?}");
                }
            }
        }
    }
    Ok(())
}
pub fn c18() -> Prop {
    Prop {
        id: "C18",
        rule: "at least one bullet with its own formatting",
        assumptions: &["levels 0 to 8, sizes 1 to 400 points", "section headers are bold by design; sizes nobody set are the layout's own"],
        subs: vec![Sub { name: "formatting", quick: 3000, run: c18_run }],
        probes: vec![],
    }
}
fn is_prst(p: &str) -> bool {
    !p.is_empty() && crate::schema::PRST.split(' ').any(|k| k == p)
}
