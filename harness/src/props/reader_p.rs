//! C05: reading presentations back, with the reader and the importer.
use super::deck_p::*;
use crate::engine::*;
use crate::foreign::*;
use crate::opc::Pkg;
use crate::xml::El;
use crate::gen;
use ppt_rs::generator::*;
use ppt_rs::oxml::{ParsedSlide, PresentationReader, SlideParser};

fn attr_on(v: Option<&str>) -> bool {
    matches!(v, Some("1") | Some("true"))
}
type Run = (String, bool, bool, bool, Option<u32>, Option<String>);
fn runs_of(p: &El) -> Vec<Run> {
    let mut v = vec![];
    for k in p.els() {
        match k.name.as_str() {
            "br" => v.push(("\n".to_string(), false, false, false, None, None)),
            "r" | "fld" => {
                let t = k.child("t").map(|t| t.text()).unwrap_or_default();
                if t.is_empty() {
                    continue;
                }
                let r = k.child("rPr");
                let a = |n: &str| r.and_then(|r| r.attr(n));
                v.push((t, attr_on(a("b")), attr_on(a("i")), a("u").map(|u| u != "none").unwrap_or(false), a("sz").and_then(|z| z.parse().ok()), r.and_then(|r| r.path(&["solidFill", "srgbClr"])).and_then(|c| c.attr("val")).map(|s| s.to_string())));
            }
            _ => {}
        }
    }
    v
}
fn parsed_runs(p: &ppt_rs::oxml::slide::Paragraph) -> Vec<Run> {
    p.runs.iter().filter(|r| !r.text.is_empty()).map(|r| (r.text.clone(), r.bold, r.italic, r.underline, r.font_size, r.color.clone())).collect()
}
/// what the reader must report for one slide, from the slide's own XML
fn check_parsed(what: &str, ps: &ParsedSlide, t: &Tree) -> Res {
    ensure!(ps.shapes.len() == t.sps.len(), "{what}: {} shapes read, {} on the slide", ps.shapes.len(), t.sps.len());
    for (i, (g, sp)) in ps.shapes.iter().zip(&t.sps).enumerate() {
        let w = format!("{what} shape {i}");
        let name = sp.path(&["nvSpPr", "cNvPr"]).and_then(|c| c.attr("name")).unwrap_or("");
        ensure!(g.name == name, "{w}: name {:?}, slide has {name:?}", g.name);
        let f = sp.path(&["spPr", "xfrm"]);
        let n = |c: &str, a: &str| f.and_then(|f| f.child(c)).and_then(|k| k.attr(a)).and_then(|v| v.parse::<i64>().ok()).unwrap_or(0);
        let want = (n("off", "x"), n("off", "y"), n("ext", "cx"), n("ext", "cy"));
        ensure!((g.x, g.y, g.width, g.height) == want, "{w}: place {:?}, slide has {want:?}", (g.x, g.y, g.width, g.height));
        let pr = sp.path(&["spPr", "prstGeom"]).and_then(|c| c.attr("prst"));
        ensure!(g.shape_type.as_deref() == pr, "{w}: geometry {:?}, slide has {pr:?}", g.shape_type);
        let wp: Vec<&El> = sp.child("txBody").map(paras).unwrap_or_default();
        ensure!(g.paragraphs.len() == wp.len(), "{w}: {} paragraphs read, slide has {}", g.paragraphs.len(), wp.len());
        for (j, (gp, p)) in g.paragraphs.iter().zip(wp).enumerate() {
            let l = p.child("pPr").and_then(|q| q.attr("lvl")).and_then(|l| l.parse().ok()).unwrap_or(0);
            ensure!(gp.level == l, "{w} paragraph {j}: level {}, slide has {l}", gp.level);
            let (a, b) = (parsed_runs(gp), runs_of(p));
            ensure!(a == b, "{w} paragraph {j}: runs {a:?}, slide has {b:?}");
        }
    }
    ensure!(ps.tables.len() == t.tables.len(), "{what}: {} tables read, slide has {}", ps.tables.len(), t.tables.len());
    for (i, (g, gf)) in ps.tables.iter().zip(&t.tables).enumerate() {
        let tbl = gf.find("tbl").unwrap();
        let rows: Vec<&El> = tbl.els().filter(|k| k.name == "tr").collect();
        ensure!(g.row_count() == rows.len(), "{what} table {i}: {} rows, slide has {}", g.row_count(), rows.len());
        for (r, (gr, tr)) in g.rows.iter().zip(rows).enumerate() {
            let tcs: Vec<&El> = tr.els().filter(|k| k.name == "tc").collect();
            ensure!(gr.len() == tcs.len(), "{what} table {i} row {r}: {} cells, slide has {}", gr.len(), tcs.len());
            for (c, (gc, tc)) in gr.iter().zip(tcs).enumerate() {
                let want = tc.child("txBody").map(body_text).unwrap_or_default();
                ensure!(gc.text == want, "{what} table {i} cell {r},{c}: text {:?}, slide has {want:?}", gc.text);
                let n = |a: &str| tc.attr(a).and_then(|v| v.parse().ok()).unwrap_or(1);
                ensure!((gc.row_span, gc.col_span) == (n("rowSpan"), n("gridSpan")), "{what} table {i} cell {r},{c}: spans {:?}", (gc.row_span, gc.col_span));
            }
        }
    }
    Ok(())
}
fn same_multiset(mut a: Vec<String>, mut b: Vec<String>) -> bool {
    a.sort();
    b.sort();
    a == b
}
/// title, body and the list of all text
fn check_roles(what: &str, ps: &ParsedSlide, title: Option<String>, body: Vec<String>, rest: Vec<String>) -> Res {
    ensure!(ps.title.clone().unwrap_or_default() == title.clone().unwrap_or_default(), "{what}: title {:?}, expected {title:?}", ps.title);
    ensure!(ps.body_text == body, "{what}: body {:?}, expected {body:?}", ps.body_text);
    let mut all: Vec<String> = title.into_iter().chain(body).chain(rest).filter(|t| !t.is_empty()).collect();
    let got: Vec<String> = ps.all_text().into_iter().filter(|t| !t.is_empty()).collect();
    let g2 = got.clone();
    if !same_multiset(got, std::mem::take(&mut all)) {
        return fail(format!("{what}: text extracted {g2:?} is not the text of the slide"));
    }
    Ok(())
}
fn read(c: &Ctx, b: &[u8]) -> Result<PresentationReader, Fail> {
    let f = c.file("d.pptx");
    std::fs::write(&f, b).map_err(|e| Fail { msg: e.to_string() })?;
    PresentationReader::open(f.to_str().unwrap()).map_err(|e| Fail { msg: format!("reader: {e}") })
}
fn expected_roles(s: &SlideContent, t: &Tree) -> Result<(Option<String>, Vec<String>, Vec<String>), Fail> {
    let r = e(roles(t, s))?;
    let title = r.title.map(|_| norm(&s.title));
    let body: Vec<String> = body_columns(s).iter().flatten().map(|b| norm(&b.text)).filter(|t| !t.is_empty()).collect();
    let mut rest: Vec<String> = vec![];
    for x in r.shapes.iter().chain(&r.code).chain(&r.labels) {
        rest.push(sp_text(x));
    }
    for g in &t.tables {
        for tc in g.all("tc") {
            rest.push(tc.child("txBody").map(body_text).unwrap_or_default());
        }
    }
    Ok((title, body, rest))
}
fn check_reader(d: &gen::Deck, order: &[usize], b: &[u8], rd: &PresentationReader) -> Res {
    let p = e(Pkg::read(b))?;
    let sl = e(p.slide_paths())?;
    ensure!(rd.slide_count() == sl.len() && rd.info().slide_count == sl.len(), "reader counts {} slides, package has {}", rd.slide_count(), sl.len());
    let want = norm(&d.title);
    ensure!(rd.info().title.clone().unwrap_or_default() == want, "reader title {:?}, expected {want:?}", rd.info().title);
    let core = e(p.xml("docProps/core.xml"))?;
    for (n, g) in [("creator", &rd.info().creator), ("lastModifiedBy", &rd.info().last_modified_by), ("created", &rd.info().created), ("modified", &rd.info().modified), ("revision", &rd.info().revision.map(|r| r.to_string()))] {
        let w = core.child(n).map(|x| x.text()).filter(|t| !t.is_empty());
        ensure!(*g == w, "reader {n}: {g:?}, package has {w:?}");
    }
    let all = rd.get_all_slides().map_err(|e| Fail { msg: e.to_string() })?;
    let mut texts = vec![];
    for (k, (ps, &i)) in all.iter().zip(order).enumerate() {
        let s = &d.slides[i];
        let t = e(tree(&p, &sl[k]))?;
        let what = format!("slide {}", k + 1);
        check_parsed(&what, ps, &t)?;
        let (ti, bo, re) = expected_roles(s, &t)?;
        check_roles(&what, ps, ti, bo, re)?;
        let one = rd.get_slide(k).map_err(|e| Fail { msg: e.to_string() })?;
        ensure!(format!("{one:?}") == format!("{ps:?}"), "{what}: reading it alone differs");
        texts.extend(ps.all_text());
    }
    ensure!(rd.get_slide(all.len()).is_err(), "a slide past the end was read");
    let got = rd.extract_all_text().map_err(|e| Fail { msg: e.to_string() })?;
    ensure!(got == texts, "text of the presentation is not the text of its slides in order");
    Ok(())
}
fn generated(c: &mut Ctx) -> Res {
    let mut d = gen::deck(&mut c.s, gen::text0, true);
    if c.s.chance(20) {
        let extra = c.s.len(5, 12);
        for i in 0..extra {
            d.slides.push(SlideContent::new(&format!("extra {i}")));
        }
    }
    c.note(|| format!("{d:#?}"));
    c.nontrivial(d.slides.iter().any(|s| !s.bullets.is_empty() || !s.shapes.is_empty() || s.table.is_some()));
    let b = build(&d)?;
    let rd = read(c, &b)?;
    let order: Vec<usize> = (0..d.slides.len()).collect();
    check_reader(&d, &order, &b, &rd)
}
fn respelled(c: &mut Ctx) -> Res {
    let mut d = gen::deck(&mut c.s, gen::text0, true);
    let extra = c.s.len(0, 12);
    for i in 0..extra {
        d.slides.push(SlideContent::new(&format!("extra {i}")));
    }
    let b = build(&d)?;
    let mut p = e(Pkg::read(&b))?;
    let order = e(foreignize(&mut p, &mut c.s))?;
    c.note(|| format!("{order:?}\n{}\n{}\n{d:#?}", p.str("ppt/presentation.xml").unwrap_or(""), p.str("ppt/_rels/presentation.xml.rels").unwrap_or("")));
    c.nontrivial(order.len() > 1);
    let b = p.write(c.s.bool());
    let rd = read(c, &b)?;
    check_reader(&d, &order, &b, &rd)
}
fn ftexts(ps: &[FPara]) -> String {
    ps.iter().map(|p| p.text()).collect::<Vec<_>>().join("\n")
}
/// slides as other producers write them
fn written(c: &mut Ctx) -> Res {
    let items = fitems(&mut c.s, 0);
    let xml = slide_xml(&mut c.s, &items);
    c.note(|| format!("{xml}\n{items:#?}"));
    let (sh, tb) = flatten(&items);
    c.nontrivial(sh.len() + tb.len() > 1);
    if items.iter().any(|i| matches!(i, FItem::Group(_))) {
        c.label("group");
    }
    let ps = SlideParser::parse(&xml).map_err(|e| Fail { msg: e.to_string() })?;
    // against an independent parse of the same XML, groups flattened
    let x = e(crate::xml::parse(&xml))?;
    let st = x.path(&["cSld", "spTree"]).unwrap();
    let mut t = Tree::default();
    for k in st.all("sp") {
        t.sps.push(k.clone());
    }
    for k in st.all("graphicFrame") {
        t.tables.push(k.clone());
    }
    check_parsed("slide", &ps, &t)?;
    // and against the model
    ensure!(sh.len() == ps.shapes.len() && tb.len() == ps.tables.len(), "{} shapes and {} tables read, {} and {} written", ps.shapes.len(), ps.tables.len(), sh.len(), tb.len());
    let mut title = None;
    let (mut body, mut rest) = (vec![], vec![]);
    for (h, g) in sh.iter().zip(&ps.shapes) {
        let txt = if h.has_body { ftexts(&h.paras) } else { String::new() };
        ensure!(g.text() == txt, "shape {:?}: text {:?}, written {txt:?}", h.name, g.text());
        match h.ph {
            Some(Some("title")) | Some(Some("ctrTitle")) if title.is_none() => title = Some(txt),
            Some(None) | Some(Some("body")) | Some(Some("obj")) | Some(Some("subTitle")) => {
                if h.has_body {
                    body.extend(h.paras.iter().map(|p| p.text()).filter(|t| !t.is_empty()))
                }
            }
            _ => rest.push(txt),
        }
    }
    for (t, g) in tb.iter().zip(&ps.tables) {
        for (r, gr) in t.iter().zip(&g.rows) {
            for (cell, gc) in r.iter().zip(gr) {
                ensure!(gc.text == ftexts(&cell.paras), "cell text {:?}, written {:?}", gc.text, ftexts(&cell.paras));
                ensure!((gc.row_span, gc.col_span) == (cell.row_span, cell.col_span), "cell spans {:?}, written {:?}", (gc.row_span, gc.col_span), (cell.row_span, cell.col_span));
                rest.push(ftexts(&cell.paras));
            }
        }
    }
    check_roles("slide", &ps, title, body, rest)
}
/// importing gives slides with the same text, shapes and tables
fn import(c: &mut Ctx) -> Res {
    let d = gen::deck(&mut c.s, gen::text0, true);
    c.note(|| format!("{d:#?}"));
    c.nontrivial(d.slides.iter().any(|s| !s.bullets.is_empty() || !s.shapes.is_empty() || s.table.is_some()));
    let mut b = build(&d)?;
    let mut order: Vec<usize> = (0..d.slides.len()).collect();
    if c.s.bool() {
        let mut p = e(Pkg::read(&b))?;
        order = e(foreignize(&mut p, &mut c.s))?;
        b = p.write(true);
    }
    let f = c.file("i.pptx");
    std::fs::write(&f, &b).map_err(|e| Fail { msg: e.to_string() })?;
    let pr = ppt_rs::import::import_pptx(f.to_str().unwrap()).map_err(|e| Fail { msg: format!("import: {e}") })?;
    let p = e(Pkg::read(&b))?;
    let sl = e(p.slide_paths())?;
    ensure!(pr.slide_count() == sl.len(), "{} slides imported, package has {}", pr.slide_count(), sl.len());
    ensure!(pr.get_title() == norm(&d.title), "imported title {:?}, expected {:?}", pr.get_title(), norm(&d.title));
    for (k, (g, &i)) in pr.slides().iter().zip(&order).enumerate() {
        let s = &d.slides[i];
        let t = e(tree(&p, &sl[k]))?;
        let r = e(roles(&t, s))?;
        let what = format!("slide {}", k + 1);
        let wt = if r.title.is_some() { norm(&s.title) } else { String::new() };
        ensure!(g.title == wt, "{what}: title {:?}, expected {wt:?}", g.title);
        let body: Vec<String> = body_columns(s).iter().flatten().map(|b| norm(&b.text)).filter(|t| !t.is_empty()).collect();
        let gb: Vec<String> = if g.bullets.is_empty() { g.content.clone() } else { g.bullets.iter().map(|b| b.text.clone()).collect() };
        ensure!(gb == body, "{what}: bullets {gb:?}, expected {body:?}");
        let others: Vec<&&El> = r.shapes.iter().chain(&r.code).chain(&r.labels).collect();
        ensure!(g.shapes.len() == others.len(), "{what}: {} shapes imported, slide has {}", g.shapes.len(), others.len());
        for (j, (gs, sp)) in g.shapes.iter().zip(&others).enumerate() {
            ensure!(gs.text.clone().unwrap_or_default() == sp_text(sp), "{what} shape {j}: text {:?}, expected {:?}", gs.text, sp_text(sp));
            if j < s.shapes.len() {
                let w = &s.shapes[j];
                ensure!((gs.x, gs.y, gs.width, gs.height) == (w.x, w.y, w.width, w.height), "{what} shape {j}: place {:?}, expected {:?}", (gs.x, gs.y, gs.width, gs.height), (w.x, w.y, w.width, w.height));
                ensure!(gs.shape_type.preset_name() == w.shape_type.preset_name(), "{what} shape {j}: imported as {:?}, was {:?}", gs.shape_type, w.shape_type);
            }
        }
        ensure!(g.table.is_some() == s.table.is_some(), "{what}: table {} imported, {} expected", g.table.is_some(), s.table.is_some());
        if let (Some(gt), Some(wt)) = (&g.table, &s.table) {
            ensure!(gt.rows.len() == wt.rows.len(), "{what}: {} rows imported, expected {}", gt.rows.len(), wt.rows.len());
            ensure!(gt.column_widths.len() == wt.rows[0].cells.len(), "{what}: {} columns imported", gt.column_widths.len());
            for (ri, (gr, wr)) in gt.rows.iter().zip(&wt.rows).enumerate() {
                ensure!(gr.cells.len() == wr.cells.len(), "{what} row {ri}: {} cells imported, expected {}", gr.cells.len(), wr.cells.len());
                for (ci, (gc, wc)) in gr.cells.iter().zip(&wr.cells).enumerate() {
                    let want = if wc.h_merge || wc.v_merge { String::new() } else { norm(&wc.text) };
                    ensure!(gc.text == want, "{what} cell {ri},{ci}: text {:?}, expected {want:?}", gc.text);
                    // spans count on the origin of a merge only
                    let n = |o: Option<u32>| if wc.h_merge || wc.v_merge { 1 } else { o.unwrap_or(1).max(1) };
                    ensure!((n(gc.grid_span), n(gc.row_span), gc.h_merge, gc.v_merge) == (n(wc.grid_span), n(wc.row_span), wc.h_merge, wc.v_merge), "{what} cell {ri},{ci}: merge {:?}, expected {:?}", (gc.grid_span, gc.row_span, gc.h_merge, gc.v_merge), (wc.grid_span, wc.row_span, wc.h_merge, wc.v_merge));
                }
            }
        }
    }
    // and what was imported can be written again
    let again = pr.build().map_err(|e| Fail { msg: format!("writing the imported deck: {e}") })?;
    let q = e(crate::opc::check_package(&again))?;
    ensure!(e(q.slide_paths())?.len() == sl.len(), "slides lost when writing the imported deck");
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "a slide with bullets, shapes or a table (generated, import), more than one slide (respelled), more than one shape or table (written)",
        assumptions: &["the presentation part is at its usual path", "import claims titles, bullets text, shape kind, place and text, and the first table's cells and merges; formatting, fills, images and charts are not claimed", "grouped shapes are reported with their own coordinates"],
        subs: vec![Sub { name: "generated", quick: 800, run: generated }, Sub { name: "respelled", quick: 700, run: respelled }, Sub { name: "written", quick: 4000, run: written }, Sub { name: "import", quick: 800, run: import }],
        probes: vec![],
    }
}
