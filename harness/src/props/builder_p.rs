//! C28: the building blocks offered for use on their own say what they were given.
use crate::engine::*;
use crate::xml::{self, El};
use crate::{gen, schema};
use ppt_rs::generator::*;
use std::collections::{BTreeMap, BTreeSet};

const NS: &str = r#"xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" xmlns:p="http://schemas.openxmlformats.org/presentationml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" xmlns:c="http://schemas.openxmlformats.org/drawingml/2006/chart""#;

/// Elements of a fragment.
fn frag(x: &str) -> Result<Vec<El>, Fail> {
    let e = xml::parse(&format!("<x {NS}>{x}</x>")).map_err(|m| Fail { msg: format!("not well-formed ({m}): {x}") })?;
    Ok(e.els().cloned().collect())
}
fn one(x: &str) -> Result<El, Fail> {
    let v = frag(x)?;
    ensure!(v.len() == 1, "{} elements instead of one: {x}", v.len());
    Ok(v.into_iter().next().unwrap())
}
/// Attributes of a fragment of attributes.
fn attrs(x: &str) -> Result<BTreeMap<String, String>, Fail> {
    let e = one(&format!("<a:rPr{x}/>"))?;
    Ok(e.attrs.iter().map(|a| (a.name.clone(), a.val.clone())).collect())
}
fn valid(e: &El) -> Res {
    schema::check_tree(e, "fragment").map_err(|msg| Fail { msg })
}
fn at<'a>(e: &'a El, n: &str) -> &'a str {
    e.attr(n).unwrap_or("")
}
/// An attribute of the relationships namespace.
fn rat<'a>(e: &'a El, n: &str) -> &'a str {
    e.attr_ns("http://schemas.openxmlformats.org/officeDocument/2006/relationships", n).unwrap_or("")
}
fn clean(t: &str) -> String {
    // what XML can carry; line ends as an XML reader sees them
    t.chars().filter(|c| xml::is_xml_char(*c)).collect()
}
fn norm(t: &str) -> String {
    t.replace("\r\n", "\n").replace('\r', "\n")
}

// ---------------------------------------------------------------- merges
fn small(s: &mut Src) -> usize {
    match s.below(20) {
        0 => usize::MAX,
        1 => usize::MAX - s.usize(3),
        2 => usize::MAX / 2 + s.usize(3),
        _ => s.usize(9),
    }
}
fn merge(c: &mut Ctx) -> Res {
    let (rows, cols) = (c.s.usize(10), c.s.usize(10));
    let mut m = TableMergeMap::new(rows, cols);
    // the model: who covers each cell
    let mut own: Vec<Vec<Option<usize>>> = vec![vec![None; cols]; rows];
    let mut regs: Vec<(usize, usize, usize, usize)> = vec![];
    let n = 2 + c.s.usize(12);
    let mut log = vec![];
    for _ in 0..n {
        let (r, k, rs, cs) = if c.s.chance(70) {
            (c.s.usize(rows + 1), c.s.usize(cols + 1), c.s.usize(4), c.s.usize(4))
        } else {
            (small(&mut c.s), small(&mut c.s), small(&mut c.s), small(&mut c.s))
        };
        log.push((r, k, rs, cs));
        let fits = rs > 0 && cs > 0 && r.checked_add(rs).is_some_and(|e| e <= rows) && k.checked_add(cs).is_some_and(|e| e <= cols);
        let free = fits && (r..r + rs).all(|y| (k..k + cs).all(|x| own[y][x].is_none()));
        let got = if c.s.bool() {
            guard(|| m.merge_cells(r, k, rs, cs))?
        } else {
            match guard(|| MergeRegion::new(r, k, rs, cs))? {
                Ok(g) => {
                    ensure!(rs > 0 && cs > 0, "an empty region was made");
                    if fits {
                        ensure!(g.last_row() == r + rs - 1 && g.last_col() == k + cs - 1, "{g:?} ends at {} {}", g.last_row(), g.last_col());
                        for y in 0..rows {
                            for x in 0..cols {
                                let inside = (r..r + rs).contains(&y) && (k..k + cs).contains(&x);
                                ensure!(g.contains(y, x) == inside && g.is_anchor(y, x) == (y == r && x == k), "{g:?} is wrong about the cell {y} {x}");
                            }
                        }
                        for (i, q) in regs.iter().enumerate() {
                            let h = MergeRegion::new(q.0, q.1, q.2, q.3).unwrap();
                            let over = (r..r + rs).any(|y| (k..k + cs).any(|x| own[y][x] == Some(i)));
                            ensure!(g.overlaps(&h) == over && h.overlaps(&g) == over, "{g:?} and {h:?} are wrong about overlapping");
                        }
                    }
                    guard(|| m.add_merge(g))?
                }
                Err(x) => Err(x),
            }
        };
        ensure!(got.is_ok() == free, "merging {rs}x{cs} cells at {r},{k} of a {rows}x{cols} table after {regs:?} gave {got:?}");
        if free {
            for y in r..r + rs {
                for x in k..k + cs {
                    own[y][x] = Some(regs.len());
                }
            }
            regs.push((r, k, rs, cs));
        }
    }
    c.note(|| format!("{rows}x{cols}: {log:?}"));
    c.nontrivial(regs.len() > 1);
    ensure!(m.len() == regs.len() && m.is_empty() == regs.is_empty() && m.dimensions() == (rows, cols), "{} regions, wanted {}", m.len(), regs.len());
    let got: Vec<_> = m.regions().iter().map(|g| (g.row, g.col, g.row_span, g.col_span)).collect();
    ensure!(got == regs, "regions {got:?}, wanted {regs:?}");
    for y in 0..rows + 2 {
        for x in 0..cols + 2 {
            let st = m.cell_state(y, x);
            let i = own.get(y).and_then(|r| r.get(x)).copied().flatten();
            let want = match i {
                None => CellMergeState::Normal,
                Some(i) => {
                    let g = regs[i];
                    if (y, x) == (g.0, g.1) {
                        CellMergeState::Anchor { row_span: g.2, col_span: g.3 }
                    } else if y == g.0 {
                        CellMergeState::HMerge
                    } else {
                        CellMergeState::VMerge
                    }
                }
            };
            ensure!(st == want, "cell {y},{x} is {st:?}, wanted {want:?}");
            ensure!(st.is_merged_away() == i.is_some_and(|i| (y, x) != (regs[i].0, regs[i].1)), "{st:?} is wrong about being merged away");
            let a = attrs(&st.to_xml_attrs())?;
            let mut w = BTreeMap::new();
            match st {
                CellMergeState::Anchor { row_span, col_span } => {
                    if col_span > 1 {
                        w.insert("gridSpan".to_string(), col_span.to_string());
                    }
                    if row_span > 1 {
                        w.insert("rowSpan".to_string(), row_span.to_string());
                    }
                }
                CellMergeState::HMerge => drop(w.insert("hMerge".into(), "1".into())),
                CellMergeState::VMerge => drop(w.insert("vMerge".into(), "1".into())),
                CellMergeState::Normal => {}
            }
            ensure!(a == w, "{st:?} is written as {a:?}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- sections
fn sections(c: &mut Ctx) -> Res {
    let mut m = SectionManager::new();
    let mut w: Vec<(String, usize, usize)> = vec![];
    let names: Vec<String> = (0..1 + c.s.usize(4)).map(|_| gen::text0(&mut c.s)).collect();
    let n = c.s.len(0, 10);
    let mut log = vec![];
    for _ in 0..n {
        let name = c.s.pick(&names).clone();
        match c.s.below(10) {
            0 => {
                log.push(format!("remove {name:?}"));
                let had = w.iter().any(|x| x.0 == name);
                ensure!(m.remove_section(&name) == had, "removing {name:?} is wrong about having done so");
                w.retain(|x| x.0 != name);
            }
            1 => {
                let to = c.s.pick(&names).clone();
                log.push(format!("rename {name:?} {to:?}"));
                let i = w.iter().position(|x| x.0 == name);
                ensure!(m.rename_section(&name, &to) == i.is_some(), "renaming {name:?} is wrong about having done so");
                if let Some(i) = i {
                    w[i].0 = to;
                }
            }
            2 if c.s.chance(20) => {
                m.clear();
                w.clear();
            }
            _ => {
                let (a, k) = if c.s.chance(6) { (small(&mut c.s), small(&mut c.s)) } else { (c.s.usize(20), c.s.usize(6)) };
                log.push(format!("add {name:?} {a} {k}"));
                let end = |a: usize, k: usize| a.saturating_add(k);
                let over = k > 0 && w.iter().any(|x| x.2 > 0 && a < end(x.1, x.2) && x.1 < end(a, k));
                let got = guard(|| m.add_section(&name, a, k))?;
                ensure!(got.is_err() == over, "adding slides {a}+{k} to {w:?} gave {got:?}");
                if !over {
                    let i = w.iter().position(|x| x.1 > a).unwrap_or(w.len());
                    w.insert(i, (name, a, k));
                }
            }
        }
    }
    c.note(|| format!("{log:?}"));
    c.nontrivial(w.len() > 1);
    let got: Vec<_> = m.sections().iter().map(|s| (s.name.clone(), s.first_slide, s.slide_count)).collect();
    ensure!(got == w && m.len() == w.len() && m.is_empty() == w.is_empty(), "sections {got:?}, wanted {w:?}");
    for i in (0..30).chain([usize::MAX]) {
        let want = w.iter().find(|x| i >= x.1 && i - x.1 < x.2).map(|x| x.1);
        let g = guard(|| m.section_for_slide(i).map(|s| s.first_slide))?;
        ensure!(g == want, "slide {i} is in the section at {g:?}, wanted {want:?}");
    }
    for s in m.sections() {
        let l = guard(|| s.last_slide())?;
        ensure!(l == s.first_slide.saturating_add(s.slide_count.saturating_sub(1)), "{s:?} ends at {l}");
    }
    for name in &names {
        let g = m.get_section(name).map(|s| (s.first_slide, s.slide_count));
        ensure!(g == w.iter().find(|x| &x.0 == name).map(|x| (x.1, x.2)), "the section {name:?} is {g:?}");
    }
    let total = c.s.usize(30);
    let x = guard(|| m.to_xml(total))?;
    if w.is_empty() {
        ensure!(x.is_empty(), "no section, but {x}");
        return Ok(());
    }
    let e = one(&x)?;
    let secs = e.all("section");
    ensure!(e.name == "extLst" && secs.len() == w.len(), "{} sections written, wanted {}", secs.len(), w.len());
    let mut ids = BTreeSet::new();
    for (s, m) in secs.iter().zip(&w) {
        ensure!(norm(at(s, "name")) == norm(&clean(&m.0)), "section named {:?}, wanted {:?}", at(s, "name"), m.0);
        let id = at(s, "id");
        let ok = id.len() == 38
            && id.starts_with('{')
            && id.ends_with('}')
            && id[1..37].split('-').map(str::len).eq([8, 4, 4, 4, 12])
            && id[1..37].chars().all(|c| c == '-' || c.is_ascii_digit() || ('A'..='F').contains(&c));
        ensure!(ok, "{id:?} is no identifier");
        ensure!(ids.insert(id.to_string()), "two sections have the identifier {id}");
        let got: Vec<String> = s.all("sldId").iter().map(|e| at(e, "id").to_string()).collect();
        let want: Vec<String> = (0..total).filter(|i| *i >= m.1 && i - m.1 < m.2).map(|i| (256 + i).to_string()).collect();
        ensure!(got == want, "section {:?} lists {got:?}, wanted {want:?}", m.0);
    }
    Ok(())
}

// ---------------------------------------------------------------- comments
fn comments(c: &mut Ctx) -> Res {
    let names: Vec<String> = (0..1 + c.s.usize(4)).map(|_| gen::text0(&mut c.s)).collect();
    let mut al = CommentAuthorList::new();
    let mut w: Vec<(String, String)> = vec![];
    let mut sc = SlideComments::new();
    let mut cw: Vec<(u32, String, u32, u32, Option<u32>, Option<String>)> = vec![];
    for _ in 0..c.s.len(0, 10) {
        let (name, ini) = (c.s.pick(&names).clone(), gen::text0(&mut c.s));
        let id = al.get_or_add(&name, &ini);
        let i = w.iter().position(|x| x.0 == name).unwrap_or_else(|| {
            w.push((name.clone(), ini));
            w.len() - 1
        });
        ensure!(id as usize == i, "author {name:?} has the number {id}, wanted {i}");
        let (t, x, y) = (gen::text0(&mut c.s), gen::emu(&mut c.s), gen::emu(&mut c.s));
        if c.s.bool() {
            sc.add_comment(id, &t, x, y);
            cw.push((id, t, x, y, None, None));
        } else {
            let k = 1 + c.s.usize(6) as u32;
            let d = format!("20{:02}-0{}-1{}T0{}:0{}:00.000", c.s.usize(30), 1 + c.s.usize(9), c.s.usize(10), c.s.usize(10), c.s.usize(10));
            // a number the author has used already would be the caller's mistake
            if sc.comments().iter().any(|o| o.index == k && o.author_id == id) {
                continue;
            }
            sc.add(Comment::new(id, &t).position(x, y).index(k).date(&d));
            cw.push((id, t, x, y, Some(k), Some(d)));
        }
    }
    c.note(|| format!("{w:?} {cw:?}"));
    c.nontrivial(cw.len() > 1);
    ensure!(al.len() == w.len() && al.is_empty() == w.is_empty() && sc.len() == cw.len() && sc.is_empty() == cw.is_empty(), "{} authors and {} comments", al.len(), sc.len());
    let e = xml::parse(&al.to_xml()).map_err(|msg| Fail { msg })?;
    valid(&e)?;
    let got: Vec<_> = e.els().map(|a| (norm(at(a, "name")), norm(at(a, "initials")))).collect();
    let want: Vec<_> = w.iter().map(|a| (norm(&clean(&a.0)), norm(&clean(&a.1)))).collect();
    ensure!(e.name == "cmAuthorLst" && got == want, "authors {got:?}, wanted {want:?}");
    for (i, a) in e.els().enumerate() {
        ensure!(at(a, "id") == i.to_string(), "author {i} is written with number {:?}", at(a, "id"));
        let b = al.get_by_id(i as u32);
        ensure!(b.is_some_and(|b| b.name == w[i].0), "author {i} is {b:?}");
        ensure!(al.authors()[i].name == w[i].0, "author {i} is {:?}", al.authors()[i]);
    }
    ensure!(al.get_by_id(w.len() as u32).is_none(), "there is an author too many");
    let e = xml::parse(&sc.to_xml()).map_err(|msg| Fail { msg })?;
    valid(&e)?;
    let cs: Vec<&El> = e.els().collect();
    ensure!(e.name == "cmLst" && cs.len() == cw.len(), "{} comments written, wanted {}", cs.len(), cw.len());
    let mut used = BTreeSet::new();
    for (g, w) in cs.iter().zip(&cw) {
        let pos = g.child("pos").ok_or_else(|| Fail { msg: "comment without position".into() })?;
        let t = g.child("text").map(|t| t.text()).unwrap_or_default();
        ensure!(
            at(g, "authorId") == w.0.to_string() && norm(&t) == norm(&clean(&w.1)) && at(pos, "x") == w.2.to_string() && at(pos, "y") == w.3.to_string(),
            "comment {} wanted {w:?}",
            g.canon()
        );
        ensure!(w.4.is_none_or(|i| at(g, "idx") == i.to_string()) && w.5.as_ref().is_none_or(|d| at(g, "dt") == d), "comment {} wanted {w:?}", g.canon());
        ensure!(used.insert((w.0, at(g, "idx").to_string())), "two comments of author {} have the number {:?}", w.0, at(g, "idx"));
    }
    Ok(())
}

// ---------------------------------------------------------------- text
#[derive(Clone, Debug, Default, PartialEq)]
struct Fmt {
    b: bool,
    i: bool,
    u: bool,
    strike: bool,
    base: i8,
    col: Option<String>,
    hi: Option<String>,
    size: Option<u32>,
    font: Option<String>,
}
fn fmt(s: &mut Src) -> (TextFormat, Fmt) {
    let mut f = TextFormat::new();
    let mut w = Fmt::default();
    for _ in 0..s.len(0, 6) {
        match s.below(9) {
            0 => (f, w.b) = (f.bold(), true),
            1 => (f, w.i) = (f.italic(), true),
            2 => (f, w.u) = (f.underline(), true),
            3 => (f, w.strike) = (f.strikethrough(), true),
            4 => (f, w.base) = (f.subscript(), -1),
            5 => (f, w.base) = (f.superscript(), 1),
            6 => {
                let x = gen::color(s);
                w.col = Some(x.trim_start_matches('#').to_uppercase());
                f = f.color(&x);
            }
            7 => {
                let x = gen::color(s);
                w.hi = Some(x.trim_start_matches('#').to_uppercase());
                f = f.highlight(&x);
            }
            _ => {
                if s.bool() {
                    let x = s.range(1, 4000) as u32;
                    w.size = Some(x);
                    f = f.font_size(x);
                } else {
                    let x = if s.bool() { gen::font_name(s) } else { gen::text(s) };
                    w.font = Some(x.clone());
                    f = f.font_family(&x);
                }
            }
        }
    }
    (f, w)
}
fn flag(e: &El, n: &str) -> bool {
    matches!(e.attr(n), Some("1" | "true"))
}
/// What run properties say.
fn read_fmt(p: &El) -> Fmt {
    let col = |e: Option<&El>| e.and_then(|f| f.find("srgbClr")).map(|c| at(c, "val").to_string());
    Fmt {
        b: flag(p, "b"),
        i: flag(p, "i"),
        u: p.attr("u").is_some_and(|u| u != "none"),
        strike: p.attr("strike").is_some_and(|u| u != "noStrike"),
        base: p.attr("baseline").and_then(|b| b.parse::<i64>().ok()).unwrap_or(0).signum() as i8,
        col: col(p.child("solidFill")),
        hi: col(p.child("highlight")),
        size: p.attr("sz").and_then(|s| s.parse::<u32>().ok()).map(|s| s / 100),
        font: p.child("latin").map(|l| norm(at(l, "typeface"))),
    }
}
fn run(s: &mut Src) -> (Run, String, Fmt) {
    let t = gen::text0(s);
    let mut r = Run::new(&t);
    let mut w = Fmt::default();
    if s.bool() {
        let (f, m) = fmt(s);
        r = r.with_format(f);
        w = m;
    }
    for _ in 0..s.len(0, 3) {
        match s.below(6) {
            0 => (r, w.b) = (r.bold(), true),
            1 => (r, w.i) = (r.italic(), true),
            2 => (r, w.u) = (r.underline(), true),
            3 => {
                let x = gen::color(s);
                w.col = Some(x.trim_start_matches('#').to_uppercase());
                r = r.color(&x);
            }
            4 => {
                let x = s.range(1, 4000) as u32;
                w.size = Some(x);
                r = r.size(x);
            }
            _ => {
                let x = gen::font_name(s);
                w.font = Some(x.clone());
                r = r.font(&x);
            }
        }
    }
    w.font = w.font.map(|f| norm(&clean(&f)));
    (r, t, w)
}
fn same_run(e: &El, t: &str, w: &Fmt) -> Res {
    ensure!(e.name == "r", "a run is written as <{}>", e.name);
    let p = e.child("rPr").ok_or_else(|| Fail { msg: "run without properties".into() })?;
    let mut got = read_fmt(p);
    if w.size.is_none() {
        got.size = None;
    }
    ensure!(&got == w, "run format {got:?}, wanted {w:?}");
    let x = e.child("t").map(|t| t.text()).unwrap_or_default();
    ensure!(norm(&x) == norm(&clean(t)), "run text {x:?}, wanted {t:?}");
    Ok(())
}
fn text(c: &mut Ctx) -> Res {
    type P = (Vec<(String, Fmt)>, TextAlign, u32, bool, Option<u32>, Option<u32>);
    let mut f = TextFrame::new();
    let mut w: Vec<P> = vec![];
    let al = [TextAlign::Left, TextAlign::Center, TextAlign::Right, TextAlign::Justify];
    let an = [TextAnchor::Top, TextAnchor::Middle, TextAnchor::Bottom];
    for _ in 0..c.s.len(0, 4) {
        if c.s.chance(20) {
            let t = gen::text0(&mut c.s);
            f = f.add_text(&t);
            w.push((vec![(t, Fmt::default())], TextAlign::Left, 0, false, None, None));
            continue;
        }
        let mut p = Paragraph::new();
        let mut m: P = (vec![], TextAlign::Left, 0, false, None, None);
        for _ in 0..c.s.len(0, 6) {
            match c.s.below(8) {
                0 => (p, m.1) = {
                    let a = *c.s.pick(&al);
                    (p.align(a), a)
                },
                1 => (p, m.3) = (p.bullet(), true),
                2 => {
                    let l = c.s.range(0, 12) as u32;
                    m.2 = l.min(8);
                    p = p.level(l);
                }
                3 => {
                    let l = c.s.range(0, 1584) as u32;
                    m.4 = Some(l * 100);
                    p = p.spacing_before(l);
                }
                4 => {
                    let l = c.s.range(0, 1584) as u32;
                    m.5 = Some(l * 100);
                    p = p.spacing_after(l);
                }
                5 => {
                    let t = gen::text0(&mut c.s);
                    p = p.add_text(&t);
                    m.0.push((t, Fmt::default()));
                }
                _ => {
                    let (r, t, fm) = run(&mut c.s);
                    p = p.add_run(r);
                    m.0.push((t, fm));
                }
            }
        }
        f = f.add_paragraph(p);
        w.push(m);
    }
    let mut anchor = TextAnchor::Top;
    if c.s.bool() {
        anchor = *c.s.pick(&an);
        f = f.anchor(anchor);
    }
    let mut mar = [91440, 91440, 45720, 45720];
    if c.s.bool() {
        mar = [gen::emu(&mut c.s), gen::emu(&mut c.s), gen::emu(&mut c.s), gen::emu(&mut c.s)];
        f = f.margins(mar[0], mar[1], mar[2], mar[3]);
    }
    let wrap = c.s.bool();
    f.wrap = wrap;
    c.note(|| format!("{f:#?}"));
    c.nontrivial(w.iter().any(|p| p.0.len() > 1));
    let e = one(&f.to_xml())?;
    valid(&e)?;
    let b = e.child("bodyPr").ok_or_else(|| Fail { msg: "no bodyPr".into() })?;
    let got = ["lIns", "rIns", "tIns", "bIns"].map(|n| at(b, n).parse::<u32>().unwrap_or(u32::MAX));
    ensure!(got == mar && at(b, "anchor") == anchor.to_xml() && (at(b, "wrap") == "none") != wrap, "frame {} wanted {mar:?} {anchor:?} {wrap}", b.canon());
    let ps: Vec<&El> = e.els().filter(|x| x.name == "p").collect();
    ensure!(ps.len() == w.len().max(1), "{} paragraphs, wanted {}", ps.len(), w.len());
    for (e, m) in ps.iter().zip(&w) {
        let pp = e.child("pPr").ok_or_else(|| Fail { msg: "paragraph without properties".into() })?;
        let sp = |n: &str| pp.child(n).and_then(|x| x.find("spcPts")).and_then(|x| at(x, "val").parse::<u32>().ok());
        let alg = match m.1 {
            TextAlign::Left => "l",
            TextAlign::Center => "ctr",
            TextAlign::Right => "r",
            TextAlign::Justify => "just",
        };
        ensure!(pp.attr("algn").unwrap_or("l") == alg, "alignment {:?}, wanted {alg}", pp.attr("algn"));
        ensure!(pp.attr("lvl").unwrap_or("0") == m.2.to_string(), "level {:?}, wanted {}", pp.attr("lvl"), m.2);
        ensure!(pp.child("buChar").is_some() == m.3, "bullet {}, wanted {}", pp.canon(), m.3);
        ensure!(sp("spcBef") == m.4 && sp("spcAft") == m.5, "spacing {}, wanted {:?} {:?}", pp.canon(), m.4, m.5);
        let rs: Vec<&El> = e.els().filter(|x| x.name == "r").collect();
        ensure!(rs.len() == m.0.len(), "{} runs, wanted {}", rs.len(), m.0.len());
        for (r, (t, fm)) in rs.iter().zip(&m.0) {
            same_run(r, t, fm)?;
        }
    }
    Ok(())
}
/// Format attributes and right-to-left settings.
fn formats(c: &mut Ctx) -> Res {
    let (f, w) = fmt(&mut c.s);
    c.note(|| format!("{f:?}"));
    c.nontrivial(w != Fmt::default());
    let e = one(&format!("<a:rPr{}>{}{}</a:rPr>", f.to_xml_attrs(), f.color.as_deref().map(text::color_to_xml).unwrap_or_default(), f.to_highlight_xml()))?;
    valid(&e)?;
    let mut got = read_fmt(&e);
    got.font = w.font.clone();
    ensure!(got == w, "format {got:?}, wanted {w:?}");
    // right to left
    let langs = [RtlLanguage::Arabic, RtlLanguage::Hebrew, RtlLanguage::Urdu, RtlLanguage::Persian, RtlLanguage::Pashto, RtlLanguage::Sindhi, RtlLanguage::Kurdish, RtlLanguage::Yiddish];
    let mut p = RtlTextProps::new();
    let mut m: (bool, Option<String>, Option<String>) = (false, None, None);
    for _ in 0..c.s.len(0, 4) {
        match c.s.below(5) {
            0 => (p, m.0) = (p.rtl(), true),
            1 => (p, m.0) = (p.ltr(), false),
            2 => {
                let l = if c.s.chance(70) { c.s.pick(&["ar-SA", "he-IL", "en-US"]).to_string() } else { gen::text(&mut c.s) };
                p = p.language(&l);
                m.1 = Some(l);
            }
            3 => {
                let l = gen::font_name(&mut c.s);
                p = p.complex_script_font(&l);
                m.2 = Some(l);
            }
            _ => {
                let l = *c.s.pick(&langs);
                p = p.from_language(l);
                m = (true, Some(l.lang_tag().into()), Some(l.default_font().into()));
            }
        }
    }
    let x = format!(
        "<a:p><a:pPr{}/><a:r><a:rPr{}>{}</a:rPr><a:t>x</a:t></a:r></a:p>",
        p.to_ppr_xml_attr(),
        p.to_rpr_xml_attrs(),
        p.to_cs_font_xml()
    );
    let e = one(&x)?;
    let (pp, rp) = (e.child("pPr").unwrap(), e.find("rPr").unwrap());
    ensure!(flag(pp, "rtl") == m.0, "direction {:?}, wanted {}", pp.attr("rtl"), m.0);
    ensure!(rp.attr("lang").map(norm) == m.1.as_ref().map(|l| norm(&clean(l))), "language {:?}, wanted {:?}", rp.attr("lang"), m.1);
    ensure!(rp.child("cs").map(|l| norm(at(l, "typeface"))) == m.2.as_ref().map(|l| norm(&clean(l))), "font {:?}, wanted {:?}", rp.canon(), m.2);
    Ok(())
}

// ---------------------------------------------------------------- inline markup
fn markup(c: &mut Ctx) -> Res {
    use ppt_rs::generator::slide::{generate_rich_text_runs, parse_inline_formatting};
    // balanced pieces
    let mut src = String::new();
    let mut want: Vec<(String, bool, bool, bool)> = vec![];
    let plain = |s: &mut Src| -> String { gen::text(s).chars().filter(|c| !"*_`".contains(*c)).collect::<String>() };
    let mut push = |t: String, b: bool, i: bool, k: bool| {
        if t.is_empty() {
            return;
        }
        match want.last_mut() {
            Some(l) if (l.1, l.2, l.3) == (b, i, k) => l.0.push_str(&t),
            _ => want.push((t, b, i, k)),
        }
    };
    for _ in 0..c.s.len(0, 5) {
        let t = plain(&mut c.s);
        let m = *c.s.pick(&['*', '_']);
        match c.s.below(6) {
            0 => {
                src.push_str(&format!("{m}{m}{t}{m}{m}"));
                push(t, true, false, false);
            }
            1 if !t.is_empty() => {
                // a lone mark next to another one reads as a double mark
                if src.ends_with(m) {
                    src.push(' ');
                    push(" ".into(), false, false, false);
                }
                src.push_str(&format!("{m}{t}{m} "));
                push(t, false, true, false);
                push(" ".into(), false, false, false);
            }
            2 => {
                let code: String = gen::text(&mut c.s).chars().filter(|c| *c != '`').collect();
                src.push_str(&format!("`{code}`"));
                push(code, false, false, true);
            }
            3 if !t.is_empty() => {
                let o = if m == '*' { '_' } else { '*' };
                if src.ends_with(m) {
                    src.push(' ');
                    push(" ".into(), false, false, false);
                }
                src.push_str(&format!("{m}{m}{o}{t}{o}{m}{m} "));
                push(t, true, true, false);
                push(" ".into(), false, false, false);
            }
            _ => {
                src.push_str(&t);
                push(t, false, false, false);
            }
        }
    }
    c.note(|| format!("{src:?}"));
    c.nontrivial(want.len() > 1);
    let size = c.s.range(100, 400000) as u32;
    let (bb, bi) = (c.s.bool(), c.s.bool());
    let col = c.s.bool().then(|| gen::color(&mut c.s));
    let segs = guard(|| parse_inline_formatting(&src))?;
    let mut got: Vec<(String, bool, bool, bool)> = vec![];
    for s in segs.iter().filter(|s| !s.text.is_empty()) {
        match got.last_mut() {
            Some(l) if (l.1, l.2, l.3) == (s.bold, s.italic, s.code) => l.0.push_str(&s.text),
            _ => got.push((s.text.clone(), s.bold, s.italic, s.code)),
        }
    }
    if src.chars().any(|c| !"*_`".contains(c)) {
        ensure!(got == want, "{src:?} reads as {got:?}, wanted {want:?}");
    }
    let x = guard(|| generate_rich_text_runs(&src, size, bb, bi, col.as_deref()))?;
    let e = one(&format!("<a:p>{x}</a:p>"))?;
    valid(&e)?;
    let rs: Vec<&El> = e.els().collect();
    ensure!(rs.len() == segs.len(), "{} runs, wanted {}", rs.len(), segs.len());
    for (r, s) in rs.iter().zip(&segs) {
        let p = r.child("rPr").unwrap();
        let t = r.child("t").map(|t| t.text()).unwrap_or_default();
        ensure!(norm(&t) == norm(&clean(&s.text)), "run text {t:?}, wanted {:?}", s.text);
        ensure!(at(p, "sz") == size.to_string(), "size {:?}, wanted {size}", p.attr("sz"));
        if s.code {
            continue;
        }
        ensure!(flag(p, "b") == (bb || s.bold) && flag(p, "i") == (bi || s.italic), "run {} for {s:?} on {bb} {bi}", p.canon());
        let got = p.child("solidFill").and_then(|f| f.find("srgbClr")).map(|c| at(c, "val").to_string());
        ensure!(got == col.as_ref().map(|c| c.trim_start_matches('#').to_uppercase()), "colour {got:?}, wanted {col:?}");
    }
    // arbitrary text: only marks may go
    let t = gen::text(&mut c.s);
    let u = if c.s.bool() { format!("{t}{}{src}", c.s.pick(&["*", "_", "`", "**", "``", "*_"])) } else { t };
    let joined: String = guard(|| parse_inline_formatting(&u))?.into_iter().map(|s| s.text).collect();
    let strip = |t: &str| t.chars().filter(|c| !"*_`".contains(*c)).collect::<String>();
    ensure!(strip(&joined) == strip(&u), "{u:?} is cut into {joined:?}");
    Ok(())
}

// ---------------------------------------------------------------- fills
fn fills(c: &mut Ctx) -> Res {
    let kinds = [GradientType::Linear, GradientType::Radial, GradientType::Rectangular, GradientType::Path];
    let dir = |s: &mut Src| -> (GradientDirection, u64) {
        match s.below(5) {
            0 => (GradientDirection::Horizontal, 0),
            1 => (GradientDirection::Vertical, 90),
            2 => (GradientDirection::DiagonalDown, 45),
            3 => (GradientDirection::DiagonalUp, 315),
            _ => {
                let d = if s.chance(80) { s.range(0, 359) as u32 } else { s.range(0, u32::MAX as i64) as u32 };
                (GradientDirection::Custom(d), d as u64 % 360)
            }
        }
    };
    let mut ty = GradientType::Linear;
    let (mut d, mut ang) = (GradientDirection::Vertical, 90);
    let mut w: Vec<(u32, String, Option<u32>)> = vec![];
    let up = |c: &str| c.trim_start_matches('#').to_uppercase();
    let mut g = match c.s.below(5) {
        0 => {
            (d, ang) = dir(&mut c.s);
            GradientFill::linear(d)
        }
        1 => {
            ty = GradientType::Radial;
            GradientFill::radial()
        }
        2 => {
            let (x, y) = (gen::color(&mut c.s), gen::color(&mut c.s));
            w = vec![(0, up(&x), None), (100000, up(&y), None)];
            GradientFill::two_color(&x, &y)
        }
        3 => {
            let (x, y, z) = (gen::color(&mut c.s), gen::color(&mut c.s), gen::color(&mut c.s));
            w = vec![(0, up(&x), None), (50000, up(&y), None), (100000, up(&z), None)];
            GradientFill::three_color(&x, &y, &z)
        }
        _ => {
            ty = *c.s.pick(&kinds);
            GradientFill::new(ty)
        }
    };
    let mut rot = true;
    let more = c.s.len(if w.len() < 2 { 2 } else { 0 }, 4);
    for _ in 0..more {
        let col = gen::color(&mut c.s);
        let (mut st, p) = match c.s.below(5) {
            0 => (GradientStop::start(&col), 0),
            1 => (GradientStop::middle(&col), 50000),
            2 => (GradientStop::end(&col), 100000),
            _ => {
                let p = c.s.range(0, 130_000) as u32;
                (GradientStop::new(p, &col), p.min(100000))
            }
        };
        let mut tr = None;
        if c.s.chance(40) {
            let t = c.s.range(0, 130) as u32;
            st = st.with_transparency(t);
            tr = Some(t.min(100));
        }
        w.push((p, up(&col), tr));
        g = g.add_stop(st);
    }
    if c.s.chance(30) {
        (d, ang) = dir(&mut c.s);
        g = g.with_direction(d);
    }
    if c.s.chance(30) {
        rot = c.s.bool();
        g = g.with_rotate(rot);
    }
    if c.s.chance(30) {
        g = g.sorted();
        w.sort_by_key(|s| s.0);
    }
    let _ = d;
    c.note(|| format!("{g:?}"));
    c.nontrivial(w.len() > 2);
    let e = one(&guard(|| generate_gradient_fill_xml(&g))?)?;
    valid(&e)?;
    ensure!(e.name == "gradFill" && (at(&e, "rotWithShape") == "1") == rot, "fill {}", e.canon());
    let got: Vec<(u32, String, Option<u32>)> = e
        .all("gs")
        .iter()
        .map(|s| {
            let k = s.child("srgbClr").unwrap();
            (at(s, "pos").parse().unwrap_or(u32::MAX), at(k, "val").to_string(), k.child("alpha").map(|a| 100 - at(a, "val").parse::<u32>().unwrap_or(0) / 1000))
        })
        .collect();
    ensure!(got == w, "stops {got:?}, wanted {w:?}");
    match ty {
        GradientType::Linear => {
            let a = e.child("lin").map(|l| at(l, "ang").to_string()).unwrap_or_default();
            ensure!(a == (ang * 60000).to_string(), "angle {a}, wanted {ang} degrees");
        }
        _ => {
            let p = e.child("path").map(|l| at(l, "path").to_string()).unwrap_or_default();
            let want: &[&str] = match ty {
                GradientType::Radial => &["circle"],
                GradientType::Rectangular => &["rect"],
                _ => &["shape", "circle", "rect"],
            };
            ensure!(want.contains(&p.as_str()), "{ty:?} is written as {p:?}");
        }
    }
    // shapes with any turn and direction
    let deg = if c.s.chance(70) { c.s.range(-1000, 1000) } else { c.s.range(i32::MIN as i64, i32::MAX as i64) } as i32;
    let dg = c.s.range(0, u32::MAX as i64) as u32;
    let sh = Shape::new(ShapeType::Rectangle, 1, 2, 3, 4)
        .with_rotation(deg)
        .with_gradient(shapes::GradientFill::linear("FF0000", "00FF00", shapes::GradientDirection::Angle(dg)));
    let e = one(&guard(|| generate_shape_xml(&sh, 7))?)?;
    valid(&e)?;
    let r: i64 = at(e.find("xfrm").unwrap(), "rot").parse().unwrap_or(0);
    ensure!((r - deg as i64 * 60000).rem_euclid(360 * 60000) == 0, "turned by {r}, wanted {deg} degrees");
    let a: i64 = at(e.find("lin").unwrap(), "ang").parse().unwrap_or(-1);
    ensure!((a - dg as i64 * 60000).rem_euclid(360 * 60000) == 0, "direction {a}, wanted {dg} degrees");
    Ok(())
}

// ---------------------------------------------------------------- links, pictures, media
fn links(c: &mut Ctx) -> Res {
    let h = gen::hyperlink(&mut c.s, 9);
    let rid = format!("rId{}", c.s.usize(99));
    c.note(|| format!("{h:?}"));
    c.nontrivial(true);
    let rel = one(&generate_hyperlink_relationship_xml(&h, &rid))?;
    let a = &h.action;
    let (jump, slide): (Option<&str>, Option<u32>) = match a {
        HyperlinkAction::FirstSlide => (Some("firstslide"), None),
        HyperlinkAction::LastSlide => (Some("lastslide"), None),
        HyperlinkAction::NextSlide => (Some("nextslide"), None),
        HyperlinkAction::PreviousSlide => (Some("previousslide"), None),
        HyperlinkAction::EndShow => (Some("endshow"), None),
        HyperlinkAction::Slide(n) => (None, Some(*n)),
        _ => (None, None),
    };
    for x in [generate_text_hyperlink_xml(&h, &rid), generate_shape_hyperlink_xml(&h, &rid)] {
        let e = one(&x)?;
        valid(&e)?;
        ensure!(e.name == "hlinkClick", "a link is written as {}", e.canon());
        ensure!(rat(&e, "id") == if jump.is_some() { "" } else { rid.as_str() }, "link {} for {a:?}", e.canon());
        let act = match (jump, slide) {
            (Some(j), _) => format!("ppaction://hlinkshowjump?jump={j}"),
            (_, Some(_)) => "ppaction://hlinksldjump".into(),
            _ => String::new(),
        };
        ensure!(at(&e, "action") == act, "link {} for {a:?}", e.canon());
        ensure!(e.attr("tooltip").map(norm) == h.tooltip.as_ref().map(|t| norm(&clean(t))), "tip {:?}, wanted {:?}", e.attr("tooltip"), h.tooltip);
        ensure!(flag(&e, "highlightClick") == h.highlight_click, "link {} for {h:?}", e.canon());
    }
    ensure!(a.needs_relationship() == jump.is_none(), "{a:?} is wrong about needing a target");
    let ext = jump.is_none() && slide.is_none();
    ensure!(a.is_external() == ext, "{a:?} is wrong about being external");
    if jump.is_none() {
        ensure!(at(&rel, "Id") == rid && (at(&rel, "TargetMode") == "External") == ext, "relationship {}", rel.canon());
        let ty = at(&rel, "Type").rsplit('/').next().unwrap_or("");
        ensure!(ty == if slide.is_some() { "slide" } else { "hyperlink" }, "relationship {}", rel.canon());
        let t = at(&rel, "Target");
        ensure!(t == a.relationship_target(), "target {t:?}, wanted {:?}", a.relationship_target());
        match a {
            HyperlinkAction::Url(u) => ensure!(t == u, "target {t:?}, wanted {u:?}"),
            HyperlinkAction::Slide(n) => ensure!(t == format!("slide{n}.xml"), "target {t:?} for slide {n}"),
            HyperlinkAction::Email { address, subject } => {
                let w = format!("mailto:{address}");
                ensure!(t.starts_with(&w) && t[w.len()..].starts_with('?') == subject.is_some(), "target {t:?} for {a:?}");
            }
            HyperlinkAction::File(p) => ensure!(t.starts_with("file:///") && t.ends_with(p.rsplit('\\').next().unwrap()), "target {t:?} for {p:?}"),
            _ => {}
        }
    }
    Ok(())
}
fn place(e: &El) -> Vec<i64> {
    let mut v = vec![];
    for (n, a) in [("off", ["x", "y"]), ("ext", ["cx", "cy"])] {
        let q = e.find("xfrm").and_then(|x| x.child(n));
        for k in a {
            v.push(q.and_then(|q| q.attr(k)).and_then(|x| x.parse().ok()).unwrap_or(-1));
        }
    }
    v
}
fn pictures(c: &mut Ctx) -> Res {
    c.nontrivial(true);
    let id = 2 + c.s.usize(9999);
    let g = [gen::emu(&mut c.s), gen::emu(&mut c.s), gen::ext(&mut c.s), gen::ext(&mut c.s)];
    let w: Vec<i64> = g.iter().map(|v| *v as i64).collect();
    let alt = c.s.bool().then(|| gen::text0(&mut c.s));
    let named = |e: &El, alt: &Option<String>| -> Res {
        let n = e.find("cNvPr").ok_or_else(|| Fail { msg: "unnamed".into() })?;
        ensure!(at(n, "id") == id.to_string(), "id {:?}, wanted {id}", n.attr("id"));
        if let Some(a) = alt {
            ensure!(norm(at(n, "descr")) == norm(&clean(a)), "description {:?}, wanted {a:?}", n.attr("descr"));
        }
        ensure!(place(e) == w, "placed at {:?}, wanted {w:?}", place(e));
        Ok(())
    };
    match c.s.below(4) {
        0 => {
            let exts = ["mp4", "wmv", "avi", "mov", "mkv", "webm", "m4v", "MP4", "Mov", "txt", "mp3", ""];
            let x = *c.s.pick(&exts);
            let path = format!("{}.{x}", gen::text0(&mut c.s));
            let v = Video::from_file(&path, g[0], g[1], g[2], g[3]);
            let ok = ["mp4", "wmv", "avi", "mov", "mkv", "webm", "m4v"].contains(&x.to_lowercase().as_str());
            c.note(|| format!("video {path:?}"));
            ensure!(v.is_some() == ok, "{path:?} as a video gave {v:?}");
            let Some(mut v) = v else { return Ok(()) };
            ensure!(v.source == path && v.format.extension() == x.to_lowercase() && VideoFormat::from_extension(x) == Some(v.format), "{path:?} became {v:?}");
            if let Some(a) = &alt {
                v = v.with_alt_text(a);
            }
            let e = one(&media::generate_video_xml(&v, id, "rId7", "rId8"))?;
            valid(&e)?;
            named(&e, &alt)?;
            let vf = e.find("videoFile").map(|f| rat(f, "link").to_string());
            ensure!(vf.as_deref() == Some("rId7"), "video {vf:?}, wanted rId7");
            let b = e.find("blip").map(|f| rat(f, "embed").to_string());
            ensure!(b.as_deref() == Some("rId8"), "the picture shown for a video is {b:?}, wanted rId8");
            let ct = one(&media::video_content_type(v.format))?;
            ensure!(at(&ct, "Extension") == x.to_lowercase() && at(&ct, "ContentType").starts_with("video/"), "type {}", ct.canon());
        }
        1 => {
            let exts = ["mp3", "wav", "wma", "m4a", "ogg", "flac", "aac", "WAV", "txt", "mp4", ""];
            let x = *c.s.pick(&exts);
            let path = format!("{}.{x}", gen::text0(&mut c.s));
            let v = Audio::from_file(&path, g[0], g[1], g[2], g[3]);
            let ok = ["mp3", "wav", "wma", "m4a", "ogg", "flac", "aac"].contains(&x.to_lowercase().as_str());
            c.note(|| format!("audio {path:?}"));
            ensure!(v.is_some() == ok, "{path:?} as a sound gave {v:?}");
            let Some(mut v) = v else { return Ok(()) };
            ensure!(v.source == path && v.format.extension() == x.to_lowercase() && AudioFormat::from_extension(x) == Some(v.format), "{path:?} became {v:?}");
            if let Some(a) = &alt {
                v = v.with_alt_text(a);
            }
            let e = one(&media::generate_audio_xml(&v, id, "rId7"))?;
            valid(&e)?;
            named(&e, &alt)?;
            let vf = e.find("audioFile").map(|f| rat(f, "link").to_string());
            ensure!(vf.as_deref() == Some("rId7"), "sound {vf:?}, wanted rId7");
            let ct = one(&media::audio_content_type(v.format))?;
            ensure!(at(&ct, "Extension") == x.to_lowercase() && at(&ct, "ContentType").starts_with("audio/"), "type {}", ct.canon());
        }
        2 => {
            let name = gen::text(&mut c.s);
            let mut im = Image::new(&name, g[2], g[3], "PNG").position(g[0], g[1]);
            if let Some(a) = &alt {
                im = im.with_alt_text(a);
            }
            let eff = [images::ImageEffect::Shadow, images::ImageEffect::Reflection, images::ImageEffect::Glow, images::ImageEffect::SoftEdges, images::ImageEffect::InnerShadow, images::ImageEffect::Blur];
            let tags = ["outerShdw", "reflection", "glow", "softEdge", "innerShdw", "blur"];
            let mut on = BTreeSet::new();
            for _ in 0..c.s.len(0, 4) {
                let i = c.s.usize(6);
                on.insert(tags[i]);
                im = im.with_effect(eff[i].clone());
            }
            let mut crop = [0.0; 4];
            if c.s.bool() {
                crop = [c.s.usize(50) as f64 / 100.0, c.s.usize(50) as f64 / 100.0, c.s.usize(50) as f64 / 100.0, c.s.usize(50) as f64 / 100.0];
                im = im.with_crop(crop[0], crop[1], crop[2], crop[3]);
            }
            c.note(|| format!("{im:?}"));
            let rid = 1 + c.s.usize(99);
            let e = one(&generate_image_xml(&im, id, rid))?;
            valid(&e)?;
            named(&e, &alt)?;
            ensure!(e.find("blip").is_some_and(|b| rat(b, "embed") == format!("rId{rid}")), "picture {}", e.canon());
            let got: BTreeSet<&str> = e.find("effectLst").map(|l| l.els().map(|x| x.name.as_str()).collect()).unwrap_or_default();
            ensure!(got == on, "effects {got:?}, wanted {on:?}");
            let sr = e.find("srcRect");
            for (k, v) in ["l", "t", "r", "b"].iter().zip(crop) {
                let g: i64 = sr.and_then(|s| s.attr(k)).map(|x| x.parse().unwrap_or(-1)).unwrap_or(0);
                ensure!(g == (v * 100_000.0_f64).round() as i64, "crop {k} is {g}, wanted {v}");
            }
            let p = gen::text(&mut c.s);
            let r = one(&generate_image_relationship(rid, &p))?;
            ensure!(at(&r, "Id") == format!("rId{rid}") && norm(at(&r, "Target")) == norm(&clean(&p)) && at(&r, "Type").ends_with("/image"), "relationship {}", r.canon());
            let x = *c.s.pick(&["png", "PNG", "jpg", "jpeg", "gif", "bmp", "tiff", "svg", "Jpg"]);
            let t = one(&generate_image_content_type(x))?;
            ensure!(at(&t, "Extension") == x.to_lowercase() && at(&t, "ContentType").starts_with("image/"), "type {}", t.canon());
        }
        _ => {
            // connectors keep their ends
            let (x1, y1, x2, y2) = (gen::emu(&mut c.s), gen::emu(&mut c.s), gen::emu(&mut c.s), gen::emu(&mut c.s));
            let col = gen::color(&mut c.s);
            let width = c.s.range(0, 20_116_800) as u32;
            c.note(|| format!("connector {x1},{y1} to {x2},{y2}"));
            let simple = c.s.bool();
            let k = Connector::straight(x1, y1, x2, y2).with_color(&col).with_width(width).with_end_arrow(ArrowType::Triangle);
            let x = if simple { generate_connector_xml(x1, y1, x2, y2, id as u32, &col, width) } else { connectors::generate_connector_xml(&k, id) };
            let e = one(&x)?;
            valid(&e)?;
            let p = place(&e);
            let f = e.find("xfrm").unwrap();
            let (fh, fv) = (flag(f, "flipH"), flag(f, "flipV"));
            let ends = |o: i64, l: i64, f: bool| if f { (o + l, o) } else { (o, o + l) };
            let (gx, gy) = (ends(p[0], p[2], fh), ends(p[1], p[3], fv));
            ensure!(gx == (x1 as i64, x2 as i64) && gy == (y1 as i64, y2 as i64), "the arrow runs from {},{} to {},{}", gx.0, gy.0, gx.1, gy.1);
            let ln = e.find("ln").unwrap();
            ensure!(at(ln, "w") == width.to_string() && ln.find("srgbClr").is_some_and(|c| at(c, "val") == col.trim_start_matches('#').to_uppercase()), "line {}", ln.canon());
            ensure!(ln.child("tailEnd").is_some_and(|t| at(t, "type") == "triangle") && ln.child("headEnd").is_none_or(|t| at(t, "type") == "none"), "line {}", ln.canon());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- slides of the layout module
fn slides(c: &mut Ctx) -> Res {
    use ppt_rs::generator::layouts::create_slide_xml_for_layout;
    let o = gen::SlideOpts { txt: gen::text0, slides: 1, rich: false, ink: false, notes: false, links: false, imgs: vec![] };
    let mut sl = gen::slide(&mut c.s, &o);
    if c.s.chance(30) {
        sl = sl.table(gen::table(&mut c.s, gen::text0));
    }
    for _ in 0..c.s.len(0, 12) {
        sl = sl.add_shape(gen::shape(&mut c.s, gen::text0));
    }
    if c.s.chance(40) {
        for _ in 0..c.s.len(0, 3) {
            let n = gen::text(&mut c.s);
            sl = sl.add_image(Image::new(&n, 100, 100, "PNG"));
        }
    }
    if c.s.chance(20) {
        // texts without bullets of their own
        sl.bullets.clear();
    }
    c.note(|| format!("{sl:#?}"));
    c.nontrivial(sl.content.len() > 1);
    let x = guard(|| create_slide_xml_for_layout(&sl))?;
    let e = xml::parse(&x).map_err(|m| Fail { msg: format!("not well-formed: {m}") })?;
    valid(&e)?;
    schema::check_ids(&e, "slide").map_err(|msg| Fail { msg })?;
    if sl.layout == SlideLayout::Blank {
        return Ok(());
    }
    let sps = e.all("sp");
    let kind = |e: &El| e.find("ph").map(|p| at(p, "type").to_string());
    let t: Vec<&&El> = sps.iter().filter(|s| matches!(kind(s).as_deref(), Some("title" | "ctrTitle"))).collect();
    ensure!(t.len() == 1, "{} titles", t.len());
    let txt = |e: &El| e.all("t").iter().map(|t| norm(&t.text())).collect::<Vec<_>>();
    ensure!(txt(t[0]) == [norm(&clean(&sl.title))], "title {:?}, wanted {:?}", txt(t[0]), sl.title);
    let rp = t[0].find("rPr").unwrap();
    if let Some(z) = sl.title_size {
        ensure!(at(rp, "sz") == (z * 100).to_string(), "title size {:?}, wanted {z} points", rp.attr("sz"));
    }
    ensure!(flag(rp, "b") == sl.title_bold && flag(rp, "i") == sl.title_italic && (rp.attr("u").is_some()) == sl.title_underline, "title {}", rp.canon());
    let body: Vec<&&El> = sps.iter().filter(|s| kind(s).as_deref() == Some("body")).collect();
    let shows = match sl.layout {
        SlideLayout::TitleAndContent => sl.table.is_none(),
        SlideLayout::TitleAndBigContent | SlideLayout::TwoColumn => true,
        _ => false,
    };
    if let Some(k) = &sl.title_color {
        ensure!(rp.find("srgbClr").is_some_and(|x| at(x, "val") == k.trim_start_matches('#').to_uppercase()), "title {}, wanted colour {k}", rp.canon());
    }
    if sl.layout == SlideLayout::TitleAndContent {
        // shapes, then the places of the pictures
        let rest: Vec<&&El> = sps.iter().filter(|s| kind(s).is_none()).collect();
        ensure!(rest.len() == sl.shapes.len() + sl.images.len(), "{} shapes, wanted {} and {} pictures", rest.len(), sl.shapes.len(), sl.images.len());
        for (e, w) in rest.iter().zip(&sl.shapes) {
            let (g, k) = (e.all("t").iter().map(|t| t.text()).collect::<String>(), w.text.clone().unwrap_or_default());
            let flat = |t: &str| clean(t).chars().filter(|c| !['\n', '\r', '\u{b}'].contains(c)).collect::<String>();
            ensure!(flat(&g) == flat(&k), "shape shows {g:?}, wanted {k:?}");
            ensure!(place(e) == [w.x as i64, w.y as i64, w.width as i64, w.height as i64], "shape at {:?}, wanted {w:?}", place(e));
        }
        for (e, w) in rest[sl.shapes.len()..].iter().zip(&sl.images) {
            ensure!(txt(e).iter().any(|t| t.contains(&norm(&clean(&w.filename)))), "picture {:?} shown as {:?}", w.filename, txt(e));
            ensure!(place(e) == [w.x as i64, w.y as i64, w.width as i64, w.height as i64], "picture at {:?}, wanted {w:?}", place(e));
        }
    }
    if shows {
        let got: Vec<String> = body.iter().flat_map(|b| txt(b)).collect();
        let all: Vec<BulletPoint> = if sl.bullets.is_empty() { sl.content.iter().map(|t| BulletPoint::new(t).with_style(sl.bullet_style)).collect() } else { sl.bullets.clone() };
        let want: Vec<String> = all.iter().map(|b| norm(&clean(&b.text))).collect();
        ensure!(got == want, "bullets {got:?}, wanted {want:?}");
        for b in &body {
            for r in b.all("rPr") {
                if let Some(z) = sl.content_size {
                    ensure!(at(r, "sz") == (z * 100).to_string(), "text size {:?}, wanted {z} points", r.attr("sz"));
                }
                ensure!(flag(r, "b") == sl.content_bold && flag(r, "i") == sl.content_italic && r.attr("u").is_some_and(|u| u != "none") == sl.content_underline, "text {}", r.canon());
                if let Some(k) = &sl.content_color {
                    ensure!(r.find("srgbClr").is_some_and(|x| at(x, "val") == k.trim_start_matches('#').to_uppercase()), "text {}, wanted colour {k}", r.canon());
                }
            }
        }
        let pp: Vec<&El> = body.iter().flat_map(|b| b.all("pPr")).collect();
        let lv: Vec<String> = pp.iter().map(|p| at(p, "lvl").to_string()).collect();
        let want: Vec<String> = all.iter().map(|b| b.level.to_string()).collect();
        ensure!(lv == want, "levels {lv:?}, wanted {want:?}");
        let dent: Vec<(u32, i64, i64)> = pp.iter().zip(&all).map(|(p, b)| (b.level, at(p, "marL").parse().unwrap_or(-1), at(p, "indent").parse().unwrap_or(0))).collect();
        for (p, b) in pp.iter().zip(&all) {
            ensure!(super::deck_p::bullet_xml_ok(Some(p), &b.style), "bullet {:?} is written {}", b.style, p.canon());
        }
        for a in &dent {
            ensure!(a.1 >= 0 && a.1 + a.2 >= 0, "the bullet of level {} starts at {}, its text at {}", a.0, a.1 + a.2, a.1);
            for b in &dent {
                ensure!(a.0 != b.0 || a == b, "two indents for level {}", a.0);
                ensure!(a.0 >= b.0 || (a.1 < b.1 && a.1 + a.2 <= b.1 + b.2), "level {} is indented {}, level {} {}", a.0, a.1, b.0, b.1);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- ready-made values
fn named(c: &mut Ctx) -> Res {
    use ppt_rs::generator::slide_content::{EmbeddedFontList, EmbeddedFont, FontStyle, InkPen, InkStroke, PenColor, PrintSettings, HandoutLayout, PrintColorMode, PrintWhat, ShowType, SlideShowSettings};
    c.nontrivial(true);
    let s = &mut c.s;
    match s.below(9) {
        0 => {
            // a chart of each kind is drawn by the element the kind names
            let ch = gen::chart(s, gen::text);
            let k = ch.chart_type;
            c.note(|| format!("{k:?}"));
            let x = guard(|| generate_chart_part_xml(&ch))?;
            let e = xml::parse(&x).map_err(|m| Fail { msg: format!("not well-formed: {m}") })?;
            let n = k.xml_element().trim_start_matches("c:");
            ensure!(e.find("plotArea").is_some_and(|a| a.child(n).is_some()), "{k:?} is drawn by {:?}, not by {n}", e.find("plotArea").map(|a| a.els().map(|x| x.name.clone()).collect::<Vec<_>>()));
            let same = gen::CHARTS.iter().filter(|o| o.as_str() == k.as_str()).count();
            ensure!(same == 1, "{same} kinds are called {:?}", k.as_str());
        }
        1 => {
            let k = *s.pick(gen::SHAPES);
            c.note(|| format!("{k:?}"));
            let same: Vec<_> = gen::SHAPES.iter().filter(|o| o.display_name() == k.display_name()).collect();
            ensure!(same.len() == 1 && !k.display_name().is_empty(), "{same:?} are called {:?}", k.display_name());
            // the name is the kind's, in words
            let letters = |t: &str| {
                let mut v: Vec<char> = t.to_lowercase().chars().filter(|c| c.is_alphanumeric()).collect();
                v.sort();
                v
            };
            let (a, b) = (letters(k.display_name()), letters(&format!("{k:?}")));
            let shared = a.iter().filter(|c| b.contains(c)).count();
            ensure!(shared * 2 >= a.len(), "{k:?} is called {:?}", k.display_name());
        }
        2 => {
            let all: [(&str, fn() -> GradientFill, usize); 10] = [
                ("blue", PresetGradients::blue, 2), ("green", PresetGradients::green, 2), ("red", PresetGradients::red, 2), ("orange", PresetGradients::orange, 2), ("purple", PresetGradients::purple, 2),
                ("gray", PresetGradients::gray, 2), ("sunrise", PresetGradients::sunrise, 3), ("ocean", PresetGradients::ocean, 3), ("forest", PresetGradients::forest, 3), ("rainbow", PresetGradients::rainbow, 7),
            ];
            let (n, f, k) = *s.pick(&all);
            c.note(|| n.to_string());
            let g = f();
            let e = one(&guard(|| generate_gradient_fill_xml(&g))?)?;
            valid(&e)?;
            let st: Vec<(i64, [u8; 3])> = e.all("gs").iter().map(|g| {
                let v = g.find("srgbClr").map(|c| at(c, "val").to_string()).unwrap_or_default();
                let p = |i: usize| v.get(i..i + 2).and_then(|h| u8::from_str_radix(h, 16).ok()).unwrap_or(0);
                (at(g, "pos").parse().unwrap_or(-1), [p(0), p(2), p(4)])
            }).collect();
            ensure!(st.len() == k && st[0].0 == 0 && st[k - 1].0 == 100_000 && st.windows(2).all(|w| w[0].0 < w[1].0), "the stops of {n} are {st:?}");
            let main = |c: &[u8; 3]| { let [r, g, b] = *c; if r == g && g == b { "gray" } else if r >= g && r >= b { if g == 0 && b == 0 { "red" } else if g > b { "orange" } else { "purple" } } else if g >= b { "green" } else if r > g { "purple" } else { "blue" } };
            if k == 2 {
                ensure!(st.iter().all(|x| main(&x.1) == n), "{n} goes through {st:?}");
                ensure!(st[0].1.iter().map(|v| *v as u32).sum::<u32>() > st[1].1.iter().map(|v| *v as u32).sum::<u32>(), "{n} does not grow darker: {st:?}");
            }
            if k == 7 {
                let mut d: Vec<[u8; 3]> = st.iter().map(|x| x.1).collect();
                d.sort();
                d.dedup();
                ensure!(d.len() == 7, "colours twice in the {n}: {st:?}");
            }
        }
        3 => {
            // scaling keeps the proportions
            let (w, h) = (s.range(1, 20_000_000) as u32, s.range(1, 20_000_000) as u32);
            let k = s.range(1, 20_000_000) as u32;
            let by_width = s.bool();
            let built = s.bool();
            let im = if built {
                let b = ImageBuilder::new("a.png", w, h);
                if by_width { b.scale_to_width(k) } else { b.scale_to_height(k) }.build()
            } else {
                let i = Image::new("a.png", w, h, "PNG");
                ensure!((i.aspect_ratio() - w as f64 / h as f64).abs() < 1e-9, "proportion {}", i.aspect_ratio());
                if by_width { i.scale_to_width(k) } else { i.scale_to_height(k) }
            };
            c.note(|| format!("{w}x{h} to {k}, by width {by_width}"));
            let (a, b, other) = if by_width { (im.width, im.height, k as f64 * h as f64 / w as f64) } else { (im.height, im.width, k as f64 * w as f64 / h as f64) };
            ensure!(a == k && (b as f64 - other.min(u32::MAX as f64)).abs() <= 1.0, "{w}x{h} became {}x{}, wanted {k} and {other}", im.width, im.height);
        }
        4 => {
            // the bytes of a picture, however they are given
            let data = s.blob(0, 90);
            let (f, mime) = *s.pick(&[("PNG", "image/png"), ("JPEG", "image/jpeg"), ("JPG", "image/jpeg"), ("GIF", "image/gif"), ("BMP", "image/bmp"), ("TIFF", "image/tiff"), ("SVG", "image/svg+xml")]);
            let f = if s.bool() { f.to_lowercase() } else { f.to_string() };
            let path = c.file("pic.bin");
            let how = c.s.below(5);
            let b64 = {
                const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
                let mut o = String::new();
                for ch in data.chunks(3) {
                    let n = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
                    for k in 0..4 {
                        o.push(if k <= ch.len() { A[(n >> (18 - 6 * k)) as usize & 63] as char } else { '=' });
                    }
                }
                o
            };
            let im = match how {
                0 => Image::from_bytes(data.clone(), 5, 6, &f),
                1 => Image::from_base64(&b64, 5, 6, &f),
                2 => ImageBuilder::from_bytes(data.clone(), 5, 6, &f).build(),
                3 => ImageBuilder::from_base64(&b64, 5, 6, &f).build(),
                _ => {
                    std::fs::write(&path, &data).map_err(|x| Fail { msg: format!("harness: {x}") })?;
                    Image::new(&path.to_string_lossy(), 5, 6, &f)
                }
            };
            c.note(|| format!("{} bytes as {f}, way {how}", data.len()));
            let got = im.get_bytes();
            ensure!(got.as_ref() == Some(&data), "the picture holds {got:?}, wanted {data:?}");
            ensure!(im.mime_type() == mime && (im.width, im.height) == (5, 6), "{f} is {:?}, {}x{}", im.mime_type(), im.width, im.height);
        }
        5 => {
            // print settings
            let mut p = PrintSettings::new();
            let (w, ws) = *s.pick(&[(PrintWhat::Slides, "slides"), (PrintWhat::Notes, "notes"), (PrintWhat::Outline, "outline")]);
            let (m, ms) = *s.pick(&[(PrintColorMode::Color, "clr"), (PrintColorMode::Grayscale, "gray"), (PrintColorMode::BlackAndWhite, "bw")]);
            let b = [s.bool(), s.bool(), s.bool()];
            let (l, n) = *s.pick(&[(HandoutLayout::SlidesPerPage1, 1), (HandoutLayout::SlidesPerPage2, 2), (HandoutLayout::SlidesPerPage3, 3), (HandoutLayout::SlidesPerPage4, 4), (HandoutLayout::SlidesPerPage6, 6), (HandoutLayout::SlidesPerPage9, 9)]);
            p = p.print_what(w).color_mode(m).frame_slides(b[0]).include_hidden_slides(b[1]).scale_to_fit(b[2]).handout_layout(l);
            c.note(|| format!("{p:?}"));
            ensure!(l.slides_per_page() == n && l.to_xml_value() == format!("handout{n}"), "{l:?} is {} {}", l.slides_per_page(), l.to_xml_value());
            let e = one(&p.to_prnpr_xml())?;
            ensure!(at(&e, "prnWhat") == ws && at(&e, "clrMode") == ms, "printing {}, wanted {ws} {ms}", e.canon());
            ensure!(flag(&e, "frameSlides") == b[0] && flag(&e, "hiddenSlides") == b[1] && flag(&e, "scaleToFitPaper") == b[2], "printing {}, wanted {b:?}", e.canon());
            // handout master: its placeholders hold the given texts
            let (h, f) = (s_opt(&mut c.s), s_opt(&mut c.s));
            let (d, g) = (c.s.bool(), c.s.bool());
            let mut p = p.print_date(d).print_page_numbers(g);
            if let Some(h) = &h {
                p = p.header(h);
            }
            if let Some(f) = &f {
                p = p.footer(f);
            }
            let e = xml::parse(&p.to_handout_master_xml()).map_err(|m| Fail { msg: format!("not well-formed: {m}") })?;
            valid(&e)?;
            schema::check_ids(&e, "handout master").map_err(|msg| Fail { msg })?;
            let ph = |t: &str| e.all("sp").into_iter().find(|s| s.find("ph").is_some_and(|p| at(p, "type") == t)).map(|s| s.all("t").iter().map(|t| norm(&t.text())).collect::<String>());
            ensure!(ph("hdr") == h.as_ref().map(|h| norm(&clean(h))) && ph("ftr") == f.as_ref().map(|h| norm(&clean(h))), "header {:?}, footer {:?}, wanted {h:?} and {f:?}", ph("hdr"), ph("ftr"));
            ensure!(ph("dt").is_some() == d && ph("sldNum").is_some() == g, "date {}, number {}", ph("dt").is_some(), ph("sldNum").is_some());
        }
        6 => {
            // pens
            let (p, col) = match s.below(4) {
                0 => (InkPen::red(), "FF0000"),
                1 => (InkPen::blue(), "0000FF"),
                2 => (InkPen::black(), "000000"),
                _ => (InkPen::highlighter(), "FFFF00"),
            };
            ensure!(p.color == col && p.width > 0 && (p.opacity < 1.0) == (col == "FFFF00"), "{p:?} for {col}");
            let pts: Vec<(f64, f64)> = (0..s.len(0, 6)).map(|_| (s.range(-100, 5000) as f64, s.range(-100, 5000) as f64)).collect();
            let a = InkStroke::new(p.clone()).add_points(&pts);
            let b = pts.iter().fold(InkStroke::new(p), |k, q| k.add_point(q.0, q.1));
            c.note(|| format!("{a:?}"));
            ensure!(a.len() == pts.len() && a.is_empty() == pts.is_empty() && a.to_xml(3) == b.to_xml(3), "points added together and one by one differ: {} and {}", a.to_xml(3), b.to_xml(3));
        }
        7 => {
            let mut l = EmbeddedFontList::new();
            let mut w: Vec<(String, usize)> = vec![];
            for _ in 0..s.len(0, 5) {
                let (f, n) = (s.pick(&["Arial", "A & B", "Arial Black", "arial"]).to_string(), s.usize(40));
                l.add(EmbeddedFont::new(&f, *s.pick(&[FontStyle::Regular, FontStyle::Bold, FontStyle::Italic, FontStyle::BoldItalic]), vec![7; n], ""));
                w.push((f, n));
            }
            c.note(|| format!("{w:?}"));
            ensure!(l.len() == w.len() && l.is_empty() == w.is_empty() && l.total_size() == w.iter().map(|x| x.1).sum::<usize>(), "{} fonts of {} bytes, wanted {w:?}", l.len(), l.total_size());
            for f in ["Arial", "A & B", "arial", "nothing"] {
                let g: Vec<usize> = l.find_by_typeface(f).iter().map(|x| x.data_size()).collect();
                let k: Vec<usize> = w.iter().filter(|x| x.0 == f).map(|x| x.1).collect();
                ensure!(g == k, "fonts called {f:?}: {g:?}, wanted {k:?}");
            }
            let mut set: Vec<u8> = super::settings_p::CHARSETS.iter().map(|c| c.code()).collect();
            ensure!(super::settings_p::CHARSETS.iter().all(|c| c.code() == super::settings_p::charset(*c)), "codes {set:?}");
            set.dedup();
        }
        _ => {
            // a slide says what it has
            let o = gen::SlideOpts { txt: gen::text, slides: 1, rich: true, ink: false, notes: true, links: false, imgs: vec![] };
            let mut sl = gen::slide(s, &o);
            if s.bool() {
                let v = Video::from_file("a.mp4", 1, 1, 2, 2).unwrap();
                sl = if s.bool() { sl.add_video(v) } else { sl.with_videos(vec![v]) };
            }
            if s.bool() {
                let v = Audio::from_file("a.mp3", 1, 1, 2, 2).unwrap();
                sl = if s.bool() { sl.add_audio(v) } else { sl.with_audios(vec![v]) };
            }
            c.note(|| format!("{sl:?}"));
            ensure!(sl.has_notes() == sl.notes.is_some() && sl.has_connectors() != sl.connectors.is_empty() && sl.has_media() == (!sl.videos.is_empty() || !sl.audios.is_empty()), "notes {} connectors {} media {}", sl.has_notes(), sl.has_connectors(), sl.has_media());
            let k = SlideShowSettings::kiosk();
            ensure!(k.show_type == ShowType::Kiosk && k.loop_continuously, "{k:?}");
            for (p, w) in [(PenColor::red(), "FF0000"), (PenColor::blue(), "0000FF"), (PenColor::black(), "000000")] {
                let x = SlideShowSettings::new().pen_color(p).to_xml();
                let e = one(&x)?;
                ensure!(e.find("penClr").and_then(|p| p.find("srgbClr")).is_some_and(|v| at(v, "val") == w), "pen {}", e.canon());
            }
        }
    }
    Ok(())
}
fn s_opt(s: &mut Src) -> Option<String> {
    s.bool().then(|| gen::text0(s))
}
pub fn prop() -> Prop {
    Prop {
        id: "C28",
        rule: "more than one region, section, comment, run or segment; more than two gradient stops; any format set; every link and picture; slides with more than one bullet",
        assumptions: &["colours are six hexadecimal digits, sizes 1 to 4000 points and gradients have two or more stops", "inline marks are balanced, or only the characters other than marks are compared", "the harness' content model is the reference for validity"],
        subs: vec![
            Sub { name: "merge", quick: 20000, run: merge },
            Sub { name: "sections", quick: 20000, run: sections },
            Sub { name: "comments", quick: 20000, run: comments },
            Sub { name: "text", quick: 20000, run: text },
            Sub { name: "formats", quick: 20000, run: formats },
            Sub { name: "markup", quick: 30000, run: markup },
            Sub { name: "fills", quick: 20000, run: fills },
            Sub { name: "links", quick: 10000, run: links },
            Sub { name: "pictures", quick: 20000, run: pictures },
            Sub { name: "slides", quick: 6000, run: slides },
            Sub { name: "named", quick: 12000, run: named },
        ],
        probes: vec![],
    }
}
