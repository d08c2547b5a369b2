//! C10: repair leaves sound packages alone, reports damage, and what it calls valid is.
use super::deck_p::*;
use crate::damage::*;
use crate::engine::*;
use crate::foreign::foreignize;
use crate::gen;
use crate::opc::{self, Pkg};
use ppt_rs::oxml::repair::{PptxRepair, RepairIssue};
use ppt_rs::oxml::PresentationReader;
use std::collections::BTreeSet;

fn er<T>(r: ppt_rs::exc::Result<T>) -> Result<T, Fail> {
    r.map_err(|x| Fail { msg: x.to_string() })
}
fn sorted(v: &[RepairIssue]) -> Vec<String> {
    let mut v: Vec<String> = v.iter().map(|i| format!("{i:?}")).collect();
    v.sort();
    v
}
fn base(c: &mut Ctx) -> Result<(gen::Deck, Pkg, bool), Fail> {
    let rich = c.s.chance(85);
    let mut d = gen::deck(&mut c.s, gen::text0, rich);
    if c.s.chance(40) {
        let n = d.slides.len();
        d.settings = Some(gen::settings(&mut c.s, n));
    }
    let mut p = e(Pkg::read(&build(&d)?))?;
    let foreign = c.s.chance(40);
    if foreign {
        e(foreignize(&mut p, &mut c.s))?;
        c.label("respelled");
    }
    Ok((d, p, foreign))
}
fn sound(c: &mut Ctx) -> Res {
    let (d, p, f) = base(c)?;
    c.note(|| format!("{} slides, respelled {f}", d.slides.len()));
    c.nontrivial(d.slides.len() > 1);
    let b = p.write(c.s.bool());
    let mut r = er(PptxRepair::from_bytes(&b))?;
    let v = r.validate();
    ensure!(v.is_empty(), "sound package: repair reports {v:?}");
    let x = r.repair();
    ensure!(x.is_valid && x.fully_repaired() && x.total_issues() == 0 && x.critical_issues() == 0, "sound package: {x:?}");
    let q = e(Pkg::read(&er(r.to_bytes())?))?;
    ensure!(q.parts == p.parts, "repairing a sound package changes {:?}", changed(&p, &q));
    let path = c.file("r.pptx");
    er(r.save(&path))?;
    let q = e(Pkg::read(&std::fs::read(&path).map_err(|e| Fail { msg: e.to_string() })?))?;
    ensure!(q.parts == p.parts, "saving a sound package changes {:?}", changed(&p, &q));
    let mut r = er(PptxRepair::open(&path))?;
    ensure!(r.validate().is_empty(), "reopened sound package has issues");
    Ok(())
}
pub fn changed(a: &Pkg, b: &Pkg) -> Vec<String> {
    let mut v: Vec<String> = a.parts.keys().chain(b.parts.keys()).filter(|k| a.parts.get(*k) != b.parts.get(*k)).cloned().collect();
    v.dedup();
    v
}
/// Whether the issue is the one this damage calls for.
fn reports(d: &Damage, i: &RepairIssue) -> bool {
    match (&d.kind, i) {
        (Kind::Gone, RepairIssue::MissingPart { path, .. }) => *path == d.part,
        (Kind::Gone, RepairIssue::BrokenRelationship { target, .. }) => *target == d.part,
        (Kind::Gone, RepairIssue::OrphanSlide { slide_path }) => *slide_path == d.part,
        (Kind::Malformed(_), RepairIssue::InvalidXml { path, .. }) => *path == d.part,
        (Kind::Unlisted, RepairIssue::MissingSlideReference { slide_path }) => *slide_path == d.part,
        (Kind::ExtraRel, RepairIssue::BrokenRelationship { source, .. }) => *source == d.part,
        (Kind::NoType, RepairIssue::InvalidContentType { path }) => *path == d.part,
        _ => false,
    }
}
fn damaged(c: &mut Ctx) -> Res {
    let (_, o, foreign) = base(c)?;
    let order = e(o.slide_paths())?;
    let ct0 = e(opc::content_types(&o))?;
    let mut p = Pkg { parts: o.parts.clone(), order: o.order.clone() };
    let mut ds: Vec<Damage> = vec![];
    for _ in 0..c.s.len(1, 2) {
        if let Some(d) = inflict(&mut p, &mut c.s, &[0, 0, 1, 1, 2, 2, 5, 5, 6, 7]) {
            ds.push(d);
        }
    }
    if ds.is_empty() {
        return Ok(());
    }
    c.note(|| ds.iter().map(|d| d.what.clone()).collect::<Vec<_>>().join("; "));
    for d in &ds {
        c.label(format!("{:?}", d.kind));
    }
    c.nontrivial(true);
    let b = p.write(c.s.bool());
    let mut r = er(PptxRepair::from_bytes(&b))?;
    let found = r.validate();
    // a second damage can hide the traces of the first (a missing part that only the malformed part names)
    if ds.len() == 1 || ds.iter().all(|d| !matches!(d.kind, Kind::Malformed(_)) && !d.part.starts_with('[') && !d.part.ends_with(".rels")) {
        for d in &ds {
            let reached = d.kind != Kind::Gone || p.parts.keys().filter(|n| n.ends_with(".rels")).any(|n| p.rels(&opc::rels_source(n)).is_ok_and(|v| v.iter().any(|r| !r.external && opc::resolve(&opc::rels_source(n), &r.target) == d.part)));
            let needed = ["[Content_Types].xml", "_rels/.rels", "ppt/presentation.xml", "ppt/_rels/presentation.xml.rels"].contains(&d.part.as_str());
            if (reached || needed) && (d.kind == Kind::Gone || p.parts.contains_key(&d.part)) {
                ensure!(found.iter().any(|i| reports(d, i)), "{}: not reported, only {found:?}", d.what);
            }
        }
    }
    let q = e(Pkg::read(&er(r.to_bytes())?))?;
    ensure!(q.parts == p.parts, "validate changes parts {:?}", changed(&p, &q));
    let x = guard(|| r.repair())?;
    ensure!(sorted(&x.issues_found) == sorted(&found), "repair found {:?}, validate {found:?}", x.issues_found);
    let both: Vec<RepairIssue> = x.issues_repaired.iter().chain(&x.issues_unrepaired).cloned().collect();
    ensure!(sorted(&both) == sorted(&found), "repaired {:?} and unrepaired {:?} are not together what was found", x.issues_repaired, x.issues_unrepaired);
    ensure!(x.total_issues() == found.len() && x.fully_repaired() == x.issues_unrepaired.is_empty(), "counts");
    ensure!(x.critical_issues() == found.iter().filter(|i| i.severity() == 3).count(), "critical count");
    let out = er(r.to_bytes())?;
    let q = e(Pkg::read(&out))?;
    let mut again = er(PptxRepair::from_bytes(&out))?;
    let left = again.validate();
    ensure!(left.is_empty() == x.is_valid, "is_valid is {}, reopened package has {left:?}", x.is_valid);
    for i in &x.issues_repaired {
        ensure!(!left.contains(i), "{i:?} counted as repaired is still there");
    }
    // nothing but the damaged parts and the package's lists may change
    let touched: BTreeSet<String> = ds.iter().flat_map(|d| d.touched.clone()).collect();
    for n in p.parts.keys() {
        ensure!(q.parts.contains_key(n), "{n} is gone after the repair");
        let list = n.ends_with(".rels") || n == "[Content_Types].xml" || n == "ppt/presentation.xml";
        ensure!(list || touched.contains(n) || q.parts[n] == p.parts[n], "{n} changed by the repair");
        if list && !x.issues_found.is_empty() && n.ends_with(".rels") && n != "ppt/_rels/presentation.xml.rels" && !touched.contains(n) {
            // only broken relationships leave
            if let (Ok(a), Ok(z)) = (p.rels(&opc::rels_source(n)), q.rels(&opc::rels_source(n))) {
                for r in &a {
                    let t = opc::resolve(&opc::rels_source(n), &r.target);
                    let kept = z.iter().any(|k| k.id == r.id && k.typ == r.typ && k.target == r.target && k.external == r.external);
                    ensure!(kept || (!r.external && !p.parts.contains_key(&t)), "{n}: relationship {r:?} lost");
                }
                ensure!(z.len() <= a.len(), "{n}: relationships added");
            }
        }
    }
    for n in q.parts.keys() {
        ensure!(p.parts.contains_key(n) || touched.contains(n), "repair added {n}");
    }
    if !x.is_valid {
        c.label("not repaired");
        return Ok(());
    }
    c.label("repaired");
    // a second repair has nothing to do
    let y = again.repair();
    ensure!(y.is_valid && y.total_issues() == 0, "second repair: {y:?}");
    ensure!(e(Pkg::read(&er(again.to_bytes())?))?.parts == q.parts, "second repair changes parts");
    // content types are what they were
    let ct = e(opc::content_types(&q))?;
    for n in q.parts.keys().filter(|n| *n != "[Content_Types].xml") {
        let want = ct0.of(n).filter(|_| o.parts.contains_key(n)).or(if n.contains("/slides/slide") { Some("application/vnd.openxmlformats-officedocument.presentationml.slide+xml") } else { None });
        // a type that was lost is given back by name and extension
        ensure!(ct.of(n) == want || want.is_none(), "{n}: content type {:?}, was {want:?}", ct.of(n));
    }
    // the slides are those that are there, in their order
    let gone = |n: &str| !q.parts.contains_key(n);
    let mut want: Vec<String> = order.iter().filter(|n| !gone(n)).cloned().collect();
    let added: Vec<String> = ds.iter().filter(|d| d.kind == Kind::Unlisted).map(|d| d.part.clone()).collect();
    let lists = ["ppt/presentation.xml", "ppt/_rels/presentation.xml.rels"];
    let lost = ds.iter().any(|d| d.kind == Kind::Gone && lists.contains(&d.part.as_str()));
    let got = e(q.slide_paths())?;
    for a in &added {
        if !want.contains(a) && !gone(a) {
            want.push(a.clone());
        }
    }
    if lost && (foreign || added.len() > 1) || added.len() > 1 {
        // the order is gone with the part
        let s: BTreeSet<&String> = got.iter().collect();
        ensure!(s.len() == got.len() && s == want.iter().collect(), "slides {got:?}, expected in some order {want:?}");
    } else {
        ensure!(got == want, "slides {got:?}, expected {want:?}");
    }
    let path = c.file("r.pptx");
    er(r.save(&path))?;
    let rd = PresentationReader::open(path.to_str().unwrap()).map_err(|e| Fail { msg: format!("repaired package cannot be opened: {e}") })?;
    ensure!(rd.slide_count() == got.len(), "reader sees {} of {} slides", rd.slide_count(), got.len());
    // removing a relationship leaves what referred to it (recorded finding), so full checks only where nothing did
    let refless = ds.iter().all(|d| match d.kind {
        Kind::Gone => ["[Content_Types].xml", "_rels/.rels"].contains(&d.part.as_str()),
        Kind::Malformed(_) | Kind::Unlisted | Kind::ExtraRel | Kind::NoType => true,
        _ => false,
    });
    let links = order.iter().any(|s| q.related(s, "slide").is_ok_and(|v| !v.is_empty()));
    if refless && !links {
        c.label("fully checked");
        e(opc::check_pkg(&q).map_err(|m| format!("{m} after repairing {}", ds.iter().map(|d| d.what.clone()).collect::<Vec<_>>().join("; "))))?;
    }
    Ok(())
}
fn probe() -> Res {
    use ppt_rs::generator::*;
    let b = create_pptx_with_content("t", vec![SlideContent::new("a").add_chart(Chart::new("c", ChartType::Bar, vec!["x".into()], 0, 0, 1000, 1000).add_series(ChartSeries::new("s", vec![1.0])))]).map_err(|e| Fail { msg: e.to_string() })?;
    let mut p = e(Pkg::read(&b))?;
    p.parts.remove("ppt/charts/chart1.xml");
    p.parts.remove("ppt/charts/_rels/chart1.xml.rels");
    let mut r = er(PptxRepair::from_bytes(&p.write(true)))?;
    let x = r.repair();
    let q = e(Pkg::read(&er(r.to_bytes())?))?;
    let sl = e(q.slide_paths())?;
    let ids: Vec<String> = e(q.rels(&sl[0]))?.into_iter().map(|r| r.id).collect();
    for i in refs(&q, &sl[0]) {
        ensure!(!x.is_valid || ids.contains(&i), "repaired package called valid, but a slide refers to relationship {i} that the repair removed");
    }
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "more than one slide, or damage applied",
        assumptions: &["damage is of the kinds listed in DESIGN.md", "references left behind by a removed relationship are a recorded finding and not judged"],
        subs: vec![Sub { name: "sound", quick: 500, run: sound }, Sub { name: "damaged", quick: 2500, run: damaged }],
        probes: vec![Probe { key: "repair-dangling-reference", run: probe }],
    }
}
