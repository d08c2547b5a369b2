//! C09: the package validator is quiet on what the library writes and reports injected damage.
use super::deck_p::*;
use crate::damage::*;
use crate::engine::*;
use crate::gen;
use crate::opc::Pkg;
use ppt_rs::core::validate_package_bytes;
use ppt_rs::generator::*;

fn sound(what: &str, b: &[u8]) -> Res {
    let r = guard(|| validate_package_bytes(b))?;
    ensure!(r.is_valid() && r.error_count() == 0 && r.issues.is_empty() && r.error_messages().is_empty(), "{what}: validator reports {:?}", r.issues);
    Ok(())
}
fn deck(c: &mut Ctx) -> Result<(gen::Deck, Vec<u8>), Fail> {
    let rich = c.s.chance(85);
    let mut d = gen::deck(&mut c.s, gen::text0, rich);
    if c.s.chance(50) {
        let n = d.slides.len();
        d.settings = Some(gen::settings(&mut c.s, n));
    }
    let b = build(&d)?;
    Ok((d, b))
}
fn clean(c: &mut Ctx) -> Res {
    if c.s.chance(15) {
        let n = c.s.len(0, 30);
        let t = gen::text0(&mut c.s);
        c.note(|| format!("create_pptx {n}"));
        c.nontrivial(n > 1);
        let b = create_pptx(&t, n).map_err(|e| Fail { msg: e.to_string() })?;
        return sound("create_pptx", &b);
    }
    let (d, b) = deck(c)?;
    c.nontrivial(d.slides.len() > 1 || d.settings.is_some());
    c.note(|| format!("{} slides, settings {}", d.slides.len(), d.settings.is_some()));
    sound("generated deck", &b)?;
    // the same parts in any archive order and compression
    let mut p = e(Pkg::read(&b))?;
    crate::foreign::shuffle(&mut c.s, &mut p.order);
    let z = c.s.bool();
    sound("reordered archive", &p.write(z))
}
fn damaged(c: &mut Ctx) -> Res {
    let (_, b) = deck(c)?;
    let mut p = e(Pkg::read(&b))?;
    let mode = c.s.below(10);
    if mode == 0 {
        // archive cut short
        let n = c.s.usize(b.len());
        c.note(|| format!("cut to {n} of {}", b.len()));
        c.label("cut");
        c.nontrivial(true);
        let r = guard(|| validate_package_bytes(&b[..n]))?;
        ensure!(!r.is_valid(), "archive cut to {n} of {} bytes passes", b.len());
        return Ok(());
    }
    if mode == 1 {
        // one byte of a stored part changed without its checksum
        let names: Vec<String> = p.parts.iter().filter(|x| !x.1.is_empty()).map(|x| x.0.clone()).collect();
        let n = c.s.pick(&names).clone();
        let mut w = p.write(false);
        let data = &p.parts[&n];
        let at = e(crate::opc::data_offset(&w, &n))?;
        let i = c.s.usize(data.len());
        ensure!(w[at + i] == data[i], "harness: data offset");
        w[at + i] ^= 1 << c.s.below(8);
        c.note(|| format!("bit of {n} at {i}"));
        c.label("bit");
        c.nontrivial(true);
        let r = guard(|| validate_package_bytes(&w))?;
        ensure!(r.issues.iter().any(|x| x.path.as_deref() == Some(&n) || x.message.contains(&n)), "changed byte {i} of {n} not reported: {:?}", r.issues);
        ensure!(!r.is_valid(), "changed byte of {n}: valid");
        return Ok(());
    }
    let Some(d) = inflict(&mut p, &mut c.s, &[0, 0, 0, 1, 2, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 10, 10]) else {
        return Ok(());
    };
    c.note(|| d.what.clone());
    c.label(format!("{:?}", d.kind));
    c.nontrivial(true);
    // what a relationship removed from a layout, master or chart leaves behind is outside the validator's rules
    if d.kind == Kind::Dangling && !(d.part.starts_with("ppt/slides/") || d.part == "ppt/presentation.xml" || d.part == "ppt/slideMasters/slideMaster1.xml") {
        return Ok(());
    }
    if d.kind == Kind::Dangling && d.part == "ppt/presentation.xml" {
        // only the slide list is checked
        let left: Vec<String> = e(p.rels(&d.part))?.into_iter().map(|r| r.id).collect();
        let x = e(p.xml(&d.part))?;
        let lost = x.all("sldId").iter().filter_map(|s| s.attr_ns(crate::opc::R_NS, "id")).any(|i| !left.iter().any(|l| l == i));
        if !lost {
            return Ok(());
        }
    }
    if d.kind == Kind::Dangling && d.part.starts_with("ppt/slides/") && d.what.contains("removed") {
        c.label("slide relationship removed");
    }
    let z = c.s.bool();
    let r = guard(|| validate_package_bytes(&p.write(z)))?;
    ensure!(!r.is_valid() && r.error_count() > 0, "{}: passes as valid", d.what);
    ensure!(r.error_messages().len() == r.error_count(), "error_messages has {} entries for {} errors", r.error_messages().len(), r.error_count());
    let named = r.issues.iter().any(|x| x.path.as_deref() == Some(&d.part) || x.message.contains(&d.part)) || (d.kind == Kind::Unlisted && r.issues.iter().any(|x| x.path.as_deref() == Some("ppt/presentation.xml")));
    ensure!(named, "{}: no issue names {}: {:?}", d.what, d.part, r.issues);
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "more than one slide or settings given, or damage applied",
        assumptions: &["damage is of the kinds listed in DESIGN.md; a part whose only fault is a less specific content type counts as valid"],
        subs: vec![Sub { name: "clean", quick: 900, run: clean }, Sub { name: "damaged", quick: 2500, run: damaged }],
        probes: vec![],
    }
}
