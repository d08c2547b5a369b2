//! C08: no input makes a reader panic, hang or exhaust memory; what it accepts it can serve.
use super::deck_p::*;
use crate::engine::*;
use crate::foreign::*;
use crate::gen;
use crate::opc::Pkg;
use ppt_rs::core::validate_package_bytes;
use ppt_rs::generator::SlideContent;
use ppt_rs::import::import_pptx;
use ppt_rs::opc::compress::{analyze_pptx, compress_pptx_in_memory, CompressionOptions};
use ppt_rs::opc::Package;
use ppt_rs::oxml::repair::PptxRepair;
use ppt_rs::oxml::{PresentationEditor, PresentationReader, SlideParser, XmlParser};
use std::io::Cursor;

/// Every way of opening these bytes.
fn all_readers(c: &mut Ctx, b: &[u8]) -> Result<bool, Fail> {
    let f = c.file("m.pptx");
    std::fs::write(&f, b).map_err(|e| Fail { msg: e.to_string() })?;
    let path = f.to_str().unwrap().to_string();
    let mut accepted = false;
    // reader
    let r = guard(|| PresentationReader::open(&path))?;
    if let Ok(r) = &r {
        accepted = true;
        let n = r.slide_count();
        ensure!(r.info().slide_count == n, "info says {} slides, count {n}", r.info().slide_count);
        let each: Vec<_> = guard(|| (0..n).map(|i| r.get_slide(i)).collect::<Vec<_>>())?;
        ensure!(guard(|| r.get_slide(n))?.is_err(), "slide {n} of {n} can be read");
        let all = guard(|| r.get_all_slides())?;
        ensure!(all.is_ok() == each.iter().all(|s| s.is_ok()), "get_all_slides {} but single slides {:?}", all.is_ok(), each.iter().map(|s| s.is_ok()).collect::<Vec<_>>());
        c.label(if all.is_ok() { "all slides readable" } else { "some slide unreadable" });
        if let Ok(v) = &all {
            ensure!(v.len() == n, "{} of {n} slides", v.len());
            for s in v {
                guard(|| (s.all_text(), s.tables.iter().map(|t| (t.row_count(), t.col_count())).collect::<Vec<_>>()))?;
            }
        }
        let t = guard(|| r.extract_all_text())?;
        ensure!(t.is_ok() == all.is_ok(), "extract_all_text and get_all_slides disagree");
    }
    // import, and writing what was imported
    if let Ok(p) = guard(|| import_pptx(&path))? {
        ensure!(r.is_ok(), "imported, but the reader rejects it");
        let _ = guard(|| p.build())?;
    }
    // editor
    if let Ok(mut ed) = guard(|| PresentationEditor::open(&path))? {
        let n = ed.slide_count();
        let k = c.s.usize(n + 2);
        let op = c.s.below(6);
        guard(|| {
            let _ = match op {
                0 => ed.add_slide(SlideContent::new("n").add_bullet("b")).is_ok(),
                1 => ed.remove_slide(k).is_ok(),
                2 => ed.duplicate_slide(k).is_ok(),
                3 => ed.reorder_slide(k, 0).is_ok(),
                4 => ed.update_slide(k, SlideContent::new("n")).is_ok(),
                _ => ed.insert_slide(k, SlideContent::new("n")).is_ok(),
            };
        })?;
        guard(|| ed.slide_count())?;
        let out = c.file("o.pptx");
        if guard(|| ed.save(out.to_str().unwrap()))?.is_ok() {
            let z = guard(|| PresentationReader::open(out.to_str().unwrap()))?;
            // what could be opened before the edit can be opened after it; on a damaged
            // package reader and editor may see different slides
            if r.is_ok() {
                if let Err(e) = z {
                    return fail(format!("file saved by the editor cannot be opened: {e}"));
                }
            }
        }
    }
    // repair
    if let Ok(mut r) = guard(|| PptxRepair::from_bytes(b))? {
        let v = guard(|| r.validate())?;
        let x = guard(|| r.repair())?;
        ensure!(x.issues_found.len() == v.len(), "repair finds {} issues, validate {}", x.issues_found.len(), v.len());
        ensure!(x.issues_repaired.len() + x.issues_unrepaired.len() == v.len(), "{} repaired + {} not of {}", x.issues_repaired.len(), x.issues_unrepaired.len(), v.len());
        if let Ok(o) = guard(|| r.to_bytes())? {
            let mut again = PptxRepair::from_bytes(&o).map_err(|e| Fail { msg: format!("repaired package cannot be opened: {e}") })?;
            ensure!(guard(|| again.validate())?.is_empty() == x.is_valid, "is_valid {} not confirmed", x.is_valid);
        }
    }
    let rep = guard(|| validate_package_bytes(b))?;
    ensure!(rep.is_valid() == (rep.error_count() == 0), "validity and error count disagree");
    // container
    let pk = guard(|| Package::open_reader(Cursor::new(b)))?;
    if let Ok(p) = &pk {
        let mut w = Cursor::new(vec![]);
        if guard(|| p.save_writer(&mut w))?.is_ok() {
            let q = guard(|| Package::open_reader(Cursor::new(w.get_ref())))?.map_err(|e| Fail { msg: format!("saved package cannot be opened: {e}") })?;
            ensure!(q.part_count() == p.part_count() && p.part_paths().iter().all(|k| q.get_part(k) == p.get_part(k)), "saved package has other parts");
        }
    }
    for o in [CompressionOptions::default(), CompressionOptions::maximum()] {
        let z = guard(|| compress_pptx_in_memory(b, &o))?;
        ensure!(z.is_ok() == pk.is_ok(), "container {} and compression {}", pk.is_ok(), z.is_ok());
    }
    let _ = guard(|| analyze_pptx(&f).map(|a| (a.summary(), a.images_percentage())))?;
    Ok(accepted)
}
fn some_package(c: &mut Ctx) -> Result<Pkg, Fail> {
    let mut d = gen::deck(&mut c.s, gen::text0, false);
    d.slides.truncate(2);
    let n = d.slides.len();
    d.settings = if n > 0 && c.s.chance(30) { Some(gen::settings(&mut c.s, n)) } else { None };
    let b = match build(&d) {
        Ok(b) => b,
        Err(_) => ppt_rs::generator::create_pptx("t", 2).map_err(|e| Fail { msg: e.to_string() })?,
    };
    let mut p = e(Pkg::read(&b))?;
    if c.s.chance(40) {
        let sl = e(p.slide_paths())?;
        let it = fitems(&mut c.s, 2);
        let x = slide_xml(&mut c.s, &it);
        p.parts.insert(sl[0].clone(), x.into_bytes());
    }
    Ok(p)
}
/// Pieces of a document: tags and text.
pub fn tokens(x: &str) -> Vec<&str> {
    let mut v = vec![];
    let mut rest = x;
    while !rest.is_empty() {
        let i = if rest.starts_with('<') { rest.find('>').map(|i| i + 1).unwrap_or(rest.len()) } else { rest.find('<').unwrap_or(rest.len()) };
        v.push(&rest[..i]);
        rest = &rest[i..];
    }
    v
}
fn subtree(t: &[String], i: usize) -> usize {
    let mut depth = 0i64;
    for (j, x) in t.iter().enumerate().skip(i) {
        if x.starts_with("</") {
            depth -= 1;
        } else if x.starts_with('<') && !x.ends_with("/>") && !x.starts_with("<?") && !x.starts_with("<!") {
            depth += 1;
        }
        if depth <= 0 {
            return j + 1;
        }
    }
    t.len()
}
const HOSTILE: &[&str] = &["", "-1", "0", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "18446744073709551616", "1e400", "NaN", "abc", "é", "\u{1F600}", "1.5", " 7 ", "true", "rId1", "rId999", "../../../etc/passwd", "/", "#", "%", "../", "FFFFFG", "é12345", "12345é", "99999999999999999999999999", "2147483648", "-2147483649", "1000000", "x\u{301}"];
/// One structural change to an XML text.
pub fn mutate_xml(s: &mut Src, x: &str) -> (String, &'static str) {
    let mut t: Vec<String> = tokens(x).iter().map(|x| x.to_string()).collect();
    if t.is_empty() {
        return ("<a/>".into(), "replaced");
    }
    let tags: Vec<usize> = (0..t.len()).filter(|&i| t[i].starts_with('<') && !t[i].starts_with("</") && !t[i].starts_with("<?")).collect();
    if tags.is_empty() {
        return (format!("{x}<"), "appended");
    }
    let i = *s.pick(&tags);
    let what;
    match s.below(13) {
        0 => {
            let j = subtree(&t, i);
            t.drain(i..j);
            what = "subtree removed";
        }
        1 => {
            let j = subtree(&t, i);
            let c: Vec<String> = t[i..j].to_vec();
            let n = *s.pick(&[1usize, 2, 40]);
            for _ in 0..n {
                if t.len() > 60_000 {
                    break;
                }
                t.splice(i..i, c.clone());
            }
            what = "subtree repeated";
        }
        2 | 3 | 4 => {
            // attribute value
            let tag = &t[i];
            let eq: Vec<usize> = tag.match_indices("=\"").map(|m| m.0 + 2).collect();
            if eq.is_empty() {
                t[i] = tag.replacen('>', " w=\"\">", 1);
            } else {
                let a = *s.pick(&eq);
                let z = a + tag[a..].find('"').unwrap_or(0);
                t[i] = format!("{}{}{}", &tag[..a], s.pick(HOSTILE), &tag[z..]);
            }
            what = "attribute value changed";
        }
        5 => {
            let tag = &t[i];
            if let Some(a) = tag.find(' ') {
                let end = if tag.ends_with("/>") { "/>" } else { ">" };
                t[i] = format!("{}{}", &tag[..a], end);
            }
            what = "attributes removed";
        }
        6 => {
            // nesting
            let n = *s.pick(&[3usize, 50, 300, 2000, 20_000]);
            let j = subtree(&t, i);
            let name: String = t[i].trim_start_matches('<').chars().take_while(|c| !c.is_whitespace() && *c != '>' && *c != '/').collect();
            let open = format!("<{name}>").repeat(n);
            let close = format!("</{name}>").repeat(n);
            t.insert(j, close);
            t.insert(i, open);
            what = "deeply nested";
        }
        7 => {
            let k = *s.pick(&tags);
            let (j, l) = (subtree(&t, i), subtree(&t, k));
            if j <= k || l <= i {
                let (a, b): (Vec<String>, Vec<String>) = (t[i..j].to_vec(), t[k..l].to_vec());
                let (x1, y1, x2, y2, first, second) = if i < k { (i, j, k, l, b, a) } else { (k, l, i, j, a, b) };
                t.splice(x2..y2, second);
                t.splice(x1..y1, first);
            }
            what = "subtrees swapped";
        }
        8 => {
            t.insert(i, s.pick(&["text", "\u{1F600}", "&#65;", "&amp;", "<![CDATA[ <x> ]]>", "<!-- c -->", "<?pi x?>", "]]>", "\u{0}"]).to_string());
            what = "text inserted";
        }
        9 => {
            let r = t[i].trim_start_matches('<').to_string();
            let name: String = r.chars().take_while(|c| !c.is_whitespace() && *c != '>' && *c != '/').collect();
            let new = s.pick(&["a:t", "p:sp", "a:tbl", "a:tc", "p:pic", "p:grpSp", "a:r", "a:p", "x", "p:graphicFrame", "a:tr", "p:txBody"]).to_string();
            let j = subtree(&t, i);
            t[i] = format!("<{new}{}", &r[name.len()..]);
            if j > i + 1 && t[j - 1].starts_with("</") {
                t[j - 1] = format!("</{new}>");
            }
            what = "element renamed";
        }
        10 => {
            t.remove(i);
            what = "tag removed";
        }
        11 => {
            let n = s.usize(t.len());
            t.truncate(n);
            what = "truncated";
        }
        _ => {
            let j = subtree(&t, i);
            let c: Vec<String> = t[i..j].to_vec();
            let k = *s.pick(&tags);
            t.splice(k..k, c);
            what = "subtree copied elsewhere";
        }
    }
    (t.concat(), what)
}
fn parts_mutated(c: &mut Ctx) -> Res {
    let mut p = some_package(c)?;
    let mut log = vec![];
    let n = c.s.len(1, 4);
    for _ in 0..n {
        let v: Vec<String> = p.parts.keys().filter(|k| k.ends_with(".xml") || k.ends_with(".rels")).filter(|k| k.contains("slides/") || k.contains("presentation") || k.contains("Types") || k.starts_with("_rels") || k.contains("core")).cloned().collect();
        let k = if c.s.chance(85) { c.s.pick(&v).clone() } else { c.s.pick(&p.parts.keys().cloned().collect::<Vec<_>>()).clone() };
        if c.s.chance(10) {
            p.parts.remove(&k);
            log.push(format!("{k} removed"));
            c.label("part removed");
            continue;
        }
        if let Ok(x) = p.str(&k) {
            let (y, w) = mutate_xml(&mut c.s, &x.to_string());
            p.parts.insert(k.clone(), y.into_bytes());
            log.push(format!("{k}: {w}"));
            c.label(w);
        }
    }
    c.note(|| log.join("; "));
    let b = p.write(true);
    let ok = all_readers(c, &b)?;
    c.label(if ok { "accepted" } else { "rejected" });
    c.nontrivial(!log.is_empty());
    Ok(())
}
fn bytes_mutated(c: &mut Ctx) -> Res {
    let p = some_package(c)?;
    let mut b = p.write(c.s.bool());
    let n = c.s.len(1, 6);
    let mut log = vec![];
    for _ in 0..n {
        if b.is_empty() {
            break;
        }
        // the directory at the end is as likely as the data
        let at = if c.s.bool() { c.s.usize(b.len()) } else { b.len() - 1 - c.s.usize(b.len().min(4000)) };
        match c.s.below(6) {
            0 => b[at] ^= 1 << c.s.below(8),
            1 => b[at] = *c.s.pick(&[0u8, 0xFF, 0x50, 0x4B, 0x7F, 0x80]),
            2 => {
                let k = (at + 4).min(b.len());
                for x in &mut b[at..k] {
                    *x = 0xFF;
                }
            }
            3 => b.truncate(at),
            4 => {
                let k = (at + c.s.len(1, 300)).min(b.len());
                let v: Vec<u8> = b[at..k].to_vec();
                let to = c.s.usize(b.len());
                b.splice(to..to, v);
            }
            _ => {
                let k = (at + c.s.len(1, 60)).min(b.len());
                b.drain(at..k);
            }
        }
        log.push(at);
    }
    c.note(|| format!("{} bytes, changed at {log:?}", b.len()));
    let ok = all_readers(c, &b)?;
    c.label(if ok { "accepted" } else { "rejected" });
    c.nontrivial(true);
    Ok(())
}
fn noise(c: &mut Ctx) -> Res {
    let mut b = c.s.bytes(0, 400);
    match c.s.below(4) {
        0 => {
            let mut w = b"PK\x03\x04".to_vec();
            w.extend(&b);
            b = w;
        }
        1 => {
            let mut w = b.clone();
            w.extend(b"PK\x05\x06");
            w.extend(c.s.bytes(18, 18));
            b = w;
        }
        _ => {}
    }
    c.note(|| format!("{} bytes", b.len()));
    c.nontrivial(b.len() > 20);
    all_readers(c, &b)?;
    if let Ok(t) = std::str::from_utf8(&b) {
        guard(|| (XmlParser::parse_str(t).is_ok(), SlideParser::parse(t).is_ok()))?;
    }
    Ok(())
}
/// The slide parser on mutated slides, many per case.
fn slide_texts(c: &mut Ctx) -> Res {
    let it = fitems(&mut c.s, 3);
    let mut x = slide_xml(&mut c.s, &it);
    let n = c.s.len(1, 6);
    let mut log = vec![];
    for _ in 0..n {
        let (y, w) = mutate_xml(&mut c.s, &x);
        x = y;
        log.push(w);
        c.label(w);
        if x.len() > 3_000_000 {
            break;
        }
    }
    let well = crate::xml::parse(&x).is_ok();
    c.note(|| format!("{log:?}, {} bytes, well-formed {well}", x.len()));
    c.nontrivial(well);
    let r = guard(|| XmlParser::parse_str(&x))?;
    if let Ok(r) = &r {
        guard(|| (r.text_content().len(), r.find_all_descendants("sp").len()))?;
    }
    if let Ok(s) = guard(|| SlideParser::parse(&x))? {
        ensure!(r.is_ok(), "slide parsed, XML rejected");
        let t = guard(|| s.all_text())?;
        c.label(if t.is_empty() { "no text" } else { "text" });
    }
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "at least one change was made (texts: the result is well-formed)",
        assumptions: &["inputs decompress to at most a few megabytes"],
        subs: vec![
            Sub { name: "parts", quick: 1200, run: parts_mutated },
            Sub { name: "bytes", quick: 1200, run: bytes_mutated },
            Sub { name: "noise", quick: 3000, run: noise },
            Sub { name: "texts", quick: 8000, run: slide_texts },
        ],
        probes: vec![],
    }
}
