//! C22 Markdown export, C23 HTML export.
use crate::engine::*;
use crate::gen;
use ppt_rs::api::Presentation;
use ppt_rs::export::html::{export_to_html, export_to_html_with_options, HtmlExportOptions};
use ppt_rs::export::md::{export_to_markdown, export_to_markdown_with_options, MarkdownOptions};
use ppt_rs::generator::*;
use pulldown_cmark::{CodeBlockKind, Event, HeadingLevel, Options, Parser, Tag, TagEnd};
use scraper::{ElementRef, Html, Selector};

fn squash(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}
type Imgs = Vec<(Vec<u8>, String, String)>;
struct D {
    p: Presentation,
    title: String,
    slides: Vec<(SlideContent, Imgs)>,
}
fn deck(c: &mut Ctx) -> D {
    let s = &mut c.s;
    let txt: fn(&mut Src) -> String = *s.pick(&[gen::words as fn(&mut Src) -> String, gen::text0, gen::multiline, gen::multiline]);
    let title = txt(s);
    let mut p = if s.bool() { Presentation::with_title(&title) } else { Presentation::new().title(&title) };
    let n = s.len(0, 4);
    let mut slides = vec![];
    for _ in 0..n {
        let o = gen::SlideOpts { txt, slides: 1, rich: false, ink: false, notes: true, links: false, imgs: vec![] };
        let mut sl = gen::slide(s, &o);
        let mut imgs = vec![];
        if s.chance(40) {
            sl = sl.table(gen::table(s, txt));
        }
        for _ in 0..s.len(0, 3).saturating_sub(1) {
            let b = gen::image_bytes(s);
            let f = s.pick(gen::IMG_FORMATS).to_string();
            let im = match s.below(2) {
                0 => Image::from_bytes(b.clone(), 10, 10, &f),
                _ => Image::from_base64(&gen::b64(&b), 10, 10, &f),
            };
            imgs.push((b, im.filename.clone(), f));
            sl = sl.add_image(im);
        }
        for _ in 0..s.len(0, 3).saturating_sub(1) {
            let mut k = gen::code(s);
            if s.chance(30) {
                k.code.push_str(*s.pick(&["\n```", "```", "\n````x", "</code></pre>", "\n~~~", "&amp;"]));
            }
            sl.code_blocks.push(k);
        }
        if s.chance(20) {
            sl = sl.add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 10, 10).with_text("shape"));
        }
        p = p.add_slide(sl.clone());
        slides.push((sl, imgs));
    }
    c.note(|| format!("title {title:?}\n{:#?}", slides.iter().map(|x| (&x.0.title, &x.0.content, &x.0.notes, x.0.table.as_ref().map(|t| t.rows.iter().map(|r| r.cells.iter().map(|c| c.text.clone()).collect::<Vec<_>>()).collect::<Vec<_>>()), &x.0.code_blocks)).collect::<Vec<_>>()));
    D { p, title, slides }
}

#[derive(Debug, PartialEq, Clone)]
enum B {
    H(u8, String),
    Rule,
    Item(String),
    ListEnd,
    Table(Vec<Vec<String>>),
    Img(String, String),
    Code(String, String),
    P(String),
    Quote(String),
}
/// Flat list of the blocks an independent Markdown parser sees.
fn blocks(md: &str) -> Result<Vec<B>, Fail> {
    let mut o = vec![];
    let mut t = String::new();
    let (mut depth_list, mut in_quote, mut img): (usize, bool, Option<String>) = (0, false, None);
    let mut had_img = false;
    let mut rows: Vec<Vec<String>> = vec![];
    let mut code: Option<String> = None;
    let opts = Options::ENABLE_TABLES | Options::ENABLE_STRIKETHROUGH | Options::ENABLE_TASKLISTS | Options::ENABLE_FOOTNOTES;
    for ev in Parser::new_ext(md, opts) {
        match ev {
            Event::Start(Tag::Heading { .. }) => t.clear(),
            Event::End(TagEnd::Heading(l)) => o.push(B::H(if l == HeadingLevel::H1 { 1 } else if l == HeadingLevel::H2 { 2 } else { 3 }, squash(&t))),
            Event::Rule => o.push(B::Rule),
            Event::Start(Tag::List(None)) => depth_list += 1,
            Event::End(TagEnd::List(_)) => {
                depth_list -= 1;
                o.push(B::ListEnd);
            }
            Event::Start(Tag::Item) => {
                ensure!(depth_list == 1, "nested list in the export");
                t.clear();
            }
            Event::End(TagEnd::Item) => o.push(B::Item(squash(&t))),
            Event::Start(Tag::Paragraph) => {
                if !in_quote && depth_list == 0 {
                    t.clear();
                    had_img = false;
                }
            }
            Event::End(TagEnd::Paragraph) => {
                if !in_quote && depth_list == 0 && !(had_img && t.is_empty()) {
                    o.push(B::P(squash(&t)));
                }
            }
            Event::Start(Tag::BlockQuote) => {
                in_quote = true;
                t.clear();
            }
            Event::End(TagEnd::BlockQuote) => {
                in_quote = false;
                o.push(B::Quote(squash(&t)));
            }
            Event::Start(Tag::Table(_)) => rows = vec![],
            Event::Start(Tag::TableHead) | Event::Start(Tag::TableRow) => rows.push(vec![]),
            Event::Start(Tag::TableCell) => t.clear(),
            Event::End(TagEnd::TableCell) => {
                let x = squash(&t);
                if let Some(r) = rows.last_mut() {
                    r.push(x)
                }
            }
            Event::End(TagEnd::TableHead) | Event::End(TagEnd::TableRow) => {}
            Event::End(TagEnd::Table) => o.push(B::Table(std::mem::take(&mut rows))),
            Event::Start(Tag::Image { dest_url, .. }) => {
                img = Some(dest_url.to_string());
                t.clear();
            }
            Event::End(TagEnd::Image) => {
                o.push(B::Img(squash(&t), img.take().unwrap_or_default()));
                t.clear();
                had_img = true;
            }
            Event::Start(Tag::CodeBlock(k)) => {
                t.clear();
                match k {
                    CodeBlockKind::Fenced(l) => code = Some(l.to_string()),
                    CodeBlockKind::Indented => return Err(Fail { msg: "indented code block in the export".into() }),
                }
            }
            Event::End(TagEnd::CodeBlock) => o.push(B::Code(code.take().unwrap_or_default(), std::mem::take(&mut t))),
            Event::Start(Tag::Strong) | Event::End(TagEnd::Strong) if !in_quote && depth_list == 0 => {}
            Event::Text(x) => t.push_str(&x),
            Event::SoftBreak | Event::HardBreak => t.push(' '),
            Event::InlineHtml(x) if &*x == "<br>" => t.push(' '),
            other => return Err(Fail { msg: format!("the export contains {other:?}") }),
        }
    }
    Ok(o)
}
fn front(md: &str) -> Result<(String, String, &str), Fail> {
    let bad = |m: &str| Fail { msg: format!("front matter: {m}") };
    let rest = md.strip_prefix("---\n").ok_or(bad("missing"))?;
    let end = rest.find("\n---\n").ok_or(bad("unterminated"))?;
    let (y, body) = (&rest[..end], &rest[end + 5..]);
    let mut lines = y.split('\n').peekable();
    let (mut title, mut slides) = (None, None);
    while let Some(l) = lines.next() {
        let (k, v) = l.split_once(": ").ok_or(bad(&format!("not a mapping: {l:?}")))?;
        let val = if v.starts_with('|') {
            let mut b = vec![];
            while let Some(n) = lines.peek() {
                match n.strip_prefix("  ") {
                    Some(x) => b.push(x.to_string()),
                    None if n.is_empty() => b.push(String::new()),
                    None => break,
                }
                lines.next();
            }
            b.join("\n")
        } else if let Some(q) = v.strip_prefix('"') {
            let mut out = String::new();
            let mut it = q.chars();
            loop {
                match it.next() {
                    None => return Err(bad(&format!("unterminated string {v:?}"))),
                    Some('"') => break,
                    Some('\\') => match it.next() {
                        Some('n') => out.push('\n'),
                        Some('r') => out.push('\r'),
                        Some('t') => out.push('\t'),
                        Some(x @ ('"' | '\\' | '/')) => out.push(x),
                        x => return Err(bad(&format!("escape {x:?} in {v:?}"))),
                    },
                    Some(x) => out.push(x),
                }
            }
            if it.next().is_some() {
                return Err(bad(&format!("text after the string {v:?}")));
            }
            out
        } else {
            v.to_string()
        };
        match k {
            "title" => title = Some(val),
            "slides" => slides = Some(val),
            _ => {}
        }
    }
    Ok((title.ok_or(bad("no title"))?, slides.ok_or(bad("no slide count"))?, body))
}
fn markdown(c: &mut Ctx) -> Res {
    let d = deck(c);
    let s = &mut c.s;
    let default = s.chance(30);
    let mut o = MarkdownOptions::new();
    if !default {
        o = o.with_slide_numbers(s.bool()).with_separator(*s.pick(&["---", "***", "- - -"])).with_notes(s.bool()).with_gfm_tables(s.bool()).with_images(s.bool()).with_frontmatter(s.bool());
    }
    let md = if default { guard(|| export_to_markdown(&d.p))? } else { guard(|| export_to_markdown_with_options(&d.p, &o))? }.map_err(|e| Fail { msg: e.to_string() })?;
    c.note(|| md.clone());
    if c.s.chance(3) {
        let f = c.file("out.md");
        if default { guard(|| d.p.save_as_markdown(&f))? } else { guard(|| d.p.save_as_markdown_with_options(&f, &o))? }.map_err(|e| Fail { msg: e.to_string() })?;
        ensure!(std::fs::read_to_string(&f).is_ok_and(|x| x == md), "saved Markdown differs from the exported one");
    }
    let body = if o.include_frontmatter {
        let (t, n, b) = front(&md)?;
        ensure!(squash(&t) == squash(&d.title), "front matter title {t:?}, expected {:?}", d.title);
        ensure!(n == d.slides.len().to_string(), "front matter counts {n} slides of {}", d.slides.len());
        b
    } else {
        &md
    };
    let mut want = vec![B::H(1, squash(&d.title))];
    for (i, (sl, imgs)) in d.slides.iter().enumerate() {
        if i > 0 || o.include_slide_numbers {
            want.push(B::Rule);
        }
        let t = if o.include_slide_numbers { format!("Slide {}: {}", i + 1, sl.title) } else { sl.title.clone() };
        want.push(B::H(2, squash(&t)));
        for b in &sl.content {
            want.push(B::Item(squash(b)));
        }
        if !sl.content.is_empty() {
            want.push(B::ListEnd);
        }
        if let (true, Some(t)) = (o.use_gfm_tables, &sl.table) {
            want.push(B::Table(t.rows.iter().map(|r| r.cells.iter().map(|c| squash(&c.text)).collect()).collect()));
        }
        if o.include_images {
            for (k, im) in imgs.iter().enumerate() {
                let f = im.2.to_lowercase();
                let x = if f == "jpeg" { "jpg" } else { &f };
                want.push(B::Img(format!("Image {} on slide {}", k + 1, i + 1), format!("images/slide{}_image{}.{x}", i + 1, k + 1)));
            }
        }
        for k in &sl.code_blocks {
            want.push(B::Code(k.language.clone(), k.code.clone()));
        }
        if let (true, Some(n)) = (o.include_notes, sl.notes.as_ref().filter(|n| !n.is_empty())) {
            want.push(B::P("Notes:".into()));
            want.push(B::Quote(squash(n)));
        }
        c.label(if sl.table.is_some() { "table" } else { "no table" });
    }
    let mut got = blocks(body)?;
    for b in got.iter_mut().chain(want.iter_mut()) {
        if let B::Code(_, t) = b {
            *t = t.trim_end_matches('\n').replace("\r\n", "\n");
        }
    }
    for (i, w) in want.iter().enumerate() {
        ensure!(got.get(i) == Some(w), "block {i} of the export is {:?}, expected {w:?}", got.get(i));
    }
    ensure!(got.len() == want.len(), "the export ends with unexpected {:?}", &got[want.len()..]);
    c.nontrivial(want.len() > 4);
    Ok(())
}

fn sel(s: &str) -> Selector {
    Selector::parse(s).unwrap()
}
fn text(e: ElementRef) -> String {
    e.text().collect()
}
fn html(c: &mut Ctx) -> Res {
    let d = deck(c);
    let s = &mut c.s;
    let default = s.chance(30);
    let mut o = HtmlExportOptions::new();
    if !default {
        o = o.with_notes(s.bool()).with_navigation(s.bool()).with_syntax_highlight(s.bool());
    }
    let h = if default { guard(|| export_to_html(&d.p))? } else { guard(|| export_to_html_with_options(&d.p, &o))? }.map_err(|e| Fail { msg: e.to_string() })?;
    if default && c.s.chance(5) {
        let f = c.file("out.html");
        guard(|| d.p.save_as_html(&f))?.map_err(|e| Fail { msg: e.to_string() })?;
        ensure!(std::fs::read_to_string(&f).is_ok_and(|x| x == h), "saved HTML differs from the exported one");
    }
    let doc = Html::parse_document(&h);
    ensure!(doc.errors.is_empty(), "HTML errors: {:?}", doc.errors);
    let one = |q: &str| -> Result<ElementRef, Fail> {
        let v: Vec<ElementRef> = doc.select(&sel(q)).collect();
        ensure!(v.len() == 1, "{} elements {q} in the export", v.len());
        Ok(v[0])
    };
    ensure!(squash(&text(one("title")?)) == squash(&d.title), "title element {:?}, expected {:?}", text(one("title")?), d.title);
    ensure!(squash(&text(one("h1")?)) == squash(&d.title), "h1 {:?}, expected {:?}", text(one("h1")?), d.title);
    let sl: Vec<ElementRef> = doc.select(&sel("body > div.slide:not(.title-slide)")).collect();
    ensure!(sl.len() == d.slides.len(), "{} slides in the export, expected {}", sl.len(), d.slides.len());
    let nav = doc.select(&sel("body > div.navigation-controls")).count();
    ensure!(nav == o.enable_navigation as usize, "{nav} navigation controls");
    ensure!(doc.select(&sel("script")).count() == o.enable_navigation as usize, "scripts in the export");
    for (i, (e, (m, imgs))) in sl.iter().zip(&d.slides).enumerate() {
        let n = i + 1;
        ensure!(e.value().attr("id") == Some(&format!("slide-{n}")), "slide {n} has id {:?}", e.value().attr("id"));
        let mut want: Vec<(String, String)> = vec![("div".into(), n.to_string()), ("h2".into(), squash(&m.title)), ("div".into(), String::new())];
        if !m.content.is_empty() {
            want.push(("ul".into(), String::new()));
            want.extend(m.content.iter().map(|b| ("li".to_string(), squash(b))));
        }
        if let Some(t) = &m.table {
            want.push(("table".into(), String::new()));
            want.push(("tbody".into(), String::new()));
            for r in &t.rows {
                want.push(("tr".into(), String::new()));
                for k in r.cells.iter().filter(|k| !k.h_merge && !k.v_merge) {
                    let mut a = String::new();
                    if let Some(x) = k.row_span.filter(|x| *x > 1) {
                        a += &format!("[rowspan={x}]");
                    }
                    if let Some(x) = k.grid_span.filter(|x| *x > 1) {
                        a += &format!("[colspan={x}]");
                    }
                    want.push(("td".into(), format!("{a}{}", squash(&k.text))));
                }
            }
            c.label("table");
        }
        for (b, name, f) in imgs {
            let mime = match f.to_lowercase().as_str() {
                "png" => "image/png",
                "jpg" | "jpeg" => "image/jpeg",
                "gif" => "image/gif",
                "svg" => "image/svg+xml",
                _ => "",
            };
            want.push(("div".into(), String::new()));
            want.push(("img".into(), format!("{mime}|{}|{name}", gen::b64(b))));
        }
        for k in &m.code_blocks {
            want.push(("pre".into(), String::new()));
            let cl = if o.syntax_highlight { format!("[class=language-{}]", k.language) } else { String::new() };
            want.push(("code".into(), format!("{cl}{}", k.code)));
        }
        if let (true, Some(x)) = (o.include_notes, &m.notes) {
            want.push(("div".into(), String::new()));
            want.push(("strong".into(), squash(&format!("Notes: {x}"))));
        }
        let mut got = vec![];
        for x in e.descendants().skip(1).filter_map(ElementRef::wrap) {
            let a = |k: &str| x.value().attr(k).map(|v| format!("[{k}={v}]")).unwrap_or_default();
            let tag = x.value().name().to_string();
            let v = match tag.as_str() {
                "h2" | "li" => squash(&text(x)),
                "td" => format!("{}{}{}", a("rowspan"), a("colspan"), squash(&text(x))),
                "code" => format!("{}{}", a("class"), text(x)),
                "div" if x.value().attr("class") == Some("slide-number") => text(x),
                "strong" => squash(&x.parent().and_then(ElementRef::wrap).map(text).unwrap_or_default()),
                "img" => {
                    let src = x.value().attr("src").unwrap_or("");
                    let (m, b) = src.strip_prefix("data:").and_then(|y| y.split_once(";base64,")).unwrap_or(("", src));
                    format!("{}|{b}|{}", if m == "application/octet-stream" || m == "image/bmp" || m == "image/tiff" { "" } else { m }, x.value().attr("alt").unwrap_or(""))
                }
                _ => String::new(),
            };
            got.push((tag, v));
        }
        for (k, w) in want.iter().enumerate() {
            ensure!(got.get(k) == Some(w), "slide {n}: element {k} of the export is {:?}, expected {w:?}", got.get(k));
        }
        ensure!(got.len() == want.len(), "slide {n} ends with unexpected {:?}", &got[want.len()..]);
        let all = squash(&text(*e)).replace(' ', "");
        let sum: String = want.iter().filter(|w| w.0 != "img").map(|w| if w.0 == "code" { w.1.split_once(']').filter(|_| o.syntax_highlight).map(|x| x.1.to_string()).unwrap_or(w.1.clone()) } else if w.0 == "td" && w.1.starts_with("[rowspan=") || w.0 == "td" && w.1.starts_with("[colspan=") { strip_attrs(&w.1) } else { w.1.clone() }).collect();
        let sum = squash(&sum).replace(' ', "");
        ensure!(all == sum, "slide {n} shows {all:?}, expected {sum:?}");
    }
    c.nontrivial(d.slides.len() > 1);
    Ok(())
}
fn strip_attrs(s: &str) -> String {
    let mut t = s;
    for k in ["[rowspan=", "[colspan="] {
        if let Some(r) = t.strip_prefix(k) {
            if let Some((n, r)) = r.split_once(']') {
                if n.parse::<u32>().is_ok() {
                    t = r;
                }
            }
        }
    }
    t.to_string()
}
/// Pictures exported as files exist where the page looks for them.
fn probe() -> Res {
    let dir = std::env::temp_dir().join(format!("vh-html-{}", std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| Fail { msg: e.to_string() })?;
    let p = Presentation::with_title("t").add_slide(SlideContent::new("a").add_image(Image::from_bytes(vec![1, 2, 3], 10, 10, "PNG")));
    let r = guard(|| export_to_html_with_options(&p, &HtmlExportOptions::new().with_image_files(true, dir.to_str())));
    let out = (|| {
        let h = r?.map_err(|e| Fail { msg: e.to_string() })?;
        let doc = Html::parse_document(&h);
        for x in doc.select(&sel("img")) {
            let f = x.value().attr("src").unwrap_or("");
            ensure!(std::path::Path::new(f).exists() || dir.join(f).exists(), "the page refers to picture file {f:?}, which was not written");
        }
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&dir);
    out
}
pub fn md_prop() -> Prop {
    Prop {
        id: "C22",
        rule: "more than four blocks",
        assumptions: &["white space runs and line breaks inside a text count as one blank"],
        subs: vec![Sub { name: "markdown", quick: 20000, run: markdown }],
        probes: vec![],
    }
}
pub fn html_prop() -> Prop {
    Prop {
        id: "C23",
        rule: "more than one slide",
        assumptions: &["white space runs outside code count as one blank", "pictures are embedded, not written to files"],
        subs: vec![Sub { name: "html", quick: 6000, run: html }],
        probes: vec![Probe { key: "html-image-files", run: probe }],
    }
}
