//! C30: web pages.
use super::deck_p::{check_core_title, e, norm, roles, sp_text, tree};
use crate::engine::*;
use crate::gen;
use crate::opc::{check_package, Pkg};
use crate::xml::El;
use ppt_rs::generator::*;
use ppt_rs::web2ppt::{html_to_pptx_with_options, url_to_pptx_with_options, ConversionOptions, Web2PptConfig, WebFetcher};
use std::io::{Read, Write};

fn ws(t: &str) -> String {
    t.split_whitespace().collect::<Vec<_>>().join(" ")
}
fn esc(t: &str, s: &mut Src, attr: bool) -> String {
    let mut o = String::new();
    for ch in t.chars() {
        match ch {
            '&' => o.push_str(*s.pick(&["&amp;", "&#38;", "&#x26;"])),
            '<' => o.push_str(*s.pick(&["&lt;", "&#60;"])),
            '>' if attr || s.bool() => o.push_str("&gt;"),
            '"' if attr || s.bool() => o.push_str("&quot;"),
            '\u{a0}' if s.bool() => o.push_str("&nbsp;"),
            ' ' if !attr && s.chance(8) => o.push_str(*s.pick(&["\n", "  ", "\t", " \n  "])),
            c => o.push(c),
        }
    }
    o
}
fn piece(s: &mut Src) -> String {
    let t = if s.chance(60) { gen::words(s) } else { ws(&gen::text(s)) };
    if t.is_empty() {
        "x".into()
    } else {
        t
    }
}
/// Inline content: HTML and the text it shows.
fn inline(s: &mut Src, n: usize) -> (String, String) {
    let (mut h, mut t) = (String::new(), String::new());
    for i in 0..n {
        let w = piece(s);
        if i > 0 {
            match s.below(4) {
                0 => {
                    h.push_str(*s.pick(&["<br>", "<br/>", " <br> "]));
                    t.push(' ');
                }
                1 => {}
                _ => {
                    h.push(' ');
                    t.push(' ');
                }
            }
        }
        let x = esc(&w, s, false);
        let tag = *s.pick(&["", "", "", "em", "strong", "b", "code", "span", "a", "mark", "sub"]);
        match tag {
            "" => h.push_str(&x),
            "a" => h.push_str(&format!("<a href=\"https://example.com/{}\">{x}</a>", s.below(9))),
            g => h.push_str(&format!("<{g}>{x}</{g}>")),
        }
        if s.chance(5) {
            h.push_str(*s.pick(&["<!-- note -->", "<script>var hidden = 1;</script>", "<style>p{color:red}</style>"]));
        }
        t.push_str(&w);
    }
    (h, ws(&t))
}
fn long(s: &mut Src, lo: usize, hi: usize) -> (String, String) {
    let (mut h, mut t) = inline(s, 2);
    let n = s.len(lo, hi);
    while t.len() < n {
        let w = if s.chance(3) { "y".repeat(s.range(20, 250) as usize) } else { gen::word(s) };
        h.push(' ');
        t.push(' ');
        h.push_str(&w);
        t.push_str(&w);
    }
    (h, t)
}
#[derive(Debug, Clone, PartialEq)]
enum B {
    H(u8, String),
    P(String),
    Li(String),
    Quote(String),
    Code(String),
    Table(usize, usize),
    Img(String),
}
/// The bullet of a block: what stands before the text, the text, what stands behind.
fn bullet(b: &B, c: &Web2PptConfig) -> Option<(String, String, String)> {
    let f = |a: &str, t: &str, z: &str| Some((a.to_string(), t.to_string(), z.to_string()));
    match b {
        B::H(..) => None,
        B::P(t) => f("", t, ""),
        B::Li(t) => f("• ", t, ""),
        B::Quote(t) => f("\"", t, "\""),
        B::Code(t) => c.include_code.then(|| f("[Code] ", t, "")).flatten(),
        B::Table(r, k) => c.include_tables.then(|| f(&format!("[Table: {r} rows × {k} cols]"), "", "")).flatten(),
        B::Img(a) => c.include_images.then(|| f("[Image: ", a, "]")).flatten(),
    }
}
fn img(s: &mut Src, out: &mut Vec<B>) -> String {
    let alt = ws(&gen::words(s));
    let x = format!("<img src=\"{}\" alt=\"{}\">", s.pick(&["a.png", "https://example.com/i.jpg", "/x/y.gif"]), esc(&alt, s, true));
    out.push(B::Img(alt));
    match s.below(4) {
        0 => format!("<a href=\"/big\">{x}</a>"),
        _ => x,
    }
}
fn list(s: &mut Src, depth: usize, out: &mut Vec<B>) -> String {
    let tag = *s.pick(&["ul", "ol"]);
    let mut h = format!("<{tag}>");
    for _ in 0..s.len(1, if depth == 0 { 7 } else { 3 }) {
        let (x, mut t) = if s.chance(4) { long(s, 150, 400) } else { let n = s.len(1, 3); inline(s, n) };
        if t.len() >= 490 {
            t.clear();
        }
        if t.is_empty() {
            continue;
        }
        let at = out.len();
        let para = s.chance(15);
        h.push_str("<li>");
        h.push_str(&if para { format!("<p>{x}</p>") } else { x });
        if para && s.chance(30) {
            let (x2, t2) = inline(s, 1);
            if t.len() + t2.len() < 490 {
                h.push_str(&format!("<p>{x2}</p>"));
                t = format!("{t} {t2}");
            }
        }
        out.push(B::Li(t));
        if s.chance(5) {
            let i = img(s, out);
            h.push_str(&i);
        }
        if depth < 3 && s.chance(18) {
            let l = list(s, depth + 1, out);
            h.push_str(&l);
        }
        let _ = at;
        h.push_str(*s.pick(&["</li>", "</li>\n"]));
    }
    h + &format!("</{tag}>")
}
fn skipped(s: &mut Src) -> String {
    let t = "unwanted text here";
    match s.below(10) {
        0 => format!("<script>document.write('<p>{t}</p>')</script>"),
        1 => format!("<style>.a{{content:'{t}'}}</style>"),
        2 => format!("<form><p>{t}</p><input value=\"{t}\"></form>"),
        3 => format!("<button>{t}</button>"),
        4 => format!("<div class=\"{}\"><h2>{t}</h2><p>{t}</p></div>", s.pick(&["advertisement", "ad-container", "big advertisement top", "social-share", "comment-section", "AD-Container"])),
        5 => format!("<svg><text>{t}</text></svg>"),
        6 => format!("<textarea><p>{t}</p></textarea>"),
        7 => format!("<nav><ul><li>{t}</li></ul></nav>"),
        8 => format!("<footer><p>{t}</p></footer>"),
        _ => format!("<!-- <p>{t}</p> -->"),
    }
}
fn blocks(s: &mut Src, depth: usize, out: &mut Vec<B>) -> String {
    let mut h = String::new();
    for _ in 0..s.len(1, if depth == 0 { 12 } else { 4 }) {
        let x = match s.below(20) {
            0..=3 => {
                let l = if s.chance(15) { 1 } else { s.range(2, 6) as u8 };
                let n = s.len(1, 2);
                let (x, t) = inline(s, n);
                out.push(B::H(l, t));
                format!("<h{l}>{x}</h{l}>")
            }
            4..=8 => {
                let (mut x, mut t) = if s.chance(20) { long(s, 100, 500) } else { let n = s.len(1, 4); inline(s, n) };
                if t.len() < 10 {
                    x.push_str(" something");
                    t.push_str(" something");
                }
                out.push(B::P(t));
                if s.chance(10) {
                    let i = img(s, out);
                    x.push_str(&i);
                }
                format!("<p{}>{x}</p>", s.pick(&["", " class=\"lead\"", " id=x"]))
            }
            9..=11 => list(s, 0, out),
            12 => {
                let n = s.len(1, 3);
                let (x, t) = if s.chance(20) { long(s, 100, 400) } else { inline(s, n) };
                if s.bool() {
                    let (x2, t2) = inline(s, 1);
                    out.push(B::Quote(format!("{t} {t2}")));
                    format!("<blockquote><p>{x}</p><p>{x2}</p></blockquote>")
                } else {
                    out.push(B::Quote(t));
                    format!("<blockquote>{x}</blockquote>")
                }
            }
            13 => {
                let n = s.len(1, 4);
                let v: Vec<String> = (0..n).map(|i| format!("{}{}", if i > 0 { *s.pick(&["", "  ", "    "]) } else { "" }, piece(s))).collect();
                let t = v.join("\n").trim().to_string();
                let mut x = String::new();
                for ch in t.chars() {
                    match ch {
                        '<' => x.push_str("&lt;"),
                        '&' => x.push_str("&amp;"),
                        c => x.push(c),
                    }
                }
                out.push(B::Code(t));
                if s.bool() { format!("<pre><code>{x}</code></pre>") } else { format!("<pre>{x}</pre>") }
            }
            14 => {
                let (r, k) = (s.len(1, 6), s.len(1, 4));
                let mut x = String::from("<table>");
                let body = s.bool();
                for i in 0..r {
                    if body {
                        x.push_str(*s.pick(if i == 0 { &["<thead>"] } else { &["", "<tbody>"] }));
                    }
                    x.push_str("<tr>");
                    for _ in 0..k {
                        let (c, _) = inline(s, 1);
                        let c = if i > 0 && s.chance(4) { format!("<table><tr><td>{c}</td><td>x</td></tr><tr><td>y</td></tr></table>") } else { c };
                        x.push_str(&if i == 0 { format!("<th>{c}</th>") } else { format!("<td>{c}</td>") });
                    }
                    x.push_str("</tr>");
                    if body && i == 0 {
                        x.push_str("</thead>");
                    }
                }
                out.push(B::Table(r, k));
                x + "</table>"
            }
            15 => {
                let i = img(s, out);
                if s.bool() { format!("<figure>{i}</figure>") } else { i }
            }
            16 | 17 => skipped(s),
            _ if depth < 3 => {
                let tag = *s.pick(&["div", "section", "div", "center"]);
                let cl = *s.pick(&["", " class=\"row\"", " class=\"thread-container\"", " class=\"download-container x\"", " style=\"color:red\"", " class=\"lead-container\""]);
                let k = blocks(s, depth + 1, out);
                format!("<{tag}{cl}>{k}</{tag}>")
            }
            _ => String::new(),
        };
        h.push_str(&x);
        h.push_str(*s.pick(&["", "\n", "\n  "]));
    }
    h
}
struct Page {
    html: String,
    title: String,
    description: Option<String>,
    blocks: Vec<B>,
}
fn page(s: &mut Src) -> Page {
    let mut v = vec![];
    let mut body = blocks(s, 0, &mut v);
    let mut head = String::from(*s.pick(&["", "<meta charset=\"utf-8\">", "<script>var title = 1;</script>"]));
    let mut title = None;
    if s.chance(75) {
        let t = piece(s);
        head.push_str(&format!("<title>{}</title>", esc(&t, s, false)));
        title = Some(ws(&t));
    }
    let og = s.opt(25, |s| gen::words(s));
    if let Some(t) = &og {
        head.push_str(&format!("<meta property=\"og:title\" content=\"{}\">", esc(t, s, true)));
    }
    let (d1, d2) = (s.opt(40, |s| gen::words(s)), s.opt(20, |s| gen::words(s)));
    if let Some(t) = &d2 {
        head.push_str(&format!("<meta property=\"og:description\" content=\"{}\">", esc(t, s, true)));
    }
    if let Some(t) = &d1 {
        head.push_str(&format!("<meta name=\"description\" content=\"{}\">", esc(t, s, true)));
    }
    // a page needs some text before its main part is recognised
    let pad = "This is the paragraph at the end of the page which holds enough words for the page to count as a page with content.";
    body.push_str(&format!("<p>{pad}</p>"));
    v.push(B::P(pad.into()));
    let (a, z) = *s.pick(&[
        ("", ""),
        ("<article>", "</article>"),
        ("<main>", "</main>"),
        ("<main><article>", "</article></main>"),
        ("<div role='main'>", "</div>"),
        ("<div class=\"content\">", "</div>"),
        ("<div id=\"content\">", "</div>"),
        ("<section class=\"post-content wide\">", "</section>"),
        ("<div id=main>", "</div>"),
    ]);
    let nav = if s.chance(40) { "<nav><ul><li>Home page link</li></ul></nav>" } else { "" };
    let foot = if s.chance(40) { "<footer><p>All rights reserved, 2024</p></footer>" } else { "" };
    let out = if a.is_empty() || s.bool() { "" } else { "<p>outside of the main part of the page</p>" };
    let h1 = v.iter().find_map(|b| if let B::H(1, t) = b { Some(t.clone()) } else { None });
    let html = match s.below(3) {
        0 => format!("<!DOCTYPE html>\n<html lang=\"en\"><head>{head}</head><body>{nav}{out}{a}{body}{z}{foot}</body></html>"),
        1 => format!("<html><head>{head}</head><body class=page>{nav}{a}{body}{z}{out}{foot}</body></html>"),
        _ => format!("{head}{nav}{out}{a}{body}{z}{foot}"),
    };
    Page { html, title: title.or(h1).or(og).unwrap_or("Untitled".into()), description: d1.or(d2), blocks: v }
}
#[derive(Debug, Default)]
struct Want {
    title: String,
    lines: Vec<(String, String, String)>,
}
fn want(p: &Page, url: &str, c: &Web2PptConfig, title: Option<&str>, source: bool) -> Vec<Want> {
    let mut first = Want { title: title.unwrap_or(&p.title).to_string(), lines: vec![] };
    if let Some(d) = &p.description {
        first.lines.push((ws(d), String::new(), String::new()));
    }
    if source {
        first.lines.push((format!("Source: {url}"), String::new(), String::new()));
    }
    let mut v = vec![first];
    let mut sec: Vec<(Option<String>, Vec<(String, String, String)>)> = vec![(None, vec![])];
    for b in &p.blocks {
        if let B::H(_, t) = b {
            sec.push((Some(t.clone()), vec![]));
        } else if let Some(l) = bullet(b, c) {
            sec.last_mut().unwrap().1.push(l);
        }
    }
    for (t, l) in sec {
        for (i, k) in l.chunks(c.max_bullets_per_slide).enumerate() {
            // the title of what stands before the first heading is free
            let title = t.as_ref().map(|t| if i == 0 { t.clone() } else { format!("{t} (cont.)") }).unwrap_or_default();
            v.push(Want { title, lines: k.to_vec() });
        }
    }
    v.truncate(c.max_slides);
    v
}
/// The lines of a body: a text of more than 150 bytes may end early in "...".
fn lines_ok(got: &str, want: &[(String, String, String)]) -> Result<bool, String> {
    let mut rest = got;
    let mut cut = false;
    for (i, (a, t, z)) in want.iter().enumerate() {
        let bad = || format!("bullet {i} should be {:?}, the slide goes on {:?}", format!("{a}{t}{z}"), rest.chars().take(400).collect::<String>());
        let ends = |r: &str| r.is_empty() || r.starts_with('\n');
        let full = norm(&format!("{a}{t}{z}"));
        let after = if rest.strip_prefix(&full).is_some_and(ends) {
            &rest[full.len()..]
        } else if t.len() > 150 && rest.starts_with(&norm(a)) {
            let r = &rest[norm(a).len()..];
            let tail = format!("...{z}");
            let t = norm(t);
            let at = r.match_indices(&tail).map(|(k, _)| k).find(|k| t.starts_with(&r[..*k]) && ends(&r[k + tail.len()..]) && *k >= 70);
            cut = true;
            &r[at.ok_or_else(bad)? + tail.len()..]
        } else {
            return Err(bad());
        };
        rest = if i + 1 < want.len() { after.strip_prefix('\n').ok_or_else(bad)? } else { after };
    }
    if !rest.is_empty() {
        return Err(format!("the slide also shows {rest:?}"));
    }
    Ok(cut)
}
fn sizes(sp: &El) -> Vec<String> {
    sp.all("rPr").iter().map(|r| r.attr("sz").unwrap_or("-").to_string()).collect()
}
fn check(b: &[u8], w: &[Want], c: &Web2PptConfig, full: bool) -> Result<bool, Fail> {
    let p: Pkg = e(if full { check_package(b) } else { Pkg::read(b) })?;
    let sl = e(p.slide_paths())?;
    ensure!(sl.len() == w.len(), "{} slides, expected {}: {:?}", sl.len(), w.len(), w.iter().map(|w| &w.title).collect::<Vec<_>>());
    check_core_title(&p, &w[0].title)?;
    let mut cut = false;
    for (i, (path, w)) in sl.iter().zip(w).enumerate() {
        let mut d = SlideContent::new("t").layout(if i == 0 { SlideLayout::CenteredTitle } else { SlideLayout::TitleAndContent });
        if !w.lines.is_empty() {
            d = d.add_bullet("x");
        }
        let t = e(tree(&p, path))?;
        let r = e(roles(&t, &d))?;
        let title = r.title.map(sp_text).unwrap_or_default();
        ensure!(w.title.is_empty() || norm(&title) == norm(&w.title), "slide {}: title {title:?}, expected {:?}", i + 1, w.title);
        let body = r.body.first().map(|b| sp_text(b)).unwrap_or_default();
        cut |= lines_ok(&norm(&body), &w.lines).map_err(|m| Fail { msg: format!("slide {} ({title:?}): {m}", i + 1) })?;
        if i > 0 {
            for (el, z, n) in [(r.title, c.title_font_size, "title"), (r.body.first().copied(), c.content_font_size, "text")] {
                let s = el.map(sizes).unwrap_or_default();
                ensure!(!s.is_empty() && s.iter().all(|x| *x == (z * 100).to_string()), "slide {}: {n} size {s:?}, asked for {z}", i + 1);
            }
        }
    }
    Ok(cut)
}
fn config(s: &mut Src) -> (Web2PptConfig, ConversionOptions, Option<String>, bool) {
    let mut c = Web2PptConfig::new();
    if s.bool() {
        c = c.max_bullets(s.len(1, 9)).max_slides(if s.chance(70) { s.len(1, 40) } else { 1000 });
    }
    if s.chance(40) {
        c = c.with_images(s.bool()).with_tables(s.bool()).with_code(s.bool()).group_by_headings(s.bool());
    }
    if s.chance(30) {
        c = c.title_size(s.range(8, 90) as u32).content_size(s.range(8, 60) as u32);
    }
    let mut o = ConversionOptions::new();
    let title = s.opt(25, |s| gen::words(s));
    if let Some(t) = &title {
        o = o.title(t);
    }
    let src = s.chance(70);
    (c, o.with_source_url(src), title, src)
}
fn web_url(s: &mut Src) -> String {
    format!("https://example.com/{}", s.pick(&["", "a?b=1&c=<2>", "page.html#x", "ü", "\"q\""]))
}
fn pages(c: &mut Ctx) -> Res {
    let p = page(&mut c.s);
    let (cf, o, title, src) = config(&mut c.s);
    let url = web_url(&mut c.s);
    let full = c.s.chance(25);
    c.note(|| format!("{cf:?}\n{o:?}\n{}", p.html));
    c.nontrivial(p.blocks.len() > 3);
    if p.blocks.iter().take_while(|b| !matches!(b, B::H(..))).count() > 0 {
        c.label("content before a heading");
    }
    let b = guard(|| html_to_pptx_with_options(&p.html, &url, cf.clone(), o.clone()))?.map_err(|m| Fail { msg: format!("refused: {m}") })?;
    let w = want(&p, &url, &cf, title.as_deref(), src);
    if w.len() == cf.max_slides {
        c.label("slide limit");
    }
    if check(&b, &w, &cf, full)? {
        c.label("cut text");
    }
    Ok(())
}
/// A server that answers every request on a port of its own.
struct Server {
    port: u16,
    stop: std::sync::Arc<std::sync::atomic::AtomicBool>,
    log: std::sync::Arc<std::sync::Mutex<Vec<String>>>,
    th: Option<std::thread::JoinHandle<()>>,
}
impl Server {
    fn start(answer: Vec<(String, Vec<u8>)>) -> Option<Server> {
        let l = std::net::TcpListener::bind("127.0.0.1:0").ok()?;
        let port = l.local_addr().ok()?.port();
        let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        let log = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
        let (st, lg) = (stop.clone(), log.clone());
        let th = std::thread::spawn(move || {
            for k in l.incoming() {
                if st.load(std::sync::atomic::Ordering::SeqCst) {
                    return;
                }
                let Ok(mut k) = k else { continue };
                let _ = k.set_read_timeout(Some(std::time::Duration::from_secs(10)));
                let mut buf = vec![];
                let mut b = [0u8; 4096];
                while !buf.windows(4).any(|w| w == b"\r\n\r\n") {
                    match k.read(&mut b) {
                        Ok(n) if n > 0 => buf.extend_from_slice(&b[..n]),
                        _ => break,
                    }
                }
                let req = String::from_utf8_lossy(&buf).to_string();
                let path = req.split(' ').nth(1).unwrap_or("").to_string();
                lg.lock().unwrap().push(req);
                if let Some((_, a)) = answer.iter().find(|(p, _)| *p == path) {
                    let _ = k.write_all(a);
                }
            }
        });
        Some(Server { port, stop, log, th: Some(th) })
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.stop.store(true, std::sync::atomic::Ordering::SeqCst);
        let _ = std::net::TcpStream::connect(("127.0.0.1", self.port));
        if let Some(t) = self.th.take() {
            let _ = t.join();
        }
    }
}
fn no_proxy() {
    for k in ["http_proxy", "HTTP_PROXY", "https_proxy", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"] {
        std::env::remove_var(k);
    }
}
fn reply(s: &mut Src, status: &str, head: &str, body: &[u8]) -> Vec<u8> {
    if s.chance(30) {
        let mut o = format!("HTTP/1.1 {status}\r\n{head}Transfer-Encoding: chunked\r\nConnection: close\r\n\r\n").into_bytes();
        let mut at = 0;
        while at < body.len() {
            let n = s.range(1, 700) as usize;
            let z = (at + n).min(body.len());
            o.extend(format!("{:x}\r\n", z - at).bytes());
            o.extend(&body[at..z]);
            o.extend(b"\r\n");
            at = z;
        }
        o.extend(b"0\r\n\r\n");
        o
    } else {
        let mut o = format!("HTTP/1.1 {status}\r\n{head}Content-Length: {}\r\nConnection: close\r\n\r\n", body.len()).into_bytes();
        o.extend(body);
        o
    }
}
fn fetch(c: &mut Ctx) -> Res {
    no_proxy();
    let p = page(&mut c.s);
    let (cf, o, title, src) = config(&mut c.s);
    let ua = format!("agent {}", c.s.below(1000));
    let cf = cf.user_agent(&ua).timeout(60);
    let latin = c.s.chance(25) && p.html.chars().all(|x| (x as u32) < 0x80 || (0xa0..0x100).contains(&(x as u32))) && !p.html.contains("charset");
    let body: Vec<u8> = if latin { p.html.chars().map(|x| x as u32 as u8).collect() } else { p.html.clone().into_bytes() };
    let ct = if latin { "Content-Type: text/html; charset=ISO-8859-1\r\n" } else { *c.s.pick(&["Content-Type: text/html; charset=utf-8\r\n", "Content-Type: text/html\r\n", ""]) };
    let bad = c.s.chance(20);
    let code = if bad { *c.s.pick(&["404 Not Found", "500 Oops", "403 Forbidden", "503 Busy"]) } else { "200 OK" };
    let hops = if c.s.chance(30) { c.s.len(1, 4) } else { 0 };
    let mut ans = vec![];
    for h in 0..hops {
        let st = *c.s.pick(&["301 Moved", "302 Found", "303 See", "307 T", "308 P"]);
        ans.push((format!("/{h}"), reply(&mut c.s, st, &format!("Location: /{}\r\n", h + 1), b"<p>moved to another place</p>")));
    }
    ans.push((format!("/{hops}"), reply(&mut c.s, code, ct, &body)));
    let Some(sv) = Server::start(ans) else {
        c.label("no loopback network");
        return Ok(());
    };
    let url = format!("http://127.0.0.1:{}/0", sv.port);
    c.note(|| format!("{code}, {hops} redirects, latin-1 {latin}\n{cf:?}\n{}", p.html));
    c.nontrivial(p.blocks.len() > 3);
    c.label(if bad { "error status" } else if hops > 0 { "redirected" } else { "plain" });
    let r = guard(|| url_to_pptx_with_options(&url, cf.clone(), o.clone()))?;
    {
        let log = sv.log.lock().unwrap();
        ensure!(log.len() == hops + 1, "{} requests for {hops} redirects", log.len());
        ensure!(log.iter().all(|r| r.starts_with("GET ") && r.lines().any(|l| l.eq_ignore_ascii_case(&format!("user-agent: {ua}")))), "requests {log:?}");
    }
    if bad {
        let n = &code[..3];
        match r {
            Ok(_) => return fail(format!("status {code} made a presentation")),
            Err(m) => ensure!(m.to_string().contains(n), "the message for status {n} is {m}"),
        }
        return Ok(());
    }
    let b = r.map_err(|m| Fail { msg: format!("refused: {m}") })?;
    check(&b, &want(&p, &url, &cf, title.as_deref(), src), &cf, false)?;
    Ok(())
}
const BITS: &[&str] = &[
    "<p>some words to show here</p>", "<h1>", "</h1>", "<h2>a heading</h2>", "<ul>", "<li>", "</ul>", "<table>", "<tr>", "<td>", "x", "</table>", "<article>", "</article>", "<main>", "<div class='content'>", "<pre>", "</pre>", "<img src=a alt=b>",
    "<img src='data:x' alt=b>", "<blockquote>", "</div>", "<svg>", "<template>", "<title>", "</title>", "<select>", "<option>", "<noscript>", "&#0;", "&#x1;", "&#xD800;", "\u{0}", "\u{1b}", "<", "</", "<!--", "]]>", "<![CDATA[", "é", "中文字", "<math>", "<frameset>",
    "<meta name=description content='d'>", "<body class=ad-container>", "<p>éééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé", "<br>",
    "This is a rather long piece of text that makes the main part of the page count as content at all times, whatever else is there. ",
];
fn noise(c: &mut Ctx) -> Res {
    no_proxy();
    let n = c.s.len(1, 40);
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(*c.s.pick(BITS));
    }
    let mut long = false;
    if c.s.chance(2) {
        let b = *c.s.pick(&["<div>", "<ul><li>", "<b>", "<blockquote>", "<table><tr><td>", "<span>", "<p>words for the page</p>"]);
        t = format!("<main>{}{t}", b.repeat(c.s.range(200, 2500) as usize));
        c.label("deep");
        long = true;
    }
    c.note(|| t.chars().take(2000).collect());
    c.nontrivial(n > 5);
    let (cf, o, ..) = config(&mut c.s);
    let cf = if c.s.chance(10) { cf.max_slides(c.s.usize(2)).max_bullets(0) } else { cf };
    if let Ok(b) = guard(|| html_to_pptx_with_options(&t, "https://example.com", cf.clone(), o.clone()))? {
        c.label("accepted");
        if !long && cf.max_slides > 0 {
            let p = e(check_package(&b))?;
            let k = e(p.slide_paths())?.len();
            ensure!(k <= cf.max_slides, "{k} slides, the limit is {}", cf.max_slides);
        }
    }
    if c.s.chance(5) {
        let u = *c.s.pick(&["", "ftp://example.com", "file:///etc/hosts", "x", "http://", "data:text/html,<p>", "javascript:1"]);
        let f = guard(|| WebFetcher::with_config(cf.clone()).map(|f| f.fetch(u)))?;
        ensure!(!matches!(f, Ok(Ok(_))), "{u:?} was fetched");
    }
    Ok(())
}
fn convert(html: &str, o: ConversionOptions) -> Result<Pkg, Fail> {
    let b = guard(|| html_to_pptx_with_options(html, "https://example.com", Web2PptConfig::new(), o.clone()))?.map_err(|m| Fail { msg: m.to_string() })?;
    e(Pkg::read(&b))
}
const PROBE: &str = "<main><h2>Head</h2><p>some words with a <a href=\"https://example.com/target\">link to a page</a>, and more words so that the page is long enough to be one</p></main>";
fn probe_author() -> Res {
    let p = convert(PROBE, ConversionOptions::new().author("Ann Author"))?;
    let x = e(p.xml("docProps/core.xml"))?;
    ensure!(x.child("creator").map(|t| t.text()).as_deref() == Some("Ann Author"), "the author is not in the file");
    Ok(())
}
fn probe_numbers() -> Res {
    let p = convert(PROBE, ConversionOptions::new().with_page_numbers(true))?;
    for s in e(p.slide_paths())? {
        let x = e(p.xml(&s))?;
        ensure!(x.all("fld").iter().any(|f| f.attr("type") == Some("slidenum")), "{s} has no page number");
    }
    Ok(())
}
fn probe_links() -> Res {
    let p = convert(PROBE, ConversionOptions::new())?;
    let s = e(p.slide_paths())?;
    ensure!(e(p.rels(&s[1]))?.iter().any(|r| r.target.contains("example.com/target")), "the target of a link is lost");
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C30",
        rule: "a page with more than three blocks; noise: more than five pieces",
        assumptions: &[
            "the page has one main part of more than 100 bytes, paragraphs of at least 10, headings below 300, list items below 500 bytes, tables of at most 30 rows and code of at most 1000 bytes; anything else the library may leave out",
            "a text of more than 150 bytes may be cut short, ending in three dots; pages are served by a server on the loopback interface",
        ],
        subs: vec![Sub { name: "pages", quick: 12000, run: pages }, Sub { name: "fetch", quick: 400, run: fetch }, Sub { name: "noise", quick: 3000, run: noise }],
        probes: vec![Probe { key: "web-author", run: probe_author }, Probe { key: "web-page-numbers", run: probe_numbers }, Probe { key: "web-links", run: probe_links }],
    }
}
