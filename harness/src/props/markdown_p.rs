//! C20: Markdown becomes the slides it describes.
use super::deck_p::*;
use crate::engine::*;
use crate::gen;
use crate::opc::Pkg;
use ppt_rs::cli::{parse_markdown, FromMarkdownCommand};
use ppt_rs::generator::{BulletStyle, SlideContent};

/// A piece of Markdown and the text it stands for.
#[derive(Clone, Debug, Default)]
pub struct Ink {
    pub md: String,
    pub want: String,
}
fn ink(md: &str, want: &str) -> Ink {
    Ink { md: md.into(), want: want.into() }
}
fn join(v: &[Ink], md: &str, want: &str) -> Ink {
    Ink { md: v.iter().map(|x| x.md.as_str()).collect::<Vec<_>>().join(md), want: v.iter().map(|x| x.want.as_str()).collect::<Vec<_>>().join(want) }
}
fn atom(s: &mut Src) -> Ink {
    match s.below(10) {
        0 => {
            let (a, b) = *s.pick(&[("\\*", "*"), ("\\#", "#"), ("\\_", "_"), ("\\[", "["), ("\\`", "`"), ("\\\\", "\\"), ("\\<", "<"), ("&amp;", "&"), ("&lt;", "<"), ("&#65;", "A"), ("\\~", "~"), ("\\|", "|"), ("\\-", "-"), ("\\>", ">"), ("&copy;", "©"), ("\\!", "!")]);
            let (w, z) = (gen::word(s), gen::word(s));
            ink(&format!("{w}{a}{z}"), &format!("{w}{b}{z}"))
        }
        1 => {
            let (w, z) = (gen::word(s), gen::word(s));
            let t = s.pick(&["&", ",", "'", "\"", ".", ";", "$", "%", "@", "?", "(", "/"]).to_string();
            ink(&format!("{w}{t}{z}"), &format!("{w}{t}{z}"))
        }
        _ => {
            let w = gen::word(s);
            ink(&w, &w)
        }
    }
}
/// Inline content; never begins or ends with white space.
fn inline(s: &mut Src, depth: u32, breaks: bool) -> Ink {
    let n = s.len(1, 4);
    let mut v = vec![];
    for _ in 0..n {
        let k = if depth == 0 { 9 } else { s.below(14) };
        v.push(match k {
            0 => {
                let x = if s.chance(60) { words_ink(s) } else { marked(s, &["*", "~~", "`"]) };
                ink(&format!("**{}**", x.md), &format!("**{}**", x.want))
            }
            1 => {
                let x = if s.chance(60) { words_ink(s) } else { marked(s, &["~~", "`"]) };
                ink(&format!("*{}*", x.md), &format!("*{}*", x.want))
            }
            2 => {
                let x = if s.chance(60) { words_ink(s) } else { marked(s, &["*", "**", "`"]) };
                ink(&format!("~~{}~~", x.md), &format!("~~{}~~", x.want))
            }
            3 => {
                let w = s.pick(&["a*b", "x<y>", "f()", "a&amp;b", "\\n", "a_b", "1 + 2"]).to_string();
                ink(&format!("`{w}`"), &format!("`{w}`"))
            }
            4 => {
                let x = words_ink(s);
                ink(&format!("[{}](http://e.org/{})", x.md, gen::word(s)), &x.want)
            }
            5 => {
                let x = words_ink(s);
                let t = *s.pick(&["u", "mark", "sub", "sup", "ins", "b"]);
                ink(&format!("<{t}>{}</{t}>", x.md), &x.want)
            }
            _ => atom(s),
        });
    }
    let mut o = v[0].clone();
    for x in &v[1..] {
        let sep = if breaks && s.chance(10) { *s.pick(&["\n", "  \n", "\\\n"]) } else { " " };
        // a line must not start with something that opens a block
        let sep = if x.md.starts_with(|c: char| c.is_alphabetic()) { sep } else { " " };
        o = ink(&format!("{}{}{}", o.md, sep, x.md), &format!("{} {}", o.want, x.want));
    }
    o
}
/// Words in one kind of mark, possibly with words around them.
fn marked(s: &mut Src, marks: &[&str]) -> Ink {
    let m = *s.pick(marks);
    let x = if m == "`" {
        let w = gen::word(s);
        ink(&w, &w)
    } else {
        words_ink(s)
    };
    let x = ink(&format!("{m}{}{m}", x.md), &format!("{m}{}{m}", x.want));
    if s.chance(40) {
        return x;
    }
    let (a, b) = (words_ink(s), words_ink(s));
    join(&[a, x, b], " ", " ")
}
fn words_ink(s: &mut Src) -> Ink {
    let n = s.len(1, 3);
    let v: Vec<Ink> = (0..n).map(|_| atom(s)).collect();
    join(&v, " ", " ")
}
#[derive(Clone, Debug)]
pub struct Item {
    paras: Vec<Ink>,
    task: Option<bool>,
    sub: Option<List>,
}
#[derive(Clone, Debug)]
pub struct List {
    ordered: Option<(u32, char)>,
    mark: char,
    loose: bool,
    items: Vec<Item>,
}
fn list(s: &mut Src, depth: u32) -> List {
    // only a list that starts at one may follow a line of text directly
    let ordered = if s.chance(30) { Some((*s.pick(&[1u32, 1, 7, 10, 123]), *s.pick(&['.', ')']))) } else { None };
    let loose = s.chance(25);
    let tasks = s.chance(20);
    let n = s.len(1, 4);
    let items = (0..n)
        .map(|_| {
            let np = if loose && s.chance(30) { 2 } else { 1 };
            Item {
                paras: (0..np).map(|_| inline(s, 1, false)).collect(),
                task: if tasks && s.chance(80) { Some(s.bool()) } else { None },
                sub: if depth > 0 && s.chance(25) {
                    let mut l = list(s, depth - 1);
                    if let (Some(o), false) = (&mut l.ordered, loose) {
                        o.0 = 1;
                    }
                    Some(l)
                } else {
                    None
                },
            }
        })
        .collect();
    List { ordered, mark: *s.pick(&['-', '*', '+']), loose, items }
}
impl List {
    fn md(&self, o: &mut String, indent: usize) {
        for (i, it) in self.items.iter().enumerate() {
            let mark = match self.ordered {
                Some((n, c)) => format!("{}{c}", n + i as u32),
                None => self.mark.to_string(),
            };
            let inner = indent + mark.chars().count() + 1;
            if i > 0 && self.loose {
                o.push('\n');
            }
            o.push_str(&" ".repeat(indent));
            o.push_str(&mark);
            o.push(' ');
            if let Some(t) = it.task {
                o.push_str(if t { "[x] " } else { "[ ] " });
            }
            for (k, p) in it.paras.iter().enumerate() {
                if k > 0 {
                    o.push('\n');
                    o.push_str(&" ".repeat(inner));
                }
                o.push_str(&p.md);
                o.push('\n');
            }
            if let Some(l) = &it.sub {
                if self.loose {
                    o.push('\n');
                }
                l.md(o, inner);
            }
        }
    }
    fn bullets(&self, level: u32, o: &mut Vec<Want>) {
        for it in &self.items {
            let t = it.paras.iter().map(|p| p.want.as_str()).collect::<Vec<_>>().join(" ");
            let t = match it.task {
                Some(true) => format!("☑ ~~{t}~~"),
                Some(false) => format!("☐ {t}"),
                None => t,
            };
            o.push(Want { text: t, level: level.min(8), numbered: self.ordered.is_some() });
            if let Some(l) = &it.sub {
                l.bullets(level + 1, o);
            }
        }
    }
}
#[derive(Clone, Debug)]
pub enum Block {
    H1(Ink),
    Sub(u32, Ink),
    Para(Ink),
    List(List),
    Table(Vec<Vec<Ink>>),
    Code(String, String, bool),
    Quote(Vec<Ink>),
    Rule(&'static str),
    Image(Ink, String),
}
#[derive(Clone, Debug, PartialEq)]
struct Want {
    text: String,
    level: u32,
    numbered: bool,
}
#[derive(Clone, Debug, Default)]
struct WantSlide {
    /// None: any title
    title: Option<String>,
    bullets: Vec<Want>,
    table: Option<Vec<Vec<String>>>,
    codes: Vec<(String, String)>,
    notes: Vec<String>,
    labels: Vec<String>,
    images: Vec<String>,
}
const PNG: &[u8] = &[0x89, b'P', b'N', b'G', 13, 10, 26, 10, 7, 7, 7];
const LANGS: &[&str] = &["rust", "python", "", "text", "json", "nosuchlang", "c++", "js"];
fn code_text(s: &mut Src) -> String {
    let n = s.len(1, 5);
    let mut v: Vec<String> = (0..n)
        .map(|_| match s.below(7) {
            0 => String::new(),
            1 => format!("    {}", gen::word(s)),
            2 => format!("  {} # *x* & <y>", gen::word(s)),
            3 => "| a | b |".into(),
            4 => "# not a heading".into(),
            _ => format!("{} = \"{}\";", gen::word(s), gen::word(s)),
        })
        .collect();
    // the first and the last line have something on them
    for i in [0, v.len() - 1] {
        if v[i].is_empty() {
            v[i] = "x".into();
        }
    }
    v.join("\n")
}
fn block(s: &mut Src, prev: Option<&Block>, dir: &str) -> Block {
    match s.below(22) {
        0..=4 => Block::H1(inline(s, 1, false)),
        5 | 6 => Block::Sub(s.range(2, 6) as u32, inline(s, 1, false)),
        7..=9 => Block::Para(inline(s, 2, true)),
        10..=13 => {
            if matches!(prev, Some(Block::List(_))) {
                return Block::Para(inline(s, 1, true));
            }
            Block::List(list(s, 2))
        }
        14 | 15 => {
            let cols = s.len(1, 4);
            let rows = s.len(1, 4);
            Block::Table(
                (0..rows)
                    .map(|_| (0..cols).map(|_| if s.chance(10) { Ink::default() } else { inline(s, 1, false) }).collect())
                    .collect(),
            )
        }
        16 | 17 => {
            let t = code_text(s);
            let indented = s.chance(20) && !matches!(prev, Some(Block::List(_)) | Some(Block::Para(_)) | Some(Block::Code(_, _, true)) | None);
            Block::Code(if indented { String::new() } else { s.pick(LANGS).to_string() }, t, indented)
        }
        18 | 19 => {
            let n = s.len(1, 3);
            Block::Quote((0..n).map(|_| inline(s, 1, false)).collect())
        }
        20 => Block::Rule(*s.pick(&["---", "***", "___", "- - -", "----------"])),
        _ => {
            let alt = if s.chance(25) { Ink::default() } else { words_ink(s) };
            let p = if s.bool() { format!("{dir}/pic.png") } else { format!("missing/{}.png", gen::word(s)) };
            Block::Image(alt, p)
        }
    }
}
pub fn render(bs: &[Block], s: &mut Src) -> String {
    let mut o = String::new();
    for (i, b) in bs.iter().enumerate() {
        if i > 0 {
            o.push('\n');
        }
        match b {
            Block::H1(t) => {
                if s.chance(15) {
                    o.push_str(&format!("{}\n===\n", t.md));
                } else {
                    o.push_str(&format!("# {}{}\n", t.md, s.pick(&["", "", " #"])));
                }
            }
            Block::Sub(n, t) => {
                if *n == 2 && s.chance(15) {
                    o.push_str(&format!("{}\n---\n", t.md));
                } else {
                    o.push_str(&format!("{} {}\n", "#".repeat(*n as usize), t.md));
                }
            }
            Block::Para(t) => o.push_str(&format!("{}\n", t.md)),
            Block::List(l) => l.md(&mut o, 0),
            Block::Table(rows) => {
                let edge = s.bool() || rows[0].len() == 1 || rows.iter().any(|r| r.iter().any(|c| c.md.is_empty()));
                for (k, r) in rows.iter().enumerate() {
                    let line = r.iter().map(|c| c.md.clone()).collect::<Vec<_>>().join(" | ");
                    o.push_str(&if edge { format!("| {line} |\n") } else { format!("{line}\n") });
                    if k == 0 {
                        let d: Vec<&str> = r.iter().map(|_| *s.pick(&["---", ":---", ":-:", "---:"])).collect();
                        o.push_str(&if edge { format!("|{}|\n", d.join("|")) } else { format!("{}\n", d.join(" | ")) });
                    }
                }
            }
            Block::Code(l, t, indented) => {
                if *indented {
                    for line in t.lines() {
                        o.push_str(&if line.is_empty() { "\n".into() } else { format!("    {line}\n") });
                    }
                } else {
                    let f = *s.pick(&["```", "~~~", "````"]);
                    o.push_str(&format!("{f}{l}\n{t}\n{f}\n"));
                }
            }
            Block::Quote(v) => o.push_str(&v.iter().map(|p| format!("> {}\n", p.md)).collect::<Vec<_>>().join(">\n")),
            Block::Rule(r) => o.push_str(&format!("{r}\n")),
            Block::Image(a, p) => o.push_str(&format!("![{}]({p})\n", a.md)),
        }
    }
    o
}
fn model(bs: &[Block]) -> Vec<WantSlide> {
    let mut done: Vec<WantSlide> = vec![];
    let mut cur: Option<WantSlide> = None;
    fn next(done: &mut Vec<WantSlide>, cur: &mut Option<WantSlide>) {
        if let Some(c) = cur.take() {
            done.push(c);
        }
        if let Some(l) = done.last() {
            *cur = Some(WantSlide { title: l.title.as_ref().map(|t| format!("{t} (continued)")), ..Default::default() });
        }
    }
    fn bullet(done: &mut Vec<WantSlide>, cur: &mut Option<WantSlide>, w: Want) {
        if cur.as_ref().is_some_and(|c| c.table.is_some()) {
            next(done, cur);
        }
        cur.get_or_insert_with(Default::default).bullets.push(w);
    }
    for b in bs {
        match b {
            Block::H1(t) => {
                done.extend(cur.take());
                cur = Some(WantSlide { title: Some(t.want.clone()), ..Default::default() });
            }
            Block::Sub(_, t) => bullet(&mut done, &mut cur, Want { text: format!("**{}**", t.want), level: 0, numbered: false }),
            Block::Para(t) => bullet(&mut done, &mut cur, Want { text: t.want.clone(), level: 0, numbered: false }),
            Block::List(l) => {
                let mut v = vec![];
                l.bullets(0, &mut v);
                for w in v {
                    bullet(&mut done, &mut cur, w);
                }
            }
            Block::Table(rows) => {
                if cur.as_ref().is_some_and(|c| c.table.is_some() || !c.bullets.is_empty()) {
                    next(&mut done, &mut cur);
                }
                cur.get_or_insert_with(Default::default).table = Some(rows.iter().map(|r| r.iter().map(|c| c.want.clone()).collect()).collect());
            }
            Block::Code(l, t, ind) => cur.get_or_insert_with(Default::default).codes.push((if *ind || l.is_empty() { "text".into() } else { l.clone() }, t.clone())),
            Block::Quote(v) => cur.get_or_insert_with(Default::default).notes.extend(v.iter().map(|p| p.want.clone())),
            Block::Rule(_) => next(&mut done, &mut cur),
            Block::Image(a, p) => {
                let c = cur.get_or_insert_with(Default::default);
                if p.starts_with("missing/") {
                    c.labels.push(format!("[Image: {}]", if a.want.is_empty() { p } else { &a.want }));
                } else {
                    c.images.push(p.clone());
                }
            }
        }
    }
    done.extend(cur);
    done
}
fn compare(got: &[SlideContent], want: &[WantSlide]) -> Res {
    ensure!(got.len() == want.len(), "{} slides {:?}, expected {} {:?}", got.len(), got.iter().map(|s| &s.title).collect::<Vec<_>>(), want.len(), want.iter().map(|s| &s.title).collect::<Vec<_>>());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if let Some(t) = &w.title {
            ensure!(&g.title == t, "slide {i}: title {:?}, expected {t:?}", g.title);
        }
        let b: Vec<Want> = g.bullets.iter().map(|b| Want { text: b.text.clone(), level: b.level, numbered: b.style == BulletStyle::Number }).collect();
        ensure!(b == w.bullets, "slide {i}: bullets {b:?}, expected {:?}", w.bullets);
        let c: Vec<&str> = g.content.iter().map(|c| c.trim_start()).collect();
        ensure!(c == w.bullets.iter().map(|b| b.text.as_str()).collect::<Vec<_>>(), "slide {i}: content {c:?}, expected {:?}", w.bullets);
        let t = g.table.as_ref().map(|t| t.rows.iter().map(|r| r.cells.iter().map(|c| c.text.clone()).collect::<Vec<_>>()).collect::<Vec<_>>());
        ensure!(t == w.table, "slide {i}: table {t:?}, expected {:?}", w.table);
        ensure!(g.has_table == w.table.is_some(), "slide {i}: has_table {}", g.has_table);
        let c: Vec<(String, String)> = g.code_blocks.iter().map(|c| (c.language.clone(), c.code.clone())).collect();
        ensure!(c == w.codes, "slide {i}: code {c:?}, expected {:?}", w.codes);
        let n: Vec<String> = g.notes.iter().flat_map(|n| n.lines()).map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect();
        ensure!(n == w.notes, "slide {i}: notes {n:?}, expected {:?}", w.notes);
        let l: Vec<String> = g.shapes.iter().filter_map(|s| s.text.clone()).collect();
        ensure!(l == w.labels, "slide {i}: placeholders {l:?}, expected {:?}", w.labels);
        ensure!(g.images.len() == w.images.len() && g.images.iter().all(|i| i.get_bytes().as_deref() == Some(PNG)), "slide {i}: {} images, expected {}", g.images.len(), w.images.len());
    }
    Ok(())
}
pub fn blocks(c: &mut Ctx, h1: bool) -> Result<Vec<Block>, Fail> {
    let f = c.file("pic.png");
    std::fs::write(&f, PNG).map_err(|e| Fail { msg: e.to_string() })?;
    let dir = f.parent().unwrap().to_str().unwrap().to_string();
    let n = c.s.len(1, 9);
    let mut v: Vec<Block> = vec![];
    if h1 || c.s.chance(80) {
        v.push(Block::H1(inline(&mut c.s, 1, false)));
    }
    for _ in 0..n {
        let b = block(&mut c.s, v.last(), &dir);
        v.push(b);
    }
    for b in &v {
        c.label(match b {
            Block::H1(_) => "heading",
            Block::Sub(..) => "subheading",
            Block::Para(_) => "paragraph",
            Block::List(l) if l.items.iter().any(|i| i.sub.is_some()) => "nested list",
            Block::List(l) if l.items.iter().any(|i| i.task.is_some()) => "task list",
            Block::List(_) => "list",
            Block::Table(_) => "table",
            Block::Code(..) => "code",
            Block::Quote(_) => "quote",
            Block::Rule(_) => "rule",
            Block::Image(..) => "image",
        });
    }
    Ok(v)
}
fn documents(c: &mut Ctx) -> Res {
    let bs = blocks(c, false)?;
    let mut md = render(&bs, &mut c.s);
    if c.s.chance(15) {
        md = md.replace('\n', "\r\n");
        c.label("crlf");
    }
    c.note(|| md.clone());
    let want = model(&bs);
    c.nontrivial(bs.len() > 2);
    match guard(|| parse_markdown(&md))? {
        Ok(got) => compare(&got, &want),
        Err(x) => {
            ensure!(want.is_empty(), "rejected: {x}");
            Ok(())
        }
    }
}
/// The file the command writes shows what was parsed.
fn command(c: &mut Ctx) -> Res {
    let bs = blocks(c, true)?;
    let md = render(&bs, &mut c.s);
    c.note(|| md.clone());
    let want = model(&bs);
    let (f, o) = (c.file("in.md"), c.file("sub/dir/out.pptx"));
    let _ = std::fs::remove_dir_all(o.parent().unwrap().parent().unwrap());
    std::fs::write(&f, &md).map_err(|e| Fail { msg: e.to_string() })?;
    let title = if c.s.bool() { Some(gen::words(&mut c.s)) } else { None };
    guard(|| FromMarkdownCommand::execute(f.to_str().unwrap(), o.to_str().unwrap(), title.as_deref()))?.map_err(|e| Fail { msg: format!("command failed: {e}") })?;
    let b = std::fs::read(&o).map_err(|e| Fail { msg: format!("no output: {e}") })?;
    let p = e(Pkg::read(&b))?;
    e(crate::opc::check_pkg(&p))?;
    if let Some(t) = &title {
        check_core_title(&p, t)?;
    }
    let slides = e(p.slide_paths())?;
    ensure!(slides.len() == want.len(), "{} slides in the file, expected {}", slides.len(), want.len());
    let parsed = guard(|| parse_markdown(&md))?.map_err(|x| Fail { msg: x })?;
    for (i, (s, path)) in parsed.iter().zip(&slides).enumerate() {
        check_slide_text(&p, path, s, i)?;
        // every expected text is on the slide
        let all = e(p.xml(path))?.all("p").iter().map(|x| para_text(x)).collect::<Vec<_>>().join("\n");
        for w in want[i].bullets.iter().map(|b| &b.text).chain(want[i].table.iter().flatten().flatten()) {
            ensure!(all.contains(norm(w).as_str()), "slide {i} of the file lacks {w:?}: {all:?}");
        }
        c.label(if want[i].notes.is_empty() { "plain" } else { "with notes" });
    }
    c.nontrivial(want.len() > 1);
    Ok(())
}
/// Documents one after the other give the slides of one after those of the other.
fn joined(c: &mut Ctx) -> Res {
    let (a, b) = (blocks(c, true)?, blocks(c, true)?);
    let (a, b) = (render(&a, &mut c.s), render(&b, &mut c.s));
    c.note(|| format!("{a}\n=====\n{b}"));
    let get = |t: &str| guard(|| parse_markdown(t))?.map_err(|x| Fail { msg: x });
    let mut sep = get(&a)?;
    sep.extend(get(&b)?);
    let both = get(&format!("{a}\n\n{b}"))?;
    ensure!(both.len() == sep.len(), "{} slides together, {} apart", both.len(), sep.len());
    for (i, (x, y)) in both.iter().zip(&sep).enumerate() {
        ensure!(format!("{x:?}") == format!("{y:?}"), "slide {i} differs when parsed together");
    }
    c.nontrivial(both.len() > 2);
    Ok(())
}
const BITS: &[&str] = &["# ", "## ", "- ", "* ", "1. ", "> ", "    ", "\n", "\n\n", "```", "```mermaid\n", "~~~", "|", "---", "***", "**", "*", "_", "~~", "`", "[", "](", ")", "![", "<", ">", "<!--", "-->", "<sub>", "</sub>", "<mark>", "</", "&amp;", "&#0;", "\\", "+++\n", "a", "b c", "é", "😀", "\t", "\r", "\u{0}", "- [ ] ", "- [x] ", "| a | b |\n|---|---|\n", "<!-- </ <mark> -->", "<div>", "==", "^", ":", "https", "===\n", "[^1]", "[^1]: "];
fn noise(c: &mut Ctx) -> Res {
    let n = c.s.len(1, 40);
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(*c.s.pick(BITS));
    }
    c.note(|| format!("{t:?}"));
    c.nontrivial(n > 5);
    if let Ok(v) = guard(|| parse_markdown(&t))? {
        ensure!(!v.is_empty(), "accepted without slides");
        c.label("accepted");
        let b = guard(|| ppt_rs::generator::create_pptx_with_content("t", v))?.map_err(|e| Fail { msg: e.to_string() })?;
        e(crate::opc::check_package(&b))?;
    }
    Ok(())
}
fn probe() -> Res {
    let v = guard(|| parse_markdown("# a\n\n- one **two**\n"))?.map_err(|x| Fail { msg: x })?;
    let b = guard(|| ppt_rs::generator::create_pptx_with_content("t", v))?.map_err(|e| Fail { msg: e.to_string() })?;
    let p = e(Pkg::read(&b))?;
    let s = e(p.slide_paths())?;
    let t = e(p.xml(&s[0]))?.all("p").iter().map(|x| para_text(x)).collect::<Vec<_>>().join("\n");
    ensure!(!t.contains("**"), "emphasis of imported Markdown is shown as its marks: {t:?}");
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "documents: more than two blocks; command and joined: several slides; noise: more than five pieces",
        assumptions: &["headings stand outside lists and quotes, pictures outside headings", "pictures are local files"],
        subs: vec![
            Sub { name: "documents", quick: 20000, run: documents },
            Sub { name: "command", quick: 500, run: command },
            Sub { name: "joined", quick: 4000, run: joined },
            Sub { name: "noise", quick: 2500, run: noise },
        ],
        probes: vec![Probe { key: "markdown-inline-markers", run: probe }],
    }
}
