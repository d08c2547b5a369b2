//! C31: the command-line tool.
use super::deck_p::{body_text, build, check_core_title, e, norm, open, sp_text, tree};
use crate::engine::*;
use crate::gen;
use crate::opc::Pkg;
use ppt_rs::api::Presentation;
use ppt_rs::core::{validate_package_bytes, ValidationSeverity};
use ppt_rs::generator::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

struct Out {
    code: i32,
    out: String,
    err: String,
}
fn io<T>(r: std::io::Result<T>) -> Result<T, Fail> {
    r.map_err(|x| Fail { msg: format!("harness: {x}") })
}
/// A fresh working directory for the case.
fn dir(c: &Ctx) -> Result<PathBuf, Fail> {
    let d = c.file("cli");
    let _ = std::fs::remove_dir_all(&d);
    io(std::fs::create_dir_all(&d))?;
    Ok(d)
}
type Snap = BTreeMap<PathBuf, Vec<u8>>;
fn snap(d: &Path) -> Result<Snap, Fail> {
    let mut m = Snap::new();
    let mut todo = vec![d.to_path_buf()];
    while let Some(k) = todo.pop() {
        for f in io(std::fs::read_dir(&k))? {
            let p = io(f)?.path();
            if p.is_dir() {
                m.insert(p.clone(), b"<directory>".to_vec());
                todo.push(p);
            } else {
                let b = io(std::fs::read(&p))?;
                m.insert(p, b);
            }
        }
    }
    Ok(m)
}
/// Run the tool in `d`. `output` (relative) is the only file it may write, and only if it succeeds.
fn cli(c: &Ctx, d: &Path, args: &[String], output: Option<&str>) -> Result<Out, Fail> {
    let before = snap(d)?;
    let exe = io(std::env::current_exe())?.with_file_name("pptcli");
    let (fo, fe) = (c.file("cli.out"), c.file("cli.err"));
    let mut ch = io(Command::new(exe)
        .args(args)
        .current_dir(d)
        .stdin(Stdio::null())
        .stdout(io(std::fs::File::create(&fo))?)
        .stderr(io(std::fs::File::create(&fe))?)
        .spawn())?;
    let t = Instant::now();
    let mut nap = 200;
    let st = loop {
        if let Some(s) = io(ch.try_wait())? {
            break s;
        }
        if t.elapsed() > Duration::from_secs(60) {
            let _ = ch.kill();
            let _ = ch.wait();
            return fail(format!("{args:?} did not end within 60 s"));
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 2).min(10_000);
    };
    let text = |p: &Path| std::fs::read(p).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
    let o = Out { code: st.code().unwrap_or(-1), out: text(&fo), err: text(&fe) };
    ensure!(matches!(o.code, 0..=2) && !o.err.contains("panicked at"), "{args:?} ended with {:?}: {}", st, o.err);
    ensure!(o.code == 0 || !o.err.trim().is_empty(), "{args:?} failed without saying why");
    let after = snap(d)?;
    let out_path = output.map(|p| d.join(p));
    for (p, b) in &after {
        let may = o.code == 0 && out_path.as_ref().is_some_and(|q| q == p || (!before.contains_key(p) && p.is_dir() && q.starts_with(p)));
        ensure!(may || before.get(p) == Some(b), "{args:?} (exit {}) wrote {}", o.code, p.display());
    }
    for p in before.keys() {
        ensure!(after.contains_key(p), "{args:?} removed {}", p.display());
    }
    if o.code == 0 {
        if let Some(p) = &out_path {
            ensure!(after.contains_key(p), "{args:?} succeeded without writing {}", p.display());
        }
    }
    Ok(o)
}
fn name(s: &mut Src, ext: &str) -> String {
    let stem = s.pick(&["a", "deck one", "übung", "x.y", "日本", "it's", "a&b", "q\"uote", ".hidden", "UP"]).to_string();
    let sub = *s.pick(&["", "", "", "dir/", "dir/in ner/", "./", "dir/../"]);
    format!("{sub}{stem}{ext}")
}
fn put(d: &Path, name: &str, b: &[u8]) -> Res {
    // "dir/../x" needs dir
    let p = d.join(name);
    io(std::fs::create_dir_all(p.parent().unwrap()))?;
    io(std::fs::write(&p, b))
}
fn title(s: &mut Src) -> Option<String> {
    s.opt(60, |s| if s.chance(20) { s.pick(&["-x", "--json", "", "=", " "]).to_string() } else { gen::text(s) }.replace('\0', ""))
}
fn push_title(s: &mut Src, args: &mut Vec<String>, t: &Option<String>) {
    if let Some(t) = t {
        if t.starts_with('-') || s.bool() {
            args.push(format!("--title={t}"));
        } else {
            args.extend(["--title".into(), t.clone()]);
        }
    }
}
/// A path as the tool and the file system understand it, relative to the working directory.
fn clean(p: &str) -> String {
    p.replace("dir/../", "").replace("./", "")
}
fn read(d: &Path, p: &str) -> Result<Pkg, Fail> {
    let b = io(std::fs::read(d.join(p)))?;
    let p = e(Pkg::read(&b))?;
    e(crate::opc::check_pkg(&p))?;
    Ok(p)
}

// ---------------------------------------------------------------- create
fn create(c: &mut Ctx) -> Res {
    let d = dir(c)?;
    let s = &mut c.s;
    io(std::fs::create_dir_all(d.join("dir")))?;
    let out = name(s, ".pptx");
    let t = title(s);
    let n = s.opt(80, |s| if s.chance(5) { 150 } else { s.len(0, 12) });
    let mut args = vec!["create".to_string()];
    let first = s.bool();
    if first {
        args.push(out.clone());
    }
    push_title(s, &mut args, &t);
    if let Some(n) = n {
        args.extend(["--slides".into(), n.to_string()]);
    }
    let mut theme = None;
    let mut bad = false;
    match s.below(8) {
        0 | 1 => {
            let mut dk = gen::deck(s, gen::text, false);
            let th = gen::theme(s);
            dk.settings = Some(PresentationSettings::new().theme(th));
            let b = build(&dk)?;
            put(&d, "tpl.pptx", &b)?;
            theme = Some(e(Pkg::read(&b))?);
            args.extend(["--template".into(), "tpl.pptx".into()]);
            c.label("template");
        }
        2 => {
            args.extend(["--template".into(), "nowhere.pptx".into()]);
            bad = true;
            c.label("template missing");
        }
        3 => {
            io(std::fs::create_dir_all(d.join(clean(&out))))?;
            bad = true;
            c.label("output is a directory");
        }
        4 => {
            put(&d, &clean(&out), b"old")?;
            c.label("overwrite");
        }
        _ => {}
    }
    if !first {
        args.push(out.clone());
    }
    c.note(|| format!("{args:?}"));
    c.nontrivial(n.unwrap_or(1) > 1);
    let o = cli(c, &d, &args, Some(&clean(&out)))?;
    if bad {
        ensure!(o.code == 1, "{args:?} cannot work but exits {}", o.code);
        return Ok(());
    }
    ensure!(o.code == 0, "{args:?} exits {}: {}", o.code, o.err);
    let p = read(&d, &out)?;
    let sl = e(p.slide_paths())?;
    ensure!(sl.len() == n.unwrap_or(1), "{} slides in the file, asked for {n:?}", sl.len());
    check_core_title(&p, t.as_deref().unwrap_or("Presentation"))?;
    if let Some(t) = theme {
        let th = |p: &Pkg| -> Result<String, Fail> {
            let m = e(p.main_part())?;
            let m = e(p.related(&m, "slideMaster"))?;
            let t = e(p.related(&m[0], "theme"))?;
            Ok(e(p.xml(&t[0]))?.canon())
        };
        ensure!(th(&p)? == th(&t)?, "the new file does not have the theme of the template");
    }
    Ok(())
}

// ---------------------------------------------------------------- convert
/// Text with unique ids blanked.
fn no_ids(b: &[u8]) -> Vec<u8> {
    let hex = |r: &[u8]| r.iter().all(|c| c.is_ascii_hexdigit());
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if i + 36 <= b.len() && b[i + 8] == b'-' && b[i + 13] == b'-' && b[i + 18] == b'-' && b[i + 23] == b'-' && hex(&b[i..i + 8]) && hex(&b[i + 24..i + 36]) {
            o.push(b'#');
            i += 36;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
fn same_deck(got: &Pkg, want: &Pkg) -> Res {
    let names = |p: &Pkg| p.parts.keys().cloned().collect::<Vec<_>>();
    ensure!(names(got) == names(want), "the file has parts {:?}, expected {:?}", names(got), names(want));
    for (n, b) in &got.parts {
        if n != "docProps/core.xml" {
            ensure!(no_ids(b) == no_ids(&want.parts[n]), "{n} differs from what the library writes");
        }
    }
    Ok(())
}
fn convert(c: &mut Ctx) -> Res {
    let d = dir(c)?;
    let html = c.s.bool();
    let (text, opts, library) = if html {
        let (h, _, o) = super::html_p::document(c);
        let lib = guard(|| ppt_rs::import::parse_html_with_options(&h, o.clone()))?;
        let mut a = vec![];
        let dflt = (50, 10);
        if o.max_slides != dflt.0 || c.s.bool() {
            a.extend(["--max-slides".to_string(), o.max_slides.to_string()]);
        }
        if o.max_bullets != dflt.1 || c.s.bool() {
            a.push(format!("--max-bullets={}", o.max_bullets));
        }
        for (f, on) in [("--no-images", o.include_images), ("--no-tables", o.include_tables), ("--no-code", o.include_code)] {
            if !on {
                a.push(f.into());
            }
        }
        (h, a, lib)
    } else {
        let b = super::markdown_p::blocks(c, false)?;
        let m = super::markdown_p::render(&b, &mut c.s);
        let lib = guard(|| ppt_rs::cli::markdown::parse_markdown(&m))?;
        (m, vec![], lib)
    };
    let s = &mut c.s;
    let ext = if html { *s.pick(&[".html", ".htm", ""]) } else { *s.pick(&[".md", ".markdown", ".txt", ""]) };
    io(std::fs::create_dir_all(d.join("dir")))?;
    let input = name(s, ext);
    let t = title(s);
    let explicit = s.bool();
    let out = if explicit {
        let x = *s.pick(&[".pptx", ".PPTX", ".bin"]);
        format!("out/{}", name(s, x))
    } else {
        let p = Path::new(&input);
        p.with_file_name(format!("{}.pptx", p.file_stem().unwrap().to_str().unwrap())).to_str().unwrap().to_string()
    };
    if out.contains("/dir/../") {
        io(std::fs::create_dir_all(d.join("out/dir")))?;
    }
    let cmd = if html { *s.pick(&["html2ppt", "from-html", "from-html-file"]) } else { *s.pick(&["md2ppt", "from-md", "from-markdown"]) };
    let mut args = vec![cmd.to_string()];
    let late = s.bool();
    if late {
        push_title(s, &mut args, &t);
        args.extend(opts.iter().cloned());
    }
    args.push(input.clone());
    if explicit {
        args.push(out.clone());
    }
    if !late {
        push_title(s, &mut args, &t);
        args.extend(opts);
    }
    let broken = s.below(12);
    match broken {
        0 => c.label("input missing"),
        1 => {
            let mut b = text.clone().into_bytes();
            b.extend([0xff, 0xfe, b'x']);
            put(&d, &input, &b)?;
            c.label("input not text");
        }
        _ => put(&d, &input, text.as_bytes())?,
    }
    c.label(if html { "html" } else { "markdown" });
    c.note(|| format!("{args:?}\n{text}"));
    let o = cli(c, &d, &args, Some(&clean(&out)))?;
    let slides = match library {
        Ok(v) if broken > 1 && !v.is_empty() => v,
        _ => {
            ensure!(o.code == 1, "{args:?} has nothing to convert but exits {}", o.code);
            return Ok(());
        }
    };
    ensure!(o.code == 0, "{args:?} exits {}: {}", o.code, o.err);
    c.nontrivial(slides.len() > 1);
    let p = read(&d, &out)?;
    if let Some(t) = &t {
        check_core_title(&p, t)?;
    }
    let any = t.as_deref().unwrap_or("x");
    let lib = guard(|| create_pptx_with_content(any, slides))?.map_err(|x| Fail { msg: x.to_string() })?;
    same_deck(&p, &e(Pkg::read(&lib))?)
}

// ---------------------------------------------------------------- validate, info
fn inspect(c: &mut Ctx) -> Res {
    let d = dir(c)?;
    io(std::fs::create_dir_all(d.join("dir")))?;
    let file = name(&mut c.s, ".pptx");
    let mut want = None;
    let kind = c.s.below(10);
    let bytes = match kind {
        0 => None,
        1 => Some(c.s.blob(0, 300)),
        k => {
            let rich = c.s.bool();
            let dk = gen::deck(&mut c.s, gen::text, rich);
            let b = build(&dk)?;
            if k < 6 {
                want = Some((dk.title.clone(), dk.slides.len()));
                Some(b)
            } else {
                let mut p = e(Pkg::read(&b))?;
                crate::damage::inflict(&mut p, &mut c.s, &[0, 0, 0, 1, 2, 2, 2, 3, 4, 5, 6, 7, 8, 9]);
                Some(p.write(true))
            }
        }
    };
    c.label(["missing", "noise", "sound", "sound", "sound", "sound", "damaged", "damaged", "damaged", "damaged"][kind as usize]);
    c.note(|| format!("{file} {:?}", bytes.as_ref().map(|b| b.len())));
    if let Some(b) = &bytes {
        put(&d, &file, b)?;
    }
    // info
    let o = cli(c, &d, &["info".into(), file.clone()], None)?;
    ensure!((o.code == 0) == bytes.is_some(), "info exits {}: {}", o.code, o.err);
    if let Some(b) = &bytes {
        ensure!(o.out.contains(&format!("{} bytes", b.len())), "info does not show the size {}: {}", b.len(), o.out);
        if let Some((t, n)) = &want {
            ensure!(o.out.lines().any(|l| l.trim() == format!("Slides: {n}")), "info does not show the {n} slides: {}", o.out);
            ensure!(norm(&o.out).contains(&norm(&format!("Title: {t}"))), "info does not show the title {t:?}: {}", o.out);
            c.nontrivial(*n > 1);
        }
    }
    // validate
    let h = cli(c, &d, &["validate".into(), file.clone()], None)?;
    let mut args = vec!["validate".to_string(), file.clone()];
    args.insert(1 + c.s.usize(2), "--json".into());
    let j = cli(c, &d, &args, None)?;
    ensure!(h.code == j.code, "validate exits {} as text and {} as JSON", h.code, j.code);
    let Some(b) = bytes else {
        ensure!(h.code == 1, "validating a missing file exits {}", h.code);
        return Ok(());
    };
    let r = guard(|| validate_package_bytes(&b))?;
    ensure!((h.code == 0) == r.is_valid(), "validate exits {}, the report says valid: {}", h.code, r.is_valid());
    ensure!(h.out.contains(&format!("{} error(s), {} warning(s)", r.error_count(), r.warning_count())), "validate does not show the counts: {}", h.out);
    let v: serde_json::Value = serde_json::from_str(&j.out).map_err(|x| Fail { msg: format!("validate --json prints no JSON ({x}): {}", j.out) })?;
    ensure!(v["file"] == file.as_str(), "JSON names {}, expected {file:?}", v["file"]);
    ensure!(v["valid"] == r.is_valid() && v["error_count"] == r.error_count() && v["warning_count"] == r.warning_count(), "JSON says {} {} {}", v["valid"], v["error_count"], v["warning_count"]);
    let empty = vec![];
    let a = v["issues"].as_array().unwrap_or(&empty);
    ensure!(a.len() == r.issues.len(), "JSON lists {} issues of {}", a.len(), r.issues.len());
    for i in &r.issues {
        ensure!(h.out.contains(&i.message), "validate does not show {:?}", i.message);
        let sev = if matches!(i.severity, ValidationSeverity::Error) { "error" } else { "warning" };
        ensure!(
            a.iter().any(|k| k["message"] == i.message.as_str() && k["severity"] == sev && k["path"] == serde_json::json!(i.path) && k["category"] == format!("{:?}", i.category)),
            "JSON lacks {i:?}"
        );
    }
    c.nontrivial(!r.issues.is_empty());
    Ok(())
}

// ---------------------------------------------------------------- merge
/// The texts of every slide of a package.
fn texts(p: &Pkg) -> Result<Vec<Vec<String>>, Fail> {
    let mut v = vec![];
    for path in e(p.slide_paths())? {
        let t = e(tree(p, &path))?;
        let mut x: Vec<String> = t.sps.iter().map(sp_text).map(|k| norm(&k)).collect();
        for tb in &t.tables {
            for tc in tb.all("tc") {
                x.push(norm(&tc.child("txBody").map(body_text).unwrap_or_default()));
            }
        }
        v.push(x);
    }
    Ok(v)
}
fn merge(c: &mut Ctx) -> Res {
    let d = dir(c)?;
    let n = c.s.len(1, 4);
    let mut inputs = vec![];
    let mut decks = vec![];
    for i in 0..n {
        let rich = c.s.chance(30);
        let dk = gen::deck(&mut c.s, gen::text, rich);
        let b = build(&dk)?;
        open(&dk, &b)?;
        let f = format!("{i}{}", clean(&name(&mut c.s, ".pptx")).replace('/', "_"));
        put(&d, &f, &b)?;
        inputs.push(f);
        decks.push(dk);
    }
    // the same file may be given twice
    if c.s.chance(20) {
        let i = c.s.usize(n);
        inputs.push(inputs[i].clone());
        decks.push(decks[i].clone());
    }
    let mut args = vec!["merge".to_string()];
    let flag = *c.s.pick(&["-o", "--output"]);
    let o = [flag.to_string(), "out.pptx".to_string()];
    let late = c.s.bool();
    if !late {
        args.extend(o.clone());
    }
    let bad = c.s.below(10);
    let mut files = inputs.clone();
    if bad < 2 {
        let at = c.s.usize(files.len() + 1);
        if bad == 1 {
            put(&d, "bad.pptx", b"PK\x03\x04 not really")?;
        }
        files.insert(at, "bad.pptx".into());
        c.label("unreadable input");
    }
    args.extend(files);
    if late {
        args.extend(o);
    }
    c.note(|| format!("{args:?} {:?}", decks.iter().map(|d| d.slides.iter().map(|s| (&s.title, s.content.len())).collect::<Vec<_>>()).collect::<Vec<_>>()));
    let r = cli(c, &d, &args, Some("out.pptx"))?;
    if bad < 2 {
        ensure!(r.code == 1, "merging an unreadable file exits {}", r.code);
        return Ok(());
    }
    ensure!(r.code == 0, "merge exits {}: {}", r.code, r.err);
    let p = read(&d, "out.pptx")?;
    check_core_title(&p, &decks[0].title)?;
    let got = texts(&p)?;
    let mut want = vec![];
    for f in &inputs {
        let r = cli(c, &d, &["merge".into(), "-o".into(), "one.pptx".into(), f.clone()], Some("one.pptx"))?;
        ensure!(r.code == 0, "merging {f} alone exits {}: {}", r.code, r.err);
        want.extend(texts(&read(&d, "one.pptx")?)?);
    }
    let total: usize = decks.iter().map(|d| d.slides.len()).sum();
    ensure!(got.len() == total, "{} slides, the inputs have {total}", got.len());
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        ensure!(g == w, "slide {} of the merged file shows {g:?}, from its input alone {w:?}", i + 1);
    }
    for (i, (g, s)) in got.iter().zip(decks.iter().flat_map(|d| &d.slides)).enumerate() {
        let t = norm(&s.title);
        ensure!(s.layout == SlideLayout::Blank || g.iter().any(|x| x.contains(&t)), "slide {} lacks its title {t:?}: {g:?}", i + 1);
    }
    c.nontrivial(inputs.len() > 1);
    Ok(())
}

// ---------------------------------------------------------------- export
fn export(c: &mut Ctx) -> Res {
    let d = dir(c)?;
    let dk = gen::deck(&mut c.s, gen::text, false);
    let b = build(&dk)?;
    put(&d, "in.pptx", &b)?;
    let s = &mut c.s;
    let (ext, by_ext) = *s.pick(&[(".pdf", Some("pdf")), (".html", Some("html")), (".PDF", Some("pdf")), (".Html", Some("html")), (".out", None)]);
    let out = format!("{}{ext}", s.pick(&["o", "my deck", "ü.x"]));
    let f = if by_ext.is_none() || s.bool() { Some(*s.pick(&["pdf", "html"])) } else { None };
    let kind = f.or(by_ext).unwrap();
    let mut args = vec!["export".to_string()];
    let input = if s.chance(8) { "missing.pptx" } else { "in.pptx" };
    let early = s.bool();
    if let (Some(f), true) = (f, early) {
        args.push(format!("--format={f}"));
    }
    args.extend([input.to_string(), out.clone()]);
    if let (Some(f), false) = (f, early) {
        args.extend(["--format".into(), f.into()]);
    }
    c.note(|| format!("{args:?} {} slides", dk.slides.len()));
    c.label(kind);
    c.nontrivial(dk.slides.len() > 1);
    let o = cli(c, &d, &args, Some(&out))?;
    if input == "missing.pptx" {
        ensure!(o.code == 1, "exporting a missing file exits {}", o.code);
        return Ok(());
    }
    ensure!(o.code == 0, "{args:?} exits {}: {}", o.code, o.err);
    let got = io(std::fs::read(d.join(&out)))?;
    let ff = |x: ppt_rs::PptxError| Fail { msg: x.to_string() };
    let pres = Presentation::from_path(d.join("in.pptx")).map_err(ff)?;
    if kind == "html" {
        pres.save_as_html(c.file("ref.html")).map_err(ff)?;
        let want = io(std::fs::read(c.file("ref.html")))?;
        ensure!(no_ids(&got) == no_ids(&want), "{out} is not the HTML the library writes");
    } else {
        ensure!(got.starts_with(b"%PDF-"), "{out} is not a PDF file");
    }
    Ok(())
}

// ---------------------------------------------------------------- usage
fn usage(c: &mut Ctx) -> Res {
    let d = dir(c)?;
    put(&d, "in.pptx", b"x")?;
    const W: &[&str] = &["create", "md2ppt", "info", "validate", "export", "merge", "html2ppt", "pdf2ppt", "in.pptx", "nothing.md", "--title", "--slides", "-1", "x", "--json", "-o", "--format", "docx", "--max-slides=many", "--nope", ""];
    let n = c.s.len(0, 5);
    let mut args: Vec<String> = (0..n).map(|_| c.s.pick(W).to_string()).collect();
    let mode = c.s.below(4);
    match mode {
        0 => args.insert(0, c.s.pick(&["nonsense", "--nope", "Create", "merge", "validate"]).to_string()),
        1 => args = vec!["--help".into()],
        2 => args = vec!["--version".into()],
        _ => args.insert(0, c.s.pick(&["export", "info", "md2ppt", "create"]).to_string()),
    }
    c.note(|| format!("{args:?}"));
    c.nontrivial(args.len() > 1);
    // only outputs with these names can come out of the vocabulary
    let may = ["x", "nothing.md", "docx", "-1"].iter().find(|w| args.iter().any(|a| a == *w)).copied();
    if ["create", "md2ppt", "html2ppt"].iter().any(|w| args.iter().any(|a| a == w)) {
        // these write to whatever name they are given; keep to the exit code
        let exe = io(std::env::current_exe())?.with_file_name("pptcli");
        let o = io(Command::new(exe).args(&args).current_dir(&d).stdin(Stdio::null()).output())?;
        ensure!(matches!(o.status.code(), Some(0..=2)), "{args:?} ended with {:?}", o.status);
        return Ok(());
    }
    let o = cli(c, &d, &args, may)?;
    match mode {
        0 if !matches!(args[0].as_str(), "merge" | "validate") => ensure!(o.code == 2, "{args:?} exits {}", o.code),
        1 => ensure!(o.code == 0 && ["create", "md2ppt", "info", "validate", "export", "merge", "html2ppt", "pdf2ppt"].iter().all(|w| o.out.contains(w)), "--help shows {}", o.out),
        2 => ensure!(o.code == 0 && !o.out.trim().is_empty(), "--version shows {}", o.out),
        _ => {}
    }
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C31",
        rule: "more than one slide or input, a reported problem, or several words on the command line",
        assumptions: &["the default title of converted documents is not judged", "commands that need external programs or the network are not run"],
        subs: vec![
            Sub { name: "create", quick: 600, run: create },
            Sub { name: "convert", quick: 1200, run: convert },
            Sub { name: "inspect", quick: 800, run: inspect },
            Sub { name: "merge", quick: 500, run: merge },
            Sub { name: "export", quick: 400, run: export },
            Sub { name: "usage", quick: 400, run: usage },
        ],
        probes: vec![],
    }
}
