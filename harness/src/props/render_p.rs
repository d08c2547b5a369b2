//! C32: work handed to external renderers, with stand-ins in their place.
use super::deck_p::{check_core_title, e, tree};
use crate::engine::*;
use crate::gen;
use crate::opc::{check_package, Pkg};
use ppt_rs::api::Presentation;
use ppt_rs::export::image_export::{ImageExportOptions, ImageFormat};
use ppt_rs::export::slide_render::render_to_pdf_bytes;
use ppt_rs::generator::SlideContent;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

const R: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
fn io<T>(r: std::io::Result<T>) -> Result<T, Fail> {
    r.map_err(|x| Fail { msg: format!("harness: {x}") })
}
type Snap = BTreeMap<PathBuf, Option<Vec<u8>>>;
fn snap(d: &Path) -> Result<Snap, Fail> {
    let mut m = Snap::new();
    let mut todo = vec![d.to_path_buf()];
    while let Some(k) = todo.pop() {
        for f in io(std::fs::read_dir(&k))? {
            let p = io(f)?.path();
            if p.is_dir() {
                m.insert(p.clone(), None);
                todo.push(p);
            } else {
                let b = io(std::fs::read(&p))?;
                m.insert(p, Some(b));
            }
        }
    }
    Ok(m)
}
/// The stand-ins copy what they were given into `seen`, and write one file per line of `plan`: the picture with the line's
/// number from `pics` (when there is one), then the input, then the line.
const PDFTOPPM: &str = r##"#!/bin/sh
D="$(dirname "$0")"
for a; do in="$pre"; pre="$a"; done
cp "$in" "$D/seen/$$" || exit 7
i=0
while read -r s; do
  i=$((i+1))
  if [ -f "$D/pics/$i" ]; then cp "$D/pics/$i" "$pre$s.png"; else { cat "$in"; echo "#$s"; } > "$pre$s.png"; fi
done < "$D/plan"
read -r code < "$D/code"
exit "$code"
"##;
const SOFFICE: &str = r##"#!/bin/sh
[ "$1" = "--version" ] && { echo LibreOffice; exit 0; }
D="$(dirname "$0")"
while [ $# -gt 1 ]; do
  case "$1" in
    --outdir) out="$2"; shift;;
    --convert-to) ext="${2%%:*}"; shift;;
  esac
  shift
done
cp "$1" "$D/seen/$$" || exit 7
stem="$(basename "$1" .pptx)"
while read -r s; do
  case "$s" in @*) n="$stem${s#@}";; *) n="$s";; esac
  { cat "$1"; echo "#$s"; } > "$out/$n.$ext"
done < "$D/plan"
read -r code < "$D/code"
exit "$code"
"##;
struct World {
    root: PathBuf,
    bin: PathBuf,
    tmp: PathBuf,
    work: PathBuf,
    path0: Option<std::ffi::OsString>,
}
impl Drop for World {
    fn drop(&mut self) {
        std::env::remove_var("TMPDIR");
        match &self.path0 {
            Some(p) => std::env::set_var("PATH", p),
            None => std::env::remove_var("PATH"),
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Tool {
    Works,
    Missing,
    /// ends with a failure after having written its files
    Fails,
}
impl World {
    /// Directories of the case, the stand-ins on the path, temporary files redirected.
    fn new(c: &Ctx, tool: Tool, plan: &[String]) -> Result<World, Fail> {
        let root = c.file("render");
        let _ = std::fs::remove_dir_all(&root);
        let w = World { bin: root.join("bin"), tmp: root.join("tmp"), work: root.join("work"), root, path0: std::env::var_os("PATH") };
        for d in [&w.tmp, &w.work, &w.bin.join("seen"), &w.bin.join("pics")] {
            io(std::fs::create_dir_all(d))?;
        }
        for (n, t) in [("pdftoppm", PDFTOPPM), ("soffice", SOFFICE)] {
            if tool != Tool::Missing {
                let f = w.bin.join(n);
                io(std::fs::write(&f, t))?;
                use std::os::unix::fs::PermissionsExt;
                io(std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)))?;
            }
        }
        io(std::fs::write(w.bin.join("plan"), plan.iter().map(|l| format!("{l}\n")).collect::<String>()))?;
        io(std::fs::write(w.bin.join("code"), if tool == Tool::Fails { "3\n" } else { "0\n" }))?;
        std::env::set_var("TMPDIR", &w.tmp);
        let path = if tool == Tool::Missing { w.bin.display().to_string() } else { format!("{}:/usr/bin:/bin", w.bin.display()) };
        std::env::set_var("PATH", path);
        Ok(w)
    }
    fn seen(&self) -> Result<Vec<Vec<u8>>, Fail> {
        Ok(snap(&self.bin.join("seen"))?.into_values().flatten().collect())
    }
    /// Nothing but `wanted` (below the work directory) is new or different.
    fn check(&self, before: &Snap, wanted: &BTreeMap<PathBuf, Vec<u8>>, dirs: bool) -> Res {
        let left: Vec<_> = snap(&self.tmp)?.into_keys().collect();
        ensure!(left.is_empty(), "temporary files left behind: {left:?}");
        let after = snap(&self.work)?;
        for (p, b) in &after {
            let ok = match wanted.get(p) {
                Some(x) => b.as_ref() == Some(x),
                None => before.get(p) == Some(b) || (dirs && b.is_none()),
            };
            ensure!(ok, "{} {}", p.display(), if wanted.contains_key(p) { "has other content than its slide's picture" } else { "was written though nothing asked for it" });
        }
        for p in before.keys().chain(wanted.keys()) {
            ensure!(after.contains_key(p), "{} is missing", p.display());
        }
        Ok(())
    }
}
fn png(s: &mut Src) -> Vec<u8> {
    let mut b = b"\x89PNG\r\n\x1a\n\0\0\0\x0dIHDR".to_vec();
    b.extend((s.range(1, 2000) as u32).to_be_bytes());
    b.extend((s.range(1, 2000) as u32).to_be_bytes());
    b.extend([8, 6, 0, 0, 0]);
    b.extend(s.blob(4, 60));
    b
}
fn tool(s: &mut Src) -> Tool {
    *s.pick(&[Tool::Works, Tool::Works, Tool::Works, Tool::Missing, Tool::Fails])
}
/// Page suffixes as pdftoppm gives them: padded to the width of the last number, or not.
fn suffixes(s: &mut Src, n: usize) -> Vec<String> {
    let w = if s.bool() { n.to_string().len() } else { 1 };
    (1..=n).map(|i| format!("-{i:0w$}")).collect()
}
fn shuffled<T>(s: &mut Src, mut v: Vec<T>) -> Vec<T> {
    for i in (1..v.len()).rev() {
        let j = i - s.usize(i + 1);
        v.swap(i, j);
    }
    v
}
fn pictures(p: &Pkg, slide: &str) -> Result<Vec<Vec<u8>>, Fail> {
    let t = e(tree(p, slide))?;
    let mut o = vec![];
    for pic in &t.pics {
        let rid = pic.path(&["blipFill", "blip"]).and_then(|b| b.attr_ns(R, "embed")).unwrap_or("");
        let part = e(p.resolve(slide, rid))?.unwrap_or_default();
        o.push(p.parts.get(&part).cloned().unwrap_or_default());
    }
    Ok(o)
}
fn other_files(s: &mut Src, d: &Path, names: &[&str]) -> Res {
    for n in names {
        if s.chance(40) {
            let f = d.join(n);
            io(std::fs::create_dir_all(f.parent().unwrap()))?;
            io(std::fs::write(f, format!("old {n}")))?;
        }
    }
    Ok(())
}
fn import(c: &mut Ctx) -> Res {
    let n = if c.s.chance(30) { c.s.len(9, 21) } else { c.s.len(1, 8) };
    let t = tool(&mut c.s);
    let pics: Vec<Vec<u8>> = (0..n).map(|_| png(&mut c.s)).collect();
    let plan = suffixes(&mut c.s, n);
    let order = { let v: Vec<usize> = (0..n).collect(); shuffled(&mut c.s, v) };
    let bad = c.s.chance(8).then(|| c.s.usize(n));
    let stem = c.s.pick(&["a", "two words", "x.y", "日本", "it's", "a&b <c>", "page-3", "-x"]).to_string();
    let ext = *c.s.pick(&[".pdf", ".PDF", ""]);
    let command = c.s.chance(35);
    let w = World::new(c, t, &order.iter().map(|&i| plan[i].clone()).collect::<Vec<_>>())?;
    for (line, &i) in order.iter().enumerate() {
        let b = if bad == Some(i) { b"not a picture".to_vec() } else { pics[i].clone() };
        io(std::fs::write(w.bin.join("pics").join((line + 1).to_string()), b))?;
    }
    let file = w.work.join(format!("{stem}{ext}"));
    let body = c.s.blob(1, 60);
    let there = !c.s.chance(6);
    if there {
        io(std::fs::write(&file, &body))?;
    }
    let title = file.file_stem().map(|x| x.to_string_lossy().to_string()).unwrap_or_default();
    c.note(|| format!("pages {plan:?} written in order {order:?}, {t:?}, file {file:?} (there: {there}), bad page {bad:?}, command {command}"));
    c.nontrivial(n > 1);
    c.label(format!("{t:?}"));
    let before = snap(&w.work)?;
    let expect_ok = there && t == Tool::Works && bad.is_none();
    let mut wanted = BTreeMap::new();
    let bytes = if command {
        let out = w.work.join("out.pptx");
        let exe = io(std::env::current_exe())?.with_file_name("pptcli");
        let mut k = std::process::Command::new(exe);
        k.arg("pdf2ppt").arg(&file).arg(&out).stdin(std::process::Stdio::null());
        let o = io(k.output())?;
        if !o.status.success() {
            ensure!(o.status.code().is_some_and(|x| x < 100), "pdf2ppt ended with {}", o.status);
            ensure!(!o.stderr.is_empty(), "pdf2ppt failed without saying why");
            None
        } else {
            let b = io(std::fs::read(&out))?;
            wanted.insert(out, b.clone());
            Some(b)
        }
    } else {
        match guard(|| Presentation::from_pdf(&file))? {
            Err(_) => None,
            Ok(p) => {
                ensure!(snap(&w.tmp)?.is_empty(), "temporary files left behind by the import");
                Some(guard(|| p.build())?.map_err(|x| Fail { msg: format!("saving: {x}") })?)
            }
        }
    };
    w.check(&before, &wanted, false)?;
    ensure!(bytes.is_some() == expect_ok, "the import {} (tool {t:?}, file there: {there}, bad page {bad:?})", if bytes.is_some() { "succeeded" } else { "failed" });
    let Some(b) = bytes else { return Ok(()) };
    let seen = w.seen()?;
    ensure!(seen == vec![body], "the renderer was not given the file");
    let p = e(check_package(&b))?;
    check_core_title(&p, &title)?;
    let slides = e(p.slide_paths())?;
    ensure!(slides.len() == n, "{n} pages became {} slides", slides.len());
    for (i, s) in slides.iter().enumerate() {
        ensure!(pictures(&p, s)? == vec![pics[i].clone()], "slide {} does not show the picture of page {}", i + 1, i + 1);
    }
    Ok(())
}
fn deck(s: &mut Src, n: usize) -> Presentation {
    let mut p = Presentation::with_title(&gen::words(s));
    for _ in 0..n {
        let mut k = SlideContent::new(&gen::text0(s));
        for _ in 0..s.len(0, 3) {
            k = k.add_bullet(&gen::text0(s));
        }
        p = p.add_slide(k);
    }
    p
}
fn tagged(b: &[u8], tag: &str) -> Vec<u8> {
    let mut v = b.to_vec();
    v.extend(format!("#{tag}\n").bytes());
    v
}
fn pngs(c: &mut Ctx) -> Res {
    let n = if c.s.chance(30) { c.s.len(9, 12) } else { c.s.len(1, 5) };
    let t = tool(&mut c.s);
    let p = deck(&mut c.s, n);
    let plan = suffixes(&mut c.s, n);
    let lines = shuffled(&mut c.s, plan.clone());
    let w = World::new(c, t, &lines)?;
    let dir = w.work.join(*c.s.pick(&["out", "a/b", "x y", "."]));
    other_files(&mut c.s, &dir, &["slide-1.png", "slide-99.png", "page-1.png", "slide-01.png", "notes.txt"])?;
    c.note(|| format!("{n} slides, pages {plan:?}, {t:?}, into {dir:?}\n{p:#?}"));
    c.nontrivial(n > 1);
    c.label(format!("{t:?}"));
    let before = snap(&w.work)?;
    let r = guard(|| p.save_as_png(&dir))?;
    ensure!(r.is_ok() == (t == Tool::Works), "exporting pictures gave {r:?} with the renderer {t:?}");
    let mut wanted = BTreeMap::new();
    if r.is_ok() {
        let seen = w.seen()?;
        ensure!(seen.len() == 1, "the renderer ran {} times", seen.len());
        let pages = crate::pdf::parse(&seen[0]).and_then(|d| d.pages()).map_err(|m| Fail { msg: format!("the PDF handed over: {m}") })?;
        ensure!(pages.len() == n, "the PDF handed over has {} pages for {n} slides", pages.len());
        for (i, s) in plan.iter().enumerate() {
            wanted.insert(dir.join(format!("slide-{}.png", i + 1)), tagged(&seen[0], s));
        }
    }
    w.check(&before, &wanted, r.is_ok())
}
/// How a renderer may name the pictures of n slides; `@` stands for the name of the file it was given.
fn image_names(s: &mut Src, n: usize) -> Vec<String> {
    let style = s.below(if n == 1 { 5 } else { 4 });
    let w = n.to_string().len();
    (1..=n)
        .map(|i| match style {
            0 => format!("Slide{i}"),
            1 => format!("Slide{i:0w$}"),
            2 => format!("@{i}"),
            3 => format!("@-{i:0w$}"),
            _ => "@".to_string(),
        })
        .collect()
}
fn options(s: &mut Src) -> ImageExportOptions {
    let mut o = ImageExportOptions::new();
    if s.bool() {
        o = o.with_format(ImageFormat::Jpeg);
    }
    if s.chance(20) {
        o = o.with_dpi(s.range(1, 600) as u32);
    }
    o
}
fn same_deck(b: &[u8], p: &Presentation) -> Res {
    let k = e(check_package(b))?;
    check_core_title(&k, p.get_title())?;
    let n = e(k.slide_paths())?.len();
    ensure!(n == p.slide_count(), "the presentation handed over has {n} slides instead of {}", p.slide_count());
    Ok(())
}
fn images(c: &mut Ctx) -> Res {
    let n = if c.s.chance(30) { c.s.len(9, 23) } else { c.s.len(1, 5) };
    let t = tool(&mut c.s);
    let p = deck(&mut c.s, n);
    let names = image_names(&mut c.s, n);
    let lines = shuffled(&mut c.s, names.clone());
    let w = World::new(c, t, &lines)?;
    let o = options(&mut c.s);
    let ext = o.format.extension();
    let dir = w.work.join(*c.s.pick(&["out", "a/b", "x y", "."]));
    let old: Vec<String> = ["Slide1", "Slide99", "Slide12", "temp_export7", "Slides"].iter().map(|x| format!("{x}.{ext}")).collect();
    other_files(&mut c.s, &dir, &old.iter().map(|x| x.as_str()).collect::<Vec<_>>())?;
    let before = snap(&w.work)?;
    let k = if c.s.chance(15) { n + 1 + c.s.usize(3) } else { c.s.usize(n + 1) };
    let single = c.s.below(3);
    c.note(|| format!("{n} slides, pictures {names:?}, {t:?}, into {dir:?}, slide {k}, call {single}, {o:?}\n{p:#?}"));
    c.nontrivial(n > 1);
    c.label(format!("{t:?} {}", ["images", "slide", "thumbnail"][single as usize]));
    let mut wanted = BTreeMap::new();
    let seen_ok = |w: &World| -> Result<Vec<u8>, Fail> {
        let seen = w.seen()?;
        ensure!(seen.len() == 1, "the renderer ran {} times", seen.len());
        same_deck(&seen[0], &p)?;
        Ok(seen[0].clone())
    };
    match single {
        0 => {
            let r = guard(|| p.save_as_images(&dir, &o.clone().with_slide(k)))?;
            let ok = t == Tool::Works && k <= n;
            ensure!(r.is_ok() == ok, "exporting pictures of slide {k} of {n} gave {r:?} with the renderer {t:?}");
            if let Ok(paths) = r {
                let b = seen_ok(&w)?;
                let want: Vec<usize> = if k == 0 { (0..n).collect() } else { vec![k - 1] };
                ensure!(paths.len() == want.len(), "{} pictures reported for {} slides: {paths:?}", paths.len(), want.len());
                for (q, i) in paths.iter().zip(want) {
                    ensure!(q.parent() == Some(&dir) && q.extension().is_some_and(|x| x == ext), "{} is no .{ext} file in {}", q.display(), dir.display());
                    ensure!(wanted.insert(q.clone(), tagged(&b, &names[i])).is_none(), "{} reported twice", q.display());
                }
            }
        }
        _ => {
            let file = dir.join(*c.s.pick(&["one.png", "Slide1.png", "Slide2.jpg", "deep/er/x.jpg"]));
            let (k, r) = if single == 1 {
                (k, guard(|| p.save_slide_as_image(k, &file, &o))?)
            } else {
                (1, guard(|| p.save_thumbnail(&file, c.s.range(1, 4000) as u32))?)
            };
            let ok = t == Tool::Works && k >= 1 && k <= n;
            ensure!(r.is_ok() == ok, "exporting slide {k} of {n} gave {r:?} with the renderer {t:?}");
            if let Ok(q) = r {
                ensure!(q == file, "reported {} instead of {}", q.display(), file.display());
                wanted.insert(file, tagged(&seen_ok(&w)?, &names[k - 1]));
            }
        }
    }
    w.check(&before, &wanted, !wanted.is_empty())
}
fn threads(c: &mut Ctx) -> Res {
    let m = c.s.len(2, 6);
    let n = c.s.len(1, 3);
    let w = World::new(c, Tool::Works, &(1..=n).map(|i| format!("-{i}")).collect::<Vec<_>>())?;
    let jobs: Vec<(Presentation, u64, PathBuf)> = (0..m).map(|i| (deck(&mut c.s, n).title(&format!("deck {i}")), c.s.below(2), w.work.join(format!("o{i}")))).collect();
    // soffice stand-in: names from the same plan, "-1" and so on: use the stem form
    io(std::fs::write(w.bin.join("soffice"), SOFFICE.replace("\"$s\" in @*)", "\"$s\" in *)")))?;
    c.note(|| format!("{n} slides each: {:?}", jobs.iter().map(|j| (j.0.get_title().to_string(), j.1)).collect::<Vec<_>>()));
    c.nontrivial(true);
    let before = snap(&w.work)?;
    let rs: Vec<Result<ppt_rs::exc::Result<usize>, Fail>> = std::thread::scope(|s| {
        let hs: Vec<_> = jobs
            .iter()
            .map(|(p, kind, out)| {
                s.spawn(move || {
                    guard(|| match kind {
                        0 => p.save_as_png(out).map(|_| n),
                        _ => p.save_as_images(out, &ImageExportOptions::new()).map(|v| v.len()),
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| fail("a thread died"))).collect()
    });
    let mut wanted = BTreeMap::new();
    for ((p, kind, out), r) in jobs.iter().zip(rs) {
        let r = r?;
        ensure!(matches!(r, Ok(x) if x == n), "simultaneous export of {:?} gave {r:?}", p.get_title());
        let files: Snap = snap(out)?;
        ensure!(files.len() == n, "{} files for {n} slides of {:?}", files.len(), p.get_title());
        for (f, b) in files {
            let b = b.unwrap_or_default();
            let cut = b.iter().rposition(|&x| x == b'#').unwrap_or(0);
            if *kind == 0 {
                let want = render_to_pdf_bytes(p).map_err(|x| Fail { msg: x.to_string() })?;
                ensure!(b[..cut] == want[..], "{} shows another presentation", f.display());
            } else {
                same_deck(&b[..cut], p)?;
            }
            wanted.insert(f, b);
        }
    }
    w.check(&before, &wanted, true)
}
fn probe_options() -> Res {
    let d = std::env::temp_dir().join(format!("vh_render_probe_{}", std::process::id()));
    let bin = d.join("bin");
    io(std::fs::create_dir_all(&bin))?;
    let r = (|| {
        let f = bin.join("soffice");
        io(std::fs::write(&f, "#!/bin/sh\n[ \"$1\" = \"--version\" ] && exit 0\nD=\"$(dirname \"$0\")\"\nfor a; do case \"$a\" in /*) ;; *) printf '%s ' \"$a\" >> \"$D/args\";; esac; done\necho >> \"$D/args\"\n"))?;
        use std::os::unix::fs::PermissionsExt;
        io(std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)))?;
        let old = std::env::var_os("PATH");
        std::env::set_var("PATH", format!("{}:/usr/bin:/bin", bin.display()));
        let p = Presentation::with_title("t").add_slide(SlideContent::new("a"));
        for o in [ImageExportOptions::new(), ImageExportOptions::new().with_dpi(300).with_dimensions(640, 480)] {
            let _ = guard(|| p.save_as_images(d.join("o"), &o));
        }
        match old {
            Some(o) => std::env::set_var("PATH", o),
            None => std::env::remove_var("PATH"),
        }
        let args = io(std::fs::read_to_string(bin.join("args")))?;
        let l: Vec<&str> = args.lines().collect();
        ensure!(l.len() == 2 && l[0] != l[1], "the renderer is asked for the same picture whatever resolution and size are wanted: {l:?}");
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&d);
    r
}
pub fn prop() -> Prop {
    Prop {
        id: "C32",
        rule: "more than one page or slide; threads: every case",
        assumptions: &[
            "the renderers are stand-ins: pdftoppm writes one PREFIX-<page>.png per page, soffice one picture per slide named after the slide or the file with the slide's number",
            "a renderer that reports success has written a picture for every page",
            "resolution, size and quality of pictures are a recorded finding",
        ],
        subs: vec![
            Sub { name: "import", quick: 700, run: import },
            Sub { name: "png", quick: 500, run: pngs },
            Sub { name: "images", quick: 700, run: images },
            Sub { name: "threads", quick: 100, run: threads },
        ],
        probes: vec![Probe { key: "image-options-ignored", run: probe_options }],
    }
}
