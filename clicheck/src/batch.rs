//! C35: batch commands of the built command-line program, end to end, against a model that handles one tag at a time.
use rhcheck::checks::{fields, geom, graph, images, paths::{ref_full, ref_path, respell}, repair, tagfile, text, tree::*};
use rhcheck::engine::*;
use rhcheck::layout::*;
use rhcheck::value::*;
use ringhopper::data::bitmap::plate::make_color_plate_from_loose;
use ringhopper::definitions::{ScenarioStructureBSP, TagCollection, UIWidgetCollection, UnicodeStringList};
use ringhopper::tag::{bludgeon::{bludgeon_tag, BludgeonResult}, convert::get_tag_conversion_fn, default::{group_has_defaults, unset_all_defaults_for_tag}, dependency::refactor_groups_for_block};
use ringhopper::tag::{model::downcast_model_mut, nudge::{is_nudgeable, nudge_tag}, recover::get_recover_function, scenario_structure_bsp::recompress_scenario_structure_bsp_vertices};
use ringhopper::tag::{tag_collection::TagCollectionFunctions, tree::*, unicode_string_list::UnicodeStringListFunctions};
use ringhopper_primitives::primitive::*;
use ringhopper_primitives::tag::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

#[derive(Copy, Clone, PartialEq, Debug)]
enum Verb { Nudge, Strip, Undefault, Bludgeon, Convert, Recompress, RefactorGroups, Strings, Collection, Widgets, Recover, Plate }
use Verb::*;
static VERBS: &[(Verb, u64)] = &[(Nudge, 3), (Strip, 3), (Undefault, 3), (Bludgeon, 3), (Convert, 3), (Recompress, 2), (RefactorGroups, 3), (Strings, 3), (Collection, 2), (Widgets, 2), (Recover, 3), (Plate, 2)];
impl Verb {
    fn name(self) -> &'static str { match self { Nudge => "nudge", Strip => "strip", Undefault => "undefault", Bludgeon => "bludgeon", Convert => "convert", Recompress => "recompress-vertices", RefactorGroups => "refactor-groups", Strings => "unicode-strings", Collection => "tag-collection", Widgets => "ui-widget-collection", Recover => "recover", Plate => "plate" } }
    /// the verb works on tags of this group only, and the filter is on the path alone
    fn only(self) -> Option<&'static str> { match self { Strings => Some("unicode_string_list"), Collection => Some("tag_collection"), Widgets => Some("ui_widget_collection"), Plate => Some("bitmap"), _ => None } }
    fn cow(self) -> bool { !matches!(self, Recover | Plate) }
    fn data(self) -> bool { matches!(self, Strings | Collection | Widgets | Recover | Plate) }
}
pub enum Out { Ignored, Skipped, Failed, Tag(String, Vec<u8>), Data(Vec<(String, Vec<u8>)>) }

fn gid(n: &str) -> usize { layout().group_by_name[n] }
/// binary of the program, built together with this one
pub fn program() -> PathBuf { std::env::current_exe().unwrap().parent().unwrap().join("invader") }
pub struct Ran { pub code: Option<i32>, pub out: String }
pub fn run(dir: &Path, args: &[String]) -> Result<Ran, Fail> {
    use std::process::*;
    let o = dir.join("stdout");
    let e = dir.join("stderr");
    let f = |p: &Path| std::fs::File::create(p).unwrap();
    let mut c = Command::new(program()).args(args).current_dir(dir).stdin(Stdio::null()).stdout(f(&o)).stderr(f(&e)).env("RUST_BACKTRACE", "0").spawn().map_err(|e| Fail::new("the program cannot be started", e.to_string()))?;
    let start = std::time::Instant::now();
    let mut wait = 200;
    let status = loop {
        if let Some(s) = c.try_wait().unwrap() { break s }
        if start.elapsed().as_secs() > 120 { let _ = c.kill(); let _ = c.wait(); fail!("the program does not end", "{args:?}") }
        std::thread::sleep(std::time::Duration::from_micros(wait));
        wait = (wait * 2).min(5000);
    };
    let out = String::from_utf8_lossy(&std::fs::read(&o).unwrap()).into_owned();
    let err = String::from_utf8_lossy(&std::fs::read(&e).unwrap()).into_owned();
    let _ = std::fs::remove_file(&o); let _ = std::fs::remove_file(&e);
    ensure!(!err.contains("panicked"), "the program crashes", "{args:?}: {err}");
    ensure!(status.code().is_some(), "the program crashes", "{args:?}: {status:?} {err}");
    Ok(Ran { code: status.code(), out })
}

fn number_fields(s: &mut Src, g: usize) -> V {
    let l = layout();
    let gr = &l.groups[g];
    let mut v = small_value(s, g);
    if let Some((_, fields)) = text::NUDGED.iter().find(|n| n.0 == gr.name) {
        for p in *fields { let parts: Vec<&str> = p.split('.').collect(); text::visit(l, gr.st, &mut v, &parts, &mut |x| if s.chance(2, 3) { *x = V::W(vec![text::number(s).to_bits()]) }) }
    }
    v
}
fn bsp(s: &mut Src) -> V {
    let l = layout();
    let g = gid("scenario_structure_bsp");
    let mut v = small_value(s, g);
    let (lst, mst) = (l.st("ScenarioStructureBSPLightmap"), l.st("ScenarioStructureBSPMaterial"));
    let st = l.groups[g].st;
    let n = s.usize(0, 2);
    let maps: Vec<V> = (0..n).map(|_| { let mut m = default_struct(l, lst); let k = s.usize(0, 2); *geom::items_mut(l, lst, &mut m, "materials") = (0..k).map(|_| default_struct(l, mst)).collect(); m }).collect();
    *geom::items_mut(l, st, &mut v, "lightmaps") = maps;
    for m in geom::items_mut(l, st, &mut v, "lightmaps") { for x in geom::items_mut(l, lst, m, "materials") {
        let n = s.usize(0, 4);
        let lm = s.usize(0, n);
        let mut up = |s: &mut Src| { let mut q = [0f32; 3]; q[s.below(3) as usize] = if s.bool() { 1.0 } else { -1.0 }; q };
        let full = geom::full_vertices(s, n, lm, &mut up);
        let small = geom::packed_vertices(s, n, lm);
        match s.below(6) {
            0 => { *fields::at(l, mst, x, "compressed_vertices") = V::Data(small); }
            1 => (),
            _ => { *fields::at(l, mst, x, "uncompressed_vertices") = V::Data(full); if s.bool() { *fields::at(l, mst, x, "compressed_vertices") = V::Data(small); } }
        }
        for (p, k) in [("rendered_vertices.vertex_count", n), ("lightmap_vertices.vertex_count", lm)] { *fields::at(l, mst, x, p) = V::W(vec![k as u32]); }
    } }
    v
}
/// contents of one tag file
fn content(s: &mut Src, verb: Verb, g: usize, near: &[(String, usize)]) -> Vec<u8> {
    let l = layout();
    let gr = &l.groups[g];
    let name = gr.name.as_str();
    let v = match (verb, name) {
        (Nudge, _) => number_fields(s, g),
        (Strip, _) => {
            // padding and fields that are not stored are set too
            let v = Gen { budget: 300, max_items: 2, raw: true, fill_unstored: true, ..Default::default() }.structure(s, l, gr.st);
            let mut f = encode_tag(l, gr, &v);
            if s.bool() { let k = s.usize(0, 0x23); f[k] = s.u8() }
            return f
        }
        (Undefault, _) => { let mut v = small_value(s, g); fields::bias(s, l, gr.st, &mut v, &[0.0, 1.0], 0); v }
        (Convert | Recompress, "model" | "gbxmodel") => { let gbx = name == "gbxmodel"; let mut sh = geom::gen_shape(s, gbx); sh.geometries = sh.geometries.min(1); geom::gen_model(s, gbx, &sh) }
        (Recompress, "scenario_structure_bsp") => bsp(s),
        (RefactorGroups, _) => { let mut v = small_value(s, g); graph::plant_refs(s, g, &mut v, near, false); v }
        (Recover, "scenario") => {
            let mut v = small_value(s, g);
            let st = l.st("ScenarioSourceFile");
            let n = s.below(3);
            let files = (0..n).map(|i| { let mut x = default_struct(l, st); let t = if s.chance(1, 8) { "global_scripts".to_string() } else { format!("{}{i}", s.ascii_ident(1, 6)) }; let mut name = [0u8; 32]; name[..t.len()].copy_from_slice(t.as_bytes()); *geom::sub_mut(l, st, &mut x, "name") = V::S32(name); let k = s.usize(0, 20); let mut d = s.bytes(k); if s.bool() { d.push(0) } *geom::sub_mut(l, st, &mut x, "source") = V::Data(d); x }).collect();
            *geom::items_mut(l, gr.st, &mut v, "source_files") = files;
            v
        }
        (Recover, "unicode_string_list") => {
            let mut v = small_value(s, g);
            text::visit(l, gr.st, &mut v, &["strings", "string"], &mut |x| if s.chance(3, 4) { let mut t = text::gen_line(s); t.retain(|c| !c.is_control()); *x = V::Data(t.encode_utf16().chain([0]).flat_map(|u| u.to_le_bytes()).collect()) });
            v
        }
        (Recover, "bitmap") => {
            let mut v = small_value(s, g);
            let p = images::gen_pic(s, 12);
            let mut data: Vec<u8> = vec![];
            if s.chance(4, 5) {
                let raw: Vec<u8> = p.px.iter().flat_map(|p| p.to_le_bytes()).collect();
                data.extend((raw.len() as u32).to_be_bytes());
                let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(6));
                use std::io::Write;
                e.write_all(&raw).unwrap();
                data.extend(e.finish().unwrap());
                if s.chance(1, 6) { let k = s.usize(0, data.len() - 1); data[k] ^= 1 << s.below(8) }
            }
            for (f, x) in [("color_plate.width", p.w), ("color_plate.height", p.h)] { *fields::at(l, gr.st, &mut v, f) = V::W(vec![x as u32]) }
            *fields::at(l, gr.st, &mut v, "color_plate.compressed_data") = V::Data(data);
            v
        }
        _ => small_value(s, g)
    };
    file_of(g, &v)
}
fn groups_for(s: &mut Src, verb: Verb) -> usize {
    let l = layout();
    let any = |s: &mut Src| s.below(l.groups.len() as u64) as usize;
    let of = |s: &mut Src, n: &[&str]| gid(*s.pick(n));
    if s.chance(1, 6) { return any(s) }
    match verb {
        Nudge => { let n: Vec<&str> = text::NUDGED.iter().map(|n| n.0).collect(); of(s, &n) }
        Convert => of(s, &["model", "gbxmodel", "weapon", "equipment", "garbage", "scenery", "biped", "device_machine", "sound_scenery", "vehicle"]),
        Recompress => of(s, &["model", "gbxmodel", "scenario_structure_bsp"]),
        RefactorGroups => *s.pick(graph::referring()),
        Recover => of(s, &["scenario", "unicode_string_list", "bitmap"]),
        Bludgeon => any(s),
        v => v.only().map(gid).unwrap_or_else(|| any(s))
    }
}
pub fn write_rule(tags: &Files, cow: Option<&Files>, rel: String, t: &dyn PrimaryTagStructDyn) -> Out {
    let Ok(b) = t.to_tag_file() else { return Out::Failed };
    if tags.get(&rel) == Some(&b) || cow.is_some_and(|c| c.get(&rel) == Some(&b)) { Out::Skipped } else { Out::Tag(rel, b) }
}
struct Setting<'a> { verb: Verb, dir: &'a VirtualTagsDirectory, tags: &'a Files, cow: Option<&'a Files>, data: &'a Path, data_files: &'a Files, overwrite: bool, from: usize, to: usize }
fn group_of(g: usize) -> TagGroup { tag_group(&layout().groups[g].name) }
/// what the command does to one tag
fn single(k: &Setting, path: &str, g: usize) -> Out {
    let p = tp(path, g);
    let rel = native(&full(path, g));
    let write = |t: &dyn PrimaryTagStructDyn| write_rule(k.tags, k.cow, rel.clone(), t);
    let open = || k.dir.open_tag_copy(&p);
    let stem = native(path);
    match k.verb {
        Nudge => { if !is_nudgeable(group_of(g)) { return Out::Ignored } let Ok(mut t) = open() else { return Out::Failed }; if nudge_tag(t.as_mut()) { write(t.as_ref()) } else { Out::Skipped } }
        Strip => { let Ok(t) = open() else { return Out::Failed }; write(t.as_ref()) }
        Undefault => { if !group_has_defaults(group_of(g)) { return Out::Ignored } let Ok(mut t) = open() else { return Out::Failed }; unset_all_defaults_for_tag(t.as_mut()); write(t.as_ref()) }
        Bludgeon => { let Ok(mut t) = open() else { return Out::Failed }; match bludgeon_tag(t.as_mut(), &p) { BludgeonResult::CannotRepair => Out::Skipped, BludgeonResult::Done => write(t.as_ref()) } }
        Convert => {
            let Some(f) = get_tag_conversion_fn(group_of(g), group_of(k.to)) else { return Out::Failed };
            let dest = native(&full(path, k.to));
            if !k.overwrite && k.tags.contains_key(&dest) { return Out::Skipped }
            let Ok(t) = open() else { return Out::Failed };
            match f(t.as_ref()) { Err(_) => Out::Failed, Ok(t) => write_rule(k.tags, k.cow, dest, t.as_ref()) }
        }
        Recompress => match layout().groups[g].name.as_str() {
            "model" | "gbxmodel" => { let Ok(mut t) = open() else { return Out::Failed }; if downcast_model_mut(t.as_mut()).unwrap().recompress_vertices() { write(t.as_ref()) } else { Out::Skipped } }
            "scenario_structure_bsp" => {
                let Ok(mut t) = open() else { return Out::Failed };
                let b = t.as_any_mut().downcast_mut::<ScenarioStructureBSP>().unwrap();
                for m in b.lightmaps.items.iter_mut().flat_map(|l| &mut l.materials.items) { if m.uncompressed_vertices.bytes.is_empty() && !m.compressed_vertices.bytes.is_empty() { return Out::Skipped } }
                for m in b.lightmaps.items.iter_mut().flat_map(|l| &mut l.materials.items) { m.compressed_vertices.bytes.clear() }
                if recompress_scenario_structure_bsp_vertices(b).is_err() { return Out::Failed }
                write(t.as_ref())
            }
            _ => Out::Ignored
        },
        RefactorGroups => {
            let r = &graph::referenceable()[g];
            let name = |g: usize| &layout().groups[g].name;
            if !r.contains(name(k.from)) || !r.contains(name(k.to)) { return Out::Ignored }
            let Ok(mut t) = open() else { return Out::Failed };
            if refactor_groups_for_block(t.as_mut_dynamic(), group_of(k.from), group_of(k.to), k.dir, true) { write(t.as_ref()) } else { Out::Skipped }
        }
        Strings | Collection | Widgets => {
            let Some(b) = k.data_files.get(&format!("{stem}.txt")) else { return Out::Failed };
            let t: Option<Box<dyn PrimaryTagStructDyn>> = match k.verb {
                Strings => UnicodeStringList::from_text_data(b).ok().map(|t| Box::new(t) as _),
                Collection => TagCollection::from_text_data(b).ok().map(|t| Box::new(t) as _),
                _ => UIWidgetCollection::from_text_data(b).ok().map(|t| Box::new(t) as _)
            };
            match t { Some(t) => write(t.as_ref()), None => Out::Failed }
        }
        Recover => {
            let Some(f) = get_recover_function(group_of(g)) else { return Out::Ignored };
            let Ok(t) = open() else { return Out::Failed };
            match f(&p, &t) {
                Err(_) => Out::Failed,
                Ok(None) => Out::Skipped,
                Ok(Some(m)) => {
                    let m: Vec<(String, Vec<u8>)> = m.into_iter().map(|(p, b)| (p.to_str().unwrap().to_string(), b)).filter(|(p, _)| k.overwrite || !k.data_files.contains_key(p)).collect();
                    if m.is_empty() { Out::Skipped } else { Out::Data(m) }
                }
            }
        }
        Plate => {
            let dir = k.data.join(&stem);
            if !dir.is_dir() { return Out::Skipped }
            match make_color_plate_from_loose(&dir) { Err(_) => Out::Failed, Ok(p) => Out::Data(vec![(format!("{stem}.tif"), p.to_tiff())]) }
        }
    }
}
/// one line for each tag, naming what happened to it (if such lines are printed at all)
pub fn reported(out: &str, lines: &BTreeMap<String, &str>, printed: &dyn Fn(&str) -> bool, d: &str) -> R {
    let mut seen: BTreeMap<(String, &str), usize> = BTreeMap::new();
    let count = |x: &str| lines.values().filter(|w| **w == x).count();
    let (done, failed, total) = (count("Processed"), count("Failed to process"), lines.len() - count(""));
    let errors = format!("{failed} error{}", if failed == 1 { "" } else { "s" });
    let mut sums = 0;
    for line in out.lines() {
        if let Some((a, b)) = line.strip_prefix("Processed ").filter(|r| !lines.contains_key(*r)).and_then(|r| r.split_once(" tags in ")) {
            ensure_eq!(a, format!("{done} / {total}"), "number of tags reported wrongly", "{line}: {d}");
            let b = b.trim_start_matches(|c: char| c.is_ascii_digit());
            ensure_eq!(b, if failed > 0 { format!(" ms, with {errors}") } else { " ms".to_string() }, "number of failures reported wrongly", "{line}: {d}");
            sums += 1;
        }
        if let Some(r) = line.strip_prefix("Processed ") { if lines.contains_key(r) { *seen.entry((r.to_string(), "Processed")).or_default() += 1 } else { ensure!(r.contains(" tags in "), "unknown tag reported", "{line}: {d}") } continue }
        for w in ["Skipped", "Failed to process"] { if let Some(r) = line.strip_prefix(w).and_then(|r| r.strip_prefix(' ')) {
            let Some(n) = lines.keys().filter(|n| r.strip_prefix(n.as_str()).is_some_and(|r| r.starts_with(": "))).max_by_key(|n| n.len()) else { fail!("unknown tag reported", "{line}: {d}") };
            *seen.entry((n.clone(), w)).or_default() += 1;
        } }
    }
    for (n, w) in lines { for x in ["Processed", "Skipped", "Failed to process"] {
        let got = seen.get(&(n.clone(), x)).copied().unwrap_or(0);
        ensure_eq!(got, (*w == x && printed(x)) as usize, "tag reported wrongly", "{x} {n}: {d}: {out}");
    } }
    ensure_eq!(sums, (printed("Processed") && total > 1) as usize, "summary missing or repeated", "{d}: {out}");
    Ok(())
}
fn c35(s: &mut Src, ctx: &mut Ctx) -> R {
    let root = ctx.fresh_dir();
    let r = batch(s, ctx, &root);
    ctx.drop_dir(&root);
    r
}
fn batch(s: &mut Src, ctx: &mut Ctx, root: &Path) -> R {
    let l = layout();
    let (tags_dir, cow_dir, data_dir) = (root.join("t"), root.join("c"), root.join("d"));
    for d in [&tags_dir, &data_dir] { std::fs::create_dir(d).unwrap() }
    let weights: Vec<u64> = VERBS.iter().map(|v| v.1).collect();
    let verb = VERBS[s.weighted(&weights)].0;
    // the tags
    let many = s.chance(1, 150);
    let n = if many { *s.pick(&[70usize, 140, 260, 300]) } else { *s.pick(&[3usize, 1, 2, 6, 12, 25]) };
    if many { ctx.label("hundreds of tags") }
    let mut paths: Vec<(String, usize)> = vec![];
    let mut files: Vec<(String, usize, Vec<u8>)> = vec![];
    let (mut from, mut to) = (0, 0);
    if verb == Convert { to = gid(*s.pick(&["gbxmodel", "model", "scenery", "weapon", "equipment", "garbage", "bitmap"])) }
    for i in 0..n {
        let p = match s.below(5) { 0 => gen_path(s), 1 => format!("a\\b{}", s.below(4)), 2 => format!("{}.{}", s.ascii_ident(1, 2), s.ascii_ident(1, 2)), 3 if !paths.is_empty() => s.pick(&paths).0.clone(), _ => format!("levels\\t{i}") };
        let p = if many { format!("levels\\n{}\\t{i}", i % 5) } else { p };
        if ref_path(&p).as_deref() != Some(&p) || p.starts_with('-') { continue }
        let (g, f) = if verb == Bludgeon {
            let (g, _, v, _) = repair::gen_broken(s);
            if file_of(g, &v).len() > 60_000 { continue }
            (g, file_of(g, &v))
        } else { let g = groups_for(s, verb); (g, vec![]) };
        // nothing may be in the way of a directory
        let f2 = native(&full(&p, g));
        if paths.iter().any(|q| (q.0 == p && q.1 == g) || native(&full(&q.0, q.1)).starts_with(&format!("{f2}/")) || f2.starts_with(&format!("{}/", native(&full(&q.0, q.1))))) { continue }
        // tags that become the same tag would compete
        if verb == Convert && g != to && paths.iter().any(|q| q.0 == p && q.1 != to) { continue }
        paths.push((p.clone(), g));
        files.push((p, g, f));
    }
    if verb == RefactorGroups {
        // two groups some tag can refer to, and tags of both
        let g = paths.iter().map(|p| p.1).find(|g| graph::referenceable()[*g].len() > 1).unwrap_or_else(|| gid("weapon"));
        let r: Vec<usize> = graph::referenceable()[g].iter().filter_map(|n| l.group_by_name.get(n).copied()).collect();
        from = *s.pick(&r); to = *s.pick(&r);
        if s.chance(1, 2) { let pair = *s.pick(&[("model", "gbxmodel"), ("gbxmodel", "model"), ("shader_transparent_chicago", "shader_transparent_chicago_extended"), ("weapon", "equipment"), ("ui_widget_collection", "tag_collection")]); from = gid(pair.0); to = gid(pair.1); if !s.chance(1, 4) { let fit: Vec<usize> = graph::referring().iter().copied().filter(|g| graph::referenceable()[*g].contains(pair.0) && graph::referenceable()[*g].contains(pair.1)).collect(); if !fit.is_empty() { for f in files.iter_mut().take(3) { let g = *s.pick(&fit); if !paths.contains(&(f.0.clone(), g)) { if let Some(k) = paths.iter().position(|p| *p == (f.0.clone(), f.1)) { paths[k].1 = g; f.1 = g } } } } } }
        for i in 0..s.below(3) { for g in if s.chance(3, 4) { vec![from, to] } else { vec![from] } { let p = format!("target{i}"); if !paths.contains(&(p.clone(), g)) { paths.push((p.clone(), g)); files.push((p, g, vec![])) } } }
    }
    let mut near = paths.clone();
    if verb == RefactorGroups { for p in paths.clone() { if p.0.starts_with("target") { near.push((p.0.clone(), from)); near.push((p.0, from)) } } if s.chance(1, 3) { near.push(("nowhere".into(), from)) } }
    for (p, g, f) in &mut files {
        if f.is_empty() { *f = content(s, verb, *g, &near) }
        match s.below(16) {
            0 => graph::damage(s, f),
            1 if f.len() > 0x41 => { let h = crc32(&f[0x40..]) ^ s.below(2) as u32; f[0x28..0x2C].copy_from_slice(&h.to_be_bytes()) }
            2 if s.bool() => { let o = s.below(l.groups.len() as u64) as usize; *f = graph::default_file(o).clone() }
            3 if s.bool() => { tagfile::mutate(s, f); }
            _ => ()
        }
        put(&tags_dir, &native(&full(p, *g)), f);
    }
    // files that are no tags
    for _ in 0..s.below(3) { let k = s.usize(0, 12); let b = s.bytes(k); let n: &str = *s.pick(&["README.txt", "levels/notes", "A.bitmap", "levels/T0.weapon", "x.unknown_group", if verb.data() { "levels/notes2" } else { "levels/.bitmap" }, "bitmap", "levels/x..", "t0.bitmap.bak"]); if !tags_dir.join(n).is_dir() && !paths.iter().any(|q| native(&full(&q.0, q.1)).starts_with(&format!("{n}/"))) { put(&tags_dir, n, &b) } }
    // the source data
    if verb.data() { for (p, g) in &paths {
        let stem = native(p);
        match verb {
            Strings => if s.chance(5, 6) { let k = s.usize(0, 3); let mut t = String::new(); for _ in 0..k { let x = text::gen_line(s); t += &x.replace(char::is_control, " "); t += "\n###END-STRING###\n"; } if s.chance(1, 8) { t += "rest" } let b = text::encode(s, &t).0; put(&data_dir, &format!("{stem}.txt"), &b) },
            Collection | Widgets => if s.chance(5, 6) { let mut t = String::new(); for _ in 0..s.usize(0, 3) { t += &format!("{}.{}\n", gen_path(s), l.groups[s.below(l.groups.len() as u64) as usize].name) } if s.chance(1, 8) { t += "nothing" } put(&data_dir, &format!("{stem}.txt"), t.as_bytes()) },
            Plate => if *g == gid("bitmap") && s.chance(5, 6) {
                let _ = std::fs::create_dir_all(data_dir.join(&stem));
                for i in 0..s.below(4) { let pic = images::gen_pic(s, 6); let b = images::png(s, &pic, images::Kind::Rgba); put(&data_dir, &format!("{stem}/s{}_{i}.png", 0), &b) }
                if s.chance(1, 8) { put(&data_dir, &format!("{stem}/s0_0.png"), b"no image") }
                if s.chance(1, 4) { put(&data_dir, &format!("{stem}.tif"), b"old") }
            },
            _ => if s.chance(1, 4) { let e = *s.pick(&["tif", "txt"]); put(&data_dir, &format!("{stem}.{e}"), b"old") }
        }
    } }
    // copy on write
    let cow = verb.cow() && s.chance(1, 2);
    // it has to exist
    let missing = cow && s.chance(1, 12);
    if cow && !missing { std::fs::create_dir(&cow_dir).unwrap() }
    let tags = snapshot(&tags_dir);
    let data_files = snapshot(&data_dir);
    let jobs = if many { *s.pick(&[1u64, 2, 8, 33, 300]) } else { *s.pick(&[1u64, 2, 3, 8, 0, 12]) };
    let overwrite = s.bool();
    let mut dir = VirtualTagsDirectory::new(&[&tags_dir], None).map_err(|e| Fail::new("existing directory refused", e.to_string()))?;
    if verb == Bludgeon { dir.set_strictness(ParseStrictness::Relaxed) }
    // what is selected
    let (only, pick) = (verb.only(), if paths.is_empty() { ("a".to_string(), 0) } else { s.pick(&paths).clone() });
    let one = s.chance(1, 5) && verb != RefactorGroups || (s.chance(1, 8));
    let mut chosen: Vec<(String, usize)> = vec![];
    let mut invalid = false;
    let filter;
    if one {
        let (p, mut g) = if s.chance(1, 6) { ("not\\there".to_string(), pick.1) } else { pick };
        if let Some(o) = only { g = gid(o) }
        let shown = respell(s, &p);
        filter = match s.below(8) { 0 => shown, 1 if only.is_some() => shown, _ => format!("{shown}.{}", l.groups[g].name) };
        match only {
            // with a fixed group the extension is optional
            Some(o) => match ref_path(filter.strip_suffix(&format!(".{o}")).unwrap_or(&filter)) { Some(p) => chosen.push((p, gid(o))), None => invalid = true },
            None => match ref_full(&filter) { Some(x) => chosen.push(x), None => invalid = true }
        }
        if filter.starts_with('-') || filter.contains(['*', '?', '\0']) { return Ok(()) }
    } else {
        let base = if s.chance(1, 2) { full(&pick.0, pick.1) } else { pick.0.clone() };
        let mut f = match s.below(5) { 0 => gen_filter(s, &base), 1 => format!("*.{}", l.groups[pick.1].name), 2 => "levels*".into(), _ => "*".into() };
        if only.is_some() && s.chance(1, 4) { f = format!("*.{}", only.unwrap()) }
        if !f.contains(['*', '?']) { f.push('*') }
        if f.starts_with('-') || f.contains('\0') { return Ok(()) }
        filter = f;
        for name in ref_listing(&[tags.clone()]) {
            let (p, g) = ref_full(&name).ok_or_else(|| Fail::new("listed name is not a path", name.clone()))?;
            if ref_filter(&filter, only.map(gid), &p, Some(g)) { chosen.push((p, g)) }
        }
    }
    // something may be in the copy-on-write directory already
    let mut cow_files = Files::new();
    if cow && !missing && s.chance(1, 2) {
        let k = Setting { verb, dir: &dir, tags: &tags, cow: Some(&Files::new()), data: &data_dir, data_files: &data_files, overwrite, from, to };
        for (p, g) in &chosen { match s.below(4) {
            0 => put(&cow_dir, &native(&full(p, *g)), b"old"),
            1 => if let Out::Tag(rel, b) = single(&k, p, *g) { put(&cow_dir, &rel, &b) },
            _ => ()
        } }
        cow_files = snapshot(&cow_dir);
    }
    // what should happen
    let k = Setting { verb, dir: &dir, tags: &tags, cow: cow.then_some(&cow_files), data: &data_dir, data_files: &data_files, overwrite, from, to };
    let (mut want_tags, mut want_cow, mut want_data) = (tags.clone(), cow_files.clone(), data_files.clone());
    let mut lines: BTreeMap<String, &str> = BTreeMap::new();
    let (mut viable, mut changes, mut failures) = (0, 0, 0);
    if missing { chosen.clear(); ctx.label("missing copy-on-write directory") }
    for (p, g) in &chosen {
        let name = tp(p, *g).to_string();
        let o = single(&k, p, *g);
        if !matches!(o, Out::Ignored) { viable += 1 }
        lines.insert(name, match o {
            Out::Ignored => "",
            Out::Skipped => "Skipped",
            Out::Failed => { failures += 1; "Failed to process" }
            Out::Tag(rel, b) => { changes += 1; if cow { want_cow.insert(rel, b); } else { want_tags.insert(rel, b); } "Processed" }
            Out::Data(m) => {
                changes += 1;
                for (rel, b) in m {
                    if want_data.get(&rel) != data_files.get(&rel) { ctx.label("two tags with the same data"); return Ok(()) }
                    want_data.insert(rel, b);
                }
                "Processed"
            }
        });
    }
    // the command line
    let arg = |p: &Path| p.to_str().unwrap().to_string();
    let mut args = vec![verb.name().to_string()];
    if verb == RefactorGroups { args.extend([l.groups[from].name.clone(), l.groups[to].name.clone()]); args.extend([if s.bool() { "--filter".to_string() } else { "-f".to_string() }, filter.clone()]) } else { args.push(filter.clone()) }
    if verb == Convert { args.push(l.groups[to].name.clone()) }
    args.extend(["--tags".to_string(), arg(&tags_dir)]);
    if verb.data() { args.extend(["--data".to_string(), arg(&data_dir)]) }
    if cow { args.extend([if s.bool() { "--cow" } else { "-c" }.to_string(), arg(&cow_dir)]) }
    if matches!(verb, Convert | Recover) && overwrite { args.push("--overwrite".into()) }
    if !(jobs == 1 && s.bool()) { args.extend([if s.bool() { "--jobs" } else { "-j" }.to_string(), jobs.to_string()]) }
    let d = format!("{} (tags {:?})", args.iter().map(|a| a.replace(root.to_str().unwrap(), "")).collect::<Vec<_>>().join(" "), paths.iter().map(|p| full(&p.0, p.1)).collect::<Vec<_>>());
    // a directory that is none
    let refused_first = s.chance(1, 24);
    if refused_first {
        let dirs: Vec<usize> = (0..args.len()).filter(|i| [&tags_dir, &cow_dir, &data_dir].iter().any(|d| args[*i] == arg(d))).collect();
        let f = root.join("file");
        std::fs::write(&f, b"no directory").unwrap();
        let k = *s.pick(&dirs);
        args[k] = if s.chance(1, 3) { arg(&root.join("nowhere")) } else { arg(&f) };
        let ran = run(root, &args)?;
        ensure_eq!(ran.code, Some(1), "command carried out without its directory", "{d}: {args:?}: {}", ran.out);
        ctx.label("directory that is none");
    }
    let ran = run(root, &args)?;
    let compare = |what: &str, when: &str, dir: &Path, want: &Files| -> R {
        let got = snapshot(dir);
        for k in got.keys().chain(want.keys()) { match (got.get(k), want.get(k)) {
            (Some(a), Some(b)) if a == b => (),
            (None, _) => fail!(&format!("{what} file missing"), "{when}: {k}: {d}: {}", ran.out),
            (Some(_), None) => fail!(&format!("{what} file that should not be there"), "{when}: {k}: {d}: {}", ran.out),
            (Some(a), Some(b)) => fail!(&format!("{what} file with other contents"), "{when}: {k}: {} bytes, should be {}: {d}: {}", a.len(), b.len(), ran.out)
        } }
        Ok(())
    };
    if refused_first { compare("tag", "after a refusal", &tags_dir, &tags)?; compare("copy-on-write", "after a refusal", &cow_dir, &cow_files)?; compare("data", "after a refusal", &data_dir, &data_files)?; return Ok(()) }
    compare("tag", "afterwards", &tags_dir, &want_tags)?;
    compare("copy-on-write", "afterwards", &cow_dir, &want_cow)?;
    compare("data", "afterwards", &data_dir, &want_data)?;
    ensure!(cow && !missing || !cow_dir.exists(), "copy-on-write directory made without asking", "{d}");
    let ok = !invalid && viable > 0;
    ensure_eq!(ran.code, Some(if ok { 0 } else { 1 }), "wrong exit status", "{d}: {}", ran.out);
    reported(&ran.out, &lines, &|w| verb != Recover || w == "Failed to process", &d)?;
    if verb == Recover && ok {
        let count = |x: &str| lines.values().filter(|w| **w == x).count();
        let (done, all) = (count("Processed"), lines.len() - count(""));
        let sum = match (done, failures) { (1.., n) => format!("Recovered {done} / {all} tags with {n} error(s)"), (_, 0) => format!("Recovered 0 / {all} tags (all skipped)"), (_, n) => format!("Recovered 0 / {all} tags with {n} error(s)") };
        ensure_eq!(ran.out.lines().filter(|x| *x == sum).count(), (all > 1) as usize, "number of tags reported wrongly", "{sum}: {d}: {}", ran.out);
        ensure_eq!(ran.out.lines().filter(|x| x.starts_with("Recovered ") && x.contains(" tags ")).count(), (all > 1) as usize, "summary repeated", "{d}: {}", ran.out);
        // what was written and what was kept
        for line in ran.out.lines() {
            if let Some(f) = line.strip_prefix("Recovered ").filter(|x| !x.contains(" tags ")) { ensure!(want_data.contains_key(f), "file reported as recovered which is not there", "{f}: {d}: {}", ran.out) }
            if let Some(f) = line.strip_prefix("Skipping ").and_then(|x| x.strip_suffix("; already exists")) { ensure!(!overwrite && data_files.contains_key(f), "file reported as kept which was not there", "{f}: {d}") }
        }
        for f in want_data.keys() {
            let n = ran.out.lines().filter(|x| x.strip_prefix("Recovered ") == Some(f)).count();
            if want_data.get(f) != data_files.get(f) { ensure_eq!(n, 1, "recovered file not reported", "{f}: {d}: {}", ran.out) }
            else if !overwrite { ensure_eq!(n, 0, "kept file reported as recovered", "{f}: {d}: {}", ran.out) }
        }
    }
    // once more
    let again = run(root, &args)?;
    ensure!(again.code == ran.code, "rerun ends otherwise", "{d}: {}", again.out);
    compare("tag", "after running again", &tags_dir, &want_tags)?;
    compare("copy-on-write", "after running again", &cow_dir, &want_cow)?;
    compare("data", "after running again", &data_dir, &want_data)?;
    ctx.label(verb.name());
    if ok { ctx.label(if one { "single tag" } else { "pattern" }); ctx.label(if jobs < 2 { "one job" } else { "several jobs" }); }
    if invalid { ctx.label("invalid path") } else if !ok { ctx.label("nothing viable") }
    if cow { ctx.label("copy on write") }
    if failures > 0 && changes > 0 { ctx.label("failures beside changes") }
    if changes > 0 && (viable > 1 || failures > 0) { ctx.nontrivial_s(&format!("{d}{:?}", lines)) }
    ctx.sample(|| format!("{d}: {changes} changed, {failures} failed"));
    Ok(())
}
pub static C35: Check = Check {
    id: "C35", terminates: true,
    subs: &[Sub { name: "batch", quick: 12_000, thorough: 400_000, run: c35 }],
    rule: "A case is one tags directory with up to 25 tags, or a few hundred (good, needing work, damaged, of another group) and files that are no tags, source data, sometimes a copy-on-write directory that holds older or equal files, and one command (12 verbs, a pattern or one path, jobs 0-12) run twice as a process. What every selected tag should become is computed one tag at a time in this process; the directories, the exit status and the line for each tag are compared. Non-trivial: at least one tag changes beside another or a failure; distinct by command line and outcome of each tag.",
    assumptions: &["no two selected tags produce the same output file (converting x.weapon and x.equipment to garbage; data with the same name)", "single-tag operations are those of the library, which other properties judge (C10-C12, C16, C23, C25, C28)", "names do not start with a hyphen", "tags with an empty file name are not used with commands that read data"]
};
