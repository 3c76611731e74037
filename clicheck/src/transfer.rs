//! C39: extraction, archiving and renaming through the built command-line program.
use crate::batch::{reported, run, write_rule, Out};
use crate::report::*;
use rhcheck::checks::{graph::*, maps, paths::{ref_path, respell}, tree::*};
use rhcheck::engine::*;
use rhcheck::layout::*;
use rhcheck::mapgen::*;
use rhcheck::value::*;
use ringhopper::map::load_map_from_filesystem_as_tag_tree;
use ringhopper::tag::dependency::{refactor_paths_for_tag_tree, ReplaceType};
use ringhopper::tag::{default::unset_all_defaults_for_tag, tree::*};
use ringhopper_primitives::tag::*;
use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroUsize;
use std::path::{Path, PathBuf};

fn same_files(got: &Files, want: &Files, d: &str) -> R {
    for k in got.keys().chain(want.keys()) { match (got.get(k), want.get(k)) {
        (Some(a), Some(b)) if a == b => (),
        (None, _) => fail!("file missing", "{k}: {d}"),
        (Some(_), None) => fail!("file that should not be there", "{k}: {d}"),
        (Some(a), Some(b)) => fail!("file with other contents", "{k}: {} bytes, should be {}: {d}", a.len(), b.len())
    } }
    Ok(())
}
fn hidden(root: &Path, args: &[String]) -> String { args.iter().map(|a| a.replace(root.to_str().unwrap(), "")).collect::<Vec<_>>().join(" ") }

// ------------------------------------------------------------------ extract
fn extract(s: &mut Src, ctx: &mut Ctx, root: &Path) -> R {
    let l = layout();
    let xbox = s.bool();
    let eng = maps::pick_engine(s, xbox);
    let globals = l.group_by_name["globals"];
    let opt = Options { groups: if s.chance(1, 2) { vec![globals] } else { vec![] }, extra: if s.chance(1, 100) { s.usize(250, 300) } else { s.usize(0, 6) }, lose: s.chance(1, 6), spoil: s.chance(1, 6), budget: 400, large: false };
    let mut b = build_map(s, eng, &opt);
    let (maps_dir, tags_dir) = (root.join("m"), root.join("t"));
    for d in [&maps_dir, &tags_dir] { std::fs::create_dir(d).unwrap() }
    if !xbox && s.chance(1, 12) { b.head.crc = b.crc ^ 1; let mut h = b.map[..0x800].to_vec(); b.head.put(&mut h); b.map[..0x800].copy_from_slice(&h); }
    maps::store(s, &mut b, &maps_dir);
    let file = maps_dir.join("the.map");
    let map = load_map_from_filesystem_as_tag_tree(&file, ParseStrictness::Strict);
    let near: Vec<(String, usize)> = b.items.iter().map(|i| (i.path.clone(), i.g)).collect();
    let listing: BTreeSet<String> = b.items.iter().map(|i| i.full()).collect();
    let filtered = s.chance(1, 2);
    let (filter, chosen) = if filtered { match select(s, &near, None, &listing, true) { Some(x) => x, None => return Ok(()) } } else { ("*".into(), Some(near.clone())) };
    let whole = |p: &str, g: usize| -> Option<Box<dyn PrimaryTagStructDyn>> { let mut t = map.as_ref().ok()?.open_tag_copy(&tp(p, g)).ok()?; unset_all_defaults_for_tag(t.as_mut()); Some(t) };
    // some of it is there already
    for (p, g) in &near {
        let rel = native(&full(p, *g));
        match s.below(8) {
            0 => put(&tags_dir, &rel, b"old"),
            1 => if let Some(x) = whole(p, *g).and_then(|t| t.to_tag_file().ok()) { put(&tags_dir, &rel, &x) },
            2 => put(&tags_dir, &rel, graph_default(*g)),
            _ => ()
        }
    }
    if s.chance(1, 3) { put(&tags_dir, "other/notes.txt", b"notes") }
    let before = snapshot(&tags_dir);
    let sources = snapshot(&maps_dir);
    let (overwrite, any) = (s.bool(), s.chance(1, 3));
    let jobs = *s.pick(&[1u64, 0, 2, 4, 10]);
    let mut args = vec!["extract".to_string(), arg(&file), "--tags".to_string(), arg(&tags_dir)];
    if filtered { args.extend([if s.bool() { "-f" } else { "--filter" }.to_string(), filter.clone()]) }
    if overwrite { args.push(if s.bool() { "-o" } else { "--overwrite" }.into()) }
    if any { args.push(if s.bool() { "-n" } else { "--non-mp-globals" }.into()) }
    if jobs != 1 { args.extend(["-j".to_string(), jobs.to_string()]) }
    let mut want = before.clone();
    let mut lines: BTreeMap<String, &str> = BTreeMap::new();
    let ok = map.is_ok() && chosen.as_ref().is_some_and(|c| !c.is_empty());
    let mut done = 0;
    if ok { for (p, g) in chosen.as_ref().unwrap() {
        let rel = native(&full(p, *g));
        let o = if !overwrite && before.contains_key(&rel) { "Skipped" }
            else if *g == globals && b.kind != 1 && !any { ctx.label("globals kept back"); "Skipped" }
            else { match whole(p, *g) { None => "Failed to process", Some(t) => match write_rule(&before, None, rel, t.as_ref()) { Out::Tag(rel, x) => { want.insert(rel, x); done += 1; "Processed" } Out::Skipped => "Skipped", _ => "Failed to process" } } };
        lines.insert(tp(p, *g).to_string(), o);
        if o == "Failed to process" { ctx.label("cannot be extracted") }
    } }
    let d = format!("{} map of {:?}, {}; {}", eng.name, listing, ["singleplayer", "multiplayer", "user interface"][b.kind as usize], hidden(root, &args));
    let ran = run(root, &args)?;
    let d = format!("{d}: {}", ran.out);
    same_files(&snapshot(&tags_dir), &want, &d)?;
    ensure!(snapshot(&maps_dir) == sources, "map changed", "{d}");
    ensure_eq!(ran.code, Some(if ok { 0 } else { 1 }), "wrong exit status", "{d}");
    if ok { reported(&ran.out, &lines, &|_| true, &d)? } else { ctx.label("refused") }
    let again = run(root, &args)?;
    ensure_eq!(again.code, ran.code, "rerun ends otherwise", "{d}");
    same_files(&snapshot(&tags_dir), &want, &format!("after running again: {d}"))?;
    // and the tags can be read
    if done > 0 { let tree = VirtualTagsDirectory::new(&[&tags_dir], None).unwrap(); for (n, x) in &lines { if *x == "Processed" { let p = near.iter().map(|(p, g)| tp(p, *g)).find(|p| p.to_string() == *n).unwrap(); if let Err(e) = tree.open_tag_copy(&p) { fail!("extracted tag cannot be read", "{n}: {e}: {d}") } } } }
    if done > 1 { ctx.nontrivial_s(&d) }
    ctx.label(if xbox { "compressed map" } else { "map" });
    ctx.sample(|| format!("{}: {done} of {} tags written", hidden(root, &args), b.items.len()));
    Ok(())
}
fn graph_default(g: usize) -> &'static [u8] { default_file(g) }
fn c39_extract(s: &mut Src, ctx: &mut Ctx) -> R { in_dir(s, ctx, extract) }

// ------------------------------------------------------------------ archives
fn archive(s: &mut Src, ctx: &mut Ctx, root: &Path) -> R {
    let scenario = s.chance(1, 3);
    let mut good_engine = true;
    let (nodes, target, needs) = if scenario { let mut n = gen_needs(s); (std::mem::take(&mut n.nodes), n.scenario.clone(), Some(n)) } else {
        let paths = gen_paths(s, 1, 7);
        let states = s.chance(1, 3);
        let nodes = gen_nodes(s, paths, states, false);
        let nodes = if s.chance(2, 3) { drop_dangling(nodes) } else { nodes };
        let t = s.pick(&nodes).name();
        (nodes, t, None)
    };
    let tags_dir = root.join("t");
    std::fs::create_dir(&tags_dir).unwrap();
    for n in nodes.iter().filter(|n| n.state != State::Missing) { put(&tags_dir, &native(&n.name()), &n.bytes) }
    let (p, g) = target.rsplit_once('.').unwrap();
    if p.starts_with('-') { return Ok(()) }
    let mut args = vec![if scenario { "archive-scenario" } else { "archive-tag" }.to_string()];
    let sp = respell(s, p);
    args.push(if scenario { sp } else { format!("{sp}.{g}") });
    args.extend(["-t".to_string(), arg(&tags_dir)]);
    if let Some(n) = &needs { if s.chance(1, 12) { good_engine = false } else { args.extend(["-e".to_string(), n.engine.clone()]); good_engine = engine(&n.engine).build_target } }
    let level = if s.chance(1, 2) { let n = *s.pick(&[0u32, 1, 2, 3, 9, 10, 99]); args.extend([if s.bool() { "-l" } else { "--level" }.to_string(), n.to_string()]); n } else { 7 };
    let overwrite = s.bool();
    if overwrite { args.push("--overwrite".into()) }
    let stem = p.rsplit('\\').next().unwrap();
    let (mut out, mut writable) = (format!("{stem}.7z"), true);
    match s.below(8) {
        0..=3 => (),
        4 => { out = "no/such/dir/x.7z".into(); writable = false; args.extend(["-O".to_string(), out.clone()]) }
        5 => { out = "t".into(); writable = false; args.extend(["-O".to_string(), out.clone()]) }
        _ => { out = (*s.pick(&["out.7z", "x", "t/x.7z", "archive.zip"])).into(); args.extend([if s.bool() { "-O" } else { "--output" }.to_string(), if s.bool() { arg(&root.join(&out)) } else { out.clone() }]) }
    }
    let exists = out == "t" || s.chance(1, 3) && writable;
    if exists && writable { put(root, &out, b"an older archive") }
    let before = snapshot(root);
    let (mut want, good) = match needs { Some(mut n) => { n.nodes = nodes.iter().map(|n| Node { path: n.path.clone(), g: n.g, v: n.v.clone(), state: n.state, bytes: vec![] }).collect(); n.want() } None => { let w = walk(&nodes, &target); (w.through.keys().cloned().collect(), w.missing.is_empty() && w.damaged.is_empty()) } };
    want.insert(target.clone());
    let fits = good && want.iter().all(|k| nodes.iter().any(|n| n.name() == *k && n.state == State::Ok));
    let skip = exists && !overwrite;
    let ran = run(root, &args)?;
    let d = format!("{}; {}: {}", hidden(root, &args), nodes.iter().filter(|n| n.state != State::Ok || !scenario).map(|n| format!("{} {:?} -> {:?}", n.name(), n.state, direct(n.g, &n.v))).collect::<Vec<_>>().join("; "), ran.out);
    let mut after = snapshot(root);
    let fine = good_engine && level <= 9 && (skip || (fits && writable));
    ensure_eq!(ran.code, Some(if fine { 0 } else { 1 }), "wrong exit status", "{d}");
    if fine && !skip {
        let Some(b) = after.remove(&out) else { fail!("archive not written", "{out}: {d}") };
        compare_archive(&b, &want.iter().map(|k| (native(k), nodes.iter().find(|n| n.name() == *k).unwrap().bytes.clone())).collect(), &d)?;
        ctx.label(if scenario { "scenario archived" } else { "tag archived" });
        if want.len() > 1 { ctx.nontrivial_s(&d) }
    } else { after.remove(""); ctx.label(if fine { "left as it is" } else { "refused" }); if !fits { ctx.label("something is missing") } }
    let mut before = before;
    if fine && !skip { before.remove(&out); }
    same_files(&after, &before, &d)?;
    ctx.sample(|| format!("{}: {} tags", hidden(root, &args), want.len()));
    Ok(())
}
fn c39_archive(s: &mut Src, ctx: &mut Ctx) -> R { in_dir(s, ctx, archive) }

// ------------------------------------------------------------------ renaming
fn rename(s: &mut Src, ctx: &mut Ctx, root: &Path) -> R {
    let mut paths = small_paths(s);
    let c = s.pick(&paths).0.clone();
    let mut from: String = match s.below(4) { 0 => (*s.pick(&["a", "b", "ab", "a\\", "zzz", "é"])).into(), 1 => c.split('\\').next().unwrap().to_string() + "\\", _ => { let at: Vec<usize> = c.char_indices().map(|x| x.0).chain([c.len()]).skip(1).collect(); let e = *s.pick(&at); c[..e].to_string() } };
    let mut to: String = match s.below(8) { 0 => from.clone(), 1 => (*s.pick(&["", "con\\", "q:", "\\", "x\\\\y"])).into(), 2 => c.clone(), _ => { let mut t = (*s.pick(&["c", "n", "new\\x", "b", "a"])).to_string(); if from.ends_with('\\') { t.push('\\') } t } };
    let no_move = s.chance(1, 3);
    let all = s.chance(1, 3);
    if no_move && s.chance(3, 4) { for (p, g) in paths.clone() { let r = if all { p.replace(&from, &to) } else { match p.strip_prefix(from.as_str()) { Some(r) => format!("{to}{r}"), None => continue } }; if let Some(r) = ref_path(&r) { if r.len() < 150 && !paths.contains(&(r.clone(), g)) && paths.len() < 14 { paths.push((r, g)) } } } }
    if s.bool() { from = from.replace('\\', "/") }
    if s.bool() { to = to.replace('\\', "/") }
    let mut nodes = gen_nodes(s, paths.clone(), false, true);
    for n in &mut nodes { if s.chance(1, 16) { n.state = State::Damaged; damage(s, &mut n.bytes) } }
    let layers = s.usize(1, 2);
    let mut dirs: [Vec<PathBuf>; 2] = [vec![], vec![]];
    for (k, top) in ["x", "y"].iter().enumerate() { for i in 0..layers { let d = root.join(top).join(i.to_string()); std::fs::create_dir_all(&d).unwrap(); dirs[k].push(d) } }
    for n in &nodes { let i = s.usize(0, layers - 1); for d in &dirs { put(&d[i], &native(&n.name()), &n.bytes) } }
    if s.chance(1, 5) { for d in &dirs { put(&d[0], "a/notes.txt", b"notes") } }
    let filter = match s.below(4) { 0 => Some(format!("*.{}", layout().groups[nodes[0].g].name)), 1 => Some("a*".to_string()), _ => None };
    let kind = match (all, s.below(12)) { (_, 0) => Some("end"), (true, _) => Some("all"), (false, 1..=3) => Some("start"), _ => None };
    let jobs = *s.pick(&[1u64, 0, 2, 5, 12]);
    let mut args = vec!["refactor-paths".to_string()];
    if no_move { args.push(if s.bool() { "-N" } else { "--no-move" }.into()) }
    if let Some(k) = kind { args.extend([if s.bool() { "-r" } else { "--replace-type" }.to_string(), k.to_string()]) }
    if let Some(f) = &filter { args.extend([if s.bool() { "-f" } else { "--filter" }.to_string(), f.clone()]) }
    if jobs != 1 { args.extend(["-j".to_string(), jobs.to_string()]) }
    args.extend([from.clone(), to.clone()]);
    for d in &dirs[0] { args.extend(["-t".to_string(), arg(d)]) }
    let snap = |k: usize| -> Vec<Files> { dirs[k].iter().map(|d| snapshot(d)).collect() };
    let before = snap(0);
    let ran = run(root, &args)?;
    let d = format!("{}; {}: {}", hidden(root, &args), nodes.iter().map(|n| format!("{} {:?} -> {:?}", n.name(), n.state, direct(n.g, &n.v))).collect::<Vec<_>>().join("; "), ran.out);
    let after = snap(0);
    if kind == Some("end") {
        ensure_eq!(ran.code, Some(1), "unknown kind of replacement accepted", "{d}");
        ensure!(after == before, "refused command changed files", "{d}");
        ctx.label("unknown kind");
        return Ok(())
    }
    let tree = VirtualTagsDirectory::new(&dirs[1], None).unwrap();
    let r = refactor_paths_for_tag_tree(&from, &to, &tree, NonZeroUsize::new(1).unwrap(), if all { ReplaceType::All } else { ReplaceType::Start }, no_move, &TagFilter::new(filter.as_deref().unwrap_or("*"), None));
    let want = snap(1);
    for i in 0..layers { same_files(&after[i], &want[i], &d)? }
    ensure_eq!(ran.code, Some(if r.is_ok() { 0 } else { 1 }), "wrong exit status", "{d}");
    let (renamed, results) = match &r { Ok((a, b)) => (a.iter().map(|(a, b)| format!("Renamed {a} to {b}")).collect(), b), Err((_, b)) => (BTreeSet::new(), b) };
    let said: BTreeSet<String> = ran.out.lines().filter(|x| x.starts_with("Renamed ") && x.contains(" to ")).map(|x| x.to_string()).collect();
    ensure_eq!(said, renamed, "tags said to be renamed", "{d}");
    let names = |k: &str| -> Vec<String> { let mut v: Vec<String> = ran.out.lines().filter_map(|x| x.strip_prefix(k)).map(|x| x.to_string()).collect(); v.sort(); v };
    let mut faults: Vec<String> = results.iter().flat_map(|(p, r)| r.errors.iter().map(move |e| format!("{p}: {e}"))).map(|x| x.replace(root.join("y").to_str().unwrap(), root.join("x").to_str().unwrap())).collect();
    faults.sort();
    ensure_eq!(names("ERROR "), faults, "tags said to have failed", "{d}");
    ctx.label(match (&r, no_move) { (Err(_), _) => "refused", (_, true) => "references only", _ => "moved" });
    if !faults.is_empty() { ctx.label("unreadable tag reported") }
    if after != before || !renamed.is_empty() { ctx.nontrivial_s(&d) }
    ctx.sample(|| d);
    Ok(())
}
fn c39_rename(s: &mut Src, ctx: &mut Ctx) -> R { in_dir(s, ctx, rename) }

pub static C39: Check = Check {
    id: "C39", terminates: true,
    subs: &[Sub { name: "extract", quick: 5_000, thorough: 150_000, run: c39_extract }, Sub { name: "archive", quick: 3_000, thorough: 100_000, run: c39_archive }, Sub { name: "rename", quick: 5_000, thorough: 150_000, run: c39_rename }],
    rule: "A case is one cache file with a partly filled tags directory, or a tags directory with tags that refer to each other, and one command run as a process (extract twice). Files, exit status and what is printed for each tag are compared with extracting, archiving or renaming the same in this process. Non-trivial: two or more tags extracted, an archive of two or more tags, a rename that did something; distinct by command, input and output.",
    assumptions: &["extraction of one tag is the library's, which C29 and C30 judge; renaming is the library's, which C17 judges", "archives are read with the library that writes them (C24)"],
};
