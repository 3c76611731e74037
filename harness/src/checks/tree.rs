//! C13-C15: tag filters, layered tag directories, the tag cache. Also helpers for checks on trees of tags.
use crate::engine::*;
use crate::gen_table::OPS;
use crate::layout::*;
use crate::value::*;
use super::paths::ref_path;
use ringhopper::tag::tree::*;
use ringhopper_primitives::error::Error;
use ringhopper_primitives::primitive::*;
use ringhopper_primitives::tag::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use std::sync::atomic::{AtomicU64, Ordering};

// ------------------------------------------------------------------ helpers
pub type Files = BTreeMap<String, Vec<u8>>;
/// every regular file below `d`, by relative path
pub fn snapshot(d: &Path) -> Files {
    fn go(d: &Path, rel: &str, out: &mut Files) {
        let Ok(r) = std::fs::read_dir(d) else { return };
        for e in r.filter_map(|e| e.ok()) {
            let n = e.file_name().to_string_lossy().into_owned();
            let p = if rel.is_empty() { n } else { format!("{rel}/{n}") };
            let t = e.file_type().unwrap();
            if t.is_dir() { go(&e.path(), &p, out) } else if t.is_file() { out.insert(p, std::fs::read(e.path()).unwrap()); }
        }
    }
    let mut out = Files::new();
    go(d, "", &mut out);
    out
}
pub fn put(root: &Path, rel: &str, b: &[u8]) { let p = root.join(rel); if let Some(q) = p.parent() { let _ = std::fs::create_dir_all(q); } let _ = std::fs::write(p, b); }
pub fn native(p: &str) -> String { p.replace('\\', "/") }
pub fn tp(p: &str, g: usize) -> TagPath { TagPath::new(p, tag_group(&layout().groups[g].name)).expect("canonical path") }
pub fn full(p: &str, g: usize) -> String { format!("{p}.{}", layout().groups[g].name) }
pub fn small_value(s: &mut Src, g: usize) -> V { let l = layout(); Gen { budget: 300, max_items: 2, ..Default::default() }.structure(s, l, l.groups[g].st) }
/// the tag file for a value (reference encoder; C02 compares it with the real one)
pub fn file_of(g: usize, v: &V) -> Vec<u8> { let l = layout(); let g = &l.groups[g]; encode_tag(l, g, &canon_struct(l, g.st, v)) }
pub fn tag_of(g: usize, v: &V) -> Result<Box<dyn PrimaryTagStructDyn>, Fail> { let l = layout(); super::tagfile::build(l, &l.groups[g], &OPS[g], v) }
pub fn bytes_of(t: &dyn PrimaryTagStructDyn) -> Result<Vec<u8>, Fail> { t.to_tag_file().map_err(|e| Fail::new("valid tag not written", e.to_string())) }
pub fn err_name(e: &Error) -> String { let d = format!("{e:?}"); d.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string() }

// ------------------------------------------------------------------ C13
fn glob(f: &[char], w: &[char]) -> bool {
    // table over prefixes
    let mut row = vec![false; w.len() + 1];
    row[0] = true;
    for c in f {
        let mut next = vec![false; w.len() + 1];
        next[0] = row[0] && *c == '*';
        for j in 1..=w.len() { next[j] = match c { '*' => row[j] || next[j - 1], '?' => row[j - 1], c => row[j - 1] && *c == w[j - 1] }; }
        row = next;
    }
    row[w.len()]
}
pub fn ref_filter(filter: &str, group: Option<usize>, path: &str, g: Option<usize>) -> bool {
    let l = layout();
    let mut f = filter.to_string();
    if let Some(x) = group {
        if g != Some(x) && path != "\0" { return false }
        let ext = format!(".{}", l.groups[x].name);
        if let Some(r) = f.strip_suffix(&ext) { f = r.to_string() }
    }
    let f: Vec<char> = f.chars().map(|c| if c == '/' { '\\' } else { c }).collect();
    let what = match (group, g) { (_, None) => String::new(), (Some(_), _) => path.to_string(), (None, Some(g)) => full(path, g) };
    glob(&f, &what.chars().collect::<Vec<_>>())
}
pub fn gen_filter(s: &mut Src, near: &str) -> String {
    let mut f = String::new();
    match s.weighted(&[6, 2, 1]) {
        0 => {
            // generalise the path
            let c: Vec<char> = near.chars().collect();
            let mut i = 0;
            while i < c.len() {
                match s.below(12) {
                    0 => f.push('?'),
                    1 => { f.push('*'); i += s.usize(0, 6); continue }
                    2 if s.chance(1, 3) => f.push_str("**"),
                    3 if s.chance(1, 3) => { f.push(*s.pick(&['a', 'é', '.', '\\', '猫'])); }
                    4 if s.chance(1, 4) => (),
                    _ => f.push(if c[i] == '\\' && s.bool() { '/' } else { c[i] }),
                }
                i += 1;
            }
            if s.chance(1, 8) { f.push(*s.pick(&['*', '?', 'x'])) }
        }
        1 => { for _ in 0..s.usize(0, 8) { f.push(*s.pick(&['*', '?', 'a', 'b', '\\', '/', '.', 'é', '猫'])) } }
        _ => { let k = s.usize(5, 25); for _ in 0..k { f.push_str(s.pick(&["*a", "*?", "*", "?"])); } f.push(*s.pick(&['b', '*', 'a'])); }
    }
    f
}
fn c13_filter(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let g = s.below(l.groups.len() as u64) as usize;
    let path = match s.weighted(&[5, 2, 2]) {
        0 => gen_path(s),
        1 => { let n = s.usize(0, 10); let t: String = (0..n).map(|_| *s.pick(&['a', 'b', 'a', '\\', 'é'])).collect(); match ref_path(&t) { Some(p) => p, None => "a".into() } }
        _ => "a".repeat(s.usize(1, 120)),
    };
    let near = match s.below(4) { 0 => full(&path, g), 1 => path.clone(), 2 => full(&path, s.below(l.groups.len() as u64) as usize), _ => full(&full(&path, g), g) };
    let filter = gen_filter(s, &near);
    let group = match s.below(3) { 0 => None, 1 => Some(g), _ => Some(s.below(l.groups.len() as u64) as usize) };
    let tgroup = group.map(|g| tag_group(&l.groups[g].name));
    let f = TagFilter::new(&filter, tgroup);
    ensure!(f.group() == tgroup, "filter forgets its group", "{filter:?}");
    let p = tp(&path, g);
    let want = ref_filter(&filter, group, &path, Some(g));
    let got = f.passes(&p);
    let d = format!("filter {filter:?} group {:?} path {:?}", group.map(|g| &l.groups[g].name), full(&path, g));
    ensure!(got == want, "filter decides wrongly", "{d}: {got}, should be {want}");
    ensure!(f.reference_matches(&TagReference::Set(p.clone())) == want, "filter decides differently for a reference", "{d}");
    let ng = if s.bool() { g } else { group.unwrap_or(g) };
    let null_want = group.map_or(true, |x| x == ng) && ref_filter(&filter, group, "\0", None);
    ensure!(f.reference_matches(&TagReference::Null(tag_group(&l.groups[ng].name))) == null_want, "filter decides wrongly for an empty reference", "{d}, empty {} reference", l.groups[ng].name);
    ensure!(f.clone().passes(&p) == want, "a copied filter decides differently", "{d}");
    ensure!(TagFilter::is_filter(&filter) == filter.contains(['*', '?']), "filter not recognised", "{filter:?}");
    // the extension helper
    let cleaned = TagFilter::cleanup_extension(&near, tag_group(&l.groups[g].name));
    let want_clean = near.strip_suffix(&format!(".{}", l.groups[g].name)).unwrap_or(&near);
    ensure_eq!(cleaned, want_clean, "extension cleaned wrongly", "{near:?} for {}", l.groups[g].name);
    // slash direction
    let other: String = filter.chars().map(|c| match c { '/' => '\\', '\\' => '/', c => c }).collect();
    ensure!(TagFilter::new(&other, tgroup).passes(&p) == want, "slash direction matters", "{d}");
    let special = filter.chars().filter(|c| "*?".contains(*c)).count();
    if special > 0 { ctx.nontrivial_s(&d) }
    ctx.label(if want { "accepted" } else { "refused" });
    if !filter.is_ascii() || !path.is_ascii() { ctx.label("non-ASCII") }
    if special > 4 { ctx.label("many wildcards") }
    ctx.sample(|| format!("{d} -> {got}"));
    Ok(())
}

// ------------------------------------------------------------------ C14
/// paths used by one history
struct Universe { paths: Vec<(String, usize)>, vals: Vec<Vec<(V, Vec<u8>)>> }
fn universe(s: &mut Src) -> Universe {
    let l = layout();
    let n = s.usize(2, 6);
    let mut paths: Vec<(String, usize)> = vec![];
    for i in 0..n * 4 {
        if paths.len() == n { break }
        if i == n * 4 - 1 && paths.is_empty() { paths.push(("a".into(), 0)); break }
        let g = s.below(l.groups.len() as u64) as usize;
        let p = match s.below(6) {
            0 if !paths.is_empty() => { let q = s.pick(&paths).clone(); q.0 }
            1 if !paths.is_empty() => { let q = s.pick(&paths).clone(); format!("{}\\{}", q.0, s.ascii_ident(1, 3)) }
            2 => (*s.pick(&["a", "a\\b", "levels\\a10\\a10", "x.y", "b", "a\\b\\c"])).to_string(),
            _ => gen_path(s),
        };
        if ref_path(&p).as_deref() != Some(&p) { continue }
        if !paths.iter().any(|q| q.0 == p && q.1 == g) { paths.push((p, g)) }
    }
    let vals = paths.iter().map(|(_, g)| (0..2).map(|_| { let v = small_value(s, *g); let b = file_of(*g, &v); (v, b) }).collect()).collect();
    Universe { paths, vals }
}
/// what a listing must contain
pub fn ref_listing(layers: &[Files]) -> BTreeSet<String> {
    let l = layout();
    let mut out = BTreeSet::new();
    for f in layers { for rel in f.keys() {
        let Some(dot) = rel.rfind('.') else { continue };
        if !l.group_by_name.contains_key(&rel[dot + 1..]) { continue }
        let p = rel[..dot].replace('/', "\\");
        // a file is a tag when its name is the canonical spelling of a tag path
        if native(&p) == rel[..dot] && ref_path(&p).as_deref() == Some(&p) && !rel[..dot].contains('\\') { out.insert(format!("{p}{}", &rel[dot..])); }
    } }
    out
}
fn c14_layers(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let root = ctx.fresh_dir();
    let n = s.usize(1, 4);
    let dirs: Vec<PathBuf> = (0..n).map(|i| root.join(format!("layer{i}"))).collect();
    for d in &dirs { std::fs::create_dir(d).unwrap() }
    let cow: Option<PathBuf> = match s.below(4) { 0 | 1 => None, 2 => Some(dirs[0].clone()), _ => Some(root.join("cow")) };
    let u = universe(s);
    // a directory may be given twice
    let mut given = dirs.clone();
    if s.chance(1, 8) { given.push(dirs[0].clone()) }
    let mut tree = VirtualTagsDirectory::new(&given, cow.clone()).map_err(|e| Fail::new("existing directories refused", e.to_string()))?;
    ensure!(VirtualTagsDirectory::new(&[root.join("none")], None).is_err(), "missing directory accepted", "");
    let relaxed = s.chance(1, 4);
    if relaxed { tree.set_strictness(ParseStrictness::Relaxed) }
    ensure!(tree.get_directory(0) == Some(&dirs[0]) && tree.get_directory(given.len()).is_none(), "wrong directory reported", "");
    let mut log: Vec<String> = vec![];
    let (mut wrote, mut shadowed, mut junk) = (0, 0, 0);
    let steps = s.usize(4, 24);
    for _ in 0..steps {
        let k = s.below(u.paths.len() as u64) as usize;
        let (p, g) = &u.paths[k];
        let rel = native(&full(p, *g));
        let path = tp(p, *g);
        let layers: Vec<Files> = dirs.iter().map(|d| snapshot(d)).collect();
        let cow_files = cow.as_ref().map(|c| snapshot(c));
        let holder = layers.iter().position(|f| f.contains_key(&rel));
        let what = s.weighted(&[4, 5, 5, 3, 2, 2, 2]);
        match what {
            0 => { // somebody else puts a tag there
                let i = s.usize(0, n - 1); let b = s.pick(&u.vals[k]).1.clone();
                log.push(format!("external write of {rel} in layer {i}"));
                put(&dirs[i], &rel, &b);
            }
            1 => { // open
                log.push(format!("open {rel}"));
                let r = tree.open_tag_copy(&path);
                match (&holder, r) {
                    (None, Err(Error::TagNotFound(q))) => { ensure!(q == path, "another tag reported missing", "{log:?}"); ctx.label("open missing"); }
                    (None, r) => fail!("tag in no layer not reported missing", "{:?}: {log:?}", r.err().map(|e| e.to_string())),
                    (Some(i), r) => {
                        let b = &layers[*i][&rel];
                        let known = u.vals[k].iter().any(|v| v.1 == *b);
                        let mut own = b.clone(); let body = own.len() > 0x40; if body { let c = crc32(&own[0x40..]); own[0x28..0x2C].copy_from_slice(&c.to_be_bytes()) }
                        let repaired = body && relaxed && u.vals[k].iter().any(|v| v.1 == own);
                        match r {
                            Ok(t) => {
                                ensure!(group_name(t.group()) == l.groups[*g].name, "tag of another group returned", "{log:?}");
                                ensure!(known || repaired, "damaged tag opened", "{log:?}");
                                ensure!(bytes_of(t.as_ref())? == own, "opened tag is not the one in the first layer that has it", "layer {i}: {log:?}");
                                if layers[i + 1..].iter().any(|f| f.contains_key(&rel)) { shadowed += 1 }
                                ctx.label("open found");
                            }
                            Err(e) => { ensure!(!known && !repaired, "intact tag not opened", "{e}: {log:?}"); ensure!(err_name(&e) == "FailedToReadTag", "damaged tag reported oddly", "{e}: {log:?}"); ctx.label("open damaged") }
                        }
                    }
                }
                ensure!(tree.contains(&path) == holder.is_some(), "existence reported wrongly", "{log:?}");
                let want = holder.map(|i| (i, dirs[i].join(&rel)));
                ensure!(tree.path_for_tag(&path) == want, "wrong file for a tag", "{:?}, should be {want:?}: {log:?}", tree.path_for_tag(&path));
                // shared handle
                if let (Ok(a), Some(i)) = (tree.open_tag_shared(&path), holder) { let a = a.lock().unwrap(); if !relaxed { ensure!(bytes_of(a.as_ref())? == layers[i][&rel], "shared handle holds another tag", "{log:?}") } }
            }
            2 => { // write
                let (v, b) = s.pick(&u.vals[k]).clone();
                let t = tag_of(*g, &v)?;
                let chosen = s.usize(0, n - 1);
                let any = s.chance(1, 3);
                log.push(if any { format!("write {rel} to directory {chosen}") } else { format!("write {rel}") });
                let r = if any { tree.write_tag_to_directory(&path, t.as_ref(), chosen) } else { tree.write_tag(&path, t.as_ref()) };
                let default_dir = if any { chosen } else { 0 };
                let unchanged = holder.is_some_and(|i| layers[i][&rel] == b) || cow_files.as_ref().is_some_and(|f| f.get(&rel) == Some(&b));
                let target = match (&cow, holder) { (Some(c), _) => c.clone(), (None, Some(i)) => dirs[i].clone(), (None, None) => dirs[default_dir].clone() };
                // a file where a directory is needed, or a directory where the file goes
                let blocked = { let mut q = target.clone(); let mut bad = false; let parts: Vec<&str> = rel.split('/').collect(); for (j, x) in parts.iter().enumerate() { q = q.join(x); if j + 1 < parts.len() { bad |= q.is_file() } else { bad |= q.is_dir() } } bad };
                let after: Vec<Files> = dirs.iter().map(|d| snapshot(d)).collect();
                let cow_after = cow.as_ref().map(|c| snapshot(c));
                let mut want: Vec<Files> = layers.clone();
                let mut cow_want = cow_files.clone();
                match r {
                    Ok(true) => {
                        ensure!(!unchanged, "change reported although the content was there already", "{log:?}");
                        ensure!(!blocked, "write reported although impossible", "{log:?}");
                        for (i, d) in dirs.iter().enumerate() { if *d == target { want[i].insert(rel.clone(), b.clone()); } }
                        if cow.is_some() { cow_want.as_mut().unwrap().insert(rel.clone(), b.clone()); }
                        wrote += 1;
                        ctx.label(if cow.is_some() { "written (copy on write)" } else if holder.is_some() { "replaced" } else { "created" });
                    }
                    Ok(false) => { ensure!(unchanged, "no change reported although the content differs", "{log:?}"); ctx.label("write unchanged") }
                    Err(e) => { ensure!(blocked && !unchanged, "write failed", "{e}: {log:?}"); ctx.label("write impossible") }
                }
                ensure!(after == want && cow_after == cow_want, "files differ from what the write should do", "layers changed: {:?}, cow changed: {}: {log:?}", (0..n).filter(|i| after[*i] != want[*i]).collect::<Vec<_>>(), cow_after != cow_want);
                // read your write
                let reads_target = cow.is_none() || cow.as_deref() == Some(&dirs[0]);
                if reads_target && !blocked {
                    let got = tree.open_tag_copy(&path).map_err(|e| Fail::new("tag just written cannot be opened", format!("{e}: {log:?}")))?;
                    ensure!(bytes_of(got.as_ref())? == b, "another tag is read than was just written", "{log:?}");
                }
            }
            3 => { // list
                log.push("list".into());
                let want = ref_listing(&layers);
                let f = if s.bool() { None } else { let f = gen_filter(s, &full(p, *g)); Some((f.clone(), TagFilter::new(&f, None))) };
                let got: Vec<String> = tree.get_all_tags_with_filter(f.as_ref().map(|f| &f.1)).iter().map(|t| t.to_internal_path()).collect();
                let set: BTreeSet<String> = got.iter().cloned().collect();
                ensure!(set.len() == got.len(), "tag listed twice", "{got:?}: {log:?}");
                let want_f: BTreeSet<String> = want.iter().filter(|w| f.as_ref().map_or(true, |f| { let d = w.rfind('.').unwrap(); ref_filter(&f.0, None, &w[..d], Some(l.group_by_name[&w[d + 1..]])) })).cloned().collect();
                ensure!(set == want_f, "wrong listing", "extra {:?}, missing {:?}, filter {:?}: {log:?}", set.difference(&want_f).collect::<Vec<_>>(), want_f.difference(&set).collect::<Vec<_>>(), f.map(|f| f.0));
                for w in &want { let q = TagPath::from_path(w).unwrap(); ensure!(tree.contains(&q), "listed tag does not exist", "{w}: {log:?}"); }
                // walking directory by directory gives the same
                let mut seen = vec![]; let mut todo = vec![tree.root()];
                ensure!(tree.root().is_directory() && tree.root().tag_path().is_none(), "root is not a directory", "");
                while let Some(d) = todo.pop() { for x in d.files().unwrap_or_default() { if x.is_tag() { seen.push(x.tag_path().unwrap().to_internal_path()); ensure!(x.tag_group().is_some() && x.files().is_none(), "tag item inconsistent", ""); } else { todo.push(x) } } }
                seen.sort();
                ensure!(seen == want.iter().cloned().collect::<Vec<_>>(), "walk differs from listing", "{seen:?} vs {want:?}: {log:?}");
                ensure!(tree.files_in_path("no such directory").is_none(), "missing directory listed", "");
                ctx.label_n("tags listed", want.len() as u64);
            }
            4 => { // somebody removes a file
                let i = s.usize(0, n - 1); log.push(format!("external removal of {rel} in layer {i}"));
                let f = dirs[i].join(&rel); if f.is_file() { let _ = std::fs::remove_file(f); }
            }
            5 => { // a damaged or misnamed tag
                let i = s.usize(0, n - 1);
                let mut b = s.pick(&u.vals[k]).1.clone();
                match s.below(4) {
                    0 if b.len() > 0x40 => { let j = s.usize(0x40, b.len() - 1); b[j] ^= 1 << s.below(8); }
                    1 => { let n = s.usize(0, b.len() - 1); b.truncate(n); }
                    2 => { let o = (*g + 1 + s.below(l.groups.len() as u64 - 1) as usize) % l.groups.len(); b = file_of(o, &default_struct(l, l.groups[o].st)); }
                    _ => { b[0x28] ^= 0x10; }
                }
                log.push(format!("damaged {rel} in layer {i}"));
                // a flip that the reader cannot see in relaxed mode would need a second model; keep to detectable ones
                if relaxed && u.vals[k].iter().any(|v| v.1.len() == b.len()) { b.pop(); }
                put(&dirs[i], &rel, &b);
            }
            _ => { // things which are not tags
                junk += 1;
                let i = s.usize(0, n - 1);
                let base = native(p);
                let name = match s.below(10) {
                    0 => format!("{base}.txt"), 1 => "con.bitmap".into(), 2 => format!("{}.BITMAP", base), 3 => "Upper.bitmap".into(), 4 => "Dir/x.weapon".into(), 5 => "a\\b.bitmap".into(),
                    6 => base.clone(), 7 => "trailing./x.sound".into(), 8 => "bitmap".into(), _ => "qu\"ote.bitmap".into()
                };
                log.push(format!("junk {name} in layer {i}"));
                if s.chance(1, 4) { let _ = std::fs::create_dir_all(dirs[i].join(&rel)); } else if s.chance(1, 8) { let _ = std::fs::create_dir_all(dirs[i].join("links")); let _ = std::os::unix::fs::symlink(root.join("nowhere"), dirs[i].join("links/broken.weapon")); } else if s.chance(1, 5) { let _ = std::fs::create_dir_all(dirs[i].join("empty/dir.weapon")); } else { put(&dirs[i], &name, b"junk") }
            }
        }
    }
    ensure!(!tree.is_read_only() && matches!(tree.tree_type(), TreeType::LooseTags), "wrong kind of tree", "");
    if wrote > 0 && n > 1 { ctx.nontrivial_s(&log.join(";")); }
    if shadowed > 0 { ctx.label("history with shadowed tag") }
    if junk > 0 { ctx.label("history with junk files") }
    ctx.sample(|| format!("{n} layers, cow {:?}: {}", cow.as_ref().map(|c| c.file_name().unwrap().to_owned()), log.join("; ")));
    ctx.drop_dir(&root);
    Ok(())
}

/// many tags, many layers, deep directories
fn crowd(s: &mut Src, root: &std::path::Path) -> (Vec<PathBuf>, Vec<(String, usize)>) {
    let l = layout();
    let n = *s.pick(&[1usize, 2, 3, 9, 17, 70, 260]);
    let dirs: Vec<PathBuf> = (0..n).map(|i| root.join(format!("layer{i}"))).collect();
    for d in &dirs { std::fs::create_dir(d).unwrap() }
    let count = *s.pick(&[40usize, 130, 257, 300, 530]);
    let g = s.below(l.groups.len() as u64) as usize;
    let shape = s.below(4);
    let paths: Vec<(String, usize)> = (0..count).map(|i| (match shape { 0 => format!("t{i}"), 1 => format!("a{}\\b{}\\t{i}", i % 7, i % 3), 2 => { let d = i % 60; let mut p = String::new(); for j in 0..d { p += &format!("{}\\", (b'a' + (j % 20) as u8) as char) } format!("{p}t{i}") } _ => format!("dir{i}\\t") }, if s.chance(1, 4) { s.below(l.groups.len() as u64) as usize } else { g })).collect();
    (dirs, paths)
}
fn c14_many(s: &mut Src, ctx: &mut Ctx) -> R {
    let root = ctx.fresh_dir();
    let (dirs, paths) = crowd(s, &root);
    let n = dirs.len();
    let mut tree = VirtualTagsDirectory::new(&dirs, None).map_err(|e| Fail::new("existing directories refused", e.to_string()))?;
    let mut holds: BTreeMap<usize, Vec<(usize, Vec<u8>)>> = BTreeMap::new(); // path: layers, in order
    for (k, (p, g)) in paths.iter().enumerate() {
        let mut at: Vec<usize> = (0..s.usize(0, 2)).map(|_| s.usize(0, n - 1)).collect();
        at.push(if s.bool() { n - 1 } else { s.usize(0, n - 1) });
        at.sort(); at.dedup();
        for i in at { let b = file_of(*g, &Gen { budget: 30, max_items: 1, ..Default::default() }.structure(s, layout(), layout().groups[*g].st)); put(&dirs[i], &native(&full(p, *g)), &b); holds.entry(k).or_default().push((i, b)); }
    }
    let d = format!("{} tags in {n} directories, e.g. {}", paths.len(), full(&paths[paths.len() - 1].0, paths[0].1));
    let list = |t: &VirtualTagsDirectory, f: Option<&TagFilter>| -> Vec<String> { let mut v: Vec<String> = t.get_all_tags_with_filter(f).iter().map(|p| p.to_internal_path()).collect(); v.sort(); v };
    let mut want: Vec<String> = paths.iter().map(|p| full(&p.0, p.1)).collect();
    want.sort();
    let got = list(&tree, None);
    ensure!(got == want, "listing differs from the files", "{} listed, {} there: {d}", got.len(), want.len());
    let some = s.pick(&paths).clone();
    let f = format!("{}*.{}", some.0.chars().take(s.usize(0, 6)).collect::<String>().replace('*', "?"), layout().groups[some.1].name);
    let mut kept: Vec<String> = paths.iter().filter(|p| ref_filter(&f, None, &p.0, Some(p.1))).map(|p| full(&p.0, p.1)).collect();
    kept.sort();
    let got = list(&tree, Some(&TagFilter::new(&f, None)));
    ensure!(got == kept, "listing differs from the files", "{f}: {} listed, {} match: {d}", got.len(), kept.len());
    for _ in 0..12 {
        let k = s.below(paths.len() as u64) as usize;
        let path = tp(&paths[k].0, paths[k].1);
        let have = &holds[&k];
        ensure!(tree.contains(&path), "existing tag not contained", "{path}: {d}");
        let t = tree.open_tag_copy(&path).map_err(|e| Fail::new("tag not opened", format!("{e}: {d}")))?;
        ensure!(bytes_of(t.as_ref())? == have[0].1, "tag opened from another layer", "{path} of {:?}: {d}", have.iter().map(|h| h.0).collect::<Vec<_>>());
        // writing goes to the layer that has it
        let v = Gen { budget: 30, max_items: 1, ..Default::default() }.structure(s, layout(), layout().groups[paths[k].1].st);
        let b = file_of(paths[k].1, &v);
        let t = tag_of(paths[k].1, &v)?;
        tree.write_tag(&path, t.as_ref()).map_err(|e| Fail::new("write failed", format!("{e}: {d}")))?;
        holds.get_mut(&k).unwrap()[0].1 = b;
        for (i, b) in &holds[&k] { ensure!(std::fs::read(dirs[*i].join(native(&full(&paths[k].0, paths[k].1)))).ok().as_ref() == Some(b), "write changed the wrong layer", "{path} in {i}: {d}") }
    }
    let total: usize = dirs.iter().map(|d| snapshot(d).len()).sum();
    ensure_eq!(total, holds.values().map(|h| h.len()).sum::<usize>(), "files made by writing", "{d}");
    ctx.label(match n { 1..=3 => "few directories", _ => "many directories" });
    ctx.nontrivial_s(&format!("{d}{:?}", holds.values().map(|h| h.iter().map(|x| x.0).collect::<Vec<_>>()).collect::<Vec<_>>()));
    ctx.sample(|| d);
    ctx.drop_dir(&root);
    Ok(())
}
fn c15_many(s: &mut Src, ctx: &mut Ctx) -> R {
    let root = ctx.fresh_dir();
    let (dirs, paths) = crowd(s, &root);
    let dir = &dirs[0];
    let mut make = |s: &mut Src, g: usize| { let v = Gen { budget: 30, max_items: 1, ..Default::default() }.structure(s, layout(), layout().groups[g].st); let b = file_of(g, &v); (v, b) };
    let mut disk: Vec<Vec<u8>> = vec![];
    for (p, g) in &paths { let (_, b) = make(s, *g); put(dir, &native(&full(p, *g)), &b); disk.push(b) }
    let manual = s.chance(3, 4);
    let mut tree = CachingTagTree::new(VirtualTagsDirectory::new(&[dir], None).unwrap(), if manual { CachingTagTreeWriteStrategy::Manual } else { CachingTagTreeWriteStrategy::Instant });
    let mut cache: Vec<Option<Vec<u8>>> = vec![None; paths.len()];
    let d = format!("{} tags, {}", paths.len(), if manual { "manual" } else { "instant" });
    let look = |cache: &Vec<Option<Vec<u8>>>, disk: &Vec<Vec<u8>>, tree: &CachingTagTree<VirtualTagsDirectory>, when: &str| -> R {
        for (k, (p, g)) in paths.iter().enumerate() {
            ensure!(std::fs::read(dir.join(native(&full(p, *g)))).ok().as_ref() == Some(&disk[k]), "file changed at the wrong time", "{when}: {}: {d}", full(p, *g));
            if let Some(c) = &cache[k] { let h = tree.open_tag_shared(&tp(p, *g)).map_err(|e| Fail::new("cached tag not opened", format!("{e}: {d}")))?; let b = bytes_of(h.lock().unwrap().as_ref())?; ensure!(&b == c, "cached tag differs", "{when}: {}: {d}", full(p, *g)) }
        }
        Ok(())
    };
    let mut held = vec![];
    for (k, (p, g)) in paths.iter().enumerate() {
        match s.below(4) {
            0 => { let (v, b) = make(s, *g); let t = tag_of(*g, &v)?; tree.write_tag(&tp(p, *g), t.as_ref()).map_err(|e| Fail::new("write failed", format!("{e}: {d}")))?; cache[k] = Some(b.clone()); if !manual { disk[k] = b } }
            1 => { let h = tree.open_tag_shared(&tp(p, *g)).map_err(|e| Fail::new("tag not opened", format!("{e}: {d}")))?; held.push((k, h)); cache[k] = Some(disk[k].clone()) }
            2 => { let t = tree.open_tag_copy(&tp(p, *g)).map_err(|e| Fail::new("tag not opened", format!("{e}: {d}")))?; ensure!(bytes_of(t.as_ref())? == disk[k], "tag opened differs from its file", "{}: {d}", full(p, *g)) }
            _ => ()
        }
    }
    look(&cache, &disk, &tree, "after writing")?;
    for (k, h) in &held { if s.bool() { let g = paths[*k].1; let (v, b) = make(s, g); *h.lock().unwrap() = tag_of(g, &v)?; cache[*k] = Some(b) } }
    look(&cache, &disk, &tree, "after editing")?;
    let errs = tree.commit_all();
    ensure!(errs.is_empty(), "commit failed", "{} errors: {d}", errs.len());
    for (k, c) in cache.iter().enumerate() { if let Some(c) = c { disk[k] = c.clone() } }
    look(&cache, &disk, &tree, "after committing all")?;
    let n = cache.iter().filter(|c| c.is_some()).count();
    ctx.label(if n > 255 { "256 cached and more" } else { "up to 255 cached" });
    ctx.nontrivial_s(&format!("{d}{n}"));
    ctx.sample(|| format!("{d}, {n} cached"));
    ctx.drop_dir(&root);
    Ok(())
}

// ------------------------------------------------------------------ C15
fn c15_history(s: &mut Src, ctx: &mut Ctx) -> R {
    let root = ctx.fresh_dir();
    let u = universe(s);
    let inner = VirtualTagsDirectory::new(&[&root], None).unwrap();
    let manual = s.bool();
    let mut tree = CachingTagTree::new(inner, if manual { CachingTagTreeWriteStrategy::Manual } else { CachingTagTreeWriteStrategy::Instant });
    // model
    struct Entry { content: Vec<u8>, id: usize }
    let mut cache: HashMap<usize, Entry> = HashMap::new();
    let mut under: HashMap<usize, Option<Vec<u8>>> = HashMap::new(); // Some(bytes) or None = damaged
    let mut handles: Vec<(usize, usize, Arc<Mutex<Box<dyn PrimaryTagStructDyn>>>)> = vec![]; // path, entry id, handle
    let mut ids = 0usize;
    let mut log: Vec<String> = vec![];
    let mut interesting = 0;
    for _ in 0..s.usize(5, 30) {
        let k = s.below(u.paths.len() as u64) as usize;
        let (p, g) = &u.paths[k];
        let path = tp(p, *g);
        let rel = native(&full(p, *g));
        let file = root.join(&rel);
        match s.weighted(&[5, 5, 5, 3, 3, 2, 2, 3, 2, 2]) {
            0 | 1 => {
                let shared = s.bool();
                log.push(format!("open {} {rel}", if shared { "shared" } else { "copy" }));
                let want: Result<Vec<u8>, &str> = match cache.get(&k) { Some(e) => { interesting += 1; Ok(e.content.clone()) } None => match under.get(&k) { None => Err("TagNotFound"), Some(None) => Err("FailedToReadTag"), Some(Some(b)) => Ok(b.clone()) } };
                let plain = tree.inner().open_tag_copy(&path).err().map(|e| err_name(&e));
                let got: Result<Vec<u8>, String> = if shared {
                    match tree.open_tag_shared(&path) {
                        Ok(h) => {
                            let b = { let t = h.lock().unwrap(); bytes_of(t.as_ref())? };
                            if want.is_ok() {
                                let id = cache.get(&k).map(|e| e.id).unwrap_or_else(|| { ids += 1; ids });
                                for (q, i, o) in &handles { ensure!(Arc::ptr_eq(o, &h) == (*q == k && *i == id), "shared handles are not one object per cached tag", "{rel}: {log:?}"); }
                                handles.push((k, id, h.clone()));
                                if !cache.contains_key(&k) { cache.insert(k, Entry { content: b.clone(), id }); }
                            }
                            Ok(b)
                        }
                        Err(e) => Err(err_name(&e)),
                    }
                } else {
                    match tree.open_tag_copy(&path) {
                        Ok(mut t) => {
                            let b = bytes_of(t.as_ref())?;
                            // scribbling on a copy must not matter
                            let v = s.pick(&u.vals[k]).0.clone();
                            set_struct(layout(), layout().groups[*g].st, &v, t.as_mut_dynamic(), "copy").map_err(|e| Fail::new("field cannot be set by name", e))?;
                            if want.is_ok() && !cache.contains_key(&k) { ids += 1; cache.insert(k, Entry { content: b.clone(), id: ids }); }
                            Ok(b)
                        }
                        Err(e) => Err(err_name(&e)),
                    }
                };
                match (want, got) {
                    (Ok(w), Ok(x)) => ensure!(w == x, "opened tag is neither the last one written nor the one in the tree", "{rel}: {log:?}"),
                    (Err(w), Err(x)) => { ensure!(w == x && plain.as_deref() == Some(w), "failure differs from the one without the cache", "{rel}: {x}, without: {plain:?}: {log:?}"); ctx.label("open fails") }
                    (w, x) => fail!("open succeeds or fails wrongly", "{rel}: should be {:?}, is {:?}: {log:?}", w.map(|_| ()), x.map(|_| ())),
                }
            }
            2 => {
                let (v, b) = s.pick(&u.vals[k]).clone();
                let mut t = tag_of(*g, &v)?;
                log.push(format!("write {rel}"));
                let changed = under.get(&k) != Some(&Some(b.clone()));
                let r = tree.write_tag(&path, t.as_ref());
                let blocked = !manual && (file.is_dir() || (changed && !file.is_file()));
                match r {
                    Ok(x) => {
                        if !manual { ensure!(x == changed, "write reports wrongly whether anything was saved", "{x}: {log:?}"); under.insert(k, Some(b.clone())); }
                        ids += 1; cache.insert(k, Entry { content: b, id: ids });
                        ctx.label(if manual { "write (manual)" } else { "write (instant)" });
                        // the caller's tag stays its own
                        let v2 = s.pick(&u.vals[k]).0.clone();
                        set_struct(layout(), layout().groups[*g].st, &v2, t.as_mut_dynamic(), "copy").map_err(|e| Fail::new("field cannot be set by name", e))?;
                    }
                    Err(e) => { ensure!(blocked, "write failed", "{e}: {log:?}"); ctx.label("write fails") }
                }
            }
            3 => { // change a tag through a shared handle
                if handles.is_empty() { continue }
                let (q, id, h) = { let x = s.pick(&handles); (x.0, x.1, x.2.clone()) };
                let (v, b) = s.pick(&u.vals[q]).clone();
                log.push(format!("edit through a handle of {}", full(&u.paths[q].0, u.paths[q].1)));
                let mut t = h.lock().unwrap();
                *t = tag_of(u.paths[q].1, &v)?;
                if let Some(e) = cache.get_mut(&q) { if e.id == id { e.content = b; interesting += 1; ctx.label("edit through a live handle") } }
            }
            4 => {
                log.push(format!("commit {rel}"));
                match (tree.commit(&path), cache.get(&k)) {
                    (Err(Error::TagNotFound(q)), None) => ensure!(q == path, "another tag reported missing", "{log:?}"),
                    (Ok(x), Some(e)) => { let changed = under.get(&k) != Some(&Some(e.content.clone())); ensure!(x == changed, "commit reports wrongly whether anything was saved", "{x}: {log:?}"); under.insert(k, Some(e.content.clone())); ctx.label("commit") }
                    (Err(e), Some(_)) => ensure!(file.is_dir() || !file.is_file(), "commit failed", "{e}: {log:?}"),
                    (r, c) => fail!("commit of a tag that is not open", "{:?} {}: {log:?}", r.map_err(|e| e.to_string()), c.is_some()),
                }
            }
            5 => {
                log.push("commit all".into());
                let errs = tree.commit_all();
                let failed: BTreeSet<String> = errs.iter().map(|e| e.0.to_internal_path()).collect();
                for (k, e) in &cache { let (p, g) = &u.paths[*k]; if !failed.contains(&full(p, *g)) { ensure!(!root.join(native(&full(p, *g))).is_dir(), "failed commit not reported", "{}: {log:?}", full(p, *g)); under.insert(*k, Some(e.content.clone())); } else { ctx.label("commit all partly fails"); ensure!(!root.join(native(&full(p, *g))).is_file(), "commit failed", "{}: {log:?}", full(p, *g)) } }
                if !cache.is_empty() { interesting += 1; ctx.label("commit all") }
            }
            6 => {
                log.push(format!("evict {rel}"));
                let r = tree.evict(&path);
                match (r, cache.remove(&k)) {
                    (None, None) => (),
                    (Some(t), Some(e)) => { ensure!(bytes_of(t.as_ref())? == e.content, "evicted tag differs from the cached one", "{log:?}"); ctx.label("evict") }
                    (a, b) => fail!("eviction disagrees with the cache contents", "{} {}: {log:?}", a.is_some(), b.is_some()),
                }
            }
            7 => { // the tree below changes
                let b = s.pick(&u.vals[k]).1.clone();
                if file.is_dir() { log.push(format!("external removal of directory {rel}")); let _ = std::fs::remove_dir(&file); continue }
                match s.below(6) {
                    4 | 5 if !under.contains_key(&k) => { if std::fs::create_dir_all(&file).is_ok() { log.push(format!("external directory {rel}")); ctx.label("a directory blocks the tag") } }
                    0 => { log.push(format!("external removal of {rel}")); let _ = std::fs::remove_file(&file); under.remove(&k); }
                    1 => { log.push(format!("external damage of {rel}")); put(&root, &rel, &b[..b.len() - 1]); if file.is_file() { under.insert(k, None); } }
                    _ => { log.push(format!("external write of {rel}")); put(&root, &rel, &b); if file.is_file() { under.insert(k, Some(b)); } }
                }
            }
            8 => {
                log.push("look".into());
                let got = tree.get(&path);
                ensure!(got.is_some() == cache.contains_key(&k), "cached tag lookup", "{log:?}");
                if let Some(h) = got { ensure!(bytes_of(h.lock().unwrap().as_ref())? == cache[&k].content, "cached tag differs", "{log:?}") }
                ensure!(tree.contains(&path) == under.contains_key(&k), "existence reported wrongly", "{log:?}");
                let mut a = tree.get_all_tags_with_filter(None); let mut b = tree.inner().get_all_tags_with_filter(None); a.sort(); b.sort();
                ensure!(a == b, "listing differs through the cache", "{log:?}");
                ensure!(tree.is_read_only() == manual, "read-only flag", "");
            }
            _ => { if !handles.is_empty() { let i = s.usize(0, handles.len() - 1); handles.remove(i); } }
        }
        // nothing but the modelled writes reaches the tree
        let disk = snapshot(&root);
        for (k, (p, g)) in u.paths.iter().enumerate() {
            let d = disk.get(&native(&full(p, *g)));
            match under.get(&k) {
                None => ensure!(d.is_none(), "tag written to the tree too early", "{} {p}: {log:?}", if manual { "manual" } else { "instant" }),
                Some(None) => ensure!(d.is_some(), "tag vanished", "{p}: {log:?}"),
                Some(Some(b)) => ensure!(d == Some(b), "tree holds another content than was last written to it", "{} {p}: {log:?}", if manual { "manual" } else { "instant" }),
            }
        }
        ensure!(disk.len() == under.len(), "stray file", "{:?}: {log:?}", disk.keys().collect::<Vec<_>>());
    }
    if interesting > 1 { ctx.nontrivial_s(&format!("{manual}{}", log.join(";"))); }
    ctx.label(if manual { "manual" } else { "instant" });
    ctx.sample(|| format!("{}: {}", if manual { "manual" } else { "instant" }, log.join("; ")));
    drop(handles);
    ctx.drop_dir(&root);
    Ok(())
}

/// concurrent users of one atomic, cached tree
fn c15_threads(s: &mut Src, ctx: &mut Ctx) -> R {
    let root = ctx.fresh_dir();
    let l = layout();
    let g = l.group_by_name["physics"];
    let f = l.structs[l.groups[g].st].fields.iter().position(|f| f.matcher == "radius").unwrap();
    let value = |n: u64| { let V::St(mut x) = default_struct(l, l.groups[g].st) else { unreachable!() }; x[f] = V::W(vec![(n as f32).to_bits()]); V::St(x) };
    let paths: Vec<TagPath> = (0..s.usize(1, 3)).map(|i| tp(&format!("t{i}"), g)).collect();
    for (i, p) in paths.iter().enumerate() { put(&root, &p.to_native_path(), &file_of(g, &value(i as u64 + 1))); }
    let manual = s.bool();
    let tree = AtomicTagTree::new(CachingTagTree::new(VirtualTagsDirectory::new(&[&root], None).unwrap(), if manual { CachingTagTreeWriteStrategy::Manual } else { CachingTagTreeWriteStrategy::Instant }));
    let threads = s.usize(2, 4);
    let clock = Arc::new(AtomicU64::new(1));
    #[derive(Clone)]
    struct Op { write: bool, key: usize, val: f64, a: u64, b: u64 }
    let mut plans: Vec<Vec<(bool, usize, u64, u64)>> = vec![];
    let mut next = 100u64;
    for _ in 0..threads { plans.push((0..s.usize(2, 10)).map(|_| { next += 1; (s.bool(), s.below(paths.len() as u64) as usize, next, s.below(60)) }).collect()); }
    let shape: Vec<Vec<(bool, usize, u64, u64)>> = plans.clone();
    let hs: Vec<_> = plans.into_iter().map(|plan| {
        let (mut tree, paths, clock) = (tree.clone(), paths.clone(), clock.clone());
        let tags: Vec<_> = plan.iter().map(|o| tag_of(g, &value(o.2)).ok().unwrap()).collect();
        std::thread::spawn(move || {
            let mut out: Vec<Op> = vec![];
            let mut errs = vec![];
            for (o, t) in plan.iter().zip(&tags) {
                for _ in 0..o.3 { std::hint::spin_loop() }
                if o.3 > 50 { std::thread::yield_now() }
                let a = clock.fetch_add(1, Ordering::SeqCst);
                let val = if o.0 { if let Err(e) = tree.write_tag(&paths[o.1], t.as_ref()) { errs.push(e.to_string()) } o.2 as f64 }
                    else { match tree.open_tag_shared(&paths[o.1]) { Ok(h) => { let t = h.lock().unwrap(); t.get_ref::<ringhopper_structs::Physics>().unwrap().radius } Err(e) => { errs.push(e.to_string()); continue } } };
                let b = clock.fetch_add(1, Ordering::SeqCst);
                out.push(Op { write: o.0, key: o.1, val, a, b });
            }
            (out, errs)
        })
    }).collect();
    let mut ops: Vec<Op> = (0..paths.len()).map(|i| Op { write: true, key: i, val: i as f64 + 1.0, a: 0, b: 0 }).collect();
    for h in hs { let (o, e) = h.join().map_err(|_| Fail::new("panic in a concurrent user", "thread panicked"))?; ensure!(e.is_empty(), "operation failed under concurrency", "{e:?}"); ops.extend(o); }
    // per key: a read returns a write that began before the read ended and was not overwritten before the read began
    for r in ops.iter().filter(|o| !o.write) {
        let Some(w) = ops.iter().find(|o| o.write && o.key == r.key && o.val == r.val) else { fail!("read returns a value never written", "{} of key {}", r.val, r.key) };
        ensure!(w.a < r.b, "read returns a later write", "");
        ensure!(!ops.iter().any(|o| o.write && o.key == r.key && o.a > w.b && o.b < r.a), "read returns an overwritten value", "{} of key {}", r.val, r.key);
    }
    let mut cached = tree.into_inner();
    for (i, p) in paths.iter().enumerate() {
        let last: Vec<&Op> = ops.iter().filter(|o| o.write && o.key == i).filter(|w| !ops.iter().any(|o| o.write && o.key == i && o.a > w.b)).collect();
        let now = |b: &[u8]| ringhopper_structs::read_any_tag_from_file_buffer(b, ParseStrictness::Strict).map(|t| t.get_ref::<ringhopper_structs::Physics>().unwrap().radius);
        let mem = cached.open_tag_copy(p).unwrap().get_ref::<ringhopper_structs::Physics>().unwrap().radius;
        ensure!(last.iter().any(|w| w.val == mem), "last state is not a last write", "{mem}");
        let disk = now(&std::fs::read(root.join(p.to_native_path())).unwrap()).unwrap();
        if manual { ensure!(disk == i as f64 + 1.0, "tag written to the tree too early", "manual, {disk}") } else { ensure!(disk == mem, "cache and tree disagree after concurrent writes", "{disk} vs {mem}") }
        if manual { let e = cached.commit(p); ensure!(e.is_ok(), "commit failed", ""); let disk = now(&std::fs::read(root.join(p.to_native_path())).unwrap()).unwrap(); ensure!(disk == mem, "cache and tree disagree after commit", "{disk} vs {mem}") }
    }
    let overlap = ops.iter().any(|x| ops.iter().any(|y| x.key == y.key && x.write && x.a < y.b && y.a < x.b && x.a != y.a));
    if overlap { ctx.label("history with overlapping operations") }
    ctx.nontrivial_s(&format!("{shape:?}"));
    ctx.sample(|| format!("{threads} threads, {} operations, {} tags, overlap {overlap}", ops.len(), paths.len()));
    ctx.drop_dir(&root);
    Ok(())
}

// ------------------------------------------------------------------ trees inside of others
/// what a tree answers, apart from writing
fn answers<T: TagTree + ?Sized>(t: &T, u: &Universe, filters: &[TagFilter], walk: bool) -> Result<Vec<String>, Fail> {
    let mut out = vec![];
    let one = |r: Result<Box<dyn PrimaryTagStructDyn>, Error>| -> Result<String, Fail> { Ok(match r { Ok(t) => format!("{} {:016x}", group_name(t.group()), hash_bytes(&bytes_of(t.as_ref())?)), Err(e) => e.to_string() }) };
    for (p, g) in &u.paths {
        let path = tp(p, *g);
        out.push(format!("{path} exists {}", t.contains(&path)));
        out.push(format!("{path} {}", one(t.open_tag_copy(&path))?));
        out.push(format!("{path} shared {}", one(t.open_tag_shared(&path).map(|h| h.lock().unwrap().clone_inner()))?));
        if walk { let d = p.rfind('\\').map_or("", |i| &p[..i]); let mut x: Vec<String> = t.files_in_path(d).map_or(vec!["none".into()], |v| v.iter().map(|i| format!("{:?} {}", i.tag_path().map(|p| p.to_string()), i.is_tag())).collect()); x.sort(); out.push(format!("in {d:?}: {x:?}")) }
    }
    for f in filters.iter().map(Some).chain([None]) { let mut x: Vec<String> = t.get_all_tags_with_filter(f).iter().map(|p| p.to_string()).collect(); x.sort(); out.push(format!("{x:?}")) }
    if walk {
        let root = t.root();
        ensure!(root.is_directory(), "root is not a directory", "");
        let mut x: Vec<String> = root.files().unwrap_or_default().iter().map(|i| format!("{:?} {}", i.tag_path().map(|p| p.to_string()), i.is_tag())).collect();
        x.sort();
        out.push(format!("root {x:?}"));
        out.push(format!("nowhere {}", t.files_in_path("no such directory").is_none()));
    }
    out.push(match t.tree_type() { TreeType::LooseTags => "loose".into(), TreeType::CacheFile => "map".into() });
    Ok(out)
}
fn c14_wrapped(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let root = ctx.fresh_dir();
    let dirs: Vec<PathBuf> = (0..s.usize(1, 2)).map(|i| root.join(format!("layer{i}"))).collect();
    let u = universe(s);
    for d in &dirs { std::fs::create_dir(d).unwrap(); for (k, (p, g)) in u.paths.iter().enumerate() { if s.chance(2, 3) { let mut b = s.pick(&u.vals[k]).1.clone(); if s.chance(1, 6) { b.pop(); } put(d, &native(&full(p, *g)), &b) } } }
    let files: Vec<Files> = dirs.iter().map(|d| snapshot(d)).collect();
    let open = || VirtualTagsDirectory::new(&dirs, None).unwrap();
    let k = s.below(u.paths.len() as u64) as usize;
    let near = full(&u.paths[k].0, u.paths[k].1);
    let filters: Vec<TagFilter> = (0..2).map(|_| TagFilter::new(&gen_filter(s, &near), None)).collect();
    let want = answers(&open(), &u, &filters, true)?;
    let few = answers(&open(), &u, &filters, false)?;
    type Any = dyn TagTree + Send + Sync;
    let same = |what: &str, got: Vec<String>, want: &Vec<String>| -> R { if got != *want { let i = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)).unwrap(); fail!(format!("{what} answers otherwise"), "{:?}, should be {:?}", got.get(i), want.get(i)) } Ok(()) };
    let cached = |m: bool| CachingTagTree::new(open(), if m { CachingTagTreeWriteStrategy::Manual } else { CachingTagTreeWriteStrategy::Instant });
    let manual = s.bool();
    // every way to pass a tree on
    let a1 = Arc::new(open());
    same("Arc", answers(&a1, &u, &filters, true)?, &want)?;
    let a2: Arc<Any> = Arc::new(open());
    same("Arc of any tree", answers(&a2, &u, &filters, true)?, &want)?;
    let b: Box<Any> = Box::new(open());
    same("Box of any tree", answers(&b, &u, &filters, true)?, &want)?;
    let at = AtomicTagTree::new(open());
    same("AtomicTagTree", answers(&at, &u, &filters, false)?, &few)?;
    same("AtomicTagTree", answers(&at.clone(), &u, &filters, false)?, &few)?;
    same("AtomicTagTree", answers(&at.clone_inner(), &u, &filters, true)?, &want)?;
    let c = cached(manual);
    same("CachingTagTree", answers(&c, &u, &filters, true)?, &want)?;
    same("CachingTagTree", answers(&c, &u, &filters, true)?, &want)?;
    let ab: Arc<Box<Any>> = Arc::new(Box::new(cached(manual)));
    same("Arc of a Box", answers(&ab, &u, &filters, true)?, &want)?;
    let aa = AtomicTagTree::new(a2.clone());
    same("AtomicTagTree of an Arc", answers(&aa, &u, &filters, false)?, &few)?;
    let ac = Arc::new(cached(manual));
    let dc: Arc<Any> = Arc::new(cached(manual));
    let bc: Box<Any> = Box::new(cached(manual));
    let tc = AtomicTagTree::new(cached(manual));
    // which can be written to
    ensure!(a1.is_read_only() && a2.is_read_only() && ac.is_read_only() && dc.is_read_only() && ab.is_read_only() && aa.is_read_only(), "tree that cannot be written to says otherwise", "");
    ensure!(!b.is_read_only() && !at.is_read_only(), "tree that can be written to says otherwise", "");
    ensure!([cached(true).is_read_only(), cached(false).is_read_only(), bc.is_read_only(), tc.is_read_only()] == [true, false, manual, manual], "cached tree misreports whether it writes at once", "manual {manual}");
    // a cached tag is one object however it is reached
    let mut shared = 0;
    for (p, g) in &u.paths {
        let path = tp(p, *g);
        let pair = |t: &dyn TagTree| -> R { if let (Ok(a), Ok(b)) = (t.open_tag_shared(&path), t.open_tag_shared(&path)) { ensure!(Arc::ptr_eq(&a, &b), "two handles of one cached tag", "{path}"); } Ok(()) };
        pair(&ac)?; pair(&dc)?; pair(&bc)?; pair(&tc)?; pair(&ab)?;
        let (x, y) = (tc.open_tag_shared(&path), tc.clone().open_tag_shared(&path));
        if let (Ok(a), Ok(b)) = (x, y) { shared += 1; ensure!(Arc::ptr_eq(&a, &b), "clones of one tree do not share", "{path}") }
        if let (Ok(a), Ok(b)) = (a1.open_tag_shared(&path), a1.open_tag_shared(&path)) { ensure!(!Arc::ptr_eq(&a, &b), "handles shared without a cache", "{path}") }
    }
    // writing through one does what writing to the tree does
    ensure!(dirs.iter().map(|d| snapshot(d)).collect::<Vec<_>>() == files, "reading changed files", "");
    let (p, g) = &u.paths[k];
    let path = tp(p, *g);
    let (v, bytes) = s.pick(&u.vals[k]).clone();
    let t = tag_of(*g, &v)?;
    let rel = native(&full(p, *g));
    let mut want = files.clone();
    let holder = files.iter().position(|f| f.contains_key(&rel)).unwrap_or(0);
    let change = files[holder].get(&rel) != Some(&bytes);
    let blocked = { let mut q = dirs[holder].clone(); let mut bad = false; let parts: Vec<&str> = rel.split('/').collect(); for (j, x) in parts.iter().enumerate() { q = q.join(x); if j + 1 < parts.len() { bad |= q.is_file() } else { bad |= q.is_dir() } } bad };
    if blocked { return Ok(()) }
    want[holder].insert(rel.clone(), bytes.clone());
    let (mut b, mut at, mut bc2) = (b, at, Box::new(cached(false)) as Box<Any>);
    let how = s.below(4);
    let r = match how { 0 => b.write_tag(&path, t.as_ref()), 1 => at.write_tag(&path, t.as_ref()), 2 => bc2.write_tag(&path, t.as_ref()), _ => AtomicTagTree::new(cached(false)).write_tag(&path, t.as_ref()) };
    match r { Ok(c) => ensure_eq!(c, change, "change reported wrongly", "{rel}"), Err(e) => fail!("write failed", "{e}: {rel}") }
    ensure!(dirs.iter().map(|d| snapshot(d)).collect::<Vec<_>>() == want, "files differ from what the write should do", "{rel} through {how}");
    let read = |t: &dyn TagTree| -> R { let got = bytes_of(t.open_tag_copy(&path).map_err(|e| Fail::new("tag just written cannot be opened", format!("{e}: {rel}")))?.as_ref())?; ensure!(got == bytes, "another tag is read than was just written", "{rel}"); Ok(()) };
    read(&b)?; read(&at)?; read(&at.into_inner())?;
    if how == 2 { read(&bc2)? }
    let many = u.paths.iter().filter(|(p, g)| files.iter().any(|f| f.contains_key(&native(&full(p, *g))))).count();
    ctx.label_n("cached tags reached twice", shared);
    ctx.label(if change { "written" } else { "written without a change" });
    if many > 1 { ctx.nontrivial_s(&format!("{:?}", files)) }
    let _ = l;
    ctx.sample(|| format!("{} tags in {} layers: {}", many, dirs.len(), u.paths.iter().map(|(p, g)| full(p, *g)).collect::<Vec<_>>().join(", ")));
    ctx.drop_dir(&root);
    Ok(())
}
pub static C13: Check = Check {
    id: "C13", terminates: true,
    subs: &[Sub { name: "filter", quick: 2_400_000, thorough: 20_000_000, run: c13_filter }],
    rule: "A case is one path, one group and one pattern, mostly derived from the path by replacing characters and runs with wildcards, decided for the path, as a reference, as an empty reference, copied, and with slashes swapped. Non-trivial: the pattern holds a wildcard; distinct by pattern, group and path.",
    assumptions: &["literal pattern characters match exactly (paths are lower case)"],
};
pub static C14: Check = Check {
    id: "C14", terminates: true,
    subs: &[Sub { name: "layers", quick: 15_000, thorough: 200_000, run: c14_layers }, Sub { name: "wrapped", quick: 8_000, thorough: 150_000, run: c14_wrapped }, Sub { name: "many", quick: 60, thorough: 3000, run: c14_many }],
    rule: "A case is a history of 4 to 24 operations (open, write, write to a chosen layer, list, and edits from outside: tags, damaged tags, removals, files and directories that are not tags) on one to four layers with or without a copy-on-write layer; all files of all layers are compared with the model after every write. Non-trivial: at least one write took effect and there is more than one layer; distinct by history. Or one or two layers looked at, listed, walked and written to through every way of passing a tree on (Arc, Box, atomic, cached, and these in each other), which must answer like the tree itself; non-trivial: at least two tags, distinct by files. Or trees of many layers (up to 260), tags (up to 530) and folder levels (up to 60).",
    assumptions: &["a case-sensitive file system"],
};
pub static C15: Check = Check {
    id: "C15", terminates: true,
    subs: &[Sub { name: "history", quick: 15_000, thorough: 200_000, run: c15_history }, Sub { name: "threads", quick: 6_000, thorough: 100_000, run: c15_threads }, Sub { name: "many", quick: 60, thorough: 3000, run: c15_many }],
    rule: "A case is a history of 5 to 30 operations (open copy/shared, write, edit through a handle, commit, commit all, evict, look, edits of the tree below) on a cached tree in either mode, with all files compared after every step; or 2 to 4 threads reading and writing one to three tags through a shared tree, whose reads must be explained by the writes; or hundreds of cached tags at once. Non-trivial: an operation hits a cached tag at least twice; distinct by history.",
    assumptions: &["thread interleavings are those the operating system produces, varied by random delays", "existence and listings are those of the tree below, since uncommitted writes have not reached it"],
};
