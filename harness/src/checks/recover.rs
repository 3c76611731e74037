//! C37: source data recovered from tags.
use super::tree::*;
use super::{geom, text};
use crate::engine::*;
use crate::layout::*;
use crate::value::*;
use ringhopper::tag::recover::get_recover_function;
use ringhopper::tag::unicode_string_list::UnicodeStringListFunctions;
use ringhopper_structs::UnicodeStringList;
use std::collections::BTreeMap;
use std::path::{Component, Path, PathBuf};

/// place below the data directory; None if it is outside
fn inside(p: &Path) -> Option<PathBuf> {
    let mut out = PathBuf::new();
    for c in p.components() { match c {
        Component::Normal(n) => out.push(n),
        Component::CurDir => (),
        Component::ParentDir => { if !out.pop() { return None } }
        _ => return None
    } }
    Some(out)
}
fn s32(t: &str) -> V { let mut n = [0u8; 32]; n[..t.len()].copy_from_slice(t.as_bytes()); V::S32(n) }
fn c37_scripts(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let g = l.group_by_name["scenario"];
    let st = l.st("ScenarioSourceFile");
    let mut v = small_value(s, g);
    let n = if s.chance(1, 300) { *s.pick(&[255usize, 256, 257, 300]) } else { *s.pick(&[1usize, 2, 3, 5, 8, 0]) };
    let odd = s.chance(1, 3);
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    for _ in 0..n {
        let mut name = match if n > 200 { 15 } else { s.below(if odd { 16 } else { 8 }) } {
            0 => "global_scripts".to_string(),
            1 => format!("global_{}", s.ascii_ident(1, 8)),
            2 => format!("{}.{}", s.ascii_ident(1, 4), s.pick(&["hsc", "txt", "tif"])),
            3 => { let k = s.usize(20, 31); s.ascii_ident(k, k) }
            8 => format!("..{}{}", s.pick(&["/", "\\"]), s.ascii_ident(1, 3)),
            9 => format!("{}{}{}", s.ascii_ident(1, 2), s.pick(&["/", "\\", "/../", "/../../", "/./", "//"]), s.ascii_ident(1, 2)),
            10 => format!("/{}", s.ascii_ident(1, 5)),
            11 => s.pick(&["..", ".", "", "/", "../global_scripts", "../../global_scripts", "/tmp/rhcheck_escape", "c:\\x", "Global_Scripts", "x ", "é"]).to_string(),
            12 if !files.is_empty() => s.pick(&files).0.clone(),
            13 if !files.is_empty() => s.pick(&files).0.to_ascii_uppercase(),
            _ if n > 200 => format!("s{}_{}", files.len(), s.ascii_ident(1, 3)).to_lowercase(),
            _ => s.ascii_ident(1, 8),
        };
        // shortened at the front, so that directories stay
        while name.len() > 31 { name.pop(); }
        let mut d = match s.below(4) { 0 => vec![], 1 => text::gen_line(s).into_bytes(), 2 => b"(script startup x\r\n  (sleep 30))\r\n".to_vec(), _ if n < 9 && s.chance(1, 300) => { let k = *s.pick(&[4095usize, 4096, 65535, 65536, 65537, 200_000]); (0..k).map(|i| b' ' + (i % 91) as u8).collect() } _ => { let k = s.usize(0, 40); s.bytes(k) } };
        match s.below(3) { 0 => d.push(0), 1 if s.bool() => { d.push(0); let k = s.usize(0, 5); d.extend(s.bytes(k)) } _ => () }
        files.push((name, d));
    }
    // names that differ whatever the file system
    let low: Vec<String> = files.iter().map(|f| f.0.to_lowercase()).collect();
    let distinct = (0..low.len()).all(|i| !low[..i].contains(&low[i]));
    let plain = |n: &str| !n.is_empty() && n.bytes().all(|b| b.is_ascii_lowercase() || b.is_ascii_digit() || b == b'_' || b == b'.') && !n.starts_with('.') && !n.ends_with('.');
    let sound = distinct && files.iter().all(|f| plain(&f.0));
    *geom::items_mut(l, l.groups[g].st, &mut v, "source_files") = files.iter().map(|(n, d)| { let mut x = default_struct(l, st); *geom::sub_mut(l, st, &mut x, "name") = s32(n); *geom::sub_mut(l, st, &mut x, "source") = V::Data(d.clone()); x }).collect();
    let path = match s.below(4) { 0 => "x".to_string(), 1 => s.ascii_ident(1, 5).to_lowercase(), _ => gen_path(s) };
    if super::paths::ref_path(&path).as_deref() != Some(path.as_str()) { ctx.label("name of no path"); return Ok(()) }
    let dir = match path.rfind('\\') { Some(k) => native(&path[..k]), None => String::new() };
    let tag = tag_of(g, &v)?;
    let before = bytes_of(tag.as_ref())?;
    let r = get_recover_function(tag_group("scenario")).ok_or_else(|| Fail::new("scenario scripts cannot be recovered", ""))?(&tp(&path, g), &tag);
    ensure!(bytes_of(tag.as_ref())? == before, "recovering changes the tag", "");
    let d = || format!("{path}.scenario with sources {:?}", files.iter().map(|f| (&f.0, f.1.len())).collect::<Vec<_>>());
    match r {
        Ok(None) => { ensure!(n == 0, "sources not recovered", "{}", d()); ctx.label("no sources") }
        Err(e) => { ensure!(!sound, "sources not recovered", "{e}: {}", d()); ctx.label(if distinct { "odd name refused" } else { "name used twice refused" }) }
        Ok(Some(m)) => {
            ensure!(n > 0, "sources made up", "{}", d());
            let mut at: BTreeMap<PathBuf, Vec<u8>> = BTreeMap::new();
            for (p, b) in m {
                let q = inside(&p).ok_or_else(|| Fail::new("recovered file outside of the data directory", format!("{p:?}: {}", d())))?;
                let scripts = Path::new(&dir).join("scripts");
                ensure!(q == Path::new("global_scripts.hsc") || q.parent() == Some(&scripts) && !p.to_str().unwrap_or("").contains('\\'), "recovered file outside of the scripts directory", "{p:?}: {}", d());
                ensure!(at.insert(q, b).is_none(), "two sources in one file", "{p:?}: {}", d());
            }
            ensure!(at.len() == n, "recovered sources lost", "{n} sources in {} files: {}", at.len(), d());
            for (name, data) in &files {
                let q = if name == "global_scripts" { PathBuf::from("global_scripts.hsc") } else { Path::new(&dir).join("scripts").join(format!("{name}.hsc")) };
                let q = inside(&q).unwrap_or(q);
                let end = data.iter().position(|b| *b == 0).unwrap_or(data.len());
                match at.get(&q) { Some(b) => ensure!(b == &data[..end], "recovered source differs", "{q:?}: {} bytes, should be {end}: {}", b.len(), d()), None => fail!("recovered sources lost", "{q:?} is missing, there are {:?}: {}", at.keys().collect::<Vec<_>>(), d()) }
            }
            ctx.label("recovered");
            if files.iter().any(|f| f.0 == "global_scripts") { ctx.label("with global scripts") }
        }
    }
    if n > 1 { ctx.nontrivial_s(&d()) }
    ctx.sample(d);
    Ok(())
}
fn c37_strings(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let g = l.group_by_name["unicode_string_list"];
    let mut v = small_value(s, g);
    let st = l.st("UnicodeStringListString");
    let n = if s.chance(1, 500) { *s.pick(&[60usize, 255, 256, 257, 600]) } else { s.usize(0, 5) };
    let strings: Vec<Vec<String>> = (0..n).map(|_| { let k = s.usize(0, 3); (0..k).map(|_| { let mut t = text::gen_line(s); t.retain(|c| !c.is_control()); t }).filter(|t| t != "###END-STRING###").collect() }).collect();
    // a string that ends without its terminator or in half a character cannot be recovered
    let broken = n > 0 && s.chance(1, 8);
    let mut items: Vec<Vec<u8>> = strings.iter().map(|t| t.join("\r\n").encode_utf16().chain([0]).flat_map(u16::to_le_bytes).collect()).collect();
    let mut how = "";
    if broken { let k = s.usize(0, n - 1); let b = &mut items[k]; match s.below(3) { 0 => { b.pop(); how = "half a unit" } 1 => { b.truncate(b.len() - 2); b.extend([0, 0xD8, 0, 0]); how = "half a surrogate pair" } _ => { b.truncate(b.len() - 2); how = "no terminator" } } }
    *geom::items_mut(l, l.groups[g].st, &mut v, "strings") = items.iter().map(|b| { let mut x = default_struct(l, st); *geom::sub_mut(l, st, &mut x, "string") = V::Data(b.clone()); x }).collect();
    let path = gen_path(s);
    let d = || format!("{path}.unicode_string_list with {strings:?} {how}");
    ctx.sample(d);
    // such a tag may be refused when it is read, too
    let tag = match tag_of(g, &v) { Ok(t) => t, Err(_) if broken => { ctx.label("refused when read"); return Ok(()) } Err(e) => return Err(e) };
    let r = get_recover_function(tag_group("unicode_string_list")).ok_or_else(|| Fail::new("string lists cannot be recovered", ""))?(&tp(&path, g), &tag);
    match r {
        Err(e) => { ensure!(broken, "strings not recovered", "{e}: {}", d()); ctx.label("refused") }
        Ok(None) => fail!("strings not recovered", "{}", d()),
        Ok(Some(m)) => {
            ensure!(!broken || how == "no terminator", "broken strings recovered", "{}", d());
            ensure!(m.len() == 1 && m.contains_key(Path::new(&format!("{}.txt", native(&path)))), "recovered file name", "{:?}: {}", m.keys().collect::<Vec<_>>(), d());
            let b = m.values().next().unwrap();
            let mut want = vec![0xFEFFu16];
            for t in &strings { for x in t.join("\r\n").split("\r\n") { if t.len() == 1 && t[0].is_empty() || t.is_empty() { break } want.extend(x.encode_utf16()); want.extend([13, 10]) } want.extend("###END-STRING###\r\n".encode_utf16()) }
            let got: Vec<u16> = b.chunks(2).map(|c| u16::from_le_bytes([c[0], *c.get(1).unwrap_or(&0)])).collect();
            ensure!(got == want, "recovered text differs", "{:?}, should be {:?}: {}", String::from_utf16_lossy(&got), String::from_utf16_lossy(&want), d());
            if !broken {
                let again = UnicodeStringList::from_text_data(b).map_err(|e| Fail::new("recovered text refused", format!("{e}: {}", d())))?;
                ensure!(get_struct(l, l.groups[g].st, &again, "list").map_err(|e| Fail::new("field cannot be read by name", e))? == get_struct(l, l.groups[g].st, tag.as_any().downcast_ref::<UnicodeStringList>().unwrap(), "list").map_err(|e| Fail::new("field cannot be read by name", e))?, "recovered text compiles to another list", "{}", d());
            }
            ctx.label("recovered");
        }
    }
    if n > 0 { ctx.nontrivial_s(&d()) }
    Ok(())
}
pub static C37: Check = Check {
    id: "C37", terminates: true,
    subs: &[Sub { name: "scripts", quick: 60_000, thorough: 1_500_000, run: c37_scripts }, Sub { name: "strings", quick: 60_000, thorough: 1_500_000, run: c37_strings }],
    rule: "A case is a scenario with up to eight script sources (plain, dotted, long, repeated, differing in case only, with separators or leading upwards; contents with and without terminators) or a string list (some broken), recovered at a generated path. Non-trivial: at least two sources or one string; distinct by names and contents.",
    assumptions: &["names with anything but lower case letters, digits, underscores and dots inside may be refused, but if taken have to give one file each in the scripts directory"],
};
