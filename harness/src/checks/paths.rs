//! C05: tag paths.
use crate::engine::*;
use crate::layout::*;
use crate::value::*;
use ringhopper_primitives::primitive::*;
use ringhopper_primitives::tag::*;
use ringhopper_structs::{read_any_tag_from_file_buffer as read_any, TagCollection};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

/// what a spelling of a path (without extension) means; None = must be refused
pub fn ref_path(p: &str) -> Option<String> {
    let mut parts: Vec<String> = vec![String::new()];
    let chars: Vec<char> = p.chars().collect();
    for (i, c) in chars.iter().enumerate() {
        if *c == '/' || *c == '\\' {
            if i == 0 { return None }
            if chars[i - 1] != '/' && chars[i - 1] != '\\' { parts.push(String::new()) }
            continue
        }
        if (*c as u32) < 0x20 || *c as u32 == 0x7F || ":*?\"<>|".contains(*c) { return None }
        parts.last_mut().unwrap().push(if c.is_ascii_uppercase() { ((*c as u8) + 32) as char } else { *c });
    }
    if parts.iter().any(|x| x.ends_with('.') || RESERVED.contains(&x.as_str())) { return None }
    Some(parts.join("\\"))
}
pub fn ref_full(p: &str) -> Option<(String, usize)> {
    let b = p.as_bytes();
    let dot = (0..b.len()).rev().find(|i| b[*i] == b'.')?;
    let l = layout();
    let g = *l.group_by_name.get(&p[dot + 1..])?;
    Some((ref_path(&p[..dot])?, g))
}
fn hash<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }

pub fn gen_wild(s: &mut Src) -> String {
    let n = s.usize(0, 8);
    let mut t = String::new();
    for _ in 0..n {
        match s.below(14) {
            0 | 1 => t.push('\\'), 2 => t.push('/'), 3 => t.push('.'), 4 => t.push_str(".."),
            5 => t.push_str(s.pick(RESERVED)),
            6 => t.push(*s.pick(&[':', '*', '?', '"', '<', '>', '|', '\0', '\n', '\t', '\u{7f}', '\u{1}', '\u{1f}', ' '])),
            7 => t.push(*s.pick(&['É', 'é', 'İ', 'ſ', 'K', '\u{80}', '猫', '\u{202E}', '／', '＼', '\u{0301}'])),
            8 => t.push_str(s.pick(&["C:", "CON", "Aux", "nul", "com10", "con2", "lpt", "~", "COM1", "prn"])),
            9 => { let k = s.usize(1, 6); for _ in 0..k { t.push((b'A' + s.below(26) as u8) as char) } }
            _ => { let k = s.usize(1, 6); for _ in 0..k { t.push((b'a' + s.below(26) as u8) as char) } }
        }
    }
    t
}
/// another spelling of a canonical path
pub fn respell(s: &mut Src, p: &str) -> String {
    let mut t = String::new();
    for c in p.chars() {
        if c == '\\' { for _ in 0..s.weighted(&[6, 1, 1]) + 1 { t.push(if s.bool() { '/' } else { '\\' }) } }
        else if s.bool() { t.push(c.to_ascii_uppercase()) } else { t.push(c) }
    }
    t
}
/// purely lexical: where does joining `native` to a root lead?
fn stays_below(native: &str) -> bool {
    use std::path::*;
    let mut depth = 0i64;
    for c in Path::new(native).components() {
        match c { Component::Normal(_) => depth += 1, Component::CurDir => (), _ => return false }
    }
    depth >= 1 && Path::new("/root/dir").join(native).starts_with("/root/dir")
}
fn check_good(s: &mut Src, p: &TagPath, path: &str, g: usize) -> R {
    let l = layout();
    let gname = &l.groups[g].name;
    ensure_eq!(p.path(), path, "path text is not canonical", "path()");
    ensure_eq!(group_name(p.group()), gname.as_str(), "wrong group", "group()");
    ensure_eq!(p.base_name(), path.rsplit('\\').next().unwrap(), "wrong base name", "base_name of {path:?}");
    let internal = format!("{path}.{gname}");
    ensure_eq!(p.to_internal_path(), internal, "wrong internal path", "to_internal_path");
    ensure_eq!(p.to_native_path(), internal.replace('\\', "/"), "wrong native path", "to_native_path");
    ensure_eq!(p.to_zip_path(), internal.replace('\\', "/"), "wrong zip path", "to_zip_path");
    ensure_eq!(p.to_string(), internal.replace('\\', "/"), "wrong displayed path", "Display");
    ensure!(stays_below(&p.to_native_path()), "native path leaves the directory", "{:?}", p.to_native_path());
    for t in [p.to_internal_path(), p.to_native_path(), p.to_zip_path(), p.to_string()] {
        match TagPath::from_path(&t) { Ok(q) => ensure_eq!(q, *p, "conversion does not round trip", "from_path({t:?})"), Err(e) => fail!("own string refused", "{t:?}: {e}") }
    }
    match TagPath::new(p.path(), p.group()) { Ok(q) => ensure_eq!(q, *p, "canonical form is not a fixed point", "new({path:?})"), Err(e) => fail!("own string refused", "{path:?}: {e}") }
    let mut q = p.clone();
    let h = s.below(l.groups.len() as u64) as usize;
    q.set_group(tag_group(&l.groups[h].name));
    ensure_eq!(q.to_internal_path(), format!("{path}.{}", l.groups[h].name), "set_group changes more than the group", "set_group");
    let want = (path, gname.as_str()).cmp(&(path, l.groups[h].name.as_str()));
    ensure_eq!(p.cmp(&q), want, "order of paths", "{} vs {}", p, q);
    ensure_eq!(*p == q, g == h, "equality ignores the group", "{} vs {}", p, q);
    Ok(())
}

fn c05_any_string(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let mut t = gen_wild(s);
    let with_ext = s.below(8);
    let g = s.below(l.groups.len() as u64) as usize;
    if with_ext < 6 { t.push('.'); t.push_str(&l.groups[g].name); }
    else if with_ext == 6 { t.push('.'); let mut n = l.groups[g].name.clone(); match s.below(4) { 0 => { n.pop(); } 1 => n.push('s'), 2 => n = n.to_ascii_uppercase(), _ => n = "<unset>".into() } t.push_str(&n); }
    let want = ref_full(&t);
    let got = TagPath::from_path(&t);
    ctx.sample(|| format!("{t:?} -> {want:?}"));
    match (want, got) {
        (None, Ok(q)) => fail!("bad path accepted", "{t:?} accepted as {:?}", q.to_internal_path()),
        (Some(w), Err(e)) => fail!("good path refused", "{t:?} (= {w:?}): {e}"),
        (None, Err(_)) => { ctx.label("refused"); }
        (Some((w, g)), Ok(q)) => { ctx.label("accepted"); if w.len() > 3 { ctx.nontrivial_s(&t); } check_good(s, &q, &w, g)?; }
    }
    // the path alone, with any group
    let want = ref_path(&t);
    let got = TagPath::new(&t, TagGroup::Bitmap).ok().map(|p| p.path().to_string());
    ensure_eq!(got, want, "TagPath::new decides differently", "{t:?}");
    let split = TagPath::split_str_path(&t).map(|(a, b)| (a.to_string(), b));
    let want = t.rfind('.').and_then(|i| l.group_by_name.get(&t[i + 1..]).map(|g| (t[..i].to_string(), tag_group(&l.groups[*g].name))));
    ensure_eq!(split, want, "split_str_path", "{t:?}");
    if want.is_none() { ctx.nontrivial_s(&t); }
    Ok(())
}
fn c05_spellings(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let p = gen_path(s);
    let Some(canon) = ref_path(&p) else { ctx.label("generator made an invalid path"); return Ok(()) };
    let g = s.below(l.groups.len() as u64) as usize;
    let a = format!("{}.{}", respell(s, &canon), l.groups[g].name);
    let b = format!("{}.{}", respell(s, &canon), l.groups[g].name);
    let (x, y) = match (TagPath::from_path(&a), TagPath::from_path(&b)) { (Ok(x), Ok(y)) => (x, y), (x, y) => fail!("good path refused", "{a:?} {:?} / {b:?} {:?}", x.err().map(|e| e.to_string()), y.err().map(|e| e.to_string())) };
    ensure!(x == y && hash(&x) == hash(&y) && x.cmp(&y).is_eq(), "spellings of one path differ", "{a:?} {b:?}: {:?} {:?}", x, y);
    check_good(s, &x, &canon, g)?;
    ctx.nontrivial_s(&a);
    ctx.sample(|| format!("{a:?} == {b:?} == {canon:?}"));
    // a different path is a different path
    let mut other = canon.clone();
    let i = s.below(canon.chars().count() as u64) as usize;
    let (bi, c) = canon.char_indices().nth(i).unwrap();
    let r = if c == 'q' { 'r' } else { 'q' };
    other.replace_range(bi..bi + c.len_utf8(), &r.to_string());
    if let Ok(z) = TagPath::new(&other, x.group()) { ensure!(z != x && !z.cmp(&x).is_eq(), "different paths are equal", "{other:?} {canon:?}"); ensure_eq!(z.cmp(&x), z.path().cmp(x.path()), "order of paths", "{other:?} vs {canon:?}"); }
    Ok(())
}
fn c05_in_tags(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let n = s.usize(1, 3);
    let mut items = vec![]; let mut extra = vec![]; let mut want: Option<Vec<(String, u32)>> = Some(vec![]); let mut texts = vec![];
    for _ in 0..n {
        let mut bytes: Vec<u8> = match s.below(4) { 0 => gen_path(s).into_bytes(), 1 => { let p = gen_path(s); respell(s, &p).into_bytes() } _ => gen_wild(s).into_bytes() };
        if s.chance(1, 8) && !bytes.is_empty() { let i = s.below(bytes.len() as u64) as usize; bytes[i] = 0x80 | s.u8(); }
        let g = l.groups[s.below(l.groups.len() as u64) as usize].fourcc;
        items.extend(g.to_be_bytes()); items.extend([0; 4]); items.extend((bytes.len() as u32).to_be_bytes()); items.extend([0xFF; 4]);
        let good = if bytes.is_empty() { Some(String::new()) } else { std::str::from_utf8(&bytes).ok().and_then(ref_path) };
        if !bytes.is_empty() { extra.extend(&bytes); extra.push(0); }
        texts.push(String::from_utf8_lossy(&bytes).to_string());
        match (good, &mut want) { (Some(p), Some(w)) => w.push((p, g)), _ => want = None }
    }
    let mut body = (n as u32).to_be_bytes().to_vec();
    body.extend([0; 8]); body.extend(items); body.extend(extra);
    let tc = &l.groups[l.group_by_name["tag_collection"]];
    let file = with_header(tc.fourcc, tc.version, &body);
    ctx.sample(|| format!("tag_collection naming {texts:?}: {}", if want.is_some() { "valid" } else { "invalid" }));
    for (how, r) in [("typed", TagFile::read_tag_from_file_buffer::<TagCollection>(&file, ParseStrictness::Strict)),
                     ("any", read_any(&file, ParseStrictness::Strict).map(|t| t.get_ref::<TagCollection>().unwrap().clone()))] {
        match (&want, r) {
            (None, Ok(_)) => fail!("bad path in a tag accepted", "{how}: {texts:?}"),
            (Some(_), Err(e)) => fail!("good path in a tag refused", "{how}: {texts:?}: {e}"),
            (None, Err(_)) => { ctx.label("refused"); ctx.nontrivial_s(&texts.join("|")); }
            (Some(w), Ok(t)) => {
                ctx.label("accepted"); if n > 1 { ctx.nontrivial_s(&texts.join("|")); }
                for (i, (p, g)) in w.iter().enumerate() {
                    let r = &t.tags.items[i].reference;
                    ensure_eq!(r.group().as_fourcc(), *g, "wrong group in tag reference", "{texts:?}");
                    match r.path() {
                        None => ensure!(p.is_empty(), "reference lost", "{p:?}"),
                        Some(q) => { ensure_eq!(q.path(), p.as_str(), "path in a tag is not canonical", "{texts:?}"); ensure!(stays_below(&q.to_native_path()), "native path leaves the directory", "{:?}", q.to_native_path()); }
                    }
                }
            }
        }
    }
    Ok(())
}
pub static C05: Check = Check {
    id: "C05", terminates: false,
    subs: &[Sub { name: "any_string", quick: 1_200_000, thorough: 12_000_000, run: c05_any_string }, Sub { name: "spellings", quick: 480_000, thorough: 6_000_000, run: c05_spellings }, Sub { name: "in_tags", quick: 480_000, thorough: 6_000_000, run: c05_in_tags }],
    rule: "A case is one path string (random text made of separators, dots, reserved names, forbidden and non-ASCII characters, letters), one canonical path in two random spellings, or one tag_collection file holding 1-3 stored paths; compared with an independent validator. Non-trivial: refused strings, accepted strings of more than 3 characters, files with several paths; distinct by text.",
    assumptions: &["Linux path conventions ('/' is the native separator)"],
};
