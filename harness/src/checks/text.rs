//! C11, C12: nudging, and lists compiled from text.
use crate::engine::*;
use crate::gen_table::OPS;
use crate::layout::*;
use crate::value::*;
use super::fields::object_path;
use super::paths::*;
use ringhopper::tag::nudge::*;
use ringhopper::tag::tag_collection::*;
use ringhopper::tag::unicode_string_list::*;
use ringhopper_primitives::primitive::*;
use ringhopper_structs::{TagCollection, UIWidgetCollection, UnicodeStringList, UnicodeStringListString};

// ------------------------------------------------------------------ C11
/// all values at a dotted path, through every list item and both ends of bounds
pub fn visit(l: &Layout, st: usize, v: &mut V, path: &[&str], f: &mut dyn FnMut(&mut V)) {
    let Some((first, rest)) = path.split_first() else {
        match v { V::Arr(a) => for x in a { f(x) }, v => f(v) }
        return
    };
    let i = l.structs[st].fields.iter().position(|f| f.matcher == *first).unwrap_or_else(|| panic!("{first} in {}", l.structs[st].name));
    let V::St(vs) = v else { panic!() };
    let x = match l.structs[st].fields[i].ty { Ty::Struct(x) | Ty::Refl(x) => x, _ => st };
    match &mut vs[i] { V::Refl(a) if !rest.is_empty() => for e in a { visit(l, x, e, rest, f) }, e => visit(l, x, e, rest, f) }
}
/// six significant digits of the shortest decimal, halves away from zero
fn six(x: f64) -> f64 {
    if !x.is_finite() || x == 0.0 { return x }
    let t = format!("{:e}", x.abs());
    let (m, e) = t.split_once('e').unwrap();
    let digits: Vec<u8> = m.bytes().filter(|b| *b != b'.').map(|b| b - b'0').collect();
    if digits.len() <= 6 { return x }
    let mut n = digits[..6].iter().fold(0u64, |a, d| a * 10 + *d as u64);
    if digits[6] >= 5 { n += 1 }
    let e: i32 = e.parse::<i32>().unwrap() - 5;
    let r: f64 = format!("{n}e{e}").parse().unwrap();
    if x < 0.0 { -r } else { r }
}
pub const NUDGED: &[(&str, &[&str])] = &[
    ("actor_variant", &["grenades.grenade_velocity"]),
    ("continuous_damage_effect", &["camera_shaking.wobble_period"]),
    ("damage_effect", &["camera_shaking.wobble_period"]),
    ("point_physics", &["air_friction", "water_friction"]),
    ("projectile", &["minimum_velocity", "initial_velocity", "final_velocity", "material_response.potential_and"]),
    ("scenario", &["cutscene_titles.fade_in_time", "cutscene_titles.fade_out_time", "cutscene_titles.up_time"]),
    ("light", &["effect_parameters.duration"]),
    ("sound", &["maximum_bend_rate"]),
];
const OBJECTS: &[&str] = &["object", "unit", "item", "device", "biped", "vehicle", "weapon", "equipment", "garbage", "scenery", "placeholder", "sound_scenery", "device_control", "device_light_fixture", "device_machine"];
/// numbers as rendered, extracted and computed
pub fn number(s: &mut Src) -> f32 {
    match s.below(9) {
        0 => s.f32(),
        1 => *s.pick(&[0.0f32, -0.0, 1.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MIN_POSITIVE, 1e-45, f32::MAX, 1e-7, 1e20, 16777216.0, 0.1, 0.3]),
        2 => { let e = s.usize(0, 7); (s.irange(-9999999, 9999999) as f64 / 10f64.powi(e as i32)) as f32 }
        3 => { let k = s.usize(0, 40); let x = (10f64.powi(k as i32 - 20)) as f32; let d = s.irange(-8, 8); f32::from_bits((x.to_bits() as i64 + d) as u32) }     // around powers of ten
        4 => { let x = *s.pick(&[9.99999f32, 99.9999, 0.999999, 1.0, 10.0, 0.00999999, 99999.9, 999999.0, 1.5, 2.00001, 19.9999]); let d = s.irange(-12, 12); f32::from_bits((x.to_bits() as i64 + d) as u32) }
        5 => (s.irange(-2000, 2000) as f32 / 100.0) / 30.0 * 30.0,
        6 => (s.irange(-2000, 2000) as f32 / 1000.0) * 30.0 / 30.0,
        7 => { let n = s.usize(1, 9); let mut t = String::new(); for _ in 0..n { t.push((b'0' + *s.pick(&[0u8, 0, 9, 9, 1, 4, 5, 6])) as char) } let p = s.usize(0, n); t.insert(p, '.'); t.parse().unwrap_or(0.0) }
        _ => f32::from_bits(0.3f32.to_bits() + s.below(4) as u32),
    }
}
fn c11_nudge(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let names: Vec<&str> = NUDGED.iter().map(|n| n.0).chain(OBJECTS.iter().copied()).collect();
    let i = if s.chance(1, 6) { s.cycle(l.groups.len() as u64) as usize } else { l.group_by_name[*s.pick(&names)] };
    let (g, o) = (&l.groups[i], &OPS[i]);
    let name = g.name.as_str();
    let mut v = super::tagfile::gen_settings(s).structure(s, l, g.st);
    let mut fields: Vec<String> = NUDGED.iter().find(|n| n.0 == name).map(|n| n.1.iter().map(|p| p.to_string()).collect()).unwrap_or_default();
    let object = if OBJECTS.contains(&name) { object_path(l, g.st) } else { None };
    // make sure there are items to look at
    if s.chance(3, 4) {
        let base = object.as_ref().map(|o| o.0.clone()).unwrap_or_default();
        let lists: Vec<String> = match name { "projectile" => vec!["material_response".into()], "scenario" => vec!["cutscene_titles".into()], _ if object.is_some() => vec![if base.is_empty() { "change_colors".into() } else { format!("{base}.change_colors") }], _ => vec![] };
        for p in lists {
            let parts: Vec<&str> = p.split('.').collect();
            let item = super::fields::st_of(l, g.st, &p);
            let fresh: Vec<V> = (0..if s.chance(1, 400) { s.usize(254, 300) } else { s.usize(0, 3) }).map(|_| {
                let mut x = default_struct(l, item);
                if object.is_some() { visit(l, item, &mut x, &["permutations"], &mut |v| { let ps = super::fields::st_of(l, item, "permutations"); let n = if s.chance(1, 400) { s.usize(30, 70) } else { s.usize(0, 5) }; *v = V::Refl((0..n).map(|_| default_struct(l, ps)).collect()); }); }
                x
            }).collect();
            visit(l, g.st, &mut v, &parts, &mut |v| *v = V::Refl(fresh.clone()));
        }
    }
    for p in &fields { let parts: Vec<&str> = p.split('.').collect(); visit(l, g.st, &mut v, &parts, &mut |x| *x = V::W(vec![number(s).to_bits()])); }
    let colors = object.as_ref().map(|o| if o.0.is_empty() { "change_colors".to_string() } else { format!("{}.change_colors", o.0) });
    let weights = |f: &mut dyn FnMut(&mut Vec<f32>), v: &mut V| {
        let Some(c) = &colors else { return };
        let (item, parts) = (super::fields::st_of(l, g.st, c), c.split('.').collect::<Vec<_>>());
        let ps = super::fields::st_of(l, item, "permutations");
        visit(l, g.st, v, &parts, &mut |list| { let V::Refl(list) = list else { return }; for cc in list {
            let mut w = vec![];
            visit(l, item, cc, &["permutations", "weight"], &mut |x| { let V::W(x) = x else { panic!() }; w.push(f32::from_bits(x[0])) });
            let n = w.len();
            f(&mut w);
            assert_eq!(n, w.len());
            let mut k = 0;
            visit(l, item, cc, &["permutations", "weight"], &mut |x| { *x = V::W(vec![w[k].to_bits()]); k += 1 });
            let _ = ps;
        } });
    };
    weights(&mut |w| {
        let n = w.len();
        match s.below(5) {
            0 => for x in w.iter_mut() { *x = 1.0 / n as f32 },
            1 => for x in w.iter_mut() { *x = ((1.0 / n as f64) * (1.0 + s.irange(-2000, 2000) as f64 * 1e-6)) as f32 },
            2 => for x in w.iter_mut() { *x = 1.0 },
            3 => { for x in w.iter_mut() { *x = number(s) } }
            _ => { for x in w.iter_mut() { *x = 1.0 / n as f32 } if n > 0 { let k = s.usize(0, n - 1); let x = number(s); w[k] = *s.pick(&[0.0, -w[k], x, w[k] * 1.002]); } }
        }
    }, &mut v);
    let tag = super::tagfile::build(l, g, o, &v)?;
    let before = get_struct(l, g.st, tag.as_dynamic(), name).map_err(|e| Fail::new("field cannot be read by name", e))?;
    // expectation
    let mut want = before.clone();
    let mut changed = 0;
    let mut shown = String::new();
    let mut borderline = false;
    for p in &fields { let parts: Vec<&str> = p.split('.').collect(); visit(l, g.st, &mut want, &parts, &mut |x| { let V::W(w) = x else { panic!() }; let a = f32::from_bits(w[0]) as f64; let b = six(a); if b != a && !a.is_nan() { changed += 1; shown += &format!("{a} -> {b}; "); w[0] = (b as f32).to_bits(); } }); }
    weights(&mut |w| {
        if w.is_empty() { return }
        let n = w.len() as f64;
        let exact: Vec<f64> = w.iter().map(|x| six(*x as f64)).collect();
        let off: Vec<f64> = exact.iter().map(|x| (x * n - 1.0).abs()).collect();
        if off.iter().any(|o| (o - 0.001).abs() < 1e-9) { borderline = true }
        let equal = exact.iter().zip(&off).all(|(x, o)| *x >= 0.0 && *o <= 0.001);
        let fin: Vec<f64> = if equal { vec![1.0; w.len()] } else { exact };
        for (a, b) in w.iter_mut().zip(fin) { if b != *a as f64 && !a.is_nan() { changed += 1; shown += &format!("weight {a} -> {b}; "); *a = b as f32; } }
    }, &mut want);
    if borderline { return Ok(()) }
    let mut t = tag;
    let r = nudge_tag(t.as_mut());
    let after = get_struct(l, g.st, t.as_dynamic(), name).map_err(|e| Fail::new("field cannot be read by name", e))?;
    let nan_free = |v: &V| { fn go(v: &V) -> V { match v { V::W(w) => V::W(w.iter().map(|x| if f32::from_bits(*x).is_nan() && (*x & 0x7F80_0000) == 0x7F80_0000 { *x & 0xFF80_0000 | 0x0040_0000 } else { *x }).collect()), V::St(a) => V::St(a.iter().map(go).collect()), V::Arr(a) => V::Arr(a.iter().map(go).collect()), V::Refl(a) => V::Refl(a.iter().map(go).collect()), v => v.clone() } } go(v) };
    if nan_free(&after) != nan_free(&want) { fail!("nudging gives another result", "{name}: {} (expected {shown})", first_diff(l, g.st, &after, &want, name).unwrap_or_default()) }
    ensure!(r == (changed > 0), "nudging reports wrongly whether something changed", "{name}: reported {r}, {changed} changes: {shown}");
    let again = nudge_tag(t.as_mut());
    ensure!(!again, "second nudge reports a change", "{name}: {shown}");
    let twice = get_struct(l, g.st, t.as_dynamic(), name).map_err(|e| Fail::new("field cannot be read by name", e))?;
    ensure!(nan_free(&twice) == nan_free(&after), "second nudge changes something", "{name}");
    let can = !fields.is_empty() || object.is_some();
    ensure!(is_nudgeable(tag_group(name)) == can, "wrong groups are nudgeable", "{name}");
    if changed > 0 { ctx.nontrivial_s(&format!("{name} {shown}")); ctx.label(&format!("group {name}")); }
    if shown.contains("weight") { ctx.label("weights changed") }
    ctx.sample(|| format!("{name}: {shown}"));
    fields.clear();
    Ok(())
}

// ------------------------------------------------------------------ C12
pub fn gen_line(s: &mut Src) -> String {
    match s.below(6) {
        0 => String::new(),
        1 => (*s.pick(&["###END-STRING", "##END-STRING###", " ###END-STRING###", "###END-STRING### ", "###end-string###", "#", "###", "\t", " "])).to_string(),
        _ => { let n = if s.chance(1, 2000) { *s.pick(&[127usize, 255, 256, 257, 1000, 5000]) } else { s.usize(1, 12) }; (0..n).map(|_| match s.below(12) { 0 => *s.pick(&['é', '猫', '\u{1F600}', '\u{FEFF}', '\u{2028}', '\u{85}', '\u{FFFD}', '\u{10FFFF}', '\u{A0}', '\u{E000}']), 1 => ' ', 2 => '\t', _ => (b'!' + s.below(94) as u8) as char }).collect() }
    }
}
pub fn encode(s: &mut Src, text: &str) -> (Vec<u8>, &'static str) {
    match s.below(4) {
        0 => ([0xFF, 0xFE].into_iter().chain(text.encode_utf16().flat_map(|u| u.to_le_bytes())).collect(), "UTF-16 LE"),
        1 => ([0xFE, 0xFF].into_iter().chain(text.encode_utf16().flat_map(|u| u.to_be_bytes())).collect(), "UTF-16 BE"),
        _ => (text.as_bytes().to_vec(), "UTF-8"),
    }
}
fn c12_strings(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = if s.chance(1, 1000) { *s.pick(&[60usize, 255, 256, 257, 1000]) } else { s.usize(0, 6) };
    // control characters that the tag cannot hold are the string type's business (C08)
    let drop = |t: String| -> String { t.chars().filter(|c| *c == '\t' || !c.is_control()).collect() };
    let strings: Vec<Vec<String>> = (0..n).map(|_| { let k = s.usize(0, 4); (0..k).map(|_| drop(gen_line(s))).filter(|l| l != "###END-STRING###").collect() }).collect();
    let eol = |s: &mut Src, mode: u64| if mode == 0 { "\n" } else if mode == 1 { "\r\n" } else if s.bool() { "\n" } else { "\r\n" };
    let mode = s.below(3);
    let mut text = String::new();
    for st in &strings { for l in st { text += l; text += eol(s, mode); } text += "###END-STRING###"; text += eol(s, mode); }
    // the end of the file may have blank lines or no line end
    if n > 0 { if s.chance(1, 3) { let t = text.trim_end_matches(['\r', '\n']).len(); text.truncate(t); } for _ in 0..s.below(3) { text += eol(s, mode); } }
    let (data, enc) = encode(s, &text);
    let d = || format!("{enc} {text:?}");
    let tag = UnicodeStringList::from_text_data(&data).map_err(|e| Fail::new("valid string list refused", format!("{e}: {}", d())))?;
    let want: Vec<String> = strings.iter().map(|l| l.join("\r\n")).collect();
    ensure_eq!(tag.string_count(), want.len(), "wrong number of strings", "{}", d());
    let mut raw: Vec<Vec<u8>> = vec![];
    for (i, w) in want.iter().enumerate() {
        let got = tag.read_string_data(i).map_err(|e| Fail::new("compiled string unreadable", format!("{e}: {}", d())))?;
        ensure!(got.as_str() == w, "string differs from the text", "string {i}: {got:?}, should be {w:?}: {}", d());
        let mut b: Vec<u8> = w.encode_utf16().flat_map(|u| u.to_le_bytes()).collect(); b.extend([0, 0]);
        raw.push(b);
    }
    // the tag holds exactly that
    let l = layout(); let g = &l.groups[l.group_by_name["unicode_string_list"]];
    let v = get_struct(l, g.st, &tag, "list").map_err(|e| Fail::new("field cannot be read by name", e))?;
    let mut stored = vec![];
    visit(l, g.st, &mut v.clone(), &["strings", "string"], &mut |x| { let V::Data(b) = x else { panic!() }; stored.push(b.clone()) });
    ensure!(stored == raw, "stored text differs", "{}", d());
    // exporting and compiling again
    let exported = tag.as_text_data().map_err(|e| Fail::new("list cannot be exported", format!("{e}: {}", d())))?;
    let again = UnicodeStringList::from_text_data(&exported).map_err(|e| Fail::new("exported list refused", format!("{e}: {}", d())))?;
    ensure!(again == tag, "exporting and compiling gives another list", "{}", d());
    // a hand-made list exports the same way
    let mut made = UnicodeStringList::default();
    for w in &want { made.strings.items.push(UnicodeStringListString { string: UTF16String::from_str(w) }); }
    ensure!(made == tag && made.as_text_data().map_err(|_| ()).ok().as_ref() == Some(&exported), "equal lists export differently", "{}", d());
    if n > 0 { ctx.nontrivial_b(&data) }
    ctx.label(enc); ctx.label(match n { 0 => "no strings", 1 => "one string", 2..=100 => "several strings", _ => "hundreds of strings" });
    if want.iter().any(|w| w.ends_with('\n')) { ctx.label("string ending in a blank line") }
    ctx.sample(d);
    Ok(())
}
fn c12_malformed(s: &mut Src, ctx: &mut Ctx) -> R {
    let l1 = gen_line(s).replace(char::is_control, "");
    let what = s.below(6);
    let (data, sig): (Vec<u8>, &str) = match what {
        0 => { let t = format!("{l1}\n###END-STRING###\nrest{}", if s.bool() { "\n" } else { "" }); (encode(s, &t).0, "text after the last marker accepted") }
        1 => { let t = format!("{l1}\0\n###END-STRING###\n"); (encode(s, &t).0, "null character accepted") }
        2 => { let mut b = format!("{l1}\n###END-STRING###\n").into_bytes(); let bad: &[&[u8]] = &[&[0x80], &[0xC3], &[0xFF], &[0xED, 0xA0, 0x80], &[0xF5, 0x80, 0x80, 0x80], &[0xC0, 0xAF]]; let k = s.usize(0, l1.len()); let k = (0..=k).rev().find(|k| l1.is_char_boundary(*k)).unwrap(); let x = *s.pick(bad); b.splice(k..k, x.iter().copied()); if b.len() % 2 == 0 && (b.starts_with(&[0xFF, 0xFE]) || b.starts_with(&[0xFE, 0xFF])) { return Ok(()) } (b, "invalid UTF-8 accepted") }
        3 => { let mut u: Vec<u16> = vec![0xFEFF]; u.extend(format!("{l1}").encode_utf16()); u.push(*s.pick(&[0xD800u16, 0xDC00])); u.extend("x\n###END-STRING###\n".encode_utf16()); (u.iter().flat_map(|x| x.to_le_bytes()).collect(), "unpaired surrogate accepted") }
        4 => { let mut b: Vec<u8> = encode(s, "a\n###END-STRING###\n").0; if b[0] < 0x80 { return Ok(()) } b.push(0x20); (b, "odd number of UTF-16 bytes accepted") }
        _ => { // arbitrary bytes: any outcome but a crash; accepted text must be consistent
            let n = s.usize(0, 60); let mut b = s.bytes(n);
            if s.bool() { let mut t = encode(s, &format!("{l1}\n###END-STRING###\n")).0; for _ in 0..s.usize(1, 3) { if !t.is_empty() { let k = s.usize(0, t.len() - 1); match s.below(3) { 0 => t[k] ^= 1 << s.below(8), 1 => { t.remove(k); } _ => t.insert(k, s.u8()) } } } b = t; }
            match UnicodeStringList::from_text_data(&b) { Ok(t) => { ctx.label("arbitrary accepted"); for i in 0..t.string_count() { let _ = t.read_string_data(i); } let e = t.as_text_data(); ensure!(e.is_ok(), "accepted list cannot be exported", "{b:?}"); } Err(e) => { ctx.label("arbitrary refused"); ensure!(!e.to_string().is_empty(), "error without a message", ""); } }
            let _ = TagCollection::from_text_data(&b); let _ = UIWidgetCollection::from_text_data(&b);
            return Ok(())
        }
    };
    match UnicodeStringList::from_text_data(&data) { Ok(_) => fail!(sig, "{data:?}"), Err(e) => {
        let right = match (what, &e) { (0, UnicodeStringListError::MissingEndString) => true, (0, _) => false, (_, UnicodeStringListError::InvalidStringData) => true, _ => false };
        ensure!(right, "error names another problem", "{e}: {data:?}");
    } }
    ctx.label(sig); ctx.nontrivial_b(&data);
    ctx.sample(|| format!("{sig}: {data:?}"));
    Ok(())
}
fn c12_collection(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let mut text = String::new();
    let mut want: Vec<(u32, String)> = vec![];
    let mut bad: Option<(usize, String)> = None;
    let n = if s.chance(1, 1000) { *s.pick(&[60usize, 255, 256, 257, 1000]) } else { s.usize(0, 10) };
    let break_it = s.chance(1, 3);
    for i in 0..n {
        let mut line = match s.below(5) { 0 => String::new(), _ => { let p = gen_path(s); let g = s.below(l.groups.len() as u64) as usize; let p = respell(s, &p); format!("{p}.{}", l.groups[g].name) } };
        if break_it && bad.is_none() && s.chance(if n > 10 { 1 } else { 10 }, 30) { line = match s.below(4) { 0 => "no extension".into(), 1 => gen_wild(s), 2 => format!("{}.unknown", gen_path(s)), _ => format!("..\\{}.bitmap", gen_path(s)) }; line.retain(|c| c != '\n' && c != '\r'); }
        if !line.is_empty() && bad.is_none() { match ref_full(&line) { Some((p, g)) => want.push((l.groups[g].fourcc, p)), None => bad = Some((i + 1, line.clone())) } }
        text += &line;
        if i + 1 < n || s.bool() { text += if s.bool() { "\n" } else { "\r\n" } }
    }
    // a line may not end in a bare CR of its own
    if s.chance(1, 12) {
        let mut b = text.clone().into_bytes(); b.extend([0xC3, 0x28]);
        ensure!(matches!(TagCollection::from_text_data(&b), Err(TagCollectionError::InvalidTextFile)), "invalid UTF-8 accepted", "{b:?}");
        ctx.label("invalid UTF-8");
    }
    let refs = |v: &V, st: usize| -> Vec<(u32, String)> { let mut out = vec![]; visit(l, st, &mut v.clone(), &["tags", "reference"], &mut |x| { let V::Ref(g, p) = x else { panic!() }; out.push((*g, p.clone())) }); out };
    let widgets = s.bool();
    let r = if widgets { UIWidgetCollection::from_text_data(text.as_bytes()).map(|t| { let st = l.groups[l.group_by_name["ui_widget_collection"]].st; get_struct(l, st, &t, "w").map(|v| refs(&v, st)) }) }
        else { TagCollection::from_text_data(text.as_bytes()).map(|t| { let st = l.groups[l.group_by_name["tag_collection"]].st; get_struct(l, st, &t, "c").map(|v| refs(&v, st)) }) };
    match (r, &bad) {
        (Ok(got), None) => { let got = got.map_err(|e| Fail::new("field cannot be read by name", e))?; ensure!(got == want, "collection differs from the text", "{got:?} vs {want:?}: {text:?}"); ctx.label("accepted") }
        (Err(TagCollectionError::BadTagPath(n, t)), Some((m, u))) => { ensure!(n == *m && t == *u, "error names another line", "line {n} {t:?}, should be {m} {u:?}: {text:?}"); ctx.label("refused") }
        (Ok(_), Some(b)) => fail!("invalid path accepted", "{b:?}: {text:?}"),
        (Err(e), _) => fail!("valid collection refused", "{e}: {text:?}"),
    }
    if want.len() > 1 { ctx.nontrivial_s(&text) }
    ctx.sample(|| format!("{text:?}"));
    Ok(())
}

pub static C11: Check = Check {
    id: "C11", terminates: true,
    subs: &[Sub { name: "nudge", quick: 120_000, thorough: 4_000_000, run: c11_nudge }],
    rule: "A case is one generated tag, mostly of a nudgeable group, whose nudgeable numbers are decimals, decimals off by a few units in the last place, runs of nines and zeros, powers of ten and their neighbours, and arbitrary floats; nudged twice. Non-trivial: at least one number changes; distinct by the changes.",
    assumptions: &["the rounding is to six significant digits of the shortest decimal, halves away from zero", "colour weights within 1e-9 of the equal-share tolerance are skipped"],
};
pub static C12: Check = Check {
    id: "C12", terminates: true,
    subs: &[Sub { name: "strings", quick: 600_000, thorough: 4_000_000, run: c12_strings }, Sub { name: "malformed", quick: 600_000, thorough: 4_000_000, run: c12_malformed }, Sub { name: "collection", quick: 600_000, thorough: 4_000_000, run: c12_collection }],
    rule: "A case is one list rendered as text in one of three encodings with LF, CR LF or mixed line ends, compiled, compared, exported and compiled again; or one malformed or arbitrary file; or one collection file with valid and invalid paths. Non-trivial: a list with strings, a malformed file, a collection with two or more references; distinct by file bytes.",
    assumptions: &["control characters other than tab and line ends are not generated inside valid strings"],
};
