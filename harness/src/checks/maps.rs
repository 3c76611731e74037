//! C29, C30: extraction from cache files.  C31: damaged cache files.  C27: animation data.
use super::geom::*;
use crate::engine::*;
use crate::layout::*;
use crate::mapgen::*;
use crate::value::*;
use ringhopper::map::gearbox::GearboxCacheFile;
use ringhopper::map::xbox::XboxCacheFile;
use ringhopper::map::MapTagTree;
use ringhopper::tag::tree::TagTree;
use ringhopper_primitives::error::RinghopperResult;
use ringhopper_primitives::map::Map;
use ringhopper_primitives::primitive::{TagPath, TagReference};
use ringhopper_primitives::tag::{ParseStrictness, PrimaryTagStructDyn};
use std::collections::BTreeSet;

/// either kind of cache file
pub enum File { G(GearboxCacheFile), X(XboxCacheFile), D(std::sync::Arc<dyn MapTagTree + Send + Sync>) }
macro_rules! on { ($f:expr, $m:ident => $e:expr) => { match $f { File::G($m) => $e, File::X($m) => $e, File::D($m) => $e } } }
pub fn open(b: &Built, strict: ParseStrictness) -> RinghopperResult<File> {
    if b.eng.xbox { XboxCacheFile::new(b.map.clone(), strict).map(File::X) } else { GearboxCacheFile::new(b.map.clone(), b.res[0].clone(), b.res[1].clone(), b.res[2].clone(), strict).map(File::G) }
}
impl File {
    pub fn extract(&self, p: &TagPath) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> { on!(self, m => m.extract_tag(p)) }
}
/// the value at a route of positions
fn reach<'a>(v: &'a mut V, at: &[usize]) -> Option<&'a mut V> {
    let Some((i, rest)) = at.split_first() else { return Some(v) };
    match v { V::St(a) | V::Refl(a) | V::Arr(a) => reach(a.get_mut(*i)?, rest), _ => None }
}
fn number(v: &V) -> Option<f64> { match v { V::W(w) if w.len() == 1 => Some(f32::from_bits(w[0]) as f64), _ => None } }

/// The extracted value against the wanted one; whatever the map did not hold is checked against what it did.
pub fn same_tag(b: &Built, it: &Item, tag: &dyn PrimaryTagStructDyn) -> R {
    let l = layout();
    let g = &l.groups[it.g];
    let name = g.name.as_str();
    let mut got = read(g, tag)?;
    let mut want = it.want.clone();
    for n in &it.near {
        let (Some(a), Some(w)) = (reach(&mut got, &n.at), reach(&mut want, &n.at)) else { continue };
        let (Some(x), Some(y)) = (number(a), number(w)) else { continue };
        if (x - y).abs() <= n.abs + n.rel * y.abs() { *w = a.clone() }
    }
    match name {
        "model" | "gbxmodel" => {
            let gbx = name == "gbxmodel";
            let bst = l.st("ModelGeometryPart");
            let nodes = items(l, g.st, &want, "nodes").len();
            let packable = nodes <= 42 && !(gbx && int(l, g.st, &want, "flags") & 2 != 0);
            let tables = tables(&want, gbx);
            let (gp, wp) = (parts_mut(&mut got, gbx), parts_mut(&mut want, gbx));
            ensure_eq!(gp.len(), wp.len(), format!("{name}: number of parts"), "{}", it.full());
            for (k, (a, w)) in gp.into_iter().zip(wp).enumerate() {
                let (have, made) = if b.eng.packed { ("compressed_vertices", "uncompressed_vertices") } else { ("uncompressed_vertices", "compressed_vertices") };
                let (h, m) = (items(l, bst, a, have).to_vec(), items(l, bst, a, made).to_vec());
                if if b.eng.packed { unpackable(&h, tables[k].as_deref()) } else { packable } {
                    ensure_eq!(m.len(), h.len(), format!("{name}: {made} missing"), "part {k} of {}", it.full());
                    for (i, (x, y)) in h.iter().zip(&m).enumerate() { if let Err(e) = if b.eng.packed { unpacks(x, y, tables[k].as_deref()) } else { packs(x, y) } { fail!(format!("{name}: {made} have the wrong {e}"), "part {k} vertex {i} of {}", it.full()) } }
                }
                else { ensure!(m.is_empty(), format!("{name}: {made} made although they cannot be"), "part {k} of {}", it.full()) }
                *items_mut(l, bst, w, made) = m;
            }
        }
        "scenario_structure_bsp" => {
            let (lst, mst, rst) = (l.st("ScenarioStructureBSPLightmap"), l.st("ScenarioStructureBSPMaterial"), l.st("ModelVertexReference"));
            let made = if b.eng.packed { "uncompressed_vertices" } else { "compressed_vertices" };
            if items(l, g.st, &got, "lightmaps").len() == items(l, g.st, &want, "lightmaps").len() {
                for (x, w) in items(l, g.st, &got, "lightmaps").iter().zip(items_mut(l, g.st, &mut want, "lightmaps")) { for (x, w) in items(l, lst, x, "materials").iter().zip(items_mut(l, lst, w, "materials")) {
                    let d = |n: &str| match sub(l, mst, x, n) { V::Data(d) => d.clone(), _ => panic!() };
                    let n = |f: &str| int(l, rst, sub(l, mst, x, f), "vertex_count") as usize;
                    level_forms(&d("uncompressed_vertices"), &d("compressed_vertices"), n("rendered_vertices"), n("lightmap_vertices"), b.eng.packed).map_err(|e| Fail::new(format!("level: {}", e.sig), format!("{}: {}", it.full(), e.msg)))?;
                    *sub_mut(l, mst, w, made) = V::Data(d(made));
                } }
            }
        }
        _ => ()
    }
    let (cg, cw) = (canon_struct(l, g.st, &got), canon_struct(l, g.st, &want));
    if cg != cw { let d = first_diff(l, g.st, &cg, &cw, name).unwrap_or_default(); fail!(format!("extracted tag differs: {}", field_of(&d)), "{} from a {} map ({:?}): extracted (first) and expected (second) differ at {d}", it.full(), b.eng.name, it.home) }
    let file = tag.to_tag_file();
    match file { Ok(f) => ensure!(f == encode_tag(l, g, &cw), "file of an extracted tag differs", "{}", it.full()), Err(e) => fail!("extracted tag cannot be written", "{}: {e}", it.full()) }
    Ok(())
}
/// name of the differing field without indices and values
pub fn field_of(d: &str) -> String { let t = d.split(':').next().unwrap_or(d).split(' ').next().unwrap_or(d); let mut o = String::new(); let mut skip = 0; for c in t.chars() { match c { '[' => skip += 1, ']' => skip -= 1, c if skip == 0 => o.push(c), _ => () } } o }

fn check_map(b: &Built, f: &File, ctx: &mut Ctx) -> Result<usize, Fail> {
    let l = layout();
    let want: BTreeSet<String> = b.items.iter().map(|i| i.full()).collect();
    let got: Vec<String> = on!(f, m => m.get_all_tags()).iter().map(|p| p.to_internal_path()).collect();
    ensure_eq!(got.len(), got.iter().collect::<BTreeSet<_>>().len(), "tag listed twice", "{got:?}");
    ensure_eq!(got.into_iter().collect::<BTreeSet<_>>(), want, "tags listed", "{} map", b.eng.name);
    let (name, build, engine, kind) = on!(f, m => (m.get_name().to_string(), m.get_build_string().to_string(), m.get_engine().name, m.get_scenario_type() as u32));
    ensure_eq!((name, build, kind), (b.head.name.clone(), b.head.build.clone(), b.kind), "name, build or type of the map", "{}", b.eng.name);
    ensure_eq!(Some(engine), crate::checks::maphead::meant(b.head.version, &b.head.build), "engine", "{}", b.eng.name);
    if !b.eng.xbox { ensure_eq!(on!(f, m => m.get_crc32()), Some((b.head.crc, b.crc)), "checksum of the map", "{}", b.eng.name) }
    let used = b.tag_len + if b.eng.ext_bsps { 0 } else { b.levels.iter().map(|x| x.1).max().unwrap_or(0) };
    ensure_eq!(on!(f, m => m.get_used_tag_space()), Some(used), "used tag space", "{}", b.eng.name);
    let most = if b.eng.ext_bsps { None } else { b.levels.first().and_then(|(a, n)| (*a as usize + n).checked_sub(b.base as usize)) };
    ensure_eq!(on!(f, m => m.get_estimated_max_tag_space()), most, "estimate of the tag space", "{}", b.eng.name);
    let mut done = 0;
    for it in &b.items {
        let p = TagPath::from_path(&it.full()).expect("path");
        ensure!(on!(f, m => m.contains(&p)), "tag of the map not contained", "{}", it.full());
        let r = no_panic(|| f.extract(&p)).map_err(|e| Fail::new(format!("{}: {}", it.group(), e.sig), e.msg))?;
        match (r, it.refuse) {
            (_, Some("no sounds")) => (),
            (Ok(_), Some(why)) => fail!(format!("{} extracted although: {why}", it.group()), "{}", it.full()),
            (Err(e), None) => fail!(format!("{} refused", it.group()), "{} from a {} map: {e}", it.full(), b.eng.name),
            (Err(_), Some(why)) => ctx.label(&format!("refused: {why}")),
            (Ok(t), None) => { same_tag(b, it, t.as_ref())?; done += 1; ctx.label(&l.groups[it.g].name) }
        }
    }
    // no tag that is not there
    let p = TagPath::from_path("not in this map\\at all.bitmap").unwrap();
    ensure!(!on!(f, m => m.contains(&p)) && f.extract(&p).is_err(), "tag found which is not in the map", "");
    ensure!(on!(f, m => m.get_tag_by_tag_reference(&TagReference::from(p.clone())).is_none()), "tag found which is not in the map", "");
    Ok(done)
}
pub fn pick_engine(s: &mut Src, xbox: bool) -> &'static Eng { let e: Vec<&Eng> = engs().iter().filter(|e| e.xbox == xbox).collect(); e[s.below(e.len() as u64) as usize] }
fn maps(s: &mut Src, ctx: &mut Ctx, xbox: bool) -> R {
    let l = layout();
    let g = s.cycle(l.groups.len() as u64) as usize;
    let eng = pick_engine(s, xbox);
    let opt = Options { groups: vec![g], extra: s.usize(0, 5), lose: s.chance(1, 8), large: false, spoil: s.chance(1, 6), budget: *s.pick(&[300i64, 900, 2500]) };
    map_back(s, ctx, eng, &opt)
}
/// hundreds of tags, or long lists and large data
fn large_maps(s: &mut Src, ctx: &mut Ctx, xbox: bool) -> R {
    let l = layout();
    let eng = pick_engine(s, xbox);
    let many = s.bool();
    let opt = if many { Options { groups: vec![], extra: *s.pick(&[254usize, 256, 300, 600]), budget: 60, ..Default::default() } }
        else { Options { groups: (0..3).map(|_| s.below(l.groups.len() as u64) as usize).collect(), extra: s.usize(0, 3), large: true, budget: 300, ..Default::default() } };
    ctx.label(if many { "many tags" } else { "large tags" });
    map_back(s, ctx, eng, &opt)
}
fn c29_large(s: &mut Src, ctx: &mut Ctx) -> R { large_maps(s, ctx, false) }
fn c30_large(s: &mut Src, ctx: &mut Ctx) -> R { large_maps(s, ctx, true) }
fn map_back(s: &mut Src, ctx: &mut Ctx, eng: &'static Eng, opt: &Options) -> R {
    let b = build_map(s, eng, opt);
    let strict = if s.bool() { ParseStrictness::Strict } else { ParseStrictness::Relaxed };
    let scripts = b.items[b.scenario].refuse;
    let f = match no_panic(|| open(&b, strict))? { Ok(f) => f, Err(e) => fail!("map refused", "{} map with {:?}: {e} (scripts {scripts:?})", eng.name, b.items.iter().map(|i| i.full()).collect::<Vec<_>>()) };
    let n = check_map(&b, &f, ctx)?;
    ctx.label_n("tags extracted", n as u64);
    ctx.label(eng.name.as_str());
    ctx.sample(|| format!("{} map of {} bytes: {}", eng.name, b.map.len(), b.items.iter().map(|i| i.full()).collect::<Vec<_>>().join(", ")));
    if n > 0 { ctx.nontrivial_b(&b.map[b.tags_at..]) }
    Ok(())
}
fn c29_maps(s: &mut Src, ctx: &mut Ctx) -> R { maps(s, ctx, false) }
fn c30_maps(s: &mut Src, ctx: &mut Ctx) -> R { maps(s, ctx, true) }

// ------------------------------------------------------------------ checksums
fn c29_checksum(s: &mut Src, ctx: &mut Ctx) -> R {
    let eng = pick_engine(s, false);
    let opt = Options { groups: vec![], extra: s.usize(0, 3), lose: false, large: false, spoil: false, budget: 200 };
    let mut b = build_map(s, eng, &opt);
    let real = b.crc;
    let said = match s.below(5) { 0 => real, 1 => u32::MAX, 2 => real ^ 1 << s.below(32), 3 => 0, _ => s.u32_edge() };
    b.head.crc = said;
    let mut h = b.map[..0x800].to_vec(); b.head.put(&mut h); b.map[..0x800].copy_from_slice(&h);
    let good = said == real || said == u32::MAX;
    let strict = no_panic(|| open(&b, ParseStrictness::Strict))?;
    ensure_eq!(strict.is_ok(), good, "strict mode and the checksum", "{} map: header says {said:08X}, contents have {real:08X}", eng.name);
    match open(&b, ParseStrictness::Relaxed) { Ok(File::G(m)) => ensure_eq!(m.get_crc32(), Some((said, real)), "checksum of the map", "{}", eng.name), Ok(_) => (), Err(e) => fail!("map refused in relaxed mode because of its checksum", "{e}") }
    if let Ok(File::G(m)) = strict { ensure_eq!(m.get_crc32(), Some((said, real)), "checksum of the map", "{}", eng.name) }
    // damage to what the checksum covers; what it does not cover does not matter
    if said == real {
        for _ in 0..4 {
            let parts: Vec<_> = b.summed.iter().filter(|x| x.1 > 0).copied().collect();
            let (o, n) = *s.pick(&parts);
            let at = o + s.below(n as u64) as usize;
            let mut d = Built { map: b.map.clone(), items: vec![], levels: b.levels.clone(), res: b.res.clone(), head: b.head.clone(), spots: vec![], place: vec![], summed: vec![], ..b };
            d.map[at] ^= 1 << s.below(8);
            match no_panic(|| open(&d, ParseStrictness::Strict))? { Ok(_) => fail!("damaged map accepted in strict mode", "{} map with byte {at} changed", eng.name), Err(_) => ctx.label("refused: damaged") }
        }
    }
    ctx.label(if said == real { "right" } else if said == u32::MAX { "not to be checked" } else { "wrong" });
    ctx.sample(|| format!("{} map of {} bytes, checksum {real:08X}, header {said:08X}", eng.name, b.map.len()));
    ctx.nontrivial_b(&b.map[b.tags_at..]);
    Ok(())
}

// ------------------------------------------------------------------ maps that contradict themselves
fn contradictions(s: &mut Src, ctx: &mut Ctx, xbox: bool) -> R {
    use super::maphead::put32;
    let l = layout();
    // sometimes about what is kept in resource maps
    let resources = !xbox && s.chance(1, 4);
    let eng = if resources { let e: Vec<&'static Eng> = engs().iter().filter(|e| e.indexed).collect(); *s.pick(&e) } else { pick_engine(s, xbox) };
    let group = |n: &str| l.group_by_name[n];
    let opt = Options { groups: if resources { vec![group("sound"), group("bitmap")] } else { vec![] }, extra: s.usize(1, 5), lose: false, large: false, spoil: false, budget: 200 };
    let mut b = build_map(s, eng, &opt);
    // no checksum: each map has only the one fault
    b.head.crc = u32::MAX;
    let n = b.items.len();
    let others: Vec<usize> = (0..n).filter(|k| *k != b.scenario).collect();
    if others.is_empty() { return Ok(()) }
    let k = *s.pick(&others);
    let e = b.entry(k);
    let bst = l.st("ScenarioBSP");
    let off = |f: &str| l.structs[bst].fields[pos(l, bst, f)].off;
    let size = l.structs[bst].size;
    let sections = b.levels.len();
    let with_level: Vec<usize> = (0..sections).filter(|i| b.get32(b.sections_at() + i * size + off("structure_bsp") + 12) != u32::MAX).collect();
    let far = 0x7F00_0000u32;
    let g32 = |m: &[u8], a: usize| u32::from_le_bytes(m[a..a + 4].try_into().unwrap());
    let what = match if resources { 15 + s.below(3) } else { s.below(18) } {
        0 => { let o = *s.pick(&others); if o == k { return Ok(()) } let (g, p) = (b.get32(b.entry(o)), b.get32(b.entry(o) + 16)); put32(&mut b.map, e, g); put32(&mut b.map, e + 16, p); "a path twice" }
        1 => { let id = b.get32(e + 12); let x = id ^ *s.pick(&[1u32, 2, 0x100, 0x8000]); put32(&mut b.map, e + 12, x); "tag number in the wrong place" }
        2 => { let x = match s.below(3) { 0 => u32::MAX, 1 => b.count as u32 + s.below(3) as u32, _ => { let used: BTreeSet<usize> = b.place.iter().copied().collect(); match (0..b.count).find(|i| !used.contains(i)) { Some(i) => i as u32, None => 0xFFFF } } }; let at = b.tags_at + 4; put32(&mut b.map, at, x); "no scenario" }
        3 => { let id = b.get32(e + 12); let at = b.tags_at + 4; put32(&mut b.map, at, id); "another group as scenario" }
        4 => { let g = l.fourcc_of["scenario"]; if b.items[k].path == b.items[b.scenario].path { return Ok(()) } put32(&mut b.map, e, g); "two scenarios" }
        5 => { let Some(i) = with_level.first() else { return Ok(()) }; let at = b.sections_at() + i * size + off("structure_bsp") + 12; put32(&mut b.map, at, u32::MAX); "level not in the scenario" }
        6 => { if with_level.is_empty() || sections < 2 { return Ok(()) } let i = with_level[0]; let j = (i + 1) % sections; let from = b.sections_at() + i * size + off("structure_bsp"); let id = b.get32(from + 12); let at = b.sections_at() + j * size + off("structure_bsp") + 12; put32(&mut b.map, at, id); "level listed twice" }
        7 => { if sections == 0 { return Ok(()) } let i = s.below(sections as u64) as usize; let at = b.sections_at() + i * size; let (x, y) = match s.below(3) { 0 => (far, 24), 1 => (b.map.len() as u32 - 23, 24), _ => (u32::MAX, 24) }; put32(&mut b.map, at + off("bsp_start"), x); put32(&mut b.map, at + off("bsp_size"), y); "level outside the file" }
        8 => { b.head.tags_at = match s.below(2) { 0 => far, _ => b.map.len() as u32 - b.head.tags_len + 1 }; "tag data outside the file" }
        9 => { b.head.tags_len = match s.below(2) { 0 => far, _ => b.map.len() as u32 - b.head.tags_at + 1 }; "tag data outside the file" }
        10 => { let x = match s.below(3) { 0 => 0x10000, 1 => u32::MAX, _ => ((b.tags_at + b.tag_len - b.array) / 32 + 1) as u32 }; let at = b.tags_at + 12; put32(&mut b.map, at, x); "more tags than there are" }
        11 => { let x = match s.below(3) { 0 => far, 1 => b.base + b.tag_len as u32, _ => b.base - 1 }; put32(&mut b.map, e + 16, x); "path outside the tag data" }
        12 => { let p = b.get32(e + 16); let at = b.at(p); if b.items[k].path.len() >= 3 && s.bool() { b.map[at..at + 3].copy_from_slice(b"..\\") } else { b.map[at] = 0xFF } "path that is no path" }
        13 => { let x = s.u32() | 0x0101_0101; put32(&mut b.map, e, x); if l.group_of_fourcc(x).is_some() { return Ok(()) } "unknown group" }
        14 if !eng.xbox && !eng.indexed => { put32(&mut b.map, e + 24, 1 + s.below(3) as u32); "tag stored elsewhere" }
        14 if eng.ext_models => { let at = b.tags_at; let len = b.map.len() as u32; match s.below(3) { 0 => { put32(&mut b.map, at + 20, far) } 1 => { let o = b.get32(at + 20); put32(&mut b.map, at + 32, len - o + 1) } _ => { let n = b.get32(at + 32); put32(&mut b.map, at + 28, n + 1) } } "vertices outside the file" }
        15 if eng.indexed => {
            // a tag of a resource map whose entry has another path
            let Some(k) = (0..n).find(|k| match b.items[*k].home { Home::Indexed(r, _) => !b.lost[r as usize], _ => false }) else { return Ok(()) };
            let Home::Indexed(r, _) = b.items[k].home else { panic!() };
            let e = b.entry(k);
            let at = b.items[k].address;
            let entries = u32::from_le_bytes(b.res[r as usize][12..16].try_into().unwrap());
            let x = match s.below(2) { 0 => entries + s.below(3) as u32, _ => (at + 1) % entries };
            // the same path may be there for another group
            if x < entries { let p = |i: u32| { let m = &b.res[r as usize]; let g = |a: usize| u32::from_le_bytes(m[a..a + 4].try_into().unwrap()) as usize; let o = g(4) + g(g(8) + 12 * i as usize); m[o..].split(|c| *c == 0).next().unwrap().to_vec() }; if p(x) == p(at) { return Ok(()) } }
            put32(&mut b.map, e + 20, x);
            "resource maps of another map"
        }
        16 if eng.indexed => {
            // a sound whose entry is missing or too short
            let Some(k) = (0..n).find(|k| b.items[*k].home == Home::Split && !b.lost[1]) else { return Ok(()) };
            let path = b.items[k].path.clone();
            let m = &mut b.res[1];
            let (paths, at, count) = (g32(m, 4) as usize, g32(m, 8) as usize, g32(m, 12) as usize);
            let name = |m: &[u8], i: usize| { let o = paths + g32(m, at + 12 * i) as usize; m[o..].split(|c| *c == 0).next().unwrap().to_vec() };
            let all: Vec<usize> = (0..count).filter(|i| name(m, *i) == path.as_bytes()).collect();
            if s.bool() { for i in all { let z = if s.bool() { 0xA3 } else { s.below(0xA4) as u32 }; put32(m, at + 12 * i + 4, z) } "sound cut short in the resource map" }
            else { for i in all { let o = paths + g32(m, at + 12 * i) as usize; m[o] = if m[o] == b'~' { b'#' } else { b'~' } } if (0..count).any(|i| name(m, i) == path.as_bytes()) { return Ok(()) } "sound missing from the resource map" }
        }
        17 if !xbox => {
            let Some(r) = (0..3).find(|r| !b.lost[*r] && b.res[*r].len() > 16 && g32(&b.res[*r], 12) > 0) else { return Ok(()) };
            let m = &mut b.res[r];
            let (len, at, count) = (m.len() as u32, g32(m, 8) as usize, g32(m, 12) as usize);
            let i = s.below(count as u64) as usize;
            let paths = g32(m, 4);
            match s.below(6) {
                0 => put32(m, 12, count as u32 + 1 + (len - at as u32) / 12),
                1 => put32(m, 8, len - 11 + s.below(3) as u32),
                2 => put32(m, 4, len + 1 + s.below(9) as u32),
                3 => put32(m, at + 12 * i, len - paths + s.below(3) as u32),
                4 => { let o = g32(m, at + 12 * i + 8); put32(m, at + 12 * i + 4, len - o + 1) }
                _ => put32(m, at + 12 * i + 8, u32::MAX - s.below(4) as u32)
            }
            if g32(m, at + 12 * i + 4) == 0 && g32(m, at + 12 * i + 8) == u32::MAX { return Ok(()) }
            "entry outside the resource map"
        }
        _ => { let g = l.fourcc_of["scenario_structure_bsp"]; if b.items[k].group() == "scenario_structure_bsp" { return Ok(()) } put32(&mut b.map, e, g); "level not in the scenario" }
    };
    let mut h = b.map[..0x800].to_vec(); b.head.put(&mut h); b.map[..0x800].copy_from_slice(&h);
    for strict in [ParseStrictness::Strict, ParseStrictness::Relaxed] {
        match no_panic(|| open(&b, strict)).map_err(|e| Fail::new(format!("{what}: {}", e.sig), e.msg))? { Ok(_) => fail!(format!("map accepted with {what}"), "{} map, tag {} of {:?}", eng.name, b.items[k].full(), b.items.iter().map(|i| i.full()).collect::<Vec<_>>()), Err(_) => () }
    }
    ctx.label(what);
    ctx.sample(|| format!("{} map of {} bytes: {what}", eng.name, b.map.len()));
    ctx.nontrivial_b(&b.map[b.tags_at..]);
    Ok(())
}
fn c29_contradictions(s: &mut Src, ctx: &mut Ctx) -> R { contradictions(s, ctx, false) }
fn c30_contradictions(s: &mut Src, ctx: &mut Ctx) -> R { contradictions(s, ctx, true) }

// ------------------------------------------------------------------ map files
fn deflated(b: &[u8], level: u32, s: &mut Src) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(level));
    // flushing gives streams of several blocks
    let cut = if s.chance(1, 3) { s.below(b.len() as u64 + 1) as usize } else { 0 };
    e.write_all(&b[..cut]).unwrap(); if cut > 0 { e.flush().unwrap() }
    e.write_all(&b[cut..]).unwrap();
    e.finish().unwrap()
}
pub fn load(dir: &std::path::Path, strict: ParseStrictness) -> RinghopperResult<File> { ringhopper::map::load_map_from_filesystem(dir.join("the.map"), strict).map(File::D) }
/// writes a map and its resource maps as they are found on disk
pub fn store(s: &mut Src, b: &mut Built, dir: &std::path::Path) {
    if b.eng.xbox {
        let pad = s.usize(0, 40);
        let z = deflated(&b.map[0x800..], 6, s);
        b.head.padding = pad as u32;
        let mut h = b.map[..0x800].to_vec(); b.head.put(&mut h); b.map[..0x800].copy_from_slice(&h);
        h.extend(&z);
        h.extend(s.bytes(pad));
        std::fs::write(dir.join("the.map"), &h).unwrap();
    }
    else {
        std::fs::write(dir.join("the.map"), &b.map).unwrap();
        for (n, r) in ["bitmaps.map", "sounds.map", "loc.map"].iter().zip(&b.res) { if !r.is_empty() { std::fs::write(dir.join(n), r).unwrap() } }
    }
}
fn stored(s: &mut Src, ctx: &mut Ctx, xbox: bool) -> R {
    let eng = pick_engine(s, xbox);
    let opt = Options { groups: vec![], extra: s.usize(0, 6), lose: s.chance(1, 10), large: false, spoil: false, budget: 600 };
    let mut b = build_map(s, eng, &opt);
    let dir = ctx.fresh_dir();
    let strict = if s.bool() { ParseStrictness::Strict } else { ParseStrictness::Relaxed };
    let fault;
    if xbox {
        let pad = match s.below(3) { 0 => 0, 1 => s.usize(1, 40), _ => 2048 - s.usize(0, 2047) };
        let level = *s.pick(&[1u32, 6, 9, 0]);
        let mut z = deflated(&b.map[0x800..], level, s);
        b.head.padding = pad as u32;
        let len = b.map.len() as u32;
        fault = match s.below(14) {
            0 => { b.head.size = len + *s.pick(&[1u32, 4, 2048, 1 << 20]); Some("header says more") }
            1 => { b.head.size = len - *s.pick(&[1u32, 4, 100]); Some("header says less") }
            2 => { b.head.size = *s.pick(&[0u32, 1, 0x7FF, 0x800, u32::MAX, 1 << 31]); Some("impossible size") }
            3 => { let n = s.below(z.len() as u64) as usize; z.truncate(n); Some("cut off") }
            4 => { b.head.padding = (z.len() + pad) as u32 + *s.pick(&[1u32, 0x800, 0x801, 1 << 30]); Some("impossible padding") }
            5 => { b.head.padding += 1 + s.below(4) as u32; Some("padding too large") }
            6 if z.len() > 2 => { z[0] = *s.pick(&[0u8, 0xFF, 0x79]); Some("not compressed") }
            7 => { let x = s.below(4) as usize; let n = z.len(); z[n - 4 + x] ^= 1 << s.below(8); Some("wrong checksum in the stream") }
            _ => None
        };
        let mut h = b.map[..0x800].to_vec(); b.head.put(&mut h); b.map[..0x800].copy_from_slice(&h);
        h.extend(&z);
        h.extend(s.bytes(pad));
        std::fs::write(dir.join("the.map"), &h).unwrap();
        ctx.label(&format!("level {level}"));
    }
    else {
        std::fs::write(dir.join("the.map"), &b.map).unwrap();
        for (n, r) in ["bitmaps.map", "sounds.map", "loc.map"].iter().zip(&b.res) { if !r.is_empty() { std::fs::write(dir.join(n), r).unwrap() } }
        // a map for localised tags does not concern engines that have none
        if !eng.loc && s.chance(1, 3) { std::fs::write(dir.join("loc.map"), [7u8; 100]).unwrap() }
        fault = if s.chance(1, 10) { let n = s.usize(0, 0x7FF); std::fs::write(dir.join("the.map"), &b.map[..n]).unwrap(); Some("cut off") } else { None };
    }
    let r = alloc_bounded((8 << 20) + b.map.len() * 4, || no_panic(|| load(&dir, strict)))??;
    match (r, fault) {
        (Ok(_), Some(why)) => fail!(format!("map file accepted: {why}"), "{} map of {} bytes", eng.name, b.map.len()),
        (Err(_), Some(why)) => { ctx.label(&format!("refused: {why}")); ctx.nontrivial_b(&b.map) }
        (Err(e), None) => fail!("map file refused", "{} map of {} bytes: {e}", eng.name, b.map.len()),
        (Ok(f), None) => { let n = check_map(&b, &f, ctx)?; ctx.label_n("tags extracted", n as u64); if n > 0 { ctx.nontrivial_b(&b.map) } }
    }
    ctx.sample(|| format!("{} map of {} bytes, {fault:?}", eng.name, b.map.len()));
    ctx.drop_dir(&dir);
    Ok(())
}
fn c29_files(s: &mut Src, ctx: &mut Ctx) -> R { stored(s, ctx, false) }
fn c30_files(s: &mut Src, ctx: &mut Ctx) -> R { stored(s, ctx, true) }

const RULE: &str = "a map is non-trivial if at least one of its tags was extracted and compared (or the fault put into it was refused); maps are told apart by their bytes";
const ASSUME: &[&str] = &[
    "the maps are built by the harness (src/mapgen.rs) from generated tag values; it stands for the map compiler and was written from the engine definitions and the documented formats, not from real map files, which are not available here",
    "numbers that change on the way (per-tick scaling, weights) have at most five decimal digits, and are compared after rounding to about six as extraction does; weights of change colours and titles within 1e-6",
    "signalling NaN bit patterns in animation data are not used (loading and storing a number may set the quiet bit)",
    "source files of a scenario are compared with what decompiling the same scripts gives (C26 decides that)"];
pub static C29: Check = Check {
    id: "C29", terminates: true,
    subs: &[Sub { name: "maps", quick: 26_000, thorough: 600_000, run: c29_maps }, Sub { name: "large", quick: 300, thorough: 12_000, run: c29_large }, Sub { name: "checksum", quick: 3_000, thorough: 100_000, run: c29_checksum }, Sub { name: "contradictions", quick: 6_000, thorough: 200_000, run: c29_contradictions }, Sub { name: "files", quick: 2_000, thorough: 60_000, run: c29_files }],
    rule: RULE, assumptions: ASSUME,
};
pub static C30: Check = Check {
    id: "C30", terminates: true,
    subs: &[Sub { name: "maps", quick: 26_000, thorough: 600_000, run: c30_maps }, Sub { name: "large", quick: 300, thorough: 12_000, run: c30_large }, Sub { name: "contradictions", quick: 6_000, thorough: 200_000, run: c30_contradictions }, Sub { name: "files", quick: 5_000, thorough: 150_000, run: c30_files }],
    rule: RULE, assumptions: ASSUME,
};

// ------------------------------------------------------------------ C31: hostile files
/// as the loader does it: the header decides which kind of map it is
fn open_as_found(b: &Built) -> RinghopperResult<File> {
    let (_, e) = ringhopper::map::header::get_map_details(&b.map)?;
    if e.cache_parser == ringhopper_primitives::engine::EngineCacheParser::Xbox { XboxCacheFile::new(b.map.clone(), ParseStrictness::Relaxed).map(File::X) }
    else { GearboxCacheFile::new(b.map.clone(), b.res[0].clone(), b.res[1].clone(), b.res[2].clone(), ParseStrictness::Relaxed).map(File::G) }
}
/// Open and extract everything; ends in tags or errors.
fn ransack(b: &Built, ctx: &mut Ctx) -> Result<usize, Fail> {
    // compressed animations may ask for as much as 64 nodes of 65535 frames, whatever the file has
    let limit = (160 << 20) + 64 * (b.map.len() + b.res.iter().map(|r| r.len()).sum::<usize>());
    let n = alloc_bounded(limit, || no_panic(|| -> Result<Option<(usize, usize)>, Fail> {
        let f = match open_as_found(b) { Ok(f) => f, Err(_) => return Ok(None) };
        let (mut good, mut bad) = (0, 0);
        let mut all = on!(&f, m => m.get_all_tags());
        all.sort();
        for t in &all {
            ensure!(on!(&f, m => m.contains(t)), "listed tag not contained", "{t}");
            match f.extract(t) {
                Ok(t) => { good += 1; let _ = t.to_tag_file(); }
                Err(_) => bad += 1
            }
        }
        Ok(Some((good, bad)))
    }))???;
    match n { None => { ctx.label("refused"); Ok(0) } Some((g, b)) => { ctx.label_n("tags extracted", g as u64); ctx.label_n("tags refused", b as u64); ctx.label("opened"); Ok(g + b) } }
}
fn c31_damaged(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let g = s.cycle(l.groups.len() as u64) as usize;
    let xbox = s.chance(1, 3);
    let eng = pick_engine(s, xbox);
    let opt = Options { groups: vec![g], extra: s.usize(0, 3), lose: false, large: false, spoil: false, budget: *s.pick(&[200i64, 600, 1500]) };
    let mut b = build_map(s, eng, &opt);
    let tags = (b.tags_at, b.tags_at + b.tag_len);
    let most = *s.pick(&[1usize, 3, 12]); let n = s.usize(1, most);
    let mut how = vec![];
    for _ in 0..n {
        let len = b.map.len();
        // whole words of the tag data most of all; the tag array and level sections too
        let (from, to) = match s.weighted(&[10, 3, 3, 2, 2]) { 0 => tags, 1 => (b.array, b.array + 32 * b.count), 2 => *s.pick(&b.summed.iter().map(|(o, n)| (*o, o + n)).collect::<Vec<_>>()), 3 => (b.tags_at, b.tags_at + 40), _ => (0, len) };
        if to > len || from + 4 > to { continue }
        let at = match s.below(6) { 0 => from + s.below((to - from - 3) as u64) as usize, _ => from + (s.below(((to - from) / 4) as u64) as usize) * 4 };
        let old = u32::from_le_bytes(b.map[at..at + 4].try_into().unwrap());
        let new = match s.below(12) {
            0 => s.u32_edge(), 1 => s.below(20) as u32, 2 => old.wrapping_add(s.below(9) as u32).wrapping_sub(4), 3 => old.wrapping_add((s.below(64) as u32) << 2), 4 => old ^ 1 << s.below(32),
            5 => b.base + (s.below(b.tag_len as u64) as u32 & !3), 6 => { let q = s.below((len / 4) as u64) as usize * 4; u32::from_le_bytes(b.map[q..q + 4].try_into().unwrap()) }
            7 => { let k = s.below(b.items.len() as u64) as usize; b.get32(b.entry(k).min(len - 32) + 12) } 8 => old.swap_bytes(), 9 => s.below(len as u64 + 2) as u32, 10 => s.u32() & 0x7FFF_FFFF, _ => 0xFFFF_FFFF >> s.below(32)
        };
        b.map[at..at + 4].copy_from_slice(&new.to_le_bytes());
        how.push(format!("{at}: {old:x} -> {new:x}"));
    }
    match s.below(16) {
        0 => { let n = s.below(b.map.len() as u64 + 1) as usize; b.map.truncate(n); how.push(format!("cut to {n}")) }
        1 => { let q = s.pick(&[8usize, 12, 16, 20, 104]); let v = s.u32_edge(); b.map[*q..*q + 4].copy_from_slice(&v.to_le_bytes()); how.push("header".into()) }
        2 | 3 => { let r = s.below(3) as usize; let n = b.res[r].len(); if n > 16 { match s.below(3) { 0 => { let k = s.below(n as u64) as usize; b.res[r].truncate(k) } 1 => { let k = s.below(n as u64) as usize; b.res[r][k] ^= 1 << s.below(8) } _ => { let k = s.below(n as u64 / 4) as usize * 4; let v = s.u32_edge(); b.res[r][k..k + 4].copy_from_slice(&v.to_le_bytes()) } } how.push("resource map".into()) } }
        4 => { let r = s.below(3) as usize; let q = s.below(3) as usize; b.res.swap(r, q); how.push("resource maps exchanged".into()) }
        _ => ()
    }
    ctx.sample(|| format!("{} map of {} bytes with {}: {}", eng.name, b.map.len(), b.items.iter().map(|i| i.full()).collect::<Vec<_>>().join(", "), how.join(", ")));
    if ransack(&b, ctx)? > 0 { ctx.nontrivial_b(&b.map) }
    ctx.label(&eng.name);
    Ok(())
}
/// damage aimed at one list, pointer or number of one tag, found through the layout
fn c31_aimed(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let g = s.cycle(l.groups.len() as u64) as usize;
    let xbox = s.chance(1, 3);
    let eng = pick_engine(s, xbox);
    let opt = Options { groups: vec![g], extra: s.usize(0, 2), lose: false, large: false, spoil: false, budget: *s.pick(&[400i64, 1500]) };
    let mut b = build_map(s, eng, &opt);
    // walk the tags in the file: every field of every item
    let mut spots: Vec<(usize, &Field)> = vec![];
    fn walk<'a>(b: &Built, l: &'a Layout, st: usize, at: usize, out: &mut Vec<(usize, &'a Field)>) {
        for f in &l.structs[st].fields {
            if matches!(f.ty, Ty::Pad(_)) || !f.in_map() { continue }
            match f.ty {
                Ty::Struct(i) => { let n = f.size / l.structs[i].size; for k in 0..n { walk(b, l, i, at + f.off + k * l.structs[i].size, out) } }
                Ty::Refl(i) => {
                    out.push((at + f.off, f));
                    let (n, a) = (b.get32(at + f.off) as usize, b.get32(at + f.off + 4));
                    if n > 0 && a >= b.base && (a - b.base) as usize + n * l.structs[i].size <= b.tag_len { let a = b.at(a); for k in 0..n { walk(b, l, i, a + k * l.structs[i].size, out) } }
                }
                _ => out.push((at + f.off, f))
            }
        }
    }
    let k = (0..b.items.len()).filter(|k| b.items[*k].g == g).next().unwrap_or(b.scenario);
    let it = &b.items[k];
    if it.home != Home::Tags { return Ok(()) }
    walk(&b, l, l.groups[it.g].st, b.at(it.address), &mut spots);
    if spots.is_empty() { return Ok(()) }
    let mut how = vec![];
    for _ in 0..s.usize(1, 3) {
        // counts, offsets and indices rather than plain numbers
        let liked: Vec<&(usize, &Field)> = spots.iter().filter(|x| !matches!(&x.1.ty, Ty::Prim { unit, .. } if unit.width() == 4) || x.1.name.contains("count") || x.1.name.contains("size") || x.1.name.contains("offset") || x.1.name.contains("index")).collect();
        let (at, f) = if !liked.is_empty() && s.chance(5, 6) { **s.pick(&liked) } else { *s.pick(&spots) };
        let mut put = |b: &mut Built, at: usize, v: u32, n: usize| { how.push(format!("{} at {at} = {v:x}", f.name)); b.map[at..at + n].copy_from_slice(&v.to_le_bytes()[..n]) };
        match &f.ty {
            Ty::Refl(i) => {
                let size = l.structs[*i].size as u32;
                let (n, a) = (b.get32(at), b.get32(at + 4));
                let room = if a >= b.base { (b.base + b.tag_len as u32).saturating_sub(a) / size.max(1) } else { 0 };
                match s.below(8) {
                    0 => put(&mut b, at, room, 4), 1 => put(&mut b, at, room + 1, 4), 2 => { let v = s.u32_edge(); put(&mut b, at, v, 4) } 3 => put(&mut b, at, n.wrapping_add(1), 4),
                    4 => { let v = s.u32_edge(); put(&mut b, at + 4, v, 4) }
                    5 => { let v = (b.base + b.tag_len as u32).wrapping_sub(n.wrapping_mul(size)); put(&mut b, at + 4, v.wrapping_add(s.below(2) as u32 * 4), 4) }
                    6 => { let v = b.base + s.below(b.tag_len as u64) as u32; put(&mut b, at, 1 + s.below(3) as u32, 4); put(&mut b, at + 4, v, 4) }
                    _ => { put(&mut b, at, u32::MAX / size.max(1) + s.below(3) as u32, 4) }
                }
            }
            Ty::Ref(_) => match s.below(3) { 0 => { let v = s.u32_edge(); put(&mut b, at + 12, v, 4) } 1 => { let k = s.below(b.items.len() as u64) as usize; let v = b.get32(b.entry(k) + 12); put(&mut b, at + 12, v, 4) } _ => { let v = s.u32_edge(); put(&mut b, at, v, 4) } },
            Ty::Data(_) => { let o = at + 4 * *s.pick(&[0usize, 0, 1, 2, 3]); let v = match s.below(3) { 0 => s.u32_edge(), 1 => b.map.len() as u32 - s.below(3) as u32, _ => s.below(4000) as u32 }; put(&mut b, o, v, 4) }
            _ => { let w = match f.size { 1 => 1, 2 | 3 => 2, _ => 4 }; let n = f.size / w; let o = at + w * s.below(n as u64) as usize; let v = match s.below(4) { 0 => s.below(70) as u32, 1 => 1 << s.below(32), _ => s.u32_edge() }; put(&mut b, o, v, w) }
        }
    }
    ctx.sample(|| format!("{} in a {} map: {}", b.items[k].full(), eng.name, how.join(", ")));
    if ransack(&b, ctx)? > 0 { ctx.nontrivial_b(&b.map) }
    ctx.label(&l.groups[g].name);
    Ok(())
}
/// files made of nothing, or of a header and nothing
fn c31_bytes(s: &mut Src, ctx: &mut Ctx) -> R {
    let xbox = s.bool();
    let eng = pick_engine(s, xbox);
    let n = match s.below(3) { 0 => s.usize(0, 100), 1 => s.usize(0x7F0, 0x900), _ => s.usize(0x800, 0x3000) };
    let mut noise = Noise::new(s);
    let mut map = vec![];
    noise.fill(&mut map, n);
    if s.bool() { for c in map.chunks_exact_mut(4) { if noise.below(3) > 0 { c.copy_from_slice(&[0; 4]) } } }
    if n >= 0x800 && s.chance(9, 10) {
        let len = n - 0x800;
        let at = 0x800 + s.below(len as u64 / 2 + 1) as u32 & !3;
        let head = super::maphead::Head { demo: eng.demo_header && s.bool(), version: eng.version, build: s.pick(&eng.builds).clone(), name: "x".into(), kind: s.below(3) as u16, crc: u32::MAX, size: n as u32, padding: 0, tags_at: at, tags_len: match s.below(8) { 0 => s.u32_edge(), _ => n as u32 - at }, cea: 0 };
        put32z(&mut map, 0, 1); put32z(&mut map, 704, 1);
        head.put(&mut map[..0x800]);
        // a plausible header of the tag data
        let o = at as usize;
        if o + 40 <= n && s.chance(3, 4) { for (i, v) in [(0, eng.base + 40), (4, 0), (12, s.below(6) as u32), (20, 0x800), (28, 0), (32, 0)] { put32z(&mut map, o + i, v) } }
    }
    let b = Built { map, res: [vec![], vec![], vec![]], items: vec![], head: Default::default(), crc: 0, base: eng.base, tag_len: 0, tags_at: 0, levels: vec![], kind: 0, eng, scenario: 0, lost: [false; 3], spots: vec![], array: 0, place: vec![], count: 0, scenario_at: 0, summed: vec![] };
    // through the file system, where the kind of map is found out
    if s.chance(1, 8) {
        let dir = ctx.fresh_dir();
        std::fs::write(dir.join("the.map"), &b.map).unwrap();
        let r = alloc_bounded((160 << 20) + 64 * n, || no_panic(|| load(&dir, ParseStrictness::Relaxed).map(|f| { for t in on!(&f, m => m.get_all_tags()) { let _ = f.extract(&t); } })))??;
        ctx.label(if r.is_ok() { "file opened" } else { "file refused" });
        ctx.drop_dir(&dir);
    }
    ransack(&b, ctx)?;
    ctx.sample(|| format!("{} bytes for {}", b.map.len(), eng.name));
    ctx.nontrivial_b(&b.map);
    Ok(())
}
fn put32z(b: &mut [u8], at: usize, v: u32) { b[at..at + 4].copy_from_slice(&v.to_le_bytes()) }
/// strict mode and any damage to what the checksum covers
fn c31_strict(s: &mut Src, ctx: &mut Ctx) -> R {
    let eng = pick_engine(s, false);
    let opt = Options { groups: vec![], extra: s.usize(0, 3), lose: false, large: false, spoil: false, budget: 300 };
    let mut b = build_map(s, eng, &opt);
    let orig = b.map.clone();
    match no_panic(|| open(&b, ParseStrictness::Strict))? { Ok(_) => (), Err(e) => fail!("map refused", "{e}") }
    for _ in 0..6 {
        b.map = orig.clone();
        let parts: Vec<_> = b.summed.iter().filter(|x| x.1 > 0).copied().collect();
        let (o, n) = *s.pick(&parts);
        match s.below(4) {
            0 => { let at = o + s.below(n as u64) as usize; b.map[at] ^= 1 + s.below(255) as u8 }
            1 => { let at = o + s.below(n as u64) as usize; let k = s.usize(1, 4).min(o + n - at); for i in 0..k { b.map[at + i] ^= s.u8() } if b.map == orig { continue } }
            // two bits anywhere
            2 => { for _ in 0..2 { let (o, n) = *s.pick(&parts); let at = o + s.below(n as u64) as usize; b.map[at] ^= 1 << s.below(8) } if b.map == orig { continue } }
            // two bytes exchanged
            _ => { let (x, y) = (o + s.below(n as u64) as usize, o + s.below(n as u64) as usize); b.map.swap(x, y); if b.map == orig || x.abs_diff(y) > 3 { continue } }
        }
        match no_panic(|| open(&b, ParseStrictness::Strict))? { Ok(_) => fail!("damaged map accepted in strict mode", "{} map", eng.name), Err(_) => ctx.label("refused") }
    }
    ctx.sample(|| format!("{} map of {} bytes", eng.name, orig.len()));
    ctx.nontrivial_b(&orig);
    Ok(())
}
/// lists which all items of another list share
fn c31_shared(s: &mut Src, ctx: &mut Ctx) -> R {
    use super::maphead::put32;
    let l = layout();
    // groups with lists within lists (within lists)
    fn chains(l: &Layout, st: usize, off: usize, route: &mut Vec<(usize, usize)>, out: &mut Vec<Vec<(usize, usize)>>) {
        for f in &l.structs[st].fields {
            if !f.in_map() { continue }
            match f.ty {
                Ty::Struct(i) if f.count == Count::One => chains(l, i, off + f.off, route, out),
                Ty::Refl(i) => { route.push((off + f.off, i)); out.push(route.clone()); chains(l, i, 0, route, out); route.pop(); }
                _ => ()
            }
        }
    }
    let xbox = s.chance(1, 3);
    let eng = pick_engine(s, xbox);
    let opt = Options { groups: vec![l.group_by_name["camera_track"]], extra: 0, lose: false, large: false, spoil: false, budget: 100 };
    let mut b = build_map(s, eng, &opt);
    b.head.crc = u32::MAX;
    let names: Vec<usize> = (0..l.groups.len()).filter(|g| !["scenario", "scenario_structure_bsp", "bitmap", "model", "gbxmodel", "unicode_string_list"].contains(&l.groups[*g].name.as_str())).collect();
    let g = names[s.cycle(names.len() as u64) as usize];
    let mut all = vec![];
    chains(l, l.groups[g].st, 0, &mut vec![], &mut all);
    all.retain(|c| c.len() >= 2);
    if all.is_empty() { return Ok(()) }
    let c = s.pick(&all).clone();
    // a tag of its own at the end of the tag data
    let n = if c.len() == 2 { *s.pick(&[2u32, 40, 300]) } else { *s.pick(&[2u32, 8, 40, 70]) };
    let mut areas = vec![];
    let pad = vec![0u8; (4 - b.tag_len % 4) % 4];
    let mut extra = pad;
    let base = b.base + b.tag_len as u32;
    let root = base + extra.len() as u32;
    extra.resize(extra.len() + l.structs[l.groups[g].st].size, 0);
    for (_, st) in &c { areas.push(base + extra.len() as u32); extra.resize(extra.len() + n as usize * l.structs[*st].size, 0) }
    let path = base + extra.len() as u32;
    extra.extend(b"the shared one\0\0");
    for (k, (off, _)) in c.iter().enumerate() {
        let owners: Vec<u32> = if k == 0 { vec![root] } else { (0..n).map(|i| areas[k - 1] + i * l.structs[c[k - 1].1].size as u32).collect() };
        for o in owners { let at = (o - base) as usize + off; put32(&mut extra, at, n); put32(&mut extra, at + 4, areas[k]) }
    }
    // null references
    fn nulls(l: &Layout, st: usize, at: usize, b: &mut [u8]) { for f in &l.structs[st].fields { if !f.in_map() { continue } match f.ty { Ty::Ref(_) => { for k in 0..f.size / 16 { put32z(b, at + f.off + 16 * k, u32::MAX); put32z(b, at + f.off + 16 * k + 12, u32::MAX) } } Ty::Struct(i) => { let n = f.size / l.structs[i].size; for k in 0..n { nulls(l, i, at + f.off + k * l.structs[i].size, b) } } _ => () } } }
    nulls(l, l.groups[g].st, (root - base) as usize, &mut extra);
    for ((_, st), a) in c.iter().zip(&areas) { for i in 0..n as usize { nulls(l, *st, (*a - base) as usize + i * l.structs[*st].size, &mut extra) } }
    // it replaces one of the tags
    let at = b.map.len();
    let old = b.map[b.tags_at..b.tags_at + b.tag_len].to_vec();
    b.map.extend(&old); b.map.extend(&extra);
    b.head.tags_at = at as u32; b.head.tags_len = (old.len() + extra.len()) as u32;
    let mut h = b.map[..0x800].to_vec(); b.head.put(&mut h); b.map[..0x800].copy_from_slice(&h);
    let array = b.array - b.tags_at + at;
    let k = b.place[b.items.iter().position(|i| i.group() == "camera_track").unwrap()];
    let e = array + 32 * k;
    for (i, v) in [(0, l.groups[g].fourcc), (4, u32::MAX), (8, u32::MAX), (12, 0x1234_0000 | k as u32), (16, path), (20, root), (24, 0)] { put32(&mut b.map, e + i, v) }
    let p = TagPath::from_path(&format!("the shared one.{}", l.groups[g].name)).unwrap();
    let f = match open_as_found(&b) { Ok(f) => f, Err(e) => fail!("map refused", "{e}") };
    let (r, most) = peak_of(|| no_panic(|| f.extract(&p)));
    let items = (n as u64).pow(c.len() as u32);
    match r? { Ok(_) => ctx.label("extracted"), Err(e) => { ctx.label("refused"); ctx.label(&e.to_string().chars().take(50).collect::<String>()) } }
    ctx.label(&format!("{} lists deep, {n} items each", c.len()));
    ctx.sample(|| format!("{}: {} lists of {n} items, {items} in all; {most} bytes of memory for {} bytes of tag", l.groups[g].name, c.len(), extra.len()));
    ctx.nontrivial_b(&extra);
    ensure!(most < (1 << 20) + 256 * b.map.len(), "items of a list that share their own list multiply", "{}: a map of {} bytes with {} lists of {n} items, each shared by all items of the one before, takes {most} bytes of memory", l.groups[g].name, b.map.len(), c.len());
    Ok(())
}
pub static C31: Check = Check {
    id: "C31", terminates: true,
    subs: &[Sub { name: "damaged", quick: 36_000, thorough: 1_000_000, run: c31_damaged }, Sub { name: "aimed", quick: 36_000, thorough: 1_000_000, run: c31_aimed }, Sub { name: "bytes", quick: 24_000, thorough: 300_000, run: c31_bytes }, Sub { name: "strict", quick: 6_000, thorough: 60_000, run: c31_strict }, Sub { name: "shared", quick: 1_800, thorough: 6_000, run: c31_shared }],
    rule: "a damaged map is non-trivial if it could still be opened, so that its tags were asked for; maps are told apart by their bytes",
    assumptions: &["a single memory request may be 160 MiB plus 64 times the size of the files: a compressed animation of a few bytes is allowed to announce 64 nodes and 65535 frames, for which zeros are put in", "two flipped bits and changes within 32 bits are always seen by a CRC32 of so few bytes; larger changes are not tried in strict mode"],
};

// ------------------------------------------------------------------ C27: animation data
fn c27_layout(s: &mut Src, ctx: &mut Ctx) -> R {
    use ringhopper::tag::model_animations::*;
    let l = layout();
    let ast = l.st("ModelAnimationsAnimation");
    let mut a = default_struct(l, ast);
    let nodes = match s.below(4) { 0 => *s.pick(&[0u32, 1, 2, 31, 32, 33, 63, 64]), _ => s.below(65) as u32 };
    set_int(l, ast, &mut a, "node_count", nodes);
    let density = s.below(101);
    for f in ["node_rotation_flag_data", "node_transform_flag_data", "node_scale_flag_data"] { *items_mut(l, ast, &mut a, f) = (0..2).map(|_| V::W(vec![(0..32).fold(0, |m, b| m | ((s.below(100) < density) as u32) << b)])).collect() }
    let mut t = ringhopper_structs::ModelAnimationsAnimation::default();
    set_struct(l, ast, &a, &mut t, "animation").map_err(|e| Fail::new("harness", e))?;
    for invert in [false, true] {
        let it = if invert { FrameDataIterator::for_animation_inverted(&t) } else { FrameDataIterator::for_animation(&t) };
        let got: Vec<usize> = it.map(|x| match x { FrameDataType::Rotate => 0, FrameDataType::Transform => 1, FrameDataType::Scale => 2 }).take(1000).collect();
        let want = frame_layout(l, &a, invert);
        ensure_eq!(got, want, if invert { "layout of the default data" } else { "layout of a frame" }, "{nodes} nodes: 0 rotation, 1 transform, 2 scale");
        ensure_eq!(it.to_size(), want.iter().map(|p| FRAME_SIZES[*p]).sum::<usize>(), "size of a frame", "{nodes} nodes");
        ctx.label(if invert { "default data" } else { "frames" });
    }
    // together, each node's rotation, transform and scale once
    let both = FrameDataIterator::for_animation(&t).count() + FrameDataIterator::for_animation_inverted(&t).count();
    ensure_eq!(both, nodes as usize * 3, "elements in the frame and default data together", "");
    ctx.sample(|| format!("{nodes} nodes: {:?}", frame_layout(l, &a, false)));
    if nodes > 0 { ctx.nontrivial(hash_bytes(format!("{a:?}").as_bytes())) }
    Ok(())
}
fn c27_maps(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let ast = l.st("ModelAnimationsAnimation");
    let g = l.group_by_name["model_animations"];
    let xbox = s.bool();
    let eng = pick_engine(s, xbox);
    let spoil = s.bool();
    let opt = Options { groups: vec![g; s.usize(1, 3)], extra: 0, lose: false, large: false, spoil, budget: *s.pick(&[300i64, 1500]) };
    let b = build_map(s, eng, &opt);
    let f = match open(&b, ParseStrictness::Strict) { Ok(f) => f, Err(e) => fail!("map refused", "{e}; {} map of {:?}, sections {:?}", eng.name, b.items.iter().enumerate().map(|(k, i)| (i.full(), b.get32(b.entry(k) + 12), i.home)).collect::<Vec<_>>(), (0..b.levels.len()).map(|i| b.get32(b.sections_at() + i * l.structs[l.st("ScenarioBSP")].size + 16 + 12)).collect::<Vec<_>>()) };
    let mut done = 0;
    for it in b.items.iter().filter(|i| i.g == g) {
        let r = no_panic(|| f.extract(&TagPath::from_path(&it.full()).unwrap()))?;
        match (r, it.refuse) {
            (Ok(_), Some(why)) => fail!(format!("animations extracted although: {why}"), "{}", it.full()),
            (Err(e), None) => fail!("animations refused", "{}: {e}", it.full()),
            (Err(_), Some(why)) => { ctx.label(&format!("refused: {why}")); ctx.nontrivial_b(format!("{:?}", it.map).as_bytes()) }
            (Ok(t), None) => {
                same_tag(&b, it, t.as_ref())?;
                let n = items(l, l.groups[g].st, &it.want, "animations");
                for a in n { ctx.label(&format!("info type {}", int(l, ast, a, "frame_info_type"))); if matches!(sub(l, ast, a, "frame_data"), V::Data(d) if !d.is_empty()) { done += 1 } }
                if done > 0 { ctx.nontrivial_b(format!("{:?}", it.map).as_bytes()) }
            }
        }
    }
    ctx.label_n("animations with frame data", done);
    ctx.sample(|| format!("{}: {:?}", eng.name, b.items.iter().map(|i| i.full()).collect::<Vec<_>>()));
    Ok(())
}
pub static C27: Check = Check {
    id: "C27", terminates: true,
    subs: &[Sub { name: "layout", quick: 180_000, thorough: 3_000_000, run: c27_layout }, Sub { name: "maps", quick: 90_000, thorough: 1_000_000, run: c27_maps }],
    rule: "an animation is non-trivial if it has nodes; a map if one of its animations has frame data, or was refused",
    assumptions: &["the conversion of byte orders is private and is exercised by extracting animations from maps built with the other byte order (both PC and console engines)", "signalling NaN bit patterns are not used: loading and storing such a number may set its quiet bit", "compressed animations are not decoded by ringhopper: their data is expected after as many zeros as the frames would take, as the code documents"],
};
