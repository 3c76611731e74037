//! C28: map headers and engines.  C32: resource maps.
use crate::engine::*;
use crate::layout::*;
use ringhopper::map::header::*;
use ringhopper::map::resource::ResourceMap;
use ringhopper_engines::*;
use ringhopper_structs::ScenarioType;
use serde_json::{json, Value};

pub fn put32(b: &mut [u8], at: usize, v: u32) { b[at..at + 4].copy_from_slice(&v.to_le_bytes()) }
pub fn put16(b: &mut [u8], at: usize, v: u16) { b[at..at + 2].copy_from_slice(&v.to_le_bytes()) }

#[derive(Clone, Debug, Default)]
pub struct Head { pub demo: bool, pub version: u32, pub build: String, pub name: String, pub kind: u16, pub crc: u32, pub size: u32, pub padding: u32, pub tags_at: u32, pub tags_len: u32, pub cea: u16 }
impl Head {
    /// writes the fields into 0x800 bytes which may hold anything
    pub fn put(&self, b: &mut [u8]) {
        let text = |b: &mut [u8], at: usize, t: &str| { b[at..at + t.len()].copy_from_slice(t.as_bytes()); b[at + t.len()] = 0 };
        if self.demo {
            put16(b, 2, self.kind); put32(b, 704, 0x45686564); put32(b, 708, self.tags_len); text(b, 712, &self.build); put32(b, 1416, self.version); text(b, 1420, &self.name);
            put32(b, 1456, self.crc); put32(b, 1512, self.size); put32(b, 1516, self.tags_at); put32(b, 1520, 0x47666F74);
        }
        else {
            put32(b, 0, 0x68656164); put32(b, 4, self.version); put32(b, 8, self.size); put32(b, 12, self.padding); put32(b, 16, self.tags_at); put32(b, 20, self.tags_len);
            text(b, 32, &self.name); text(b, 64, &self.build); put16(b, 96, self.kind); put32(b, 100, self.crc); put16(b, 104, self.cea); put32(b, 2044, 0x666F6F74);
        }
    }
}
/// engines in table order
pub fn engines() -> Vec<&'static Value> { let mut v: Vec<_> = layout().json["engines"].as_object().unwrap().values().collect(); v.sort_by_key(|e| e["name"].as_str().unwrap()); v }
/// The engine a header means, by the documented rules.
pub fn meant(version: u32, build: &str) -> Option<&'static str> {
    let of: Vec<_> = engines().into_iter().filter(|e| e["cache_file_version"].as_u64() == Some(version as u64)).collect();
    let exact = of.iter().find(|e| e["build"]["string"] == build || e["build"]["fallback"].as_array().is_some_and(|f| f.iter().any(|x| x == build)));
    exact.or_else(|| of.iter().find(|e| e["cache_default"] == true && e["build"]["enforced"] != true)).map(|e| e["name"].as_str().unwrap())
}
fn c28_header(s: &mut Src, ctx: &mut Ctx) -> R {
    let es = engines();
    let e = es[s.cycle(es.len() as u64) as usize];
    let demo = s.chance(1, 3);
    let known: Vec<String> = es.iter().flat_map(|e| { let mut v: Vec<String> = e["build"]["fallback"].as_array().into_iter().flatten().map(|x| x.as_str().unwrap().into()).collect(); v.extend(e["build"]["string"].as_str().map(|x| x.to_string())); v }).collect();
    let own: Vec<String> = { let mut v: Vec<String> = e["build"]["fallback"].as_array().into_iter().flatten().map(|x| x.as_str().unwrap().into()).collect(); v.extend(e["build"]["string"].as_str().map(|x| x.to_string())); v };
    let mut build = match s.below(8) { 0 | 1 | 2 if !own.is_empty() => s.pick(&own).clone(), 3 | 4 => s.pick(&known).clone(), 5 => String::new(), 6 => s.pick(&known).clone(), _ => s.ascii_ident(0, 31) };
    if s.chance(1, 5) { match s.below(4) { 0 => { build.pop(); } 1 => build.push('0'), 2 => build.insert(0, ' '), _ => { let i = s.below(build.len().max(1) as u64) as usize; if i < build.len() { build.replace_range(i..i + 1, "7") } } } }
    build.truncate(31);
    let mut h = Head { demo, version: match s.below(8) { 0 => s.below(20) as u32, 1 => s.u32_edge(), _ => e["cache_file_version"].as_u64().unwrap() as u32 }, build, name: s.ascii_ident(0, 31), kind: s.below(3) as u16, crc: s.u32_edge(), size: s.u32_edge(), padding: s.u32_edge(), tags_at: s.u32_edge(), tags_len: s.u32_edge(), cea: s.u16() & 3 };
    if demo { h.cea = 0 }
    let tail = s.usize(0, 40);
    let mut b = s.bytes(0x800 + tail);
    // nothing else may look like a header
    put32(&mut b, 0, s.u32() | 1 << 31); put32(&mut b, 704, s.u32() | 1 << 31);
    h.put(&mut b);
    let break_it = s.weighted(&[10, 1, 1, 1]);
    match break_it {
        1 => { let n = s.usize(0, 0x7FF); b.truncate(n) }
        2 => { let at = if demo { 704 } else { 0 }; b[at + s.usize(0, 3)] ^= 1 << s.below(8) }
        3 => { let at = if demo { 1520 } else { 2044 }; b[at + s.usize(0, 3)] ^= 1 << s.below(8) }
        _ => ()
    }
    let p = ParsedCacheFileHeader::read_from_map_data(&b);
    let d = get_map_details(&b);
    if break_it > 0 {
        ensure!(p.is_err(), "damaged header accepted", "damage {break_it} of {h:?} was accepted");
        ensure!(d.is_err(), "damaged header accepted", "details: damage {break_it} of {h:?} was accepted");
        ctx.label("refused: damaged");
        ctx.nontrivial_b(&b);
        return Ok(())
    }
    let p = match p { Ok(p) => p, Err(e) => fail!("header refused", "{h:?}: {e}") };
    let got = (p.name.as_str(), p.build.as_str(), p.cache_version, p.tag_data_offset, p.tag_data_size, p.decompressed_size, p.map_type as u16, p.crc32, p.compression_padding);
    let want = (h.name.as_str(), h.build.as_str(), h.version, h.tags_at as usize, h.tags_len as usize, h.size as usize, h.kind, h.crc, if demo { 0 } else { h.padding as usize });
    ensure_eq!(got, want, "header field", "demo {demo}: (name, build, version, tag data offset, tag data size, decompressed size, type, crc, padding)");
    ensure!(matches!((h.kind, p.map_type), (0, ScenarioType::Singleplayer) | (1, ScenarioType::Multiplayer) | (2, ScenarioType::UserInterface)), "header field", "map type {} read as {:?}", h.kind, p.map_type);
    let want = meant(h.version, &h.build);
    ensure_eq!(p.match_engine().map(|e| e.name), want, "engine match", "version {} build {:?}", h.version, h.build);
    match d { Ok((_, e)) => ensure_eq!(Some(e.name), want, "engine match", "details of version {} build {:?}", h.version, h.build), Err(e) => ensure!(want.is_none(), "engine match", "version {} build {:?} refused: {e}", h.version, h.build) }
    ctx.label(want.unwrap_or("unknown"));
    ctx.sample(|| format!("{h:?} -> {want:?}"));
    ctx.nontrivial(hash_bytes(format!("{} {} {demo} {}", h.version, h.build, h.name).as_bytes()));
    Ok(())
}
fn shown(e: &Engine) -> Value {
    json!({"name": e.name, "display": e.display_name, "version": e.version, "build": e.build.as_ref().map(|b| json!({"string": b.string, "fallback": b.fallback, "enforced": b.enforced})),
        "build_target": e.build_target, "fallback": e.fallback, "custom": e.custom, "cache_file_version": e.cache_file_version, "cache_default": e.cache_default, "external_bsps": e.external_bsps, "external_models": e.external_models,
        "max_script_nodes": e.max_script_nodes, "max_tag_space": e.max_tag_space, "compressed_models": e.compressed_models, "data_alignment": e.data_alignment,
        "bitmap": {"swizzled": e.bitmap_options.swizzled, "modulo": e.bitmap_options.texture_dimension_must_modulo_block_size, "cubemap_sep": e.bitmap_options.cubemap_faces_stored_separately, "alignment": e.bitmap_options.alignment},
        "resource_maps": e.resource_maps.as_ref().map(|r| json!({"ext": r.externally_indexed_tags, "loc": r.loc})), "xbox": e.cache_parser == EngineCacheParser::Xbox, "base": e.base_memory_address.address, "inferred": e.base_memory_address.inferred,
        "max_size": [e.max_cache_file_size.user_interface, e.max_cache_file_size.singleplayer, e.max_cache_file_size.multiplayer],
        "required": {"all": e.required_tags.all, "ui": e.required_tags.user_interface, "sp": e.required_tags.singleplayer, "mp": e.required_tags.multiplayer}, "deflate": e.compression_type == EngineCompressionType::Deflate})
}
/// one engine of the table per case
fn c28_table(s: &mut Src, ctx: &mut Ctx) -> R {
    let all = ALL_SUPPORTED_ENGINES;
    let want = engines();
    ensure_eq!(all.iter().map(|e| e.name).collect::<Vec<_>>(), want.iter().map(|e| e["name"].as_str().unwrap()).collect::<Vec<_>>(), "engine list", "names of the supported engines in order");
    let i = s.cycle(all.len() as u64) as usize;
    let (e, mut w) = (&all[i], want[i].clone());
    w.as_object_mut().unwrap().remove("inherits");
    let g = shown(e);
    for (k, v) in w.as_object().unwrap() { ensure_eq!(&g[k], v, format!("engine setting {k}"), "engine {} setting {k}", e.name) }
    ensure_eq!(all.binary_search_by(|x| x.name.cmp(e.name)).ok(), Some(i), "engine lookup", "lookup of {}", e.name);
    ensure!(all.iter().filter(|x| x.name == e.name).count() == 1, "engine name repeated", "{}", e.name);
    ensure!(all.iter().filter(|x| x.cache_default && x.cache_file_version == e.cache_file_version).count() <= 1, "several defaults", "version {} has several default engines", e.cache_file_version);
    ctx.label("engine");
    ctx.sample(|| format!("{}: {g}", e.name));
    ctx.nontrivial_s(e.name);
    Ok(())
}
pub static C28: Check = Check {
    id: "C28", terminates: true,
    subs: &[Sub { name: "header", quick: 1_440_000, thorough: 3_000_000, run: c28_header }, Sub { name: "table", quick: 44, thorough: 44, run: c28_table }],
    rule: "header: 0x800+ random bytes with a header in normal or demo layout written into them, versions and builds of every engine, near misses and arbitrary strings; damaged variants must be refused. Every header case counts. table: every engine of the table, all settings against the recorded engine table.",
    assumptions: &["The engine table of the pinned commit (harness/data/layout.json) is the reference for what each engine's settings are.", "A header matching several engines means the first of them by name (pc-custom before its variants)."],
};

// ------------------------------------------------------------------ C32
pub struct Res { pub path: String, pub data: Vec<u8> }
/// A resource map: header, then paths, array and data in any order with gaps; returns the bytes and where each resource starts.
pub fn resource_map(s: &mut Src, kind: u16, list: &[Res]) -> (Vec<u8>, Vec<usize>, [usize; 2]) {
    let mut b = vec![0; 16];
    let junk = |s: &mut Src, b: &mut Vec<u8>| { let n = s.usize(0, 9); let j = s.bytes(n); b.extend(j) };
    let (mut paths_at, mut array_at) = (0, 0);
    let mut path_off = vec![0; list.len()];
    let mut data_off = vec![0; list.len()];
    for part in s.permutation(3) {
        junk(s, &mut b);
        match part {
            0 => { paths_at = b.len(); for i in s.permutation(list.len()) { if s.chance(1, 4) { junk(s, &mut b) } path_off[i] = b.len() - paths_at; b.extend(list[i].path.bytes()); b.push(0) } }
            1 => { array_at = b.len(); b.resize(b.len() + list.len() * 12, 0) }
            _ => for i in s.permutation(list.len()) { if s.chance(1, 4) { junk(s, &mut b) } while s.chance(1, 2) && b.len() % 4 != 0 { b.push(0) } data_off[i] = b.len(); b.extend(&list[i].data) }
        }
    }
    if s.chance(1, 3) { junk(s, &mut b) }
    for i in 0..list.len() { put32(&mut b, array_at + i * 12, path_off[i] as u32); put32(&mut b, array_at + i * 12 + 4, list[i].data.len() as u32); put32(&mut b, array_at + i * 12 + 8, data_off[i] as u32) }
    put16(&mut b, 0, kind); put16(&mut b, 2, s.u16()); put32(&mut b, 4, paths_at as u32); put32(&mut b, 8, array_at as u32); put32(&mut b, 12, list.len() as u32);
    (b, data_off, [paths_at, array_at])
}
fn gen_name(s: &mut Src) -> String { match s.below(8) { 0 => String::new(), 1 => "é\\ü".into(), 2 => s.ascii_ident(1, 3).to_uppercase(), _ => { let mut p = s.ascii_ident(1, 6); for _ in 0..s.below(3) { p.push('\\'); p += &s.ascii_ident(1, 4) } if s.chance(1, 4) { p += "__permutations" } p } } }
fn c32_map(s: &mut Src, ctx: &mut Ctx) -> R {
    let large = s.chance(1, 8000);
    let n = if large { *s.pick(&[255usize, 256, 257, 1000, 32768, 65535, 65536, 65537, 70000]) } else { match s.below(4) { 0 => s.usize(0, 2), 1 => s.usize(0, 40), _ => s.usize(1, 8) } };
    let mut list: Vec<Res> = vec![];
    if large { let k = s.u8() as usize; list = (0..n).map(|i| Res { path: format!("r\\{i}"), data: (0..(i + k) % 5).map(|j| (i * 7 + j + k) as u8).collect() }).collect(); ctx.label("hundreds or more") }
    else { for _ in 0..n { let path = if s.chance(1, 10) && !list.is_empty() { let i = s.usize(0, list.len() - 1); list[i].path.clone() } else { gen_name(s) }; let k = match s.below(4) { 0 => 0, _ => s.usize(0, 60) }; list.push(Res { path, data: s.bytes(k) }) } }
    let kind = 1 + s.below(3) as u16;
    let (bytes, at, _) = resource_map(s, kind, &list);
    let m = match ResourceMap::from_data(bytes.clone()) { Ok(m) => m, Err(e) => fail!("resource map refused", "{n} resources: {e}") };
    ensure_eq!(m.len(), n, "resource count", "number of resources");
    ensure!(m.data() == bytes, "resource map data", "the stored bytes differ");
    let some: Vec<usize> = if large { let mut v = vec![0, 1, 254, n - 1, n / 2]; for x in [255usize, 256, 32767, 32768, 65535, 65536] { if x < n { v.push(x) } } v } else { (0..n).collect() };
    for (i, r) in some.into_iter().map(|i| (i, &list[i])) {
        let Some(g) = m.get(i) else { fail!("resource not found", "index {i} of {n}") };
        ensure_eq!((g.get_path(), g.get_data(), g.get_data_offset()), (r.path.as_str(), r.data.as_slice(), at[i]), "wrong resource", "resource {i}: (name, data, offset)");
        let g = unsafe { m.get_unchecked(i) };
        ensure_eq!((g.get_path(), g.get_data(), g.get_data_offset()), (r.path.as_str(), r.data.as_slice(), at[i]), "wrong resource", "unchecked resource {i}: (name, data, offset)");
        // names are meant to be unique; with repeats the first one counts
        let first = list.iter().position(|x| x.path == r.path).unwrap();
        let Some(g) = m.get_by_path(&r.path) else { fail!("resource not found", "name {:?}", r.path) };
        ensure_eq!((g.get_path(), g.get_data(), g.get_data_offset()), (r.path.as_str(), list[first].data.as_slice(), at[first]), "wrong resource", "resource named {:?}", r.path);
        for absent in [r.path.clone() + "x", r.path.chars().skip(1).collect(), r.path.to_uppercase(), r.path.chars().take(r.path.chars().count().saturating_sub(1)).collect::<String>()] {
            ensure_eq!(m.get_by_path(&absent).is_some(), list.iter().any(|x| x.path == absent), "absent name found", "{absent:?}");
        }
    }
    for i in [n, n + 1, n + 1000, usize::MAX] { ensure!(m.get(i).is_none(), "absent index found", "{i} of {n}") }
    ensure!(m.clone().into_data() == bytes, "resource map data", "the returned bytes differ");
    ctx.label_n("resources", n as u64);
    ctx.sample(|| format!("{:?}", list.iter().map(|r| (&r.path, r.data.len())).collect::<Vec<_>>()));
    if n > 1 { ctx.nontrivial_b(&bytes) }
    Ok(())
}
fn c32_damage(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.usize(1, 6);
    let list: Vec<Res> = (0..n).map(|_| { let k = s.usize(0, 20); Res { path: gen_name(s), data: s.bytes(k) } }).collect();
    let kind = 1 + s.below(3) as u16;
    let (mut b, _, [paths, array]) = resource_map(s, kind, &list);
    let i = s.usize(0, n - 1);
    let e = array + i * 12;
    let len = b.len();
    let beyond = |s: &mut Src, from: usize| match s.below(3) { 0 => from as u32, 1 => u32::MAX - s.below(4) as u32, _ => (from as u64 + s.below(1 << 20)) as u32 };
    let what = 1 + s.below(8);
    match what {
        1 => put32(&mut b, 4, beyond(s, len + 1)),
        2 => put32(&mut b, 8, beyond(s, len - 11)),
        3 => { put32(&mut b, 8, array as u32); put32(&mut b, 12, beyond(s, (len - array) / 12 + 1)) }
        4 => put32(&mut b, e, beyond(s, len - paths + 1)),
        // a string without an end
        5 => { let z = len - s.usize(1, 4).min(len - paths); for x in &mut b[z..] { *x = b'a' } put32(&mut b, e, (z - paths) as u32) }
        // not text
        6 => { b.extend([0xFF, 0xC0, 0]); put32(&mut b, e, (len - paths) as u32) }
        7 => { let o = s.usize(0, len); put32(&mut b, e + 8, o as u32); put32(&mut b, e + 4, beyond(s, len - o + 1)) }
        _ => { let k = s.usize(0, 15); b.truncate(k) }
    }
    // the damaged place may have overwritten parts of the table itself, which only makes it worse
    let r = alloc_bounded(1 << 20, || no_panic(|| ResourceMap::from_data(b.clone())))??;
    if what == 5 && array + n * 12 > len - 4 { ctx.label("array last"); return Ok(()) }
    ensure!(r.is_err(), "bad resource map accepted", "damage {what} was accepted: {} resources", r.map(|r| r.len()).unwrap_or(0));
    ctx.label_n(&format!("damage {what}"), 1);
    ctx.nontrivial_b(&b);
    Ok(())
}
fn c32_any(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.usize(0, 5);
    let list: Vec<Res> = (0..n).map(|_| { let k = s.usize(0, 20); Res { path: gen_name(s), data: s.bytes(k) } }).collect();
    let (mut b, _, _) = resource_map(s, 1 + (n as u16 % 3), &list);
    for _ in 0..s.usize(1, 4) { let w = if s.bool() { 16 + n * 12 } else { b.len() }; let i = s.below(w.min(b.len()) as u64) as usize; b[i] = if s.bool() { s.u8() } else { b[i] ^ 1 << s.below(8) } }
    let m = alloc_bounded(1 << 20, || no_panic(|| ResourceMap::from_data(b.clone())))??;
    let Ok(m) = m else { ctx.label("refused"); return Ok(()) };
    // whatever was accepted is described by the bytes themselves
    let le = |at: usize| u32::from_le_bytes(b[at..at + 4].try_into().unwrap()) as usize;
    let (paths, array, count) = (le(4), le(8), le(12));
    ensure_eq!(m.len(), count, "resource count", "number of resources");
    for i in 0..count {
        let (p, k, d) = (le(array + i * 12), le(array + i * 12 + 4), le(array + i * 12 + 8));
        let r = m.get(i).unwrap();
        ensure!(r.get_data() == &b[d..d + k] && r.get_data_offset() == d, "wrong resource", "data of {i}");
        let t = &b[paths + p..];
        let z = t.iter().position(|x| *x == 0).unwrap();
        ensure!(r.get_path().as_bytes() == &t[..z], "wrong resource", "name of {i}");
    }
    ctx.label("accepted");
    if count > 0 { ctx.nontrivial_b(&b) }
    Ok(())
}
pub static C32: Check = Check {
    id: "C32", terminates: true,
    subs: &[Sub { name: "map", quick: 900_000, thorough: 1_000_000, run: c32_map }, Sub { name: "damage", quick: 1_350_000, thorough: 1_500_000, run: c32_damage }, Sub { name: "any", quick: 1_800_000, thorough: 2_000_000, run: c32_any }],
    rule: "map: resource maps of all three kinds built with parts in any order and random gaps, up to 40 resources (rarely up to 70000), repeated and non-ASCII names; non-trivial from two resources. damage: one of eight faults, each must be refused. any: random byte damage; what is accepted must be what the bytes say.",
    assumptions: &["When a name is stored twice, the first resource of that name is the one found."],
};
