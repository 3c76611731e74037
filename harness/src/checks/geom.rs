//! C20, C21: converting tags, compressed and uncompressed vertices.
use super::fields::{at, object_path};
use super::tagfile::build;
use crate::engine::*;
use crate::gen_table::OPS;
use crate::layout::*;
use crate::value::*;
use ringhopper::tag::convert::get_tag_conversion_fn;
use ringhopper::tag::model::{downcast_model, downcast_model_mut};
use ringhopper::tag::scenario_structure_bsp::*;
use ringhopper_primitives::tag::PrimaryTagStructDyn;
use ringhopper_structs::{ScenarioStructureBSP, ScenarioStructureBSPMaterial};

// ------------------------------------------------------------------ values by field name
pub fn pos(l: &Layout, st: usize, n: &str) -> usize { l.structs[st].fields.iter().position(|f| f.matcher == n).unwrap_or_else(|| panic!("{n} in {}", l.structs[st].name)) }
pub fn items<'a>(l: &Layout, st: usize, v: &'a V, n: &str) -> &'a [V] { let V::St(x) = v else { panic!() }; match &x[pos(l, st, n)] { V::Refl(a) | V::Arr(a) => a, _ => panic!("{n}") } }
pub fn items_mut<'a>(l: &Layout, st: usize, v: &'a mut V, n: &str) -> &'a mut Vec<V> { let V::St(x) = v else { panic!() }; match &mut x[pos(l, st, n)] { V::Refl(a) | V::Arr(a) => a, _ => panic!("{n}") } }
pub fn sub<'a>(l: &Layout, st: usize, v: &'a V, n: &str) -> &'a V { let V::St(x) = v else { panic!() }; &x[pos(l, st, n)] }
pub fn sub_mut<'a>(l: &Layout, st: usize, v: &'a mut V, n: &str) -> &'a mut V { let V::St(x) = v else { panic!() }; &mut x[pos(l, st, n)] }
pub fn int(l: &Layout, st: usize, v: &V, n: &str) -> u32 { match sub(l, st, v, n) { V::W(w) => w[0], V::N(n) => *n, _ => panic!("{n}") } }
pub fn set_int(l: &Layout, st: usize, v: &mut V, n: &str, x: u32) { match sub_mut(l, st, v, n) { V::W(w) => w[0] = x, V::N(n) => *n = x, _ => panic!("{n}") } }
pub fn bits(v: &V) -> &[u32] { match v { V::W(w) => w, _ => panic!() } }

// ------------------------------------------------------------------ vertices
/// What an n-bit packed component means.
pub fn unpack(v: u32, b: u32) -> f64 { let m = 1i64 << (b - 1); let v = v as i64 & ((1 << b) - 1); if v < m { v as f64 / (m - 1) as f64 } else { (v - 2 * m) as f64 / m as f64 } }
pub fn unpack3(v: u32) -> [f64; 3] { [unpack(v, 11), unpack(v >> 11, 11), unpack(v >> 22, 10)] }
fn near(x: f64, code: u32, b: u32) -> bool { let step = 1.0 / ((1u64 << (b - 1)) - 1) as f64; (unpack(code, b) - x.clamp(-1.0, 1.0)).abs() <= step * 0.5 + 1e-9 }
fn near3(x: &[u32], code: u32) -> bool { let f = |i: usize| f32::from_bits(x[i]) as f64; near(f(0), code, 11) && near(f(1), code >> 11, 11) && near(f(2), code >> 22, 10) }
fn is3(code: u32, x: &[u32]) -> bool { unpack3(code).iter().zip(x).all(|(a, b)| (a - f32::from_bits(*b) as f64).abs() < 1e-7) }
fn unit(s: &mut Src) -> f32 { match s.below(6) { 0 => *s.pick(&[0.0, 1.0, -1.0, 0.5, -0.5]), 1 => s.irange(-1_200_000, 1_200_000) as f32 / 1e6, 2 => { let m = *s.pick(&[511i64, 1023, 32767]); s.irange(-m, m) as f32 / m as f32 } _ => s.irange(-1_000_000, 1_000_000) as f32 / 1e6 } }
fn weight(s: &mut Src) -> f32 { match s.below(4) { 0 => 0.0, 1 => 1.0, _ => s.below(1000) as f32 / 999.0 } }
fn far(s: &mut Src) -> f32 { match s.below(4) { 0 => f32::from_bits(s.f32_bits(false)), _ => s.irange(-1_000_000, 1_000_000) as f32 / 512.0 } }
pub fn node(s: &mut Src, n: usize) -> u32 { if n == 0 || s.chance(1, 5) { 0xFFFF } else if s.chance(1, 4) { n as u32 - 1 } else { s.below(n as u64) as u32 } }
fn vertex(s: &mut Src, nodes: usize) -> V {
    let w = |x: Vec<f32>| V::W(x.into_iter().map(|x| x.to_bits()).collect());
    let mut dir = |s: &mut Src| w((0..3).map(|_| unit(s)).collect());
    let (n, b, t) = (dir(s), dir(s), dir(s));
    V::St(vec![w((0..3).map(|_| far(s)).collect()), n, b, t, w((0..2).map(|_| unit(s)).collect()), V::W(vec![node(s, nodes)]), V::W(vec![node(s, nodes)]), w(vec![weight(s)]), w(vec![weight(s)])])
}
fn packed(s: &mut Src, nodes: usize) -> V {
    let mut n = |s: &mut Src| { let i = node(s, nodes.min(84)); V::W(vec![if i == 0xFFFF { 253 + s.below(3) as u32 } else { i * 3 }]) };
    let (a, b) = (n(s), n(s));
    let mut code = |s: &mut Src| V::W(vec![canonical3(s)]);
    let (x, y, z) = (code(s), code(s), code(s));
    V::St(vec![V::W((0..3).map(|_| far(s).to_bits()).collect()), x, y, z, V::W(vec![s.u16() as u32]), V::W(vec![s.u16() as u32]), a, b, V::W(vec![s.u16() as u32 & 0x7FFF])])
}
fn canonical3(s: &mut Src) -> u32 { if s.chance(1, 6) { *s.pick(&[0, 0x3FF | 0x3FF << 11 | 0x1FF << 22, 0x400 | 0x400 << 11 | 0x200 << 22]) } else { s.u32() } }
/// `c` is what packing the vertex `u` gives
pub fn packs(u: &V, c: &V) -> Result<(), &'static str> {
    let (V::St(u), V::St(c)) = (u, c) else { return Err("no vertex") };
    let f = |v: &V, i: usize| f32::from_bits(bits(v)[i]) as f64;
    if u[0] != c[0] { return Err("position") }
    for (k, n) in [(1, "normal"), (2, "binormal"), (3, "tangent")] { if !near3(bits(&u[k]), bits(&c[k])[0]) { return Err(n) } }
    for (k, n) in [(4, "texture u"), (5, "texture v")] { if !near(f(&u[4], k - 4), bits(&c[k])[0], 16) { return Err(n) } }
    for (k, n) in [(5, "first node"), (6, "second node")] { let w = bits(&u[k])[0]; let g = bits(&c[k + 1])[0]; if if w == 0xFFFF { g < 253 } else { g != w * 3 } { return Err(n) } }
    let (a, b) = (f(&u[7], 0), f(&u[8], 0));
    if !near(a / if a + b == 0.0 { 1.0 } else { a + b }, bits(&c[8])[0], 16) { return Err("weight") }
    Ok(())
}
/// `u` is what unpacking the vertex `c` gives
pub fn unpacks(c: &V, u: &V, table: Option<&[u32]>) -> Result<(), &'static str> {
    let (V::St(u), V::St(c)) = (u, c) else { return Err("no vertex") };
    let f = |v: &V, i: usize| f32::from_bits(bits(v)[i]) as f64;
    let same = |a: f64, b: f64| (a - b).abs() < 1e-7;
    if u[0] != c[0] { return Err("position") }
    for (k, n) in [(1, "normal"), (2, "binormal"), (3, "tangent")] { if !is3(bits(&c[k])[0], bits(&u[k])) { return Err(n) } }
    for (k, n) in [(4, "texture u"), (5, "texture v")] { if !same(unpack(bits(&c[k])[0], 16), f(&u[4], k - 4)) { return Err(n) } }
    for (k, n) in [(5, "first node"), (6, "second node")] { let g = bits(&u[k])[0]; let g = match table { Some(t) if g != 0xFFFF => match t.get(g as usize) { Some(x) => *x, None => return Err(n) }, _ => g }; let w = bits(&c[k + 1])[0]; if g != if w >= 253 { 0xFFFF } else { w / 3 } { return Err(n) } }
    let w = unpack(bits(&c[8])[0], 16);
    if !same(w, f(&u[7], 0)) || !same(1.0 - w, f(&u[8], 0)) { return Err("weights") }
    Ok(())
}

// ------------------------------------------------------------------ models
pub struct Shape { pub nodes: usize, pub shaders: usize, pub geometries: usize, pub local: bool, pub compressed: bool, pub uncompressed: bool }
/// A model whose indices are all in bounds.
pub fn gen_model(s: &mut Src, gbx: bool, sh: &Shape) -> V {
    let l = layout();
    let g = l.group(if gbx { "gbxmodel" } else { "model" });
    let mut gen = Gen { budget: 900, max_items: 3, fill_unstored: s.chance(1, 3), ..Default::default() };
    let mut v = gen.structure(s, l, g.st);
    let fixed = |s: &mut Src, st: usize, n: usize, b: i64, fill: bool| -> Vec<V> { let mut g = Gen { budget: b, max_items: 2, fill_unstored: fill, ..Default::default() }; (0..n).map(|_| if g.budget > 0 { g.structure(s, l, st) } else { default_struct(l, st) }).collect() };
    let fill = gen.fill_unstored;
    items_mut(l, g.st, &mut v, "runtime_markers").clear();
    let nst = l.st("ModelNode");
    let mut nodes = fixed(s, nst, sh.nodes, 600, fill);
    for n in &mut nodes { for f in ["next_sibling_node_index", "first_child_node_index", "parent_node_index"] { let x = node(s, sh.nodes); set_int(l, nst, n, f, x) } }
    *items_mut(l, g.st, &mut v, "nodes") = nodes;
    *items_mut(l, g.st, &mut v, "shaders") = fixed(s, l.st("ModelShaderReference"), sh.shaders, 300, fill);
    let (rst, pst, mst) = (l.st("ModelRegion"), l.st("ModelRegionPermutation"), l.st("ModelRegionPermutationMarker"));
    for r in items_mut(l, g.st, &mut v, "regions") { for p in items_mut(l, rst, r, "permutations") {
        for f in ["super_low", "low", "medium", "high", "super_high"] { let x = node(s, sh.geometries); set_int(l, pst, p, f, x) }
        for m in items_mut(l, pst, p, "markers") { let x = node(s, sh.nodes); set_int(l, mst, m, "node_index", x) }
    } }
    let (gst, gpst, bst) = (l.st(if gbx { "GBXModelGeometry" } else { "ModelGeometry" }), l.st("GBXModelGeometryPart"), l.st("ModelGeometryPart"));
    let mut geos = fixed(s, gst, sh.geometries, 60, fill);
    for ge in &mut geos {
        let n = s.below(4) as usize;
        let mut parts = fixed(s, if gbx { gpst } else { bst }, n, 300, fill);
        for p in &mut parts {
            let mut local = vec![];
            if gbx {
                local = (0..s.below(23) as usize).map(|_| if sh.nodes == 0 { 0 } else { s.below(sh.nodes.min(256) as u64) as u32 }).collect::<Vec<u32>>();
                set_int(l, gpst, p, "local_node_count", local.len() as u32);
                let a = items_mut(l, gpst, p, "local_node_indices");
                for (k, x) in a.iter_mut().enumerate() { *x = V::W(vec![local.get(k).copied().unwrap_or(0)]) }
            }
            let b = if gbx { sub_mut(l, gpst, p, "model_geometry_part") } else { p };
            let fl = int(l, bst, b, "flags") & !2 | if sh.local { 2 } else { 0 };
            set_int(l, bst, b, "flags", fl);
            let x = node(s, sh.shaders); set_int(l, bst, b, "shader_index", x);
            for f in ["centroid_primary_node", "centroid_secondary_node"] { let x = node(s, sh.nodes); set_int(l, bst, b, f, x) }
            let many = s.chance(1, 12);
            let mut count = |s: &mut Src, yes: bool| if !yes || s.chance(1, 6) { 0 } else if many { if s.chance(1, 8) { *s.pick(&[255usize, 256, 257, 300, 700]) } else { s.usize(20, 60) } } else { s.usize(1, 6) };
            let (nu, nc) = (count(s, sh.uncompressed), count(s, sh.compressed));
            let reach = if sh.local { if sh.nodes == 0 { 0 } else { local.len() } } else { sh.nodes };
            *items_mut(l, bst, b, "uncompressed_vertices") = (0..nu).map(|_| vertex(s, reach)).collect();
            let mut small = (0..nc).map(|_| packed(s, sh.nodes)).collect::<Vec<V>>();
            // mostly of the part's own nodes
            let own: Vec<u32> = local.iter().copied().filter(|n| *n < 84).collect();
            if sh.local && s.chance(3, 4) { for x in &mut small { let V::St(f) = x else { panic!() }; for k in [6, 7] { if bits(&f[k])[0] < 253 { f[k] = V::W(vec![if own.is_empty() { 253 } else { s.pick(&own) * 3 }]) } } } }
            *items_mut(l, bst, b, "compressed_vertices") = small;
            let nt = s.below(5);
            *items_mut(l, bst, b, "triangle_data") = (0..nt).map(|_| V::St(vec![V::Arr((0..3).map(|_| V::W(vec![s.u16() as u32])).collect())])).collect();
        }
        *items_mut(l, gst, ge, "parts") = parts;
    }
    *items_mut(l, g.st, &mut v, "geometries") = geos;
    if gbx { let x = int(l, g.st, &v, "flags") & !2 | if sh.local { 2 } else { 0 }; set_int(l, g.st, &mut v, "flags", x) }
    v
}
pub fn gen_shape(s: &mut Src, gbx: bool) -> Shape {
    Shape { nodes: *s.pick(&[3usize, 1, 0, 2, 8, 20, 41, 42, 43, 60]), shaders: s.usize(0, 3), geometries: s.usize(0, 3), local: gbx && s.chance(1, 3), compressed: s.bool(), uncompressed: s.chance(5, 6) }
}
/// every part of a model
pub fn parts_mut<'a>(v: &'a mut V, gbx: bool) -> Vec<&'a mut V> {
    let l = layout();
    let g = l.group(if gbx { "gbxmodel" } else { "model" });
    let gst = l.st(if gbx { "GBXModelGeometry" } else { "ModelGeometry" });
    items_mut(l, g.st, v, "geometries").iter_mut().flat_map(|ge| items_mut(l, gst, ge, "parts").iter_mut()).map(|p| if gbx { sub_mut(l, l.st("GBXModelGeometryPart"), p, "model_geometry_part") } else { p }).collect()
}
/// the nodes each part's uncompressed vertices refer to, if they do not refer to the model's
pub fn tables(v: &V, gbx: bool) -> Vec<Option<Vec<u32>>> {
    let l = layout();
    let g = l.group(if gbx { "gbxmodel" } else { "model" });
    let (gst, gpst) = (l.st(if gbx { "GBXModelGeometry" } else { "ModelGeometry" }), l.st("GBXModelGeometryPart"));
    let local = gbx && int(l, g.st, v, "flags") & 2 != 0;
    items(l, g.st, v, "geometries").iter().flat_map(|ge| items(l, gst, ge, "parts")).map(|p| if !local { None } else { let n = int(l, gpst, p, "local_node_count") as usize; items(l, gpst, p, "local_node_indices").get(..n).map(|a| a.iter().map(|x| bits(x)[0]).collect()).or(Some(vec![])) }).collect()
}
/// whether unpacking is possible, given the part's own nodes (None: too many of them)
pub fn unpackable(c: &[V], table: Option<&[u32]>) -> bool { let Some(t) = table else { return true }; c.iter().all(|c| { let V::St(c) = c else { panic!() }; [6, 7].iter().all(|k| { let n = bits(&c[*k])[0]; n >= 253 || t.contains(&(n / 3)) }) }) }
pub fn group_ops(name: &str) -> (usize, &'static GroupDef, &'static crate::gen_table::GroupOps) { let l = layout(); let i = l.group_by_name[name]; (i, &l.groups[i], &OPS[i]) }
pub fn read(g: &GroupDef, t: &dyn PrimaryTagStructDyn) -> Result<V, Fail> { get_struct(layout(), g.st, t.as_dynamic(), &g.name).map_err(|e| Fail::new("field cannot be read by name", e)) }
fn differ(g: &GroupDef, a: &V, b: &V) -> String { first_diff(layout(), g.st, a, b, &g.name).unwrap_or_default() }

/// take the vertices out (they are compared by meaning), leave the rest
fn strip_vertices(v: &V, gbx: bool) -> V { let l = layout(); let b = l.st("ModelGeometryPart"); let mut v = v.clone(); for p in parts_mut(&mut v, gbx) { items_mut(l, b, p, "uncompressed_vertices").clear(); items_mut(l, b, p, "compressed_vertices").clear() } v }

fn c21_model(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let gbx = s.bool();
    let (_, g, o) = group_ops(if gbx { "gbxmodel" } else { "model" });
    let mut sh = gen_shape(s, gbx);
    if s.chance(1, 2) { sh.local = false }
    let mut v = gen_model(s, gbx, &sh);
    let bst = l.st("ModelGeometryPart");
    let mut wild = false;
    if s.chance(1, 12) { for p in parts_mut(&mut v, gbx) { if let Some(x) = items_mut(l, bst, p, "uncompressed_vertices").last_mut() { let n = *s.pick(&[43u32, 85, 86, 256, 300, 0x7FFF, 0xFFFE]); let V::St(f) = x else { panic!() }; f[5 + s.below(2) as usize] = V::W(vec![n]); wild = true; } } }
    let supported = sh.nodes <= 42 && !sh.local && !wild;
    let mut t = build(l, g, o, &v)?;
    let before = read(g, t.as_ref())?;
    let op = s.below(3);
    let name = ["recompress", "fix compressed", "fix uncompressed"][op as usize];
    let apply = |t: &mut dyn PrimaryTagStructDyn| { let m = downcast_model_mut(t).expect("model"); match op { 0 => m.recompress_vertices(), 1 => m.fix_compressed_vertices(), _ => m.fix_uncompressed_vertices() } };
    let r = apply(t.as_mut());
    let after = read(g, t.as_ref())?;
    let rest = (strip_vertices(&before, gbx), strip_vertices(&after, gbx));
    ensure!(rest.0 == rest.1, "something other than vertices changed", "{name} {}: {}", g.name, differ(g, &rest.0, &rest.1));
    if !r { ensure!(before == after, "reported as unchanged but changed", "{name} {}: {}", g.name, differ(g, &before, &after)); }
    if r && op != 0 { ensure!(before != after, "reported as fixed but nothing was missing", "{name} {}", g.name); }
    let (mut b2, mut a2) = (before.clone(), after.clone());
    let mut total = 0;
    let tables = tables(&before, gbx);
    for (k, (b, a)) in parts_mut(&mut b2, gbx).into_iter().zip(parts_mut(&mut a2, gbx)).enumerate() {
        let f = |v: &V, n: &str| items(l, bst, v, n).to_vec();
        let (bu, bc, au, ac) = (f(b, "uncompressed_vertices"), f(b, "compressed_vertices"), f(a, "uncompressed_vertices"), f(a, "compressed_vertices"));
        total += bu.len().max(bc.len());
        let packed_from = |u: &[V], c: &[V]| -> R {
            ensure_eq!(u.len(), c.len(), "number of vertices changed", "{name} part {k}");
            for (i, (u, c)) in u.iter().zip(c).enumerate() { if let Err(e) = packs(u, c) { fail!(format!("packed {e} wrong"), "{name} part {k} vertex {i}: {u:x?} -> {c:x?}") } }
            Ok(())
        };
        match op {
            0 | 1 => {
                ensure!(bu == au, "uncompressed vertices changed by packing them", "{name} part {k}");
                if bu.is_empty() || (op == 1 && !bc.is_empty()) { ensure!(bc == ac, "compressed vertices lost", "{name} part {k}: {} before, {} after", bc.len(), ac.len()) }
                else if supported { packed_from(&bu, &ac)? }
                else { ensure!(ac.is_empty() || ac == bc, "vertices packed which cannot be", "{name} part {k}: {} nodes, local {}, bad node {wild}", sh.nodes, sh.local) }
            }
            _ => {
                ensure!(bc == ac, "compressed vertices changed by unpacking them", "{name} part {k}");
                if !bu.is_empty() { ensure!(bu == au, "uncompressed vertices replaced although they are there", "{name} part {k}") }
                else if !unpackable(&bc, tables[k].as_deref()) { ensure!(au.is_empty(), "vertices unpacked although the part lacks their nodes", "{name} part {k}") }
                else {
                    ensure_eq!(bc.len(), au.len(), "number of vertices changed", "{name} part {k}");
                    for (i, (c, u)) in bc.iter().zip(&au).enumerate() { if let Err(e) = unpacks(c, u, tables[k].as_deref()) { fail!(format!("unpacked {e} wrong"), "part {k} vertex {i}: {c:x?} -> {u:x?}") } }
                }
            }
        }
    }
    apply(t.as_mut());
    let again = read(g, t.as_ref())?;
    ensure!(after == again, "doing it again changes the model again", "{name} {}: {}", g.name, differ(g, &after, &again));
    // packed vertices survive being unpacked and packed again
    if op == 2 && supported {
        downcast_model_mut(t.as_mut()).unwrap().recompress_vertices();
        let mut a3 = read(g, t.as_ref())?;
        for (k, (b, a)) in parts_mut(&mut b2, gbx).into_iter().zip(parts_mut(&mut a3, gbx)).enumerate() {
            if !items(l, bst, b, "uncompressed_vertices").is_empty() { continue }
            let norm = |v: &V| { let V::St(f) = v else { panic!() }; let mut f = f.clone(); for i in [6, 7] { if bits(&f[i])[0] >= 253 { f[i] = V::W(vec![253]) } } V::St(f) };
            let (x, y): (Vec<V>, Vec<V>) = (items(l, bst, b, "compressed_vertices").iter().map(norm).collect(), items(l, bst, a, "compressed_vertices").iter().map(norm).collect());
            if x != y { let i = x.iter().zip(&y).position(|(a, b)| a != b); fail!("packed vertices differ after unpacking and packing", "part {k} vertex {i:?}: {:x?} {:x?}", i.map(|i| &x[i]), i.map(|i| &y[i])) }
        }
        ctx.label("unpack and pack again");
    }
    ctx.label(name); ctx.label(if !supported { "cannot be packed" } else { "can be packed" });
    if total > 0 { ctx.nontrivial_s(&format!("{name}{before:?}")); }
    ctx.sample(|| format!("{name} of a {} with {} nodes, {} parts, {total} vertices, local nodes {}", g.name, sh.nodes, parts_mut(&mut b2, gbx).len(), sh.local));
    Ok(())
}

// ------------------------------------------------------------------ levels
const SIZES: [(usize, usize); 2] = [(56, 20), (32, 8)];
pub struct Mat { pub rendered: u32, pub lightmap: u32, pub data: [Vec<u8>; 2] }
fn put3(b: &mut Vec<u8>, x: [f32; 3]) { for f in x { b.extend(f.to_le_bytes()) } }
pub fn full_vertices(s: &mut Src, n: usize, lm: usize, normals: &mut dyn FnMut(&mut Src) -> [f32; 3]) -> Vec<u8> {
    let mut b = vec![];
    for _ in 0..n { let p = [far(s), far(s), far(s)]; put3(&mut b, p); for k in 0..3 { let d = if k == 0 { normals(s) } else { [unit(s), unit(s), unit(s)] }; put3(&mut b, d) } b.extend(far(s).to_le_bytes()); b.extend(far(s).to_le_bytes()) }
    for _ in 0..lm { let d = [unit(s), unit(s), unit(s)]; put3(&mut b, d); b.extend(unit(s).to_le_bytes()); b.extend(unit(s).to_le_bytes()) }
    b
}
pub fn packed_vertices(s: &mut Src, n: usize, lm: usize) -> Vec<u8> {
    let mut b = vec![];
    for _ in 0..n { let p = [far(s), far(s), far(s)]; put3(&mut b, p); for _ in 0..3 { b.extend(canonical3(s).to_le_bytes()) } b.extend(far(s).to_le_bytes()); b.extend(far(s).to_le_bytes()) }
    for _ in 0..lm { b.extend(canonical3(s).to_le_bytes()); b.extend(s.u32().to_le_bytes()) }
    b
}
fn fw(b: &[u8], o: usize) -> u32 { u32::from_le_bytes(b[o..o + 4].try_into().unwrap()) }
fn words3(b: &[u8], o: usize) -> [u32; 3] { [fw(b, o), fw(b, o + 4), fw(b, o + 8)] }
/// compare the two forms; `exact` when the full form was made from the packed one
pub fn level_forms(full: &[u8], pk: &[u8], n: usize, lm: usize, exact: bool) -> R {
    ensure_eq!(full.len(), n * 56 + lm * 20, "number of vertices changed", "full form of {n}+{lm}");
    ensure_eq!(pk.len(), n * 32 + lm * 8, "number of vertices changed", "packed form of {n}+{lm}");
    let dir = |u: [u32; 3], c: u32| if exact { is3(c, &u) } else { near3(&u, c) };
    for i in 0..n {
        let (u, c) = (&full[i * 56..], &pk[i * 32..]);
        ensure!(words3(u, 0) == words3(c, 0), "position not kept", "vertex {i}");
        for k in 0..3 { ensure!(dir(words3(u, 12 + 12 * k), fw(c, 12 + 4 * k)), format!("{} not kept", ["normal", "binormal", "tangent"][k]), "vertex {i}: {:x?} {:08x}", words3(u, 12 + 12 * k), fw(c, 12 + 4 * k)) }
        ensure!(u[48..56] == c[24..32], "texture coordinates not kept", "vertex {i}");
    }
    for i in 0..lm {
        let (u, c) = (&full[n * 56 + i * 20..], &pk[n * 32 + i * 8..]);
        ensure!(dir(words3(u, 0), fw(c, 0)), "lightmap normal not kept", "vertex {i}: {:x?} {:08x}", words3(u, 0), fw(c, 0));
        for k in 0..2 { let (x, code) = (f32::from_bits(fw(u, 12 + 4 * k)) as f64, fw(c, 4) >> (16 * k)); ensure!(if exact { (unpack(code, 16) - x).abs() < 1e-7 } else { near(x, code, 16) }, "lightmap texture coordinates not kept", "vertex {i}: {x} {code:04x}") }
    }
    Ok(())
}
fn c21_level(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let (_, g, o) = group_ops("scenario_structure_bsp");
    let (lst, mst, rst) = (l.st("ScenarioStructureBSPLightmap"), l.st("ScenarioStructureBSPMaterial"), l.st("ModelVertexReference"));
    let mut gen = Gen { budget: 700, max_items: 2, ..Default::default() };
    let mut v = gen.structure(s, l, g.st);
    let mut mats: Vec<Mat> = vec![];
    let bad_level = s.chance(1, 4);
    let nl = s.usize(0, 3);
    let mut lms = vec![];
    for _ in 0..nl {
        let mut lm = default_struct(l, lst);
        set_int(l, lst, &mut lm, "bitmap", 0xFFFF & s.u32());
        let n = s.usize(0, 3);
        for _ in 0..n {
            gen.budget = 150;
            let mut m = gen.structure(s, l, mst);
            let r = match s.below(6) { 0 => 0, 1 => s.usize(10, 40), _ => s.usize(1, 5) };
            let k = if s.chance(1, 3) { 0 } else { r };
            let kind = s.below(4);
            let mut a = Mat { rendered: r as u32, lightmap: k as u32, data: [if kind != 1 && kind != 3 { full_vertices(s, r, k, &mut |s| [unit(s), unit(s), unit(s)]) } else { vec![] }, if kind != 0 && kind != 3 { packed_vertices(s, r, k) } else { vec![] }] };
            if bad_level && s.bool() { match s.below(6) {
                0 => { let d = &mut a.data[s.below(2) as usize]; if d.pop().is_none() { d.push(0) } }
                1 => { let d = &mut a.data[s.below(2) as usize]; d.push(1) }
                2 => a.rendered = *s.pick(&[a.rendered + 1, a.rendered.wrapping_sub(1), u32::MAX, 0x8000_0000, 0x4924_9249]),
                3 => a.lightmap = *s.pick(&[a.lightmap + 1, a.lightmap.wrapping_sub(1), u32::MAX, 1]),
                4 => { a.rendered = u32::MAX; a.lightmap = u32::MAX }
                _ => a.data.swap(0, 1)
            } }
            set_int(l, rst, sub_mut(l, mst, &mut m, "rendered_vertices"), "vertex_count", a.rendered);
            set_int(l, rst, sub_mut(l, mst, &mut m, "lightmap_vertices"), "vertex_count", a.lightmap);
            for (k, n) in ["uncompressed_vertices", "compressed_vertices"].iter().enumerate() { *sub_mut(l, mst, &mut m, n) = V::Data(a.data[k].clone()) }
            items_mut(l, lst, &mut lm, "materials").push(m);
            mats.push(a);
        }
        lms.push(lm);
    }
    *items_mut(l, g.st, &mut v, "lightmaps") = lms;
    let mut t = build(l, g, o, &v)?;
    let right = |a: &Mat, k: usize| (a.lightmap == 0 || a.lightmap == a.rendered) && a.rendered as u128 * SIZES[k].0 as u128 + a.lightmap as u128 * SIZES[k].1 as u128 == a.data[k].len() as u128;
    // reading the vertices of one material
    {
        let b: &ScenarioStructureBSP = t.get_ref().unwrap();
        let all: Vec<&ScenarioStructureBSPMaterial> = b.lightmaps.items.iter().flat_map(|x| x.materials.items.iter()).collect();
        for (a, m) in mats.iter().zip(all) {
            let full = get_uncompressed_vertices_for_bsp_material(m).map(|(r, k)| (r.map(|v| (v.position, v.texture_coords)).collect::<Vec<_>>(), k.count()));
            let pk = get_compressed_vertices_for_bsp_material(m).map(|(r, k)| (r.map(|v| (v.position, v.texture_coords)).collect::<Vec<_>>(), k.count()));
            for (k, r) in [full, pk].into_iter().enumerate() {
                match r {
                    Ok((r, n)) => {
                        ensure!(right(a, k), "vertices of the wrong size accepted", "{} of {}+{} in {} bytes", ["full", "packed"][k], a.rendered, a.lightmap, a.data[k].len());
                        ensure_eq!((r.len(), n), (a.rendered as usize, a.lightmap as usize), "wrong number of vertices", "form {k}");
                        for (i, (p, x)) in r.iter().enumerate() { let c = &a.data[k][i * SIZES[k].0..]; let q = SIZES[k].0 - 8; ensure!([p.x, p.y, p.z].map(|f| (f as f32).to_bits()) == words3(c, 0) && [x.x, x.y].map(|f| (f as f32).to_bits()) == [fw(c, q), fw(c, q + 4)], "vertex read wrong", "form {k} vertex {i}") }
                    }
                    Err(e) => ensure!(!right(a, k), "vertices refused", "{} of {}+{} in {} bytes: {e}", ["full", "packed"][k], a.rendered, a.lightmap, a.data[k].len())
                }
            }
        }
    }
    let before = read(g, t.as_ref())?;
    let r = recompress_scenario_structure_bsp_vertices(t.get_mut::<ScenarioStructureBSP>().unwrap());
    let one_form = |a: &Mat| a.data[0].is_empty() != a.data[1].is_empty();
    let bad = mats.iter().any(|a| one_form(a) && !right(a, a.data[0].is_empty() as usize));
    match r {
        Err(e) => { ensure!(bad, "level refused", "{e}"); ctx.label("refused"); }
        Ok(changed) => {
            ensure!(!bad, "vertices of the wrong size accepted", "{:?}", mats.iter().map(|a| (a.rendered, a.lightmap, a.data[0].len(), a.data[1].len())).collect::<Vec<_>>());
            let after = read(g, t.as_ref())?;
            ensure_eq!(changed, mats.iter().any(one_form), "change not reported truly", "{:?}", mats.iter().map(|a| (a.data[0].len(), a.data[1].len())).collect::<Vec<_>>());
            let mut expect = before.clone();
            let mut k = 0;
            for (e, a) in items_mut(l, g.st, &mut expect, "lightmaps").iter_mut().zip(items(l, g.st, &after, "lightmaps")) { for (e, a) in items_mut(l, lst, e, "materials").iter_mut().zip(items(l, lst, a, "materials")) {
                let m = &mats[k]; k += 1;
                let d = |n: &str| match sub(l, mst, a, n) { V::Data(d) => d.clone(), _ => panic!() };
                if one_form(m) {
                    let from = m.data[0].is_empty() as usize;
                    let made = ["compressed_vertices", "uncompressed_vertices"][from];
                    let (full, pk) = if from == 0 { (m.data[0].clone(), d("compressed_vertices")) } else { (d("uncompressed_vertices"), m.data[1].clone()) };
                    level_forms(&full, &pk, m.rendered as usize, m.lightmap as usize, from == 1)?;
                    *sub_mut(l, mst, e, made) = V::Data(d(made));
                    ctx.label(["packed", "unpacked"][from]);
                }
            } }
            ensure!(expect == after, "something other than the missing form changed", "{}", differ(g, &expect, &after));
            let b = t.get_mut::<ScenarioStructureBSP>().unwrap();
            let again = recompress_scenario_structure_bsp_vertices(b);
            ensure!(matches!(again, Ok(false)), "doing it again changes the level again", "{again:?}");
            ensure!(read(g, t.as_ref())? == after, "doing it again changes the level again", "");
            // dropping the packed form and making it again gives the same for what was unpacked
            let b = t.get_mut::<ScenarioStructureBSP>().unwrap();
            let mut was = vec![];
            for x in &mut b.lightmaps.items { for m in &mut x.materials.items { was.push(std::mem::take(&mut m.compressed_vertices.bytes)) } }
            let sound = mats.iter().all(|a| one_form(a) || right(a, 0) || a.data[0].is_empty());
            if sound {
                ensure!(recompress_scenario_structure_bsp_vertices(b).is_ok(), "level refused", "after dropping the packed form");
                let now: Vec<&Vec<u8>> = b.lightmaps.items.iter().flat_map(|x| x.materials.items.iter().map(|m| &m.compressed_vertices.bytes)).collect();
                for ((m, a), b) in mats.iter().zip(&was).zip(now) { if one_form(m) { ensure!(a == b, "packed vertices differ after unpacking and packing", "{} vertices", m.rendered) } }
            }
        }
    }
    let n: u64 = mats.iter().map(|a| (a.data[0].len() + a.data[1].len()) as u64).sum();
    if n > 0 { ctx.nontrivial_s(&format!("{:?}", mats.iter().map(|a| (a.rendered, a.lightmap, hash_bytes(&a.data[0]), hash_bytes(&a.data[1]))).collect::<Vec<_>>())); }
    ctx.sample(|| format!("level of {} materials: {:?}", mats.len(), mats.iter().map(|a| (a.rendered, a.lightmap, a.data[0].len(), a.data[1].len())).collect::<Vec<_>>()));
    Ok(())
}

// ------------------------------------------------------------------ C20
/// carry over what two structures share, by field name
fn carry(l: &Layout, from: usize, to: usize, v: &V) -> V {
    if from == to { return v.clone() }
    let (fname, tname) = (l.structs[from].name.as_str(), l.structs[to].name.as_str());
    if fname == "GBXModelGeometryPart" { return carry(l, l.st("ModelGeometryPart"), to, sub(l, from, v, "model_geometry_part")) }
    let V::St(x) = v else { panic!() };
    V::St(l.structs[to].fields.iter().map(|f| {
        if f.exclude { return V::None }
        if tname == "GBXModelGeometryPart" && f.matcher == "model_geometry_part" { return v.clone() }
        let Some(i) = l.structs[from].fields.iter().position(|g| g.matcher == f.matcher && !matches!(g.ty, Ty::Pad(_))) else { return default_field(l, f) };
        match (&l.structs[from].fields[i].ty, &f.ty, &x[i]) {
            (Ty::Refl(a), Ty::Refl(b), V::Refl(y)) => V::Refl(y.iter().map(|y| carry(l, *a, *b, y)).collect()),
            (Ty::Struct(a), Ty::Struct(b), y) => carry(l, *a, *b, y),
            (Ty::Bits(a), Ty::Bits(b), V::N(n)) => V::N(l.bits[*b].options.iter().filter(|o| l.bits[*a].options.iter().any(|p| p.matcher == o.matcher && n & p.value != 0)).map(|o| o.value).sum()),
            (_, _, y) => y.clone()
        }
    }).collect())
}
fn convert(from: &str, to: &str, t: &dyn PrimaryTagStructDyn) -> Result<ringhopper_primitives::error::RinghopperResult<Box<dyn PrimaryTagStructDyn>>, Fail> {
    let Some(f) = get_tag_conversion_fn(tag_group(from), tag_group(to)) else { fail!("conversion not offered", "{from} to {to}") };
    Ok(f(t))
}
fn c20_models(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let gbx = s.bool();
    let names = if gbx { ["gbxmodel", "model"] } else { ["model", "gbxmodel"] };
    let ((_, g, o), (_, h, _)) = (group_ops(names[0]), group_ops(names[1]));
    let sh = gen_shape(s, gbx);
    let mut v = gen_model(s, gbx, &sh);
    { // runtime markers go along as they are
        let mut gen = Gen { budget: 200, max_items: 2, ..Default::default() };
        *items_mut(l, g.st, &mut v, "runtime_markers") = (0..s.below(3)).map(|_| gen.structure(s, l, l.st("ModelMarker"))).collect();
    }
    let bad = if s.chance(1, 3) { spoil(s, &mut v, gbx, &sh) } else { None };
    let t = build(l, g, o, &v)?;
    let before = read(g, t.as_ref())?;
    let out = convert(names[0], names[1], t.as_ref())?;
    ensure!(read(g, t.as_ref())? == before, "conversion changed the source", "{}", names[0]);
    let checked = downcast_model(t.as_ref()).unwrap().check_indices();
    ensure_eq!(checked.is_ok(), out.is_ok(), "conversion and index check disagree", "{}: {bad:?}", names[0]);
    ctx.label(names[0]);
    let c = match (out, &bad) {
        (Err(e), Some(b)) => { ctx.label(&format!("refused: {b}")); ctx.nontrivial_s(&format!("{names:?}{before:?}")); ctx.sample(|| format!("{} with bad {b}: {e}", names[0])); return Ok(()) }
        (Err(e), None) => fail!("valid model refused", "{}: {e}", names[0]),
        (Ok(_), Some(b)) => fail!("bad index not refused", "{}: {b}", names[0]),
        (Ok(c), None) => c
    };
    ensure!(c.group() == tag_group(names[1]), "wrong group", "{}", c.group());
    let got = read(h, c.as_ref())?;
    let mut want = carry(l, g.st, h.st, &before);
    if sh.local {
        // vertices name nodes of the model instead of the part
        let (gst, pst, b) = (l.st("GBXModelGeometry"), l.st("GBXModelGeometryPart"), l.st("ModelGeometryPart"));
        let tables: Vec<Vec<u32>> = items(l, g.st, &before, "geometries").iter().flat_map(|x| items(l, gst, x, "parts")).map(|p| items(l, pst, p, "local_node_indices").iter().map(|x| bits(x)[0]).collect()).collect();
        for (p, tb) in parts_mut(&mut want, !gbx).into_iter().zip(tables) {
            let f = int(l, b, p, "flags") & !2; set_int(l, b, p, "flags", f);
            for x in items_mut(l, b, p, "uncompressed_vertices") { let V::St(x) = x else { panic!() }; for k in [5, 6] { let n = bits(&x[k])[0]; if n != 0xFFFF { x[k] = V::W(vec![tb[n as usize]]) } } }
        }
        ctx.label("local nodes");
    }
    ensure!(got == want, "shared content not kept", "{} to {}: {}", names[0], names[1], differ(h, &got, &want));
    ensure!(downcast_model(c.as_ref()).unwrap().check_indices().is_ok(), "converted model has bad indices", "{names:?}");
    // there and back
    let back = match convert(names[1], names[0], c.as_ref())? { Ok(b) => b, Err(e) => fail!("converted model cannot be converted back", "{names:?}: {e}") };
    let back = read(g, back.as_ref())?;
    if !sh.local {
        let want = carry(l, h.st, g.st, &carry(l, g.st, h.st, &before));
        ensure!(back == want, "converting there and back loses content", "{names:?}: {}", differ(g, &back, &want));
        if !gbx { ensure!(back == before, "converting there and back loses content", "{names:?}: {}", differ(g, &back, &before)) }
        ctx.label("there and back");
    }
    // both are saved as valid tags
    for (t, n) in [(t.as_ref(), names[0]), (c.as_ref(), names[1])] { if let Err(e) = t.to_tag_file() { fail!("converted model cannot be saved", "{n}: {e}") } }
    ctx.nontrivial_s(&format!("{names:?}{before:?}"));
    ctx.sample(|| format!("{} to {}: {} nodes, {} parts, local nodes {}", names[0], names[1], sh.nodes, parts_mut(&mut want, !gbx).len(), sh.local));
    Ok(())
}
/// Put one index out of bounds; says which.
pub fn spoil(s: &mut Src, v: &mut V, gbx: bool, sh: &Shape) -> Option<&'static str> {
    let l = layout();
    let g = l.group(if gbx { "gbxmodel" } else { "model" });
    let (nst, rst, pst, mst, bst, gst, gpst) = (l.st("ModelNode"), l.st("ModelRegion"), l.st("ModelRegionPermutation"), l.st("ModelRegionPermutationMarker"), l.st("ModelGeometryPart"), l.st("GBXModelGeometry"), l.st("GBXModelGeometryPart"));
    let mut over = |s: &mut Src, n: usize| if s.bool() { n as u32 } else { (n as u32 + s.u16() as u32).min(0xFFFE) };
    let mut last = |s: &mut Src, n: usize| s.usize(0, n - 1);
    match s.below(12) {
        0 => { let a = items_mut(l, g.st, v, "nodes"); if a.is_empty() { return None } let k = last(s, a.len()); let x = over(s, sh.nodes); let f = *s.pick(&["next_sibling_node_index", "first_child_node_index", "parent_node_index"]); set_int(l, nst, &mut a[k], f, x); Some("node index of a node") }
        1 | 2 => {
            let marker = s.bool();
            for r in items_mut(l, g.st, v, "regions") { for p in items_mut(l, rst, r, "permutations") {
                if marker { for m in items_mut(l, pst, p, "markers") { let x = over(s, sh.nodes); set_int(l, mst, m, "node_index", x); return Some("node index of a marker") } }
                else { let x = over(s, sh.geometries); let f = *s.pick(&["super_low", "low", "medium", "high", "super_high"]); set_int(l, pst, p, f, x); return Some("geometry index") }
            } }
            None
        }
        k => {
            let reach = sh.nodes;
            if sh.local && matches!(k, 3..=5) {
                for x in items_mut(l, g.st, v, "geometries") { for p in items_mut(l, gst, x, "parts") {
                    let n = int(l, gpst, p, "local_node_count");
                    match k {
                        3 => { set_int(l, gpst, p, "local_node_count", 23 + s.below(233) as u32); return Some("local node count") }
                        _ => {
                            let base = sub_mut(l, gpst, p, "model_geometry_part");
                            let Some(V::St(f)) = items_mut(l, bst, base, "uncompressed_vertices").last_mut() else { continue };
                            let which = 5 + s.below(2) as usize;
                            if k == 4 { f[which] = V::W(vec![(n + if s.bool() { 0 } else { s.below(300) as u32 }).min(0xFFFE)]); return Some("local node index of a vertex") }
                            if n == 0 || sh.nodes > 255 { continue }
                            f[which] = V::W(vec![0]);
                            items_mut(l, gpst, p, "local_node_indices")[0] = V::W(vec![s.range(sh.nodes as u64, 255) as u32]);
                            return Some("node index of a part")
                        }
                    }
                } }
                return None
            }
            let ps = parts_mut(v, gbx);
            if ps.is_empty() { return None }
            let i = last(s, ps.len());
            let p = ps.into_iter().nth(i).unwrap();
            match k {
                3 | 4 => { let f = set_int; let x = over(s, sh.shaders); f(l, bst, p, "shader_index", x); Some("shader index") }
                5 | 6 => { let x = over(s, sh.nodes); let f = *s.pick(&["centroid_primary_node", "centroid_secondary_node"]); set_int(l, bst, p, f, x); Some("centroid node index") }
                7 => { let f = int(l, bst, p, "flags") ^ 2; set_int(l, bst, p, "flags", f); Some("local node flag of a part") }
                8 | 9 if !sh.local => { let a = items_mut(l, bst, p, "uncompressed_vertices"); if a.is_empty() { return None } let k = last(s, a.len()); let x = over(s, reach); let V::St(f) = &mut a[k] else { panic!() }; f[5 + s.below(2) as usize] = V::W(vec![x]); Some("node index of a vertex") }
                10 | 11 => { let a = items_mut(l, bst, p, "compressed_vertices"); if a.is_empty() || reach > 83 { return None } let k = last(s, a.len()); let x = s.range(reach as u64, 83) as u32 * 3; let V::St(f) = &mut a[k] else { panic!() }; f[6 + s.below(2) as usize] = V::W(vec![x]); Some("node index of a packed vertex") }
                _ => None
            }
        }
    }
}
pub fn family<'a>(l: &'a Layout, mut g: &'a str, of: &str) -> bool { loop { if g == of { return true } match l.groups.iter().find(|x| x.name == g).and_then(|x| x.sup.as_deref()) { Some(s) => g = s, None => return false } } }
fn offered(l: &Layout, from: &str, to: &str) -> bool {
    from != to && match to { "model" => from == "gbxmodel", "gbxmodel" => from == "model", "scenery" => family(l, from, "object"), "garbage" | "weapon" | "equipment" => family(l, from, "item"), _ => false }
}
fn c20_objects(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let objects: Vec<&str> = l.groups.iter().map(|g| g.name.as_str()).filter(|g| family(l, g, "object")).collect();
    let from = objects[s.below(objects.len() as u64) as usize];
    let targets: Vec<&str> = ["scenery", "garbage", "weapon", "equipment"].into_iter().filter(|t| offered(l, from, t)).collect();
    if targets.is_empty() { return Ok(()) }
    let to = *s.pick(&targets);
    let ((_, g, o), (_, h, oh)) = (group_ops(from), group_ops(to));
    let mut gen = Gen { budget: *s.pick(&[1500i64, 400, 8000]), fill_unstored: s.bool(), max_items: *s.pick(&[2u64, 5]), ..Default::default() };
    let v = gen.structure(s, l, g.st);
    let t = build(l, g, o, &v)?;
    let before = read(g, t.as_ref())?;
    let c = match convert(from, to, t.as_ref())? { Ok(c) => c, Err(e) => fail!("object refused", "{from} to {to}: {e}") };
    ensure!(read(g, t.as_ref())? == before, "conversion changed the source", "{from}");
    ensure!(c.group() == tag_group(to), "wrong group", "{}", c.group());
    let got = read(h, c.as_ref())?;
    let mut want = read(h, (oh.default)().as_ref())?;
    let shared = if to == "scenery" { "Object" } else { "Item" };
    let path = |st: usize| -> String { let (p, _) = object_path(l, st).expect("object"); if shared == "Object" { p } else { p.rsplit_once('.').map(|x| x.0.to_string()).unwrap_or_default() } };
    let (a, b) = (path(g.st), path(h.st));
    let mut src = before.clone();
    let part = if a.is_empty() { src.clone() } else { at(l, g.st, &mut src, &a).clone() };
    *at(l, h.st, &mut want, &b) = part;
    ensure!(got == want, "shared content not kept", "{from} to {to}: {}", differ(h, &got, &want));
    ctx.label(&format!("to {to}"));
    ctx.nontrivial_s(&format!("{from}{to}{before:?}"));
    ctx.sample(|| format!("{from} to {to}: {} fields set", richness(l, g.st, &before)));
    Ok(())
}
fn c20_offered(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let n = l.groups.len() as u64;
    let k = s.cycle(n * n);
    let (a, b) = (&l.groups[(k / n) as usize].name, &l.groups[(k % n) as usize].name);
    let f = get_tag_conversion_fn(tag_group(a), tag_group(b));
    ensure_eq!(f.is_some(), offered(l, a, b), "conversion offered or not against the documentation", "{a} to {b}");
    if f.is_some() { ctx.nontrivial_s(&format!("{a}{b}")); ctx.label("offered"); ctx.sample(|| format!("{a} to {b} is offered")); }
    Ok(())
}

pub static C20: Check = Check {
    id: "C20", terminates: false,
    subs: &[Sub { name: "models", quick: 40_000, thorough: 1_500_000, run: c20_models }, Sub { name: "objects", quick: 16_000, thorough: 500_000, run: c20_objects }, Sub { name: "offered", quick: 14_400, thorough: 7_200, run: c20_offered }],
    rule: "A case is one generated model (0-60 nodes, parts with vertices in either or both forms, local nodes) converted to the other format and back, or the same with one index out of bounds; one object tag converted; or one pair of groups (all pairs). Non-trivial: a model with content, any object, an offered pair; distinct by value.",
    assumptions: &["fields are shared when they have the same name in both formats; the indices of runtime markers are not among those checked"],
};
pub static C21: Check = Check {
    id: "C21", terminates: false,
    subs: &[Sub { name: "models", quick: 20_000, thorough: 1_500_000, run: c21_model }, Sub { name: "levels", quick: 20_000, thorough: 1_500_000, run: c21_level }],
    rule: "A case is one model or level with vertices in the full form, the packed form, both or neither, put through one of the regenerating functions twice. Non-trivial: at least one vertex; distinct by content.",
    assumptions: &["directions and packed texture coordinates are finite; vertex weights lie in 0..1", "packed components mean v/(m-1) for v < m and (v-2m)/m otherwise, m half of their range"],
};
