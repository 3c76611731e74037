//! C01-C04: tag files.
use crate::engine::*;
use crate::gen_table::{GroupOps, OPS};
use crate::layout::*;
use crate::value::*;
use ringhopper_primitives::crc32::CRC32;
use ringhopper_primitives::primitive::TagReference;
use ringhopper_primitives::tag::*;
use ringhopper_primitives::error::Error;
use ringhopper_structs::read_any_tag_from_file_buffer as read_any;

pub fn pick_group(s: &mut Src) -> (usize, &'static GroupDef, &'static GroupOps) {
    let l = layout();
    let i = s.below(l.groups.len() as u64) as usize;
    assert_eq!(OPS[i].name, l.groups[i].name);
    (i, &l.groups[i], &OPS[i])
}
pub fn gen_settings(s: &mut Src) -> Gen {
    let budget = *s.pick(&[1500i64, 400, 6000, 30000]);
    Gen { budget, max_items: *s.pick(&[3u64, 2, 6, 40]), ..Default::default() }
}
pub fn build(l: &Layout, g: &GroupDef, o: &GroupOps, v: &V) -> Result<Box<dyn PrimaryTagStructDyn>, Fail> {
    let mut t = (o.default)();
    set_struct(l, g.st, v, t.as_mut_dynamic(), &g.name).map_err(|e| Fail::new("field cannot be set by name", e))?;
    Ok(t)
}
fn values(l: &Layout, g: &GroupDef, t: &dyn PrimaryTagStructDyn) -> Result<V, Fail> {
    get_struct(l, g.st, t.as_dynamic(), &g.name).map_err(|e| Fail::new("field cannot be read by name", e))
}
fn same(l: &Layout, g: &GroupDef, got: &V, want: &V, sig: &str, what: &str) -> R {
    ensure!(got == want, sig, "{what}: {}", first_diff(l, g.st, got, want, &g.name).unwrap_or("values differ".into()));
    Ok(())
}
fn note(ctx: &mut Ctx, l: &Layout, g: &GroupDef, v: &V, bytes: &[u8]) {
    let r = richness(l, g.st, v);
    if r >= 3 { ctx.nontrivial_b(bytes); ctx.label(&format!("group {}", g.name)); }
    ctx.label(if r == 0 { "empty tag" } else if r < 3 { "1-2 fields set" } else if r < 30 { "3-29 fields set" } else { "30+ fields set" });
    ctx.sample(|| format!("{} tag, {} fields/items set, {} bytes", g.name, r, bytes.len()));
}
fn ctx_err<T>(r: Result<T, Error>, sig: &str, what: &str) -> Result<T, Fail> { r.map_err(|e| Fail::new(sig, format!("{what}: {e}"))) }

// ------------------------------------------------------------------ C01
fn c01_save_reload(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let (_, g, o) = pick_group(s);
    let mut gen = gen_settings(s);
    gen.fill_unstored = s.chance(1, 4);
    gen.nan = s.chance(1, 4);
    let v = gen.structure(s, l, g.st);
    save_reload(ctx, l, g, o, v, gen.nan)
}
fn c01_large(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let (_, g, o) = pick_group(s);
    let mut v = Gen { budget: 600, ..Default::default() }.structure(s, l, g.st);
    let bytes = *s.pick(&[1usize << 20, 1 << 22, 1 << 25]);
    let what = enlarge(s, l, g.st, &mut v, bytes, &[]);
    ctx.label(if what.ends_with("items") { "long list" } else { "large data" });
    ctx.sample(|| format!("{}{what}", g.name));
    save_reload(ctx, l, g, o, v, false)
}
fn save_reload(ctx: &mut Ctx, l: &'static Layout, g: &'static GroupDef, o: &'static GroupOps, v: V, nan: bool) -> R {
    let t = build(l, g, o, &v)?;
    let before = values(l, g, t.as_ref())?;
    let b1 = ctx_err(t.to_tag_file(), "valid tag not written", &g.name)?;
    same(l, g, &values(l, g, t.as_ref())?, &before, "writing changes the tag", "tag after writing")?;
    note(ctx, l, g, &v, &b1);
    let typed = ctx_err((o.read)(&b1, ParseStrictness::Strict), "own file not read back", &format!("{} typed", g.name))?;
    let any = ctx_err(read_any(&b1, ParseStrictness::Strict), "own file not read back", &format!("{} any", g.name))?;
    let relaxed = ctx_err(read_any(&b1, ParseStrictness::Relaxed), "own file not read back", &format!("{} relaxed", g.name))?;
    ensure!(any.group() == typed.group() && group_name(any.group()) == g.name, "reader returns another group", "{} became {}", g.name, group_name(any.group()));
    let want = canon_struct(l, g.st, &before);
    for (name, r) in [("typed", &typed), ("any", &any), ("relaxed", &relaxed)] {
        same(l, g, &values(l, g, r.as_ref())?, &want, "reloaded tag differs", &format!("{name} reader"))?;
        let b2 = ctx_err(r.to_tag_file(), "reloaded tag not written", &g.name)?;
        ensure!(b2 == b1, "rewriting gives other bytes", "{}: {} vs {} bytes, first difference at {:?}", g.name, b2.len(), b1.len(), b1.iter().zip(&b2).position(|(a, b)| a != b));
    }
    if !nan {
        ensure!((o.eq)(typed.as_ref(), any.as_ref()), "readers disagree", "{}", g.name);
        ensure!((o.eq)(any.clone_inner().as_ref(), any.as_ref()), "clone differs", "{}", g.name);
        if before == want { ensure!((o.eq)(t.as_ref(), typed.as_ref()), "reloaded tag not equal", "{}: field values agree but == says they differ", g.name); ctx.label("compared with =="); }
    }
    Ok(())
}
fn c01_foreign(s: &mut Src, ctx: &mut Ctx) -> R {
    // a file written by something else: junk padding, out-of-range enums, undefined flags, cache-only data
    let l = layout();
    let (_, g, o) = pick_group(s);
    let mut gen = gen_settings(s);
    gen.raw = true;
    let v = gen.structure(s, l, g.st);
    let body = encode_body(l, g.st, &v, if s.bool() { Some(s.u64()) } else { None });
    let file = with_header(g.fourcc, g.version, &body);
    note(ctx, l, g, &v, &file);
    let t1 = match (o.read)(&file, ParseStrictness::Strict) { Ok(t) => t, Err(e) => { if has_unknown_group(l, g.st, &v) { ctx.label("refused: unknown group code"); return Ok(()) } fail!("well-formed file refused", "{}: {e}", g.name) } };
    let v1 = values(l, g, t1.as_ref())?;
    let w1 = ctx_err(t1.to_tag_file(), "tag read from file not written", &g.name)?;
    let t2 = ctx_err(read_any(&w1, ParseStrictness::Strict), "own file not read back", &g.name)?;
    same(l, g, &values(l, g, t2.as_ref())?, &canon_struct(l, g.st, &v1), "not stable after the first load", &g.name)?;
    let w2 = ctx_err(t2.to_tag_file(), "tag read from file not written", &g.name)?;
    ensure!(w1 == w2, "bytes not stable after the first save", "{}: first difference at {:?}", g.name, w1.iter().zip(&w2).position(|(a, b)| a != b));
    Ok(())
}
/// a TagGroup-typed field holding an unknown code is an error by design
fn has_unknown_group(l: &Layout, st: usize, v: &V) -> bool {
    let V::St(vs) = v else { return false };
    l.structs[st].fields.iter().zip(vs).any(|(f, v)| {
        let one = |v: &V| match (&f.ty, v) {
            (Ty::Prim { unit: Scalar::Group, .. }, V::W(w)) => w.iter().any(|g| l.group_of_fourcc(*g).is_none()),
            (Ty::Struct(i), _) => has_unknown_group(l, *i, v),
            (Ty::Refl(i), V::Refl(a)) => a.iter().any(|x| has_unknown_group(l, *i, x)),
            _ => false
        };
        match v { V::Arr(a) => a.iter().any(one), _ => one(v) }
    })
}
pub static C01: Check = Check {
    id: "C01", terminates: false,
    subs: &[Sub { name: "save_reload", quick: 168_000, thorough: 900_000, run: c01_save_reload }, Sub { name: "foreign", quick: 96_000, thorough: 500_000, run: c01_foreign }, Sub { name: "large", quick: 300, thorough: 20_000, run: c01_large }],
    rule: "A case is one tag of a random group with randomly filled fields (fields, lists up to 40 items, raw data, references, strings), saved and reloaded; large: one list of up to 80,000 items or one piece of data of up to 16 MiB. Non-trivial: at least 3 fields or list items differ from a blank tag; distinct by file bytes.",
    assumptions: &["field names and types are those of the layout snapshot harness/data/layout.json"],
};

// ------------------------------------------------------------------ C02
fn c02_read(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let (_, g, o) = pick_group(s);
    let mut gen = gen_settings(s);
    gen.raw = s.bool();
    gen.nan = true;
    let v = gen.structure(s, l, g.st);
    c02_read_one(s, ctx, l, g, o, v)
}
fn c02_read_one(s: &mut Src, ctx: &mut Ctx, l: &'static Layout, g: &'static GroupDef, o: &'static GroupOps, v: V) -> R {
    let noise = if s.bool() { Some(s.u64()) } else { None };
    let file = with_header(g.fourcc, g.version, &encode_body(l, g.st, &v, noise));
    note(ctx, l, g, &v, &file);
    let any = s.bool();
    let r = if any { read_any(&file, ParseStrictness::Strict) } else { (o.read)(&file, ParseStrictness::Strict) };
    let t = match r { Ok(t) => t, Err(e) => { fail!("reference file refused", "{}: {e}", g.name) } };
    same(l, g, &values(l, g, t.as_ref())?, &canon_struct(l, g.st, &v), "field holds another value than the file", "read/file")
}
fn c02_write(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let (_, g, o) = pick_group(s);
    let mut gen = gen_settings(s);
    gen.nan = true;
    gen.fill_unstored = s.chance(1, 4);
    let v = gen.structure(s, l, g.st);
    c02_write_one(ctx, l, g, o, v)
}
fn c02_large(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let (_, g, o) = pick_group(s);
    let mut v = Gen { budget: 600, ..Default::default() }.structure(s, l, g.st);
    let bytes = *s.pick(&[1usize << 20, 1 << 22, 1 << 25]);
    let what = enlarge(s, l, g.st, &mut v, bytes, &[]);
    ctx.label(if what.ends_with("items") { "long list" } else { "large data" });
    ctx.sample(|| format!("{}{what}", g.name));
    if s.bool() { c02_read_one(s, ctx, l, g, o, v) } else { c02_write_one(ctx, l, g, o, v) }
}
fn c02_write_one(ctx: &mut Ctx, l: &'static Layout, g: &'static GroupDef, o: &'static GroupOps, v: V) -> R {
    let t = build(l, g, o, &v)?;
    let got = ctx_err(t.to_tag_file(), "valid tag not written", &g.name)?;
    let want = encode_tag(l, g, &canon_struct(l, g.st, &v));
    note(ctx, l, g, &v, &want);
    if got != want {
        let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        let place = l.structs[g.st].fields.iter().find(|f| at >= 0x40 && f.off <= at - 0x40 && at - 0x40 < f.off + f.size).map(|f| f.name.clone()).unwrap_or(if at < 0x40 { "file header".into() } else { "appended data".into() });
        fail!("file bytes differ from the layout", "{}: {} bytes, expected {}, first difference at 0x{at:X} ({place}): {:02x?} expected {:02x?}", g.name, got.len(), want.len(), &got[at..got.len().min(at + 8)], &want[at..want.len().min(at + 8)])
    }
    Ok(())
}
/// Every field of every group in turn, alone, with every byte of it distinct.
fn c02_fields(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    static ALL: std::sync::OnceLock<Vec<(usize, Vec<usize>)>> = std::sync::OnceLock::new();
    let all = ALL.get_or_init(|| {
        fn walk(l: &Layout, st: usize, g: usize, path: &mut Vec<usize>, out: &mut Vec<(usize, Vec<usize>)>) {
            for (i, f) in l.structs[st].fields.iter().enumerate() {
                if matches!(f.ty, Ty::Pad(_)) || f.exclude { continue }
                path.push(i);
                match &f.ty { Ty::Struct(k) => walk(l, *k, g, path, out), Ty::Refl(k) => { out.push((g, path.clone())); walk(l, *k, g, path, out) } _ => out.push((g, path.clone())) }
                path.pop();
            }
        }
        let mut out = vec![];
        for (gi, g) in l.groups.iter().enumerate() { walk(l, g.st, gi, &mut vec![], &mut out) }
        out
    });
    let (gi, path) = &all[s.cycle(all.len() as u64) as usize];
    let (g, o) = (&l.groups[*gi], &OPS[*gi]);
    fn put(l: &Layout, st: usize, path: &[usize], s: &mut Src) -> V {
        let V::St(mut vs) = default_struct(l, st) else { unreachable!() };
        let f = &l.structs[st].fields[path[0]];
        let mut gen = Gen { nan: true, fill_unstored: true, ..Default::default() };
        vs[path[0]] = if path.len() == 1 {
            match &f.ty { Ty::Refl(k) => V::Refl((0..s.usize(1, 3)).map(|_| default_struct(l, *k)).collect()), _ => gen.field(s, l, f) }
        } else {
            let (Ty::Struct(k) | Ty::Refl(k)) = f.ty else { unreachable!() };
            let inner = put(l, k, &path[1..], s);
            match (&f.ty, f.count) { (Ty::Refl(_), _) => V::Refl(vec![inner]), (_, Count::One) => inner, (_, Count::Bounds) => V::Arr(vec![inner.clone(), inner]), (_, Count::Array(n)) => V::Arr(vec![inner; n]) }
        };
        V::St(vs)
    }
    let v = put(l, g.st, path, s);
    let t = build(l, g, o, &v)?;
    let got = ctx_err(t.to_tag_file(), "valid tag not written", &g.name)?;
    let canon = canon_struct(l, g.st, &v);
    let want = encode_tag(l, g, &canon);
    ctx.nontrivial_b(&want);
    ctx.label("single field");
    ctx.sample(|| format!("{} field #{path:?}", g.name));
    ensure!(got == want, "file bytes differ from the layout", "{} with only field path {path:?} set: first difference at {:?}", g.name, got.iter().zip(&want).position(|(a, b)| a != b));
    let r = ctx_err(read_any(&encode_tag(l, g, &v), ParseStrictness::Strict), "reference file refused", &g.name)?;
    same(l, g, &values(l, g, r.as_ref())?, &canon, "field holds another value than the file", "read/file")
}
pub static C02: Check = Check {
    id: "C02", terminates: false,
    subs: &[Sub { name: "read", quick: 120_000, thorough: 800_000, run: c02_read }, Sub { name: "write", quick: 120_000, thorough: 800_000, run: c02_write }, Sub { name: "each_field", quick: 240_000, thorough: 400_000, run: c02_fields }, Sub { name: "large", quick: 600, thorough: 20_000, run: c02_large }],
    rule: "A case is one tag of a random group; an independent interpreter of the layout snapshot encodes it (bytes without meaning randomised) or predicts the bytes the writer must produce. Sub-check each_field goes through every field of every group in turn; large: one list of up to 80,000 items or one piece of data of up to 16 MiB, at and around the limits of counters. Non-trivial: at least 3 fields or items set (each_field: all); distinct by file bytes.",
    assumptions: &["the layout snapshot harness/data/layout.json states the published layout; it was taken from the definitions at the base commit"],
};

// ------------------------------------------------------------------ C03
fn c03_damage(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let (_, g, o) = pick_group(s);
    let mut gen = gen_settings(s);
    gen.budget = gen.budget.min(6000);
    let v = gen.structure(s, l, g.st);
    let file = encode_tag(l, g, &v);
    let n = file.len();
    let mut bad = file.clone();
    let kind = s.below(12);
    // (label, refused even in relaxed mode)
    let (label, relaxed_refuses): (&str, Option<bool>) = match kind {
        0 => { let i = s.usize(0x40, n - 1); bad[i] ^= 1 << s.below(8); ("one bit", None) }
        1 => { let i = s.usize(0x40, n - 1); bad[i] ^= s.range(1, 255) as u8; ("one byte", None) }
        2 => { let i = s.usize(0x40, n - 1); let k = s.usize(1, 4).min(n - i); for b in &mut bad[i..i + k] { *b ^= s.range(1, 255) as u8 } ("short burst", None) }
        3 => { let i = s.usize(0x40, n - 1); let k = s.usize(1, n - i); for b in &mut bad[i..i + k] { *b = s.u8() } if bad == file { return Ok(()) } ("overwritten range", None) }
        4 => { let cut = s.usize(1, (n - 0x40).min(64)); bad.truncate(n - cut); ("truncated", Some(true)) }
        5 => { let cut = s.usize(0x40, n - 1); bad.truncate(cut); ("cut short", Some(true)) }
        6 => { let k = s.usize(1, 64); for _ in 0..k { bad.push(s.u8()) } ("extended", Some(true)) }
        7 => { let (a, b) = (s.usize(0x40, n - 1), s.usize(0x40, n - 1)); if bad[a] == bad[b] { return Ok(()) } bad.swap(a, b); ("two bytes swapped", None) }
        8 => { let x = s.range(1, u32::MAX as u64) as u32; let c = u32::from_be_bytes(file[0x28..0x2C].try_into().unwrap()) ^ x; if c == u32::MAX { return Ok(()) } bad[0x28..0x2C].copy_from_slice(&c.to_be_bytes()); ("checksum altered", Some(false)) }
        9 => { let x = s.range(1, 0xFFFF) as u16; let c = g.version ^ x; bad[0x38..0x3A].copy_from_slice(&c.to_be_bytes()); ("other version", Some(true)) }
        10 => {
            let at = *s.pick(&[0x2Cusize, 0x3A, 0x3C]);
            let len = if at == 0x3A { 2 } else { 4 };
            let i = s.usize(0, len - 1); bad[at + i] ^= s.range(1, 255) as u8;
            ("header magic, size or constant", Some(true))
        }
        _ => {
            // another group: the typed reader refuses it always
            let other = &l.groups[s.below(l.groups.len() as u64) as usize];
            let f = if s.bool() { other.fourcc } else { let f = s.u32_edge(); f };
            if f == g.fourcc { return Ok(()) }
            bad[0x24..0x28].copy_from_slice(&f.to_be_bytes());
            ctx.label("other group");
            ctx.nontrivial_b(&bad);
            for st in [ParseStrictness::Strict, ParseStrictness::Relaxed] {
                ensure!((o.read)(&bad, st).is_err(), "file of another group accepted", "{} file with group code {f:08x} accepted by the {} reader", g.name, g.name);
                match read_any(&bad, st) { Ok(t) => { let got = l.fourcc_of[group_name(t.group())]; ensure!(l.group_of_fourcc(f).is_some() && got == f, "file of another group accepted", "group code {f:08x} read as {}", group_name(t.group())) } Err(_) => () }
            }
            return Ok(())
        }
    };
    ctx.label(label);
    ctx.nontrivial_b(&bad);
    ctx.sample(|| format!("{} file of {n} bytes, {label}", g.name));
    let good = ctx_err((o.read)(&file, ParseStrictness::Strict), "intact file refused", &g.name)?;
    ensure!((o.read)(&bad, ParseStrictness::Strict).is_err(), &format!("strict reader accepts: {label}"), "{} ({n} bytes), typed reader", g.name);
    ensure!(read_any(&bad, ParseStrictness::Strict).is_err(), &format!("strict reader accepts: {label}"), "{} ({n} bytes), any reader", g.name);
    match relaxed_refuses {
        Some(true) => {
            ensure!((o.read)(&bad, ParseStrictness::Relaxed).is_err(), &format!("relaxed reader accepts: {label}"), "{} ({n} bytes), typed reader", g.name);
            ensure!(read_any(&bad, ParseStrictness::Relaxed).is_err(), &format!("relaxed reader accepts: {label}"), "{} ({n} bytes), any reader", g.name);
        }
        Some(false) => {
            let want = values(l, g, good.as_ref())?;
            for t in [(o.read)(&bad, ParseStrictness::Relaxed), read_any(&bad, ParseStrictness::Relaxed)] {
                let t = ctx_err(t, "relaxed reader refuses an intact body", &g.name)?;
                same(l, g, &values(l, g, t.as_ref())?, &want, "relaxed reader reads an intact body differently", &g.name)?;
            }
        }
        None => ()
    }
    Ok(())
}
fn c03_unchecked(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let (_, g, o) = pick_group(s);
    let mut gen = gen_settings(s);
    let v = gen.structure(s, l, g.st);
    let mut file = encode_tag(l, g, &v);
    file[0x28..0x2C].copy_from_slice(&[0xFF; 4]);
    ctx.nontrivial_b(&file);
    ctx.label("no checksum stored");
    let want = canon_struct(l, g.st, &v);
    for st in [ParseStrictness::Strict, ParseStrictness::Relaxed] {
        for t in [(o.read)(&file, st), read_any(&file, st)] {
            let t = ctx_err(t, "file without checksum refused", &g.name)?;
            same(l, g, &values(l, g, t.as_ref())?, &want, "file without checksum read differently", &g.name)?;
        }
    }
    let (h, body) = ctx_err(TagFile::load_header_and_data(&file, ParseStrictness::Strict), "file without checksum refused", &g.name)?;
    ensure!(body == &file[0x40..] && h.version == g.version && group_name(h.group) == g.name && h.crc32 == u32::MAX, "header values wrong", "{}", g.name);
    Ok(())
}
fn c03_crc(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = match s.below(4) { 0 => s.usize(0, 8), 1 => s.usize(0, 64), _ => s.usize(0, 2000) };
    let data = match s.below(4) { 0 => vec![0u8; n], 1 => vec![0xFF; n], _ => s.bytes(n) };
    let mut c = CRC32::new();
    let mut at = 0;
    let mut parts = 0;
    while at < n { let k = s.usize(0, n - at); c.update(&data[at..at + k]); at += k; parts += 1; if parts > 20 { c.update(&data[at..]); break } }
    let want = crc32(&data);
    ctx.nontrivial_b(&data);
    ctx.label(if n == 0 { "empty" } else { "some" });
    ensure_eq!(c.crc(), want, "checksum differs from the reference", "CRC32 of {n} bytes in {parts} parts");
    let mut d = CRC32::new();
    for b in &data { d.update(std::slice::from_ref(b)); }
    ensure_eq!(d.crc(), want, "checksum differs from the reference", "CRC32 of {n} bytes one at a time");
    Ok(())
}
pub static C03: Check = Check {
    id: "C03", terminates: false,
    subs: &[Sub { name: "damage", quick: 480_000, thorough: 2_000_000, run: c03_damage }, Sub { name: "unchecked", quick: 36_000, thorough: 100_000, run: c03_unchecked }, Sub { name: "checksum", quick: 240_000, thorough: 500_000, run: c03_crc }],
    rule: "A case is one valid tag file of a random group with one injected fault (bit, byte, burst, range, swap, truncation, extension, header field) read in both strictness modes by both readers, or a byte string whose checksum is computed in random chunks. Non-trivial: the fault really changes the file; distinct by damaged bytes.",
    assumptions: &["two different bodies colliding in CRC32 under a random non-burst fault has probability 2^-32 per case"],
};

// ------------------------------------------------------------------ C04
fn accept_stable(l: &Layout, file: &[u8], strict: ParseStrictness, gi: Option<usize>, ctx: &mut Ctx) -> R {
    let limit = (4 << 20) + file.len() * 64;
    let r = alloc_bounded(limit, || no_panic(|| read_any(file, strict)))??;
    let typed = match gi { Some(i) => Some(alloc_bounded(limit, || no_panic(|| (OPS[i].read)(file, strict)))??), None => None };
    let t = match r { Ok(t) => t, Err(e) => { let _ = no_panic(|| e.to_string())?; ctx.label("refused"); return Ok(()) } };
    ctx.label("accepted");
    let g = l.group(group_name(t.group()));
    if let (Some(Ok(ty)), true) = (&typed, true) { same(l, g, &values(l, g, ty.as_ref())?, &values(l, g, t.as_ref())?, "readers disagree", "typed/any")?; }
    let v1 = values(l, g, t.as_ref())?;
    let w1 = no_panic(|| t.to_tag_file())?;
    let w1 = ctx_err(w1, "accepted tag cannot be written", &g.name)?;
    let t2 = ctx_err(no_panic(|| read_any(&w1, ParseStrictness::Strict))?, "accepted tag cannot be reread", &g.name)?;
    same(l, g, &values(l, g, t2.as_ref())?, &v1, "accepted tag rereads differently", &g.name)?;
    ensure!(t2.to_tag_file().map_err(|e| Fail::new("accepted tag cannot be written", e.to_string()))? == w1, "accepted tag rewrites differently", "{}", g.name);
    Ok(())
}
pub fn mutate(s: &mut Src, file: &mut Vec<u8>) -> usize {
    let n = s.usize(1, 4);
    for _ in 0..n {
        if file.is_empty() { return n }
        let len = file.len();
        let at = if s.chance(1, 12) { s.usize(0, len - 1) } else { s.usize(0x40.min(len - 1), len - 1) };
        match s.below(9) {
            0 => file[at] = s.u8(),
            1 => file[at] ^= 1 << s.below(8),
            2 | 3 | 4 => { let a = at & !3; let v = match s.below(4) { 0 => s.u32_edge(), 1 => s.below(64) as u32, 2 => (len as u64).saturating_sub(s.below(128)) as u32, _ => *s.pick(&[0xFFFF_FFFF, 0x7FFF_FFFF, 0x8000_0000, 0x4000_0000, 0x2AAA_AAAA, 0x1555_5556, 0x0100_0000, 0x00FF_FFFF, 0x10_0000]) }; if a + 4 <= len { file[a..a + 4].copy_from_slice(&v.to_be_bytes()) } }
            5 => { let k = s.usize(1, 40).min(len - at); file.drain(at..at + k); }
            6 => { let k = s.usize(1, 40); let b = s.bytes(k); file.splice(at..at, b); }
            7 => { let k = s.usize(1, 64).min(len - at); let b = file[at..at + k].to_vec(); let to = s.usize(0x40.min(len - 1), len); file.splice(to..to, b); }
            _ => file.truncate(at)
        }
    }
    n
}
fn reseal(s: &mut Src, file: &mut [u8]) {
    if file.len() < 0x40 { return }
    let c = match s.below(4) { 0 => u32::MAX, 1 => return, _ => crc32(&file[0x40..]) };
    file[0x28..0x2C].copy_from_slice(&c.to_be_bytes());
}
fn c04_mutated(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let (gi, g, _) = pick_group(s);
    let mut gen = gen_settings(s);
    gen.budget = gen.budget.min(3000);
    gen.raw = true; gen.nan = true;
    let v = gen.structure(s, l, g.st);
    let noise = s.u64();
    let mut file = with_header(g.fourcc, g.version, &encode_body(l, g.st, &v, Some(noise)));
    mutate(s, &mut file);
    reseal(s, &mut file);
    ctx.nontrivial_b(&file);
    ctx.sample(|| format!("mutated {} file, {} bytes", g.name, file.len()));
    let strict = if s.bool() { ParseStrictness::Strict } else { ParseStrictness::Relaxed };
    accept_stable(l, &file, strict, Some(gi), ctx)
}
/// Changes only the counts, lengths and codes the reader follows.
fn c04_lengths(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let (gi, g, _) = pick_group(s);
    let mut gen = gen_settings(s);
    gen.budget = gen.budget.min(3000); gen.raw = true;
    let v = gen.structure(s, l, g.st);
    let mut body = encode_body(l, g.st, &v, None);
    // offsets of lengths in the main struct and in list items that directly follow it
    let mut at: Vec<(usize, u8)> = vec![];
    fn find(l: &Layout, st: usize, base: usize, out: &mut Vec<(usize, u8)>) {
        for f in &l.structs[st].fields { let n = match f.count { Count::One => 1, Count::Bounds => 2, Count::Array(n) => n }; let sz = f.size / n.max(1); for k in 0..n { let p = base + f.off + k * sz; match &f.ty { Ty::Struct(i) => find(l, *i, p, out), Ty::Refl(_) | Ty::Data(_) => out.push((p, 0)), Ty::Ref(_) => { out.push((p + 8, 0)); out.push((p, 1)) }, Ty::Prim { unit: Scalar::Group, .. } => out.push((p, 1)), Ty::Str32 => out.push((p, 2)), _ => () } } }
    }
    find(l, g.st, 0, &mut at);
    if at.is_empty() { at.push((0, 0)) }
    for _ in 0..s.usize(1, 3) {
        let (p, k) = *s.pick(&at);
        let v = match k { 1 => match s.below(3) { 0 => u32::MAX, 1 => s.u32(), _ => l.groups[s.below(l.groups.len() as u64) as usize].fourcc }, _ => match s.below(5) { 0 => s.u32_edge(), 1 => s.below(64) as u32, 2 => (body.len() as u64).saturating_sub(s.below(256)) as u32, 3 => u32::MAX - s.below(64) as u32, _ => (u32::MAX / s.range(1, 600) as u32).wrapping_add(s.below(3) as u32) } };
        if p + 4 <= body.len() { body[p..p + 4].copy_from_slice(&v.to_be_bytes()) }
    }
    if s.bool() { let k = s.usize(0, 80); let b = s.bytes(k); body.extend(b) }
    let file = with_header(g.fourcc, g.version, &body);
    ctx.nontrivial_b(&file);
    ctx.sample(|| format!("{} file with altered lengths, {} bytes", g.name, file.len()));
    accept_stable(l, &file, ParseStrictness::Strict, Some(gi), ctx)
}
fn c04_random(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let (gi, g, _) = pick_group(s);
    let file = match s.below(4) {
        0 => { let n = s.usize(0, 0x80); s.bytes(n) }
        1 => { let n = s.usize(0, 0x50); let mut f = with_header(g.fourcc, g.version, &vec![0; l.structs[g.st].size]); f.truncate(n); f }
        2 => { let n = l.structs[g.st].size + s.usize(0, 200); let mut body = s.bytes(n); let z = s.usize(0, n); for b in &mut body[..z] { if *b < 230 { *b = 0 } } with_header(g.fourcc, g.version, &body) }
        _ => { let n = s.usize(0, l.structs[g.st].size + 300); let mut body = s.bytes(n); for b in &mut body { if *b < 200 { *b = 0 } } with_header(g.fourcc, g.version, &body) }
    };
    ctx.nontrivial_b(&file);
    let strict = if s.bool() { ParseStrictness::Strict } else { ParseStrictness::Relaxed };
    accept_stable(l, &file, strict, Some(gi), ctx)
}
/// References inside tag files may hold any bytes as a path.
fn c04_references(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let g = l.group("tag_collection");
    let n = s.usize(1, 3);
    let mut paths: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        let p: Vec<u8> = match s.below(8) {
            0 => gen_path(s).into_bytes(),
            1 => { let k = s.usize(1, 12); s.bytes(k) }
            2 => { let k = s.usize(1, 8); (0..k).flat_map(|_| s.pick(&["..", ".", "\\", "/", "a", "C:", "con", "weapons", "\0", " ", "\u{212A}", "é", "A", "\\\\", "nul"]).bytes()).collect() }
            3 => gen_path(s).to_uppercase().into_bytes(),
            4 => gen_path(s).replace('\\', "/").into_bytes(),
            5 => { let mut b = gen_path(s).into_bytes(); let i = s.usize(0, b.len() - 1); b[i] = s.u8(); b }
            6 => vec![],
            _ => { let mut b = gen_path(s).into_bytes(); let i = s.usize(0, b.len()); b.insert(i, *s.pick(&[0u8, b'/', b'\\', b'.', b':', 0xFF, 0xC3, b'*', b'?', b'<', b'|'])); b }
        };
        paths.push(p);
    }
    let mut body = vec![0u8; l.structs[g.st].size];
    body[0..4].copy_from_slice(&(n as u32).to_be_bytes());
    for p in &paths { let f = l.groups[s.below(l.groups.len() as u64) as usize].fourcc; body.extend(f.to_be_bytes()); body.extend([0; 4]); body.extend((p.len() as u32).to_be_bytes()); body.extend([0xFF; 4]); }
    for p in &paths { if !p.is_empty() { body.extend(p); body.push(0) } }
    let file = with_header(g.fourcc, g.version, &body);
    ctx.nontrivial_b(&file);
    ctx.sample(|| format!("tag_collection listing {:?}", paths.iter().map(|p| String::from_utf8_lossy(p).to_string()).collect::<Vec<_>>()));
    accept_stable(l, &file, ParseStrictness::Strict, Some(l.group_by_name["tag_collection"]), ctx)?;
    // whatever was accepted is a path TagPath itself accepts unchanged
    if let Ok(t) = read_any(&file, ParseStrictness::Strict) {
        let tc = t.get_ref::<ringhopper_structs::TagCollection>().unwrap();
        for i in &tc.tags.items { if let TagReference::Set(p) = &i.reference {
            let again = ringhopper_primitives::primitive::TagPath::new(p.path(), p.group());
            ensure!(again.as_ref().ok() == Some(p), "tag file smuggles a path that is not a valid tag path", "{:?} was accepted from a tag file, TagPath::new gives {:?}", p.path(), again.map(|p| p.path().to_string()).map_err(|e| e.to_string()));
        } }
    }
    Ok(())
}
pub static C04: Check = Check {
    id: "C04", terminates: true,
    subs: &[Sub { name: "mutated", quick: 360_000, thorough: 2_000_000, run: c04_mutated }, Sub { name: "lengths", quick: 480_000, thorough: 2_000_000, run: c04_lengths }, Sub { name: "random", quick: 360_000, thorough: 1_000_000, run: c04_random }, Sub { name: "references", quick: 360_000, thorough: 1_000_000, run: c04_references }],
    rule: "A case is one byte string read as a tag file by both readers: a valid file of a random group with mutations and a resealed checksum, with altered counts/lengths/codes, random bytes under a valid header, or tag references with arbitrary path bytes. All cases count as non-trivial; distinct by bytes.",
    assumptions: &["allocation limit per request: 4 MiB + 64 bytes per input byte"],
};
