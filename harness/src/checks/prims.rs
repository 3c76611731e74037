//! C06 (codes), C07 (numbers), C08 (strings).
use crate::engine::*;
use crate::layout::*;
use crate::value::*;
use byteorder::{BigEndian, ByteOrder, LittleEndian};
use ringhopper_primitives::parse::*;
use ringhopper_primitives::primitive::*;

// ------------------------------------------------------------------ C07
/// One type: its name, the widths of its stored pieces, and the pieces as raw bits.
trait Piece: SimpleTagData { const W: &'static [usize]; const NAME: &'static str; fn bits(&self) -> Vec<u64>; fn canon(i: usize, b: u64) -> u64 { let _ = i; b } }
fn f(x: f64) -> u64 { (x as f32).to_bits() as u64 }
/// floats keep their value; a signalling NaN may become quiet
fn cf(b: u64) -> u64 { if f32::from_bits(b as u32).is_nan() { b | 0x0040_0000 } else { b } }
macro_rules! piece { ($t:ty, $w:expr, |$s:ident| $b:expr) => { impl Piece for $t { const W: &'static [usize] = &$w; const NAME: &'static str = stringify!($t); fn bits(&self) -> Vec<u64> { let $s = self; $b } } };
                     ($t:ty, $w:expr, |$s:ident| $b:expr, $c:expr) => { impl Piece for $t { const W: &'static [usize] = &$w; const NAME: &'static str = stringify!($t); fn bits(&self) -> Vec<u64> { let $s = self; $b } fn canon(i: usize, b: u64) -> u64 { ($c)(i, b) } } } }
piece!(u8, [1], |s| vec![*s as u64]);
piece!(i8, [1], |s| vec![*s as u8 as u64]);
piece!(u16, [2], |s| vec![*s as u64]);
piece!(i16, [2], |s| vec![*s as u16 as u64]);
piece!(u32, [4], |s| vec![*s as u64]);
piece!(i32, [4], |s| vec![*s as u32 as u64]);
piece!(usize, [4], |s| vec![*s as u64]);
piece!(bool, [1], |s| vec![*s as u64], |_, b| (b != 0) as u64);
piece!(f64, [4], |s| vec![f(*s)], |_, b| cf(b));
piece!(Index, [2], |s| vec![s.map(|x| x as u64).unwrap_or(0xFFFF)]);
piece!(ID, [4], |s| vec![s.as_u32() as u64]);
piece!(Address, [4], |s| vec![u32::from(*s) as u64]);
piece!(Angle, [4], |s| vec![s.angle.to_bits() as u64], |_, b| b);
piece!(ScenarioScriptNodeValue, [4], |s| vec![s.data as u64]);
piece!(Vector2D, [4, 4], |s| vec![f(s.x), f(s.y)], |_, b| cf(b));
piece!(Vector3D, [4, 4, 4], |s| vec![f(s.x), f(s.y), f(s.z)], |_, b| cf(b));
piece!(Quaternion, [4, 4, 4, 4], |s| vec![f(s.x), f(s.y), f(s.z), f(s.w)], |_, b| cf(b));
piece!(Euler2D, [4, 4], |s| vec![s.yaw.angle.to_bits() as u64, s.pitch.angle.to_bits() as u64]);
piece!(Euler3D, [4, 4, 4], |s| vec![s.yaw.angle.to_bits() as u64, s.pitch.angle.to_bits() as u64, s.roll.angle.to_bits() as u64]);
piece!(Matrix3x3, [4, 4, 4, 4, 4, 4, 4, 4, 4], |s| s.vectors.iter().flat_map(|v| [f(v.x), f(v.y), f(v.z)]).collect(), |_, b| cf(b));
piece!(Plane2D, [4, 4, 4], |s| vec![f(s.vector.x), f(s.vector.y), f(s.d)], |_, b| cf(b));
piece!(Plane3D, [4, 4, 4, 4], |s| vec![f(s.vector.x), f(s.vector.y), f(s.vector.z), f(s.d)], |_, b| cf(b));
piece!(Vector2DInt, [2, 2], |s| vec![s.x as u16 as u64, s.y as u16 as u64]);
piece!(Rectangle, [2, 2, 2, 2], |s| vec![s.top as u16 as u64, s.left as u16 as u64, s.bottom as u16 as u64, s.right as u16 as u64]);
piece!(ColorRGBFloat, [4, 4, 4], |s| vec![f(s.red), f(s.green), f(s.blue)], |_, b| cf(b));
piece!(ColorARGBFloat, [4, 4, 4, 4], |s| vec![f(s.alpha), f(s.red), f(s.green), f(s.blue)], |_, b| cf(b));
piece!(ColorARGBInt, [4], |s| vec![s.color as u64]);
piece!(ColorARGBIntBytes, [4], |s| vec![(s.alpha as u64) << 24 | (s.red as u64) << 16 | (s.green as u64) << 8 | s.blue as u64]);
piece!(CompressedFloat, [2], |s| vec![s.data as u64]);
piece!(CompressedVector2D, [4], |s| vec![s.data as u64]);
piece!(CompressedVector3D, [4], |s| vec![s.data as u64]);
piece!(DataC, [4, 4, 4, 4, 4], |s| vec![s.size as u64, s.flags as u64, s.file_offset as u64, u32::from(s.address) as u64, 0], |i, b| if i == 4 { 0 } else { b });
piece!(ReflexiveC<Vector3D>, [4, 4, 4], |s| vec![s.count as u64, u32::from(s.address) as u64, 0], |i, b| if i == 2 { 0 } else { b });

fn put(big: bool, w: usize, v: u64) -> Vec<u8> { let b = v.to_le_bytes()[..w].to_vec(); if big { b.into_iter().rev().collect() } else { b } }
fn codec<T: Piece, B: ByteOrder>(s: &mut Src, ctx: &mut Ctx, big: bool) -> R {
    let size: usize = T::W.iter().sum();
    let pieces: Vec<u64> = T::W.iter().map(|w| match (w, s.below(3)) { (4, 0) => s.f32_bits(true) as u64, (4, 1) => s.u32_edge() as u64, (w, _) => s.u64() & ((1u64 << (w * 8)) - 1) }).collect();
    let bytes: Vec<u8> = pieces.iter().zip(T::W).flat_map(|(p, w)| put(big, *w, *p)).collect();
    let canon: Vec<u64> = pieces.iter().enumerate().map(|(i, p)| T::canon(i, *p)).collect();
    let cbytes: Vec<u8> = canon.iter().zip(T::W).flat_map(|(p, w)| put(big, *w, *p)).collect();
    let same = |got: &[u64]| got.len() == canon.len() && got.iter().zip(&canon).all(|(a, b)| a == b || (f32::from_bits(*a as u32).is_nan() && f32::from_bits(*b as u32).is_nan() && T::canon(0, 0x7F80_0001) == 0x7FC0_0001 && a | 0x0040_0000 == b | 0x0040_0000));
    ctx.nontrivial_b(&[T::NAME.as_bytes(), &bytes, &[big as u8]].concat());
    ctx.label(T::NAME);
    ctx.sample(|| format!("{} {} {:02X?}", T::NAME, if big { "BE" } else { "LE" }, bytes));
    let name = T::NAME;
    ensure_eq!(T::simple_size(), size, format!("{name}: wrong size"), "simple_size");
    ensure_eq!(<T as TagData>::size(), size, format!("{name}: wrong size"), "TagData::size");
    let (before, after) = (s.usize(0, 9), s.usize(0, 9));
    let mut buf = s.bytes(before); buf.extend(&bytes); buf.extend(s.bytes(after));
    let end = before + size + s.usize(0, after);
    let v = match T::read::<B>(&buf, before, end) { Ok(v) => v, Err(e) => fail!(format!("{name}: not read"), "{e}") };
    ensure!(same(&v.bits()), format!("{name}: wrong value read"), "{:X?} instead of {:X?}", v.bits(), canon);
    let mut out = s.bytes(before + size + after);
    let orig = out.clone();
    if let Err(e) = v.write::<B>(&mut out, before, end) { fail!(format!("{name}: not written"), "{e}") }
    ensure!(out[before..before + size] == cbytes[..] || { let back = T::read::<B>(&out, before, end); back.is_ok_and(|b| same(&b.bits())) && name_has_nan(&canon) }, format!("{name}: wrong bytes written"), "{:02X?} instead of {:02X?}", &out[before..before + size], cbytes);
    ensure!(out[..before] == orig[..before] && out[before + size..] == orig[before + size..], format!("{name}: writes outside itself"), "at {before}, size {size}: {orig:02X?} -> {out:02X?}");
    let b = match v.as_bytes::<B>() { Ok(b) => b, Err(e) => fail!(format!("{name}: as_bytes fails"), "{e}") };
    ensure_eq!(b.bytes(), &out[before..before + size], format!("{name}: as_bytes differs from write"), "as_bytes");
    ensure_eq!(b.to_vec(), out[before..before + size].to_vec(), format!("{name}: as_bytes differs from write"), "to_vec");
    // too short
    // (the last four bytes of a list or data header are padding)
    let cut = s.below(if name.starts_with("ReflexiveC") { 8 } else if name == "DataC" { 16 } else { size as u64 }) as usize;
    ensure!(T::read::<B>(&buf[..before + cut], before, before + size).is_err(), format!("{name}: reads past the buffer"), "{cut} of {size} bytes present");
    if s.chance(1, 8) { let at = usize::MAX - s.below(size as u64 + 4) as usize; ensure!(T::read::<B>(&buf, at, usize::MAX).is_err(), format!("{name}: reads past the buffer"), "offset {at}"); }
    // tag files are big endian
    if big {
        let mut cur = 77;
        let t = T::read_from_tag_file(&buf, before, end, &mut cur);
        ensure!(cur == 77 && t.is_ok_and(|t| same(&t.bits())), format!("{name}: tag file reader differs"), "{:X?}", canon);
        let mut out2 = orig.clone();
        if v.write_to_tag_file(&mut out2, before, end).is_err() || out2 != out { fail!(format!("{name}: tag file writer differs"), "{out2:02X?} vs {out:02X?}") }
    }
    // several in a row
    let n = s.usize(0, 3);
    let mut many = vec![]; for _ in 0..n { many.extend(&bytes) }
    let it = match T::read_chunks_to_iterator::<B>(&many) { Ok(i) => i, Err(e) => fail!(format!("{name}: chunks refused"), "{e}") };
    ensure_eq!(it.len(), n, format!("{name}: wrong number of chunks"), "len");
    for (i, x) in it.enumerate() { ensure!(i < n && x.is_ok_and(|x| same(&x.bits())), format!("{name}: wrong chunk"), "{i}"); }
    let back: Vec<_> = T::read_chunks_to_iterator::<B>(&many).unwrap().into_infallible().rev().collect();
    ensure!(back.len() == n && back.iter().all(|x| same(&x.bits())), format!("{name}: wrong chunk"), "reversed");
    if size > 1 { let extra = s.usize(1, size - 1); many.extend(s.bytes(extra)); ensure!(T::read_chunks_to_iterator::<B>(&many).is_err(), format!("{name}: ragged chunks accepted"), "{} bytes", many.len()); }
    Ok(())
}
fn name_has_nan(c: &[u64]) -> bool { c.iter().any(|b| f32::from_bits(*b as u32).is_nan()) }
macro_rules! table { ($($t:ty),*) => { &[$((codec::<$t, BigEndian>, codec::<$t, LittleEndian>)),*] } }
type CodecFn = fn(&mut Src, &mut Ctx, bool) -> R;
static CODECS: &[(CodecFn, CodecFn)] = table!(u8, i8, u16, i16, u32, i32, usize, bool, f64, Index, ID, Address, Angle, ScenarioScriptNodeValue, Vector2D, Vector3D, Quaternion, Euler2D, Euler3D,
    Matrix3x3, Plane2D, Plane3D, Vector2DInt, Rectangle, ColorRGBFloat, ColorARGBFloat, ColorARGBInt, ColorARGBIntBytes, CompressedFloat, CompressedVector2D, CompressedVector3D, DataC, ReflexiveC<Vector3D>);
fn c07_codec(s: &mut Src, ctx: &mut Ctx) -> R {
    let i = s.cycle(CODECS.len() as u64) as usize;
    if s.bool() { (CODECS[i].0)(s, ctx, true) } else { (CODECS[i].1)(s, ctx, false) }
}
fn quant(bits: u32, x: f64, got: f64, what: &str) -> R {
    let step = 1.0 / ((1u64 << (bits - 1)) - 1) as f64;
    let x = x.clamp(-1.0, 1.0);
    ensure!((got - x).abs() <= step * 0.5 + 1e-12, "packed value is off by more than half a step", "{what}: {x:e} came back as {got:e} (step {step:e})");
    ensure!(got == 0.0 || (got > 0.0) == (x > 0.0), "packed value changed sign", "{what}: {x:e} -> {got:e}");
    if x == 1.0 || x == -1.0 || x == 0.0 { ensure!(got == x, "extreme not kept", "{what}: {x} -> {got}"); }
    Ok(())
}
fn unit_value(s: &mut Src) -> f64 {
    match s.below(8) {
        0 => *s.pick(&[0.0, 1.0, -1.0, -0.0, 0.5, -0.5]),
        1 => { let e = s.irange(-40, -1) as i32; let v = 2f64.powi(e); if s.bool() { -v } else { v } }
        2 => { let b = *s.pick(&[10, 11, 16]); let m = (1i64 << (b - 1)) - 1; s.irange(-m - 1, m) as f64 / m as f64 }
        3 => { let b = *s.pick(&[10, 11, 16]); let m = 1i64 << (b - 1); let v = s.irange(-m, m) as f64 / m as f64; v + (s.irange(-2, 2) as f64) * 1e-9 }
        4 => { let v = s.irange(-3_000_000, 3_000_000) as f64 / 1_000_000.0; v }
        _ => s.irange(-1_000_000_000, 1_000_000_000) as f64 / 1e9
    }
}
fn c07_packed(s: &mut Src, ctx: &mut Ctx) -> R {
    let (x, y, z) = (unit_value(s), unit_value(s), unit_value(s));
    ctx.nontrivial(x.to_bits() ^ y.to_bits().rotate_left(20) ^ z.to_bits().rotate_left(40));
    ctx.sample(|| format!("packing ({x}, {y}, {z})"));
    let c = CompressedFloat::from(x); quant(16, x, f64::from(c), "float")?;
    let c2 = CompressedVector2D::from(Vector2D { x, y }); let d2 = Vector2D::from(c2); quant(16, x, d2.x, "2D x")?; quant(16, y, d2.y, "2D y")?;
    let c3 = CompressedVector3D::from(Vector3D { x, y, z }); let d3 = Vector3D::from(c3); quant(11, x, d3.x, "3D x")?; quant(11, y, d3.y, "3D y")?; quant(10, z, d3.z, "3D z")?;
    // order is kept
    let x2 = unit_value(s);
    let (a, b) = if x <= x2 { (x, x2) } else { (x2, x) };
    ensure!(f64::from(CompressedFloat::from(a)) <= f64::from(CompressedFloat::from(b)), "packing reverses the order", "{a} {b}");
    Ok(())
}
/// the packed codes themselves, all of them
fn c07_codes(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.cycle(65536) as u32;
    let hi = s.u32();
    ctx.nontrivial(n as u64);
    let tc = |v: u32, b: u32| { let m = 1i64 << (b - 1); let v = (v as i64) & ((1 << b) - 1); if v < m { v as f64 / (m - 1) as f64 } else { (v - 2 * m) as f64 / m as f64 } };
    let near = |a: f64, b: f64| (a - b).abs() < 1e-12;
    let c = CompressedFloat { data: n as u16 };
    ensure!(near(f64::from(c), tc(n, 16)), "code means another value", "16-bit {n:#x} -> {}", f64::from(c));
    ensure_eq!(CompressedFloat::from(f64::from(c)), c, "code changes when repacked", "float");
    let w = n << 16 | (hi & 0xFFFF);
    let v = Vector2D::from(CompressedVector2D { data: w });
    ensure!(near(v.x, tc(w, 16)) && near(v.y, tc(w >> 16, 16)), "code means another value", "2D {w:#x} -> {v}");
    ensure_eq!(CompressedVector2D::from(v).data, w, "code changes when repacked", "2D");
    let w = (n & 0x7FF) | (hi & 0xFFFF_F800);
    let v = Vector3D::from(CompressedVector3D { data: w });
    ensure!(near(v.x, tc(w, 11)) && near(v.y, tc(w >> 11, 11)) && near(v.z, tc(w >> 22, 10)), "code means another value", "3D {w:#x} -> {v}");
    ensure_eq!(CompressedVector3D::from(v).data, w, "code changes when repacked", "3D");
    Ok(())
}
fn c07_color(s: &mut Src, ctx: &mut Ctx) -> R {
    let w = s.u32();
    ctx.nontrivial(w as u64);
    let i = ColorARGBInt { color: w };
    let b = ColorARGBIntBytes::from(i);
    ctx.sample(|| format!("colour {w:08X}"));
    ensure_eq!((b.alpha, b.red, b.green, b.blue), ((w >> 24) as u8, (w >> 16) as u8, (w >> 8) as u8, w as u8), "channels mixed up", "{w:08X}");
    ensure_eq!(ColorARGBInt::from(b), i, "packing loses", "{w:08X}");
    ensure_eq!(u32::from(i), w, "packing loses", "{w:08X}"); ensure_eq!(u32::from(b), w, "packing loses", "{w:08X}"); ensure_eq!(ColorARGBInt::from(w), i, "packing loses", "{w:08X}");
    for (rgb, a) in [(i.rgb_float(), i.alpha_float()), (b.rgb_float(), b.alpha_float())] {
        ensure!([(a, b.alpha), (rgb.red, b.red), (rgb.green, b.green), (rgb.blue, b.blue)].iter().all(|(x, y)| (x - *y as f64 / 255.0).abs() < 1e-9), "byte colour means another float colour", "{w:08X}");
        let fl = ColorARGBFloat { alpha: a, red: rgb.red, green: rgb.green, blue: rgb.blue };
        ensure_eq!(ColorARGBIntBytes::from_argb_float(&fl), b, "byte colour changes when repacked", "{w:08X}");
        ensure_eq!(ColorARGBInt::from_argb_float(&fl), i, "byte colour changes when repacked", "{w:08X}");
        ensure_eq!(fl.rgb_float(), rgb, "channels mixed up", "{w:08X}"); ensure_eq!(fl.alpha_float(), a, "alpha lost", "{w:08X}");
        ensure_eq!(rgb.alpha_float(), 1.0, "alpha of an opaque colour", "{w:08X}");
    }
    let fl = ColorARGBFloat { alpha: unit_value(s), red: unit_value(s), green: unit_value(s), blue: unit_value(s) };
    let q = ColorARGBIntBytes::from_argb_float(&fl);
    for (x, y) in [(fl.alpha, q.alpha), (fl.red, q.red), (fl.green, q.green), (fl.blue, q.blue)] {
        let x = x.clamp(0.0, 1.0);
        ensure!((x - y as f64 / 255.0).abs() < 1.0 / 255.0 && (x != 1.0 || y == 255) && (x != 0.0 || y == 0), "byte colour is off by a step or more", "{x} -> {y}");
    }
    ensure_eq!(ColorRGBFloat::from_argb_float(&fl), fl.rgb_float(), "channels mixed up", "rgb");
    ensure_eq!(ColorARGBFloat::from_argb_float(&fl), fl, "channels mixed up", "argb");
    let c = fl.clamp();
    ensure_eq!(vec![c.alpha, c.red, c.green, c.blue], [fl.alpha, fl.red, fl.green, fl.blue].iter().map(|x| x.clamp(0.0, 1.0)).collect::<Vec<_>>(), "clamp", "{fl:?}");
    ensure_eq!(u32::from(ColorARGBInt::from_y8(w as u8)), 0xFF000000 | (w & 0xFF) * 0x010101, "y8", "{w:08X}");
    ensure_eq!(u32::from(ColorARGBInt::from_a8y8(w as u16)), (w & 0xFF00) << 16 | (w & 0xFF) * 0x010101, "a8y8", "{w:08X}");
    // arithmetic of colours, the same for every kind of colour
    let near = |a: f64, b: f64| (a - b).abs() < 1e-9;
    let k = fl.clamp();
    let grey = k.red == k.green && k.red == k.blue;
    let luma = if grey { k.red } else { 0.2126 * k.red + 0.7152 * k.green + 0.0722 * k.blue };
    ensure!(near(fl.luma(), luma) && near(fl.rgb_float().luma(), luma), "brightness", "{fl:?}: {} should be {luma}", fl.luma());
    let bf = ColorARGBFloat { alpha: b.alpha_float(), red: b.red as f64 / 255.0, green: b.green as f64 / 255.0, blue: b.blue as f64 / 255.0 };
    ensure!(near(b.luma(), bf.luma()) && near(i.luma(), bf.luma()), "brightness", "{w:08X}: {} should be {}", b.luma(), bf.luma());
    let (up, down) = (fl.gamma_compress(), fl.gamma_decompress());
    for (c, u, d) in [(k.red, up.red, down.red), (k.green, up.green, down.green), (k.blue, up.blue, down.blue)] { ensure!(near(u, c.sqrt()) && near(d, c * c), "gamma", "{c}: {u} {d}") }
    ensure!(up.alpha == fl.alpha && down.alpha == fl.alpha, "gamma changes alpha", "{fl:?}");
    let rt = up.gamma_decompress();
    ensure!(near(rt.red, k.red) && near(rt.green, k.green) && near(rt.blue, k.blue), "gamma is not undone", "{fl:?} -> {rt:?}");
    ensure!(b.gamma_compress() == ColorARGBIntBytes::from_argb_float(&bf.gamma_compress()) && b.gamma_decompress() == ColorARGBIntBytes::from_argb_float(&bf.gamma_decompress()), "gamma of byte colours", "{w:08X}");
    ensure!(i.gamma_compress() == b.gamma_compress().into() && i.gamma_decompress() == b.gamma_decompress().into() && i.vector_normalize() == b.vector_normalize().into() && i.clamp() == i && b.clamp() == b, "packed colours differ from byte colours", "{w:08X}");
    // blending over an opaque colour
    let over = ColorARGBFloat { alpha: 1.0, ..k };
    let z = over.alpha_blend(&bf);
    let a = bf.alpha;
    for (x, y, r) in [(over.red, bf.red, z.red), (over.green, bf.green, z.green), (over.blue, bf.blue, z.blue)] { ensure!(near(r, y * a + x * (1.0 - a)), "blend", "{over:?} with {bf:?}: {z:?}") }
    ensure!(near(z.alpha, 1.0) && near(k.alpha_blend(&bf).alpha, a + k.alpha * (1.0 - a)), "blended alpha", "{k:?} with {bf:?}");
    ensure_eq!(ColorARGBIntBytes::from_argb_float(&over).alpha_blend(&ColorARGBFloat { alpha: 0.0, ..bf }), ColorARGBIntBytes::from_argb_float(&over), "blending nothing", "{over:?}");
    let top = ColorARGBIntBytes { alpha: 255, ..b };
    ensure_eq!(q.alpha_blend(&top), top, "blending an opaque colour", "{q:?} with {top:?}");
    // normal maps: the direction is kept and its length becomes one half
    let n = fl.rgb_float().vector_normalize();
    let r = fl.rgb_float().clamp();
    let d = [r.red - 0.5, r.green - 0.5, r.blue - 0.5];
    let m = [n.red - 0.5, n.green - 0.5, n.blue - 0.5];
    let (dl, ml) = (d.iter().map(|x| x * x).sum::<f64>().sqrt(), m.iter().map(|x| x * x).sum::<f64>().sqrt());
    ensure!((ml - 0.5).abs() < 1e-6, "normalised colour is not a unit normal", "{fl:?} -> {n:?}");
    if dl > 1e-9 { for i in 0..3 { ensure!((m[i] - d[i] * 0.5 / dl).abs() < 1e-6, "normalised colour points elsewhere", "{fl:?} -> {n:?}"); } }
    Ok(())
}
fn c07_vector(s: &mut Src, ctx: &mut Ctx) -> R {
    let v: Vec<f64> = (0..4).map(|_| match s.below(3) { 0 => unit_value(s), 1 => s.irange(-1_000_000, 1_000_000) as f64 / 64.0, _ => 0.0 }).collect();
    let k = s.irange(1, 100) as f64 / 8.0;
    ctx.nontrivial(v.iter().fold(0, |a, b| mix(a ^ b.to_bits())));
    ctx.sample(|| format!("{v:?} * {k}"));
    fn unit<V: Vector + std::fmt::Debug>(v: V, comps: &[f64], get: fn(&V) -> Vec<f64>, k: f64) -> R {
        let len2: f64 = comps.iter().map(|x| x * x).sum();
        ensure!((v.magnitude_squared() - len2).abs() <= 1e-9 * len2.max(1.0), "wrong magnitude", "{v:?}");
        let sc = get(&v.scale(k));
        for (a, b) in sc.iter().zip(comps) { ensure!((a - b * k).abs() <= 1e-9 * a.abs().max(1.0), "wrong scale", "{v:?} * {k}"); }
        if len2 > 1e-12 {
            let n = get(&v.normalize());
            let nl: f64 = n.iter().map(|x| x * x).sum();
            ensure!((nl - 1.0).abs() < 3e-5, "not normalised", "{v:?} -> {n:?}");
            for (a, b) in n.iter().zip(comps) { ensure!((a - b / len2.sqrt()).abs() < 2e-5, "normalising turns the vector", "{v:?} -> {n:?}"); }
            let m = get(&v.normalize_into(k));
            for (a, b) in m.iter().zip(comps) { ensure!((a - b * k / len2.sqrt()).abs() < 1e-6 * k, "wrong length", "{v:?} into {k} -> {m:?}"); }
        } else if len2 == 0.0 {
            ensure!(v.normalize().is_unit_vector(), "not normalised", "zero vector");
        }
        Ok(())
    }
    unit(Vector2D { x: v[0], y: v[1] }, &v[..2], |v| vec![v.x, v.y], k)?;
    unit(Vector3D { x: v[0], y: v[1], z: v[2] }, &v[..3], |v| vec![v.x, v.y, v.z], k)?;
    unit(Quaternion { x: v[0], y: v[1], z: v[2], w: v[3] }, &v, |v| vec![v.x, v.y, v.z, v.w], k)?;
    // arithmetic is that of the components
    let u: Vec<f64> = (0..4).map(|_| if s.bool() { unit_value(s) } else { s.irange(-1_000_000, 1_000_000) as f64 / 64.0 }).collect();
    macro_rules! arithmetic { ($t:ident, $n:expr, $($f:ident)*) => {{
        let mut at = 0; let mut next = |v: &[f64]| { let x = v[at % 4]; at += 1; x };
        let a = $t { $($f: next(&v)),* };
        at = 0; let mut next = |v: &[f64]| { let x = v[at % 4]; at += 1; x };
        let b = $t { $($f: next(&u)),* };
        let get = |x: $t| vec![$(x.$f),*];
        let each = |f: fn(f64, f64) -> f64| -> Vec<f64> { v.iter().zip(&u).take($n).map(|(x, y)| f(*x, *y)).collect() };
        let same = |x: Vec<f64>, y: Vec<f64>| x.iter().zip(&y).all(|(x, y)| x == y || x.is_nan() && y.is_nan() || (x - y).abs() <= 1e-9 * x.abs().max(1e-300));
        let mut c = [a; 5]; c[0] += b; c[1] -= b; c[2] *= b; c[3] /= b; c[4] *= k;
        for (what, got, again, want) in [("+", a + b, c[0], each(|x, y| x + y)), ("-", a - b, c[1], each(|x, y| x - y)), ("*", a * b, c[2], each(|x, y| x * y)), ("/", a / b, c[3], each(|x, y| x / y))] {
            ensure!(same(get(got), want.clone()) && same(get(again), want), "vector arithmetic", "{a:?} {what} {b:?} = {got:?}");
        }
        ensure!(same(get(a * k), v.iter().take($n).map(|x| x * k).collect()) && same(get(c[4]), get(a * k)) && same(get(-a), v.iter().take($n).map(|x| -x).collect()), "vector arithmetic", "{a:?} times {k}");
        ensure!(same(vec![a.dot(&b)], vec![each(|x, y| x * y).iter().sum()]) && same(vec![a.distance_squared(&b)], vec![each(|x, y| (x - y) * (x - y)).iter().sum()]), "vector arithmetic", "{a:?} and {b:?}");
    }} }
    arithmetic!(Vector2D, 2, x y);
    arithmetic!(Vector3D, 3, x y z);
    arithmetic!(Quaternion, 4, x y z w);
    {
        let (x, y) = (v[0] as f32, u[0] as f32);
        let (a, b) = (Angle::from_radians(x), Angle::from(y));
        let mut c = [a; 5]; c[0] += b; c[1] -= b; c[2] *= b; c[3] /= b; c[4] *= y;
        for (p, q, w) in [(a + b, c[0], x + y), (a - b, c[1], x - y), (a * b, c[2], x * y), (a / b, c[3], x / y), (a * y, c[4], x * y), (-a, -a, -x)] { ensure!((p.to_radians() == w && f32::from(q) == w) || w.is_nan(), "angle arithmetic", "{x} {y}") }
        ensure!((Angle::from_degrees(x).to_degrees() - x).abs() <= x.abs() * 1e-5 && (a.to_degrees() as f64 - x as f64 * 180.0 / std::f64::consts::PI).abs() <= x.abs() as f64 * 1e-4, "degrees", "{x}");
    }
    let p = Plane3D { vector: Vector3D { x: v[1], y: v[2], z: v[3] }, d: v[0] };
    let q = Vector3D { x: v[2], y: v[0], z: v[1] };
    let want = v[2] * v[1] + v[0] * v[2] + v[1] * v[3] - v[0];
    ensure!((q.distance_from_plane(&p) - want).abs() <= 1e-6 * want.abs().max(1.0), "wrong distance from plane", "{p:?} {q:?}");
    // script values
    let (i, sh, b, fl) = (s.u32() as i32, s.u16() as i16, s.bool(), f32::from_bits(s.f32_bits(false)));
    ensure!(i32::from(ScenarioScriptNodeValue::from(i)) == i && i16::from(ScenarioScriptNodeValue::from(sh)) == sh && bool::from(ScenarioScriptNodeValue::from(b)) == b && f32::from(ScenarioScriptNodeValue::from(fl)).to_bits() == fl.to_bits() && i8::from(ScenarioScriptNodeValue::from(sh as i8)) == sh as i8 && ID::from(ScenarioScriptNodeValue::from(ID::from_u32(i as u32))) == ID::from_u32(i as u32), "script value changed", "{i} {sh} {b} {fl}");
    let al = 1usize << s.below(13); let size = s.u32() as usize >> s.below(32);
    let pad = calculate_padding_for_alignment(size, al);
    ensure!(pad < al && (size + pad) % al == 0, "wrong alignment padding", "{size} to {al}: {pad}");
    Ok(())
}
pub static C07: Check = Check {
    id: "C07", terminates: false,
    subs: &[Sub { name: "codec", quick: 1_440_000, thorough: 8_000_000, run: c07_codec }, Sub { name: "packed", quick: 2_880_000, thorough: 20_000_000, run: c07_packed },
        Sub { name: "codes", quick: 1_572_864, thorough: 6_553_600, run: c07_codes }, Sub { name: "color", quick: 1_440_000, thorough: 10_000_000, run: c07_color }, Sub { name: "vector", quick: 960_000, thorough: 5_000_000, run: c07_vector }],
    rule: "A case is one value of one of 33 primitive types in one byte order at a random place of a random buffer, one number or vector packed into its lossy form, one packed code (all 65,536 are visited), one colour, or one vector. All are non-trivial; distinct by type and bytes.",
    assumptions: &["a signalling NaN may become the quiet NaN with the same payload"],
};

// ------------------------------------------------------------------ C08
fn c08_name(s: &mut Src, ctx: &mut Ctx) -> R {
    // any text
    let n = s.usize(0, 36);
    let mut t = String::new();
    while t.len() < n { t.push(match s.below(12) { 0 => *s.pick(&['é', '語', '€', '\u{10348}', '\u{FFFD}', '\u{7f}', '\u{1}']), 1 if s.chance(1, 4) => '\0', 2 => ' ', _ => (b'!' + s.below(94) as u8) as char }) }
    let fits = t.len() <= 31 && !t.contains('\0');
    ctx.label(if fits { "fits" } else { "does not fit" });
    if t.len() >= 4 { ctx.nontrivial_s(&t); }
    ctx.sample(|| format!("{t:?} ({} bytes)", t.len()));
    match String32::from_str(&t) {
        Ok(x) => {
            ensure!(fits, "text that does not fit is accepted", "{t:?} ({} bytes) became {:?}", t.len(), x.as_str());
            ensure_eq!(x.as_str(), t.as_str(), "text changed", "as_str"); ensure_eq!(x.to_string(), t, "text changed", "Display");
            ensure!(x == *t.as_str() && x == t.clone() && t.as_str() == x && t.clone() == x, "text changed", "== {t:?}");
            let mut want = [0u8; 32]; want[..t.len()].copy_from_slice(t.as_bytes());
            let got = x.as_bytes::<BigEndian>().unwrap().to_vec();
            ensure_eq!(got, want.to_vec(), "stored form is not the text and zeros", "{t:?}");
            let y = String32::read::<LittleEndian>(&got, 0, 32);
            ensure!(y.is_ok_and(|y| y == x), "text changed by storing", "{t:?}");
            ensure!(String32::from_bytes_lossy(&want) == x, "text changed by storing", "{t:?}");
        }
        Err(e) => ensure!(!fits, "text that fits is refused", "{t:?}: {e}")
    }
    // any 32 bytes
    let b = gen_str32(s, true);
    let x = String32::from_bytes_lossy(&b);
    let want = canon_str32(&b);
    let got = x.as_bytes::<BigEndian>().unwrap().to_vec();
    let bad = std::str::from_utf8(&b[..b.iter().position(|c| *c == 0).unwrap_or(31).min(31)]).is_err();
    ctx.label(if bad { "malformed bytes" } else { "well-formed bytes" });
    ctx.nontrivial_b(&b);
    ensure_eq!(got, want.to_vec(), "stored bytes read differently", "{b:02X?}");
    ensure!(std::str::from_utf8(x.as_str().as_bytes()).is_ok(), "text is not UTF-8", "{b:02X?}");
    ensure!(String32::from_str(x.as_str()).is_ok_and(|y| y == x), "text from bytes is not storable", "{b:02X?}");
    let pad = s.usize(0, 5);
    let mut buf = s.bytes(pad); buf.extend(b);
    ensure!(String32::read::<BigEndian>(&buf, pad, pad + 32).is_ok_and(|y| y == x), "stored bytes read differently", "{b:02X?}");
    let cut = s.below(32) as usize;
    ensure!(String32::read::<BigEndian>(&buf[..pad + cut], pad, pad + 32).is_err(), "reads past the buffer", "{cut} bytes");
    let at = s.usize(0, 5);
    let mut out = s.bytes(at + 32 + 4); let orig = out.clone();
    x.write::<BigEndian>(&mut out, at, at + 32).unwrap();
    ensure!(out[..at] == orig[..at] && out[at + 32..] == orig[at + 32..] && out[at..at + 32] == want, "writes other bytes", "{b:02X?}");
    Ok(())
}
fn wide(t: &str) -> Vec<u8> { t.encode_utf16().flat_map(|u| u.to_le_bytes()).chain([0, 0]).collect() }
/// what is kept of a text: control characters other than tab go, a line ends with CR LF, text ends at NUL
fn clean(t: &str) -> String {
    let cs: Vec<char> = t.chars().take_while(|c| *c != '\0').collect();
    let mut out = String::new();
    for (i, c) in cs.iter().enumerate() {
        match *c {
            '\n' => { if !(i > 0 && cs[i - 1] == '\r') { out.push('\r') } out.push('\n') }
            '\r' => if cs.get(i + 1) == Some(&'\n') { out.push('\r') },
            '\t' => out.push('\t'),
            c if (c as u32) < 0x20 || c as u32 == 0x7F => (),
            c => out.push(c)
        }
    }
    out
}
fn stored_wide(b: &[u8]) -> Result<UTF16String, Fail> {
    let mut file = (b.len() as u32).to_be_bytes().to_vec(); file.extend([0; 16]); file.extend(b);
    let mut cur = 20;
    let u = UTF16String::read_from_tag_file(&file, 0, 20, &mut cur).map_err(|e| Fail::new("stored text not read", e.to_string()))?;
    ensure_eq!(cur, file.len(), "stored text read short", "cursor");
    let mut out = vec![0u8; 20];
    u.write_to_tag_file(&mut out, 0, 20).map_err(|e| Fail::new("text not stored", e.to_string()))?;
    ensure!(out == file, "stored bytes changed", "{file:02X?} -> {out:02X?}");
    Ok(u)
}
fn c08_wide(s: &mut Src, ctx: &mut Ctx) -> R {
    // 1. text
    let n = s.usize(0, 20);
    let rough = s.chance(1, 3);
    let mut t = gen_text(s, n);
    if rough { let k = s.usize(1, 4); for _ in 0..k { let p = s.below(t.chars().count() as u64 + 1) as usize; let i = t.char_indices().nth(p).map(|x| x.0).unwrap_or(t.len()); t.insert(i, *s.pick(&['\n', '\r', '\u{1}', '\u{b}', '\u{1f}', '\u{7f}', '\0', '\u{85}', '\u{2028}', '\u{D7FF}', '\u{E000}', '\u{10FFFF}'])) } }
    else { let k = s.usize(0, 3); for _ in 0..k { if let Some(c) = char::from_u32(s.below(0x110000) as u32) { if c as u32 >= 0x80 { t.push(c) } } } }
    let want = clean(&t);
    if t.chars().count() >= 2 { ctx.nontrivial_s(&t); }
    ctx.label(if want == t { "kept as it is" } else { "cleaned" });
    ctx.sample(|| format!("{t:?}"));
    let u = UTF16String::from_str(&t);
    match u.get_string() { Ok(x) => ensure_eq!(*x, want, "text changed", "{t:?}"), Err(e) => fail!("stored text called corrupt", "{t:?}: {e}") }
    ensure!(u.get_string_lossy().is_ok_and(|x| *x == want), "text changed", "lossy {t:?}");
    ensure_eq!(u.to_string(), want, "text changed", "Display {t:?}");
    ensure_eq!(u.get_utf16_bytes().to_vec(), wide(&want), "wrong stored bytes", "{t:?}");
    let v = stored_wide(u.get_utf16_bytes())?;
    ensure!(v == u && v.get_string().is_ok_and(|x| *x == want), "text changed by storing", "{t:?}");
    ensure!(v.clone() == v && v.clone().get_string().is_ok_and(|x| *x == want), "text changed by cloning", "{t:?}");
    // 2. arbitrary bytes
    let mut b = if s.bool() { wide(&t) } else { let n = s.usize(0, 24); s.bytes(n) };
    let k = s.usize(0, 3);
    for _ in 0..k { if b.is_empty() { break } let i = s.below(b.len() as u64) as usize; match s.below(4) { 0 => { b.remove(i); } 1 => b[i] = s.u8(), 2 => { let j = (i | 1).min(b.len() - 1); b[j] = 0xD8 | s.u8() & 7; } _ => b.truncate(i) } }
    if s.chance(1, 3) { b.truncate(b.len() & !1); b.extend([0, 0]); }
    let w = stored_wide(&b)?;
    ctx.nontrivial_b(&b);
    let decoded = if b.len() % 2 == 0 && b.ends_with(&[0, 0]) { let us: Vec<u16> = b[..b.len() - 2].chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect(); if us.contains(&0) { None } else { String::from_utf16(&us).ok().filter(|t| clean(t) == *t) } } else { None };
    ctx.label(if decoded.is_some() { "valid bytes" } else { "malformed bytes" });
    match (decoded, w.get_string(), w.get_string_lossy()) {
        (Some(d), Ok(a), Ok(l)) => ensure!(*a == d && *l == d, "stored bytes read differently", "{b:02X?}: {a:?} instead of {d:?}"),
        (None, Err(_), Err(_)) => (),
        (d, a, l) => fail!("malformed text not reported, or good text refused", "{b:02X?}: expected {d:?}, got {a:?} / {l:?}")
    }
    ensure_eq!(w.get_utf16_bytes(), b.as_slice(), "stored bytes changed by reading", "{b:02X?}");
    let shown = w.to_string();
    ensure!(clean(&shown) == shown, "malformed text shown with control characters", "{b:02X?}: {shown:?}");
    Ok(())
}
pub static C08: Check = Check {
    id: "C08", terminates: true,
    subs: &[Sub { name: "name", quick: 1_440_000, thorough: 12_000_000, run: c08_name }, Sub { name: "wide", quick: 1_440_000, thorough: 12_000_000, run: c08_wide }],
    rule: "A case is one text of 0-38 bytes and one 32-byte block for fixed names, or one text (with arbitrary Unicode, line ends and control characters) and one damaged UTF-16 byte string. Non-trivial: texts of 4+ bytes / 2+ characters and all byte strings; distinct by content.",
    assumptions: &["control characters other than tab are dropped from wide text, line ends become CR LF, and text ends at a NUL, as the type documents"],
};

// ------------------------------------------------------------------ C06
fn c06_groups(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let mut names: Vec<(&String, u32)> = l.fourcc_of.iter().filter(|(a, _)| *a != "<unset>").map(|(a, b)| (a, *b)).collect();
    names.sort();
    let i = s.cycle(names.len() as u64) as usize;
    let (n, c) = (names[i].0.as_str(), names[i].1);
    ctx.nontrivial_s(n);
    let g = match TagGroup::from_str(n) { Ok(g) => g, Err(e) => fail!("known group name refused", "{n}: {e}") };
    ensure_eq!(g.as_str(), n, "name does not round trip", "{n}"); ensure_eq!(g.to_string(), n.to_string(), "name does not round trip", "{n}");
    ensure_eq!(g.as_fourcc(), c, "wrong code", "{n}"); ensure_eq!(TagGroup::from_fourcc(c), Some(g), "code does not round trip", "{n}");
    ensure!(TagGroup::try_from(c).is_ok_and(|x| x == g), "code does not round trip", "{n}");
    for big in [true, false] {
        let b = if big { g.as_bytes::<BigEndian>() } else { g.as_bytes::<LittleEndian>() }.unwrap().to_vec();
        ensure_eq!(b, put(big, 4, c as u64), "wrong stored code", "{n}");
        let r = if big { TagGroup::read::<BigEndian>(&b, 0, 4) } else { TagGroup::read::<LittleEndian>(&b, 0, 4) };
        ensure!(r.is_ok_and(|x| x == g), "stored code reads differently", "{n}");
        let r = TagReferenceC { tag_group: g, path_address: s.u32().into(), path_length: s.u32(), tag_id: ID::from_u32(s.u32() | 1) };
        let b = if big { r.as_bytes::<BigEndian>() } else { r.as_bytes::<LittleEndian>() }.unwrap().to_vec();
        let want: Vec<u8> = [c, u32::from(r.path_address), r.path_length, r.tag_id.as_u32()].iter().flat_map(|w| put(big, 4, *w as u64)).collect();
        ensure_eq!(b, want, "wrong stored reference", "{n}");
        let back = if big { TagReferenceC::read::<BigEndian>(&b, 0, 16) } else { TagReferenceC::read::<LittleEndian>(&b, 0, 16) };
        ensure!(back.is_ok_and(|x| x == r), "stored reference reads differently", "{n}");
    }
    // every other group differs
    let j = s.below(names.len() as u64) as usize;
    let h = TagGroup::from_str(names[j].0).unwrap();
    ensure_eq!(g == h, i == j, "two groups are one", "{n} {}", names[j].0);
    ensure_eq!(g.cmp(&h), n.cmp(names[j].0), "order of groups", "{n} {}", names[j].0);
    // ancestry
    let mut chain = vec![n.to_string()]; let mut cur = n.to_string();
    while let Some(p) = l.group_by_name.get(&cur).and_then(|i| l.groups[*i].sup.clone()) { chain.push(p.clone()); cur = p; }
    let got: Vec<String> = g.full_subgroup_tree().iter().filter(|x| **x != TagGroup::_Unset).map(|x| x.to_string()).collect();
    ensure_eq!(got, chain, "wrong ancestry", "{n}");
    // neighbours of a name or code are not names or codes
    let mut m = n.to_string();
    match s.below(6) { 0 => { m.pop(); } 1 => m.push((b'a' + s.below(26) as u8) as char), 2 => m = m.to_uppercase(), 3 => m = format!(" {m}"), 4 => { let k = s.below(m.len() as u64) as usize; m.replace_range(k..k + 1, "_"); } _ => m = s.ascii_ident(0, 8) }
    ensure_eq!(TagGroup::from_str(&m).is_ok(), m != "<unset>" && l.fourcc_of.contains_key(&m), "unknown name accepted or known one refused", "{m:?}");
    ctx.sample(|| format!("{n} <-> {c:08X}; {m:?} is {}", if l.fourcc_of.contains_key(&m) { "known" } else { "unknown" }));
    let d = match s.below(4) { 0 => c ^ (1 << s.below(32)), 1 => c.swap_bytes(), 2 => s.u32_edge(), _ => c ^ (0x20 << (8 * s.below(4))) };
    let known = names.iter().find(|x| x.1 == d).map(|x| x.0.as_str());
    let got = TagGroup::from_fourcc(d);
    if d == 0 || d == u32::MAX { ensure_eq!(got, Some(TagGroup::_Unset), "empty code", "{d:08X}") } else { ensure_eq!(got.map(|g| g.as_str()), known, "unknown code accepted or known one refused", "{d:08X}") }
    ensure_eq!(TagGroup::try_from(d).is_ok(), got.is_some(), "readers disagree", "{d:08X}");
    Ok(())
}
fn c06_ids(s: &mut Src, ctx: &mut Ctx) -> R {
    let i = if s.bool() { s.u16() } else { *s.pick(&[0u16, 1, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x6174]) };
    let salt = if s.bool() { s.u16() } else { *s.pick(&[0u16, 0x6174, 0x6373, 0x7FFF, 0x8000, 0xFFFF, 1]) };
    ctx.nontrivial((i as u64) << 16 | salt as u64);
    ctx.sample(|| format!("index {i:#x} salt {salt:#x}"));
    if !(i == 0xFFFF && salt & 0x7FFF == 0) { // that pair is the null identifier
        let id = ID::new(Some(i), salt);
        let want = ((((salt ^ i) | 0x8000) as u32) << 16) | i as u32;
        ensure_eq!(id.as_u32(), want, "identifier packed differently", "{i:#x} {salt:#x}");
        ensure!(id.is_valid() && !id.is_null(), "good identifier not valid", "{i:#x} {salt:#x}");
        ensure_eq!(id.index(), Some(i), "index lost", "{i:#x} {salt:#x}");
        ensure_eq!(id.salt(), Some(salt & 0x7FFF), "salt lost", "{i:#x} {salt:#x}");
        ensure_eq!(ID::new(id.index(), id.salt().unwrap()), id, "identifier changes when rebuilt", "{i:#x} {salt:#x}");
        ensure!(ID::from_u32_checked(want).is_ok_and(|x| x == id), "valid identifier refused", "{want:08X}");
    }
    ensure!(ID::new(None, salt).is_null() && ID::new(None, salt).index().is_none() && ID::new(None, salt).salt().is_none() && ID::default() == ID::null() && ID::null().as_u32() == u32::MAX, "null identifier", "{salt:#x}");
    let w = s.u32_edge();
    let id = ID::from_u32(w);
    ensure_eq!((id.as_u32(), u32::from(id)), (w, w), "identifier changed", "{w:08X}");
    ensure_eq!(id.is_null(), w == u32::MAX, "null identifier", "{w:08X}");
    ensure_eq!(id.is_valid(), w >> 31 == 1, "validity", "{w:08X}");
    ensure_eq!(ID::from_u32_checked(w).map(|x| x.as_u32()).ok(), if w >> 31 == 1 { Some(w) } else { None }, "checked conversion decides wrongly", "{w:08X}");
    if w != u32::MAX { ensure_eq!(id.index(), Some(w as u16), "index lost", "{w:08X}"); ensure_eq!(id.salt(), Some(((w >> 16) as u16 ^ w as u16) & 0x7FFF), "salt lost", "{w:08X}"); }
    ensure!(IDType::Tag.salt() == 0x6174 && IDType::ScriptNode.salt() == 0x6373, "salts", "");
    Ok(())
}
fn option_sites() -> &'static Vec<(Site, usize)> {
    static S: std::sync::OnceLock<Vec<(Site, usize)>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let l = layout();
        let mut out = vec![];
        for s in sites(l, |f| matches!(f.ty, Ty::Enum(_) | Ty::Bits(_))) {
            let n = match s.field().ty { Ty::Enum(e) => l.enums[e].options.len(), Ty::Bits(b) => l.bits[b].options.len(), _ => 0 };
            for k in 0..n { out.push((Site { group: s.group, path: s.path.clone() }, k)) }
        }
        out
    })
}
fn c06_options(s: &mut Src, ctx: &mut Ctx) -> R {
    use ringhopper_primitives::tag::*;
    let l = layout();
    let all = option_sites();
    let (site, k) = &all[s.cycle(all.len() as u64) as usize];
    let g = &l.groups[site.group]; let o = &crate::gen_table::OPS[site.group];
    let f = site.field();
    let mut t = (o.default)();
    let err = |e: String| Fail::new("field cannot be reached by name", e);
    let stored = site.in_tag();
    ctx.nontrivial_s(&format!("{}#{k}", site.name()));
    let save = |t: &dyn PrimaryTagStructDyn| -> Result<Vec<u8>, Fail> { t.to_tag_file().map_err(|e| Fail::new("tag not written", e.to_string())) };
    match f.ty {
        Ty::Enum(e) => {
            let opts: Vec<&OptDef> = l.enums[e].options.iter().filter(|o| !o.exclude).collect();
            let opt = &l.enums[e].options[*k];
            ctx.sample(|| format!("{} = {} ({})", site.name(), opt.matcher, opt.value));
            let d = site.reach(t.as_mut_dynamic()).map_err(err)?;
            let d = if matches!(f.count, Count::One) { d } else { d.as_array_mut().ok_or_else(|| err("no array".into()))?.get_at_index_mut(0).ok_or_else(|| err("no item".into()))? };
            let en = d.as_enum_mut().ok_or_else(|| Fail::new("not an enumeration", site.name()))?;
            ensure_eq!(en.get_possible_enum_string_values().to_vec(), opts.iter().map(|o| o.matcher.as_str()).collect::<Vec<_>>(), "list of option names", "{}", site.name());
            ensure_eq!(en.get_enum_string_value(), opts[0].matcher.as_str(), "default option", "{}", site.name());
            if opt.exclude {
                if !opts.iter().any(|x| x.matcher == opt.matcher) { ensure!(en.set_enum_string_value(&opt.matcher).is_err(), "excluded option accepted", "{} {}", site.name(), opt.matcher); }
                return Ok(())
            }
            if let Err(x) = en.set_enum_string_value(&opt.matcher) { fail!("option name refused", "{} = {}: {x}", site.name(), opt.matcher) }
            ensure_eq!(en.get_enum_string_value(), opt.matcher.as_str(), "name does not round trip", "{}", site.name());
            let mut bad = opt.matcher.clone();
            match s.below(5) { 0 => bad.push('x'), 1 => { bad.pop(); } 2 => bad = bad.to_uppercase(), 3 => bad = format!("{}", opt.value), _ => bad = opt.name.clone() + " " }
            if !opts.iter().any(|x| x.matcher == bad) { ensure!(en.set_enum_string_value(&bad).is_err(), "unknown option accepted", "{} {bad:?}", site.name()); ensure_eq!(en.get_enum_string_value(), opt.matcher.as_str(), "refused name changes the value", "{}", site.name()); }
            if stored {
                let b = save(t.as_ref())?;
                let v = get_struct(l, g.st, t.as_dynamic(), "").map_err(err)?;
                // the code stored in the file, found by writing the reference encoding
                ensure!(encode_tag(l, g, &canon_struct(l, g.st, &v)) == b, "option stored under another number", "{} = {} should be {}", site.name(), opt.matcher, opt.value);
                let back = (o.read)(&b, ParseStrictness::Strict).map_err(|e| Fail::new("own file not read", e.to_string()))?;
                let w = get_struct(l, g.st, back.as_dynamic(), "").map_err(err)?;
                let got = site.value(&w); let got = match got { Some(V::Arr(a)) => a.first(), x => x };
                ensure_eq!(got, Some(&V::N(opt.value)), "number does not round trip", "{} = {}", site.name(), opt.matcher);
            }
        }
        Ty::Bits(b) => {
            let bd = &l.bits[b]; let opt = &bd.options[*k];
            let known: Vec<&OptDef> = bd.options.iter().filter(|o| !o.exclude).collect();
            ctx.sample(|| format!("{}.{} ({:#x})", site.name(), opt.matcher, opt.value));
            let d = site.reach(t.as_mut_dynamic()).map_err(err)?;
            ensure_eq!(d.fields().to_vec(), known.iter().map(|o| o.matcher.as_str()).collect::<Vec<_>>(), "list of flag names", "{}", site.name());
            if opt.exclude { return Ok(()) }
            // a random other set of flags as well
            let mut bits = 0u32;
            for o in &known { if s.chance(1, 3) { bits |= o.value; } }
            bits |= opt.value;
            for o in &known { match d.get_field_mut(&o.matcher).and_then(|x| x.as_any_mut().downcast_mut::<bool>()) { Some(x) => *x = bits & o.value != 0, None => fail!("flag not found", "{}.{}", site.name(), o.matcher) } }
            ensure!(d.get_field(&format!("{}x", opt.matcher)).is_none() || known.iter().any(|o| o.matcher == format!("{}x", opt.matcher)), "unknown flag found", "{}", site.name());
            let m = site.reach(t.as_mut_dynamic()).map_err(err)?.get_metadata_for_field(&opt.matcher);
            match m { Some(m) => ensure_eq!((m.cache_only, m.non_cached), (opt.cache_only, opt.non_cached), "flag marked wrongly", "{}.{}", site.name(), opt.matcher), None => fail!("flag not described", "{}.{}", site.name(), opt.matcher) }
            if stored {
                let file = save(t.as_ref())?;
                let v = get_struct(l, g.st, t.as_dynamic(), "").map_err(err)?;
                ensure!(encode_tag(l, g, &canon_struct(l, g.st, &v)) == file, "flag stored in another bit", "{}.{} should be {:#x}", site.name(), opt.matcher, opt.value);
                let back = (o.read)(&file, ParseStrictness::Strict).map_err(|e| Fail::new("own file not read", e.to_string()))?;
                let w = get_struct(l, g.st, back.as_dynamic(), "").map_err(err)?;
                let keep = known.iter().filter(|o| !o.cache_only).fold(0, |a, o| a | o.value);
                ensure_eq!(site.value(&w), Some(&V::N(bits & keep)), "flags do not round trip", "{}", site.name());
            }
        }
        _ => ()
    }
    Ok(())
}
pub static C06: Check = Check {
    id: "C06", terminates: false,
    subs: &[Sub { name: "groups", quick: 67_200, thorough: 840_000, run: c06_groups }, Sub { name: "ids", quick: 800_000, thorough: 20_000_000, run: c06_ids }, Sub { name: "options", quick: 320_000, thorough: 1_000_000, run: c06_options }],
    rule: "A case is one tag group with a second group and a near-miss name and code (all groups are visited), one index/salt pair and one 32-bit pattern, or one option or flag of one enumeration or flag field of one group (all are visited) set by name, saved, and compared with the layout. All are non-trivial; distinct by name or numbers.",
    assumptions: &["index 0xFFFF with an all-zero salt is the null identifier and outside the domain of ID::new"],
};
