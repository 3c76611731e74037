//! C22: walking and swizzling bitmap pixel data.
use crate::engine::*;
use ringhopper::tag::bitmap::*;
use ringhopper_primitives::primitive::ColorARGBInt;
use ringhopper_structs::{BitmapData, BitmapDataFormat, BitmapDataType};
use std::num::NonZeroUsize;

pub const FORMATS: [(BitmapDataFormat, usize, usize); 14] = [
    (BitmapDataFormat::A8, 1, 1), (BitmapDataFormat::Y8, 1, 1), (BitmapDataFormat::AY8, 1, 1), (BitmapDataFormat::P8, 1, 1),
    (BitmapDataFormat::A8Y8, 1, 2), (BitmapDataFormat::R5G6B5, 1, 2), (BitmapDataFormat::A1R5G5B5, 1, 2), (BitmapDataFormat::A4R4G4B4, 1, 2),
    (BitmapDataFormat::A8R8G8B8, 1, 4), (BitmapDataFormat::X8R8G8B8, 1, 4),
    (BitmapDataFormat::DXT1, 4, 8), (BitmapDataFormat::DXT3, 4, 16), (BitmapDataFormat::DXT5, 4, 16), (BitmapDataFormat::BC7, 4, 16)];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Flat, Cube, Solid(usize) }
/// (level, face, w, h, d, offset, bw, bh, count) of everything, in storage order; one entry per face/slice or per level
pub fn walk(w: usize, h: usize, kind: Kind, block: usize, mips: Option<usize>, faces: bool) -> Vec<[usize; 9]> {
    let mut out = vec![];
    let mut offset = 0;
    let biggest = w.max(h).max(if let Kind::Solid(d) = kind { d } else { 1 });
    let deepest = (usize::BITS - 1 - biggest.leading_zeros()) as usize;
    for m in 0..=deepest.min(mips.unwrap_or(usize::MAX)) {
        let half = |x: usize| (x >> m).max(1);
        let (w, h) = (half(w), half(h));
        let d = if let Kind::Solid(d) = kind { half(d) } else { 1 };
        let n = if kind == Kind::Cube { 6 } else { d };
        let (bw, bh) = (w.div_ceil(block), h.div_ceil(block));
        let each = bw * bh;
        if faces { for f in 0..n { out.push([m, f, w, h, d, offset, bw, bh, each]); offset += each; } }
        else { out.push([m, 0, w, h, d, offset, bw, bh, each * n]); offset += each * n; }
    }
    out
}
fn got(m: MipmapMetadata) -> [usize; 9] { [m.mipmap_index, m.face_index, m.width, m.height, m.depth, m.block_offset, m.block_width, m.block_height, m.block_count] }
pub fn side(s: &mut Src) -> usize { match s.below(6) { 0 => 1, 1 | 2 => 1 << s.below(12), 3 => s.usize(1, 20), 4 => (1usize << s.below(12)).wrapping_add_signed(if s.bool() { 1 } else { -1 }).max(1), _ => s.usize(1, 4096) } }

fn compare(name: &str, want: Vec<[usize; 9]>, mut it: impl Iterator<Item = MipmapMetadata>) -> R {
    for (i, w) in want.iter().enumerate() {
        let g = it.next().map(got);
        ensure_eq!(g, Some(*w), format!("{name} walk differs"), "{name} entry {i} of {}", want.len());
    }
    for _ in 0..3 { ensure!(it.next().is_none(), format!("{name} walk does not end"), "{name}: more than {} entries", want.len()) }
    Ok(())
}
fn c22_walk(s: &mut Src, ctx: &mut Ctx) -> R {
    let nz = |x| NonZeroUsize::new(x).unwrap();
    let (w, h) = (side(s), side(s));
    let kind = match s.below(3) { 0 => Kind::Flat, 1 => Kind::Cube, _ => Kind::Solid(match s.below(4) { 0 => 1, 1 => 1 << s.below(8), 2 => s.usize(1, 12), _ => s.usize(1, 256) }) };
    let block = if s.chance(1, 4) { s.usize(1, 9) } else { *s.pick(&[1, 4]) };
    let mips = match s.below(4) { 0 => None, 1 => Some(s.usize(0, 3)), 2 => Some(s.usize(0, 16)), _ => Some(65535) };
    let mt = match kind { Kind::Flat => MipmapType::TwoDimensional, Kind::Cube => MipmapType::Cubemap, Kind::Solid(d) => MipmapType::ThreeDimensional(nz(d)) };
    let faces = walk(w, h, kind, block, mips, true);
    let levels = walk(w, h, kind, block, mips, false);
    compare("face", faces.clone(), MipmapFaceIterator::new(nz(w), nz(h), mt, nz(block), mips))?;
    compare("texture", levels.clone(), MipmapTextureIterator::new(nz(w), nz(h), mt, nz(block), mips))?;
    ensure_eq!(faces.iter().map(|f| f[8]).sum::<usize>(), levels.iter().map(|f| f[8]).sum::<usize>(), "oracle", "totals");
    ctx.label(match kind { Kind::Flat => "2d", Kind::Cube => "cube", _ => "3d" });
    ctx.sample(|| format!("{w}x{h} {kind:?} block {block} mipmaps {mips:?}: {} faces in {} levels", faces.len(), levels.len()));
    if levels.len() > 1 && (w != h || kind != Kind::Flat || block > 1) { ctx.nontrivial(hash_bytes(format!("{w} {h} {kind:?} {block} {mips:?}").as_bytes())) }
    Ok(())
}
fn c22_data(s: &mut Src, ctx: &mut Ctx) -> R {
    let (format, block, bytes) = FORMATS[s.cycle(14) as usize];
    ensure_eq!(pixels_per_block_length(format).get(), block, "block length", "pixels per block side of {format}");
    ensure_eq!(bytes_per_block(format).get(), bytes, "block bytes", "bytes per block of {format}");
    ensure_eq!(bits_per_pixel(format).get(), bytes * 8 / (block * block), "pixel bits", "bits per pixel of {format}");
    ensure_eq!(COMPRESSED_BITMAP_DATA_FORMATS.contains(&format), block == 4, "compressed formats", "{format} is block compressed");
    let dim = |s: &mut Src| if s.chance(1, 12) { 0 } else { side(s) };
    let (w, h, d) = (dim(s), dim(s), if s.chance(1, 6) { 0 } else { s.usize(1, 64) });
    let t = *s.pick(&[BitmapDataType::_2dTexture, BitmapDataType::_3dTexture, BitmapDataType::CubeMap]);
    let mips = if s.bool() { s.usize(0, 14) } else { s.u16() as usize };
    let data = BitmapData { width: w as u16, height: h as u16, depth: d as u16, _type: t, format, mipmap_count: mips as u16, pixel_data_offset: s.u32(), pixel_data_size: s.u32(), ..Default::default() };
    let kind = match t { BitmapDataType::_2dTexture => Kind::Flat, BitmapDataType::CubeMap => Kind::Cube, _ => Kind::Solid(d) };
    let bad = w == 0 || h == 0 || kind == Kind::Solid(0);
    let (f, l) = (MipmapFaceIterator::new_from_bitmap_data(&data), MipmapTextureIterator::new_from_bitmap_data(&data));
    if bad {
        ensure!(f.is_err() && l.is_err(), "empty bitmap walked", "{w}x{h}x{d} {t} was accepted");
        ensure_eq!(MipmapType::get_mipmap_type(&data).is_err(), kind == Kind::Solid(0), "mipmap type", "type of {w}x{h}x{d} {t}");
        ctx.label("refused");
        return Ok(())
    }
    let (Ok(f), Ok(l)) = (f, l) else { fail!("bitmap refused", "{w}x{h}x{d} {t} {format}") };
    compare("face", walk(w, h, kind, block, Some(mips), true), f)?;
    compare("texture", walk(w, h, kind, block, Some(mips), false), l)?;
    ctx.sample(|| format!("{w}x{h}x{d} {t} {format}, {mips} mipmaps"));
    if mips > 0 { ctx.nontrivial(hash_bytes(format!("{w} {h} {d} {t} {format} {mips}").as_bytes())) }
    Ok(())
}
/// where the pixel at x, y, z of a console texture is stored
pub fn morton(x: usize, y: usize, z: usize, w: usize, h: usize, d: usize) -> usize {
    let mut out = 0;
    if d > 1 {
        for b in 0..20 { out |= (x >> b & 1) << (3 * b) | (y >> b & 1) << (3 * b + 1) | (z >> b & 1) << (3 * b + 2) }
        return out
    }
    let n = w.min(h);
    for b in 0..20 { out |= (x % n >> b & 1) << (2 * b) | (y % n >> b & 1) << (2 * b + 1) }
    out + (x / n + y / n) * n * n
}
fn permute<T: Swizzlable + PartialEq + std::fmt::Debug>(data: &[T], junk: T, w: usize, h: usize, d: usize) -> R {
    let mut want = data.to_vec();
    for z in 0..d { for y in 0..h { for x in 0..w { want[morton(x, y, z, w, h, d)] = data[x + (y + z * h) * w] } } }
    let mut out = vec![junk; data.len()];
    let r = swizzle(data, &mut out, w, h, d, false);
    ensure!(r.is_ok(), "swizzle refused", "{w}x{h}x{d}");
    ensure!(out == want, "swizzle order", "{w}x{h}x{d}: swizzled pixels are not in Morton order");
    let mut back = vec![junk; data.len()];
    let r = swizzle(&out, &mut back, w, h, d, true);
    ensure!(r.is_ok(), "deswizzle refused", "{w}x{h}x{d}");
    ensure!(back == data, "deswizzle order", "{w}x{h}x{d}: deswizzling does not undo swizzling");
    Ok(())
}
fn c22_swizzle(s: &mut Src, ctx: &mut Ctx) -> R {
    if s.chance(1, 6) {
        let (w, h, d) = match s.below(2) { 0 => (s.usize(0, 40), s.usize(0, 40), 1usize), _ => (1 << s.below(4), 1 << s.below(4), 1 << s.below(4)) };
        let ok = w.is_power_of_two() && h.is_power_of_two() && d.is_power_of_two() && (d <= 1 || w == h && w == d);
        let data = s.bytes(w * h * d);
        let mut out = vec![0; data.len()];
        ensure_eq!(swizzle(&data, &mut out, w, h, d, s.bool()).is_ok(), ok, "swizzle dimensions", "{w}x{h}x{d} accepted");
        if !ok { ctx.label("refused"); ctx.nontrivial(hash_bytes(format!("{w} {h} {d}").as_bytes())) }
        return Ok(())
    }
    let (w, h, d) = if s.chance(1, 4) { let n = 1 << s.below(6); (n, n, n) } else if s.chance(1, 250) { let e = s.below(13); (1 << e, 1 << s.below((21 - e).min(13)), 1) } else { (1 << s.below(9), 1 << s.below(9), 1) };
    let n = w * h * d;
    ctx.label(if d > 1 { "3d" } else if w == h { "square" } else { "oblong" });
    ctx.sample(|| format!("{w}x{h}x{d}"));
    // distinct pixels where the type allows it
    match s.below(3) {
        0 => permute(&s.bytes(n), 0xA5u8, w, h, d)?,
        1 => { let k = s.u16(); permute(&(0..n).map(|i| (i as u16).wrapping_mul(40503) ^ k).collect::<Vec<u16>>(), 0xA5A5, w, h, d)? }
        _ => { let k = s.u32(); permute(&(0..n).map(|i| ColorARGBInt::from((i as u32).wrapping_mul(2654435769) ^ k)).collect::<Vec<_>>(), ColorARGBInt::from(0xA5A5A5A5), w, h, d)? }
    }
    if n > 4 { ctx.nontrivial(hash_bytes(format!("{w} {h} {d}").as_bytes()) ^ s.rec.last().copied().unwrap_or(0)) }
    Ok(())
}
pub static C22: Check = Check {
    id: "C22", terminates: true,
    subs: &[Sub { name: "walk", quick: 720_000, thorough: 3_000_000, run: c22_walk }, Sub { name: "data", quick: 720_000, thorough: 3_000_000, run: c22_data }, Sub { name: "swizzle", quick: 144_000, thorough: 500_000, run: c22_swizzle }],
    rule: "walk/data: sides 1..4096 (powers of two, their neighbours, arbitrary), flat, cube and solid bitmaps, 14 pixel formats, any mipmap count; non-trivial when there is more than one level and the bitmap is not a plain square of single pixels. swizzle: power-of-two textures with distinct pixels of all three pixel types, and refused dimensions; non-trivial from 5 pixels up.",
    assumptions: &["The console's order is taken to be: x in the lowest bit of the interleaved coordinate, oblong textures stored as consecutive squares of the shorter side."],
};
