//! C23: images and colour plates through import and export.
use crate::engine::*;
use flate2::{write::ZlibEncoder, Compression};
use ringhopper::data::bitmap::{plate::*, *};
use ringhopper::tag::bitmap::extract_compressed_color_plate_data;
use ringhopper::tag::recover::get_recover_function;
use ringhopper_primitives::primitive::*;
use ringhopper_primitives::tag::PrimaryTagStructDyn;
use ringhopper_structs::Bitmap;
use std::io::Write;
use std::path::Path;

#[derive(Clone, PartialEq, Debug)]
pub struct Pic { pub w: usize, pub h: usize, pub px: Vec<u32> }
impl Pic {
    pub fn image(&self) -> Image { Image { width: self.w, height: self.h, data: self.px.iter().map(|p| ColorARGBInt::from(*p)).collect() } }
    pub fn at(&self, x: usize, y: usize) -> u32 { self.px[x + y * self.w] }
    fn channels(&self, kind: Kind) -> Vec<u8> {
        let mut out = vec![];
        for p in &self.px {
            let [a, r, g, b] = p.to_be_bytes();
            match kind { Kind::Grey => out.push(r), Kind::GreyA => out.extend([r, a]), Kind::Rgb => out.extend([r, g, b]), Kind::Rgba => out.extend([r, g, b, a]) }
        }
        out
    }
    /// what is left of the picture once stored that way
    pub fn stored(&self, kind: Kind) -> Pic {
        let px = self.px.iter().map(|p| match kind {
            Kind::Grey => 0xFF000000 | (p >> 16 & 0xFF) * 0x010101,
            Kind::GreyA => p & 0xFF000000 | (p >> 16 & 0xFF) * 0x010101,
            Kind::Rgb => p | 0xFF000000,
            Kind::Rgba => *p,
        }).collect();
        Pic { px, ..*self }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Grey, GreyA, Rgb, Rgba }
pub const KINDS: [Kind; 4] = [Kind::Grey, Kind::GreyA, Kind::Rgb, Kind::Rgba];
impl Kind { fn n(self) -> usize { match self { Kind::Grey => 1, Kind::GreyA => 2, Kind::Rgb => 3, Kind::Rgba => 4 } } }

pub fn pic_of(i: &Image) -> Pic { Pic { w: i.width, h: i.height, px: i.data.iter().map(|p| u32::from(*p)).collect() } }
fn colour(s: &mut Src) -> u32 {
    match s.below(8) {
        0 => *s.pick(&[0xFF0000FF, 0xFFFF00FF, 0xFF000000, 0xFFFFFFFF, 0x000000FF, 0x00FF00FF, 0xFFFFFFFE, 0xFF000001, 0xFF00FFFF, 0, 0x80808080]),
        1 => { let v = s.u8() as u32; 0xFF000000 | v * 0x010101 }
        2 => { let v = s.below(4) as u32; let a = *s.pick(&[0u32, 0xFF]); a << 24 | if s.bool() { v } else { 0xFFFFFF - v } }
        _ => s.u32(),
    }
}
pub fn gen_pic(s: &mut Src, max: usize) -> Pic {
    let side = |s: &mut Src| match s.below(4) { 0 => 1, 1 => s.usize(1, 4.min(max)), 2 => 1 << s.below((max as f64).log2() as u64 + 1), _ => s.usize(1, max) };
    let (w, h) = (side(s), side(s));
    let palette: Vec<u32> = if s.bool() { (0..s.usize(1, 6)).map(|_| colour(s)).collect() } else { vec![] };
    let px = (0..w * h).map(|_| if palette.is_empty() { colour(s) } else { *s.pick(&palette) }).collect();
    Pic { w, h, px }
}
fn zlib(s: &mut Src, data: &[u8]) -> Vec<u8> {
    let level = *s.pick(&[0, 1, 6, 9]);
    let mut e = ZlibEncoder::new(vec![], Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

// ---- PNG ----
fn chunk(out: &mut Vec<u8>, kind: &[u8; 4], body: &[u8]) {
    out.extend((body.len() as u32).to_be_bytes());
    let at = out.len();
    out.extend(kind);
    out.extend(body);
    let c = crc(&out[at..]);
    out.extend(c.to_be_bytes());
}
fn crc(b: &[u8]) -> u32 { let mut c = flate2::Crc::new(); c.update(b); c.sum() }
fn filtered(s: &mut Src, rows: &[u8], stride: usize, bpp: usize, out: &mut Vec<u8>) {
    let zero = vec![0; stride];
    let mut up: &[u8] = &zero;
    for row in rows.chunks(stride) {
        let f = s.below(5) as u8;
        out.push(f);
        for i in 0..row.len() {
            let a = if i >= bpp { row[i - bpp] as i32 } else { 0 };
            let b = up[i] as i32;
            let c = if i >= bpp { up[i - bpp] as i32 } else { 0 };
            let p = match f { 0 => 0, 1 => a, 2 => b, 3 => (a + b) / 2, _ => { let p = a + b - c; let (pa, pb, pc) = ((p - a).abs(), (p - b).abs(), (p - c).abs()); if pa <= pb && pa <= pc { a } else if pb <= pc { b } else { c } } };
            out.push(row[i].wrapping_sub(p as u8));
        }
        up = row;
    }
}
/// a PNG holding `bytes` of `n` bytes per pixel
fn png_of(s: &mut Src, w: usize, h: usize, bytes: &[u8], n: usize, colour: u8, depth: u8, extra: bool) -> Vec<u8> {
    let interlace = s.chance(1, 3);
    let mut raw = vec![];
    if interlace {
        for (x0, y0, dx, dy) in [(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)] {
            let xs: Vec<usize> = (x0..w).step_by(dx).collect();
            if xs.is_empty() { continue }
            let mut rows = vec![];
            for y in (y0..h).step_by(dy) { for &x in &xs { rows.extend_from_slice(&bytes[(x + y * w) * n..(x + y * w + 1) * n]) } }
            filtered(s, &rows, xs.len() * n, n, &mut raw);
        }
    }
    else { filtered(s, bytes, w * n, n, &mut raw) }
    let mut out = b"\x89PNG\r\n\x1a\n".to_vec();
    let mut head = vec![];
    head.extend((w as u32).to_be_bytes());
    head.extend((h as u32).to_be_bytes());
    head.extend([depth, colour, 0, 0, interlace as u8]);
    chunk(&mut out, b"IHDR", &head);
    if colour == 3 { chunk(&mut out, b"PLTE", &[7; 768]) }
    if extra && s.bool() { chunk(&mut out, b"gAMA", &45455u32.to_be_bytes()) }
    if extra && s.bool() { chunk(&mut out, b"tEXt", b"Comment\0plate") }
    let z = zlib(s, &raw);
    let pieces = s.usize(1, 4);
    for part in z.chunks(z.len().div_ceil(pieces)) { chunk(&mut out, b"IDAT", part) }
    chunk(&mut out, b"IEND", &[]);
    out
}
pub fn png(s: &mut Src, p: &Pic, kind: Kind) -> Vec<u8> { png_of(s, p.w, p.h, &p.channels(kind), kind.n(), match kind { Kind::Grey => 0, Kind::GreyA => 4, Kind::Rgb => 2, Kind::Rgba => 6 }, 8, true) }

// ---- TIFF ----
fn packbits(s: &mut Src, data: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    while i < data.len() {
        let mut run = 1;
        while i + run < data.len() && run < 128 && data[i + run] == data[i] { run += 1 }
        if run > 1 { out.extend([(1 - run as i32) as i8 as u8, data[i]]); i += run }
        else { let n = s.usize(1, 5).min(data.len() - i); out.push(n as u8 - 1); out.extend(&data[i..i + n]); i += n }
    }
    out
}
/// literals only, cleared before the codes would grow
fn lzw(data: &[u8]) -> Vec<u8> {
    let mut bits: Vec<u16> = vec![];
    for part in data.chunks(200) { bits.push(256); bits.extend(part.iter().map(|b| *b as u16)) }
    bits.push(257);
    let (mut out, mut acc, mut n) = (vec![], 0u32, 0);
    for c in bits { acc = acc << 9 | c as u32; n += 9; while n >= 8 { n -= 8; out.push((acc >> n) as u8); } acc &= (1 << n) - 1; }
    if n > 0 { out.push((acc << (8 - n)) as u8) }
    out
}
#[derive(Debug)]
pub struct Tiff { pub bytes: Vec<u8>, pub plain: bool, pub what: String }
pub fn tiff(s: &mut Src, p: &Pic, kind: Kind) -> Tiff {
    let data = p.channels(kind);
    tiff_of(s, p.w, p.h, &data, kind.n(), match kind { Kind::Grey | Kind::GreyA => 1, _ => 2 }, 8)
}
/// `data` holds `n` samples per pixel of `depth` bits (8, or little-endian 16)
fn tiff_of(s: &mut Src, w: usize, h: usize, data: &[u8], n: usize, photometric: u32, depth: usize) -> Tiff {
    let big = s.bool();
    let planar = n > 1 && s.chance(1, 8);
    let tiled = s.chance(1, 4);
    let compression = *s.pick(&[1u32, 1, 32773, 8, 32946, 5]);
    let predictor = compression != 1 && compression != 32773 && s.bool();
    let size = depth / 8;
    let (cw, ch) = if tiled { (16 * s.usize(1, 3), 16 * s.usize(1, 3)) } else { (w, if s.bool() { h } else { s.usize(1, h) }) };
    let (across, down) = (w.div_ceil(cw), h.div_ceil(ch));
    let planes: Vec<Vec<usize>> = if planar { (0..n).map(|i| vec![i]).collect() } else { vec![(0..n).collect()] };
    let mut parts: Vec<Vec<u8>> = vec![];
    for plane in &planes {
        for cy in 0..down { for cx in 0..across {
            let rows = if tiled { ch } else { ch.min(h - cy * ch) };
            let mut raw = vec![];
            for y in 0..rows {
                let start = raw.len();
                for x in 0..cw { for &c in plane {
                    let (gx, gy) = (cx * cw + x, cy * ch + y);
                    if gx < w && gy < h { let at = ((gx + gy * w) * n + c) * size; if size == 2 && big { raw.extend([data[at + 1], data[at]]) } else { raw.extend(&data[at..at + size]) } }
                    else { raw.extend(std::iter::repeat(0xA5).take(size)) }
                } }
                if predictor && size == 1 { let k = plane.len(); for i in (start + k..raw.len()).rev() { raw[i] = raw[i].wrapping_sub(raw[i - k]) } }
            }
            parts.push(match compression { 1 => raw, 32773 => { let row = cw * plane.len() * size; raw.chunks(row).flat_map(|r| packbits(s, r)).collect() } 5 => lzw(&raw), _ => zlib(s, &raw) });
        } }
    }
    let u16b = |v: u32| -> Vec<u8> { if big { (v as u16).to_be_bytes().to_vec() } else { (v as u16).to_le_bytes().to_vec() } };
    let u32b = |v: u32| -> Vec<u8> { if big { v.to_be_bytes().to_vec() } else { v.to_le_bytes().to_vec() } };
    let mut out: Vec<u8> = if big { b"MM".to_vec() } else { b"II".to_vec() };
    out.extend(u16b(42));
    out.extend([0; 4]);
    let mut offsets = vec![];
    let mut sizes = vec![];
    for part in &parts { if out.len() % 2 == 1 { out.push(0) } offsets.push(out.len() as u32); sizes.push(part.len() as u32); out.extend(part) }
    let mut tags: Vec<(u32, bool, Vec<u32>)> = vec![(256, false, vec![w as u32]), (257, false, vec![h as u32]), (258, false, vec![depth as u32; n]), (259, false, vec![compression]), (262, false, vec![photometric]), (277, false, vec![n as u32]), (284, false, vec![if planar { 2 } else { 1 }])];
    if tiled { tags.extend([(322, false, vec![cw as u32]), (323, false, vec![ch as u32]), (324, true, offsets), (325, true, sizes)]) }
    else { tags.extend([(273, true, offsets), (278, false, vec![ch as u32]), (279, true, sizes)]) }
    if predictor { tags.push((317, false, vec![2])) }
    if photometric == 3 { tags.push((320, false, (0..768).map(|i| i * 257 % 65536).collect())) }
    if n == 2 || n == 4 && photometric == 2 { tags.push((338, false, vec![2])) }
    tags.sort();
    let mut ifd = u16b(tags.len() as u32);
    for (id, wide, values) in tags {
        ifd.extend(u16b(id));
        ifd.extend(u16b(if wide { 4 } else { 3 }));
        ifd.extend(u32b(values.len() as u32));
        let mut b: Vec<u8> = values.iter().flat_map(|v| if wide { u32b(*v) } else { u16b(*v) }).collect();
        if b.len() <= 4 { b.resize(4, 0); ifd.extend(b) }
        else { if out.len() % 2 == 1 { out.push(0) } ifd.extend(u32b(out.len() as u32)); out.extend(b) }
    }
    ifd.extend([0; 4]);
    if out.len() % 2 == 1 { out.push(0) }
    let at = u32b(out.len() as u32);
    out[4..8].copy_from_slice(&at);
    out.extend(ifd);
    let what = format!("{}{}{}compression {compression}{}", if big { "big-endian " } else { "" }, if planar { "planar " } else { "" }, if tiled { "tiled " } else { "" }, if predictor { " with predictor" } else { "" });
    // one strip or tile per plane and nothing else unusual: has to be readable
    Tiff { bytes: out, plain: !planar && (photometric == 2 && n >= 3 || photometric == 1 && n == 1) && depth == 8, what }
}

// ---- JPEG XL: one lossless frame, no prediction, one fixed prefix code ----
struct Bits { out: Vec<u8>, n: usize }
impl Bits {
    fn put(&mut self, v: u64, n: usize) { for i in 0..n { if self.n % 8 == 0 { self.out.push(0) } if v >> i & 1 == 1 { *self.out.last_mut().unwrap() |= 1 << (self.n % 8) } self.n += 1 } }
    fn align(&mut self) { self.n = self.out.len() * 8 }
    fn depth(&mut self, d: usize) { self.put(0, 1); match d { 8 => self.put(0, 2), 10 => self.put(1, 2), 12 => self.put(2, 2), _ => { self.put(3, 2); self.put(d as u64 - 1, 6) } } }
    fn side(&mut self, v: usize) { let v = v as u64 - 1; if v < 512 { self.put(0, 2); self.put(v, 9) } else if v < 1 << 13 { self.put(1, 2); self.put(v, 13) } else if v < 1 << 18 { self.put(2, 2); self.put(v, 18) } else { self.put(3, 2); self.put(v & ((1 << 30) - 1), 30) } }
    /// packed signed integer
    fn value(&mut self, v: u64) {
        let v = v * 2;
        let t = if v == 0 { 0 } else { 64 - v.leading_zeros() as u64 };
        let (code, n) = if t < 14 { (t, 4) } else { (28 + t - 14, 5) };
        for i in (0..n).rev() { self.put(code >> i & 1, 1) }
        if t > 1 { self.put(v & ((1 << (t - 1)) - 1), t as usize - 1) }
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Jxl { pub depth: usize, pub orientation: u64, /// channels that are neither colour nor alpha, before and after alpha
    pub more: (usize, usize), pub fake: u64, /// size in the header, if it is not that of the picture
    pub size: Option<(usize, usize)> }
pub fn jxl(p: &Pic, kind: Kind, o: &Jxl) -> Vec<u8> {
    let mut b = Bits { out: vec![], n: 0 };
    b.put(0x0AFF, 16);
    b.put(0, 1);
    let (w, h) = o.size.unwrap_or((p.w, p.h));
    b.side(h);
    b.put(0, 3);
    b.side(w);
    let alpha = kind == Kind::GreyA || kind == Kind::Rgba;
    let grey = kind == Kind::Grey || kind == Kind::GreyA;
    let extra = o.more.0 + o.more.1 + alpha as usize;
    b.put(0, 1);
    if o.orientation != 1 { b.put(1, 1); b.put(o.orientation - 1, 3); b.put(0, 3) } else { b.put(0, 1) }
    b.depth(o.depth);
    b.put((o.depth <= 12) as u64, 1);
    match extra { 0 => b.put(0, 2), 1 => b.put(1, 2), n => { b.put(2, 2); b.put(n as u64 - 2, 4) } }
    for i in 0..extra {
        if alpha && i == o.more.0 && o.depth == 8 { b.put(1, 1); continue }
        b.put(0, 1);
        if alpha && i == o.more.0 { b.put(0, 2) } else { b.put(1, 2) }
        b.depth(o.depth);
        b.put(0, 2);
        b.put(0, 2);
        if alpha && i == o.more.0 { b.put(0, 1) }
    }
    b.put(0, 1);
    if grey { b.put(0, 2); b.put(1, 2); b.put(1, 2); b.put(0, 1); b.put(2, 2); b.put(11, 4); b.put(1, 2) } else { b.put(1, 1) }
    if o.orientation != 1 { b.put(1, 1) }
    b.put(0, 2);
    b.put(1, 1);
    b.align();
    // frame header
    b.put(0, 1);
    b.put(0, 2);
    b.put(1, 1);
    b.put(0, 2);
    b.put(0, 1);
    b.put(0, 2 + 2 * extra);
    b.put(3, 2);
    b.put(0, 2);
    b.put(0, 1);
    b.put(0, 2 + 2 * extra);
    b.put(1, 1);
    b.put(0, 2);
    b.put(0, 1);
    b.put(0, 1);
    b.put(0, 2);
    b.put(0, 2);
    b.put(0, 2);
    // the one section
    let mut c = Bits { out: vec![], n: 0 };
    c.put(1, 1);
    c.put(1, 1);
    c.put(0, 1); c.put(1, 1); c.put(0, 2); c.put(1, 1); c.put(0, 4); c.put(0, 1);
    c.put(0, 1); c.put(1, 1); c.put(0, 4); c.put(1, 1); c.put(4, 4); c.put(1, 4);
    c.put(0, 2);
    c.put(0, 6); c.put(3, 2); c.put(1, 2); c.put(0, 2); c.put(3, 2); c.put(1, 2);
    c.put(0, 14); c.put(15, 4);
    c.put(1, 1);
    c.put(1, 1);
    c.put(0, 2);
    let scale = ((1u64 << o.depth) - 1) as f64 / 255.0;
    let mut channel = |f: &dyn Fn(u32) -> u32| for px in &p.px { c.value((f(*px) as f64 * scale).round() as u64) };
    if grey { channel(&|p| p >> 16 & 255) } else { for sh in [16, 8, 0] { channel(&|p| p >> sh & 255) } }
    for i in 0..extra { if alpha && i == o.more.0 { channel(&|p| p >> 24) } else { channel(&|p| (p ^ o.fake as u32) & 255) } }
    c.align();
    b.put(0, 1);
    b.align();
    let n = c.out.len() as u64;
    if n < 1024 { b.put(0, 2); b.put(n, 10) } else if n < 17408 { b.put(1, 2); b.put(n - 1024, 14) } else { b.put(2, 2); b.put(n - 17408, 22) }
    b.align();
    b.out.extend(c.out);
    b.out
}
impl Pic {
    /// as it is seen with that orientation (numbered as in EXIF)
    pub fn turned(&self, o: u64) -> Pic {
        let (w, h) = if o > 4 { (self.h, self.w) } else { (self.w, self.h) };
        let px = (0..h).flat_map(|y| (0..w).map(move |x| (x, y))).map(|(x, y)| {
            let (x, y) = match o { 1 => (x, y), 2 => (w - 1 - x, y), 3 => (w - 1 - x, h - 1 - y), 4 => (x, h - 1 - y), 5 => (y, x), 6 => (y, w - 1 - x), 7 => (h - 1 - y, w - 1 - x), _ => (h - 1 - y, x) };
            self.at(x, y)
        }).collect();
        Pic { w, h, px }
    }
}
/// a picture that can be stored with that many bits per sample exactly
fn fit(p: &Pic, depth: usize) -> Pic {
    let top = (1u32 << depth) - 1;
    if depth >= 8 { return p.clone() }
    Pic { px: p.px.iter().map(|p| u32::from_be_bytes(p.to_be_bytes().map(|b| ((b as u32 & top) * (255 / top)) as u8))).collect(), ..*p }
}
fn gen_jxl(s: &mut Src, plain: bool) -> Jxl {
    Jxl { depth: if plain || s.bool() { 8 } else { *s.pick(&[1, 2, 4, 16]) }, orientation: if plain || s.bool() { 1 } else { s.range(1, 8) }, more: if !plain && s.chance(1, 4) { (s.usize(0, 2), s.usize(0, 2)) } else { (0, 0) }, fake: s.u8() as u64, size: None }
}

// ---- checks ----
const LIMIT: usize = 1 << 30;
fn check(name: &str, what: &str, got: ringhopper_primitives::error::RinghopperResult<Image>, want: &Pic, must: bool) -> Result<bool, Fail> {
    match got {
        Err(e) => { if must { fail!(format!("{name} refused"), "{what} of {}x{}: {e}", want.w, want.h) } Ok(false) }
        Ok(i) => {
            ensure_eq!((i.width, i.height), (want.w, want.h), format!("{name} size"), "{what}");
            ensure_eq!(i.data.len(), want.px.len(), format!("{name} pixel count"), "{what}");
            for (n, (g, w)) in i.data.iter().zip(&want.px).enumerate() { let g = u32::from(*g); ensure!(g == *w, format!("{name} pixels"), "{what}, {}x{}: pixel {},{} is {g:08X}, not {w:08X}", want.w, want.h, n % want.w, n / want.w) }
            Ok(true)
        }
    }
}
fn c23_formats(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_pic(s, 40);
    match s.below(7) {
        0 => {
            ctx.label("exported");
            let t = p.image().to_tiff();
            check("exported TIFF", "an exported TIFF", alloc_bounded(LIMIT, || Image::from_tiff(&t))?, &p, true)?;
        }
        1 | 2 => {
            let kind = *s.pick(&KINDS);
            let b = png(s, &p, kind);
            check("PNG", &format!("a {kind:?} PNG"), alloc_bounded(LIMIT, || Image::from_png(&b))?, &p.stored(kind), true)?;
            ctx.label(&format!("png {kind:?}"));
        }
        3 | 4 => {
            let kind = *s.pick(&KINDS);
            let o = gen_jxl(s, false);
            let p = fit(&p, o.depth);
            let b = jxl(&p, kind, &o);
            check("JXL", &format!("a {kind:?} JXL {o:?}"), alloc_bounded(LIMIT, || Image::from_jxl(&b))?, &p.stored(kind).turned(o.orientation), o.more == (0, 0))?;
            ctx.label(&format!("jxl {kind:?}"));
        }
        _ => {
            let kind = *s.pick(&KINDS);
            let t = tiff(s, &p, kind);
            let ok = check("TIFF", &format!("a {kind:?} {} TIFF", t.what), alloc_bounded(LIMIT, || Image::from_tiff(&t.bytes))?, &p.stored(kind), t.plain)?;
            ctx.label(&format!("tiff {kind:?}{}", if ok { "" } else { " (refused)" }));
        }
    }
    ctx.sample(|| format!("{}x{}, first pixels {:08X?}", p.w, p.h, &p.px[..p.px.len().min(4)]));
    if p.px.len() > 3 && p.px.iter().any(|x| *x != p.px[0]) { ctx.nontrivial(hash_bytes(&p.channels(Kind::Rgba))) }
    Ok(())
}
/// pictures of another depth or kind, and damaged files: refused, or at the very least well formed
fn c23_damage(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_pic(s, 12);
    let is_jxl = s.chance(1, 3);
    let is_png = !is_jxl && s.bool();
    let mut bytes;
    let mut refused = false;
    match if is_jxl { 1 + s.below(2) } else { s.below(3) } {
        0 => {
            // not 8 bits per sample, or indexed
            let wide: Vec<u8> = (0..p.px.len() * 8).map(|_| s.u8()).collect();
            refused = true;
            bytes = if is_png {
                let (colour, n) = *s.pick(&[(0u8, 1usize), (2, 3), (4, 2), (6, 4), (3, 1)]);
                if colour == 3 { let d: Vec<u8> = wide[..p.px.len()].to_vec(); png_of(s, p.w, p.h, &d, 1, 3, 8, false) }
                else { png_of(s, p.w, p.h, &wide[..p.px.len() * n * 2], n * 2, colour, 16, false) }
            }
            else {
                let (ph, n) = *s.pick(&[(1u32, 1usize), (2, 3), (2, 4), (3, 1), (5, 4)]);
                if ph == 3 || ph == 5 { tiff_of(s, p.w, p.h, &wide[..p.px.len() * n], n, ph, 8).bytes } else { tiff_of(s, p.w, p.h, &wide[..p.px.len() * n * 2], n, ph, 16).bytes }
            };
            ctx.label("unsupported");
        }
        1 => {
            let kind = *s.pick(&KINDS);
            bytes = if is_jxl { let o = gen_jxl(s, false); jxl(&p, kind, &o) } else if is_png { png(s, &p, kind) } else { tiff(s, &p, kind).bytes };
            ctx.label("damaged");
            for _ in 0..s.usize(1, 4) {
                let n = bytes.len();
                if n == 0 { break }
                match s.below(5) {
                    0 => { let k = s.usize(0, n - 1); bytes.truncate(k) }
                    1 => { let k = s.usize(0, n - 1); bytes[k] = s.u8() }
                    2 => { let k = s.usize(0, n - 1); bytes[k] ^= 1 << s.below(8) }
                    3 => { let k = s.usize(0, n.saturating_sub(4)); let v = s.u32_edge(); for (i, b) in (if s.bool() { v.to_be_bytes() } else { v.to_le_bytes() }).iter().enumerate() { if k + i < n { bytes[k + i] = *b } } }
                    _ => { let (a, k) = (s.usize(0, n - 1), s.usize(1, 8)); bytes.drain(a..(a + k).min(n)); }
                }
            }
        }
        _ => {
            // a header that promises another size than there is data for
            ctx.label("resized");
            let kind = *s.pick(&KINDS);
            let side = |s: &mut Src, was: usize| match s.below(4) { 0 => s.u32_edge(), 1 => was as u32 + s.u16() as u32, 2 => 0, _ => s.below(was as u64) as u32 };
            let (w, h) = (side(s, p.w), side(s, p.h));
            let (w, h) = match s.below(3) { 0 => (p.w as u32, h), 1 => (w, p.h as u32), _ => (w, h) };
            if is_jxl {
                let mut o = gen_jxl(s, false);
                o.size = Some(((w as usize).clamp(1, 1 << 30), (h as usize).clamp(1, 1 << 30)));
                bytes = jxl(&p, kind, &o);
            }
            else if is_png {
                bytes = png(s, &p, kind);
                bytes[16..20].copy_from_slice(&w.to_be_bytes());
                bytes[20..24].copy_from_slice(&h.to_be_bytes());
                let c = crc(&bytes[12..29]);
                bytes[29..33].copy_from_slice(&c.to_be_bytes());
                refused = w == 0 || h == 0 || w as u64 * h as u64 > p.px.len() as u64 * 1000 + 100;
            }
            else {
                bytes = tiff(s, &p, kind).bytes;
                let big = bytes[0] == b'M';
                let get16 = |b: &[u8], at: usize| if big { u16::from_be_bytes([b[at], b[at + 1]]) } else { u16::from_le_bytes([b[at], b[at + 1]]) };
                let at = if big { u32::from_be_bytes(bytes[4..8].try_into().unwrap()) } else { u32::from_le_bytes(bytes[4..8].try_into().unwrap()) } as usize;
                for i in 0..get16(&bytes, at) as usize {
                    let e = at + 2 + i * 12;
                    let v = match get16(&bytes, e) { 256 => w, 257 => h, _ => continue };
                    let (ty, v) = if big { (4u16.to_be_bytes(), v.to_be_bytes()) } else { (4u16.to_le_bytes(), v.to_le_bytes()) };
                    bytes[e + 2..e + 4].copy_from_slice(&ty);
                    bytes[e + 8..e + 12].copy_from_slice(&v);
                }
                refused = w == 0 || h == 0;
            }
        }
    }
    let r = alloc_bounded(if is_jxl { 5 << 30 } else { LIMIT }, || if is_jxl { Image::from_jxl(&bytes) } else if is_png { Image::from_png(&bytes) } else { Image::from_tiff(&bytes) })?;
    let kind = if is_jxl { "JXL" } else if is_png { "PNG" } else { "TIFF" };
    match r {
        Err(_) => ctx.label("refused"),
        Ok(i) => {
            ensure!(!refused, format!("{kind} taken"), "an unsupported or inconsistent {kind} was read as {}x{}", i.width, i.height);
            ensure!(i.width > 0 && i.height > 0 && i.data.len() == i.width * i.height, format!("{kind} inconsistent"), "{}x{} with {} pixels", i.width, i.height, i.data.len());
            ctx.label("still read");
        }
    }
    ctx.sample(|| format!("{kind} of {} bytes", bytes.len()));
    ctx.nontrivial(hash_bytes(&bytes));
    Ok(())
}

// ---- plates ----
fn rgb(c: u32) -> u32 { c & 0xFFFFFF }
/// split a plate by its key colours
fn split(p: &Pic, padding: bool) -> Result<Vec<Vec<Pic>>, Fail> {
    ensure!(p.w >= 4 && p.h >= 1, "plate size", "{}x{}", p.w, p.h);
    let (back, divider, pad) = (rgb(p.at(0, 0)), rgb(p.at(1, 0)), rgb(p.at(2, 0)));
    ensure!(back != divider, "plate keys", "background and divider are both {back:06X}");
    ensure!(!padding || pad != back && pad != divider, "plate keys", "padding {pad:06X} is also the background {back:06X} or the divider {divider:06X}");
    for x in 3..p.w { ensure!(rgb(p.at(x, 0)) == back, "plate header", "column {x} of the first row is {:06X}", p.at(x, 0)) }
    let row_is = |y: usize, c: u32| (0..p.w).all(|x| rgb(p.at(x, y)) == c);
    let mut sequences: Vec<(usize, usize)> = vec![];
    for y in 1..p.h {
        if row_is(y, divider) { sequences.push((y + 1, y + 1)) }
        else { match sequences.last_mut() { Some(l) => l.1 = y + 1, None => ensure!(row_is(y, back), "plate header", "row {y} lies in no sequence") } }
    }
    let mut out = vec![];
    for (top, bottom) in sequences {
        let column = |x: usize| (top..bottom).any(|y| rgb(p.at(x, y)) != back);
        let mut images = vec![];
        let mut x = 0;
        while x < p.w {
            if !column(x) { x += 1; continue }
            let from = x;
            while x < p.w && column(x) { x += 1 }
            let rows: Vec<usize> = (top..bottom).filter(|y| (from..x).any(|x| rgb(p.at(x, *y)) != back)).collect();
            let (a, b) = (rows[0], rows[rows.len() - 1] + 1);
            images.push(Pic { w: x - from, h: b - a, px: (a..b).flat_map(|y| (from..x).map(move |x| (x, y))).map(|(x, y)| p.at(x, y)).collect() });
        }
        out.push(images);
    }
    Ok(out)
}
fn padding_file(s: &mut Src, palette: &[u32]) -> (Vec<u8>, Option<u32>) {
    if s.chance(1, 5) {
        let bad: Vec<u8> = match s.below(9) {
            0 => vec![], 1 => b" \r\n".to_vec(), 2 => b"FF00FF".to_vec(), 3 => b"#FF00F".to_vec(), 4 => b"#FF00FG".to_vec(),
            5 => "é12345".as_bytes().to_vec(), 6 => "#é1".as_bytes().to_vec(), 7 => "#ééé".as_bytes().to_vec(),
            _ => { let n = s.usize(0, 8); let b: Vec<u8> = s.bytes(n); if std::str::from_utf8(&b).is_ok_and(|t| t.trim().starts_with('#')) { vec![0x80] } else { b } }
        };
        return (bad, None)
    }
    let mut c = if s.bool() && !palette.is_empty() { rgb(*s.pick(palette)) } else { rgb(colour(s)) };
    if s.bool() { c = *s.pick(&[0x0000FF, 0xFF00FF, 0x00FFFF, 0xFFFFFF, 0]) }
    let short = c & 0x0F0F0F == (c >> 4) & 0x0F0F0F && s.bool();
    let mut t = if short { format!("#{:X}{:X}{:X}", c >> 16 & 15, c >> 8 & 15, c & 15) } else { format!("#{c:06X}") };
    if s.bool() { t = t.to_ascii_lowercase() }
    let t = format!("{}{t}{}", s.pick(&["", " ", "\n"]), s.pick(&["", "\n", "\r\n", "  \n"]));
    (t.into_bytes(), Some(c))
}
fn save(s: &mut Src, dir: &Path, stem: &str, p: &Pic) -> Pic {
    let (kind, bytes, ext) = match s.below(4) {
        2 => { let kind = *s.pick(&KINDS); let o = gen_jxl(s, true); (kind, jxl(p, kind, &o), "jxl") }
        0 => { let kind = *s.pick(&KINDS); (kind, png(s, p, kind), "png") }
        1 => { let kind = *s.pick(&[Kind::Rgb, Kind::Rgba]); let t = loop { let t = tiff(s, p, kind); if t.plain { break t } }; (kind, t.bytes, if s.bool() { "tif" } else { "tiff" }) }
        _ => (Kind::Rgba, p.image().to_tiff(), "tif"),
    };
    std::fs::write(dir.join(format!("{stem}.{ext}")), bytes).unwrap();
    p.stored(kind)
}
fn c23_plates(s: &mut Src, ctx: &mut Ctx) -> R {
    let dir = ctx.fresh_dir();
    let r = plates(s, ctx, &dir);
    ctx.drop_dir(&dir);
    r
}
fn plates(s: &mut Src, ctx: &mut Ctx, root: &Path) -> R {
    let dir = root.join(s.pick(&["plate", "pl.ate", "PLATE one"]));
    std::fs::create_dir(&dir).unwrap();
    let many = s.chance(1, 10);
    let mut sequences: Vec<Vec<Pic>> = vec![];
    for q in 0..if many { s.usize(0, 12) } else { s.usize(0, 4) } {
        let mut images = vec![];
        for b in 0..if many { s.usize(1, 12) } else { s.usize(1, 4) } {
            let p = gen_pic(s, if many { 3 } else { 12 });
            images.push(save(s, &dir, &format!("s{q}_{b}"), &p));
        }
        sequences.push(images);
    }
    let palette: Vec<u32> = sequences.iter().flatten().flat_map(|p| p.px.iter().copied()).collect();
    let padding = if s.chance(1, 3) { let (b, c) = padding_file(s, &palette); std::fs::write(dir.join("padding.txt"), b).unwrap(); Some(c) } else { None };
    // files that are none of the plate's
    if s.bool() { for junk in ["readme.txt", "s0_0.bmp", "s0_0.png.bak", "s99_0.png", "s0.png", "x0_0.png"] { if s.bool() { std::fs::write(dir.join(junk), b"no image").unwrap() } } }
    let broken = !sequences.is_empty() && s.chance(1, 10);
    if broken {
        let q = s.usize(0, sequences.len() - 1);
        let b = s.usize(0, sequences[q].len() - 1);
        for e in ["png", "tif", "tiff", "jxl"] { let f = dir.join(format!("s{q}_{b}.{e}")); if f.is_file() { let mut d = std::fs::read(&f).unwrap(); let keep = s.usize(0, 12); d.truncate(keep); std::fs::write(&f, d).unwrap() } }
    }
    let bad = broken || sequences.is_empty() || padding == Some(None);
    let n: usize = sequences.iter().map(|q| q.len()).sum();
    ctx.sample(|| format!("{n} images in {} sequences, padding {padding:X?}{}", sequences.len(), if bad { ", to be refused" } else { "" }));
    let r = no_panic(|| make_color_plate_from_loose(&dir))?;
    let plate = match r {
        Err(e) => { ensure!(bad, "plate refused", "{n} images in {} sequences, padding {padding:X?}: {e}", sequences.len()); ctx.label("refused"); if n > 0 { ctx.nontrivial(hash_bytes(format!("{palette:?}{padding:?}").as_bytes())) } return Ok(()) }
        Ok(p) => p,
    };
    ensure!(!bad, "plate taken", "made {}x{} from a plate with nothing in it, a bad padding colour or a broken image", plate.width, plate.height);
    ensure_eq!(plate.data.len(), plate.width * plate.height, "plate pixel count", "{}x{}", plate.width, plate.height);
    // as it is read by everything else: through the file it is saved to
    let t = plate.to_tiff();
    check("plate TIFF", "the saved plate", Image::from_tiff(&t), &pic_of(&plate), true)?;
    let plate = pic_of(&plate);
    if let Some(Some(c)) = padding { ensure_eq!(rgb(plate.at(2, 0)), c, "plate padding colour", "third pixel") } else { ensure_eq!(plate.at(2, 0), plate.at(0, 0), "plate padding colour", "third pixel without padding") }
    let parts = split(&plate, padding.is_some())?;
    ensure_eq!(parts.len(), sequences.len(), "plate sequences", "number of sequences");
    for (q, (got, want)) in parts.iter().zip(&sequences).enumerate() {
        ensure_eq!(got.len(), want.len(), "plate images", "number of images in sequence {q}");
        for (b, (g, w)) in got.iter().zip(want).enumerate() {
            ensure_eq!((g.w, g.h), (w.w, w.h), "plate image size", "image {b} of sequence {q}");
            ensure!(g == w, "plate image pixels", "image {b} of sequence {q} is not as it was");
        }
    }
    if palette.iter().any(|c| rgb(*c) == 0xFF || rgb(*c) == 0xFF00FF) { ctx.label("key colours in use") }
    if padding.is_some() { ctx.label("padding") }
    if n > 1 { ctx.label("several"); ctx.nontrivial(hash_bytes(format!("{palette:?}{padding:?}").as_bytes())) }
    Ok(())
}
/// all 24-bit colours but a few
fn c23_spectrum(s: &mut Src, ctx: &mut Ctx) -> R {
    let left_out = s.cycle(4) as usize;
    let pad_inside = s.bool();
    let dir = ctx.fresh_dir();
    let mut missing = vec![];
    while missing.len() < left_out { let c = s.below(1 << 24) as u32; if !missing.contains(&c) { missing.push(c) } }
    let instead = loop { let c = s.below(1 << 24) as u32; if !missing.contains(&c) { break c } };
    let alpha = (*s.pick(&[0xFFu32, 0, 0x80])) << 24;
    let p = Pic { w: 4096, h: 4096, px: (0..1 << 24).map(|c| alpha | if missing.contains(&c) { instead } else { c }).collect() };
    std::fs::write(dir.join("s0_0.tif"), p.image().to_tiff()).unwrap();
    let pad = if pad_inside { instead } else { *missing.last().unwrap_or(&instead) };
    let padded = s.bool();
    if padded { std::fs::write(dir.join("padding.txt"), format!("#{pad:06X}")).unwrap() }
    let free = left_out - (padded && !pad_inside && left_out > 0) as usize;
    ctx.label(&format!("{free} colours to spare"));
    ctx.sample(|| format!("all colours but {missing:X?}, padding {}", if padded { format!("{pad:06X}") } else { "none".into() }));
    ctx.nontrivial(hash_bytes(format!("{missing:?} {padded} {pad_inside}").as_bytes()));
    let r = no_panic(|| make_color_plate_from_loose(&dir));
    ctx.drop_dir(&dir);
    match r? {
        Err(e) => ensure!(free < 2, "plate refused", "{free} colours to spare: {e}"),
        Ok(plate) => {
            ensure!(free >= 2, "plate keys", "only {free} colours to spare, and still a plate");
            let parts = split(&pic_of(&plate), padded)?;
            ensure!(parts.len() == 1 && parts[0].len() == 1 && parts[0][0] == p, "plate image pixels", "a plate of all colours cannot be split back");
        }
    }
    Ok(())
}
fn c23_recover(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen_pic(s, 24);
    let mut bitmap = Bitmap::default();
    let raw: Vec<u8> = p.px.iter().flat_map(|p| p.to_le_bytes()).collect();
    let mut stored = (raw.len() as u32).to_be_bytes().to_vec();
    let (mut w, mut h) = (p.w as u16, p.h as u16);
    #[derive(PartialEq, Debug, Clone, Copy)]
    enum Want { Same, Refused, Nothing, Either }
    let (want, how) = match s.below(12) {
        0 => { stored = (raw.len() as u32).to_le_bytes().to_vec(); stored.extend(zlib(s, &raw)); (if raw.len() as u32 == (raw.len() as u32).swap_bytes() { Want::Same } else { Want::Refused }, "size in the wrong order") }
        1 => { stored.extend(zlib(s, &raw)); if s.bool() { w = 0 } else { h = 0 } (Want::Nothing, "no size") }
        2 => { stored.truncate(s.usize(0, 3)); (Want::Nothing, "no data") }
        3 => { stored.extend(zlib(s, &raw)); let k = s.range(1, 9) as u16; if s.bool() { w += k } else { h += k } (Want::Refused, "another size") }
        4 => { let more = [&raw[..], &[0; 4]].concat(); stored.extend(zlib(s, &more)); (Want::Refused, "too many pixels") }
        5 => { let z = zlib(s, &raw[..raw.len() - 1]); stored.extend(z); (Want::Refused, "too few pixels") }
        6 => { let z = zlib(s, &raw); let k = s.usize(0, z.len() - 1); stored.extend(&z[..k]); (if k + 5 > z.len() { Want::Either } else { Want::Refused }, "cut off") }
        7 => { let n = s.usize(0, 40); stored.extend(s.bytes(n)); (Want::Refused, "noise") }
        8 => { let z = zlib(s, &raw); stored.extend(z); let k = s.usize(4, stored.len() - 1); stored[k] ^= 1 << s.below(8); (Want::Either, "damaged") }
        9 => { stored = s.u32_edge().to_be_bytes().to_vec(); w = s.u16(); h = s.u16(); stored.extend(zlib(s, &raw)); if (w as usize, h as usize) == (p.w, p.h) { return Ok(()) } (if w == 0 || h == 0 { Want::Nothing } else { Want::Refused }, "made up size") }
        _ => { stored.extend(zlib(s, &raw)); (Want::Same, "") }
    };
    bitmap.color_plate.width = w;
    bitmap.color_plate.height = h;
    bitmap.color_plate.compressed_data.bytes = stored.clone();
    ctx.sample(|| format!("{}x{} plate, {}", p.w, p.h, if how.is_empty() { "intact" } else { how }));
    let saved: Vec<u8>;
    let mut tag: Box<dyn PrimaryTagStructDyn> = Box::new(bitmap);
    if s.bool() { saved = super::tree::bytes_of(&*tag)?; tag = ringhopper_structs::read_any_tag_from_file_buffer(&saved, ringhopper_primitives::tag::ParseStrictness::Strict).map_err(|e| Fail::new("oracle", format!("saved bitmap: {e}")))? }
    let bitmap = tag.as_any().downcast_ref::<Bitmap>().unwrap();
    let r = alloc_bounded(5 << 30, || extract_compressed_color_plate_data(bitmap))?;
    let path = TagPath::from_path("a\\b.c\\d.bitmap").unwrap();
    let f = alloc_bounded(5 << 30, || get_recover_function(TagGroup::Bitmap).unwrap()(&path, &tag))?;
    match (&r, &f) {
        (Ok(Some(i)), Ok(Some(f))) => {
            ensure!(want == Want::Same || want == Want::Either, "plate recovered", "plate data that is {how} was recovered as {}x{}", i.width, i.height);
            if want == Want::Same || how == "cut off" {
                check("recovered plate", "plate data", Ok(i.clone()), &p, true)?;
                ensure_eq!(f.keys().map(|k| k.to_string_lossy().replace('\\', "/")).collect::<Vec<_>>(), ["a/b.c/d.tif"], "recovered file name", "a\\b.c\\d.bitmap");
                check("recovered file", "recovered TIFF", Image::from_tiff(f.values().next().unwrap()), &p, true)?;
            }
            ctx.label("recovered");
        }
        (Ok(None), Ok(None)) => { ensure!(want == Want::Nothing, "plate not recovered", "{} plate data gave nothing", if how.is_empty() { "intact" } else { how }); ctx.label("nothing there") }
        (Err(e), Err(_)) => { ensure!(want == Want::Refused || want == Want::Either, "plate not recovered", "{} plate data: {e}", if how.is_empty() { "intact" } else { how }); ctx.label("refused") }
        (a, b) => fail!("recovery differs", "the plate is {:?} and the recovered files {:?}", a.as_ref().map(|a| a.is_some()).map_err(|e| e.to_string()), b.as_ref().map(|a| a.is_some()).map_err(|e| e.to_string())),
    }
    ctx.nontrivial(hash_bytes(&stored));
    Ok(())
}
/// images found and read by their names
fn c23_named(s: &mut Src, ctx: &mut Ctx) -> R {
    const EXT: [&str; 4] = ["jxl", "tif", "tiff", "png"];
    let root = ctx.fresh_dir();
    let stems: Vec<String> = (0..s.usize(1, 3)).map(|_| { let mut x = s.ascii_ident(1, 4); for _ in 0..s.below(3) { x.push_str(s.pick(&[".", ".png", ".x", " ", ".tif", "..", "é"])) } x }).collect();
    let mut files: std::collections::BTreeMap<String, Option<Pic>> = Default::default();
    for stem in &stems { for _ in 0..s.below(4) {
        let e = *s.pick(&["jxl", "tif", "tiff", "png", "PNG", "Tif", "JXL", "TIFF", "bmp", "jpg", "png.bak", ""]);
        let name = if e.is_empty() { stem.clone() } else { format!("{stem}.{e}") };
        if files.contains_key(&name) || root.join(&name).exists() { continue }
        if s.chance(1, 8) { std::fs::create_dir(root.join(&name)).unwrap(); continue }
        let p = gen_pic(s, 4);
        let of = name.rfind('.').filter(|d| *d > 0).map(|d| name[d + 1..].to_lowercase()).unwrap_or_default();
        let b = match of.as_str() { "png" => png(s, &p, Kind::Rgba), "tif" | "tiff" => loop { let t = tiff(s, &p, Kind::Rgba); if t.plain { break t.bytes } }, "jxl" => { let o = gen_jxl(s, true); jxl(&p, Kind::Rgba, &o) }, _ => png(s, &p, Kind::Rgba) };
        std::fs::write(root.join(&name), b).unwrap();
        files.insert(name, EXT.contains(&of.as_str()).then_some(p));
    } }
    let mut found = 0;
    for stem in &stems {
        let have: Vec<std::path::PathBuf> = EXT.iter().map(|e| root.join(format!("{stem}.{e}"))).filter(|p| p.is_file()).collect();
        match autodetect_image_extension(&root.join(stem)) {
            None => ensure!(have.is_empty(), "image not found by its name", "{stem}: {have:?}"),
            Some(p) => { ensure!(have.contains(&p), "image found which is not there", "{stem}: {p:?}, there are {have:?}"); found += 1 }
        }
    }
    for (name, p) in &files {
        match (load_image_from_path(root.join(name)), p) {
            (Ok(i), Some(p)) => ensure!(pic_of(&i) == *p, "image read from a file differs", "{name}"),
            (Err(e), Some(_)) => fail!("image file refused", "{name}: {e}"),
            (Ok(_), None) => fail!("file of unknown kind taken for an image", "{name}"),
            (Err(_), None) => ctx.label("unknown kind")
        }
    }
    for x in ["missing.png", "missing", "."] { ensure!(load_image_from_path(root.join(x)).is_err(), "image read from nothing", "{x}") }
    if found > 0 { ctx.nontrivial_s(&format!("{stems:?}{:?}", files.keys())) }
    ctx.sample(|| format!("{stems:?} among {:?}", files.keys()));
    ctx.drop_dir(&root);
    Ok(())
}
pub static C23: Check = Check {
    id: "C23", terminates: true,
    subs: &[Sub { name: "formats", quick: 16_000, thorough: 1_000_000, run: c23_formats }, Sub { name: "damage", quick: 40_000, thorough: 3_000_000, run: c23_damage }, Sub { name: "plates", quick: 8_000, thorough: 500_000, run: c23_plates }, Sub { name: "recover", quick: 20_000, thorough: 1_000_000, run: c23_recover }, Sub { name: "named", quick: 10_000, thorough: 300_000, run: c23_named }, Sub { name: "spectrum", quick: 5, thorough: 64, run: c23_spectrum }],
    rule: "A case is one picture written by this check's own PNG, TIFF (strips, tiles, planes, both byte orders, five compressions, predictor) or JPEG XL encoder and read by the library, or exported and read by both sides; one damaged, cut, unsupported or resized file; one directory of loose images in sequences, assembled and split again by a reference splitter; one bitmap tag with plate data, intact or damaged; names with and without the extensions of images, of which those are found and read that are there; or one plate that uses up the colours markers could have. Non-trivial: the picture has more than one colour, the plate at least one image, the file differs from an intact one; distinct by content.",
    assumptions: &["transparency colours (tRNS) of PNG are ignored, as the library does", "loose images are numbered without gaps from s0_0 and are at least 1x1", "the padding colour given for loose images may occur in images", "TIFF variants outside of baseline may be refused, but if taken have to be read exactly", "the tiff crate runs with its release settings (no overflow checks)"],
};
