//! C36: what sound data is, whether a sound is playable, and its repair.

use crate::engine::*;
use aotuv_lancer_vorbis_sys::*;
use ogg_next_sys::*;
use ringhopper::tag::bludgeon::{bludgeon_tag, BludgeonResult};
use ringhopper::tag::sound::*;
use ringhopper::tag::verify::sound_is_playable;
use ringhopper_primitives::primitive::{Reflexive, String32, TagGroup, TagPath};
use ringhopper_structs::*;
use std::mem::zeroed;
use std::sync::{Mutex, OnceLock};

fn bytes_of(t: &Sound) -> Vec<u8> { use ringhopper_primitives::tag::PrimaryTagStructDyn; t.to_tag_file().expect("sound tag") }
/// Encodes `n` samples per channel as one Ogg Vorbis stream.
pub fn encode(ch: i64, rate: i64, n: usize, quality: f32) -> Vec<u8> {
    let mut out = vec![];
    unsafe {
        let mut vi: vorbis_info = zeroed();
        vorbis_info_init(&mut vi);
        assert_eq!(vorbis_encode_init_vbr(&mut vi, ch as _, rate as _, quality), 0, "encoder refuses {ch} channels at {rate}");
        let (mut vd, mut vb, mut vc, mut os): (vorbis_dsp_state, vorbis_block, vorbis_comment, ogg_stream_state) = (zeroed(), zeroed(), zeroed(), zeroed());
        vorbis_comment_init(&mut vc);
        vorbis_analysis_init(&mut vd, &mut vi);
        vorbis_block_init(&mut vd, &mut vb);
        ogg_stream_init(&mut os, 7);
        let mut packets: [ogg_packet; 3] = zeroed();
        let [a, b, c] = &mut packets;
        vorbis_analysis_headerout(&mut vd, &mut vc, a, b, c);
        for p in &mut packets { ogg_stream_packetin(&mut os, p); }
        let mut og: ogg_page = zeroed();
        let mut page = |og: &ogg_page| { out.extend_from_slice(std::slice::from_raw_parts(og.header, og.header_len as usize)); out.extend_from_slice(std::slice::from_raw_parts(og.body, og.body_len as usize)) };
        while ogg_stream_flush(&mut os, &mut og) != 0 { page(&og) }
        let mut done = 0;
        loop {
            let k = (n - done).min(1024);
            if k > 0 {
                let buf = vorbis_analysis_buffer(&mut vd, k as _);
                for c in 0..ch as usize { let b = std::slice::from_raw_parts_mut(*buf.add(c), k); for (i, x) in b.iter_mut().enumerate() { *x = (((done + i) * (c + 3)) % 200) as f32 / 200.0 - 0.5 } }
            }
            vorbis_analysis_wrote(&mut vd, k as _);
            done += k;
            while vorbis_analysis_blockout(&mut vd, &mut vb) == 1 {
                vorbis_analysis(&mut vb, std::ptr::null_mut());
                vorbis_bitrate_addblock(&mut vb);
                let mut p: ogg_packet = zeroed();
                while vorbis_bitrate_flushpacket(&mut vd, &mut p) != 0 { ogg_stream_packetin(&mut os, &mut p); while ogg_stream_pageout(&mut os, &mut og) != 0 { page(&og) } }
            }
            if k == 0 { break }
        }
        while ogg_stream_flush(&mut os, &mut og) != 0 { page(&og) }
        ogg_stream_clear(&mut os); vorbis_block_clear(&mut vb); vorbis_dsp_clear(&mut vd); vorbis_comment_clear(&mut vc); vorbis_info_clear(&mut vi);
    }
    out
}
/// a stream from a small fixed set, encoded once
fn banked(ch: i64, rate: i64, n: usize) -> Vec<u8> {
    static BANK: OnceLock<Mutex<std::collections::HashMap<(i64, i64, usize), Vec<u8>>>> = OnceLock::new();
    BANK.get_or_init(Default::default).lock().unwrap().entry((ch, rate, n)).or_insert_with(|| encode(ch, rate, n, 0.1)).clone()
}
fn count(ch: usize) -> SoundChannelCount { if ch == 1 { SoundChannelCount::Mono } else { SoundChannelCount::Stereo } }
fn hz(r: i64) -> SoundSampleRate { if r == 22050 { SoundSampleRate::_22050Hz } else { SoundSampleRate::_44100Hz } }

fn c36_codes(s: &mut Src, ctx: &mut Ctx) -> R {
    let v = match s.below(4) { 0 => s.below(6) as u32, 1 => *s.pick(&[22050, 44100, 22049, 44101, 11025, 48000, 8000, 96000]), 2 => s.u32_edge(), _ => s.below(50000) as u32 };
    ensure_eq!(channel_count_from_u32(v), match v { 1 => Some(SoundChannelCount::Mono), 2 => Some(SoundChannelCount::Stereo), _ => None }, "channel count code", "channel count {v}");
    ensure_eq!(sample_rate_from_u32(v), match v { 22050 => Some(SoundSampleRate::_22050Hz), 44100 => Some(SoundSampleRate::_44100Hz), _ => None }, "sample rate code", "sample rate {v}");
    for c in [SoundChannelCount::Mono, SoundChannelCount::Stereo] { ensure_eq!(channel_count_from_u32(channel_count_to_u32(c)), Some(c), "channel count code", "there and back") }
    for r in [SoundSampleRate::_22050Hz, SoundSampleRate::_44100Hz] { ensure_eq!(sample_rate_from_u32(sample_rate_to_u32(r)), Some(r), "sample rate code", "there and back") }
    ctx.sample(|| format!("{v}"));
    if v > 0 { ctx.nontrivial(v as u64) }
    Ok(())
}
fn measured(sound: &Sound, p: &SoundPermutation) -> Option<(u32, SoundChannelCount, SoundSampleRate)> { SoundPermutationMetadata::read_from_sound_permutation(sound, p).ok().map(|m| (m.buffer_size, m.channel_count, m.sample_rate)) }
fn c36_measure(s: &mut Src, ctx: &mut Ctx) -> R {
    let sound = Sound { channel_count: count(s.usize(1, 2)), sample_rate: hz(*s.pick(&[22050, 44100])), format: *s.pick(&[SoundFormat::PCM, SoundFormat::OggVorbis]), ..Default::default() };
    let mut p = SoundPermutation { buffer_size: s.u32_edge(), ..Default::default() };
    if s.chance(1, 3) {
        p.format = *s.pick(&[SoundFormat::PCM, SoundFormat::XboxADPCM, SoundFormat::ImaADPCM]);
        let n = s.usize(0, 200);
        p.samples.bytes = s.bytes(n);
        let want = if p.format == SoundFormat::PCM { n as u32 } else { 0 };
        ensure_eq!(measured(&sound, &p), Some((want, sound.channel_count, sound.sample_rate)), "uncompressed measure", "{} of {n} bytes", p.format);
        ctx.label("stored");
        if n > 0 { ctx.nontrivial_b(&p.samples.bytes) }
        return Ok(())
    }
    p.format = SoundFormat::OggVorbis;
    let (ch, rate) = match s.below(5) { 0 => (*s.pick(&[3, 4, 6]), 44100), 1 => (s.range(1, 2) as i64, *s.pick(&[11025, 48000, 32000, 22000, 44000])), _ => (s.range(1, 2) as i64, *s.pick(&[22050, 44100])) };
    let n = match s.below(4) { 0 => s.usize(1, 64), 1 => s.usize(1, 1500), 2 => 128 << s.below(6), _ => s.usize(1, 9000) };
    let data = encode(ch, rate, n, *s.pick(&[0.1, 0.4, 0.9]));
    p.samples.bytes = data.clone();
    let supported = ch <= 2 && (rate == 22050 || rate == 44100);
    let want = supported.then(|| ((n * ch as usize * 2) as u32, count(ch as usize), hz(rate)));
    ensure_eq!(measured(&sound, &p), want, "Ogg Vorbis measure", "{n} samples, {ch} channels, {rate} Hz");
    ctx.label(if supported { "ogg" } else { "ogg unsupported" });
    ctx.sample(|| format!("ogg {ch} ch {rate} Hz {n} samples, {} bytes", data.len()));
    ctx.nontrivial_b(&data);
    // no Ogg stream at all
    let k = s.usize(0, 100);
    let mut bad = match s.below(3) { 0 => data[..k.min(data.len())].to_vec(), 1 => s.bytes(k), _ => { let mut d = data.clone(); let i = s.usize(0, 3); d[i] ^= 1 << s.below(8); d.truncate(58); d } };
    if bad.len() > 58 { bad.truncate(58) }
    p.samples.bytes = bad;
    ensure_eq!(no_panic(|| measured(&sound, &p))?, None, "broken Ogg measured", "{} bytes", p.samples.bytes.len());
    // cut anywhere: an error, or no more than was there
    p.samples.bytes = data[..s.usize(0, data.len())].to_vec();
    if let (Some(g), Some(w)) = (no_panic(|| measured(&sound, &p))?, want) { ensure!(g.0 <= w.0 && g.1 == w.1 && g.2 == w.2, "truncated Ogg measured", "{g:?} for a part of {w:?}") }
    Ok(())
}

// ------------------------------------------------------------------ playability and repair
/// Sounds which are consistent, then damaged in a few places.
pub fn gen_sound(s: &mut Src) -> (Sound, String) {
    let ch = s.usize(1, 2);
    let rate = *s.pick(&[22050, 44100]);
    let format = *s.pick(&[SoundFormat::PCM, SoundFormat::XboxADPCM, SoundFormat::ImaADPCM, SoundFormat::OggVorbis, SoundFormat::PCM]);
    let split = s.bool();
    let samples = |s: &mut Src, f: SoundFormat, ch: usize, rate: i64| -> (Vec<u8>, u32) {
        let n = s.usize(0, 6);
        match f {
            SoundFormat::PCM => (s.bytes(n * 2 * ch), (n * 2 * ch) as u32),
            SoundFormat::XboxADPCM => (s.bytes(n * 36 * ch), 0),
            SoundFormat::ImaADPCM => (s.bytes(n * 7), 0),
            SoundFormat::OggVorbis => { let n = *s.pick(&[1usize, 100, 1000]); (banked(ch as i64, rate, n), (n * 2 * ch) as u32) }
        }
    };
    let mut sound = Sound { channel_count: count(ch), sample_rate: hz(rate), format, ..Default::default() };
    sound.flags.split_long_sound_into_permutations = split;
    for _ in 0..s.usize(0, 3) {
        let mut r = SoundPitchRange { natural_pitch: 1.0, ..Default::default() };
        let n = s.usize(1, 5);
        for _ in 0..n {
            let mut p = SoundPermutation { name: String32::from_str(&s.ascii_ident(0, 8)).unwrap(), format, gain: 0.5, next_permutation_index: None, ..Default::default() };
            let (b, k) = samples(s, format, ch, rate);
            p.samples.bytes = b;
            p.buffer_size = k;
            r.permutations.items.push(p);
        }
        r.actual_permutation_count = n as u16;
        if split && n > 1 && s.chance(3, 4) {
            // chains: the first `a` permutations lead into the rest
            let a = s.usize(1, n - 1);
            let mut at: Vec<usize> = (0..a).collect();
            for j in a..n { let c = if j == a { s.usize(0, a - 1) } else { s.usize(0, at.len() - 1) }; r.permutations.items[at[c]].next_permutation_index = Some(j as u16); at[c] = j; }
            r.actual_permutation_count = a as u16;
        }
        sound.pitch_ranges.items.push(r);
    }
    let mut done = String::new();
    for _ in 0..s.weighted(&[3, 3, 2, 1]) {
        let what = s.below(12);
        let nr = sound.pitch_ranges.items.len();
        if what < 3 || nr == 0 {
            match what % 5 {
                0 => sound.channel_count = count(s.usize(1, 2)),
                1 => sound.sample_rate = hz(*s.pick(&[22050, 44100])),
                2 => sound.format = *s.pick(&[SoundFormat::PCM, SoundFormat::XboxADPCM, SoundFormat::ImaADPCM, SoundFormat::OggVorbis]),
                _ => sound.flags.split_long_sound_into_permutations ^= true
            }
            done += &format!("head{what} ");
            continue
        }
        let ri = s.usize(0, nr - 1);
        let r = &mut sound.pitch_ranges.items[ri];
        let n = r.permutations.items.len();
        let i = if n > 0 { s.usize(0, n - 1) } else { 0 };
        match what {
            3 => r.actual_permutation_count = *s.pick(&[0, 1, n as u16, n as u16 + 1, 65535]),
            4 => { r.permutations.items.clear(); if s.bool() { r.actual_permutation_count = 0 } }
            5 => sound.flags.split_long_sound_into_permutations ^= true,
            _ if n == 0 => (),
            6 | 7 => r.permutations.items[i].next_permutation_index = *s.pick(&[Some(0), Some(1), Some(i as u16), Some(n as u16), Some(n as u16 - 1), None, Some(65534)]),
            8 => { let f = *s.pick(&[SoundFormat::PCM, SoundFormat::XboxADPCM, SoundFormat::ImaADPCM, SoundFormat::OggVorbis]); let (b, k) = samples(s, f, ch, rate); let p = &mut r.permutations.items[i]; p.format = f; p.samples.bytes = b; p.buffer_size = k }
            9 => { let p = &mut r.permutations.items[i]; p.buffer_size = p.buffer_size.wrapping_add(*s.pick(&[1u32, 2, u32::MAX, 100])) }
            10 => { let p = &mut r.permutations.items[i]; if s.bool() { p.samples.bytes.push(0) } else { p.samples.bytes.pop(); p.samples.bytes.pop(); } }
            _ => { let (c, z) = (s.usize(1, 2), *s.pick(&[22050, 44100])); let f = r.permutations.items[i].format; let (b, k) = samples(s, f, c, z); let p = &mut r.permutations.items[i]; p.samples.bytes = b; p.buffer_size = k }
        }
        done += &format!("range{what} ");
    }
    (sound, done)
}
pub struct Judged { pub playable: bool, pub links: bool, pub empty: bool, pub repairable: bool, pub counts: Vec<u16>, pub split: bool, pub meta: Vec<Vec<Option<(u32, SoundChannelCount, SoundSampleRate)>>> }
pub fn judge(sound: &Sound) -> Judged {
    let ch = if sound.channel_count == SoundChannelCount::Mono { 1 } else { 2 };
    let flag = sound.flags.split_long_sound_into_permutations;
    let ranges = &sound.pitch_ranges.items;
    let links_used = ranges.iter().any(|r| r.permutations.items.iter().any(|p| p.next_permutation_index.unwrap_or(0) > 0));
    let split = flag || links_used;
    let counts: Vec<u16> = ranges.iter().map(|r| { let n = r.permutations.items.len(); (if split { r.permutations.items.iter().filter_map(|p| p.next_permutation_index).filter(|x| *x > 0).map(|x| x as usize).fold(n, usize::min) } else { n }) as u16 }).collect();
    let all: Vec<&SoundPermutation> = ranges.iter().flat_map(|r| r.permutations.items.iter()).collect();
    let meta: Vec<Vec<_>> = ranges.iter().map(|r| r.permutations.items.iter().map(|p| measured(sound, p)).collect()).collect();
    let blocks = all.iter().all(|p| match p.format { SoundFormat::PCM => p.samples.bytes.len() % (2 * ch) == 0, SoundFormat::XboxADPCM => p.samples.bytes.len() % (36 * ch) == 0, _ => true });
    let formats_agree = all.iter().all(|p| p.format == all[0].format);
    let formats = all.iter().all(|p| p.format == sound.format);
    let flat: Vec<_> = meta.iter().flatten().collect();
    let readable = flat.iter().all(|m| m.is_some());
    let meta_ok = readable && flat.iter().zip(&all).all(|(m, p)| m.unwrap() == (p.buffer_size, sound.channel_count, sound.sample_rate));
    let meta_agree = readable && flat.iter().all(|m| { let (a, b) = (m.unwrap(), flat[0].unwrap()); a.1 == b.1 && a.2 == b.2 });
    let mut links = true;
    if split { for (r, c) in ranges.iter().zip(&counts) { for start in 0..*c as usize {
        let (mut at, mut steps) = (start, 0);
        loop {
            if at >= r.permutations.items.len() { links = false; break }
            steps += 1;
            if steps > r.permutations.items.len() { links = false; break }
            match r.permutations.items[at].next_permutation_index { Some(n) if n > 0 => at = n as usize, _ => break }
        }
    } } }
    let zero = all.iter().any(|p| p.next_permutation_index == Some(0));
    let empty = ranges.iter().any(|r| r.permutations.items.is_empty() && r.actual_permutation_count == 0);
    let counted = ranges.iter().zip(&counts).all(|(r, c)| r.actual_permutation_count == *c);
    Judged { playable: blocks && formats && meta_ok && links && !zero && !empty && counted && flag == split, links, empty: ranges.iter().any(|r| r.permutations.items.is_empty()), repairable: blocks && (meta_ok || meta_agree) && (formats || formats_agree), counts, split, meta }
}
/// the sound with its faults corrected, if that is possible
pub fn repaired(sound: &Sound, j: &Judged) -> Sound {
    let mut want = sound.clone();
    want.flags.split_long_sound_into_permutations = j.split;
    for (i, r) in want.pitch_ranges.items.iter_mut().enumerate() {
        r.actual_permutation_count = j.counts[i];
        for (k, p) in r.permutations.items.iter_mut().enumerate() {
            let m = j.meta[i][k].unwrap();
            p.buffer_size = m.0;
            if p.next_permutation_index == Some(0) { p.next_permutation_index = None }
            want.format = p.format; want.channel_count = m.1; want.sample_rate = m.2;
        }
    }
    want
}
fn c36_playable(s: &mut Src, ctx: &mut Ctx) -> R {
    let (sound, done) = gen_sound(s);
    let j = judge(&sound);
    ensure_eq!(no_panic(|| sound_is_playable(&sound))?, j.playable, "playability", "sound with damage [{done}] is playable");
    ctx.label(if j.playable { "playable" } else { "not playable" });
    let before = bytes_of(&sound);
    let mut fixed = sound.clone();
    let path = TagPath::new("sound\\test", TagGroup::Sound).unwrap();
    let r = no_panic(|| bludgeon_tag(&mut fixed, &path))?;
    ensure_eq!(matches!(r, BludgeonResult::Done), j.repairable, "repairable", "sound with damage [{done}] can be repaired");
    if !j.repairable {
        ensure!(bytes_of(&fixed) == before, "unrepairable sound changed", "damage [{done}]");
        ctx.label("refused");
    }
    else {
        let want = repaired(&sound, &j);
        ensure!(bytes_of(&fixed) == bytes_of(&want), "sound repair", "damage [{done}]: the repaired sound is not the sound with its faults corrected");
        if j.links && !j.empty { ensure!(sound_is_playable(&fixed), "repaired sound not playable", "damage [{done}]") }
        if j.playable { ensure!(bytes_of(&fixed) == before, "playable sound changed by repair", "damage [{done}]") }
        ctx.label("repaired");
    }
    ctx.sample(|| format!("{} ranges, {} permutations, damage [{done}]: playable {}, repairable {}", sound.pitch_ranges.items.len(), sound.pitch_ranges.items.iter().map(|r| r.permutations.items.len()).sum::<usize>(), j.playable, j.repairable));
    if !sound.pitch_ranges.items.is_empty() { ctx.nontrivial_b(&before) }
    Ok(())
}
/// more permutations than an index can tell apart
fn c36_many(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = *s.pick(&[65534usize, 65535, 65536, 65537, 70000]);
    let mut sound = Sound { format: SoundFormat::PCM, ..Default::default() };
    sound.flags.split_long_sound_into_permutations = s.bool();
    let p = SoundPermutation { format: SoundFormat::PCM, next_permutation_index: None, ..Default::default() };
    sound.pitch_ranges = Reflexive { items: vec![SoundPitchRange { actual_permutation_count: n.min(65535) as u16, permutations: Reflexive { items: vec![p; n] }, ..Default::default() }] };
    let play = no_panic(|| sound_is_playable(&sound))?;
    ensure_eq!(play, n <= 65535, "playability", "sound with {n} permutations is playable");
    let path = TagPath::new("sound\\test", TagGroup::Sound).unwrap();
    let done = matches!(no_panic(|| bludgeon_tag(&mut sound, &path))?, BludgeonResult::Done);
    ensure_eq!(done, n <= 65535, "repairable", "sound with {n} permutations can be repaired");
    ctx.label("many permutations");
    ctx.nontrivial(n as u64);
    Ok(())
}
pub static C36: Check = Check {
    id: "C36", terminates: true,
    subs: &[Sub { name: "codes", quick: 4_000, thorough: 100_000, run: c36_codes }, Sub { name: "measure", quick: 3_000, thorough: 120_000, run: c36_measure }, Sub { name: "playable", quick: 40_000, thorough: 2_000_000, run: c36_playable }, Sub { name: "many", quick: 6, thorough: 20, run: c36_many }],
    rule: "measure: raw buffers of every format and Ogg Vorbis streams made with libvorbis' encoder (1..6 channels, 7 rates, 1..9000 samples), whole and cut; playable: sounds built consistent, then damaged in 0..3 places (headers, counts, links, formats, sizes, data), judged and repaired; non-trivial when the sound has a pitch range or the buffer is not empty.",
    assumptions: &["Repair is documented to cover stored counts, the split flag, zero links, formats and metadata; links that leave the range or loop, and empty pitch ranges, are reported but not repaired."],
};
