//! C34: the command-line parser against a small reference parser, and verbs by name.
use rhcheck::engine::*;
use crate::cli::{CommandLineArgs, CommandLineParser, CommandLineValue, CommandLineValueType, Parameter};
use crate::verb;

#[derive(Copy, Clone, PartialEq, Debug)]
enum K { Path, Str, Float, I16, U16, I32, U32, Engine }
fn kind(k: K) -> CommandLineValueType {
    match k {
        K::Path => CommandLineValueType::Path, K::Str => CommandLineValueType::String, K::Float => CommandLineValueType::Float, K::I16 => CommandLineValueType::Short,
        K::U16 => CommandLineValueType::UShort, K::I32 => CommandLineValueType::Integer, K::U32 => CommandLineValueType::UInteger, K::Engine => CommandLineValueType::Engine
    }
}
#[derive(Clone, PartialEq, Debug)]
enum Val { S(String), F(u64), I(i64), E(String) }

fn engines() -> Vec<(String, bool)> {
    rhcheck::layout::layout().json["engines"].as_object().unwrap().keys().map(|n| (n.clone(), ringhopper_engines::ALL_SUPPORTED_ENGINES.iter().find(|e| e.name == n).is_some_and(|e| e.build_target))).collect()
}
/// What a text means as a value, decided without the standard library's number parser for integers.
fn value(k: K, t: &str) -> Option<Val> {
    let int = |lo: i64, hi: i64| -> Option<Val> {
        let (neg, d) = match t.strip_prefix('-') { Some(r) if lo < 0 => (true, r), _ => (false, t.strip_prefix('+').unwrap_or(t)) };
        if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) { return None }
        let mut v = 0i64;
        for c in d.bytes() { v = v * 10 + (c - b'0') as i64; if v > 1 << 40 { return None } }
        if neg { v = -v }
        (v >= lo && v <= hi).then_some(Val::I(v))
    };
    match k {
        K::Path | K::Str => Some(Val::S(t.to_string())),
        K::Float => t.parse::<f64>().ok().map(|f| Val::F(f.to_bits())),
        K::I16 => int(-32768, 32767),
        K::U16 => int(0, 65535),
        K::I32 => int(-(1 << 31), (1 << 31) - 1),
        K::U32 => int(0, (1 << 32) - 1),
        K::Engine => engines().iter().find(|(n, target)| n == t && *target).map(|_| Val::E(t.to_string()))
    }
}
fn seen(v: &CommandLineValue) -> Val {
    match v {
        CommandLineValue::Path(p) => Val::S(p.to_str().unwrap().to_string()), CommandLineValue::String(s) => Val::S(s.clone()), CommandLineValue::Float(f) => Val::F(f.to_bits()),
        CommandLineValue::Short(i) => Val::I(*i as i64), CommandLineValue::UShort(i) => Val::I(*i as i64), CommandLineValue::Integer(i) => Val::I(*i as i64),
        CommandLineValue::UInteger(i) => Val::I(*i as i64), CommandLineValue::Engine(e) => Val::E(e.name.to_string())
    }
}

#[derive(Clone, Debug)]
struct Opt { name: &'static str, short: char, kind: Option<K>, n: usize, multiple: bool, required: bool, default: Option<Vec<(Val, CommandLineValue)>>, standard: bool, exists: bool }
static CUSTOM: &[(&str, char, Option<K>)] = &[
    ("filter", 'f', Some(K::Str)), ("ratio", 'r', Some(K::Float)), ("small", 's', Some(K::I16)), ("port", 'p', Some(K::U16)), ("offset", 'O', Some(K::I32)), ("count", 'k', Some(K::U32)),
    ("flag", 'x', None), ("flagged", 'X', None), ("out", 'u', Some(K::Path)), ("other-engine", 'E', Some(K::Engine)), ("größe", 'ß', Some(K::I32)), ("tag", 'T', Some(K::Str)), ("verbose", '1', None), ("f", 'F', Some(K::Str))
];
fn dflt(k: K, s: &mut Src) -> (Val, CommandLineValue) {
    match k {
        K::Path => { let t = s.ascii_ident(1, 5); (Val::S(t.clone()), CommandLineValue::Path(t.into())) }
        K::Str => { let t = s.ascii_ident(0, 5); (Val::S(t.clone()), CommandLineValue::String(t)) }
        K::Float => { let f = s.below(1000) as f64 / 8.0; (Val::F(f.to_bits()), CommandLineValue::Float(f)) }
        K::I16 => { let i = s.u16() as i16; (Val::I(i as i64), CommandLineValue::Short(i)) }
        K::U16 => { let i = s.u16(); (Val::I(i as i64), CommandLineValue::UShort(i)) }
        K::I32 => { let i = s.u32() as i32; (Val::I(i as i64), CommandLineValue::Integer(i)) }
        K::U32 => { let i = s.u32(); (Val::I(i as i64), CommandLineValue::UInteger(i)) }
        K::Engine => { let e = ringhopper_engines::ALL_SUPPORTED_ENGINES.iter().filter(|e| e.build_target).collect::<Vec<_>>(); let e = *s.pick(&e); (Val::E(e.name.to_string()), CommandLineValue::Engine(e)) }
    }
}

struct Setup { opts: Vec<Opt>, extra: usize }
fn setup(s: &mut Src) -> Setup {
    let mut opts = Vec::new();
    let standard = |name, short, kind: Option<K>, multiple, required, default: Option<&str>, exists| Opt { name, short, kind, n: kind.is_some() as usize, multiple, required, standard: true, exists,
        default: default.map(|d| if d.is_empty() { vec![] } else { vec![(Val::S(d.into()), CommandLineValue::Path(d.into()))] }) };
    if s.bool() { opts.push(standard("tags", 't', Some(K::Path), s.bool(), false, Some("tags"), true)); }
    if s.bool() { opts.push(standard("data", 'd', Some(K::Path), false, false, Some("data"), true)); }
    if s.bool() { opts.push(standard("maps", 'm', Some(K::Path), false, false, Some("maps"), true)); }
    if s.bool() { opts.push(standard("cow", 'c', Some(K::Path), false, false, Some(""), true)); }
    if s.bool() { opts.push(standard("overwrite", 'o', None, false, false, None, false)); }
    if s.bool() { opts.push(standard("no-safeguards", 'n', None, false, false, None, false)); }
    if s.bool() { opts.push(standard("jobs", 'j', Some(K::U32), false, false, None, false)); }
    if s.chance(1, 3) { opts.push(standard("engine", 'e', Some(K::Engine), false, true, None, false)); }
    let order = s.permutation(CUSTOM.len());
    for i in 0..s.usize(0, 6) {
        let (name, short, k) = CUSTOM[order[i]];
        let n = if k.is_some() { 1 + s.weighted(&[5, 2, 1]) } else { 0 };
        let default = match k { Some(k) if s.chance(1, 3) => Some((0..n).map(|_| dflt(k, s)).collect()), _ => None };
        opts.push(Opt { name, short, kind: k, n, multiple: s.chance(1, 3), required: s.chance(1, 4), default, standard: false, exists: false });
    }
    Setup { opts, extra: s.usize(0, 3) }
}
fn build(set: &Setup, s: &mut Src) -> CommandLineParser {
    let mut p = CommandLineParser::new("a description", "usage");
    // the order in which options are declared must not matter
    for i in s.permutation(set.opts.len()) {
        let o = &set.opts[i];
        p = match (o.standard, o.name) {
            (true, "tags") => p.add_tags(o.multiple), (true, "data") => p.add_data(), (true, "maps") => p.add_maps(), (true, "cow") => p.add_cow_tags(), (true, "overwrite") => p.add_overwrite(),
            (true, "no-safeguards") => p.add_no_safeguards(), (true, "jobs") => p.add_jobs(), (true, "engine") => p.add_engine(),
            _ => {
                let d = o.default.as_ref().map(|d| d.iter().map(|v| v.1.clone()).collect());
                p.add_custom_parameter(if !o.multiple && !o.required && d.is_none() && o.n < 2 && s.bool() { Parameter::single(o.name, o.short, "what it does", "<x>", o.kind.map(kind)) }
                    else { Parameter::new(o.name, o.short, "what it does", "<x>", o.kind.map(kind), o.n, d, o.multiple, o.required) })
            }
        };
    }
    p.set_required_extra_parameters(set.extra)
}

type Got = (Vec<Option<Vec<Val>>>, Vec<String>);
/// The reference: what the arguments mean, or that they are refused.
fn reference(set: &Setup, args: &[String]) -> Result<Got, &'static str> {
    let mut vals: Vec<Option<Vec<Val>>> = vec![None; set.opts.len()];
    let mut extra = Vec::new();
    let mut i = 0;
    while i < args.len() {
        let a = &args[i];
        i += 1;
        let which: Vec<usize> = if let Some(name) = a.strip_prefix("--") {
            match set.opts.iter().position(|o| o.name == name) { Some(x) => vec![x], None => return Err("unknown option") }
        } else if let Some(shorts) = a.strip_prefix('-') {
            let mut w = Vec::new();
            // left to right: an unknown letter refuses the line, whatever came before
            for c in shorts.chars() { match set.opts.iter().position(|o| o.short == c) { Some(x) => w.push(x), None => return Err("unknown option") } }
            w
        } else { extra.push(a.clone()); continue };
        for o in which {
            let opt = &set.opts[o];
            if vals[o].is_some() && !opt.multiple { return Err("repeated") }
            let slot = vals[o].get_or_insert_with(Vec::new);
            for _ in 0..opt.n {
                let Some(t) = args.get(i) else { return Err("missing value") };
                i += 1;
                match value(opt.kind.unwrap(), t) { Some(v) => slot.push(v), None => return Err("unparsable value") }
            }
        }
    }
    if extra.len() != set.extra { return Err("wrong number of positionals") }
    for (o, v) in set.opts.iter().zip(vals.iter_mut()) {
        if v.is_none() { *v = o.default.as_ref().map(|d| d.iter().map(|x| x.0.clone()).collect()) }
        if o.required && v.is_none() { return Err("required option absent") }
        if o.exists { for p in v.as_ref().unwrap() { if let Val::S(p) = p { if !std::path::Path::new(p).exists() { return Err("directory absent") } } } }
    }
    Ok((vals, extra))
}

fn path_s(p: &std::path::Path) -> Val { Val::S(p.to_str().unwrap().to_string()) }
fn check_args(set: &Setup, a: &CommandLineArgs, want: &Got, shown: &[String]) -> R {
    for (o, w) in set.opts.iter().zip(want.0.iter()) {
        let sig = format!("value of {}", if o.standard { o.name } else { "a custom option" });
        match (o.standard, o.name) {
            (true, "tags") => ensure_eq!(a.get_tags().into_iter().map(path_s).collect::<Vec<_>>(), w.clone().unwrap(), sig, "--tags in {shown:?}"),
            (true, "data") => ensure_eq!(path_s(a.get_data()), w.clone().unwrap()[0], sig, "--data in {shown:?}"),
            (true, "maps") => ensure_eq!(path_s(a.get_maps()), w.clone().unwrap()[0], sig, "--maps in {shown:?}"),
            (true, "cow") => {
                if set.opts.iter().any(|o| o.standard && o.name == "tags") {
                    let _ = no_panic(|| a.get_virtual_tags_directory())?;
                }
            }
            (true, "overwrite") => ensure_eq!(a.get_overwrite(), w.is_some(), sig, "--overwrite in {shown:?}"),
            (true, "no-safeguards") => ensure_eq!(a.get_no_safeguards(), w.is_some(), sig, "--no-safeguards in {shown:?}"),
            (true, "jobs") => {
                let n = match w { Some(v) => match v[0] { Val::I(i) => (i as usize).max(1), _ => unreachable!() }, None => std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1) };
                ensure_eq!(a.get_jobs(), n, sig, "--jobs in {shown:?}")
            }
            (true, "engine") => ensure_eq!(Val::E(a.get_engine().name.to_string()), w.clone().unwrap()[0], sig, "--engine in {shown:?}"),
            _ => ensure_eq!(a.get_custom(o.name).map(|v| v.iter().map(seen).collect::<Vec<_>>()), w.clone(), sig, "--{} in {shown:?}", o.name)
        }
    }
    ensure_eq!(a.get_extra().to_vec(), want.1.clone(), "positionals", "positionals of {shown:?}");
    Ok(())
}
/// A working directory with some of the default directories in it.
fn in_dir<T>(s: &mut Src, ctx: &mut Ctx, f: impl FnOnce(&mut Src, &mut Ctx) -> T) -> T {
    let d = ctx.fresh_dir();
    for n in ["tags", "data", "maps", "here", "-odd"] { if !s.chance(1, 12) { let _ = std::fs::create_dir(d.join(n)); } }
    std::env::set_current_dir(&d).unwrap();
    let r = f(s, ctx);
    std::env::set_current_dir("/").unwrap();
    ctx.drop_dir(&d);
    r
}
fn good(k: K, exists: bool, s: &mut Src) -> String {
    match k {
        K::Path if exists => s.pick(&["tags", "data", "here", "maps", "./tags/../here", "-odd"]).to_string(),
        K::Path | K::Str => match s.below(6) { 0 => String::new(), 1 => format!("-{}", s.ascii_ident(0, 3)), 2 => format!("--{}", s.ascii_ident(0, 3)), 3 => "größer = é".into(), _ => s.ascii_ident(1, 6) },
        K::Float => match s.below(6) { 0 => "-0".into(), 1 => "1e3".into(), 2 => "inf".into(), 3 => format!("-{}", s.below(100)), 4 => "+.5".into(), _ => format!("{}.{}", s.below(100), s.below(1000)) },
        K::I16 => match s.below(4) { 0 => "-32768".into(), 1 => "32767".into(), _ => (s.u16() as i16).to_string() },
        K::U16 => match s.below(4) { 0 => "65535".into(), 1 => "0".into(), 2 => "+7".into(), _ => s.u16().to_string() },
        K::I32 => match s.below(4) { 0 => "-2147483648".into(), 1 => "2147483647".into(), _ => (s.u32() as i32).to_string() },
        K::U32 => match s.below(4) { 0 => "4294967295".into(), 1 => "0".into(), 2 => "0012".into(), _ => s.below(20).to_string() },
        K::Engine => { let e: Vec<String> = engines().into_iter().filter(|e| e.1).map(|e| e.0).collect(); s.pick(&e).clone() }
    }
}
fn bad(k: K, s: &mut Src) -> String {
    match k {
        K::Engine => { let e: Vec<String> = engines().into_iter().filter(|e| !e.1).map(|e| e.0).collect(); match s.below(4) { 0 if !e.is_empty() => s.pick(&e).clone(), 1 => good(k, false, s).to_uppercase(), 2 => { let mut g = good(k, false, s); g.pop(); g } _ => "".into() } }
        _ => s.pick(&["", "x", "1x", "--1", "1.5.2", "32768", "-32769", "65536", "2147483648", "-2147483649", "4294967296", "-1", "99999999999999999999", " 1", "1 ", "0x10", "1_000", "½"]).to_string()
    }
}

/// Values are chosen first; any way of spelling them must give exactly them back.
fn spelling(s: &mut Src, ctx: &mut Ctx) -> R {
    in_dir(s, ctx, |s, ctx| {
        let set = setup(s);
        // one entry per use of an option, one per positional, in the order they will appear
        let mut uses: Vec<(usize, Vec<String>)> = Vec::new();
        for (i, o) in set.opts.iter().enumerate() {
            let times = if o.multiple { s.below(4) } else if o.required && o.default.is_none() { 1 } else { s.below(2) };
            for _ in 0..times { uses.push((i, (0..o.n).map(|_| good(o.kind.unwrap(), o.exists, s)).collect())); }
        }
        let extra: Vec<String> = (0..set.extra).map(|_| match s.below(5) { 0 => String::new(), 1 => "a b".into(), 2 => "é-".into(), _ => s.ascii_ident(1, 6) }).collect();
        for round in 0..2 {
            let order = s.permutation(uses.len());
            let ordered: Vec<&(usize, Vec<String>)> = order.iter().map(|i| &uses[*i]).collect();
            let mut args: Vec<String> = Vec::new();
            let mut e = extra.iter();
            let mut i = 0;
            let mut bundles = 0;
            while i < ordered.len() {
                while s.chance(1, 4) { if let Some(x) = e.next() { args.push(x.clone()) } else { break } }
                if s.bool() {
                    args.push(format!("--{}", set.opts[ordered[i].0].name));
                    args.extend(ordered[i].1.iter().cloned());
                    i += 1;
                } else {
                    let n = s.usize(1, 4).min(ordered.len() - i);
                    if n > 1 { bundles += 1 }
                    args.push("-".to_string() + &ordered[i..i + n].iter().map(|u| set.opts[u.0].short).collect::<String>());
                    for u in &ordered[i..i + n] { args.extend(u.1.iter().cloned()) }
                    i += n;
                }
            }
            args.extend(e.cloned());
            let mut want: Got = (vec![None; set.opts.len()], extra.clone());
            for (o, t) in &ordered { let k = set.opts[*o].kind; want.0[*o].get_or_insert_with(Vec::new).extend(t.iter().map(|t| value(k.unwrap(), t).unwrap())); }
            let mut absent = false;
            for (o, v) in set.opts.iter().zip(want.0.iter_mut()) {
                if v.is_none() { *v = o.default.as_ref().map(|d| d.iter().map(|x| x.0.clone()).collect()) }
                absent |= o.required && v.is_none();
                if o.exists { absent |= v.as_ref().unwrap().iter().any(|p| match p { Val::S(p) => !std::path::Path::new(p).exists(), _ => false }) }
            }
            let p = build(&set, s);
            let got = no_panic(|| p.parse(args.clone().into_iter()))?;
            if round == 0 && uses.len() >= 2 { ctx.nontrivial_s(&format!("{args:?}{:?}", set.opts.iter().map(|o| (o.name, o.multiple)).collect::<Vec<_>>())); }
            ctx.label(if absent { "refused for an absent directory or option" } else if bundles > 0 { "with bundled short options" } else { "without bundles" });
            ctx.sample(|| format!("{args:?}"));
            match got {
                Ok(a) => { ensure!(!absent, "an absent directory or option is accepted", "{args:?} accepted"); check_args(&set, &a, &want, &args)? }
                Err(m) => { ensure!(absent, "a valid command line is refused", "{args:?} refused: {m}"); ensure!(!m.trim().is_empty(), "refusal without a message", "{args:?}"); }
            }
        }
        Ok(())
    })
}

/// Any list of arguments: accepted with the reference's values or refused, as the reference says.
fn arbitrary(s: &mut Src, ctx: &mut Ctx) -> R {
    in_dir(s, ctx, |s, ctx| {
        let set = setup(s);
        let mut args: Vec<String> = Vec::new();
        // mostly valid material so that single faults matter
        for _ in 0..s.usize(0, 7) {
            match s.weighted(&[8, 5, 3, 2, 1, 1]) {
                0 if !set.opts.is_empty() => {
                    let o = s.pick(&set.opts).clone();
                    args.push(format!("--{}", o.name));
                    let n = if s.chance(1, 10) { s.usize(0, o.n + 1) } else { o.n };
                    for _ in 0..n { args.push(match o.kind { Some(k) if s.chance(1, 8) => bad(k, s), Some(k) => good(k, o.exists, s), None => s.ascii_ident(1, 3) }) }
                }
                1 if !set.opts.is_empty() => {
                    let os: Vec<Opt> = (0..s.usize(1, 4)).map(|_| s.pick(&set.opts).clone()).collect();
                    let mut t: String = "-".to_string() + &os.iter().map(|o| o.short).collect::<String>();
                    if s.chance(1, 12) { t.push(*s.pick(&['q', '-', 'ä', 'Z'])) }
                    args.push(t);
                    for o in &os { for _ in 0..o.n { args.push(if s.chance(1, 12) { bad(o.kind.unwrap(), s) } else { good(o.kind.unwrap(), o.exists, s) }) } }
                }
                2 => { let t = s.ascii_ident(0, 5); args.push(t) }
                3 => args.push(format!("--{}", match s.below(4) { 0 => String::new(), 1 => s.pick(CUSTOM).0.to_string(), 2 => s.pick(&["Tags", "tag", "tagss", "-tags", "engine=pc-retail"]).to_string(), _ => s.ascii_ident(1, 4) })),
                4 => args.push(s.pick(&["-é", "-t=tags", "-", "--", "---", "-\u{301}", "\u{0}"]).to_string()),
                _ => { let k = *s.pick(&[K::U32, K::Float, K::Engine]); args.push(bad(k, s)) }
            }
        }
        let want = reference(&set, &args);
        let p = build(&set, s);
        let got = no_panic(|| p.parse(args.clone().into_iter()))?;
        if args.len() >= 2 { ctx.nontrivial_s(&format!("{args:?}")) }
        ctx.sample(|| format!("{args:?}"));
        ctx.label(match &want { Ok(_) => "accepted", Err(e) => e });
        // a lone dash names no option; whether it means anything is left open
        if args.iter().any(|a| a == "-") { return Ok(()) }
        match (got, want) {
            (Ok(a), Ok(w)) => check_args(&set, &a, &w, &args),
            (Err(m), Err(_)) => { ensure!(!m.trim().is_empty(), "refusal without a message", "{args:?}"); Ok(()) }
            (Ok(_), Err(e)) => fail!(format!("accepted although: {e}"), "{args:?} is accepted, but has: {e}"),
            (Err(m), Ok(_)) => fail!("a valid command line is refused", "{args:?} refused: {m}")
        }
    })
}

static VERBS: &[&str] = &["archive-scenario", "archive-tag", "bludgeon", "compare", "convert", "dependency-list", "dependency-tree", "extract", "info", "list-engines", "list-scenario-tags", "nudge", "plate",
    "recompress-vertices", "recover", "refactor-groups", "refactor-paths", "strip", "tag-collection", "ui-widget-collection", "undefault", "unicode-strings", "verify-scenario", "version"];
static ALIASES: &[(&str, &str)] = &[("cmp", "compare"), ("unicode-string-list", "unicode-strings"), ("v", "version")];
fn verbs(s: &mut Src, ctx: &mut Ctx) -> R {
    let known: Vec<&str> = verb::ALL_VERBS.iter().map(|v| v.name).collect();
    let t = match s.below(5) {
        0 => VERBS[s.cycle(VERBS.len() as u64) as usize].to_string(),
        1 => s.pick(ALIASES).0.to_string(),
        2 => { let v = known[s.cycle(known.len() as u64) as usize]; v.to_string() }
        3 => { let mut v = s.pick(VERBS).to_string(); match s.below(3) { 0 => { v.pop(); } 1 => v.push('s'), _ => v = v.replace('-', "_") }; v }
        _ => s.ascii_ident(0, 6)
    };
    let want = ALIASES.iter().find(|a| a.0 == t).map(|a| a.1).or_else(|| known.iter().copied().find(|v| *v == t));
    let got = no_panic(|| verb::get_verb(&t))?.map(|v| v.name);
    ctx.label(if want.is_some() { "a verb" } else { "no verb" });
    if want.is_some() { ctx.nontrivial_s(&t) }
    ctx.sample(|| format!("{t:?} -> {want:?}"));
    ensure!(!VERBS.contains(&t.as_str()) || got.is_some(), "a verb cannot be reached by its name", "{t:?} is not found");
    ensure_eq!(got, want, "the wrong verb", "{t:?}");
    Ok(())
}

/// Options every user of a verb may rely on; a verb may have more.
static OPTIONS: &[(&str, &str)] = &[("archive-scenario", "engine level output overwrite tags"), ("archive-tag", "level output overwrite tags"), ("bludgeon", "cow jobs tags"), ("compare", "filter jobs raw show"), ("convert", "cow jobs overwrite tags"),
    ("dependency-list", "recursive reverse tags"), ("dependency-tree", "broken depth tags"), ("extract", "jobs overwrite tags"), ("info", "type"), ("list-scenario-tags", "engine tags"), ("nudge", "cow jobs tags"), ("plate", "data jobs tags"),
    ("recompress-vertices", "cow jobs tags"), ("recover", "data jobs overwrite tags"), ("refactor-groups", "cow jobs tags"), ("refactor-paths", "jobs tags"), ("strip", "cow jobs tags"), ("tag-collection", "cow data jobs tags"),
    ("ui-widget-collection", "cow data jobs tags"), ("undefault", "cow jobs tags"), ("unicode-strings", "cow data jobs tags"), ("verify-scenario", "engine jobs tags")];
/// Asking for help shows the verb's options, all of which it takes under both names, and does nothing else.
fn help(s: &mut Src, ctx: &mut Ctx) -> R {
    let d = ctx.fresh_dir();
    for n in ["tags", "data", "maps"] { std::fs::create_dir(d.join(n)).unwrap(); }
    std::fs::write(d.join("tags/a.weapon"), b"not a tag").unwrap();
    let before = rhcheck::checks::tree::snapshot(&d);
    let (verb, known) = OPTIONS[s.cycle(OPTIONS.len() as u64) as usize];
    let plain = |s: &mut Src| s.pick(&["-h", "--help"]).to_string();
    let h = plain(s);
    let first = crate::batch::run(&d, &[verb.to_string(), h.clone()])?;
    ensure_eq!(first.code, Some(0), "help fails", "{verb} {h}: {}", first.out);
    // the options as shown
    let mut opts: Vec<(String, Option<char>, String)> = vec![];
    for line in first.out.lines() {
        if !line.starts_with('-') { continue }
        let mut words = line.split_whitespace();
        let mut w = words.next().unwrap();
        let mut short = None;
        if let Some(c) = w.strip_prefix('-').and_then(|w| w.strip_suffix(',')) { short = c.chars().next(); ensure!(c.chars().count() == 1, "help shows an odd option", "{verb}: {line:?}"); w = words.next().unwrap_or("") }
        let Some(name) = w.strip_prefix("--") else { fail!("help shows an odd option", "{verb}: {line:?}") };
        opts.push((name.to_string(), short, words.collect::<Vec<_>>().join(" ")));
    }
    for n in known.split(' ').chain(["help"]) { ensure!(opts.iter().filter(|o| o.0 == n).count() == 1, "an option is missing from the help", "{verb}: --{n} in {opts:?}"); }
    for (i, o) in opts.iter().enumerate() {
        ensure!(!opts[..i].iter().any(|p| p.0 == o.0 || p.1.is_some() && p.1 == o.1), "two options share a name", "{verb}: {o:?} in {opts:?}");
        ensure_eq!(o.0 == "help", o.1 == Some('h'), "-h is not help", "{verb}: {o:?}");
    }
    ensure!(first.out.contains("Usage:"), "help shows no usage", "{verb}: {}", first.out);
    // help comes after any of the options
    let mut args = vec![verb.to_string()];
    let (mut bundle, mut later) = (String::new(), vec![]);
    let order = s.permutation(opts.len());
    let mut wrong = None;
    for i in order {
        let o = &opts[i];
        if o.0 == "help" || !s.bool() { continue }
        let value = match o.2.as_str() { "" => None, "<dir>" => Some(s.pick(&["tags", "data", "maps"]).to_string()), "<engine>" => { let e = engines(); let e: Vec<_> = e.into_iter().filter(|e| e.1).collect(); Some(s.pick(&e).0.clone()) } _ => Some("1".to_string()) };
        match o.1 {
            Some(c) if s.bool() => { bundle.push(c); later.extend(value) }
            _ => { args.push(format!("--{}", o.0)); args.extend(value) }
        }
    }
    if s.chance(1, 4) {
        let t = match s.below(4) { 0 => "--no-such-option".to_string(), 1 => "-?".into(), 2 => "--Help".into(), _ => "-H".into() };
        wrong = Some(t.clone()); args.push(t);
    }
    if s.bool() && wrong.is_none() {
        // in the same word
        bundle.push('h'); args.push(format!("-{bundle}")); args.extend(later);
    } else {
        if !bundle.is_empty() { args.push(format!("-{bundle}")); args.extend(later) }
        args.push(plain(s));
    }
    if s.chance(1, 3) { args.push(s.pick(&["--no-such-option", "a", "-?"]).to_string()) }
    let again = crate::batch::run(&d, &args)?;
    ctx.label(if wrong.is_some() { "help after a mistake" } else { "help after options" });
    if args.len() > 3 { ctx.nontrivial_s(&format!("{args:?}")) }
    ctx.sample(|| format!("{args:?}"));
    if wrong.is_some() {
        ensure_eq!(again.code, Some(1), "an unknown option is accepted", "{args:?}: {}", again.out);
        ensure!(!again.out.trim().is_empty(), "refusal without a message", "{args:?}");
    } else {
        ensure_eq!(again.code, Some(0), "help fails", "{args:?}: {}", again.out);
        ensure_eq!(again.out, first.out, "help depends on what came before", "{args:?}");
    }
    ensure!(before == rhcheck::checks::tree::snapshot(&d), "help changes files", "{args:?}");
    ctx.drop_dir(&d);
    Ok(())
}

pub static C34: Check = Check {
    id: "C34", terminates: true,
    subs: &[
        Sub { name: "spelling", quick: 25_000, thorough: 4_000_000, run: spelling },
        Sub { name: "arbitrary", quick: 50_000, thorough: 8_000_000, run: arbitrary },
        Sub { name: "help", quick: 2_500, thorough: 100_000, run: help },
        Sub { name: "verbs", quick: 20_000, thorough: 200_000, run: verbs },
    ],
    rule: "a parser is built from a random subset of the standard options and of 14 custom ones (all value types, 1-3 values, defaults, required, repeatable), declared in random order. spelling: values are chosen, then written twice in random order, spelling (--long, -s, -bundled with the values following in order) and interleaving with positionals; the values got back must be the chosen ones or the defaults. arbitrary: argument lists mixing valid uses, wrong counts, bad values, unknown names, bundles with unknown letters and odd tokens, decided by a reference parser. verbs: names, aliases and near misses looked up. help: every verb asked for its help, alone and after other options, in a folder that must stay as it is; every option shown must be taken under both of its names with as many values as shown. non-trivial: at least two option uses (spelling) or two arguments (arbitrary); an existing verb.",
    assumptions: &["a lone '-' is only required not to crash", "help: the program itself is run, its output not being a terminal"],
};
