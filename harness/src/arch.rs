//! Generated archives: entries, metadata, and the reference ("truth") byte stream obtained from
//! plain in-memory data with one big buffer and validated by the independent parser.
use crate::ensure;
use crate::parse::{self, Parsed};
use crate::report::R;
use crate::rng::{Rng, mix};
use crate::src::{Log, MonSrc};
use std::collections::HashSet;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, ReadBuf};
use zippity::{Builder, BuilderEntry, EntryData, Reader};

#[derive(Clone, Copy, Debug)]
pub enum Meta {
    File,
    Dir,
    Symlink,
    Mode(u32),
    Ro(bool),
    Date(i32, u32, u32, u32, u32, u32),
}

impl Meta {
    pub fn apply<D: EntryData>(&self, e: &mut BuilderEntry<D>) {
        match *self {
            Meta::File => {
                e.file();
            }
            Meta::Dir => {
                e.directory();
            }
            Meta::Symlink => {
                e.symlink();
            }
            Meta::Mode(m) => {
                e.unix_permissions(m);
            }
            Meta::Ro(r) => {
                e.readonly(r);
            }
            Meta::Date(y, mo, d, h, mi, s) => {
                e.datetime_fields(y, mo, d, h, mi, s);
            }
        }
    }
    pub fn gen_one(r: &mut Rng) -> Meta {
        match r.below(7) {
            0 => Meta::File,
            1 => Meta::Dir,
            2 => Meta::Symlink,
            3 => Meta::Mode(if r.p(128) { r.next() as u32 } else { r.below(0o1000) as u32 }),
            // As they come from file systems: all types, with the special bits
            4 => Meta::Mode(
                *r.pick(&[0, 0o020_000, 0o040_000, 0o060_000, 0o100_000, 0o120_000, 0o140_000, 0o010_000])
                    | *r.pick(&[0, 0, 0o1000, 0o2000, 0o4000, 0o6000, 0o7000])
                    | *r.pick(&[0o755, 0o644, 0o600, 0o777, 0o444, 0o700, 0o555, 0]),
            ),
            5 => Meta::Ro(r.p(128)),
            _ => Meta::Date(
                r.range(1980, 2107) as i32,
                r.range(1, 12) as u32,
                r.range(1, 31) as u32,
                r.below(24) as u32,
                r.below(60) as u32,
                r.below(60) as u32,
            ),
        }
    }
}

#[derive(Clone)]
pub struct EntrySpec {
    pub name: String,
    pub data: Arc<Vec<u8>>,
    pub preset: bool,
    pub meta: Vec<Meta>,
}

#[derive(Clone)]
pub struct ArchCfg {
    pub max_entries: u64,
    pub max_data: u64,
    /// Probability of 256 that an entry has its checksum supplied.
    pub preset: u32,
    pub meta: bool,
    pub long_names: bool,
}

impl Default for ArchCfg {
    fn default() -> Self {
        ArchCfg {
            max_entries: 8,
            max_data: 40_000,
            preset: 96,
            meta: true,
            long_names: true,
        }
    }
}

const ODD_NAMES: &[&str] = &[
    "",
    "/",
    "//",
    ".",
    "..",
    "../../etc/passwd",
    "a/b/c/d",
    "dir/",
    "\0",
    "a\0b",
    "PK\u{3}\u{4}",
    "PK\u{1}\u{2}",
    "\\",
    "C:\\x",
    " ",
    "\n",
    "\u{feff}",
    "\u{202e}txt.exe",
    "\u{1F600}",
    "e\u{301}",
    "\u{e9}",
    "CON",
    "con",
    "-",
    "\u{7f}",
    "\u{ffff}",
    "a",
    "A",
];

pub fn gen_name(r: &mut Rng, long: bool) -> String {
    match r.below(10) {
        0..=2 => (*r.pick(ODD_NAMES)).to_string(),
        3..=5 => {
            let n = r.range(1, 12);
            (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
        }
        6 => {
            // Any characters
            let n = r.range(0, 40);
            (0..n)
                .map(|_| {
                    let hi = *r.pick(&[0x7f, 0x7ff, 0xffff, 0x10_ffff]);
                    char::from_u32(r.range(0, hi) as u32).unwrap_or('x')
                })
                .collect()
        }
        7 => {
            let n = r.range(1, 300) as usize;
            let c = *r.pick(&['x', '/', '\u{e9}', '\u{1F600}']);
            let mut s: String = std::iter::repeat_n(c, n).collect();
            s.push_str(&r.below(1000).to_string());
            s
        }
        8 if long => {
            // Around the sizes where anything could be special, up to the maximum of 65535 bytes
            let n = *r.pick(&[
                255usize, 256, 257, 4095, 4096, 8161, 8162, 8191, 8192, 8193, 16384, 32767, 32768, 65534, 65535,
            ]);
            let c = *r.pick(&['n', '\u{e9}', '\u{20ac}']);
            let mut s: String = std::iter::repeat_n(c, n / c.len_utf8()).collect();
            while s.len() < n {
                s.push('.');
            }
            s
        }
        _ => {
            let depth = r.range(1, 5);
            let mut s = String::new();
            for i in 0..depth {
                if i > 0 {
                    s.push('/');
                }
                s.push_str(&format!("p{}", r.below(50)));
            }
            if r.p(60) {
                s.push('/');
            }
            s
        }
    }
}

pub fn gen_size(r: &mut Rng, max: u64) -> u64 {
    if max > 100_000 && r.p(100) {
        // Large entries
        let s = match r.below(3) {
            0 => *r.pick(&[131_071, 131_072, 131_073, 262_144, 524_288, 1 << 20, (1 << 20) + 1, 1 << 21, (1 << 21) + 1]),
            _ => r.range(70_000, max),
        };
        return s.min(max);
    }
    let s = match r.below(12) {
        0 | 1 => 0,
        2 => 1,
        3 | 4 => r.range(2, 64),
        5 | 6 => r.range(65, 2000),
        7 | 8 => *r.pick(&[8191, 8192, 8193, 16383, 16384, 16385, 24576, 32768, 65535, 65536, 65537]),
        9 => *r.pick(&[255, 256, 257, 511, 512, 4095, 4096, 4097]),
        10 => r.range(2000, 20_000),
        _ => r.range(1, 70_000),
    };
    if s > max { r.range(0, max) } else { s }
}

pub fn gen_data(r: &mut Rng, max: u64) -> Vec<u8> {
    let n = gen_size(r, max) as usize;
    let mut v = vec![0u8; n];
    match r.below(6) {
        0 => {}
        1 => v.fill(0xff),
        2 => {
            // ZIP structures inside the data
            let sigs: [&[u8]; 5] = [
                b"PK\x03\x04",
                b"PK\x07\x08",
                b"PK\x01\x02",
                b"PK\x06\x06",
                b"PK\x05\x06",
            ];
            let mut i = 0;
            while i < n {
                let s = *r.pick(&sigs);
                for b in s {
                    if i < n {
                        v[i] = *b;
                        i += 1;
                    }
                }
                i += r.usize(20);
            }
        }
        3 => {
            for (i, b) in v.iter_mut().enumerate() {
                *b = (i / 7) as u8;
            }
        }
        _ => r.fill(&mut v),
    }
    if n >= 4 && r.p(20) {
        let crc = *r.pick(&[0, u32::MAX, 1, 0x8000_0000, 0x0403_4b50, 0x0807_4b50, 0xffff]);
        force_crc(&mut v, crc);
    }
    v
}

/// Changes the last four bytes so that the data has the given CRC-32.
pub fn force_crc(v: &mut [u8], crc: u32) {
    let mut table = [0u32; 256];
    for (i, t) in table.iter_mut().enumerate() {
        *t = i as u32;
        for _ in 0..8 {
            *t = (*t >> 1) ^ (0xedb8_8320 * (*t & 1));
        }
    }
    let (head, tail) = v.split_at_mut(v.len() - 4);
    let mut c = !crc;
    let mut idx = [0usize; 4];
    for i in (0..4).rev() {
        idx[i] = table.iter().position(|t| t >> 24 == c >> 24).expect("the top bytes are all different");
        c = (c ^ table[idx[i]]) << 8;
    }
    let mut c = !crc32fast::hash(head);
    for i in 0..4 {
        tail[i] = (c as u8) ^ idx[i] as u8;
        c = (c >> 8) ^ table[idx[i]];
    }
    assert_eq!(crc32fast::hash(v), crc, "forced checksum");
}

pub fn gen_specs(r: &mut Rng, cfg: &ArchCfg) -> Vec<EntrySpec> {
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => 2,
        _ => r.range(1, cfg.max_entries),
    }
    .min(cfg.max_entries);
    let mut seen = HashSet::new();
    let mut out = Vec::new();
    let preset_mode = r.below(4);
    for i in 0..n {
        let mut name = gen_name(r, cfg.long_names);
        if !seen.insert(name.clone()) {
            name = format!("{i}-{}", r.below(1_000_000));
            if !seen.insert(name.clone()) {
                continue;
            }
        }
        let preset = match preset_mode {
            0 => false,
            1 => cfg.preset > 0,
            _ => r.p(cfg.preset),
        };
        let mut meta = Vec::new();
        if cfg.meta {
            for _ in 0..r.below(4) {
                meta.push(Meta::gen_one(r));
            }
        }
        out.push(EntrySpec {
            name,
            data: Arc::new(gen_data(r, cfg.max_data)),
            preset,
            meta,
        });
    }
    out
}

pub fn describe(specs: &[EntrySpec]) -> String {
    let mut s = format!("{} entries:", specs.len());
    for e in specs.iter().take(8) {
        let name: String = e.name.chars().take(20).collect();
        s.push_str(&format!(
            " {name:?}({} B name, {} B data{})",
            e.name.len(),
            e.data.len(),
            if e.preset { ", crc supplied" } else { "" }
        ));
    }
    s
}

pub fn fingerprint(specs: &[EntrySpec]) -> u64 {
    let mut h = specs.len() as u64;
    for e in specs {
        h = mix(h, crate::rng::hash_str(&e.name));
        h = mix(h, u64::from(crc32fast::hash(&e.data)) ^ ((e.data.len() as u64) << 32));
        h = mix(h, u64::from(e.preset) + 2 * e.meta.len() as u64);
    }
    h
}

fn configure<D: EntryData>(e: &mut BuilderEntry<D>, s: &EntrySpec) {
    if s.preset {
        e.crc32(crc32fast::hash(&s.data));
    }
    for m in &s.meta {
        m.apply(e);
    }
}

/// A builder with one source per entry made by `f`.
pub fn build_with<'a, D: EntryData>(
    specs: &'a [EntrySpec],
    mut f: impl FnMut(&'a EntrySpec) -> D,
) -> R<Builder<D>> {
    let mut b = Builder::<D>::new();
    for s in specs {
        match b.add_entry(s.name.clone(), f(s)) {
            Ok(e) => configure(e, s),
            Err(e) => crate::fail!("add_entry rejected a valid entry ({} B name): {e}", s.name.len()),
        }
    }
    Ok(b)
}

pub fn build_vec(specs: &[EntrySpec]) -> R<Builder<Vec<u8>>> {
    build_with(specs, |s| s.data.as_ref().clone())
}

pub fn build_mon(specs: &[EntrySpec], log: &Log) -> R<Builder<MonSrc>> {
    build_with(specs, |s| log.source(s.data.clone(), s.data.len() as u64))
}

/// Reads to the end with a given buffer size; the sources must never be pending.
pub fn read_sync<D: EntryData>(mut r: Pin<&mut Reader<D>>, bufsize: usize, limit: u64) -> R<Vec<u8>> {
    let mut cx = Context::from_waker(Waker::noop());
    let mut out: Vec<u8> = Vec::new();
    let mut buf = vec![0u8; bufsize];
    loop {
        let mut rb = ReadBuf::new(&mut buf);
        match r.as_mut().poll_read(&mut cx, &mut rb) {
            Poll::Pending => crate::fail!("read pending although all data is in memory"),
            Poll::Ready(Err(e)) => crate::fail!("read at {} failed: {e}", out.len()),
            Poll::Ready(Ok(())) => {}
        }
        let n = rb.filled().len();
        if n == 0 {
            return Ok(out);
        }
        out.extend_from_slice(&buf[..n]);
        ensure!(
            out.len() as u64 <= limit,
            "more than {limit} B delivered, the archive does not end"
        );
    }
}

pub fn short(name: &str) -> String {
    name.chars().take(60).collect()
}

/// Number, order and names of the entries.
pub fn compare_entries(specs: &[EntrySpec], parsed: &Parsed) -> R {
    ensure!(
        parsed.entries.len() == specs.len(),
        "{} entries added, {} in the archive",
        specs.len(),
        parsed.entries.len()
    );
    for (i, (s, e)) in specs.iter().zip(&parsed.entries).enumerate() {
        ensure!(
            e.name == s.name.as_bytes(),
            "entry {i}: name {:?} instead of {:?}",
            short(&String::from_utf8_lossy(&e.name)),
            short(&s.name)
        );
    }
    Ok(())
}

pub struct Arch {
    pub specs: Vec<EntrySpec>,
    pub truth: Arc<Vec<u8>>,
    pub parsed: Parsed,
    pub crcs: Vec<u32>,
    /// The positions of the records are known for certain
    pub exact: bool,
}

/// Where the records are, calculated from the format alone: used to choose positions when the
/// archive is too broken for the parser (which only the checks of the format report).
fn layout(specs: &[EntrySpec]) -> Parsed {
    let mut entries = Vec::new();
    let mut p = 0u64;
    for s in specs {
        let n = s.name.len() as u64;
        let data_off = p + 30 + n + 28;
        let desc_off = data_off + s.data.len() as u64;
        entries.push(parse::PEntry {
            name: s.name.as_bytes().to_vec(),
            local_off: p,
            data_off,
            size: s.data.len() as u64,
            desc_off,
            desc_end: desc_off + 24,
            cd_off: 0,
            cd_end: 0,
            crc: 0,
            time: 0,
            date: 0,
            ext_attr: 0,
            host: 0,
        });
        p = desc_off + 24;
    }
    let cd_off = p;
    for e in &mut entries {
        e.cd_off = p;
        p += 46 + e.name.len() as u64 + 28;
        e.cd_end = p;
    }
    Parsed {
        entries,
        cd_off,
        cd_size: p - cd_off,
        eocd_off: p,
        total: p + 98,
    }
}

impl Arch {
    /// The reference archive for checks that compare histories with it. Whether it is a valid
    /// archive of the entries is for other checks to say.
    pub fn new(specs: Vec<EntrySpec>) -> R<Arch> {
        let b = build_vec(&specs)?;
        let mut reader = Box::pin(b.build());
        let size = reader.size();
        let bound = size.min(1 << 30) + (1 << 16);
        let truth = read_sync(reader.as_mut(), 1 << 17, bound)?;
        let mut exact = true;
        let parsed = match parse::parse_all(&truth) {
            Ok(p)
                if p.entries.len() == specs.len()
                    && p.entries.iter().zip(&specs).all(|(e, s)| {
                        e.name == s.name.as_bytes() && e.size == s.data.len() as u64
                    }) =>
            {
                p
            }
            _ => {
                exact = false;
                let mut p = layout(&specs);
                p.total = p.total.max(truth.len() as u64);
                p
            }
        };
        let crcs = specs.iter().map(|s| crc32fast::hash(&s.data)).collect();
        Ok(Arch {
            specs,
            truth: Arc::new(truth),
            parsed,
            crcs,
            exact,
        })
    }

    /// Compares what the independent parser finds in an archive with what was added.
    pub fn compare(specs: &[EntrySpec], bytes: &[u8]) -> R<Parsed> {
        let parsed = parse::parse_all(bytes)?;
        compare_entries(specs, &parsed)?;
        for (i, (s, e)) in specs.iter().zip(&parsed.entries).enumerate() {
            ensure!(
                bytes[e.data_off as usize..e.desc_off as usize] == s.data[..],
                "entry {i} ({:?}): content differs",
                short(&s.name)
            );
        }
        Ok(parsed)
    }

    pub fn size(&self) -> u64 {
        self.truth.len() as u64
    }

    /// Positions where something could go wrong: all structure boundaries, ±1, and a few others.
    pub fn interesting(&self, r: &mut Rng) -> u64 {
        let p = &self.parsed;
        let base = match r.below(10) {
            0 => 0,
            1 => p.total,
            2 => p.cd_off,
            3 => p.eocd_off,
            _ if p.entries.is_empty() => r.below(p.total + 1),
            k => {
                let e = r.pick(&p.entries);
                match k {
                    4 => e.local_off,
                    5 => e.data_off,
                    6 => e.desc_off,
                    7 => e.cd_off,
                    8 => {
                        if e.size > 0 {
                            e.data_off + r.below(e.size)
                        } else {
                            e.desc_end
                        }
                    }
                    _ => *r.pick(&[
                        e.local_off + 30,
                        e.local_off + 30 + e.name.len() as u64,
                        e.cd_off + 46,
                        e.cd_off + 46 + e.name.len() as u64,
                        e.desc_end,
                        e.cd_end,
                    ]),
                }
            }
        };
        match r.below(5) {
            0 => base.saturating_sub(1),
            1 => base + 1,
            2 => base + r.below(70),
            _ => base,
        }
    }
}
