//! Checks of what is in the archive: C01, C02, C03, C11, C12, C13.
use crate::arch::{self, Arch, ArchCfg, EntrySpec, Meta, build_mon, build_vec, build_with, describe, fingerprint, gen_name, gen_specs, read_sync, short};
use crate::engine::{Session, gen_buf, gen_plan};
use crate::parse::{self, Parsed};
use crate::report::{Caught, Ctx, R, Runner, catch};
use crate::rng::{Rng, mix};
use crate::src::{Log, Plan, Proc, Short};
use crate::{ensure, fail};
use std::io::{Read as _, Write as _};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use std::time::{Duration, SystemTime, UNIX_EPOCH};
use tokio::io::{AsyncRead, ReadBuf};
use zippity::{AddEntryError, Builder, EntryData, Reader};

/// Reads everything, letting the sources of `log` make progress when pending.
pub fn read_all<D: EntryData>(mut r: Pin<&mut Reader<D>>, log: Option<&Log>, rng: &mut Rng, max_buf: usize, limit: u64) -> R<Vec<u8>> {
    let mut cx = Context::from_waker(Waker::noop());
    let mut out: Vec<u8> = Vec::new();
    let mut buf = vec![0u8; max_buf + 1];
    let mut idle = 0u64;
    loop {
        let b = 1 + gen_buf(rng, max_buf).min(max_buf);
        let mut rb = ReadBuf::new(&mut buf[..b]);
        match r.as_mut().poll_read(&mut cx, &mut rb) {
            Poll::Pending => {
                let Some(l) = log else { fail!("read pending although all data is in memory") };
                l.tick();
                idle += 1;
                ensure!(idle < 10_000_000, "the end is not reached");
                continue;
            }
            Poll::Ready(Err(e)) => fail!("read at {} failed: {e}", out.len()),
            Poll::Ready(Ok(())) => {}
        }
        let n = rb.filled().len();
        if n == 0 {
            return Ok(out);
        }
        out.extend_from_slice(&buf[..n]);
        ensure!(out.len() as u64 <= limit, "more than {limit} B delivered");
    }
}

fn limit_of(specs: &[EntrySpec]) -> u64 {
    let data: u64 = specs.iter().map(|s| s.data.len() as u64 + 2 * s.name.len() as u64 + 500).sum();
    2 * data + (1 << 16)
}

/// Archive bytes from a source type and a way of reading chosen at random.
fn produce(specs: &[EntrySpec], r: &mut Rng, ctx: &mut Ctx) -> R<Vec<u8>> {
    let limit = limit_of(specs);
    let total: u64 = specs.iter().map(|s| s.data.len() as u64).sum();
    let mb = if total > 20_000 { 9000 } else { *r.pick(&[3usize, 40, 500, 9000]) };
    match r.below(3) {
        0 => {
            ctx.count("archives_from_vectors_one_read", 1);
            let mut rd = Box::pin(build_vec(specs)?.build());
            read_sync(rd.as_mut(), limit as usize, limit)
        }
        1 => {
            ctx.count("archives_from_slices_chunked", 1);
            let mut rd = Box::pin(build_with(specs, |s| s.data.as_slice())?.build());
            read_all(rd.as_mut(), None, r, mb, limit)
        }
        _ => {
            ctx.count("archives_from_asynchronous_sources", 1);
            let mut plan = gen_plan(r);
            if plan.short == Short::One && total > 20_000 {
                plan.short = Short::Random;
            }
            let log = Log::new(r.next(), plan);
            let mut rd = Box::pin(build_mon(specs, &log)?.build());
            let v = read_all(rd.as_mut(), Some(&log), r, mb, limit)?;
            ctx.count("source_operations", log.lock().ops);
            Ok(v)
        }
    }
}

// ---------------------------------------------------------------------------------------------

pub fn c01(run: &mut Runner) {
    run.rule = "A case is a set of entries (names of all kinds up to 65535 bytes, contents with embedded ZIP signatures, sizes around buffer boundaries, checksums supplied or not), read from start to end through a source type, schedule and buffer sizes chosen at random; the bytes are taken apart by an independent parser and by a forward-only one, and every name, order, content and stored CRC-32 compared (stage random). Stage counts: entry counts 0 to 70000 around 65535. Stage external: archives decoded by Python's zipfile. Non-trivial: distinct sets of entries.".into();
    run.stage("random", run.n(9000, 200_000), |ctx| {
        let mut r = ctx.rng.clone();
        let acfg = ArchCfg { max_entries: 12, max_data: 70_000, ..ArchCfg::default() };
        let specs = gen_specs(&mut r, &acfg);
        ctx.sample(|| describe(&specs));
        let bytes = produce(&specs, &mut r, ctx)?;
        roundtrip(&specs, &bytes, ctx)?;
        ctx.nontrivial(fingerprint(&specs));
        Ok(())
    });
    let counts: &[u64] = &[
        0, 1, 2, 10, 99, 100, 127, 128, 255, 256, 257, 511, 512, 999, 1000, 1024, 4096, 10_000, 16_384, 32_767, 32_768,
        65_534, 65_535, 65_536, 65_537, 70_000, 100_000, 131_072,
    ];
    let n = counts.len() as u64 - if run.thorough() { 0 } else { 2 };
    run.stage("large", run.n(150, 3000), |ctx| {
        let mut r = ctx.rng.clone();
        let acfg = ArchCfg { max_entries: 4, max_data: 5_000_000, ..ArchCfg::default() };
        let specs = gen_specs(&mut r, &acfg);
        let bytes = produce(&specs, &mut r, ctx)?;
        roundtrip(&specs, &bytes, ctx)?;
        ctx.nontrivial(fingerprint(&specs));
        Ok(())
    });
    run.stage("counts", n, |ctx| {
        let mut r = ctx.rng.clone();
        let n = counts[ctx.idx as usize];
        let long = n < 5000;
        let specs: Vec<EntrySpec> = (0..n)
            .map(|i| {
                let mut d = vec![0u8; if long { r.usize(60) } else { r.usize(4) }];
                r.fill(&mut d);
                EntrySpec {
                    name: format!("{i:x}"),
                    data: Arc::new(d),
                    preset: r.p(64),
                    meta: Vec::new(),
                }
            })
            .collect();
        ctx.sample(|| format!("{n} entries"));
        let bytes = produce(&specs, &mut r, ctx)?;
        roundtrip(&specs, &bytes, ctx)?;
        ctx.max("most_entries", n);
        ctx.nontrivial(n);
        Ok(())
    });
    run.stage("external", run.nf(24, 400), external);
    // One archive of many entries of many sizes, more data than any buffer
    run.stage("wide", run.nf(24, 300), |ctx| {
        let mut r = ctx.rng.clone();
        let acfg = ArchCfg { max_entries: 400, max_data: 20_000, ..ArchCfg::default() };
        let mut specs = gen_specs(&mut r, &acfg);
        if specs.len() < 50 {
            for i in 0..200 {
                let mut d = vec![0u8; r.usize(3000)];
                r.fill(&mut d);
                specs.push(EntrySpec { name: format!("w{i}/x"), data: Arc::new(d), preset: r.p(80), meta: Vec::new() });
            }
        }
        let bytes = produce(&specs, &mut r, ctx)?;
        roundtrip(&specs, &bytes, ctx)?;
        ctx.nontrivial(fingerprint(&specs));
        Ok(())
    });
}

fn roundtrip(specs: &[EntrySpec], bytes: &[u8], ctx: &mut Ctx) -> R {
    let p = Arch::compare(specs, bytes)?;
    for (s, e) in specs.iter().zip(&p.entries) {
        ensure!(
            e.crc == crc32fast::hash(&s.data),
            "{:?}: stored CRC {:08x}, the data has {:08x}",
            short(&s.name),
            e.crc,
            crc32fast::hash(&s.data)
        );
    }
    ctx.count("entries_compared", specs.len() as u64);
    ctx.count("bytes_compared", bytes.len() as u64);
    ctx.max("longest_name", specs.iter().map(|s| s.name.len()).max().unwrap_or(0) as u64);
    ctx.max("largest_entry", specs.iter().map(|s| s.data.len()).max().unwrap_or(0) as u64);
    Ok(())
}

const PY: &str = r#"
import sys, zipfile, io, struct, binascii
b = sys.stdin.buffer.read()
z = zipfile.ZipFile(io.BytesIO(b))
assert z.testzip() is None, 'testzip'
out = sys.stdout.buffer
for i in z.infolist():
    n = i.filename.encode('utf-8'); d = z.read(i)
    out.write(struct.pack('<QQII', len(n), len(d), i.CRC, i.external_attr) + n + d)
"#;

/// Python's zipfile as a second opinion on the archive (names it keeps unchanged only).
fn external(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let acfg = ArchCfg { max_entries: 10, max_data: 30_000, ..ArchCfg::default() };
    let mut specs = gen_specs(&mut r, &acfg);
    specs.retain(|s| !s.name.contains('\0') && !s.name.is_empty() && !s.name.ends_with('/'));
    let bytes = produce(&specs, &mut r, ctx)?;
    let child = std::process::Command::new("python3")
        .args(["-I", "-S", "-c", PY])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn();
    let Ok(mut child) = child else {
        ctx.count("external_decoder_not_available", 1);
        return Ok(());
    };
    let mut si = child.stdin.take().unwrap();
    let b2 = bytes.clone();
    let t = std::thread::spawn(move || {
        let _ = si.write_all(&b2);
    });
    let mut out = Vec::new();
    let mut err = String::new();
    let _ = child.stdout.take().unwrap().read_to_end(&mut out);
    let _ = child.stderr.take().unwrap().read_to_string(&mut err);
    let _ = t.join();
    let ok = child.wait().map(|s| s.success()).unwrap_or(false);
    if !ok {
        let last = err.lines().last().unwrap_or("").to_string();
        // Only what zipfile itself says about the archive counts
        if last.contains("BadZipFile") || last.contains("testzip") || last.contains("NotImplementedError") || last.contains("struct.error") {
            fail!("Python's zipfile can not decode the archive: {last}");
        }
        ctx.count("external_decoder_not_available", 1);
        return Ok(());
    }
    let mut p = 0;
    for s in &specs {
        ensure!(p + 24 <= out.len(), "zipfile finds fewer entries");
        let nl = u64::from_le_bytes(out[p..p + 8].try_into().unwrap()) as usize;
        let dl = u64::from_le_bytes(out[p + 8..p + 16].try_into().unwrap()) as usize;
        p += 24;
        ensure!(out[p..p + nl] == *s.name.as_bytes(), "zipfile reads another name for {:?}", short(&s.name));
        p += nl;
        ensure!(out[p..p + dl] == s.data[..], "zipfile reads other content for {:?}", short(&s.name));
        p += dl;
        ctx.count("entries_decoded_externally", 1);
    }
    ensure!(p == out.len(), "zipfile finds more entries");
    ctx.nontrivial(fingerprint(&specs));
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub fn c02(run: &mut Runner) {
    run.rule = "A case is an archive whose every byte is attributed by a strict independent parser: local records from offset 0 without gaps, central directory and end records to the last byte, all fields cross-checked between local header, descriptor, central directory and end records and against what was added (stage structure); a forward-only parser that never looks at the central directory must find the same entries; entries added while clones are built in between (stage grown); archives of up to 2^64-1 bytes parsed through a seeking reader (stage huge). Non-trivial: distinct sets of entries.".into();
    run.stage("structure", run.n(9000, 200_000), |ctx| {
        let mut r = ctx.rng.clone();
        let acfg = ArchCfg { max_entries: 10, max_data: 20_000, ..ArchCfg::default() };
        let specs = gen_specs(&mut r, &acfg);
        ctx.sample(|| describe(&specs));
        let bytes = produce(&specs, &mut r, ctx)?;
        structure(&specs, &bytes, ctx)?;
        ctx.nontrivial(fingerprint(&specs));
        Ok(())
    });
    // The builder is used in stages, with clones built in between
    run.stage("grown", run.n(1500, 20_000), |ctx| {
        let mut r = ctx.rng.clone();
        let acfg = ArchCfg { max_entries: 9, max_data: 3000, ..ArchCfg::default() };
        let specs = gen_specs(&mut r, &acfg);
        let mut b = Builder::<Vec<u8>>::new();
        for (i, s) in specs.iter().enumerate() {
            match b.add_entry(s.name.clone(), s.data.as_ref().clone()) {
                Ok(e) => {
                    if s.preset {
                        e.crc32(crc32fast::hash(&s.data));
                    }
                    for m in &s.meta {
                        m.apply(e);
                    }
                }
                Err(e) => fail!("add_entry failed: {e}"),
            }
            if r.p(100) {
                let mut rd = Box::pin(b.clone().build());
                let v = read_sync(rd.as_mut(), 5000, 1 << 30)?;
                structure(&specs[..=i], &v, ctx)?;
            }
        }
        let mut rd = Box::pin(b.build());
        let v = read_sync(rd.as_mut(), 700, 1 << 30)?;
        structure(&specs, &v, ctx)?;
        ctx.nontrivial(fingerprint(&specs));
        Ok(())
    });
    run.stage("huge", run.n(500, 10_000), |ctx| super::big::structure(ctx, ctx.idx % 3 == 0));
    run.stage("many", run.nf(6, 14), |ctx| {
        let mut r = ctx.rng.clone();
        let n = [65534u64, 65535, 65536, 65537, 300, 5000, 66_000, 70_000, 1, 0, 100_000, 1000, 3000, 80_000][ctx.idx as usize % 14];
        let specs: Vec<EntrySpec> = (0..n)
            .map(|i| EntrySpec {
                name: format!("{i:x}/"),
                data: Arc::new(if i % 3 == 0 { vec![i as u8; r.usize(5)] } else { Vec::new() }),
                preset: false,
                meta: vec![Meta::gen_one(&mut r)],
            })
            .collect();
        let bytes = produce(&specs, &mut r, ctx)?;
        structure(&specs, &bytes, ctx)?;
        ctx.nontrivial(n);
        Ok(())
    });
}

/// Model of the metadata setters.
#[derive(Clone, Debug)]
pub struct MetaModel {
    kind: u32,
    perm: Perm,
    date: Option<(i32, u32, u32, u32, u32, u32)>,
}
#[derive(Clone, Copy, Debug)]
enum Perm {
    Rw,
    Ro,
    Mode(u32),
}

impl MetaModel {
    pub fn new() -> Self {
        MetaModel { kind: 0o100_000, perm: Perm::Rw, date: None }
    }
    pub fn apply(&mut self, m: &Meta) {
        match *m {
            Meta::File => self.kind = 0o100_000,
            Meta::Dir => self.kind = 0o040_000,
            Meta::Symlink => self.kind = 0o120_000,
            Meta::Mode(m) => self.perm = Perm::Mode(m & 0o777),
            Meta::Ro(r) => self.perm = if r { Perm::Ro } else { Perm::Rw },
            Meta::Date(y, mo, d, h, mi, s) => {
                if let Some(x) = dos(y, mo, d, h, mi, s) {
                    self.date = Some(x);
                }
            }
        }
    }
    pub fn mode(&self) -> u32 {
        let x = if self.kind == 0o040_000 { 0o111 } else { 0 };
        self.kind
            | if self.kind == 0o120_000 {
                0o777
            } else {
                match self.perm {
                    Perm::Rw => 0o644 | x,
                    Perm::Ro => 0o444 | x,
                    Perm::Mode(m) => m,
                }
            }
    }
    pub fn words(&self) -> (u16, u16) {
        words(self.date.unwrap_or((1980, 1, 1, 0, 0, 0)))
    }
}

pub type Fields = (i32, u32, u32, u32, u32, u32);

/// The representable dates (as far as they exist in the calendar or are at least in range).
pub fn dos(y: i32, mo: u32, d: u32, h: u32, mi: u32, s: u32) -> Option<Fields> {
    ((1980..=2107).contains(&y) && (1..=12).contains(&mo) && (1..=31).contains(&d) && h < 24 && mi < 60 && s < 60)
        .then_some((y, mo, d, h, mi, s))
}

pub fn words(f: Fields) -> (u16, u16) {
    let (y, mo, d, h, mi, s) = f;
    (
        (h * 2048 + mi * 32 + s / 2) as u16,
        ((y - 1980) as u32 * 512 + mo * 32 + d) as u16,
    )
}

fn structure(specs: &[EntrySpec], bytes: &[u8], ctx: &mut Ctx) -> R {
    let p = parse::parse_all(bytes)?;
    arch::compare_entries(specs, &p)?;
    ensure!(p.total == bytes.len() as u64, "structure ends at {} of {}", p.total, bytes.len());
    for (i, (s, e)) in specs.iter().zip(&p.entries).enumerate() {
        ensure!(
            e.size == s.data.len() as u64,
            "entry {i}: size {} instead of {}",
            e.size,
            s.data.len()
        );
        ensure!(e.crc == crc32fast::hash(&s.data), "entry {i}: CRC {:08x}", e.crc);
    }
    let st = parse::stream_parse(bytes)?;
    ensure!(st.len() == specs.len(), "a streaming reader finds {} of {} entries", st.len(), specs.len());
    for (i, ((name, range, crc), e)) in st.iter().zip(&p.entries).enumerate() {
        ensure!(
            *name == e.name && range.start as u64 == e.data_off && range.end as u64 == e.desc_off && *crc == e.crc,
            "entry {i}: a streaming reader sees another entry than the central directory lists"
        );
    }
    ctx.count("entries_cross_checked", specs.len() as u64);
    ctx.count("bytes_attributed", bytes.len() as u64);
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub fn c03(run: &mut Runner) {
    run.rule = "A case is a builder filled, with rejected additions in between, entries removed, reordered or changed through the entry map, and clones; after every step the announced size is compared with the size announced by a reader built from a clone and (stage edits) the number of bytes that reader delivers. Stage life: the reader's announced size is monitored through histories of reads, seeks, clones, takes and failing sources. Stage huge: entries up to 2^64-1 bytes, where the end of file must lie exactly at the announced size. Non-trivial: distinct sequences of steps.".into();
    run.stage("edits", run.n(5000, 100_000), edits);
    run.stage("growth", run.nf(8, 80), growth);
    run.stage("life", run.n(2500, 40_000), |ctx| {
        let mut r = ctx.rng.clone();
        let acfg = ArchCfg { max_data: 6000, ..ArchCfg::default() };
        let specs = gen_specs(&mut r, &acfg);
        let fp = fingerprint(&specs);
        let arch = Arc::new(Arch::new(specs)?);
        let mut plan = gen_plan(&mut r);
        if r.p(128) {
            plan.fault = [20, 20, 20, 20];
        }
        let h = crate::engine::HistCfg { clones: 10, takes: 6, ..Default::default() };
        let mut s = Session::new(arch, Arc::new(Arch::new(Vec::new())?), r.next(), plan)?;
        for _ in 0..40 {
            crate::engine::step(&mut s, &h, &mut r, ctx)?;
        }
        crate::engine::drain(&mut s, &mut r, ctx)?;
        s.stats(ctx);
        ctx.nontrivial(mix(s.shape, fp));
        Ok(())
    });
    run.stage("huge", run.n(1500, 30_000), |ctx| {
        let mut r = ctx.rng.clone();
        let mut b = Builder::<crate::src::MonSrc>::new();
        let log = Log::new(r.next(), Plan { op_budget: 100_000, ..Plan::default() });
        let mut n = 0;
        let mut last = b.size();
        let mut left = u64::MAX;
        for i in 0..r.range(1, 12) {
            let want = match r.below(5) {
                0 => r.next(),
                1 => u64::MAX - r.below(3000),
                2 => left.saturating_sub(r.below(2000)),
                3 if r.p(128) => limit_size(&mut r),
                3 => r.below(1 << 33),
                _ => r.below(100),
            };
            let src = log.source(Arc::new(Proc { seed: r.next(), len: want }), want);
            match b.add_entry(format!("entry {i}"), src) {
                Ok(e) => {
                    e.crc32(r.next() as u32);
                    n += 1;
                    let s = b.size();
                    ensure!(s > last && s - last > want, "size grew from {last} to {s} by an entry of {want} B");
                    last = s;
                }
                Err(_) => ensure!(b.size() == last, "a rejected entry changed the size from {last} to {}", b.size()),
            }
            left = u64::MAX - b.size();
        }
        let size = b.size();
        let rd = b.build();
        ensure!(rd.size() == size, "the builder announced {size}, the reader {}", rd.size());
        let mut rd = Box::pin(rd);
        let mut cx = Context::from_waker(Waker::noop());
        let mut at = |rd: &mut Pin<Box<Reader<_>>>, p: u64| -> R<usize> {
            rd.as_mut().seek_from_start_pinned(p);
            let mut buf = [0u8; 64];
            let mut rb = ReadBuf::new(&mut buf);
            match rd.as_mut().poll_read(&mut cx, &mut rb) {
                Poll::Ready(Ok(())) => Ok(rb.filled().len()),
                Poll::Ready(Err(e)) => fail!("read at {p} failed: {e}"),
                Poll::Pending => fail!("pending"),
            }
        };
        ensure!(at(&mut rd, size)? == 0, "bytes at the announced size {size}");
        for d in [1u64, 2, 22, 63] {
            let got = at(&mut rd, size - d)?;
            ensure!(got == d.min(64) as usize, "{got} B delivered {d} B before the announced size {size}");
        }
        ensure!(rd.size() == size, "announced size changed");
        ctx.max("largest_archive_gib", size >> 30);
        ctx.count("entries", n);
        ctx.nontrivial(size);
        Ok(())
    });
}

fn edits(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let acfg = ArchCfg { max_entries: 10, max_data: 3000, ..ArchCfg::default() };
    let pool = gen_specs(&mut r, &acfg);
    let mut b = Builder::<Vec<u8>>::new();
    let mut model: Vec<EntrySpec> = Vec::new();
    let mut next = 0;
    let mut shape = 0u64;
    let check = |b: &Builder<Vec<u8>>, model: &[EntrySpec], what: &str, full: bool, ctx: &mut Ctx| -> R {
        let s = b.size();
        let rd = b.clone().build();
        ensure!(rd.size() == s, "after {what}: the builder announced {s}, the reader {}", rd.size());
        if full {
            let mut rd = Box::pin(rd);
            let v = read_sync(rd.as_mut(), 4096, 1 << 31)?;
            ensure!(v.len() as u64 == s, "after {what}: {s} B announced, {} delivered", v.len());
            ensure!(rd.size() == s, "after {what}: size changed by reading");
            ctx.count("archives_read_to_the_end", 1);
        }
        ensure!(b.get_entries().len() == model.len(), "after {what}: {} entries, expected {}", b.get_entries().len(), model.len());
        ctx.count("size_comparisons", 1);
        Ok(())
    };
    check(&b, &model, "new", true, ctx)?;
    for _ in 0..r.range(1, 16) {
        let what = match r.below(11) {
            // An entry made by another builder, in place of one of the same name or as a new one
            9 | 10 if next < pool.len() => {
                let mut s = pool[next].clone();
                next += 1;
                if !model.is_empty() && r.p(100) {
                    s.name = r.pick(&model).name.clone();
                }
                let mut donor = Builder::<Vec<u8>>::new();
                match donor.add_entry(s.name.clone(), s.data.as_ref().clone()) {
                    Ok(e) => {
                        for m in &s.meta {
                            m.apply(e);
                        }
                    }
                    Err(e) => fail!("valid entry rejected: {e}"),
                }
                let Some((name, e)) = donor.get_entries_mut().pop() else { fail!("the entry added is not in the map") };
                ensure!(donor.size() == 98, "an emptied builder announces {} B", donor.size());
                b.get_entries_mut().insert(name, e);
                match model.iter_mut().find(|m| m.name == s.name) {
                    Some(m) => *m = s,
                    None => model.push(s),
                }
                "insert"
            }
            0..=3 if next < pool.len() => {
                let s = pool[next].clone();
                next += 1;
                match b.add_entry(s.name.clone(), s.data.as_ref().clone()) {
                    Ok(e) => {
                        for m in &s.meta {
                            m.apply(e);
                        }
                        model.push(s);
                    }
                    Err(e) => fail!("valid entry rejected: {e}"),
                }
                "add"
            }
            4 => {
                if let Some(s) = model.first() {
                    ensure!(b.add_entry(s.name.clone(), vec![1u8; 77]).is_err(), "duplicate accepted");
                }
                ensure!(b.add_entry("n".repeat(65536 + r.usize(3)), vec![1u8; 5]).is_err(), "too long name accepted");
                "rejected add"
            }
            5 if !model.is_empty() => {
                let i = r.usize(model.len());
                let n = model.remove(i).name;
                ensure!(b.get_entries_mut().shift_remove(&n).is_some(), "entry {n:?} is not in the map");
                "remove"
            }
            6 if model.len() > 1 => {
                let (i, j) = (r.usize(model.len()), r.usize(model.len()));
                model.swap(i, j);
                b.get_entries_mut().swap_indices(i, j);
                "reorder"
            }
            7 if !model.is_empty() => {
                if r.p(40) {
                    model.clear();
                    b.get_entries_mut().clear();
                    "clear"
                } else {
                    let i = r.usize(model.len());
                    model.truncate(i);
                    b.get_entries_mut().truncate(i);
                    "truncate"
                }
            }
            _ => {
                for e in b.get_entries_mut().values_mut() {
                    e.unix_permissions(0o600);
                }
                "metadata"
            }
        };
        shape = mix(shape, what.len() as u64 * 31 + what.as_bytes()[0] as u64);
        ctx.tr(|| format!("{what}: {} entries, size {}", model.len(), b.size()));
        let full = r.p(90);
        check(&b, &model, what, full, ctx)?;
    }
    // Finally the archive itself
    let mut rd = Box::pin(b.build());
    let v = read_sync(rd.as_mut(), 10_000, 1 << 31)?;
    Arch::compare(&model, &v)?;
    ctx.nontrivial(mix(shape, fingerprint(&model)));
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub fn c11(run: &mut Runner) {
    run.rule = "A case is a sequence of additions to a builder: valid ones, duplicates, names of 65534 to 65537 bytes (ASCII and multi-byte), sizes placed exactly at, one below and one above the remaining room up to 2^64-1; each result is compared with a model of what is representable (the overhead of names is measured from real archives), and after each rejection names, order, metadata (bytes of a built clone) and size are compared with those before. Non-trivial: distinct sequences of outcomes.".into();
    run.stage("random", run.n(4000, 80_000), admission);
    run.stage("boundaries", run.n(600, 8000), admission_boundary);
    run.stage("atomic", run.n(3000, 60_000), admission_atomic);
    run.stage("many", run.nf(8, 80), growth);
}

/// Sizes around which the width of a field changes.
fn limit_size(r: &mut Rng) -> u64 {
    (1u64 << r.range(2, 63)) - 3 + r.below(6)
}

/// A builder that gets very many entries one by one, with rejected ones in between.
fn growth(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let n = [70_000usize, 300, 5000, 20_000, 1100, 66_000, 130, 10_010][ctx.idx as usize % 8];
    let empty = overhead(&[])? as u64;
    let one = overhead(&["a".to_string()])? as u64;
    let per_byte = overhead(&["ab".to_string()])? as u64 - one;
    let per_entry = one - empty - per_byte;
    let mut b = Builder::<Vec<u8>>::new();
    let mut want = empty;
    let plain = r.p(128);
    let mut sum = 0u64;
    for i in 0..n {
        let name = if plain { format!("{i}") } else { format!("{:x}{}", i, "/y".repeat(r.usize(12))) };
        let data = vec![i as u8; r.usize(6)];
        want += per_entry + per_byte * name.len() as u64 + data.len() as u64;
        sum += data.len() as u64;
        if let Err(e) = b.add_entry(name.clone(), data) {
            fail!("entry number {i} ({:?}) rejected: {e}", short(&name));
        }
        ensure!(b.size() == want, "with {} entries: size {} announced, expected {want}", i + 1, b.size());
        let k = i + 1;
        let round = k < 130 || [1usize, 2].iter().any(|d| (k + d).is_power_of_two() || (k - d).is_power_of_two());
        if round || k.is_power_of_two() || k % 1000 <= 1 && r.p(64) || r.below(2000) == 0 {
            let again = if i % 2 == 0 { name } else { "q".repeat(65_536) };
            ensure!(b.add_entry(again, vec![1u8; 9]).is_err(), "with {k} entries: duplicate or too long name accepted");
            ensure!(b.size() == want, "with {k} entries: a rejected entry changed the size");
            ensure!(b.get_entries().len() == k, "with {k} entries: {} in the map", b.get_entries().len());
            let rd = b.clone().build();
            ensure!(rd.size() == want, "with {k} entries: {want} B announced, the reader has {}", rd.size());
            ctx.count("size_comparisons", 1);
        }
    }
    let mut rd = Box::pin(b.build());
    let v = read_sync(rd.as_mut(), 1 << 16, 1 << 30)?;
    ensure!(v.len() as u64 == want, "{want} B announced, {} delivered", v.len());
    ctx.max("most_entries", n as u64);
    ctx.nontrivial(mix(sum, n as u64));
    Ok(())
}

/// Bytes an archive with these names needs besides the data, measured.
fn overhead(names: &[String]) -> R<u128> {
    let mut b = Builder::<&[u8]>::new();
    for n in names {
        if b.add_entry(n.clone(), b"".as_slice()).is_err() {
            fail!("an empty entry with a name of {} B was rejected", n.len());
        }
    }
    let mut rd = Box::pin(b.build());
    let v = read_sync(rd.as_mut(), 1 << 16, 1 << 30)?;
    Ok(v.len() as u128)
}

fn expect_add<T>(
    res: &Result<T, AddEntryError>,
    name: &str,
    too_long: bool,
    dup: bool,
    too_big: bool,
) -> R<bool> {
    match res {
        Ok(_) => {
            ensure!(!too_long, "a name of {} B was accepted", name.len());
            ensure!(!dup, "a duplicate of {:?} was accepted", short(name));
            ensure!(!too_big, "an entry was accepted that makes the archive larger than 2^64-1 B");
            Ok(true)
        }
        Err(e) => {
            let (n, reason) = match e {
                AddEntryError::TooLongEntryName { entry_name } => (entry_name, too_long),
                AddEntryError::DuplicateEntryName { entry_name } => (entry_name, dup),
                AddEntryError::TooLongZipFile { entry_name } => (entry_name, too_big),
                _ => fail!("unexpected error {e}"),
            };
            ensure!(reason, "rejected with {:?}, which does not apply (name of {} B)", short(&e.to_string()), name.len());
            ensure!(n == name, "the error names {:?} instead of {:?}", short(n), short(name));
            Ok(false)
        }
    }
}

fn admission(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let log = Log::new(1, Plan { op_budget: 10_000, ..Plan::default() });
    let mut b = Builder::<crate::src::MonSrc>::new();
    let mut names: Vec<String> = Vec::new();
    let mut data: u128 = 0;
    let mut shape = 0;
    for _ in 0..r.range(2, 14) {
        let name = match r.below(8) {
            0 if !names.is_empty() => r.pick(&names).clone(),
            1 | 2 => {
                let n = *r.pick(&[65533usize, 65534, 65535, 65536, 65537, 70_000, 131_071]);
                let c = *r.pick(&['z', '\u{e9}', '\u{20ac}', '\u{1F600}']);
                let mut s: String = std::iter::repeat_n(c, n / c.len_utf8()).collect();
                while s.len() < n {
                    s.push('.');
                }
                s
            }
            _ => gen_name(&mut r, false),
        };
        let too_long = name.len() > 65535;
        let dup = names.contains(&name);
        let mut with = names.clone();
        if !too_long && !dup {
            with.push(name.clone());
        }
        let over = overhead(&with)?;
        let room = (u128::from(u64::MAX)).checked_sub(over + data);
        let room = room.unwrap_or(0);
        let size = match r.below(6) {
            0 => room as u64,
            1 => room.saturating_add(1).min(u128::from(u64::MAX)) as u64,
            2 => room.saturating_sub(u128::from(r.range(1, 400))) as u64,
            3 => r.next(),
            4 => u64::MAX - r.below(2),
            _ if r.p(128) => limit_size(&mut r),
            _ => r.below(1000),
        };
        let too_big = !too_long && !dup && over + data + u128::from(size) > u128::from(u64::MAX);
        let any_big = too_big || ((too_long || dup) && data + u128::from(size) + 98 > u128::from(u64::MAX));
        let src = log.source(Arc::new(Proc { seed: 1, len: size }), size);
        let before = b.size();
        let res = b.add_entry(name.clone(), src);
        let ok = expect_add(&res, &name, too_long, dup, any_big)?;
        ensure!(ok != (too_long || dup || too_big), "wrong verdict");
        ctx.tr(|| format!("add {:?} ({} B name, {size} B data) -> {ok}", short(&name), name.len()));
        if ok {
            names.push(name);
            data += u128::from(size);
            ctx.count("accepted", 1);
            ensure!(
                u128::from(b.size()) == over + data,
                "size {} announced, expected {}",
                b.size(),
                over + data
            );
        } else {
            ctx.count("rejected", 1);
            ensure!(b.size() == before, "a rejected entry changed the size from {before} to {}", b.size());
        }
        let now: Vec<&String> = b.get_entries().keys().collect();
        ensure!(now.iter().zip(&names).all(|(a, b)| *a == b) && now.len() == names.len(), "entries differ after an addition");
        shape = mix(shape, u64::from(ok) + 2 * u64::from(too_long) + 4 * u64::from(dup) + 8 * u64::from(too_big) + 16 * (size % 97));
    }
    let total = b.size();
    ensure!(b.build().size() == total, "built size");
    ensure!(log.lock().ops == 0, "a source was accessed");
    ctx.nontrivial(shape);
    Ok(())
}

/// Names and sizes exactly at the limits.
fn admission_boundary(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let log = Log::new(1, Plan { op_budget: 10_000, ..Plan::default() });
    let nl = *r.pick(&[0usize, 1, 7, 255, 300, 65534, 65535]);
    let before: Vec<(String, u64)> = (0..r.below(4))
        .map(|i| (format!("e{i}"), match r.below(3) { 0 => r.below(1 << 62), 1 => r.below(100), _ => 1 << 62 }))
        .collect();
    let mut names: Vec<String> = before.iter().map(|x| x.0.clone()).collect();
    let name = "q".repeat(nl);
    names.push(name.clone());
    let over = overhead(&names)? + before.iter().map(|x| u128::from(x.1)).sum::<u128>();
    if over > u128::from(u64::MAX) {
        return Ok(());
    }
    let room = (u128::from(u64::MAX) - over) as u64;
    for delta in -3i64..=3 {
        let Some(size) = room.checked_add_signed(delta) else { continue };
        let mut b = Builder::<crate::src::MonSrc>::new();
        for (n, s) in &before {
            if b.add_entry(n.clone(), log.source(Arc::new(Proc { seed: 1, len: *s }), *s)).is_err() {
                fail!("entry of {s} B rejected");
            }
        }
        let s0 = b.size();
        let res = b.add_entry(name.clone(), log.source(Arc::new(Proc { seed: 1, len: size }), size));
        let ok = expect_add(&res, &name, false, false, delta > 0)?;
        if ok {
            ensure!(b.size() == u64::MAX - delta.unsigned_abs(), "size {}", b.size());
            let rd = b.build();
            ensure!(rd.size() == u64::MAX - delta.unsigned_abs(), "reader size {}", rd.size());
        } else {
            ensure!(b.size() == s0, "size changed by a rejected entry");
        }
        ctx.count("sizes_around_the_limit", 1);
    }
    // Name lengths around the limit
    for n in 65533usize..=65538 {
        let mut b = Builder::<&[u8]>::new();
        let s = if r.p(128) {
            "w".repeat(n)
        } else {
            let mut s = "\u{20ac}".repeat(n / 3);
            while s.len() < n {
                s.push('x');
            }
            s
        };
        let res = b.add_entry(s.clone(), b"1".as_slice());
        expect_add(&res, &s, n > 65535, false, false)?;
        ctx.count("names_around_the_limit", 1);
    }
    ctx.nontrivial(mix(room, nl as u64));
    Ok(())
}

/// Rejected additions change nothing at all: the archive built afterwards is the same.
fn admission_atomic(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let acfg = ArchCfg { max_entries: 7, max_data: 2000, preset: 60, ..ArchCfg::default() };
    let specs = gen_specs(&mut r, &acfg);
    let good = build_vec(&specs)?;
    let mut plain = Box::pin(good.clone().build());
    let want = read_sync(plain.as_mut(), 10_000, 1 << 30)?;
    let mut b = Builder::<Vec<u8>>::new();
    let mut rejected = 0;
    for s in &specs {
        for _ in 0..r.below(3) {
            let bad = if r.p(128) || b.get_entries().is_empty() {
                "x".repeat(65536 + r.usize(100))
            } else {
                let i = r.usize(b.get_entries().len());
                b.get_entries().get_index(i).map(|x| x.0.clone()).unwrap_or_default()
            };
            let names: Vec<String> = b.get_entries().keys().cloned().collect();
            let sz = b.size();
            let before = if r.p(40) {
                let mut rd = Box::pin(b.clone().build());
                Some(read_sync(rd.as_mut(), 10_000, 1 << 30)?)
            } else {
                None
            };
            let extra = vec![7u8; r.usize(50)];
            ensure!(b.add_entry(bad.clone(), extra).is_err(), "{:?} accepted", short(&bad));
            ensure!(b.size() == sz, "size changed from {sz} to {} by a rejected entry", b.size());
            ensure!(b.get_entries().keys().eq(names.iter()), "entries changed by a rejected entry");
            if let Some(v) = before {
                let mut rd = Box::pin(b.clone().build());
                ensure!(read_sync(rd.as_mut(), 10_000, 1 << 30)? == v, "the archive changed by a rejected entry");
            }
            rejected += 1;
        }
        match b.add_entry(s.name.clone(), s.data.as_ref().clone()) {
            Ok(e) => {
                if s.preset {
                    e.crc32(crc32fast::hash(&s.data));
                }
                for m in &s.meta {
                    m.apply(e);
                }
            }
            Err(e) => fail!("valid entry rejected: {e}"),
        }
    }
    ctx.count("rejected", rejected);
    let mut rd = Box::pin(b.build());
    let got = read_sync(rd.as_mut(), 10_000, 1 << 30)?;
    ensure!(got == want, "the archive differs from one built without the rejected additions");
    if rejected > 0 {
        ctx.nontrivial(mix(fingerprint(&specs), rejected));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub fn scratch() -> R<tempfile::TempDir> {
    tempfile::Builder::new()
        .prefix("zv-")
        .tempdir()
        .map_err(|e| crate::report::Fail(format!("HARNESS scratch directory: {e}")))
}

fn attributes<D: EntryData>(b: Builder<D>) -> R<(Parsed, Vec<u8>)> {
    let mut rd = Box::pin(b.build());
    let v = read_sync(rd.as_mut(), 1 << 16, 1 << 30)?;
    Ok((parse::parse_all(&v)?, v))
}

pub fn c12(run: &mut Runner) {
    run.rule = "A case is several entries on which random sequences of type and permission setters (extreme mode values included, also through the entry map and on clones of the builder) are called in an interleaved order; the unix modes found in the archive are compared with a model of the documented meaning (stage setters), exhaustively for all short sequences (stage enumerated), and for metadata of real files, directories and symlinks with all 512 modes compared with explicit setters (stage files). Non-trivial: distinct sequences of setters.".into();
    run.stage("setters", run.n(9000, 200_000), |ctx| {
        let mut r = ctx.rng.clone();
        let n = r.range(1, 6) as usize;
        let mut b = Builder::<&[u8]>::new();
        let mut model: Vec<MetaModel> = Vec::new();
        for i in 0..n {
            if b.add_entry(format!("{i}"), b"x".as_slice()).is_err() {
                fail!("entry rejected");
            }
            model.push(MetaModel::new());
        }
        let mut shape = n as u64;
        for _ in 0..r.range(0, 14) {
            let i = r.usize(n);
            let m = Meta::gen_one(&mut r);
            ctx.tr(|| format!("entry {i}: {m:?}"));
            match b.get_entries_mut().get_index_mut(i) {
                Some((_, e)) => m.apply(e),
                None => fail!("entry {i} is gone"),
            }
            model[i].apply(&m);
            shape = mix(shape, mix(i as u64, u64::from(model[i].mode())));
            if r.p(16) {
                b = b.clone();
            }
        }
        let (p, _) = attributes(b)?;
        ensure!(p.entries.len() == n, "entries");
        for (i, (e, m)) in p.entries.iter().zip(&model).enumerate() {
            ensure!(
                e.ext_attr >> 16 == m.mode(),
                "entry {i}: mode {:o} recorded, expected {:o}",
                e.ext_attr >> 16,
                m.mode()
            );
            ensure!(e.host == 3, "host system {}", e.host);
            ensure!((e.time, e.date) == m.words(), "entry {i}: time {:04x} {:04x}", e.date, e.time);
        }
        ctx.count("entries_compared", n as u64);
        ctx.nontrivial(shape);
        Ok(())
    });
    run.stage("enumerated", run.nf(8, 8), |ctx| {
        // All sequences of up to 3 (thorough: 4) of these calls
        let calls = [
            Meta::File, Meta::Dir, Meta::Symlink, Meta::Ro(true), Meta::Ro(false),
            Meta::Mode(0), Meta::Mode(0o777), Meta::Mode(0o7777), Meta::Mode(u32::MAX), Meta::Mode(0o040_750),
        ];
        let depth = if ctx.thorough() { 5 } else { 4 };
        let k = calls.len() as u64;
        let mut b = Builder::<&[u8]>::new();
        let mut model = Vec::new();
        for len in 0..=depth {
            for code in 0..k.pow(len) {
                if mix(code, u64::from(len)) % 8 != ctx.idx {
                    continue;
                }
                let mut c = code;
                let mut m = MetaModel::new();
                let Ok(e) = b.add_entry(format!("{len}-{code}"), b"".as_slice()) else { fail!("rejected") };
                for _ in 0..len {
                    let x = &calls[(c % k) as usize];
                    c /= k;
                    x.apply(e);
                    m.apply(x);
                }
                model.push(m);
            }
        }
        let (p, _) = attributes(b)?;
        for (e, m) in p.entries.iter().zip(&model) {
            ensure!(
                e.ext_attr >> 16 == m.mode(),
                "sequence {}: mode {:o} recorded, expected {:o}",
                String::from_utf8_lossy(&e.name),
                e.ext_attr >> 16,
                m.mode()
            );
        }
        ctx.count("sequences_enumerated", model.len() as u64);
        ctx.nontrivial(ctx.idx);
        Ok(())
    });
    run.stage_threads("files", run.nf(4, 40), 4, |ctx| {
        use std::os::unix::fs::PermissionsExt as _;
        let mut r = ctx.rng.clone();
        let dir = scratch()?;
        let io = |e: std::io::Error| crate::report::Fail(format!("HARNESS {e}"));
        let f = dir.path().join("file");
        let d = dir.path().join("dir");
        let l = dir.path().join("link");
        std::fs::write(&f, b"x").map_err(io)?;
        std::fs::create_dir(&d).map_err(io)?;
        std::os::unix::fs::symlink("file", &l).map_err(io)?;
        let mut b = Builder::<&[u8]>::new();
        let mut want = Vec::new();
        for mode in 0..512u32 {
            let special = r.below(8) as u32 * 0o1000;
            for (path, meta) in [(&f, Meta::File), (&d, Meta::Dir), (&l, Meta::Symlink)] {
                if !matches!(meta, Meta::Symlink) {
                    std::fs::set_permissions(path, std::fs::Permissions::from_mode(mode | special)).map_err(io)?;
                }
                let md = std::fs::symlink_metadata(path).map_err(io)?;
                let Ok(e) = b.add_entry(format!("{mode}-{}", want.len()), b"".as_slice()) else { fail!("rejected") };
                // Whatever was set before is replaced
                for _ in 0..r.below(3) {
                    Meta::gen_one(&mut r).apply(e);
                }
                e.metadata(&md);
                let mut m = MetaModel::new();
                m.apply(&meta);
                m.apply(&Meta::Mode(md.permissions().mode()));
                // and what is set afterwards counts
                if r.p(60) {
                    let x = Meta::gen_one(&mut r);
                    x.apply(e);
                    m.apply(&x);
                } else if r.p(60) {
                    e.permissions(&std::fs::Permissions::from_mode(mode ^ 0o777));
                    m.apply(&Meta::Mode(mode ^ 0o777));
                }
                want.push(m.mode());
            }
        }
        std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o755)).map_err(io)?;
        let (p, _) = attributes(b)?;
        for (e, m) in p.entries.iter().zip(&want) {
            ensure!(
                e.ext_attr >> 16 == *m,
                "{}: mode {:o} recorded, expected {m:o}",
                String::from_utf8_lossy(&e.name),
                e.ext_attr >> 16
            );
        }
        ctx.count("filesystem_modes_compared", want.len() as u64);
        ctx.nontrivial(ctx.idx);
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

/// Calendar fields of a number of seconds since 1970 (proleptic Gregorian, days from civil).
pub fn civil(secs: i128) -> (i128, u32, u32, u32, u32, u32) {
    let days = secs.div_euclid(86400);
    let sod = secs.rem_euclid(86400) as u32;
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    let y = yoe + era * 400 + i128::from(m <= 2);
    (y, m, d, sod / 3600, sod / 60 % 60, sod % 60)
}

const SECS_1980: i128 = 315_532_800;
const SECS_2108: i128 = 4_354_819_200;

pub fn gen_secs(r: &mut Rng) -> i128 {
    match r.below(9) {
        0 => SECS_1980 + i128::from(r.below(5)) - 2,
        1 => SECS_2108 + i128::from(r.below(5)) - 2,
        2 => SECS_1980 + i128::from(r.below(200_000)) - 100_000,
        3 => SECS_2108 + i128::from(r.below(200_000)) - 100_000,
        4 => *r.pick(&[
            i128::from(i64::MIN), i128::from(i64::MIN) + 1, i128::from(i64::MAX), i128::from(i64::MAX) - 1, 0, -1, 1,
            i128::from(i32::MAX), i128::from(i32::MIN), i128::from(u32::MAX), 8_210_266_876_799, 8_210_266_876_800,
            -8_334_601_228_800, -8_334_601_228_801, 253_402_300_800, 253_402_300_799, -62_135_596_800, -62_167_219_200, -62_167_219_201,
        ]),
        5 => i128::from(r.next() as i64),
        _ => SECS_1980 + i128::from(r.below((SECS_2108 - SECS_1980) as u64)),
    }
}

pub fn systime(secs: i128, nanos: u32) -> Option<SystemTime> {
    let t = if secs >= 0 {
        UNIX_EPOCH.checked_add(Duration::from_secs(u64::try_from(secs).ok()?))?
    } else {
        UNIX_EPOCH.checked_sub(Duration::from_secs(u64::try_from(-secs).ok()?))?
    };
    t.checked_add(Duration::from_nanos(u64::from(nanos)))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Conv {
    None,
    /// Offset in seconds east of Greenwich
    Offset(i32),
    /// A time zone with two offsets which take turns, each for this many seconds
    Zone(i32, i32, i64),
    Fixed(i32, u32, u32, u32, u32, u32),
}

/// As a real zone with summer time: the offset depends on the moment.
#[derive(Clone, Copy, Debug)]
struct Zone(i32, i32, i64);

impl Zone {
    fn at(self, utc: i64) -> chrono::FixedOffset {
        let o = if utc.div_euclid(self.2) % 2 == 0 { self.0 } else { self.1 };
        chrono::FixedOffset::east_opt(o).expect("offset below a day")
    }
}

#[derive(Clone, Copy, Debug)]
struct ZoneOffset(Zone, chrono::FixedOffset);

impl chrono::Offset for ZoneOffset {
    fn fix(&self) -> chrono::FixedOffset {
        self.1
    }
}

impl chrono::TimeZone for Zone {
    type Offset = ZoneOffset;
    fn from_offset(o: &ZoneOffset) -> Self {
        o.0
    }
    fn offset_from_local_date(&self, d: &chrono::NaiveDate) -> chrono::MappedLocalTime<ZoneOffset> {
        self.offset_from_local_datetime(&d.and_time(chrono::NaiveTime::MIN))
    }
    fn offset_from_local_datetime(&self, l: &chrono::NaiveDateTime) -> chrono::MappedLocalTime<ZoneOffset> {
        use chrono::LocalResult::{Ambiguous, None, Single};
        let t = l.and_utc().timestamp();
        let fits = |o: i32| Some(self.at(t - i64::from(o))).filter(|x| x.local_minus_utc() == o).map(|x| ZoneOffset(*self, x));
        match (fits(self.0), fits(self.1)) {
            (Some(a), Some(b)) if self.0 != self.1 => {
                if self.0 > self.1 { Ambiguous(a, b) } else { Ambiguous(b, a) }
            }
            (Some(a), _) | (_, Some(a)) => Single(a),
            _ => None,
        }
    }
    fn offset_from_utc_date(&self, d: &chrono::NaiveDate) -> ZoneOffset {
        self.offset_from_utc_datetime(&d.and_time(chrono::NaiveTime::MIN))
    }
    fn offset_from_utc_datetime(&self, u: &chrono::NaiveDateTime) -> ZoneOffset {
        ZoneOffset(*self, self.at(u.and_utc().timestamp()))
    }
}

pub fn set_conv<D: zippity::EntryData>(b: &mut Builder<D>, c: Conv) {
    match c {
        Conv::None => {}
        Conv::Offset(0) => {
            b.system_time_timezone(chrono::Utc);
        }
        Conv::Offset(o) => {
            if let Some(tz) = chrono::FixedOffset::east_opt(o) {
                b.system_time_timezone(tz);
            }
        }
        Conv::Zone(x, y, p) => {
            b.system_time_timezone(Zone(x, y, p));
        }
        Conv::Fixed(y, mo, d, h, mi, s) => {
            b.system_time_converter(move |_| (y, mo, d, h, mi, s));
        }
    }
}

pub fn convert(c: Conv, secs: i128) -> Option<Fields> {
    match c {
        Conv::None => None,
        Conv::Offset(o) => {
            let (y, mo, d, h, mi, s) = civil(secs + i128::from(o));
            dos(i32::try_from(y).ok()?, mo, d, h, mi, s)
        }
        Conv::Zone(x, y, p) => {
            let o = if secs.div_euclid(i128::from(p)) % 2 == 0 { x } else { y };
            convert(Conv::Offset(o), secs)
        }
        Conv::Fixed(y, mo, d, h, mi, s) => dos(y, mo, d, h, mi, s),
    }
}

fn gen_fields(r: &mut Rng) -> Fields {
    let y = *r.pick(&[1979, 1980, 1981, 1999, 2000, 2024, 2106, 2107, 2108, 0, -1, i32::MIN, i32::MAX, 1980 + 65536, 1980 - 65536]);
    let y = if r.p(128) { r.range(1980, 2107) as i32 } else { y };
    let mut pick = |ok: std::ops::RangeInclusive<u64>, bad: &[u32]| -> u32 {
        if r.p(232) { r.range(*ok.start(), *ok.end()) as u32 } else { *r.pick(bad) }
    };
    let mo = pick(1..=12, &[0, 13, 14, 16, 17, u32::MAX, 65536 + 3, 1 << 31]);
    let d = pick(1..=28, &[0, 29, 30, 31, 32, 33, u32::MAX, 65536 + 3, 1 << 31]);
    let h = pick(0..=23, &[24, 25, 31, 32, u32::MAX, 65536 + 3]);
    let mi = pick(0..=59, &[60, 61, 63, 64, u32::MAX, 65536 + 3]);
    let s = pick(0..=59, &[60, 61, 62, 63, 64, u32::MAX, 65536 + 3]);
    (y, mo, d, h, mi, s)
}

pub fn gen_conv(r: &mut Rng) -> Conv {
    match r.below(8) {
        0 => Conv::None,
        // Summer time, a change of the zone by a day, an odd one
        6 | 7 => {
            let (x, y) = *r.pick(&[(3600, 7200), (-18_000, -14_400), (0, 3600), (37_800, 39_600), (-39_600, 46_800), (-1521, 0), (86_399, -86_399)]);
            Conv::Zone(x, y, *r.pick(&[15_778_476, 15_778_476, 86_400, 604_800, 1_000_000_007, 3]))
        }
        1 | 2 => Conv::Offset(*r.pick(&[0, 1, -1, 3600, -3600, 19_800, 45_900, -34_200, 50_400, -43_200, 86_399, -86_399])),
        3 => Conv::Offset(r.range(0, 172_798) as i32 - 86_399),
        _ => {
            let (y, mo, d, h, mi, s) = gen_fields(r);
            Conv::Fixed(y, mo, d, h, mi, s)
        }
    }
}

pub fn c13(run: &mut Runner) {
    run.rule = "A case is several entries added under converters that change in between (none, fixed offsets up to a day, zones with summer time, custom ones returning anything), on which all seven time setters are called with values around both ends of the DOS range, extreme and impossible field values and SystemTimes up to the limits of the type; the result of each strict setter and finally the time in local header and central directory are compared with an independent calendar model (stage setters); stage files: modification times of real files. Stage fields: all boundary values of each field. Non-trivial: distinct sequences of outcomes.".into();
    run.stage("setters", run.n(12_000, 300_000), timestamps);
    run.stage("fields", run.nf(16, 16), fields);
    run.stage_threads("files", run.nf(40, 600), 4, time_of_files);
}

fn check_times(b: Builder<&'static [u8]>, model: &[Option<Fields>], ctx: &mut Ctx) -> R {
    let mut rd = Box::pin(b.build());
    let v = read_sync(rd.as_mut(), 1 << 16, 1 << 30)?;
    // The parser itself checks that local header and central directory agree
    let p = parse::parse_all(&v)?;
    ensure!(p.entries.len() == model.len(), "entries");
    for (i, (e, m)) in p.entries.iter().zip(model).enumerate() {
        let w = words(m.unwrap_or((1980, 1, 1, 0, 0, 0)));
        ensure!(
            (e.time, e.date) == w,
            "entry {i}: recorded {}-{:02}-{:02} {:02}:{:02}:{:02}, expected {:?}",
            1980 + (e.date >> 9),
            (e.date >> 5) & 15,
            e.date & 31,
            e.time >> 11,
            (e.time >> 5) & 63,
            (e.time & 31) * 2,
            m
        );
        ctx.count("times_compared", 1);
    }
    Ok(())
}

fn timestamps(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let mut b = Builder::<&'static [u8]>::new();
    let mut conv = Conv::None;
    let mut model: Vec<(Conv, Option<Fields>)> = Vec::new();
    let mut shape = 0u64;
    for i in 0..r.range(1, 5) {
        if r.p(160) {
            let c = gen_conv(&mut r);
            if c != Conv::None {
                set_conv(&mut b, c);
                conv = c;
            }
        }
        if b.add_entry(format!("{i}"), b"1".as_slice()).is_err() {
            fail!("rejected");
        }
        model.push((conv, None));
        for _ in 0..r.below(7) {
            let k = r.usize(model.len());
            let (c, cur) = model[k];
            let Some((_, e)) = b.get_entries_mut().get_index_mut(k) else { fail!("entry is gone") };
            let f = gen_fields(&mut r);
            let (y, mo, d, h, mi, s) = f;
            let secs = gen_secs(&mut r);
            let nanos = if r.p(128) { 0 } else { r.below(1_000_000_000) as u32 };
            let naive = chrono::NaiveDate::from_ymd_opt(y, mo, d).and_then(|x| {
                if r.p(20) {
                    // A leap second is recorded as the second before
                    x.and_hms_nano_opt(h, mi, 59, 1_500_000_000)
                } else {
                    x.and_hms_opt(h, mi, s)
                }
            });
            let nf = naive.and_then(|n| {
                use chrono::{Datelike as _, Timelike as _};
                dos(n.year(), n.month(), n.day(), n.hour(), n.minute(), n.second())
            });
            let fields_ok = dos(y, mo, d, h, mi, s);
            let st = systime(secs, nanos);
            let op = r.below(7);
            let (name, want, strict, res): (&str, Option<Fields>, bool, Caught<Option<bool>>) = match op {
                0 => ("datetime_fields", fields_ok, true, catch(|| Some(e.datetime_fields(y, mo, d, h, mi, s).is_some()))),
                1 => ("datetime_fields_or_default", fields_ok, false, catch(|| {
                    e.datetime_fields_or_default(y, mo, d, h, mi, s);
                    None
                })),
                2 | 3 => {
                    let Some(st) = st else { continue };
                    let w = convert(c, secs);
                    if op == 2 {
                        ("datetime_system", w, true, catch(|| Some(e.datetime_system(st).is_some())))
                    } else {
                        ("datetime_system_or_default", w, false, catch(|| {
                            e.datetime_system_or_default(st);
                            None
                        }))
                    }
                }
                4 | 5 => {
                    let Some(n) = naive else { continue };
                    if op == 4 {
                        ("datetime", nf, true, catch(|| Some(e.datetime(n).is_some())))
                    } else {
                        ("datetime_or_default", nf, false, catch(|| {
                            e.datetime_or_default(n);
                            None
                        }))
                    }
                }
                _ => {
                    let n = *r.pick(&[chrono::NaiveDateTime::MIN, chrono::NaiveDateTime::MAX]);
                    if r.p(128) {
                        ("datetime", None, true, catch(|| Some(e.datetime(n).is_some())))
                    } else {
                        ("datetime_or_default", None, false, catch(|| {
                            e.datetime_or_default(n);
                            None
                        }))
                    }
                }
            };
            let what = format!("{name} with fields {f:?}, {secs} s, {nanos} ns, converter {c:?}");
            ctx.tr(|| format!("entry {k}: {what}"));
            match res {
                Caught::Panic(l, m) => fail!("{what}: panic at {l}: {m}"),
                Caught::Ok(Some(some)) => ensure!(
                    some == want.is_some(),
                    "{what}: returned {}, expected {}",
                    if some { "Some" } else { "None" },
                    if want.is_some() { "Some" } else { "None" }
                ),
                Caught::Ok(None) => {}
            }
            model[k].1 = match (want, strict) {
                (Some(w), _) => Some(w),
                (None, true) => cur,
                (None, false) => None,
            };
            shape = mix(shape, mix(op, u64::from(want.is_some())) ^ mix(secs as u64, y as u64));
            ctx.count(if want.is_some() { "representable" } else { "unrepresentable" }, 1);
        }
    }
    // A converter set after the entries has no influence on them
    if r.p(80) {
        set_conv(&mut b, Conv::Fixed(2001, 2, 3, 4, 5, 6));
    }
    let m: Vec<Option<Fields>> = model.iter().map(|x| x.1).collect();
    check_times(b, &m, ctx)?;
    ctx.nontrivial(shape);
    Ok(())
}

/// Every value of each field by itself (with the others in range).
fn fields(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let mut b = Builder::<&'static [u8]>::new();
    let mut model = Vec::new();
    let base = (2003, 7, 9, 13, 41, 37);
    for field in 0..6usize {
        for v in 0..140i64 {
            if (v + field as i64) % 16 != ctx.idx as i64 {
                continue;
            }
            let mut f = base;
            match field {
                0 => f.0 = 1970 + v as i32,
                1 => f.1 = v as u32,
                2 => f.2 = v as u32,
                3 => f.3 = v as u32,
                4 => f.4 = v as u32,
                _ => f.5 = v as u32,
            }
            let Ok(e) = b.add_entry(format!("{field}-{v}"), b"".as_slice()) else { fail!("rejected") };
            let before = if r.p(128) {
                e.datetime_fields(1999, 12, 31, 23, 59, 58);
                Some((1999, 12, 31, 23, 59, 58))
            } else {
                None
            };
            let want = dos(f.0, f.1, f.2, f.3, f.4, f.5);
            if r.p(128) {
                let got = e.datetime_fields(f.0, f.1, f.2, f.3, f.4, f.5).is_some();
                ensure!(got == want.is_some(), "datetime_fields{f:?} returned {}", if got { "Some" } else { "None" });
                model.push(want.or(before));
            } else {
                e.datetime_fields_or_default(f.0, f.1, f.2, f.3, f.4, f.5);
                model.push(want);
            }
        }
    }
    check_times(b, &model, ctx)?;
    ctx.count("field_values", model.len() as u64);
    ctx.nontrivial(ctx.idx);
    Ok(())
}

fn time_of_files(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let dir = scratch()?;
    let path = dir.path().join("f");
    std::fs::write(&path, b"1").map_err(|e| crate::report::Fail(format!("HARNESS {e}")))?;
    let mut b = Builder::<&'static [u8]>::new();
    let mut model = Vec::new();
    for i in 0..r.range(5, 30) {
        let c = gen_conv(&mut r);
        set_conv(&mut b, c);
        let c = if c == Conv::None && i > 0 { model.last().map_or(Conv::None, |x: &(Conv, Option<Fields>)| x.0) } else { c };
        let secs = gen_secs(&mut r);
        let Some(t) = systime(secs, r.below(1_000_000_000) as u32) else { continue };
        let f = std::fs::OpenOptions::new().write(true).open(&path).map_err(|e| crate::report::Fail(format!("HARNESS {e}")))?;
        if f.set_modified(t).is_err() {
            continue;
        }
        let md = std::fs::metadata(&path).map_err(|e| crate::report::Fail(format!("HARNESS {e}")))?;
        // What the filesystem could keep of it
        let Ok(t) = md.modified() else { continue };
        let secs = match t.duration_since(UNIX_EPOCH) {
            Ok(d) => i128::from(d.as_secs()),
            Err(e) => -i128::from(e.duration().as_secs()) - i128::from(e.duration().subsec_nanos() > 0),
        };
        let Ok(e) = b.add_entry(format!("{i}"), b"".as_slice()) else { fail!("rejected") };
        if r.p(128) {
            e.datetime_fields(1999, 12, 31, 23, 59, 58);
        }
        match catch(|| {
            e.metadata(&md);
        }) {
            Caught::Ok(()) => {}
            Caught::Panic(l, m) => fail!("metadata with a modification time of {secs} s, converter {c:?}: panic at {l}: {m}"),
        }
        model.push((c, convert(c, secs)));
        ctx.count("modification_times", 1);
    }
    let m: Vec<Option<Fields>> = model.iter().map(|x| x.1).collect();
    check_times(b, &m, ctx)?;
    ctx.nontrivial(ctx.idx);
    Ok(())
}
