//! Checks based on histories of one or more readers: C04, C05, C06, C07, C09, C16, C17, C22.
use crate::arch::{self, Arch, ArchCfg, EntrySpec, build_mon, build_with, describe, fingerprint, gen_specs, read_sync};
use crate::engine::{HistCfg, Kind, Polled, Session, drain, gen_plan, gen_target, step};
use crate::report::{Ctx, R, Runner};
use crate::rng::{Rng, mix};
use crate::src::{Op, Pend, Plan, Short};
use crate::{ensure, fail};
use std::io::{ErrorKind, SeekFrom};
use std::sync::Arc;

pub fn arch_of(specs: Vec<EntrySpec>) -> R<Arc<Arch>> {
    Ok(Arc::new(Arch::new(specs)?))
}

fn empty() -> R<Arc<Arch>> {
    arch_of(Vec::new())
}

pub fn spec(name: &str, data: &[u8], preset: bool) -> EntrySpec {
    EntrySpec {
        name: name.to_string(),
        data: Arc::new(data.to_vec()),
        preset,
        meta: Vec::new(),
    }
}

/// A small archive with a given pattern of supplied checksums, for enumerations.
pub fn tiny(r: &mut Rng, n: usize, max: u64, presets: u64) -> Vec<EntrySpec> {
    (0..n)
        .map(|i| {
            let mut d = vec![0u8; r.below(max + 1) as usize];
            r.fill(&mut d);
            spec(
                &"abcdefghij"[..1 + i % 9].to_string().repeat(1 + i % 2).replace('a', &i.to_string()),
                &d,
                presets & (1 << i) != 0,
            )
        })
        .collect()
}

fn random_history(ctx: &mut Ctx, acfg: &ArchCfg, hcfg: &HistCfg, plan: impl Fn(&mut Rng) -> Plan) -> R {
    let mut r = ctx.rng.clone();
    let specs = gen_specs(&mut r, acfg);
    ctx.sample(|| describe(&specs));
    let fp = fingerprint(&specs);
    let arch = arch_of(specs)?;
    let p = plan(&mut r);
    ctx.tr(|| format!("archive: {} ; plan {p:?}", describe(&arch.specs)));
    let mut s = Session::new(arch, empty()?, r.next(), p)?;
    for _ in 0..hcfg.ops {
        step(&mut s, hcfg, &mut r, ctx)?;
    }
    drain(&mut s, &mut r, ctx)?;
    s.stats(ctx);
    if s.polls > 3 {
        ctx.nontrivial(mix(fp, s.shape));
    }
    Ok(())
}

/// Histories over entries of up to 3 MB, with caller buffers to match.
fn large(ctx: &mut Ctx, hcfg: &HistCfg, fault: u32) -> R {
    let acfg = ArchCfg { max_entries: 4, max_data: 3_000_000, preset: 110, ..ArchCfg::default() };
    let h = HistCfg { ops: hcfg.ops.min(14), max_buf: 1_500_000, ..hcfg.clone() };
    random_history(ctx, &acfg, &h, |r| {
        let mut p = gen_plan(r);
        if r.p(80) {
            p = Plan::default();
        }
        p.short = match r.below(3) {
            0 => Short::Full,
            1 => Short::Max(2000 + r.usize(200_000)),
            _ => Short::Random,
        };
        p.fault = [r.below(u64::from(fault) + 1) as u32; 4];
        p
    })
}

// ---------------------------------------------------------------------------------------------

pub fn c04(run: &mut Runner) {
    run.rule = "A case is an archive and a history of reads, partial reads and seeks of one or more readers over it (stage random), or every pair of seek targets of a small archive with a read in between (stage pairs), or every start position (stage positions). Every delivered byte is compared with the reference archive at the model's position. Stage huge: histories over archives of up to 2^64-1 bytes. Non-trivial: distinct (archive, sequence of poll results).".into();
    let h = HistCfg {
        seeks: 90,
        reads: 100,
        clones: 1,
        takes: 1,
        ops: 40,
        ..HistCfg::default()
    };
    run.stage("random", run.n(6000, 120_000), |ctx| {
        let acfg = ArchCfg { max_data: 30_000, ..ArchCfg::default() };
        random_history(ctx, &acfg, &h, |r| {
            if r.p(110) { Plan { short: *r.pick(&[Short::Full, Short::Random]), ..Plan::default() } } else { gen_plan(r) }
        })
    });
    run.stage("large", run.n(200, 4000), |ctx| large(ctx, &h, 0));
    run.stage("positions", run.n(240, 2000), positions);
    run.stage("pairs", run.n(160, 1600), pairs);
    run.stage("huge", run.n(200, 6000), super::big::huge);
}

/// Every position of an archive as a starting point, read in one go to the end.
fn positions(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let n = (ctx.idx % 4) as usize;
    let max = *r.pick(&[0u64, 1, 5, 40, 300]);
    let specs = tiny(&mut r, n, max, ctx.idx >> 2);
    let arch = arch_of(specs)?;
    let mut s = Session::new(arch.clone(), empty()?, r.next(), if ctx.idx % 3 == 0 { gen_plan(&mut r) } else { Plan::default() })?;
    let buf = *r.pick(&[3usize, 17, 64, 1000, 10_000]);
    let way = r.below(5);
    // A fresh reader each time on odd cases, the same reader on even ones.
    let fresh = ctx.idx % 2 == 1;
    for p in 0..=arch.size() + 2 {
        if fresh {
            s.drop_handle(0, ctx)?;
            s.open()?;
        }
        s.seek(0, p, way, ctx)?;
        let left = arch.size().saturating_sub(p);
        let n = if buf < 50 { left.min(120) } else { left };
        if let Some(k) = s.read_n(0, n, buf, ctx)? {
            fail!("read after seek to {p} failed with {k:?}");
        }
        ctx.nontrivial(mix(ctx.idx, p));
    }
    ctx.count("positions", arch.size() + 3);
    drain(&mut s, &mut r, ctx)?;
    s.stats(ctx);
    Ok(())
}

/// All pairs (p, q) of a small archive: seek to p, read a little, seek to q, read a little.
fn pairs(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let n = 1 + (ctx.idx % 2) as usize;
    let max = *r.pick(&[3u64, 9, 20]);
    let specs = tiny(&mut r, n, max, ctx.idx >> 1);
    let arch = arch_of(specs)?;
    let mut s = Session::new(arch.clone(), empty()?, r.next(), Plan::default())?;
    let k = r.range(1, 60);
    let b = 1 + r.usize(40);
    let step_p = if ctx.thorough() { 1 } else { 5 };
    let off = r.below(step_p);
    for p in (off..=arch.size()).step_by(step_p as usize) {
        for q in 0..=arch.size() {
            s.seek(0, p, p % 5, ctx)?;
            s.read_n(0, k, b, ctx)?;
            s.seek(0, q, q % 5, ctx)?;
            s.read_n(0, 30, b, ctx)?;
        }
        ctx.nontrivial(mix(ctx.idx ^ 0x77, p));
    }
    drain(&mut s, &mut r, ctx)?;
    s.stats(ctx);
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub fn c05(run: &mut Runner) {
    run.rule = "A case is an archive read front to back from instrumented sources under one schedule of pending, ready and short results and one sequence of caller buffer sizes (stage random), or one of all 2^k pending patterns of the first k source operations of a small archive (stage masks), or the same contents held in another type of source (stage types). Every delivered byte is compared with the archive read from memory with one big buffer. Stage huge: histories over archives of up to 2^64-1 bytes. Non-trivial: distinct (archive, sequence of poll results).".into();
    let h = HistCfg {
        ops: 25,
        seeks: 0,
        clones: 0,
        takes: 0,
        converts: 2,
        bad_seeks: 0,
        drops: 0,
        ..HistCfg::default()
    };
    run.stage("random", run.n(6000, 120_000), |ctx| {
        let acfg = ArchCfg { max_data: 20_000, ..ArchCfg::default() };
        random_history(ctx, &acfg, &h, gen_plan)
    });
    run.stage("masks", run.n(96, 1200), masks);
    run.stage("types", run.n(1500, 20_000), types);
    run.stage("large", run.n(150, 3000), |ctx| large(ctx, &h, 0));
    run.stage("huge", run.n(200, 6000), super::big::huge);
}

/// All pending patterns of the first operations.
fn masks(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let n = 1 + (ctx.idx % 3) as usize;
    let specs = tiny(&mut r, n, 12, ctx.idx / 3);
    let arch = arch_of(specs)?;
    let em = empty()?;
    let bits = if ctx.thorough() { 10 } else { 8 };
    let short = *r.pick(&[Short::Full, Short::Max(4), Short::One]);
    let buf = *r.pick(&[1usize, 5, 40, 1000]);
    // From the start, or from somewhere else
    let start = if ctx.idx % 2 == 0 { 0 } else { arch.interesting(&mut r).min(arch.size()) };
    for m in 0..(1u64 << bits) {
        let p = Plan {
            open: Pend::Mask(m),
            read: Pend::Mask(m),
            seek: Pend::Mask(m),
            short,
            ..Plan::default()
        };
        let mut s = Session::new(arch.clone(), em.clone(), 1, p)?;
        if start > 0 {
            s.seek(0, start, m % 5, ctx)?;
        }
        if let Some(k) = s.read_n(0, u64::MAX, buf, ctx)? {
            fail!("mask {m:b}: read failed with {k:?}");
        }
        ensure!(s.at_end(0), "mask {m:b}: end not reached");
        ctx.nontrivial(mix(ctx.idx, s.shape));
        s.stats(ctx);
    }
    ctx.count("schedules_enumerated", 1 << bits);
    Ok(())
}

/// The same archive from all the types of sources.
fn types(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let acfg = ArchCfg { max_data: 30_000, ..ArchCfg::default() };
    let mut specs = gen_specs(&mut r, &acfg);
    let text = r.p(80);
    if text {
        for s in &mut specs {
            let v: Vec<u8> = s.data.iter().map(|b| b & 0x7f).collect();
            s.data = Arc::new(v);
        }
    }
    let arch = arch_of(specs)?;
    let buf = crate::engine::gen_read_buf(&mut r, 20_000).max(1);
    let buf = if arch.size() > 5000 { buf.max(200) } else { buf };
    let start = if r.p(128) { 0 } else { gen_target(&arch, 0, &mut r) };
    macro_rules! one {
        ($t:expr, $f:expr) => {{
            let b = build_with(&arch.specs, $f)?;
            ensure!(b.size() == arch.size(), "{}: size {} announced, expected {}", $t, b.size(), arch.size());
            let mut rd = b.build();
            rd.seek_from_start_mut(start);
            let mut rd = Box::pin(rd);
            let got = read_sync(rd.as_mut(), buf, arch.size() + 10)?;
            let st = start.min(arch.size()) as usize;
            if got[..] != arch.truth[st..] {
                let d = got.iter().zip(&arch.truth[st..]).position(|(a, b)| a != b).unwrap_or(got.len().min(arch.truth.len() - st));
                fail!("{}: read from {start} with {buf} B buffers differs at {} ({} B instead of {})", $t, st + d, got.len(), arch.truth.len() - st);
            }
            ensure!(rd.tell() == start.max(arch.size()), "{}: position {}", $t, rd.tell());
            ctx.count("source_types_compared", 1);
        }};
    }
    one!("&[u8]", |s| s.data.as_slice());
    one!("Vec<u8>", |s| s.data.as_ref().clone());
    one!("Bytes", |s| bytes::Bytes::from(s.data.as_ref().clone()));
    one!("Box<[u8]>", |s| s.data.as_ref().clone().into_boxed_slice());
    one!("Arc<[u8]>", |s| -> Arc<[u8]> { s.data.as_slice().into() });
    one!("Cow", |s| std::borrow::Cow::<[u8]>::Borrowed(s.data.as_slice()));
    if text {
        one!("String", |s| String::from_utf8(s.data.as_ref().clone()).unwrap_or_default());
        one!("&str", |s| std::str::from_utf8(s.data.as_slice()).unwrap_or_default());
    }
    ctx.nontrivial(mix(fingerprint(&arch.specs), mix(buf as u64, start)));
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub fn c06(run: &mut Runner) {
    run.rule = "A case is a history of polls (with pending and short sources), successful seeks and impossible seeks (stage random), the same with failing sources (stage faults), or a table of extreme seek arguments from extreme positions (stage extremes). After every single operation the reported position is compared with the model (last seek target + bytes delivered). Stage huge: histories over archives of up to 2^64-1 bytes. Non-trivial: distinct (archive, sequence of poll results).".into();
    let h = HistCfg {
        seeks: 60,
        bad_seeks: 40,
        ops: 50,
        ..HistCfg::default()
    };
    run.stage("random", run.n(5000, 100_000), |ctx| {
        let acfg = ArchCfg { max_data: 10_000, max_entries: 10, ..ArchCfg::default() };
        random_history(ctx, &acfg, &h, gen_plan)
    });
    // Tails (central directory with unknown checksums), where reads are interrupted in the middle
    run.stage("interrupted", run.n(4000, 60_000), |ctx| {
        let mut r = ctx.rng.clone();
        let n = r.range(1, 6) as usize;
        let bits = r.next();
        let specs = tiny(&mut r, n, 60, bits);
        let arch = arch_of(specs)?;
        let plan = gen_plan(&mut r);
        let mut s = Session::new(arch.clone(), empty()?, r.next(), plan)?;
        for _ in 0..6 {
            let e = r.pick(&arch.parsed.entries).clone();
            let t = *r.pick(&[e.desc_off, e.cd_off, arch.parsed.cd_off, e.desc_off + 3, e.cd_off + 50]);
            let way = r.below(5);
            s.seek(0, t, way, ctx)?;
            for _ in 0..r.range(1, 12) {
                let b = crate::engine::gen_buf(&mut r, 600);
                match s.poll(0, b, 0, ctx)? {
                    Polled::Pending => {
                        if r.p(128) {
                            s.wait_wake()?;
                        }
                    }
                    Polled::Error(k) => fail!("failed with {k:?}"),
                    _ => {}
                }
                if r.p(20) {
                    s.clone_handle(0, ctx)?;
                    let n = s.handles.len() - 1;
                    if let Some(k) = s.read_n(n, u64::MAX, 100, ctx)? {
                        fail!("clone failed with {k:?}");
                    }
                    s.drop_handle(n, ctx)?;
                }
            }
        }
        drain(&mut s, &mut r, ctx)?;
        s.stats(ctx);
        ctx.nontrivial(mix(s.shape, ctx.idx));
        Ok(())
    });
    run.stage("faults", run.n(2500, 40_000), |ctx| {
        let acfg = ArchCfg { max_data: 3_000, ..ArchCfg::default() };
        random_history(ctx, &acfg, &h, |r| {
            let mut p = gen_plan(r);
            p.fault = [20, 20, 30, 30];
            p
        })
    });
    run.stage("extremes", run.nf(64, 512), extremes);
    run.stage("large", run.n(100, 2000), |ctx| large(ctx, &h, 4));
    run.stage("huge", run.n(200, 6000), super::big::huge);
}

fn extremes(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let acfg = ArchCfg { max_data: 500, max_entries: 3, ..ArchCfg::default() };
    let specs = gen_specs(&mut r, &acfg);
    let arch = arch_of(specs)?;
    let size = arch.size();
    let mut s = Session::new(arch.clone(), empty()?, 1, Plan::default())?;
    let m = i64::MAX as u64;
    let positions = [
        0, 1, size - 1, size, size + 1, m - 1, m, m + 1, m + 2, u64::MAX - size, u64::MAX - 1, u64::MAX,
        r.next(),
    ];
    let offs = [
        i64::MIN, i64::MIN + 1, -(size as i64) - 1, -(size as i64), 1 - size as i64, -2, -1, 0, 1, 2,
        size as i64, i64::MAX - size as i64, i64::MAX - 1, i64::MAX,
        r.next() as i64,
    ];
    for p in positions {
        for o in offs {
            for end in [false, true] {
                let way = r.below(3);
                s.seek(0, p, way, ctx)?;
                let base = if end { size } else { p };
                let f = if end { SeekFrom::End(o) } else { SeekFrom::Current(o) };
                match base.checked_add_signed(o) {
                    None => s.bad_seek(0, f, ctx)?,
                    Some(t) => s.seek(0, t, if end { 3 } else { 4 }, ctx)?,
                }
                // The stream continues at the position
                let n = r.range(1, 40) as usize;
                s.poll(0, n, 0, ctx)?;
                ctx.nontrivial(mix(mix(p, o as u64), u64::from(end)));
                ctx.count("seek_arguments_tried", 1);
            }
        }
    }
    s.stats(ctx);
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub fn c07(run: &mut Runner) {
    run.rule = "A case is a history of partial reads, skips and seeks over sources with and without supplied checksums; every reported checksum is compared with the checksum of the data after operations, known ones must stay, records delivered must have made theirs known (stage random, also with failing sources: stage faults); then the reported checksums are supplied to a new builder, whose archive must be byte-identical (stage cache). Stage huge: histories over archives of up to 2^64-1 bytes. Non-trivial: distinct (archive, sequence of poll results).".into();
    let h = HistCfg {
        seeks: 70,
        ops: 40,
        clones: 6,
        takes: 5,
        ..HistCfg::default()
    };
    run.stage("random", run.n(5000, 100_000), |ctx| {
        let acfg = ArchCfg { max_data: 25_000, preset: 50, ..ArchCfg::default() };
        random_history(ctx, &acfg, &h, gen_plan)
    });
    run.stage("faults", run.n(3000, 60_000), |ctx| {
        let acfg = ArchCfg { max_data: 12_000, preset: 30, ..ArchCfg::default() };
        random_history(ctx, &acfg, &h, |r| {
            let mut p = gen_plan(r);
            p.fault = [r.below(40) as u32, r.below(40) as u32, r.below(40) as u32, r.below(40) as u32];
            p
        })
    });
    run.stage("cache", run.n(4000, 60_000), cache);
    run.stage("skips", run.n(3000, 50_000), skips);
    run.stage("large", run.n(150, 3000), |ctx| large(ctx, &h, 2));
    run.stage("huge", run.n(200, 6000), super::big::huge);
}

/// Entry read from the middle in all sorts of ways, with the checksum unknown.
fn skips(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let mut d = vec![0u8; arch::gen_size(&mut r, 40_000).max(1) as usize];
    r.fill(&mut d);
    let mut specs = vec![spec("x", &d, false)];
    if r.p(100) {
        specs.push(spec("y", &d[..d.len() / 2], r.p(128)));
    }
    let arch = arch_of(specs)?;
    let plan = gen_plan(&mut r);
    let mut s = Session::new(arch.clone(), empty()?, r.next(), plan)?;
    let e = arch.parsed.entries[0].clone();
    for _ in 0..4 {
        // Into the data, read some, maybe to the end of it or over
        let t = e.data_off + r.below(e.size);
        let way = r.below(5);
        s.seek(0, t, way, ctx)?;
        let n = match r.below(4) {
            0 => e.desc_off - t,
            1 => e.desc_off - t + r.range(1, 30),
            2 => r.range(1, 50),
            _ => r.below(e.desc_off - t + 1),
        };
        let polls = r.range(1, 6);
        let b = crate::engine::gen_read_buf(&mut r, 20_000).max(1);
        if r.p(100) {
            // Interrupted after a few polls
            for _ in 0..polls {
                if s.poll(0, b, 0, ctx)? == Polled::Pending && r.p(200) {
                    s.wait_wake()?;
                }
            }
        } else {
            let b = if n > 3000 { b.max(300) } else { b };
            s.read_n(0, n, b, ctx)?;
        }
        s.check_crcs(0, "skip")?;
        if r.p(60) {
            s.clone_handle(0, ctx)?;
        }
    }
    drain(&mut s, &mut r, ctx)?;
    s.stats(ctx);
    ctx.nontrivial(mix(s.shape, d.len() as u64));
    Ok(())
}

fn cache(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let acfg = ArchCfg { max_data: 10_000, preset: 20, ..ArchCfg::default() };
    let specs = gen_specs(&mut r, &acfg);
    let arch = arch_of(specs)?;
    let mut s = Session::new(arch.clone(), empty()?, r.next(), gen_plan(&mut r))?;
    let h = HistCfg { clones: 0, takes: 0, drops: 0, ..HistCfg::default() };
    for _ in 0..r.below(12) {
        step(&mut s, &h, &mut r, ctx)?;
    }
    s.check_crcs(0, "history")?;
    let reported: Vec<(String, u32)> = s.handles[0].reader().crc32s().map(|(n, c)| (n.to_string(), c)).collect();
    // A new builder that knows them
    s.log.begin(99);
    let mut b = build_mon(&arch.specs, &s.log)?;
    for (n, c) in &reported {
        match b.get_entries_mut().get_mut(n) {
            Some(e) => {
                e.crc32(*c);
            }
            None => fail!("checksum reported for unknown entry {n:?}"),
        }
    }
    let mut rd = Box::pin(b.build());
    let plan = Plan::default();
    s.log.lock().plan = plan;
    let buf = 64 + crate::engine::gen_read_buf(&mut r, 20_000);
    let got = read_sync(rd.as_mut(), buf, arch.size() + 10)?;
    ensure!(got == *arch.truth, "archive with cached checksums differs");
    let tail = arch.interesting(&mut r).min(arch.size());
    Pin::new(&mut rd).seek_from_start_mut(tail);
    let got = read_sync(rd.as_mut(), buf, arch.size() + 10)?;
    ensure!(got[..] == arch.truth[tail as usize..], "archive with cached checksums differs after {tail}");
    drop(rd);
    ctx.count("checksums_cached", reported.len() as u64);
    drain(&mut s, &mut r, ctx)?;
    s.stats(ctx);
    if !reported.is_empty() {
        ctx.nontrivial(mix(fingerprint(&arch.specs), s.shape));
    }
    Ok(())
}

use std::pin::Pin;

// ---------------------------------------------------------------------------------------------

pub fn c09(run: &mut Runner) {
    run.rule = "Fault enumeration: a fixed history (archive, schedule, seek, reads) is run once to count the source operations of each kind, then once for every single operation of each kind (open, read, start of seek, end of seek) with a failure injected there; after the failure the history continues by simply retrying, or by seeking elsewhere and reading on (stage enumerate). In stage random many faults at random, in stage persistent all operations fail from some point on and then recover. Stage huge: histories over archives of up to 2^64-1 bytes. Non-trivial: distinct (history, operation kind, index, recovery).".into();
    run.stage("enumerate", run.n(700, 12_000), c09_enumerate);
    let h = HistCfg { ops: 40, seeks: 50, ..HistCfg::default() };
    run.stage("random", run.n(4000, 80_000), |ctx| {
        let acfg = ArchCfg { max_data: 10_000, ..ArchCfg::default() };
        random_history(ctx, &acfg, &h, |r| {
            let mut p = gen_plan(r);
            let k = *r.pick(&[4u64, 30, 120]);
            p.fault = [r.below(k) as u32, r.below(k) as u32, r.below(k) as u32, r.below(k) as u32];
            p.fault_kind = *r.pick(KINDS);
            p
        })
    });
    run.stage("persistent", run.n(1500, 30_000), c09_persistent);
    run.stage("large", run.n(150, 3000), |ctx| large(ctx, &h, 6));
    run.stage("huge", run.n(200, 6000), super::big::huge);
}

const KINDS: &[ErrorKind] = &[
    ErrorKind::BrokenPipe,
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::Interrupted,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidInput,
    ErrorKind::Other,
    ErrorKind::OutOfMemory,
];

/// One scripted run: seek to `start`, read in `buf` steps to the end; on a failure `recover`.
fn c09_run(s: &mut Session, start: u64, buf: usize, recover: u64, r: &mut Rng, ctx: &mut Ctx) -> R<u64> {
    let mut errors = 0;
    if start > 0 {
        s.seek(0, start, start % 5, ctx)?;
    }
    let mut steps = 0u64;
    while !s.at_end(0) {
        match s.poll(0, buf, 0, ctx)? {
            Polled::Pending => s.wait_wake()?,
            Polled::Eof => {}
            Polled::Data(_) => {}
            Polled::Error(_) => {
                errors += 1;
                match recover {
                    0 => {}
                    1 => {
                        // To the same position
                        let p = s.handles[0].pos;
                        s.seek(0, p, r.below(5), ctx)?;
                    }
                    2 => {
                        let a = s.handles[0].arch.clone();
                        let t = a.interesting(r).min(a.size());
                        s.seek(0, t, r.below(5), ctx)?;
                    }
                    3 => {
                        s.seek(0, 0, r.below(5), ctx)?;
                    }
                    4 => {
                        // A clone and what was taken out continue
                        s.clone_handle(0, ctx)?;
                        let n = s.handles.len() - 1;
                        s.read_n(n, u64::MAX, 500, ctx)?;
                        s.take(n, ctx)?;
                        s.drop_handle(s.handles.len() - 1, ctx)?;
                        s.drop_handle(s.handles.len() - 1, ctx)?;
                    }
                    _ => {
                        s.convert(0, ctx)?;
                    }
                }
            }
        }
        steps += 1;
        ensure!(steps < 200_000, "the end is not reached in {steps} polls");
    }
    s.check_crcs(0, "end")?;
    Ok(errors)
}

fn c09_enumerate(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let n = r.range(1, 4) as usize;
    let max = *r.pick(&[3u64, 30, 200, 9000]);
    let bits = r.next();
    let specs = tiny(&mut r, n, max, bits);
    let arch = arch_of(specs)?;
    let em = empty()?;
    let mut plan = gen_plan(&mut r);
    if max > 1000 && plan.short == Short::One {
        plan.short = Short::Random;
    }
    plan.fault_kind = *r.pick(KINDS);
    let start = if r.p(100) { 0 } else { arch.interesting(&mut r).min(arch.size()) };
    let buf = *r.pick(&[1usize, 7, 50, 1000, 10_000]);
    let buf = if arch.size() > 2000 { buf.max(50) } else { buf };
    let seed = r.next();
    ctx.sample(|| format!("{} start {start} buffer {buf} plan {plan:?}", describe(&arch.specs)));
    // Count
    let mut s = Session::new(arch.clone(), em.clone(), seed, plan.clone())?;
    c09_run(&mut s, start, buf, 0, &mut r, ctx)?;
    let counts = s.log.lock().op_counts;
    s.stats(ctx);
    drop(s);
    for (k, op) in [Op::Open, Op::Read, Op::StartSeek, Op::SeekDone].into_iter().enumerate() {
        let total = counts[k];
        let step = (total / 40).max(1);
        let mut i = 0;
        while i < total {
            for recover in 0..6 {
                if i >= 6 && (i + recover) % 3 != 0 {
                    continue;
                }
                let mut p = plan.clone();
                p.fault_at = vec![(op, i)];
                if recover % 2 == 1 && r.p(100) {
                    // A second failure right after the first
                    p.fault_at.push((op, i + 1));
                }
                ctx.tr(|| format!("--- fault {op:?} number {i}, recovery {recover}"));
                let mut s = Session::new(arch.clone(), em.clone(), seed, p)?;
                let mut rr = Rng::new(seed ^ i);
                let e = c09_run(&mut s, start, buf, recover, &mut rr, ctx)?;
                ensure!(e > 0, "the injected {op:?} failure number {i} was never reported");
                drain(&mut s, &mut rr, ctx)?;
                s.stats(ctx);
                ctx.count("fault_placements", 1);
                ctx.nontrivial(mix(mix(ctx.idx, k as u64), mix(i, recover)));
            }
            i += step;
        }
    }
    Ok(())
}

fn c09_persistent(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let acfg = ArchCfg { max_data: 3000, max_entries: 5, ..ArchCfg::default() };
    let specs = gen_specs(&mut r, &acfg);
    let arch = arch_of(specs)?;
    let mut plan = gen_plan(&mut r);
    plan.fail_from = Some(r.below(20));
    plan.fault_kind = *r.pick(KINDS);
    let mut s = Session::new(arch.clone(), empty()?, r.next(), plan)?;
    let mut failed = 0;
    for round in 0..4u64 {
        // While everything fails: repeated errors, no bytes, no panic, same position
        for _ in 0..r.range(1, 30) {
            let b = crate::engine::gen_buf(&mut r, 3000);
            match s.poll(0, b, 0, ctx)? {
                Polled::Pending => {
                    if r.p(200) {
                        s.wait_wake()?;
                    }
                }
                Polled::Error(_) => {
                    failed += 1;
                    for _ in 0..r.below(4) {
                        s.poll(0, b.max(1), 0, ctx)?;
                    }
                    if r.p(60) {
                        let t = gen_target(&arch, s.handles[0].pos, &mut r);
                        s.seek(0, t, r.below(5), ctx)?;
                    }
                }
                _ => {}
            }
        }
        // Recovers for a while
        let n = s.log.lock().op_counts.iter().sum::<u64>();
        s.log.lock().plan.fail_from = Some(n + r.below(12));
        if round == 3 {
            break;
        }
    }
    drain(&mut s, &mut r, ctx)?;
    s.stats(ctx);
    if failed > 0 {
        ctx.nontrivial(mix(s.shape, ctx.idx));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub fn c16(run: &mut Runner) {
    run.rule = "A case is a history over several handles produced by cloning and taking readers and streams at arbitrary moments, each compared with its own model after every operation (stage random), or a scripted read in which, at every single poll, the reader is cloned or taken and both halves are read to the end (stage every_poll). Stage huge: histories over archives of up to 2^64-1 bytes. Non-trivial: distinct (archive, point, sequence of poll results).".into();
    let h = HistCfg {
        ops: 50,
        seeks: 30,
        clones: 25,
        takes: 25,
        converts: 12,
        drops: 15,
        max_handles: 6,
        ..HistCfg::default()
    };
    run.stage("random", run.n(5000, 100_000), |ctx| {
        let acfg = ArchCfg { max_data: 12_000, ..ArchCfg::default() };
        random_history(ctx, &acfg, &h, gen_plan)
    });
    run.stage("faults", run.n(1500, 30_000), |ctx| {
        let acfg = ArchCfg { max_data: 3000, ..ArchCfg::default() };
        random_history(ctx, &acfg, &h, |r| {
            let mut p = gen_plan(r);
            p.fault = [15, 15, 25, 25];
            p
        })
    });
    run.stage("large", run.n(100, 2000), |ctx| large(ctx, &h, 0));
    run.stage("every_poll", run.n(300, 6000), every_poll);
    run.stage("independent", run.n(300, 4000), independent);
    run.stage("huge", run.n(200, 6000), super::big::huge);
}

/// Clone and take at every single poll of a read.
fn every_poll(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let n = r.range(0, 3) as usize;
    let bits = r.next();
    let specs = tiny(&mut r, n, 60, bits);
    let arch = arch_of(specs)?;
    let em = empty()?;
    let plan = gen_plan(&mut r);
    let start = if r.p(128) { 0 } else { arch.interesting(&mut r).min(arch.size()) };
    let buf = *r.pick(&[1usize, 10, 33, 200, 1000]);
    let seed = r.next();
    let stream = r.p(80);
    for k in 0..100_000u64 {
        let mut s = Session::new(arch.clone(), em.clone(), seed, plan.clone())?;
        if stream {
            s.convert(0, ctx)?;
        }
        s.seek(0, start, 1, ctx)?;
        let mut polls = 0;
        while polls < k && !s.at_end(0) {
            if s.poll(0, buf, 0, ctx)? == Polled::Pending {
                s.wait_wake()?;
            }
            polls += 1;
        }
        let finished = s.at_end(0);
        ctx.tr(|| format!("--- after {polls} polls"));
        match k % 3 {
            0 => s.clone_handle(0, ctx)?,
            1 => s.take(0, ctx)?,
            _ => {
                s.clone_handle(0, ctx)?;
                s.take(0, ctx)?;
                s.clone_handle(2, ctx)?;
            }
        }
        drain(&mut s, &mut r, ctx)?;
        s.stats(ctx);
        ctx.count("clone_or_take_points", 1);
        ctx.nontrivial(mix(ctx.idx, k));
        if finished {
            break;
        }
    }
    Ok(())
}

/// Operations on a clone leave the original alone, and the other way round (also checksums).
fn independent(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let acfg = ArchCfg { max_data: 4000, preset: 20, ..ArchCfg::default() };
    let specs = gen_specs(&mut r, &acfg);
    let arch = arch_of(specs)?;
    let mut s = Session::new(arch.clone(), empty()?, r.next(), gen_plan(&mut r))?;
    let t = gen_target(&arch, 0, &mut r);
    s.seek(0, t, 0, ctx)?;
    for _ in 0..r.below(5) {
        s.poll(0, 100, 0, ctx)?;
    }
    s.clone_handle(0, ctx)?;
    let known = s.handles[0].known.clone();
    let pos = s.handles[0].pos;
    // The clone reads everything and learns all checksums
    s.seek(1, 0, 1, ctx)?;
    s.read_n(1, u64::MAX, 999, ctx)?;
    s.check_crcs(1, "clone read")?;
    s.check_crcs(0, "clone read")?;
    ensure!(s.handles[0].known == known, "reading a clone changed the checksums known to the original");
    ensure!(s.handles[0].reader().tell() == pos, "reading a clone moved the original");
    drain(&mut s, &mut r, ctx)?;
    s.stats(ctx);
    ctx.nontrivial(mix(s.shape, fingerprint(&arch.specs)));
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub fn c17(run: &mut Runner) {
    run.rule = "A case is a history polled by hand: wakers change between polls, polls happen without a wake-up, sources finish only when the driver lets time pass and then wake the waker they were given last. Monitors: pending only with a source pending in that very call holding the current waker, no bytes with pending or errors, progress in every other poll, caller's bytes untouched, sources used within the contract. Stage huge: histories over archives of up to 2^64-1 bytes. Non-trivial: distinct (archive, sequence of poll results) with at least one pending poll.".into();
    let h = HistCfg { ops: 40, seeks: 40, converts: 10, max_buf: 9000, ..HistCfg::default() };
    run.stage("random", run.n(5000, 100_000), |ctx| {
        let acfg = ArchCfg { max_data: 10_000, preset: 110, ..ArchCfg::default() };
        random_history(ctx, &acfg, &h, |r| {
            let mut p = gen_plan(r);
            p.open = Pend::Prob(150, 3);
            p.read = Pend::Prob(100, 3);
            p.seek = Pend::Prob(180, 3);
            p
        })
    });
    run.stage("bounded", run.n(2500, 40_000), bounded);
    run.stage("large", run.n(150, 3000), |ctx| large(ctx, &h, 0));
    run.stage("faults", run.n(1500, 30_000), |ctx| {
        let acfg = ArchCfg { max_data: 4000, preset: 110, ..ArchCfg::default() };
        random_history(ctx, &acfg, &h, |r| {
            let mut p = gen_plan(r);
            p.open = Pend::Prob(150, 3);
            p.seek = Pend::Prob(180, 3);
            p.fault = [25, 15, 40, 40];
            p
        })
    });
    run.stage("huge", run.n(200, 6000), super::big::huge);
}

/// The number of polls is bounded by bytes and pending results; source operations are bounded by
/// the work: no busy polling of sources.
fn bounded(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let acfg = ArchCfg { max_data: 12_000, ..ArchCfg::default() };
    let specs = gen_specs(&mut r, &acfg);
    let arch = arch_of(specs)?;
    let plan = gen_plan(&mut r);
    let mut s = Session::new(arch.clone(), empty()?, r.next(), plan)?;
    let t = if r.p(128) { 0 } else { gen_target(&arch, 0, &mut r) };
    s.seek(0, t, 1, ctx)?;
    let mut prev = Polled::Data(1);
    let mut n = 0u64;
    while !s.at_end(0) {
        let b = (1 + crate::engine::gen_buf(&mut r, 9000)).max(if arch.size() > 3000 { 100 } else { 1 });
        let res = s.poll(0, b, 0, ctx)?;
        match res {
            Polled::Pending => {
                s.wait_wake()?;
            }
            Polled::Data(_) => {}
            o => fail!("{o:?} before the end"),
        }
        // One call asks each source a bounded number of times: at most every byte it still had
        // to skip or read (plus opening, seeking and end of file)
        let ops = s.log.lock().ops_in_call;
        let bound = 16 + 4 * arch.specs.len() as u64 + arch.specs.iter().map(|e| e.data.len() as u64).sum::<u64>();
        ensure!(ops <= bound, "{ops} source operations in one poll");
        ctx.max("max_source_operations_in_one_poll", ops);
        prev = res;
        n += 1;
    }
    let _ = prev;
    let size = arch.size();
    let pend = s.pendings;
    ensure!(
        n <= size.saturating_sub(t) + pend,
        "{n} polls for {} bytes and {pend} pending results",
        size - t
    );
    drain(&mut s, &mut r, ctx)?;
    s.stats(ctx);
    if pend > 0 {
        ctx.nontrivial(mix(s.shape, fingerprint(&arch.specs)));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub fn c22(run: &mut Runner) {
    run.rule = "A case is a history over byte streams: polls (with pending, short and failing sources), conversion back into a reader, cloning, repositioning the contained reader, taking it; blocks are compared with the archive at the model's position (stages random, faults), or a stream created at every interesting position and polled to the end and beyond (stage complete). Stage huge: histories over archives of up to 2^64-1 bytes. Non-trivial: distinct (archive, sequence of poll results).".into();
    let h = HistCfg {
        ops: 45,
        seeks: 35,
        clones: 12,
        takes: 8,
        converts: 45,
        drops: 6,
        ..HistCfg::default()
    };
    run.stage("random", run.n(5000, 100_000), |ctx| {
        let acfg = ArchCfg { max_data: 25_000, ..ArchCfg::default() };
        random_history(ctx, &acfg, &h, gen_plan)
    });
    run.stage("faults", run.n(1500, 30_000), |ctx| {
        let acfg = ArchCfg { max_data: 5000, ..ArchCfg::default() };
        random_history(ctx, &acfg, &h, |r| {
            let mut p = gen_plan(r);
            p.fault = [20, 20, 30, 30];
            p
        })
    });
    run.stage("large", run.n(100, 2000), |ctx| large(ctx, &h, 3));
    run.stage("complete", run.n(3000, 50_000), |ctx| {
        let mut r = ctx.rng.clone();
        let acfg = ArchCfg { max_data: 60_000, max_entries: 5, ..ArchCfg::default() };
        let specs = gen_specs(&mut r, &acfg);
        let arch = arch_of(specs)?;
        let mut plan = gen_plan(&mut r);
        if plan.short == Short::One && arch.size() > 3000 {
            plan.short = Short::Random;
        }
        let mut s = Session::new(arch.clone(), empty()?, r.next(), plan)?;
        let t = if r.p(80) { 0 } else { gen_target(&arch, 0, &mut r) };
        s.seek(0, t, 1, ctx)?;
        // Possibly in the middle of something
        for _ in 0..r.below(3) {
            let b = r.usize(50);
            s.poll(0, b, 0, ctx)?;
        }
        s.convert(0, ctx)?;
        let mut blocks = 0u64;
        loop {
            match s.poll(0, 1, 0, ctx)? {
                Polled::Pending => s.wait_wake()?,
                Polled::Data(_) => blocks += 1,
                Polled::Eof => break,
                Polled::Error(k) => fail!("failed with {k:?}"),
            }
        }
        for _ in 0..4 {
            let e = s.poll(0, 1, 0, ctx)?;
            ensure!(e == Polled::Eof, "{e:?} after the end of the stream");
        }
        ensure!(matches!(s.handles[0].kind, Kind::Stream(_)), "kind");
        ctx.count("blocks", blocks);
        drain(&mut s, &mut r, ctx)?;
        s.stats(ctx);
        ctx.nontrivial(mix(s.shape, fingerprint(&arch.specs)));
        Ok(())
    });
    run.stage("huge", run.n(200, 6000), super::big::huge);
}
