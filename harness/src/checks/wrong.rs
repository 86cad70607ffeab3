//! C08: sources that do not deliver what was declared.
use crate::arch::{Arch, ArchCfg, EntrySpec, build_with, gen_specs, short};
use crate::engine::{CountWaker, Kind, gen_plan, gen_read_buf, poll_next};
use crate::report::{Ctx, R, Runner};
use crate::rng::{Rng, mix};
use crate::src::{Log, Short};
use crate::{ensure, fail};
use std::io::ErrorKind;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncReadExt, ReadBuf};
use zippity::{BytesStream, ReadError, Reader};

/// How an entry's source differs from what the archive was told.
#[derive(Clone, Debug)]
pub struct Decl {
    pub actual: Arc<Vec<u8>>,
    pub declared: u64,
    pub preset: Option<u32>,
}

impl Decl {
    pub fn size_wrong(&self) -> bool {
        // A source that declares no data is never asked for any
        self.declared != 0 && self.actual.len() as u64 != self.declared
    }
    pub fn crc_wrong(&self) -> bool {
        let c = if self.declared == 0 { crc32fast::hash(&[]) } else { crc32fast::hash(&self.actual) };
        self.preset.is_some_and(|p| p != c)
    }
    pub fn bad(&self) -> bool {
        self.size_wrong() || self.crc_wrong()
    }
}

/// Chooses wrong declarations; `specs` become the archive as declared (data padded or cut).
pub fn gen_decls(specs: &mut [EntrySpec], r: &mut Rng, p_bad: u32) -> Vec<Decl> {
    specs
        .iter_mut()
        .map(|s| {
            let actual = s.data.clone();
            let n = actual.len() as u64;
            let declared = if r.p(p_bad) && r.p(190) {
                match r.below(9) {
                    0 => n + 1,
                    1 => n.saturating_sub(1),
                    2 => n + r.range(1, 20),
                    3 => n.saturating_sub(r.range(1, 20)),
                    4 => r.below(n + 2),
                    5 => n + r.below(20_000),
                    6 => *r.pick(&[1, 8191, 8192, 8193, 16384]),
                    7 => n / 2,
                    _ => n * 2,
                }
            } else {
                n
            };
            if declared != n {
                let mut d = actual.as_ref().clone();
                let old = d.len();
                d.resize(declared as usize, 0);
                if d.len() > old {
                    // Bytes that exist in no source
                    for (i, b) in d[old..].iter_mut().enumerate() {
                        *b = (i as u8).wrapping_mul(37) ^ 0xc3;
                    }
                }
                s.data = Arc::new(d);
            }
            let ca = crc32fast::hash(&actual);
            let preset = match r.below(4) {
                0 => Some(if declared == 0 { 0 } else { ca }),
                1 if r.p(p_bad) => Some(match r.below(6) {
                    0 => ca ^ 1,
                    1 => !ca,
                    2 => 0,
                    3 => r.next() as u32,
                    4 => ca.swap_bytes(),
                    _ => crc32fast::hash(&s.data),
                }),
                _ => None,
            };
            // The reference archive calculates its checksums itself
            s.preset = false;
            Decl { actual, declared, preset }
        })
        .collect()
}

pub struct Wrong {
    pub arch: Arch,
    pub decls: Vec<Decl>,
    pub log: Log,
    pub reader: Reader<crate::src::MonSrc>,
}

pub fn gen_wrong(r: &mut Rng, acfg: &ArchCfg, self_wake: Option<bool>) -> R<Wrong> {
    let mut specs = gen_specs(r, acfg);
    let p_bad = *r.pick(&[60u32, 128, 255]);
    let decls = gen_decls(&mut specs, r, p_bad);
    let total: usize = decls.iter().map(|d| d.actual.len() + d.declared as usize).sum();
    let mut plan = gen_plan(r);
    if plan.short == Short::One && total > 20_000 {
        plan.short = Short::Random;
    }
    if let Some(s) = self_wake {
        plan.self_wake = s;
    }
    plan.clamp_seek = r.p(100);
    let log = Log::new(r.next(), plan);
    let mut i = 0;
    let mut b = build_with(&specs, |_| {
        let d = &decls[i];
        i += 1;
        log.source(d.actual.clone(), d.declared)
    })?;
    for (e, d) in b.get_entries_mut().values_mut().zip(&decls) {
        if let Some(c) = d.preset {
            e.crc32(c);
        }
    }
    let reader = b.build();
    let arch = Arch::new(specs)?;
    ensure!(reader.size() == arch.size(), "size {} announced, {} from the declarations", reader.size(), arch.size());
    Ok(Wrong { arch, decls, log, reader })
}

/// The error has to be the one for this entry.
pub fn check_error(e: &std::io::Error, arch: &Arch, decls: &[Decl], i: usize) -> R<&'static str> {
    let name = &arch.specs[i].name;
    let d = &decls[i];
    let Some(re) = e.get_ref().and_then(|x| x.downcast_ref::<ReadError>()) else {
        fail!("entry {i} ({:?}) is wrong, but the error is {e:?}", short(name));
    };
    match re {
        ReadError::SizeMismatch { entry_name, expected_size, actual_size } => {
            ensure!(d.size_wrong(), "size mismatch of {:?} reported, the size is right", short(entry_name));
            ensure!(entry_name == name, "the error names {:?} instead of {:?}", short(entry_name), short(name));
            ensure!(*expected_size == d.declared, "the error says {expected_size} B were declared, it was {}", d.declared);
            let n = d.actual.len() as u64;
            if n < d.declared {
                ensure!(*actual_size == n, "the error says the entry has {actual_size} B, it has {n}");
            } else {
                ensure!(
                    *actual_size > d.declared && *actual_size <= n,
                    "the error says {actual_size} B were read of {n}, {} are declared",
                    d.declared
                );
            }
            Ok("size_mismatch_errors")
        }
        ReadError::Crc32Mismatch { entry_name, expected_crc, actual_crc } => {
            ensure!(d.crc_wrong(), "checksum mismatch of {:?} reported, the checksum is right", short(entry_name));
            ensure!(entry_name == name, "the error names {:?} instead of {:?}", short(entry_name), short(name));
            ensure!(Some(*expected_crc) == d.preset, "the error says {expected_crc:08x} was supplied, it was {:08x}", d.preset.unwrap_or(0));
            let c = if d.declared == 0 { 0 } else { crc32fast::hash(&d.actual) };
            ensure!(*actual_crc == c, "the error says the checksum is {actual_crc:08x}, it is {c:08x}");
            Ok("crc_mismatch_errors")
        }
        _ => fail!("entry {i} is wrong, but the error is {re}"),
    }
}

pub enum Item {
    Pending,
    Data(Vec<u8>),
    Eof,
    Err(std::io::Error),
}

pub fn poll_kind(k: &mut Kind, cx: &mut Context<'_>, size: usize) -> R<Item> {
    Ok(match k {
        Kind::Reader(r) => {
            // Something may be in the buffer already, which stays there
            let pos = r.tell();
            let before = if pos % 5 == 1 { 1 + (pos / 5 % 23) as usize } else { 0 };
            let mut buf = vec![0u8; before + size];
            let mut rb = ReadBuf::new(&mut buf);
            for i in 0..before {
                rb.put_slice(&[0xc3 ^ i as u8]);
            }
            let res = r.as_mut().poll_read(cx, &mut rb);
            ensure!(rb.filled().len() >= before, "{} B in the buffer, {before} were in it before the read", rb.filled().len());
            let n = rb.filled().len() - before;
            ensure!(
                rb.filled()[..before].iter().enumerate().all(|(i, b)| *b == 0xc3 ^ i as u8),
                "the {before} B in the buffer before the read were changed"
            );
            buf.drain(..before);
            match res {
                Poll::Pending => {
                    ensure!(n == 0, "pending, but {n} B delivered");
                    Item::Pending
                }
                Poll::Ready(Err(e)) => {
                    ensure!(n == 0, "failed ({e}), but {n} B delivered");
                    Item::Err(e)
                }
                Poll::Ready(Ok(())) if n == 0 => Item::Eof,
                Poll::Ready(Ok(())) => {
                    buf.truncate(n);
                    Item::Data(buf)
                }
            }
        }
        Kind::Stream(s) => match poll_next(s.as_mut(), cx) {
            Poll::Pending => Item::Pending,
            Poll::Ready(None) => Item::Eof,
            Poll::Ready(Some(Err(e))) => Item::Err(e),
            Poll::Ready(Some(Ok(b))) => Item::Data(b.to_vec()),
        },
        Kind::Gone => unreachable!(),
    })
}

pub fn c08(run: &mut Runner) {
    run.rule = "A case is an archive in which some sources deliver fewer or more bytes than declared (by 1 up to all, around buffer sizes) or contradict a supplied checksum, read through a reader or stream of changing buffer sizes under a random schedule of delays and short reads. The reference is the archive of the declared data (padded or cut). Monitors: every delivered byte equals the reference, never a byte past the data of the first wrong entry when started before or at its data, the error is the ReadError for that entry with the right values, no bytes come with it, position unchanged, and reading again (any buffer, clone, taken reader) gives errors again. Histories seek to other places in between (central directory first, past the entry and back). Stage limited: through tokio's Take and read_exact. Stage enormous: sources of a few bytes that declare up to 2^64. Non-trivial: distinct (declarations, poll results) in which a wrong entry was reached.".into();
    run.stage("histories", run.n(20_000, 600_000), histories);
    run.stage("limited", run.n(4000, 100_000), limited);
    run.stage("small", run.nf(3000, 3000), small);
    run.stage("enormous", run.n(4000, 100_000), enormous);
}

fn histories(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let acfg = ArchCfg { max_entries: 6, max_data: if ctx.idx % 40 == 39 { 2_000_000 } else { 20_000 }, long_names: false, ..ArchCfg::default() };
    let Wrong { arch, decls, log, reader } = gen_wrong(&mut r, &acfg, None)?;
    ctx.sample(|| format!("{:?}", decls.iter().map(|d| (d.actual.len(), d.declared, d.preset)).collect::<Vec<_>>()));
    let mut k = if r.p(100) {
        Kind::Stream(Box::pin(crate::engine::into_stream(reader)))
    } else {
        Kind::Reader(Box::pin(reader))
    };
    let bad: Vec<usize> = (0..decls.len()).filter(|i| decls[*i].bad()).collect();
    let mut shape = 0;
    let mut reached = false;
    for _ in 0..r.range(1, 5) {
        // Where to start
        let start = match r.below(6) {
            0 | 1 => 0,
            2 if !bad.is_empty() => arch.parsed.entries[*r.pick(&bad)].data_off,
            3 if !bad.is_empty() => {
                let e = &arch.parsed.entries[*r.pick(&bad)];
                e.local_off + r.below(e.data_off - e.local_off + 1)
            }
            4 if !arch.parsed.entries.is_empty() => r.pick(&arch.parsed.entries).local_off,
            _ => arch.interesting(&mut r).min(arch.size()),
        };
        match &mut k {
            Kind::Reader(x) => x.as_mut().seek_from_start_pinned(start),
            Kind::Stream(x) => x.as_mut().reader_pin_mut().seek_from_start_pinned(start),
            Kind::Gone => unreachable!(),
        }
        ctx.tr(|| format!("seek to {start}"));
        match leg(&mut k, start, &arch, &decls, &log, &mut r, ctx, &mut shape)? {
            End::Wrong => reached = true,
            _ => {}
        }
        if r.p(60) {
            // Continue with another object for the same state
            k = match k {
                Kind::Reader(mut x) => match r.below(3) {
                    0 => Kind::Reader(Box::pin(Reader::clone(&x))),
                    1 => Kind::Reader(Box::pin(x.as_mut().take_pinned())),
                    _ => Kind::Stream(Box::pin(crate::engine::into_stream(*Pin::into_inner(x)))),
                },
                Kind::Stream(s) => match r.below(2) {
                    0 => Kind::Stream(Box::pin(BytesStream::clone(&s))),
                    _ => Kind::Reader(Box::pin(Pin::into_inner(s).into_reader())),
                },
                Kind::Gone => unreachable!(),
            };
        }
    }
    if reached {
        ctx.nontrivial(mix(shape, decls.len() as u64));
    }
    Ok(())
}

enum End {
    /// The error of a wrong entry
    Wrong,
    /// End of the archive, or of what the property says
    Done,
}

/// Reads from `start` until the first wrong entry's error (which must come), or the end.
fn leg(
    k: &mut Kind,
    start: u64,
    arch: &Arch,
    decls: &[Decl],
    log: &Log,
    r: &mut Rng,
    ctx: &mut Ctx,
    shape: &mut u64,
) -> R<End> {
    let p = &arch.parsed;
    // The first wrong entry whose data are read from before or at their start
    let first = (0..decls.len()).find(|i| decls[*i].bad() && start <= p.entries[*i].data_off);
    // An entry started in the middle: its errors and its checksum are not guaranteed
    let middle = (0..decls.len())
        .find(|i| decls[*i].bad() && start > p.entries[*i].data_off && start < p.entries[*i].desc_end);
    let cd_bad = decls.iter().any(Decl::bad);
    let limit = match (first, middle) {
        (_, Some(m)) => p.entries[m].desc_off,
        (Some(f), None) => p.entries[f].desc_off,
        // In the central directory the checksums of wrong entries are unspecified
        (None, None) if cd_bad => p.cd_off,
        (None, None) => p.total,
    };
    let waker = Arc::new(CountWaker(AtomicU64::new(0)));
    let wk = Waker::from(waker.clone());
    let mut cx = Context::from_waker(&wk);
    let mut pos = start;
    let mut retries = 0;
    let max_buf = *r.pick(&[2usize, 30, 700, 9000, 20_000]);
    let mut polls = 0u64;
    let stop = if start >= limit && first.is_none() {
        // Beyond: a few reads that only must not hang or panic
        6
    } else {
        10_000_000
    };
    let mut frozen = 0u64;
    loop {
        polls += 1;
        if polls > stop {
            return Ok(End::Done);
        }
        log.begin(0);
        let b = gen_read_buf(r, max_buf).max(1);
        let item = poll_kind(k, &mut cx, b)?;
        ctx.count("polls", 1);
        if let Some(v) = log.take_violation() {
            fail!("{v}");
        }
        let tell = match k {
            Kind::Reader(x) => x.tell(),
            Kind::Stream(x) => x.reader_ref().tell(),
            Kind::Gone => unreachable!(),
        };
        match item {
            Item::Pending => {
                *shape = mix(*shape, 1);
                if !log.lock().plan.self_wake {
                    let mut n = 0;
                    while waker.0.swap(0, Ordering::SeqCst) == 0 {
                        log.tick();
                        n += 1;
                        ensure!(n < 1000, "pending, but never woken");
                    }
                }
                frozen += 1;
                ensure!(frozen < 1_000_000, "no progress");
            }
            Item::Data(v) => {
                frozen = 0;
                *shape = mix(*shape, v.len() as u64 + 7);
                let end = pos + v.len() as u64;
                ctx.tr(|| format!("{} B at {pos}", v.len()));
                if end > limit {
                    if let (Some(f), None) = (first, middle) {
                        fail!(
                            "{} B delivered at {pos}: past the data of entry {f} (ends at {limit}), which has {} B instead of {} declared (checksum supplied: {:08x?})",
                            v.len(),
                            decls[f].actual.len(),
                            decls[f].declared,
                            decls[f].preset
                        );
                    }
                }
                let cut = (end.min(limit)).saturating_sub(pos) as usize;
                let want = &arch.truth[pos as usize..pos as usize + cut];
                if v[..cut] != *want {
                    let d = want.iter().zip(&v).position(|(a, b)| a != b).unwrap_or(0);
                    fail!(
                        "byte {} is {:02x}, the declared archive has {:02x} ({})",
                        pos + d as u64,
                        v[d],
                        want[d],
                        crate::engine::locate(arch, pos + d as u64)
                    );
                }
                // Data that no source has must not come out either
                for (e, d) in p.entries.iter().zip(decls) {
                    let n = d.actual.len() as u64;
                    if n < d.declared {
                        let gap = e.data_off + n;
                        ensure!(
                            end <= gap || pos >= e.desc_off,
                            "data delivered up to {end}, the source of {:?} ends at {gap}",
                            short(&String::from_utf8_lossy(&e.name))
                        );
                    }
                }
                pos = end;
                ensure!(tell == pos, "position {tell} reported, {pos} expected");
                if pos > limit {
                    return Ok(End::Done);
                }
            }
            Item::Eof => {
                ensure!(
                    first.is_none() || middle.is_some(),
                    "end of file at {pos} instead of the error of entry {}",
                    first.unwrap_or(0)
                );
                ensure!(pos >= limit.min(p.total), "end of file at {pos}");
                return Ok(End::Done);
            }
            Item::Err(e) => {
                frozen = 0;
                *shape = mix(*shape, 3);
                ctx.tr(|| format!("error at {pos}: {e}"));
                ensure!(tell == pos, "position {tell} reported after an error, {pos} expected");
                if let Some(m) = middle {
                    // Detected although not guaranteed (after a seek past the end of the source its
                    // actual size is not known)
                    let named = match e.get_ref().and_then(|x| x.downcast_ref::<ReadError>()) {
                        Some(ReadError::SizeMismatch { entry_name, expected_size, actual_size }) => {
                            ensure!(
                                *expected_size == decls[m].declared && actual_size != expected_size,
                                "the error says {actual_size} B of {expected_size} B, {} B were declared",
                                decls[m].declared
                            );
                            entry_name
                        }
                        Some(ReadError::Crc32Mismatch { entry_name, expected_crc, actual_crc }) => {
                            ensure!(
                                Some(*expected_crc) == decls[m].preset && actual_crc != expected_crc,
                                "the error says checksum {actual_crc:08x} instead of {expected_crc:08x}, {:08x?} was supplied",
                                decls[m].preset
                            );
                            entry_name
                        }
                        _ => fail!("read at {pos} failed: {e:?}"),
                    };
                    ensure!(*named == arch.specs[m].name, "the error names {:?} instead of entry {m}", short(named));
                    return Ok(End::Done);
                }
                let Some(f) = first else {
                    // In the central directory
                    ensure!(cd_bad && pos >= p.cd_off, "read at {pos} failed: {e}");
                    return Ok(End::Done);
                };
                let what = check_error(&e, arch, decls, f)?;
                ctx.count(what, 1);
                let d = &decls[f];
                if (d.actual.len() as u64) < d.declared {
                    ensure!(
                        pos == p.entries[f].data_off + d.actual.len() as u64,
                        "the error comes at {pos}, the source ends at {}",
                        p.entries[f].data_off + d.actual.len() as u64
                    );
                }
                retries += 1;
                if retries > 6 {
                    return Ok(End::Wrong);
                }
                ctx.count("retries_after_the_error", 1);
            }
        }
    }
}

/// Everything between small sizes, exhaustively: actual, declared, buffer size.
fn small(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let actual = ctx.idx % 10;
    let declared = ctx.idx / 10 % 10;
    let preset = ctx.idx / 100 % 5;
    let buf = [1usize, 2, 3, 5, 30, 200][(ctx.idx / 500 % 6) as usize];
    let mut a = vec![0u8; actual as usize];
    r.fill(&mut a);
    let mut t = a.clone();
    t.resize(declared as usize, 0x77);
    let ca = crc32fast::hash(&a);
    let specs = vec![
        super::hist::spec("before", b"xyz", false),
        super::hist::spec("w", &t, false),
        super::hist::spec("after", b"abc", false),
    ];
    let decls = vec![
        Decl { actual: Arc::new(b"xyz".to_vec()), declared: 3, preset: None },
        Decl {
            actual: Arc::new(a),
            declared,
            preset: [None, Some(ca), Some(ca ^ 0x8000_0000), Some(0), Some(crc32fast::hash(&t))][preset as usize],
        },
        Decl { actual: Arc::new(b"abc".to_vec()), declared: 3, preset: None },
    ];
    let log = Log::new(1, crate::src::Plan { short: *r.pick(&[Short::Full, Short::One]), ..Default::default() });
    let mut i = 0;
    let mut b = build_with(&specs, |_| {
        i += 1;
        log.source(decls[i - 1].actual.clone(), decls[i - 1].declared)
    })?;
    if let (Some(e), Some(c)) = (b.get_entries_mut().get_index_mut(1), decls[1].preset) {
        e.1.crc32(c);
    }
    let arch = Arch::new(specs)?;
    let rd = b.build();
    for start in [0, arch.parsed.entries[1].local_off, arch.parsed.entries[1].data_off] {
        let mut x = rd.clone();
        x.seek_from_start_mut(start);
        let mut k = Kind::Reader(Box::pin(x));
        let mut cx = Context::from_waker(Waker::noop());
        let mut pos = start;
        let mut err = 0;
        let d = &decls[1];
        loop {
            match poll_kind(&mut k, &mut cx, buf)? {
                Item::Pending => fail!("pending"),
                Item::Data(v) => {
                    let end = pos + v.len() as u64;
                    ensure!(!d.bad() || end <= arch.parsed.entries[1].desc_off, "read past the wrong entry");
                    ensure!(v[..] == arch.truth[pos as usize..end as usize], "wrong bytes at {pos}");
                    pos = end;
                }
                Item::Eof => {
                    ensure!(!d.bad(), "end of file instead of an error ({} B, {declared} declared)", d.actual.len());
                    ensure!(pos == arch.size(), "end of file at {pos}");
                    break;
                }
                Item::Err(e) => {
                    ensure!(d.bad(), "failed with {e}");
                    check_error(&e, &arch, &decls, 1)?;
                    err += 1;
                    if err > 3 {
                        break;
                    }
                }
            }
        }
    }
    ctx.nontrivial(ctx.idx);
    Ok(())
}

/// Consumers that limit the amount read: everything they get in full is right.
fn limited(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let acfg = ArchCfg { max_entries: 4, max_data: if ctx.idx % 40 == 39 { 2_000_000 } else { 5000 }, long_names: false, ..ArchCfg::default() };
    let Wrong { arch, decls, log, reader } = gen_wrong(&mut r, &acfg, Some(true))?;
    let first = (0..decls.len()).find(|i| decls[*i].bad());
    let limit = first.map_or(arch.size(), |f| arch.parsed.entries[f].desc_off);
    let mut reader = Box::pin(reader);
    let n = match r.below(4) {
        0 => limit + r.below(60),
        1 => limit.saturating_sub(r.below(30)),
        2 => arch.size(),
        _ => r.below(arch.size() + 1),
    };
    let mut cx = Context::from_waker(Waker::noop());
    let mut out = Vec::new();
    let res = if r.p(128) {
        let mut t = reader.as_mut().take(n);
        let mut fut = Box::pin(t.read_to_end(&mut out));
        drive(fut.as_mut(), &mut cx)?
    } else {
        let mut v = vec![0u8; n.min(arch.size()) as usize];
        let res = {
            let mut rd = reader.as_mut();
            let mut fut = Box::pin(rd.read_exact(&mut v));
            drive(fut.as_mut(), &mut cx)?
        };
        if res.is_ok() {
            out = v;
        }
        res
    };
    if let Some(v) = log.take_violation() {
        fail!("{v}");
    }
    ensure!(out.len() as u64 <= limit, "{} B delivered, entry {first:?} is wrong and its data end at {limit}", out.len());
    ensure!(out[..] == arch.truth[..out.len()], "wrong bytes delivered");
    match (res, first) {
        (Ok(_), Some(f)) => ensure!(n <= limit, "{n} B read successfully, entry {f} is wrong and its data end at {limit}"),
        (Ok(_), None) => ensure!(out.len() as u64 == n.min(arch.size()), "only {} of {n} B", out.len()),
        (Err(e), Some(f)) => {
            ensure!(e.kind() == ErrorKind::Other, "kind {:?}", e.kind());
            check_error(&e, &arch, &decls, f)?;
            ctx.count("limited_reads_with_errors", 1);
        }
        (Err(e), None) => fail!("failed with {e} although nothing is wrong"),
    }
    ctx.nontrivial(mix(n, crate::arch::fingerprint(&arch.specs)));
    Ok(())
}

fn drive<T>(mut f: Pin<&mut (impl Future<Output = T> + ?Sized)>, cx: &mut Context<'_>) -> R<T> {
    for _ in 0..2_000_000 {
        if let Poll::Ready(v) = f.as_mut().poll(cx) {
            return Ok(v);
        }
    }
    fail!("no progress")
}

/// A source of a few bytes that declares an amount beyond any field of 32 bits.
fn enormous(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let mut b = zippity::Builder::<crate::src::MonSrc>::new();
    let mut plan = gen_plan(&mut r);
    plan.self_wake = true;
    plan.clamp_seek = r.p(128);
    if plan.short == Short::One {
        plan.short = Short::Max(100);
    }
    plan.op_budget = 1_000_000;
    let log = Log::new(r.next(), plan);
    // What comes before the wrong entry is known byte by byte
    let mut truth: Vec<u8> = Vec::new();
    let mut before = Vec::new();
    for i in 0..r.below(3) {
        let n = r.usize(300);
        let mut v = vec![0u8; n];
        r.fill(&mut v);
        before.push(super::hist::spec(&format!("before {i}"), &v, false));
    }
    let nb = before.len();
    let have = match r.below(4) {
        0 => 0,
        1 => r.usize(10),
        2 => r.usize(20_000),
        _ => *r.pick(&[1usize, 8191, 8192, 8193, 4096]),
    };
    let mut data = vec![0u8; have];
    r.fill(&mut data);
    {
        // The records before the data do not tell the size
        let mut all: Vec<EntrySpec> = before.clone();
        all.push(super::hist::spec("wrong", &data, false));
        let small = Arch::new(all)?;
        truth.extend(&small.truth[..small.parsed.entries[nb].desc_off as usize]);
    }
    let data_off = (truth.len() - have) as u64;
    let declared = (have as u64).max(1)
        + match r.below(6) {
            0 => (1 << 32) - have as u64 - 1 + r.below(3),
            1 => (1 << 32) + r.below(100_000),
            2 => r.below(1 << 34),
            3 => (1 << 63) - 2 + r.below(4),
            4 => u64::MAX - 200_000 + r.below(100_000),
            _ => r.next() >> r.range(1, 30),
        };
    for s in &before {
        let Ok(_) = b.add_entry(s.name.clone(), log.source(s.data.clone(), s.data.len() as u64)) else {
            fail!("rejected")
        };
    }
    let real = Arc::new(data);
    let c = crc32fast::hash(&real);
    let preset = *r.pick(&[None, None, Some(c), Some(!c)]);
    let Ok(e) = b.add_entry("wrong".into(), log.source(real.clone(), declared)) else { fail!("rejected") };
    if let Some(c) = preset {
        e.crc32(c);
    }
    for i in 0..r.below(2) {
        let Ok(_) = b.add_entry(format!("after {i}"), log.source(Arc::new(vec![1, 2, 3]), 3)) else { fail!("rejected") };
    }
    let end = truth.len() as u64;
    let reader = b.build();
    let size = reader.size();
    let mut k = if r.p(100) {
        Kind::Stream(Box::pin(crate::engine::into_stream(reader)))
    } else {
        Kind::Reader(Box::pin(reader))
    };
    let mut cx = Context::from_waker(Waker::noop());
    let mut shape = mix(have as u64, declared);
    for _ in 0..r.range(1, 4) {
        let start = match r.below(5) {
            0 => 0,
            1 => data_off,
            2 => r.below(data_off + 1),
            3 if have > 0 => data_off + r.below(have as u64),
            _ => {
                // Inside the data which do not exist
                let far = data_off + have as u64 + r.below(declared - have as u64);
                if r.p(128) { far } else { (data_off + declared - 1 - r.below(5000)).max(far.min(end)) }
            }
        };
        match &mut k {
            Kind::Reader(x) => x.as_mut().seek_from_start_pinned(start),
            Kind::Stream(x) => x.as_mut().reader_pin_mut().seek_from_start_pinned(start),
            Kind::Gone => unreachable!(),
        }
        shape = mix(shape, start);
        let mut pos = start;
        let mut errors = 0;
        let most = *r.pick(&[2usize, 30, 700, 9000]);
        for polls in 0.. {
            ensure!(polls < 1_000_000, "no progress");
            log.begin(0);
            let n = gen_read_buf(&mut r, most).max(1);
            let item = poll_kind(&mut k, &mut cx, n)?;
            if let Some(v) = log.take_violation() {
                fail!("{v}");
            }
            let (tell, now) = match &k {
                Kind::Reader(x) => (x.tell(), x.size()),
                Kind::Stream(x) => (x.reader_ref().tell(), x.reader_ref().size()),
                Kind::Gone => unreachable!(),
            };
            ensure!(now == size, "size {now} reported, {size} before");
            match item {
                Item::Pending => {}
                Item::Eof => fail!("end of file at {pos} of {size}, the source has {have} of {declared} B"),
                Item::Data(v) => {
                    let to = pos + v.len() as u64;
                    ensure!(to <= end, "data delivered up to {to}, the source ends at {end}");
                    ensure!(v[..] == truth[pos as usize..to as usize], "wrong bytes at {pos}");
                    pos = to;
                    ensure!(tell == pos, "position {tell} reported, {pos} expected");
                }
                Item::Err(e) => {
                    ensure!(tell == pos, "position {tell} reported after an error, {pos} expected");
                    if start < end || have == 0 && start <= end {
                        ensure!(pos == end, "the error comes at {pos}, the source ends at {end}: {e}");
                    }
                    let Some(ReadError::SizeMismatch { entry_name, expected_size, actual_size }) =
                        e.get_ref().and_then(|x| x.downcast_ref::<ReadError>())
                    else {
                        fail!("the error of a source of {have} B which declares {declared} B is {e:?}");
                    };
                    ensure!(entry_name == "wrong", "the error names {entry_name:?}");
                    ensure!(*expected_size == declared, "the error says {expected_size} B were declared, it was {declared}");
                    // (After a seek past its end the size of a source is not known)
                    ensure!(
                        start > data_off || *actual_size == have as u64,
                        "the error says the entry has {actual_size} B, it has {have}"
                    );
                    errors += 1;
                    ctx.count("size_mismatch_errors", 1);
                    if errors > 3 {
                        break;
                    }
                }
            }
        }
        if r.p(60) {
            k = match k {
                Kind::Reader(mut x) => match r.below(3) {
                    0 => Kind::Reader(Box::pin(Reader::clone(&x))),
                    1 => Kind::Reader(Box::pin(x.as_mut().take_pinned())),
                    _ => Kind::Stream(Box::pin(crate::engine::into_stream(*Pin::into_inner(x)))),
                },
                Kind::Stream(s) => Kind::Reader(Box::pin(Pin::into_inner(s).into_reader())),
                Kind::Gone => unreachable!(),
            };
        }
    }
    ctx.nontrivial(shape);
    Ok(())
}
