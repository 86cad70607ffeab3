//! C10: archives beyond the limits of the 32 and 16 bit fields. Data is procedural, so that every
//! byte of archives of up to 2^64-1 bytes can be checked without storing or reading all of them.
use super::touch::{Tiled, crc_of};
use crate::arch::{Meta, gen_name, read_sync};
use crate::engine::{CountWaker, gen_plan};
use crate::parse::{self, Parsed, ReadAt};
use crate::report::{Ctx, R, Runner};
use crate::rng::{Rng, mix};
use crate::src::{Content, Log, MonSrc, Plan, Proc, Short};
use crate::{ensure, fail};
use std::collections::{BTreeMap, HashSet};
use std::io::SeekFrom;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};
use zippity::{Builder, EntryData, Reader};

pub fn c10(run: &mut Runner) {
    run.rule = "A case is an archive with procedural entries of up to 2^64 bytes, or with more than 65535 entries. Stage structure: the independent parser reads all records through a seeking reader; the records are then kept and windows at random and boundary positions, in random histories (seeks of all kinds, clones, takes, streams, pending and short sources) are compared with records and procedural content; source operations and bytes per window are metered. Stage files: sparse real files of up to 2^40 bytes. Stage many: more than 65535 entries. Stage directory: a central directory of more than 4 GiB. Stage full: archives of exactly 2^64-1 bytes. Stage real: more than 4 GiB really pass through (front to back, directory first with unknown checksum, skipping with unknown checksum). Non-trivial: distinct archives with total size above 4 GiB or more than 65535 entries.".into();
    run.stage("real", if run.thorough() { 16 } else { 8 }, real);
    run.stage("structure", run.n(1500, 40_000), |ctx| structure(ctx, false));
    run.stage("full", run.n(600, 15_000), |ctx| structure(ctx, true));
    run.stage("directory", run.nf(1, 3), directory);
    #[cfg(feature = "full")]
    run.stage("files", run.n(300, 6000), super::fs::sparse);
    run.stage("many", if run.thorough() { 24 } else { 8 }, many);
}

pub struct Item {
    pub name: String,
    pub content: Arc<dyn Content>,
    pub crc: Option<u32>,
    pub meta: Vec<Meta>,
}

/// What the archive has to deliver: records as read once, content from the generator.
pub(super) struct Big {
    pub items: Vec<Item>,
    pub size: u64,
    /// Start of each record run (not data) and its bytes
    records: BTreeMap<u64, Vec<u8>>,
    parsed: Parsed,
}

impl Big {
    pub fn expect(&self, from: u64, n: usize) -> R<Vec<u8>> {
        let mut out = Vec::with_capacity(n);
        let mut p = from;
        let end = from.saturating_add(n as u64).min(self.size);
        while p < end {
            let want = (end - p) as usize;
            // The last entry whose data start at or before p
            let k = self.parsed.entries.partition_point(|e| e.data_off <= p);
            if k > 0 {
                let e = &self.parsed.entries[k - 1];
                if p < e.desc_off {
                    let m = want.min((e.desc_off - p).min(1 << 40) as usize);
                    let o = out.len();
                    out.resize(o + m, 0);
                    self.items[k - 1].content.fill(p - e.data_off, &mut out[o..]);
                    p += m as u64;
                    continue;
                }
            }
            let Some((s, b)) = self.records.range(..=p).next_back() else {
                fail!("HARNESS no record at {p}");
            };
            let o = (p - s) as usize;
            if o >= b.len() {
                fail!("HARNESS record at {s} too short for {p}");
            }
            let m = want.min(b.len() - o);
            out.extend_from_slice(&b[o..o + m]);
            p += m as u64;
        }
        Ok(out)
    }

    pub fn interesting(&self, r: &mut Rng) -> u64 {
        let p = &self.parsed;
        let base = match r.below(12) {
            0 => 0,
            1 => p.total,
            2 => p.cd_off,
            3 => p.eocd_off,
            4 => *r.pick(&[1u64 << 32, (1 << 32) - 1, 1 << 31, 1 << 63, (1 << 63) - 1, 1 << 16, u64::MAX, u64::MAX - 1, 1 << 53]),
            _ if p.entries.is_empty() => r.below(p.total),
            k => {
                let e = r.pick(&p.entries);
                match k {
                    5 => e.local_off,
                    6 => e.data_off,
                    7 => e.desc_off,
                    8 => e.cd_off,
                    9 => e.desc_end,
                    _ => e.data_off + r.below(e.size.max(1)),
                }
            }
        };
        match r.below(4) {
            0 => base.saturating_sub(r.below(100)),
            1 => base.saturating_add(r.below(100)),
            _ => base,
        }
    }
}

/// Positions read through a reader whose sources are always ready, with some read-ahead.
struct Seeking {
    rd: Pin<Box<Reader<MonSrc>>>,
    ahead: usize,
    from: u64,
    have: Vec<u8>,
    seeks: u64,
}
impl ReadAt for Seeking {
    fn len(&self) -> u64 {
        self.rd.size()
    }
    fn at(&mut self, off: u64, n: usize) -> Result<Vec<u8>, String> {
        let size = self.len();
        if off > size || n as u64 > size - off {
            return Err(format!("archive ends before {off}+{n}"));
        }
        let end = self.from + self.have.len() as u64;
        if off < self.from || off + n as u64 > end || self.have.is_empty() {
            let len = n.max(self.ahead).min((size - off).min(1 << 40) as usize);
            self.rd.as_mut().seek_from_start_pinned(off);
            self.seeks += 1;
            let mut buf = vec![0u8; len];
            let mut got = 0;
            let mut cx = Context::from_waker(Waker::noop());
            while got < len {
                let mut rb = ReadBuf::new(&mut buf[got..]);
                match self.rd.as_mut().poll_read(&mut cx, &mut rb) {
                    Poll::Pending => continue,
                    Poll::Ready(Err(e)) => return Err(format!("read at {} failed: {e}", off + got as u64)),
                    Poll::Ready(Ok(())) => {}
                }
                let k = rb.filled().len();
                if k == 0 {
                    return Err(format!("end of file at {} of {size}", off + got as u64));
                }
                got += k;
            }
            self.from = off;
            self.have = buf;
        }
        let o = (off - self.from) as usize;
        Ok(self.have[o..o + n].to_vec())
    }
}

pub(super) fn builder(items: &[Item], log: &Log) -> R<Builder<MonSrc>> {
    let mut b = Builder::<MonSrc>::new();
    for it in items {
        let src = log.source(it.content.clone(), it.content.len());
        match b.add_entry(it.name.clone(), src) {
            Ok(e) => {
                if let Some(c) = it.crc {
                    e.crc32(c);
                }
                for m in &it.meta {
                    m.apply(e);
                }
            }
            Err(e) => fail!("add_entry of {} B rejected: {e}", it.content.len()),
        }
    }
    Ok(b)
}

pub(super) fn load(items: Vec<Item>, ahead: usize) -> R<Big> {
    let log = Log::new(0, Plan::default());
    let b = builder(&items, &log)?;
    let size = b.size();
    let rd = Box::pin(b.build());
    ensure!(rd.size() == size, "the builder announced {size} B, the reader {}", rd.size());
    let mut s = Seeking { rd, ahead, from: 0, have: Vec::new(), seeks: 0 };
    let parsed = parse::parse(&mut s)?;
    ensure!(parsed.entries.len() == items.len(), "{} entries instead of {}", parsed.entries.len(), items.len());
    let mut sum = 0u128;
    for (i, (e, it)) in parsed.entries.iter().zip(&items).enumerate() {
        ensure!(e.name == it.name.as_bytes(), "entry {i}: wrong name");
        ensure!(e.size == it.content.len(), "entry {i}: size {} recorded, it has {}", e.size, it.content.len());
        if let Some(c) = it.crc {
            ensure!(e.crc == c, "entry {i}: crc {:08x} recorded, supplied {c:08x}", e.crc);
        } else {
            let c = crc_of(it.content.as_ref());
            ensure!(e.crc == c, "entry {i}: crc {:08x} recorded, the data has {c:08x}", e.crc);
        }
        sum += u128::from(e.size) + u128::from(e.cd_end - e.cd_off) + u128::from(e.desc_end - e.local_off - e.size);
    }
    ensure!(sum + 98 == u128::from(size), "parts add up to {} B, {size} announced", sum + 98);
    // Keep the records
    let mut records = BTreeMap::new();
    let mut start = 0;
    for e in &parsed.entries {
        let n = (e.data_off - start) as usize;
        records.insert(start, s.at(start, n)?);
        start = e.desc_off;
    }
    let mut rest = Vec::new();
    let mut p = start;
    while p < size {
        let k = (size - p).min(1 << 20) as usize;
        rest.extend(s.at(p, k)?);
        p += k as u64;
    }
    records.insert(start, rest);
    Ok(Big { items, size, records, parsed })
}

pub(super) fn gen_items(r: &mut Rng, full: bool) -> R<Vec<Item>> {
    let n = r.range(1, 12) as usize;
    let mut seen = HashSet::new();
    let mut items: Vec<Item> = Vec::new();
    let mut budget: u64 = u64::MAX - 98;
    let scale = r.below(4);
    for i in 0..n {
        let mut name = gen_name(r, true);
        if !seen.insert(name.clone()) {
            name = format!("{i}~{}", r.below(1 << 30));
            seen.insert(name.clone());
        }
        let overhead = 30 + 28 + 24 + 46 + 28 + 2 * name.len() as u64 + 64;
        if budget < overhead {
            break;
        }
        let len = match r.below(9) {
            0 => 0,
            1 => r.below(3000),
            2 => (1u64 << 32) - 3 + r.below(6),
            3 => (1u64 << 31) - 3 + r.below(6),
            4 => (1u64 << *r.pick(&[16u32, 33, 40, 48, 53, 62, 63])) - 2 + r.below(4),
            5 if scale == 0 => r.next() >> 1,
            5 | 6 => r.next() >> r.range(8, 40),
            7 => r.below(1 << 33),
            _ => 65530 + r.below(10),
        };
        let len = len.min(budget - overhead);
        budget -= len + overhead;
        items.push(item(name, r.next(), len, r));
    }
    if full {
        // One more entry takes everything that is left
        let log = Log::new(0, Plan::default());
        let name = "fill".to_string();
        let size = {
            let mut b = builder(&items, &log)?;
            let before = b.size();
            let zero = log.source(Arc::new(Proc { seed: 0, len: 0 }), 0);
            if seen.contains(&name) || b.add_entry(name.clone(), zero).is_err() {
                return Ok(items);
            }
            ensure!(b.size() > before, "the size does not grow with an entry");
            b.size()
        };
        // Leave nothing, or a little
        let left = if r.p(170) { 0 } else { r.below(200) };
        let len = u64::MAX - size - left.min(u64::MAX - size);
        let it = item(name, r.next(), len, r);
        let at = r.usize(items.len() + 1);
        items.insert(at, it);
    }
    Ok(items)
}

/// Changes the length of one entry so that a record starts right at (or next to) a position at
/// which a field of 16, 32 or 64 bits changes.
fn aligned(items: &mut [Item], r: &mut Rng, ctx: &mut Ctx) -> R {
    if items.is_empty() {
        return Ok(());
    }
    let (parsed, mut lens) = {
        let copy = items
            .iter()
            .map(|i| Item { name: i.name.clone(), content: i.content.clone(), crc: i.crc, meta: i.meta.clone() })
            .collect::<Vec<_>>();
        let lens: Vec<u64> = copy.iter().map(|i| i.content.len()).collect();
        (load(copy, 256)?.parsed, lens)
    };
    let k = r.usize(items.len() + 3);
    let (at, before) = match k.checked_sub(items.len()) {
        None => {
            let e = &parsed.entries[k];
            match r.below(4) {
                0 if k > 0 => (e.local_off, k),
                1 if k > 0 => (e.data_off, k),
                2 => (e.desc_off, k + 1),
                _ => (e.desc_end, k + 1),
            }
        }
        Some(0) => (parsed.cd_off, items.len()),
        Some(1) => (parsed.eocd_off, items.len()),
        Some(_) => (parsed.total, items.len()),
    };
    let target = match r.below(6) {
        0 => (1u64 << 16) - 3 + r.below(6),
        1 => (1u64 << *r.pick(&[31u32, 33, 48, 53, 63])) - 3 + r.below(6),
        _ => (1u64 << 32) - 3 + r.below(6),
    };
    let delta = i128::from(target) - i128::from(at);
    for _ in 0..8 {
        let j = r.usize(before);
        let new = i128::from(lens[j]) + delta;
        let total = i128::from(parsed.total) + delta;
        if new >= 0 && new <= i128::from(u64::MAX) && total <= i128::from(u64::MAX) {
            lens[j] = new as u64;
            let name = items[j].name.clone();
            items[j] = item(name, r.next(), lens[j], r);
            ctx.count("records_placed_at_limits_of_fields", 1);
            break;
        }
    }
    Ok(())
}

fn item(name: String, seed: u64, len: u64, r: &mut Rng) -> Item {
    let content = Proc { seed, len };
    let crc = if len <= 1 << 20 {
        (len > 1 << 17 || r.p(180)).then(|| crc_of(&content))
    } else {
        // Never read completely in one go, so that nobody can tell
        Some(r.next() as u32)
    };
    let meta = (0..r.below(3)).map(|_| Meta::gen_one(r)).collect();
    Item { name, content: Arc::new(content), crc, meta }
}

pub(super) fn structure(ctx: &mut Ctx, full: bool) -> R {
    structure_with(ctx, full, 0)
}

/// For the other properties: the same with failing sources.
pub(super) fn huge(ctx: &mut Ctx) -> R {
    let full = ctx.idx % 4 == 3;
    let fault = if ctx.idx % 3 == 0 { 12 } else { 0 };
    structure_with(ctx, full, fault)
}

fn structure_with(ctx: &mut Ctx, full: bool, fault: u32) -> R {
    let mut r = ctx.rng.clone();
    let mut items = gen_items(&mut r, full)?;
    if !full && ctx.idx % 3 != 0 {
        aligned(&mut items, &mut r, ctx)?;
    }
    ctx.sample(|| {
        items
            .iter()
            .map(|i| format!("{} B name, {} B", i.name.len(), i.content.len()))
            .collect::<Vec<_>>()
            .join("; ")
    });
    let ahead = *r.pick(&[0usize, 64, 256, 4096]);
    let big = load(items, ahead)?;
    ctx.max("largest_archive", big.size);
    if big.size == u64::MAX {
        ctx.count("archives_of_2^64-1_bytes", 1);
    }
    let mut plan = gen_plan(&mut r);
    if plan.short == Short::One {
        plan.short = Short::Max(300);
    }
    if fault > 0 {
        plan.fault = [fault; 4];
    }
    history(&big, plan, &mut r, ctx, 60)?;
    if full {
        // Not one byte more
        let log = Log::new(0, Plan::default());
        let mut b = builder(&big.items, &log)?;
        let left = u64::MAX - big.size;
        let before = b.size();
        let extra = log.source(Arc::new(Proc { seed: 1, len: left }), left);
        ensure!(
            b.add_entry("one more".to_string(), extra).is_err(),
            "an entry of {left} B accepted in an archive of {before} B"
        );
        ensure!(b.size() == before, "the size changed with a rejected entry");
    }
    if big.size > u64::from(u32::MAX) {
        ctx.nontrivial(mix(big.size, big.items.len() as u64));
    }
    Ok(())
}

enum H {
    R(Pin<Box<Reader<MonSrc>>>),
    S(Pin<Box<zippity::BytesStream<MonSrc>>>),
    Gone,
}
impl H {
    fn pin(&mut self) -> Pin<&mut Reader<MonSrc>> {
        match self {
            H::R(r) => r.as_mut(),
            H::S(s) => s.as_mut().reader_pin_mut(),
            H::Gone => unreachable!(),
        }
    }
    fn reader(&self) -> &Reader<MonSrc> {
        match self {
            H::R(r) => r,
            H::S(s) => s.reader_ref(),
            H::Gone => unreachable!(),
        }
    }
}

/// An error is fine if a source failed in this very call.
fn refused(faulty: bool, log: &Log, e: &std::io::Error, pos: u64) -> R {
    let l = log.lock();
    ensure!(faulty && l.errors_in_call.contains(&e.kind()), "read at {pos} failed: {e}");
    Ok(())
}

fn history(big: &Big, plan: Plan, r: &mut Rng, ctx: &mut Ctx, ops: u64) -> R {
    let plan_faulty = plan.fault != [0; 4];
    let log = Log::new(r.next(), plan);
    let b = builder(&big.items, &log)?;
    let mut h = H::R(Box::pin(b.build()));
    let mut pos = 0u64;
    let n_items = big.items.len() as u64;
    let waker = Arc::new(CountWaker(AtomicU64::new(0)));
    let wk = Waker::from(waker.clone());
    let mut buf = vec![0u8; 5000];
    let faulty = plan_faulty;
    let index: std::collections::HashMap<&str, usize> = big.items.iter().enumerate().map(|(i, e)| (e.name.as_str(), i)).collect();
    let mut crcs: Vec<Option<u32>> = big.items.iter().map(|i| i.crc).collect();
    let preset = big.items.iter().filter(|i| i.crc.is_some()).count();
    let mut reported = preset;
    for _ in 0..ops {
        match r.below(13) {
            0 => {
                let c = match &h {
                    H::R(x) => H::R(Box::pin(Reader::clone(x))),
                    H::S(x) => H::S(Box::pin(zippity::BytesStream::clone(x))),
                    H::Gone => unreachable!(),
                };
                h = c;
                ctx.tr(|| "clone".into());
            }
            1 => {
                let t = h.pin().take_pinned();
                ensure!(h.reader().size() == 98 && h.reader().tell() == 0, "no empty archive left behind by a take");
                h = H::R(Box::pin(t));
                ctx.tr(|| "take".into());
            }
            2 => {
                h = match std::mem::replace(&mut h, H::Gone) {
                    H::R(x) => H::S(Box::pin(crate::engine::into_stream(*Pin::into_inner(x)))),
                    H::S(x) => H::R(Box::pin(Pin::into_inner(x).into_reader())),
                    H::Gone => unreachable!(),
                };
            }
            12 => {
                // Before the start, or beyond what can be expressed
                let f = match r.below(4) {
                    0 => i128::from(pos) - i128::from(r.next() >> r.below(64)) - 1,
                    1 => -1 - i128::from(r.below(1 << 62)),
                    2 => i128::from(u64::MAX) + 1 + i128::from(r.below(1 << 62)),
                    _ => i128::from(u64::MAX) + 1,
                };
                let (base, make): (u64, fn(i64) -> SeekFrom) =
                    if r.p(128) { (pos, SeekFrom::Current) } else { (big.size, SeekFrom::End) };
                let o = i64::try_from(f - i128::from(base)).unwrap_or(if f < 0 { i64::MIN } else { i64::MAX });
                let t = i128::from(base) + i128::from(o);
                if (0..=i128::from(u64::MAX)).contains(&t) {
                    continue;
                }
                let f = make(o);
                match h.pin().start_seek(f) {
                    Err(e) if e.kind() == std::io::ErrorKind::InvalidInput => {}
                    Err(e) => fail!("impossible seek({f:?}) from {pos} of {} B: {e:?}", big.size),
                    Ok(()) => fail!("impossible seek({f:?}) from {pos} of {} B (to {t}) succeeded", big.size),
                }
                ctx.count("impossible_seeks", 1);
            }
            _ => {
                let t = if r.p(200) {
                    big.interesting(r)
                } else if r.p(30) {
                    big.size.saturating_add(r.next() >> r.below(64))
                } else {
                    r.below(big.size)
                };
                let i = i128::from(t);
                let way = r.below(4);
                let from = match way {
                    0 => {
                        h.pin().seek_from_start_pinned(t);
                        None
                    }
                    1 => i64::try_from(i - i128::from(pos)).ok().map(SeekFrom::Current),
                    2 => i64::try_from(i - i128::from(big.size)).ok().map(SeekFrom::End),
                    _ => None,
                };
                if way != 0 {
                    let f = from.unwrap_or(SeekFrom::Start(t));
                    let mut p = h.pin();
                    let mut cx = Context::from_waker(&wk);
                    if let Err(e) = p.as_mut().start_seek(f) {
                        fail!("seek({f:?}) from {pos} (to {t}) failed: {e}");
                    }
                    match p.poll_complete(&mut cx) {
                        Poll::Ready(Ok(v)) => ensure!(v == t, "seek({f:?}) reported {v} instead of {t}"),
                        o => fail!("seek({f:?}): {o:?}"),
                    }
                }
                pos = t;
                ctx.tr(|| format!("seek to {t} (way {way})"));
            }
        }
        ensure!(h.reader().tell() == pos, "position {} reported, expected {pos}", h.reader().tell());
        ensure!(h.reader().size() == big.size, "size {} reported, expected {}", h.reader().size(), big.size);
        // Read a window
        let before: u64 = log.lock().stats.iter().map(|s| s.bytes).sum();
        let ops_before = log.lock().ops;
        let begin = pos;
        let polls = r.range(1, 6);
        let mut pend = 0u64;
        let mut done = 0;
        let mut failed = 0u64;
        while done < polls {
            log.begin(0);
            let mut cx = Context::from_waker(&wk);
            let most = *r.pick(&[1usize, 30, 100, 5000]);
            let room = 1 + r.usize(most);
            let got: Option<Vec<u8>> = match &mut h {
                H::R(x) => {
                    let mut rb = ReadBuf::new(&mut buf[..room]);
                    match x.as_mut().poll_read(&mut cx, &mut rb) {
                        Poll::Pending => None,
                        Poll::Ready(Ok(())) => Some(rb.filled().to_vec()),
                        Poll::Ready(Err(e)) => {
                            ensure!(rb.filled().is_empty(), "bytes delivered with an error");
                            refused(faulty, &log, &e, pos)?;
                            failed += 1;
                            done += 1;
                            continue;
                        }
                    }
                }
                H::S(x) => match futures_core::Stream::poll_next(x.as_mut(), &mut cx) {
                    Poll::Pending => None,
                    Poll::Ready(None) => Some(Vec::new()),
                    Poll::Ready(Some(Ok(b))) => Some(b.to_vec()),
                    Poll::Ready(Some(Err(e))) => {
                        refused(faulty, &log, &e, pos)?;
                        failed += 1;
                        done += 1;
                        continue;
                    }
                },
                H::Gone => unreachable!(),
            };
            let Some(got) = got else {
                pend += 1;
                ensure!(pend < 100_000, "no progress");
                ensure!(log.lock().pending_in_call > 0, "pending without a pending source");
                waker.0.store(0, Ordering::SeqCst);
                log.tick();
                continue;
            };
            done += 1;
            if got.is_empty() {
                ensure!(pos >= big.size, "end of file at {pos} of {}", big.size);
                break;
            }
            let want = big.expect(pos, got.len())?;
            ensure!(
                want == got,
                "wrong bytes at {pos} (first at {}) of an archive of {} B",
                want.iter().zip(&got).position(|(a, b)| a != b).map_or(want.len(), |x| x) as u64 + pos,
                big.size
            );
            pos += got.len() as u64;
            ctx.count("bytes_checked", got.len() as u64);
        }
        ensure!(h.reader().tell() == pos, "position {} reported, expected {pos}", h.reader().tell());
        // The effort does not depend on the amount of data: the window, and small entries whose
        // checksum was not known.
        let bytes: u64 = log.lock().stats.iter().map(|s| s.bytes).sum::<u64>() - before;
        let ops = log.lock().ops - ops_before;
        let small: u64 = big
            .items
            .iter()
            .filter(|i| i.crc.is_none())
            .map(|i| i.content.len())
            .sum();
        // Checksums: the supplied ones and those of data that was read, never fewer than before
        let mut n = 0;
        for (name, crc) in h.reader().crc32s() {
            let Some(&i) = index.get(name) else {
                fail!("a checksum for the unknown name {name:?}");
            };
            let c = *crcs[i].get_or_insert_with(|| crc_of(big.items[i].content.as_ref()));
            ensure!(crc == c, "checksum {crc:08x} reported for {name:?}, expected {c:08x}");
            n += 1;
        }
        ensure!(n >= reported, "{n} checksums reported, {reported} before");
        reported = n;
        let window = pos.saturating_sub(begin);
        ensure!(
            failed > 0 || bytes <= window + 2 * small,
            "{bytes} B read from the sources to deliver {window} B at {begin} ({small} B without checksum)"
        );
        ensure!(
            ops <= 64 + 64 * failed + 8 * n_items + 2 * pend + 4 * (window + 2 * small),
            "{ops} source operations to deliver {window} B at {begin}"
        );
        ctx.max("max_source_ops_per_window", ops);
        ctx.count("windows", 1);
        if let Some(v) = log.take_violation() {
            fail!("{v}");
        }
    }
    ctx.count("source_operations", log.lock().ops);
    Ok(())
}

fn many(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let n = match ctx.idx % 4 {
        0 => 65_535,
        1 => 65_536,
        2 => 65_537 + r.below(3000),
        _ if ctx.thorough() => 262_144 + r.below(1000),
        _ => 131_072 + r.below(10),
    };
    let huge = ctx.idx % 8 >= 2;
    let mut items = Vec::new();
    let spacing = 3000 + r.below(5000);
    let small: Arc<dyn Content> = Arc::new(Proc { seed: 5, len: 1 });
    let small_crc = crc_of(small.as_ref());
    let none: Arc<dyn Content> = Arc::new(Proc { seed: 5, len: 0 });
    for i in 0..n {
        let (content, crc): (Arc<dyn Content>, Option<u32>) = if huge && i % spacing == spacing / 2 {
            (Arc::new(Proc { seed: i, len: (1 << 32) + (r.next() >> 8 >> r.below(20)) }), Some(r.next() as u32))
        } else {
            match i % 7 {
                0 => (small.clone(), None),
                1 => (small.clone(), Some(small_crc)),
                _ => (none.clone(), None),
            }
        };
        items.push(Item { name: format!("{i:x}"), content, crc, meta: Vec::new() });
    }
    let big = load(items, 1 << 20)?;
    ctx.max("most_entries", n);
    ctx.max("largest_archive", big.size);
    history(&big, Plan::default(), &mut r, ctx, 25)?;
    if !huge {
        // Small enough to be read as a whole
        let log = Log::new(0, Plan::default());
        let mut rd = Box::pin(builder(&big.items, &log)?.build());
        let all = read_sync(rd.as_mut(), 1 << 16, big.size + 1000)?;
        let p = parse::parse_all(&all)?;
        ensure!(p.entries.len() as u64 == n, "{} entries", p.entries.len());
    }
    ctx.nontrivial(mix(n, big.size));
    Ok(())
}

/// Names so long and so many that the central directory itself exceeds 4 GiB.
fn directory(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let n = 65_480 + r.below(60 + 3000 * (ctx.idx % 3));
    let len = 65_535 - r.below(4) as usize;
    let name = |i: u64| {
        let mut s = format!("{i:08x}");
        s.extend(std::iter::repeat_n((b'a' + (i % 26) as u8) as char, len - 8));
        s
    };
    let mut b = Builder::<&'static [u8]>::new();
    let data = |i: u64| -> &'static [u8] { if i % 3 == 0 { b"some data" } else { b"" } };
    for i in 0..n {
        if let Err(e) = b.add_entry(name(i), data(i)) {
            fail!("entry {i} was rejected: {:?}", e.to_string());
        }
    }
    let size = b.size();
    let mut rd = Box::pin(b.build());
    let (lrec, crec) = (30 + 28 + 24 + len as u64, 46 + 28 + len as u64);
    let datas = |k: u64| k.div_ceil(3) * 9;
    let cd = n * lrec + datas(n);
    let eocd = cd + n * crec;
    ensure!(crec * n > 1 << 32, "HARNESS directory of {} B", crec * n);
    ensure!(rd.size() == size && size == eocd + 98, "sizes {} and {size}, expected {}", rd.size(), eocd + 98);
    let mut get = |from: u64, n: usize| -> R<Vec<u8>> {
        rd.as_mut().seek_from_start_pinned(from);
        let mut v = vec![0; n];
        let mut got = 0;
        let mut cx = Context::from_waker(Waker::noop());
        while got < n {
            let mut rb = ReadBuf::new(&mut v[got..]);
            match rd.as_mut().poll_read(&mut cx, &mut rb) {
                Poll::Ready(Ok(())) if !rb.filled().is_empty() => got += rb.filled().len(),
                o => fail!("read at {}: {o:?}", from + got as u64),
            }
        }
        Ok(v)
    };
    let u64_at = |v: &[u8], o: usize| u64::from_le_bytes(v[o..o + 8].try_into().unwrap_or_default());
    let end = get(eocd, 98)?;
    let want = [(24, n), (32, n), (40, n * crec), (48, cd), (56 + 8, eocd)];
    for (o, w) in want {
        ensure!(u64_at(&end, o) == w, "the end records say {} at {o}, expected {w}", u64_at(&end, o));
    }
    for step in 0..60u64 {
        let k = match step {
            0 => n - 1,
            1 => (1u64 << 32) / crec,
            2 => (1u64 << 32) / crec + 1,
            3 => 65_535.min(n - 1),
            _ => r.below(n),
        };
        let d = data(k);
        let c = get(cd + k * crec, crec as usize)?;
        let local = k * lrec + datas(k);
        ensure!(c[..4] == *b"PK\x01\x02" && c[46..46 + len] == *name(k).as_bytes(), "wrong directory record of entry {k}");
        let x = &c[46 + len + 4..];
        ensure!(
            u64_at(x, 0) == d.len() as u64 && u64_at(x, 8) == d.len() as u64 && u64_at(x, 16) == local,
            "directory record of entry {k} points to {}, the entry is at {local}",
            u64_at(x, 16)
        );
        ensure!(c[16..20] == crc32fast::hash(d).to_le_bytes(), "wrong checksum of entry {k} in the directory");
        let l = get(local, lrec as usize + d.len())?;
        ensure!(
            l[..4] == *b"PK\x03\x04" && l[30..30 + len] == *name(k).as_bytes() && l[58 + len..58 + len + d.len()] == *d,
            "wrong local record of entry {k}"
        );
    }
    ctx.max("largest_directory", crec * n);
    ctx.nontrivial(size);
    Ok(())
}

/// Lots of data, ready at once.
#[derive(Clone)]
struct Fast(Arc<Tiled>);
struct FastReader(Arc<Tiled>, u64);
impl std::fmt::Debug for Fast {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Fast")
    }
}
impl EntryData for Fast {
    type Reader = FastReader;
    type Future = std::future::Ready<std::io::Result<FastReader>>;
    fn get_reader(&self) -> Self::Future {
        std::future::ready(Ok(FastReader(self.0.clone(), 0)))
    }
    fn size(&self) -> u64 {
        self.0.len
    }
}
impl AsyncRead for FastReader {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let n = ((self.0.len - self.1.min(self.0.len)) as usize).min(buf.remaining());
        let p = self.1;
        let out = buf.initialize_unfilled_to(n);
        self.0.fill(p, &mut out[..n]);
        buf.advance(n);
        self.1 += n as u64;
        Poll::Ready(Ok(()))
    }
}
impl AsyncSeek for FastReader {
    fn start_seek(mut self: Pin<&mut Self>, p: SeekFrom) -> std::io::Result<()> {
        if let SeekFrom::Start(p) = p {
            self.1 = p;
            Ok(())
        } else {
            Err(std::io::ErrorKind::Unsupported.into())
        }
    }
    fn poll_complete(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<u64>> {
        Poll::Ready(Ok(self.1))
    }
}

fn real(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let which = ctx.idx % 4;
    let block = {
        let mut v = vec![0u8; (1 << 20) + r.usize(5000)];
        r.fill(&mut v);
        Arc::new(v)
    };
    let add = (ctx.idx / 4) << 31;
    let big = Tiled { block: block.clone(), len: (1 << 32) + add + r.range(1, 100_000) };
    let head = Tiled { block: block.clone(), len: r.range(1, 100_000) };
    let tail = Tiled { block, len: r.range(1, 100_000) };
    let srcs = [Fast(Arc::new(head)), Fast(Arc::new(big)), Fast(Arc::new(tail))];
    let crcs: Vec<u32> = srcs.iter().map(|s| s.0.crc()).collect();
    let mut b = Builder::<Fast>::new();
    for (i, s) in srcs.iter().enumerate() {
        if let Err(e) = b.add_entry(format!("e{i}"), s.clone()) {
            fail!("add_entry failed: {e}");
        }
    }
    let size = b.size();
    let mut rd = Box::pin(b.build());
    let mut cx = Context::from_waker(Waker::noop());
    let mut buf = vec![0u8; 1 << 18];
    // Where things are, from the format
    let rec = |i: usize| 30 + 2 + 28 + srcs[i].0.len + 24;
    let (l1, l2) = (rec(0), rec(0) + rec(1));
    let cd = l2 + rec(2);
    let mut next = |rd: &mut Pin<Box<Reader<Fast>>>, n: usize| -> R<Vec<u8>> {
        let mut rb = ReadBuf::new(&mut buf[..n]);
        match rd.as_mut().poll_read(&mut cx, &mut rb) {
            Poll::Ready(Ok(())) => Ok(rb.filled().to_vec()),
            o => fail!("read at {}: {o:?}", rd.tell()),
        }
    };
    match which {
        0 => {
            // Front to back: every byte of the big entry compared and hashed
            let (from, to) = (l1 + 60, l1 + 60 + srcs[1].0.len);
            let mut p = 0u64;
            let mut h = crc32fast::Hasher::new();
            let mut want = vec![0u8; 1 << 18];
            loop {
                let x = next(&mut rd, 1 << 18)?;
                if x.is_empty() {
                    break;
                }
                let (a, z) = (p.max(from), (p + x.len() as u64).min(to));
                if a < z {
                    let d = &x[(a - p) as usize..(z - p) as usize];
                    let w = &mut want[..d.len()];
                    srcs[1].0.fill(a - from, w);
                    ensure!(d == w, "wrong data between {a} and {z}");
                    h.update(d);
                }
                p += x.len() as u64;
                ensure!(rd.tell() == p, "position {} reported at {p}", rd.tell());
            }
            ensure!(p == size, "{p} B delivered, {size} announced");
            ensure!(h.finalize() == crcs[1], "HARNESS checksum of the repeated block");
            ctx.count("bytes_checked", p);
        }
        1 => {
            // The directory first: all checksums are calculated
            rd.as_mut().seek_from_start_pinned(cd);
            let mut p = cd;
            while p < size {
                p += next(&mut rd, 1000)?.len() as u64;
            }
        }
        _ => {
            // Skipping inside the big entry by about 4 GiB, then on to its descriptor
            let extra = srcs[1].0.len - (1 << 32);
            let t = l1 + 60 + match which {
                2 => (1 << 32) + r.below(extra),
                _ => (1 << 32) - r.below(50),
            };
            rd.as_mut().seek_from_start_pinned(t);
            let mut p = t;
            while p < l2 + 100 {
                let x = next(&mut rd, 3000)?;
                let mut w = vec![0u8; x.len()];
                let o = p - l1 - 60;
                if o + x.len() as u64 <= srcs[1].0.len {
                    srcs[1].0.fill(o, &mut w);
                    ensure!(w == x, "wrong data at {p}");
                }
                p += x.len() as u64;
            }
        }
    }
    let known: BTreeMap<String, u32> = rd.crc32s().map(|(n, c)| (n.to_string(), c)).collect();
    ensure!(known.get("e1") == Some(&crcs[1]), "checksum of {} B reported as {:08x?}, it is {:08x}", srcs[1].0.len, known.get("e1"), crcs[1]);
    // Records of the big entry and what follows it
    rd.as_mut().seek_from_start_pinned(l2 - 24);
    let d = next(&mut rd, 24)?;
    ensure!(
        d.len() == 24 && d[4..8] == crcs[1].to_le_bytes() && d[8..16] == srcs[1].0.len.to_le_bytes() && d[16..24] == srcs[1].0.len.to_le_bytes(),
        "data descriptor of an entry of {} B: {d:02x?}",
        srcs[1].0.len
    );
    ctx.max("largest_entry_read", srcs[1].0.len);
    ctx.nontrivial(mix(which, size));
    Ok(())
}
