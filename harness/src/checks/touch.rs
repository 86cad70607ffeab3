//! C14 (use of the sources) and C15 (memory).
use crate::arch::{Arch, ArchCfg, EntrySpec, describe, fingerprint, gen_specs};
use crate::engine::{HistCfg, Polled, Session, drain, gen_buf, gen_plan, gen_read_buf, step};
use crate::report::{Ctx, R, Runner};
use crate::rng::{Rng, mix};
use crate::src::{Content, Ev, Plan, Proc, Short, SrcStat};
use crate::{alloc, ensure, fail};
use std::future::{Ready, ready};
use std::io::{Result as IoResult, SeekFrom};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};
use zippity::{Builder, EntryData, Reader};

fn empty() -> R<Arc<Arch>> {
    Ok(Arc::new(Arch::new(Vec::new())?))
}

fn plan_for(r: &mut Rng, specs: &[EntrySpec]) -> Plan {
    let mut p = gen_plan(r);
    let total: usize = specs.iter().map(|s| s.data.len()).sum();
    if total > 20_000 && p.short == Short::One {
        p.short = Short::Max(700);
    }
    p
}

pub fn c14(run: &mut Runner) {
    run.rule = "A case records the event log of instrumented sources (open, opened, read position and length, seek, drop). Stage sequential: archives read front to back under random schedules and buffers; the log must show one open per non-empty source, none for empty ones, each byte read once in order, no seeks, each source dropped before anything behind its descriptor is delivered. Stage ranges: with all checksums known (supplied or learnt, also in clones and taken readers) every range read opens exactly the overlapping sources, once, and reads no byte before the range. Stage unknown: without checksums only sources whose data or checksum records overlap the range are opened, none of them twice, and no byte is read twice. Stage histories: arbitrary histories; after every operation the open sources of each handle are compared with its position; building, sizes, seeks, clones and takes must add no event. Stage huge: histories over archives of up to 2^64-1 bytes, where the bytes read from the sources are bounded by the window. Non-trivial: distinct (archive, poll results) with at least one open.".into();
    run.stage("sequential", run.n(5000, 100_000), sequential);
    run.stage("ranges", run.n(6000, 120_000), ranges);
    run.stage("unknown", run.n(3000, 60_000), unknown);
    run.stage("histories", run.n(3000, 60_000), histories);
    run.stage("small_ranges", run.n(60, 400), small_ranges);
    run.stage("huge", run.n(200, 6000), super::big::huge);
}

/// After delivered bytes: only the source of the entry whose data were just delivered is open.
fn check_live(s: &Session, h: usize) -> R {
    let hd = &s.handles[h];
    let live = s.log.lock().live_of(hd.id);
    ensure!(live.len() <= 1, "{} source readers open at the same time", live.len());
    let n = hd.arch.specs.len().max(1);
    for src in live {
        let e = &hd.arch.parsed.entries[src % n];
        ensure!(
            hd.pos >= e.data_off && hd.pos <= e.desc_off,
            "position {}: the source of entry {} (data from {} to {}) is still open",
            hd.pos,
            src % n,
            e.data_off,
            e.desc_off
        );
    }
    Ok(())
}

fn no_access(s: &Session, what: &str) -> R {
    let l = s.log.lock();
    ensure!(l.ops == 0 && l.events.as_ref().is_none_or(Vec::is_empty), "{what} accessed a source");
    Ok(())
}

fn stats(s: &Session) -> Vec<SrcStat> {
    s.log.lock().stats.clone()
}

fn sequential(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let acfg = ArchCfg { max_data: if ctx.idx % 40 == 39 { 2_000_000 } else { 30_000 }, ..ArchCfg::default() };
    let specs = gen_specs(&mut r, &acfg);
    ctx.sample(|| describe(&specs));
    let fp = fingerprint(&specs);
    let plan = plan_for(&mut r, &specs);
    let arch = Arc::new(Arch::new(specs)?);
    let mut s = Session::new(arch.clone(), empty()?, r.next(), plan)?;
    s.log.lock().events = Some(Vec::new());
    no_access(&s, "building")?;
    if r.p(80) {
        // What costs nothing may be done any time
        s.seek(0, arch.size() / 2, r.below(5), ctx)?;
        s.seek(0, 0, r.below(5), ctx)?;
        s.clone_handle(0, ctx)?;
        s.drop_handle(1, ctx)?;
        no_access(&s, "seeking and cloning")?;
    }
    if r.p(80) {
        s.convert(0, ctx)?;
    }
    let max_buf = *r.pick(&[5usize, 60, 900, 10_000, 70_000]);
    let max_buf = if arch.size() > 20_000 { max_buf.max(900) } else { max_buf };
    loop {
        let b = gen_read_buf(&mut r, max_buf).max(1);
        match s.poll(0, b, 0, ctx)? {
            Polled::Pending => s.wait_wake()?,
            Polled::Data(_) => check_live(&s, 0)?,
            Polled::Eof => break,
            Polled::Error(k) => fail!("failed with {k:?}"),
        }
        ensure!(s.handles[0].polls_without_progress < 1_000_000, "no progress");
    }
    ensure!(s.at_end(0), "not at the end");
    let l = s.log.lock();
    ensure!(l.live.is_empty(), "a source is still open at the end of the archive");
    for (i, (st, sp)) in l.stats.iter().zip(&arch.specs).enumerate() {
        let n = sp.data.len() as u64;
        ensure!(st.opens == u64::from(n > 0), "entry {i} ({n} B) was opened {} times", st.opens);
        ensure!(st.bytes == n, "{} bytes read from the source of entry {i}, which has {n}", st.bytes);
        ensure!(st.seeks == 0, "{} seeks in the source of entry {i}", st.seeks);
        ctx.obs.counters.entry("sources_checked").and_modify(|x| *x += 1).or_insert(1);
    }
    // The log: contiguous reads
    let mut at = vec![0u64; arch.specs.len()];
    let ev = l.events.clone().unwrap_or_default();
    drop(l);
    for e in &ev {
        if let Ev::Read { src, pos, got, asked } = e {
            ensure!(*pos == at[*src], "entry {src}: read of {asked} B at {pos}, {} was next", at[*src]);
            at[*src] += *got as u64;
        }
    }
    ctx.count("events", ev.len() as u64);
    if !ev.is_empty() {
        ctx.nontrivial(mix(fp, s.shape));
    }
    s.stats(ctx);
    Ok(())
}

/// Reads exactly [a, b) and compares the events with what the range needs.
fn range_read(s: &mut Session, h: usize, a: u64, b: u64, max_buf: usize, r: &mut Rng, ctx: &mut Ctx) -> R {
    let before = stats(s);
    s.log.lock().events = Some(Vec::new());
    s.seek(h, a, r.below(5), ctx)?;
    let arch = s.handles[h].arch.clone();
    let end = b.min(arch.size());
    while s.handles[h].pos < end {
        let left = (end - s.handles[h].pos) as usize;
        let n = (1 + gen_buf(r, max_buf)).min(left);
        match s.poll(h, n, 0, ctx)? {
            Polled::Pending => s.wait_wake()?,
            Polled::Data(_) => check_live(s, h)?,
            Polled::Eof => fail!("end of file at {}", s.handles[h].pos),
            Polled::Error(k) => fail!("failed with {k:?}"),
        }
        ensure!(s.handles[h].polls_without_progress < 1_000_000, "no progress");
    }
    let after = stats(s);
    let ev = s.log.lock().events.take().unwrap_or_default();
    for (i, (x, y)) in before.iter().zip(&after).enumerate() {
        let e = &arch.parsed.entries[i];
        let (from, to) = (a.max(e.data_off), end.min(e.desc_off));
        let overlap = to.saturating_sub(from);
        let opens = y.opens - x.opens;
        if overlap == 0 {
            ensure!(opens == 0, "reading {a}..{end} opened entry {i} with data at {}..{}", e.data_off, e.desc_off);
            continue;
        }
        ensure!(opens == 1, "reading {a}..{end} opened entry {i} (data at {}..{}) {opens} times", e.data_off, e.desc_off);
        let skip = from - e.data_off;
        for v in &ev {
            if let Ev::Read { src, pos, got, .. } = v {
                if *src == i && *got > 0 {
                    ensure!(*pos >= skip, "reading {a}..{end}: bytes from {pos} on read from entry {i}, only those from {skip} are needed");
                }
            }
        }
        let bytes = y.bytes - x.bytes;
        ensure!(bytes == overlap, "reading {a}..{end}: {bytes} B read from entry {i}, {overlap} needed");
        ctx.count("opens_in_ranges", 1);
    }
    ctx.count("ranges", 1);
    Ok(())
}

fn ranges(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let acfg = ArchCfg { max_data: if ctx.idx % 40 == 39 { 2_000_000 } else { 30_000 }, preset: 256, ..ArchCfg::default() };
    let learnt = r.p(100);
    let mut specs = gen_specs(&mut r, &acfg);
    for s in &mut specs {
        s.preset = !learnt || r.p(128);
    }
    let fp = fingerprint(&specs);
    let plan = plan_for(&mut r, &specs);
    let arch = Arc::new(Arch::new(specs)?);
    let mut s = Session::new(arch.clone(), empty()?, r.next(), plan)?;
    let mut h = 0;
    if learnt {
        s.read_n(0, u64::MAX, 5000, ctx)?;
        match r.below(3) {
            0 => {
                s.clone_handle(0, ctx)?;
                h = 1;
            }
            1 => {
                s.take(0, ctx)?;
                h = 1;
            }
            _ => {}
        }
    }
    let max_buf = *r.pick(&[40usize, 900, 10_000]);
    for _ in 0..r.range(1, 6) {
        let a = arch.interesting(&mut r).min(arch.size());
        let b = match r.below(4) {
            0 => arch.interesting(&mut r),
            1 => a + r.below(200),
            2 => a + 1,
            _ => a + r.below(40_000),
        };
        if b < a {
            continue;
        }
        let mb = if b - a > 20_000 { max_buf.max(900) } else { max_buf };
        range_read(&mut s, h, a, b, mb, &mut r, ctx)?;
    }
    ctx.nontrivial(mix(fp, s.shape));
    drain(&mut s, &mut r, ctx)?;
    s.stats(ctx);
    Ok(())
}

/// All ranges of small archives.
fn small_ranges(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let n = 1 + ctx.idx as usize % 3;
    let max = *r.pick(&[1u64, 3, 12]);
    let mut specs = super::hist::tiny(&mut r, n, max, u64::MAX);
    for s in &mut specs {
        s.preset = true;
    }
    let arch = Arc::new(Arch::new(specs)?);
    let plan = if ctx.idx % 2 == 0 { Plan::default() } else { gen_plan(&mut r) };
    let mut s = Session::new(arch.clone(), empty()?, r.next(), plan)?;
    let max_buf = *r.pick(&[1usize, 30, 300]);
    let step = 1 + r.below(2);
    let mut a = r.below(2);
    while a < arch.parsed.cd_off {
        let mut b = a + 1;
        while b <= arch.parsed.cd_off {
            range_read(&mut s, 0, a, b, max_buf, &mut r, ctx)?;
            b += if b - a < 8 { 1 } else { 1 + r.below(9) };
        }
        a += step;
    }
    ctx.nontrivial(ctx.idx);
    s.stats(ctx);
    Ok(())
}

/// Nothing is known: still only what the range needs.
fn unknown(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let acfg = ArchCfg { max_data: if ctx.idx % 40 == 39 { 2_000_000 } else { 20_000 }, preset: 0, ..ArchCfg::default() };
    let specs = gen_specs(&mut r, &acfg);
    let fp = fingerprint(&specs);
    let plan = plan_for(&mut r, &specs);
    let arch = Arc::new(Arch::new(specs)?);
    let mut s = Session::new(arch.clone(), empty()?, r.next(), plan)?;
    let mut opened = 0;
    for _ in 0..r.range(1, 5) {
        let a = arch.interesting(&mut r).min(arch.size());
        let b = (a + if r.p(128) { r.below(300) } else { r.below(30_000) }).min(arch.size());
        let before = stats(&s);
        let known = s.handles[0].known.clone();
        s.seek(0, a, r.below(5), ctx)?;
        while s.handles[0].pos < b {
            let left = (b - s.handles[0].pos) as usize;
            let n = (1 + gen_buf(&mut r, 9000)).min(left);
            match s.poll(0, n, 0, ctx)? {
                Polled::Pending => s.wait_wake()?,
                Polled::Data(_) => {}
                o => fail!("{o:?} at {}", s.handles[0].pos),
            }
        }
        for (i, (x, y)) in before.iter().zip(&stats(&s)).enumerate() {
            let e = &arch.parsed.entries[i];
            let over = |p: u64, q: u64| a < q && b > p;
            let data = over(e.data_off, e.desc_off);
            let sums = !known.contains_key(&i) && (over(e.desc_off, e.desc_end) || over(e.cd_off, e.cd_end));
            let opens = y.opens - x.opens;
            ensure!(
                opens == 0 || (e.size > 0 && (data || sums)),
                "reading {a}..{b} opened entry {i} (data {}..{}, directory {}..{}, checksum {})",
                e.data_off,
                e.desc_off,
                e.cd_off,
                e.cd_end,
                if known.contains_key(&i) { "known" } else { "not known" }
            );
            // Whatever was skipped must not be read again for the checksum
            ensure!(opens <= 1, "reading {a}..{b} forward opened entry {i} {opens} times");
            let bytes = y.bytes - x.bytes;
            ensure!(bytes <= e.size, "reading {a}..{b} forward read {bytes} B from entry {i}, which has {}", e.size);
            opened += opens;
        }
        ctx.count("ranges", 1);
    }
    if opened > 0 {
        ctx.nontrivial(mix(fp, s.shape));
    }
    ctx.count("opens", opened);
    drain(&mut s, &mut r, ctx)?;
    Ok(())
}

fn histories(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let acfg = ArchCfg { max_data: if ctx.idx % 40 == 39 { 2_000_000 } else { 12_000 }, ..ArchCfg::default() };
    let specs = gen_specs(&mut r, &acfg);
    let fp = fingerprint(&specs);
    let mut plan = plan_for(&mut r, &specs);
    if r.p(80) {
        plan.fault = [10, 10, 10, 10];
    }
    let h = HistCfg { ops: 40, seeks: 60, clones: 8, takes: 8, drops: 8, ..HistCfg::default() };
    let mut s = Session::new(Arc::new(Arch::new(specs)?), empty()?, r.next(), plan)?;
    for _ in 0..h.ops {
        step(&mut s, &h, &mut r, ctx)?;
        let l = s.log.lock();
        ensure!(l.max_live_per_handle <= 1, "{} sources open at the same time in one reader", l.max_live_per_handle);
        for (st, sp) in l.stats.iter().zip(&s.arch.specs) {
            ensure!(!sp.data.is_empty() || st.opens == 0, "an empty source was opened");
        }
    }
    drain(&mut s, &mut r, ctx)?;
    s.stats(ctx);
    ctx.nontrivial(mix(fp, s.shape));
    Ok(())
}

// ---------------------------------------------------------------------------------------------

/// A source that allocates nothing.
#[derive(Clone)]
pub struct Quiet {
    content: Arc<dyn Content>,
    pending: bool,
    short: usize,
}
pub struct QuietReader {
    content: Arc<dyn Content>,
    pos: u64,
    pending: bool,
    armed: bool,
    short: usize,
}
impl EntryData for Quiet {
    type Reader = QuietReader;
    type Future = Ready<IoResult<QuietReader>>;
    fn get_reader(&self) -> Self::Future {
        ready(Ok(QuietReader {
            content: self.content.clone(),
            pos: 0,
            pending: self.pending,
            armed: false,
            short: self.short,
        }))
    }
    fn size(&self) -> u64 {
        self.content.len()
    }
}
impl AsyncRead for QuietReader {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<IoResult<()>> {
        if self.pending && !self.armed {
            self.armed = true;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        self.armed = false;
        let n = ((self.content.len().saturating_sub(self.pos)).min(buf.remaining() as u64) as usize).min(self.short);
        let o = buf.initialize_unfilled_to(n);
        self.content.fill(self.pos, &mut o[..n]);
        buf.advance(n);
        self.pos += n as u64;
        Poll::Ready(Ok(()))
    }
}
impl AsyncSeek for QuietReader {
    fn start_seek(mut self: Pin<&mut Self>, p: SeekFrom) -> IoResult<()> {
        self.pos = match p {
            SeekFrom::Start(p) => p,
            SeekFrom::End(o) => self.content.len().checked_add_signed(o).ok_or(std::io::ErrorKind::InvalidInput)?,
            SeekFrom::Current(o) => self.pos.checked_add_signed(o).ok_or(std::io::ErrorKind::InvalidInput)?,
        };
        Ok(())
    }
    fn poll_complete(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<IoResult<u64>> {
        Poll::Ready(Ok(self.pos))
    }
}

/// Heap use allowed on top of what the reader has when built. The library needs about 16 KiB plus
/// one record with its name while growing a buffer.
fn bound(longest: usize, entries: usize) -> i64 {
    (320 << 10) + 6 * longest as i64 + 64 * entries as i64
}

pub fn c15(run: &mut Runner) {
    run.rule = "A case builds an archive over sources that allocate nothing (entries from empty to 64 MiB, thorough: 5 GiB; names up to 65535 bytes; up to 20000 entries; short and delayed reads) and drives one access pattern: front to back, checksums learnt by reading the directory first, skipping inside entries, seeks with known checksums, streams with blocks dropped at once, huge caller buffers, takes, HTTP response bodies. The counting global allocator gives the peak over the state before; it must stay below 320 KiB + 6 longest names + 64 B per entry whatever the amount of data, nothing may remain allocated after dropping, and take_pinned must not allocate. Non-trivial: distinct (archive shape, pattern) where at least one source was read.".into();
    run.stage("patterns", run.n(1200, 20_000), memory);
    run.stage("large", run.nf(28, 63), memory_large);
    run.stage("entries", run.nf(21, 105), memory_entries);
}

struct Meter {
    base: i64,
    longest: usize,
    entries: usize,
    hold: i64,
}
impl Meter {
    fn check(&self, what: &str, data: u64, ctx: &mut Ctx) -> R {
        let used = alloc::peak() - self.base - self.hold;
        let b = bound(self.longest, self.entries);
        ensure!(
            used <= b,
            "{what}: {used} B of heap memory used at the peak, bound {b} (archive of {data} B, longest name {} B, {} entries)",
            self.longest,
            self.entries
        );
        ctx.max("peak_heap_bytes", used.max(0) as u64);
        Ok(())
    }
}

fn quiet_builder(specs: &[(String, Arc<dyn Content>, Option<u32>)], pending: bool, short: usize) -> R<Builder<Quiet>> {
    let mut b = Builder::<Quiet>::new();
    for (n, c, known) in specs {
        let Ok(e) = b.add_entry(n.clone(), Quiet { content: c.clone(), pending, short }) else { fail!("rejected") };
        if let Some(c) = known {
            e.crc32(*c);
        }
    }
    Ok(b)
}

pub fn crc_of(c: &dyn Content) -> u32 {
    let mut h = crc32fast::Hasher::new();
    let mut buf = vec![0u8; 1 << 16];
    let mut p = 0;
    while p < c.len() {
        let k = (c.len() - p).min(1 << 16) as usize;
        c.fill(p, &mut buf[..k]);
        h.update(&buf[..k]);
        p += k as u64;
    }
    h.finalize()
}

/// Reads up to `n` bytes.
fn pump(rd: &mut Pin<Box<Reader<Quiet>>>, buf: &mut [u8], n: u64) -> R<u64> {
    let mut cx = Context::from_waker(Waker::noop());
    let mut got = 0;
    while got < n {
        let k = (buf.len() as u64).min(n - got) as usize;
        let mut rb = ReadBuf::new(&mut buf[..k]);
        match rd.as_mut().poll_read(&mut cx, &mut rb) {
            Poll::Pending => continue,
            Poll::Ready(Err(e)) => fail!("read failed: {e}"),
            Poll::Ready(Ok(())) => {}
        }
        if rb.filled().is_empty() {
            break;
        }
        got += rb.filled().len() as u64;
    }
    Ok(got)
}

/// Access patterns.
const WAYS: u64 = if cfg!(feature = "full") { 7 } else { 6 };

/// A request for all or a part of a file, and the size of the answer.
#[cfg(feature = "full")]
fn request(size: u64, r: &mut Rng) -> (actix_web::HttpRequest, u64) {
    use actix_web::Responder;
    let mut t = actix_web::test::TestRequest::default();
    let mut n = size;
    if r.p(128) {
        let a = r.below(size);
        let b = r.range(a, size - 1);
        t = t.insert_header(("Range", format!("bytes={a}-{b}")));
        n = b - a + 1;
    }
    let req = t.to_http_request();
    // What is allocated once per thread is not counted
    let e = Builder::<&'static [u8]>::new().build().into_responder().respond_to(&req);
    drop(e);
    (req, n)
}

fn pattern(b: Builder<Quiet>, longest: usize, which: u64, bufsize: usize, limit: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    let entries = b.get_entries().len();
    let size = b.size();
    let mut buf = vec![0u8; bufsize];
    let mut rd = Box::pin(b.build());
    #[cfg(feature = "full")]
    let (req, wanted) = request(size, r);
    let built = alloc::current();
    let m = Meter { base: alloc::reset_peak(), longest, entries, hold: 0 };
    let total;
    let name;
    match which {
        0 => {
            name = "reading front to back";
            total = pump(&mut rd, &mut buf, limit)?;
        }
        1 => {
            name = "reading the central directory first";
            // From behind, in a few steps, so that all checksums are calculated
            let mut p = size - 98 - 46.min(size - 98);
            let mut t = 0;
            for _ in 0..entries.min(50) {
                rd.as_mut().seek_from_start_pinned(p);
                t += pump(&mut rd, &mut buf, 60)?;
                p = p.saturating_sub(46 + 28 + r.below(longest as u64 + 1));
            }
            total = t;
        }
        2 => {
            name = "seeking at random";
            let mut t = 0;
            for _ in 0..12 {
                rd.as_mut().seek_from_start_pinned(r.below(size + 1));
                t += pump(&mut rd, &mut buf, r.clone().below(5000))?;
            }
            total = t;
        }
        3 => {
            name = "streaming";
            let mut st = Box::pin(crate::engine::into_stream(*Pin::into_inner(rd)));
            let mut cx = Context::from_waker(Waker::noop());
            let mut t = 0u64;
            let mut biggest = 0usize;
            while t < limit {
                match futures_core::Stream::poll_next(st.as_mut(), &mut cx) {
                    Poll::Pending => continue,
                    Poll::Ready(None) => break,
                    Poll::Ready(Some(Err(e))) => fail!("read failed: {e}"),
                    Poll::Ready(Some(Ok(x))) => {
                        t += x.len() as u64;
                        biggest = biggest.max(x.len());
                    }
                }
            }
            ctx.max("largest_stream_block", biggest as u64);
            total = t;
            rd = Box::pin(Pin::into_inner(st).into_reader());
        }
        4 => {
            name = "several passes";
            let mut t = 0;
            for _ in 0..3 {
                rd.as_mut().seek_from_start_pinned(0);
                t += pump(&mut rd, &mut buf, limit / 3 + 1)?;
            }
            total = t;
        }
        #[cfg(feature = "full")]
        6 => {
            name = "serving by HTTP";
            use actix_web::Responder;
            use actix_web::body::MessageBody;
            let (resp, mut back) = (*Pin::into_inner(rd)).into_responder_with_channel();
            let mut body = Box::pin(resp.respond_to(&req).into_body());
            let mut cx = Context::from_waker(Waker::noop());
            let mut t = 0u64;
            let mut biggest = 0usize;
            while t < limit {
                match body.as_mut().poll_next(&mut cx) {
                    Poll::Pending => continue,
                    Poll::Ready(None) => break,
                    Poll::Ready(Some(Err(e))) => fail!("body failed: {e}"),
                    Poll::Ready(Some(Ok(x))) => {
                        t += x.len() as u64;
                        biggest = biggest.max(x.len());
                    }
                }
            }
            ensure!(t >= limit.min(wanted), "{t} B in the body, {wanted} expected");
            ctx.max("largest_body_block", biggest as u64);
            total = t;
            drop(body);
            let Ok(x) = back.try_recv() else { fail!("no reader came back") };
            drop(back);
            rd = Box::pin(x);
            ctx.count("http_bodies", 1);
        }
        _ => {
            name = "skipping inside entries";
            let mut t = 0;
            for i in 1..6u64 {
                rd.as_mut().seek_from_start_pinned(size / 7 * i);
                t += pump(&mut rd, &mut buf, 10)?;
            }
            total = t;
        }
    }
    m.check(name, size, ctx)?;
    // Taking allocates nothing
    let n0 = alloc::count();
    let mut taken = rd.as_mut().take_pinned();
    let n1 = alloc::count();
    ensure!(n1 == n0, "take_pinned allocated {} times after {name}", n1 - n0);
    // Seeking neither
    let n0 = alloc::count();
    for _ in 0..5 {
        taken.seek_from_start_mut(r.below(size + 10));
    }
    let n1 = alloc::count();
    ensure!(n1 - n0 <= 5, "5 seeks allocated {} times", n1 - n0);
    drop(taken);
    drop(rd);
    drop(buf);
    let left = alloc::current() - built;
    // Actix keeps parts of responses for the next one
    let kept = if which == 6 { 8192 } else { 0 };
    ensure!(left <= kept, "{left} B of heap memory still used after dropping everything ({name})");
    ctx.count("bytes_delivered", total);
    ctx.count("patterns", 1);
    Ok(())
}

fn memory(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let n = r.range(1, 12) as usize;
    let mut longest = 0;
    let known = r.below(3);
    let specs: Vec<(String, Arc<dyn Content>, Option<u32>)> = (0..n)
        .map(|i| {
            let name = if r.p(30) { format!("{i}/").repeat(60_000) } else { format!("{i}/").repeat(1 + r.usize(40)) };
            let name = if name.len() > 65535 { name[..65535].to_string() } else { name };
            longest = longest.max(name.len());
            let len = *r.pick(&[0u64, 1, 100, 8192, 8193, 100_000, 1 << 20, 3 << 20]);
            let c: Arc<dyn Content> = Arc::new(Proc { seed: r.next(), len });
            let crc = (known == 1 || (known == 2 && r.p(128))).then(|| crc_of(c.as_ref()));
            (name, c, crc)
        })
        .collect();
    let pending = r.p(60);
    let short = *r.pick(&[usize::MAX, usize::MAX, 5000, 8192, 100]);
    let b = quiet_builder(&specs, pending, short)?;
    let bufsize = *r.pick(&[1usize << 10, 1 << 13, 1 << 16, 1 << 20]);
    let which = r.below(WAYS);
    pattern(b, longest, which, bufsize, u64::MAX, &mut r, ctx)?;
    ctx.nontrivial(mix(which, mix(n as u64, bufsize as u64) ^ r.next()));
    Ok(())
}

/// The same patterns with more data than any buffer could hold.
fn memory_large(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let which = ctx.idx % WAYS;
    let known = ctx.idx / WAYS % 2 == 1;
    let len: u64 = if ctx.thorough() { 5 << 30 } else { 64 << 20 };
    let block: Arc<Vec<u8>> = Arc::new({
        let mut v = vec![0u8; 1 << 20];
        r.fill(&mut v);
        v
    });
    let tiled = Tiled { block, len };
    let known = known.then(|| tiled.crc());
    let c: Arc<dyn Content> = Arc::new(tiled);
    let specs = vec![
        ("first".to_string(), c.clone(), known),
        ("second".to_string(), c.clone(), known),
    ];
    let b = quiet_builder(&specs, false, usize::MAX)?;
    let bufsize = *r.pick(&[1usize << 14, 1 << 20, 16 << 20]);
    let limit = if ctx.thorough() { 6 << 30 } else { u64::MAX };
    pattern(b, 6, which, bufsize, limit, &mut r, ctx)?;
    ctx.max("largest_entry_mib", len >> 20);
    ctx.nontrivial(mix(which, ctx.idx));
    Ok(())
}

fn memory_entries(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let n = *r.pick(&[1000u64, 5000, 20_000]);
    let c: Arc<dyn Content> = Arc::new(Proc { seed: 1, len: 3000 });
    let e: Arc<dyn Content> = Arc::new(Proc { seed: 1, len: 0 });
    let crc = crc_of(c.as_ref());
    let known = ctx.idx % 2 == 0;
    let specs: Vec<(String, Arc<dyn Content>, Option<u32>)> =
        (0..n).map(|i| (format!("entry number {i}"), if i % 3 == 0 { e.clone() } else { c.clone() }, (known && i % 3 != 0).then_some(crc))).collect();
    let b = quiet_builder(&specs, false, usize::MAX)?;
    let which = ctx.idx % WAYS;
    pattern(b, 20, which, 1 << 14, u64::MAX, &mut r, ctx)?;
    ctx.max("most_entries", n);
    ctx.nontrivial(mix(which, n) ^ ctx.idx);
    Ok(())
}

/// A block of data repeated: cheap to produce in any amount.
pub struct Tiled {
    pub block: Arc<Vec<u8>>,
    pub len: u64,
}
impl Content for Tiled {
    fn len(&self) -> u64 {
        self.len
    }
    fn fill(&self, off: u64, out: &mut [u8]) {
        let n = self.block.len();
        let mut p = (off % n as u64) as usize;
        let mut i = 0;
        while i < out.len() {
            let k = (n - p).min(out.len() - i);
            out[i..i + k].copy_from_slice(&self.block[p..p + k]);
            i += k;
            p = 0;
        }
    }
}
impl Tiled {
    /// Checksum of the whole content.
    pub fn crc(&self) -> u32 {
        let n = self.block.len() as u64;
        let mut one = crc32fast::Hasher::new();
        one.update(&self.block);
        // Doubling: blocks of 2^k tiles
        let mut pow = vec![one.clone()];
        while (n << pow.len()) <= self.len {
            let mut d = pow[pow.len() - 1].clone();
            d.combine(&pow[pow.len() - 1].clone());
            pow.push(d);
        }
        let mut h = crc32fast::Hasher::new();
        let mut left = self.len;
        for (k, p) in pow.iter().enumerate().rev() {
            while left >= n << k {
                h.combine(p);
                left -= n << k;
            }
        }
        h.update(&self.block[..left as usize]);
        h.finalize()
    }
}

