//! Drives readers through arbitrary histories, one poll at a time, with a model of what each
//! handle has to deliver next, and online monitors for positions, checksums, wake-ups, sizes and
//! the use of the sources.
use crate::arch::{Arch, build_mon};
use crate::report::{Ctx, R};
use crate::rng::Rng;
use crate::src::{Log, MonSrc, Pend, Plan, Short};
use crate::{ensure, fail};
use std::collections::BTreeMap;
use std::io::{ErrorKind, SeekFrom};
use std::pin::Pin;
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::task::{Context, Poll, Wake, Waker};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};
use zippity::{BytesStream, Reader};

pub struct CountWaker(pub AtomicU64);
impl Wake for CountWaker {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

pub fn gen_plan(r: &mut Rng) -> Plan {
    let pend = |r: &mut Rng| match r.below(5) {
        0 | 1 => Pend::Never,
        2 => Pend::Prob(128, 3),
        3 => Pend::Always(1),
        _ => Pend::Prob(40, 6),
    };
    Plan {
        open: pend(r),
        read: pend(r),
        seek: pend(r),
        short: match r.below(6) {
            0 | 1 => Short::Full,
            2 => Short::One,
            3 => Short::Max(1 + r.usize(9000)),
            _ => Short::Random,
        },
        self_wake: r.p(64),
        ..Plan::default()
    }
}

/// One reader (or byte stream) under test, and what it has to do next.
pub struct Handle {
    pub id: usize,
    pub kind: Kind,
    /// Position at which the next byte has to be delivered.
    pub pos: u64,
    /// The archive seen through this handle (the empty archive after a take).
    pub arch: Arc<Arch>,
    /// Checksums known so far, by entry index
    pub known: BTreeMap<usize, u32>,
    /// Position reached by the last seek (0 at the start); bytes before were not delivered.
    pub base: u64,
    pub polls_without_progress: u64,
}

pub enum Kind {
    Reader(Pin<Box<Reader<MonSrc>>>),
    Stream(Pin<Box<BytesStream<MonSrc>>>),
    Gone,
}

impl Handle {
    pub fn reader(&self) -> &Reader<MonSrc> {
        match &self.kind {
            Kind::Reader(r) => r,
            Kind::Stream(s) => s.reader_ref(),
            Kind::Gone => unreachable!(),
        }
    }
    pub fn pin(&mut self) -> Pin<&mut Reader<MonSrc>> {
        match &mut self.kind {
            Kind::Reader(r) => r.as_mut(),
            Kind::Stream(s) => s.as_mut().reader_pin_mut(),
            Kind::Gone => unreachable!(),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Polled {
    Pending,
    Data(usize),
    Eof,
    Error(ErrorKind),
}

pub struct Session {
    pub log: Log,
    pub arch: Arc<Arch>,
    pub empty: Arc<Arch>,
    pub handles: Vec<Handle>,
    next_handle: usize,
    waker: Arc<CountWaker>,
    pub wk: Waker,
    buf: Vec<u8>,
    // Observations
    pub polls: u64,
    pub pendings: u64,
    pub bytes: u64,
    pub errors: u64,
    pub seeks: u64,
    pub spurious: u64,
    /// Hash of the interleaving of results seen
    pub shape: u64,
    /// Errors of the library itself are acceptable (wrong declarations are in play)
    pub allow_mismatch: bool,
}

impl Session {
    pub fn new(arch: Arc<Arch>, empty: Arc<Arch>, seed: u64, plan: Plan) -> R<Session> {
        let log = Log::new(seed, plan);
        let waker = Arc::new(CountWaker(AtomicU64::new(0)));
        let wk = Waker::from(waker.clone());
        let mut s = Session {
            log,
            arch,
            empty,
            handles: Vec::new(),
            next_handle: 0,
            waker,
            wk,
            buf: Vec::new(),
            polls: 0,
            pendings: 0,
            bytes: 0,
            errors: 0,
            seeks: 0,
            spurious: 0,
            shape: 0,
            allow_mismatch: false,
        };
        s.open()?;
        Ok(s)
    }

    /// Builds the first reader.
    pub fn open(&mut self) -> R {
        self.log.begin(self.next_handle);
        let b = build_mon(&self.arch.specs, &self.log)?;
        let bs = b.size();
        let reader = b.build();
        ensure!(
            bs == reader.size(),
            "builder announced {bs} B, the reader {}",
            reader.size()
        );
        let arch = self.arch.clone();
        let h = self.add(reader, 0, arch);
        let n = self.log.lock().ops_in_call;
        ensure!(n == 0, "building accessed a source");
        self.check(h, "build")
    }

    fn add(&mut self, reader: Reader<MonSrc>, pos: u64, arch: Arc<Arch>) -> usize {
        let known = arch
            .specs
            .iter()
            .enumerate()
            .filter(|(_, s)| s.preset)
            .map(|(i, _)| (i, arch.crcs[i]))
            .collect();
        self.handles.push(Handle {
            id: self.next_handle,
            kind: Kind::Reader(Box::pin(reader)),
            pos,
            base: pos,
            arch,
            known,
            polls_without_progress: 0,
        });
        self.next_handle += 1;
        self.handles.len() - 1
    }

    /// The state monitors, evaluated after every operation: position, size, checksums, sources.
    pub fn check(&mut self, h: usize, after: &str) -> R {
        let hd = &self.handles[h];
        let r = hd.reader();
        ensure!(
            r.tell() == hd.pos,
            "after {after}: position reported {}, expected {}",
            r.tell(),
            hd.pos
        );
        ensure!(
            r.size() == hd.arch.size(),
            "after {after}: size reported {}, expected {}",
            r.size(),
            hd.arch.size()
        );
        if let Some(v) = self.log.take_violation() {
            fail!("after {after}: {v}");
        }
        Ok(())
    }

    /// Monitors the reported checksums of a handle.
    pub fn check_crcs(&mut self, h: usize, after: &str) -> R {
        let hd = &mut self.handles[h];
        let mut got: BTreeMap<usize, u32> = BTreeMap::new();
        let mut next = 0usize;
        let reported: Vec<(String, u32)> =
            hd.reader().crc32s().map(|(n, c)| (n.to_string(), c)).collect();
        for (name, crc) in reported {
            // In entry order
            let i = match hd.arch.specs[next..].iter().position(|s| s.name == name) {
                Some(k) => next + k,
                None => match hd.arch.specs.iter().position(|s| s.name == name) {
                    Some(k) => k,
                    None => fail!("after {after}: checksum reported for unknown entry {name:?}"),
                },
            };
            next = (i + 1).min(hd.arch.specs.len());
            ensure!(
                crc == hd.arch.crcs[i],
                "after {after}: checksum of {name:?} reported as {crc:08x}, the data has {:08x}",
                hd.arch.crcs[i]
            );
            ensure!(
                got.insert(i, crc).is_none(),
                "after {after}: checksum of {name:?} reported twice"
            );
        }
        for i in hd.known.keys() {
            ensure!(
                got.contains_key(i),
                "after {after}: the checksum of {:?} was known and is not any more",
                hd.arch.specs[*i].name
            );
        }
        hd.known = got;
        Ok(())
    }

    /// Records carrying the checksum of an entry have been delivered: it has to be known.
    fn check_crc_known(&mut self, h: usize, from: u64, to: u64) -> R {
        let hd = &mut self.handles[h];
        if to - from > 1 << 30 || !hd.arch.exact {
            return Ok(());
        }
        let mut need: Vec<usize> = Vec::new();
        for (i, e) in hd.arch.parsed.entries.iter().enumerate() {
            let d = (e.desc_off + 4, e.desc_off + 8);
            let c = (e.cd_off + 16, e.cd_off + 20);
            if (from < d.1 && to > d.0) || (from < c.1 && to > c.0) {
                need.push(i);
            }
        }
        if need.is_empty() {
            return Ok(());
        }
        self.check_crcs(h, "read")?;
        let hd = &self.handles[h];
        for i in need {
            ensure!(
                hd.known.contains_key(&i),
                "record with the checksum of {:?} delivered, but the checksum is not reported",
                hd.arch.specs[i].name
            );
        }
        Ok(())
    }

    pub fn new_waker(&mut self) {
        self.waker = Arc::new(CountWaker(AtomicU64::new(0)));
        self.wk = Waker::from(self.waker.clone());
    }

    /// Common monitors of a poll result.
    fn after_poll(&mut self, h: usize, res: &Polled, wanted: bool, what: &str) -> R {
        self.polls += 1;
        let log = self.log.lock();
        let (pend, errs, budget) = (
            log.pending_in_call,
            log.errors_in_call.clone(),
            log.budget_hit,
        );
        let waker_ok = log.wakers_in_call.iter().any(|w| w.will_wake(&self.wk));
        drop(log);
        ensure!(!budget, "{what}: the operation budget of the sources is exhausted");
        self.shape = crate::rng::mix(
            self.shape,
            match res {
                Polled::Pending => 1,
                Polled::Data(n) => 16 + *n as u64,
                Polled::Eof => 3,
                Polled::Error(_) => 4,
            },
        );
        match res {
            Polled::Pending => {
                self.pendings += 1;
                ensure!(
                    pend > 0,
                    "{what}: pending, although no source operation was pending in this call"
                );
                ensure!(
                    waker_ok,
                    "{what}: pending, but no source holds the caller's current waker (lost wake-up)"
                );
                let hd = &mut self.handles[h];
                hd.polls_without_progress += 1;
            }
            Polled::Data(n) => {
                self.handles[h].polls_without_progress = 0;
                self.bytes += *n as u64;
                ensure!(
                    errs.is_empty(),
                    "{what}: a source failed ({:?}), but {n} bytes were delivered without an error",
                    errs[0]
                );
            }
            Polled::Eof => {
                let hd = &self.handles[h];
                ensure!(
                    errs.is_empty(),
                    "{what}: a source failed ({:?}), but no error was reported",
                    errs[0]
                );
                ensure!(
                    !wanted || hd.pos >= hd.arch.size(),
                    "{what}: end of file at {} of {}",
                    hd.pos,
                    hd.arch.size()
                );
            }
            Polled::Error(k) => {
                self.errors += 1;
                if !(self.allow_mismatch && errs.is_empty()) {
                    ensure!(
                        !errs.is_empty(),
                        "{what}: failed with {k:?}, although no source failed"
                    );
                    ensure!(
                        errs.contains(k),
                        "{what}: failed with {k:?}, the source failed with {:?}",
                        errs[0]
                    );
                }
            }
        }
        if !matches!(res, Polled::Error(_)) && !errs.is_empty() && !matches!(res, Polled::Pending) {
            fail!("{what}: source error {:?} swallowed", errs[0]);
        }
        if matches!(res, Polled::Pending) && !errs.is_empty() {
            fail!("{what}: source error {:?} swallowed by a pending result", errs[0]);
        }
        Ok(())
    }

    /// Polls the handle once. `size`: space in the caller's buffer (readers only), `prefix`: bytes
    /// already in the buffer.
    pub fn poll(&mut self, h: usize, size: usize, prefix: usize, ctx: &mut Ctx) -> R<Polled> {
        let id = self.handles[h].id;
        self.log.begin(id);
        if matches!(self.handles[h].kind, Kind::Stream(_)) {
            return self.poll_stream(h, ctx);
        }
        let mut buf = std::mem::take(&mut self.buf);
        if buf.len() < size + prefix {
            buf.resize(size + prefix, 0);
        }
        for (i, b) in buf[..prefix].iter_mut().enumerate() {
            *b = (i as u8) ^ 0x5a;
        }
        let mut rb = ReadBuf::new(&mut buf[..size + prefix]);
        rb.advance(prefix);
        let mut cx = Context::from_waker(&self.wk);
        let res = match &mut self.handles[h].kind {
            Kind::Reader(r) => r.as_mut().poll_read(&mut cx, &mut rb),
            _ => unreachable!(),
        };
        let filled = rb.filled().len();
        let pos = self.handles[h].pos;
        let what = format!("poll_read({size} B) at {pos}");
        ctx.tr(|| {
            format!(
                "#{id} poll_read size={size} prefix={prefix} at {pos} -> {} filled {}",
                match &res {
                    Poll::Pending => "pending".to_string(),
                    Poll::Ready(Ok(())) => "ok".to_string(),
                    Poll::Ready(Err(e)) => format!("error {e}"),
                },
                filled as i64 - prefix as i64
            )
        });
        ensure!(filled >= prefix, "{what}: the caller's buffer shrank");
        for (i, b) in buf[..prefix].iter().enumerate() {
            ensure!(
                *b == (i as u8) ^ 0x5a,
                "{what}: bytes placed by the caller before the call were changed"
            );
        }
        let n = filled - prefix;
        let res = match res {
            Poll::Pending => {
                ensure!(n == 0, "{what}: pending, but {n} bytes were delivered");
                Polled::Pending
            }
            Poll::Ready(Err(e)) => {
                ensure!(n == 0, "{what}: failed ({e}), but {n} bytes were delivered");
                Polled::Error(e.kind())
            }
            Poll::Ready(Ok(())) => {
                if n == 0 {
                    Polled::Eof
                } else {
                    self.deliver(h, &buf[prefix..filled], &what)?;
                    Polled::Data(n)
                }
            }
        };
        self.buf = buf;
        self.after_poll(h, &res, size > 0, &what)?;
        self.check(h, &what)?;
        if let Polled::Data(n) = res {
            let to = self.handles[h].pos;
            self.check_crc_known(h, to - n as u64, to)?;
        }
        Ok(res)
    }

    fn deliver(&mut self, h: usize, got: &[u8], what: &str) -> R {
        let hd = &mut self.handles[h];
        let p = hd.pos;
        let end = p + got.len() as u64;
        ensure!(
            end <= hd.arch.size(),
            "{what}: {} B delivered at {p}, the archive has only {}",
            got.len(),
            hd.arch.size()
        );
        let want = &hd.arch.truth[p as usize..end as usize];
        if want != got {
            let d = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(0);
            fail!(
                "{what}: wrong byte at {}: {:02x} instead of {:02x} ({} B delivered at {p}; {})",
                p + d as u64,
                got[d],
                want[d],
                got.len(),
                locate(&hd.arch, p + d as u64)
            );
        }
        hd.pos = end;
        Ok(())
    }

    #[allow(unused_variables)]
    fn poll_stream(&mut self, h: usize, ctx: &mut Ctx) -> R<Polled> {
        let mut cx = Context::from_waker(&self.wk);
        let res = match &mut self.handles[h].kind {
            Kind::Stream(s) => poll_next(s.as_mut(), &mut cx),
            _ => unreachable!(),
        };
        let pos = self.handles[h].pos;
        let id = self.handles[h].id;
        let what = format!("poll_next at {pos}");
        ctx.tr(|| format!("#{id} poll_next at {pos} -> {}", match &res {
            Poll::Pending => "pending".to_string(),
            Poll::Ready(None) => "end".to_string(),
            Poll::Ready(Some(Ok(b))) => format!("{} B", b.len()),
            Poll::Ready(Some(Err(e))) => format!("error {e}"),
        }));
        let res = match res {
            Poll::Pending => Polled::Pending,
            Poll::Ready(None) => Polled::Eof,
            Poll::Ready(Some(Err(e))) => Polled::Error(e.kind()),
            Poll::Ready(Some(Ok(b))) => {
                ensure!(!b.is_empty(), "{what}: empty block");
                self.deliver(h, &b, &what)?;
                Polled::Data(b.len())
            }
        };
        self.after_poll(h, &res, true, &what)?;
        self.check(h, &what)?;
        if let Polled::Data(n) = res {
            let to = self.handles[h].pos;
            self.check_crc_known(h, to - n as u64, to)?;
        }
        Ok(res)
    }

    /// After a pending result: time passes; the caller's waker has to be called once the source
    /// is ready.
    pub fn wait_wake(&mut self) -> R {
        if self.log.lock().plan.self_wake {
            ensure!(
                self.waker.0.load(Ordering::SeqCst) > 0,
                "pending without a wake-up"
            );
            self.waker.0.store(0, Ordering::SeqCst);
            return Ok(());
        }
        for _ in 0..1000 {
            if self.waker.0.swap(0, Ordering::SeqCst) > 0 {
                return Ok(());
            }
            self.log.tick();
        }
        fail!("the caller was never woken (lost wake-up)")
    }

    /// Seeks by one of the available ways.
    pub fn seek(&mut self, h: usize, target: u64, way: u64, ctx: &mut Ctx) -> R {
        let id = self.handles[h].id;
        self.log.begin(id);
        self.seeks += 1;
        let size = self.handles[h].arch.size();
        let pos = self.handles[h].pos;
        ctx.tr(|| format!("#{id} seek to {target} (way {way}) from {pos}"));
        let rel = |base: u64| -> Option<i64> {
            let d = i128::from(target) - i128::from(base);
            i64::try_from(d).ok()
        };
        let from = match way {
            0 => {
                match &mut self.handles[h].kind {
                    Kind::Reader(r) => Pin::as_mut(r).get_mut().seek_from_start_mut(target),
                    Kind::Stream(s) => Pin::as_mut(s).get_mut().reader_mut().seek_from_start_mut(target),
                    Kind::Gone => unreachable!(),
                }
                None
            }
            1 => {
                self.handles[h].pin().seek_from_start_pinned(target);
                None
            }
            2 => Some(SeekFrom::Start(target)),
            3 => rel(size).map(SeekFrom::End).or(Some(SeekFrom::Start(target))),
            _ => rel(pos).map(SeekFrom::Current).or(Some(SeekFrom::Start(target))),
        };
        if let Some(f) = from {
            let mut cx = Context::from_waker(&self.wk);
            let mut p = self.handles[h].pin();
            if let Err(e) = p.as_mut().start_seek(f) {
                fail!("start_seek({f:?}) from {pos} failed: {e}");
            }
            match p.poll_complete(&mut cx) {
                Poll::Ready(Ok(v)) => ensure!(
                    v == target,
                    "seek({f:?}) from {pos} reported {v}, it resolves to {target}"
                ),
                Poll::Ready(Err(e)) => fail!("seek({f:?}) failed: {e}"),
                Poll::Pending => fail!("seek({f:?}) pending"),
            }
        }
        {
            let hd = &mut self.handles[h];
            hd.pos = target;
            hd.base = target;
            hd.polls_without_progress = 0;
        }
        let l = self.log.lock();
        let (ops, live) = (l.ops_in_call, l.live_of(id));
        drop(l);
        ensure!(ops == 0, "seeking accessed a source");
        ensure!(
            live.is_empty(),
            "source {live:?} still open after a seek"
        );
        self.check(h, "seek")
    }

    /// A seek that can not succeed: it must fail with InvalidInput and change nothing.
    pub fn bad_seek(&mut self, h: usize, from: SeekFrom, ctx: &mut Ctx) -> R {
        let id = self.handles[h].id;
        self.log.begin(id);
        ctx.tr(|| format!("#{id} impossible seek {from:?}"));
        let r = self.handles[h].pin().start_seek(from);
        match r {
            Ok(()) => fail!("seek({from:?}) from {} succeeded", self.handles[h].pos),
            Err(e) => {
                ensure!(
                    e.kind() == ErrorKind::InvalidInput,
                    "seek({from:?}) failed with {:?} instead of InvalidInput",
                    e.kind()
                );
                let before_start = matches!(from, SeekFrom::Current(o) | SeekFrom::End(o) if o < 0);
                let said = e
                    .get_ref()
                    .and_then(|i| i.downcast_ref::<zippity::ReadError>())
                    .is_some_and(|i| matches!(i, zippity::ReadError::SeekingBeforeStart));
                ensure!(
                    said == before_start,
                    "seek({from:?}) from {} failed with {e:?}",
                    self.handles[h].pos
                );
            }
        }
        let mut cx = Context::from_waker(&self.wk);
        let pos = self.handles[h].pos;
        match self.handles[h].pin().poll_complete(&mut cx) {
            Poll::Ready(Ok(p)) => ensure!(p == pos, "position {p} after a failed seek, was {pos}"),
            Poll::Ready(Err(_)) => {}
            Poll::Pending => fail!("poll_complete pending after a failed seek"),
        }
        self.check(h, "failed seek")
    }

    /// Clones a handle.
    pub fn clone_handle(&mut self, h: usize, ctx: &mut Ctx) -> R {
        let id = self.handles[h].id;
        self.log.begin(id);
        ctx.tr(|| format!("#{id} clone"));
        self.check_crcs(h, "before clone")?;
        let arch = self.handles[h].arch.clone();
        let known = self.handles[h].known.clone();
        let pos = self.handles[h].pos;
        let kind = match &self.handles[h].kind {
            Kind::Reader(r) => Kind::Reader(Box::pin(Reader::clone(r))),
            Kind::Stream(s) => Kind::Stream(Box::pin(BytesStream::clone(s))),
            Kind::Gone => unreachable!(),
        };
        let ops = self.log.lock().ops_in_call;
        ensure!(ops == 0, "cloning accessed a source");
        self.handles.push(Handle {
            id: self.next_handle,
            kind,
            pos,
            base: pos,
            arch,
            known: known.clone(),
            polls_without_progress: 0,
        });
        self.next_handle += 1;
        let n = self.handles.len() - 1;
        self.check(n, "clone")?;
        self.check_crcs(n, "clone")?;
        ensure!(
            self.handles[n].known == known,
            "the clone knows other checksums than the original"
        );
        self.check(h, "clone")
    }

    /// Takes the state out of a handle; the rest has to be the empty archive.
    pub fn take(&mut self, h: usize, ctx: &mut Ctx) -> R {
        let id = self.handles[h].id;
        self.log.begin(id);
        ctx.tr(|| format!("#{id} take_pinned"));
        self.check_crcs(h, "before take")?;
        let arch = self.handles[h].arch.clone();
        let known = std::mem::take(&mut self.handles[h].known);
        let pos = self.handles[h].pos;
        let before = crate::alloc::count();
        let taken = self.handles[h].pin().take_pinned();
        let allocs = crate::alloc::count() - before;
        ensure!(allocs == 0, "take_pinned allocated {allocs} times");
        let l = self.log.lock();
        let (ops, live) = (l.ops_in_call, l.live_of(id));
        drop(l);
        ensure!(ops == 0, "taking accessed a source");
        ensure!(live.is_empty(), "source {live:?} still open after taking");
        {
            let hd = &mut self.handles[h];
            hd.arch = self.empty.clone();
            hd.pos = 0;
            hd.base = 0;
        }
        let n = self.add(taken, pos, arch);
        self.check(h, "take (what is left)")?;
        self.check_crcs(h, "take (what is left)")?;
        self.check(n, "take (what was taken)")?;
        self.handles[n].known = known.clone();
        self.check_crcs(n, "take (what was taken)")?;
        ensure!(
            self.handles[n].known == known,
            "the taken reader knows other checksums"
        );
        Ok(())
    }

    /// Converts between reader and stream.
    pub fn convert(&mut self, h: usize, ctx: &mut Ctx) -> R {
        let id = self.handles[h].id;
        self.log.begin(id);
        let k = std::mem::replace(&mut self.handles[h].kind, Kind::Gone);
        let (k, d) = match k {
            Kind::Reader(r) => (
                Kind::Stream(Box::pin(into_stream(*Pin::into_inner(r)))),
                "into stream",
            ),
            Kind::Stream(s) => (
                Kind::Reader(Box::pin(Pin::into_inner(s).into_reader())),
                "into reader",
            ),
            Kind::Gone => unreachable!(),
        };
        ctx.tr(|| format!("#{id} {d}"));
        self.handles[h].kind = k;
        self.check(h, d)
    }

    pub fn drop_handle(&mut self, h: usize, ctx: &mut Ctx) -> R {
        let id = self.handles[h].id;
        ctx.tr(|| format!("#{id} drop"));
        self.log.begin(id);
        drop(self.handles.remove(h));
        let l = self.log.lock();
        let live = l.live_of(id);
        drop(l);
        ensure!(live.is_empty(), "source {live:?} still open after dropping");
        Ok(())
    }

    /// Reads `n` bytes (or to the end, or to the first error) with a fixed buffer size.
    pub fn read_n(&mut self, h: usize, n: u64, bufsize: usize, ctx: &mut Ctx) -> R<Option<ErrorKind>> {
        let mut left = n;
        while left > 0 {
            let b = (bufsize as u64).min(left) as usize;
            match self.poll(h, b, 0, ctx)? {
                Polled::Pending => self.wait_wake()?,
                Polled::Data(k) => left = left.saturating_sub(k as u64),
                Polled::Eof => return Ok(None),
                Polled::Error(k) => return Ok(Some(k)),
            }
            ensure!(
                self.handles[h].polls_without_progress < 1_000_000,
                "no progress in 1000000 polls"
            );
        }
        Ok(None)
    }

    pub fn at_end(&self, h: usize) -> bool {
        self.handles[h].pos >= self.handles[h].arch.size()
    }

    pub fn stats(&self, ctx: &mut Ctx) {
        ctx.count("polls", self.polls);
        ctx.count("pending_polls", self.pendings);
        ctx.count("bytes_checked", self.bytes);
        ctx.count("errors_seen", self.errors);
        ctx.count("seeks", self.seeks);
        ctx.count("spurious_polls", self.spurious);
        let l = self.log.lock();
        let (o, s, f) = (l.ops, l.total_short, l.total_faults);
        drop(l);
        ctx.count("source_operations", o);
        ctx.count("short_reads", s);
        ctx.count("faults_injected", f);
    }
}

/// Says in which structure of the archive an offset lies.
pub fn locate(a: &Arch, p: u64) -> String {
    for (i, e) in a.parsed.entries.iter().enumerate() {
        let n = if p < e.local_off {
            continue;
        } else if p < e.data_off {
            "local header"
        } else if p < e.desc_off {
            "data"
        } else if p < e.desc_end {
            "data descriptor"
        } else if p >= e.cd_off && p < e.cd_end {
            "central directory record"
        } else {
            continue;
        };
        return format!("{n} of entry {i}");
    }
    "end records".to_string()
}

/// `Stream::poll_next` without naming the trait's crate where it is not available.
pub fn poll_next(
    s: Pin<&mut BytesStream<MonSrc>>,
    cx: &mut Context<'_>,
) -> Poll<Option<std::io::Result<bytes::Bytes>>> {
    futures_core::Stream::poll_next(s, cx)
}

/// What a random history may contain.
#[derive(Clone)]
pub struct HistCfg {
    pub ops: u64,
    pub seeks: u32,
    pub reads: u32,
    pub clones: u32,
    pub takes: u32,
    pub converts: u32,
    pub bad_seeks: u32,
    pub drops: u32,
    pub max_handles: usize,
    pub max_buf: usize,
}

impl Default for HistCfg {
    fn default() -> Self {
        HistCfg {
            ops: 40,
            seeks: 30,
            reads: 100,
            clones: 3,
            takes: 3,
            converts: 5,
            bad_seeks: 6,
            drops: 2,
            max_handles: 4,
            max_buf: 20_000,
        }
    }
}

/// All ways to make a stream of a reader, which must make the same stream.
pub fn into_stream<D: zippity::EntryData>(r: Reader<D>) -> BytesStream<D> {
    match crate::rng::mix(r.tell(), r.size()) % 3 {
        0 => r.into_bytes_stream(),
        1 => BytesStream::new(r),
        _ => BytesStream::from(r),
    }
}

pub fn gen_buf(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(10) {
        0 => 0,
        1 => 1,
        2 => r.usize(8),
        3 | 4 => r.usize(64),
        5 => *r.pick(&[20, 22, 24, 28, 30, 46, 56, 98, 100, 8191, 8192, 8193]),
        6 | 7 => r.usize(1000),
        _ => r.usize(max + 1),
    };
    n.min(max)
}

/// The same for buffers, which sometimes have sizes that people and runtimes use.
pub fn gen_read_buf(r: &mut Rng, max: usize) -> usize {
    if max >= 4096 && !cfg!(miri) && r.below(30) == 0 {
        let n = 1usize << if r.below(40) == 0 { 20 } else { r.range(9, 18) };
        return n + r.usize(3) - 1;
    }
    gen_buf(r, max)
}

pub fn gen_target(a: &Arch, pos: u64, r: &mut Rng) -> u64 {
    match r.below(20) {
        0..=9 => a.interesting(r),
        10..=14 => r.below(a.size() + 1),
        15 => pos,
        16 => a.size().saturating_add(r.below(1000)),
        17 => *r.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, i64::MAX as u64]),
        18 => pos.saturating_add(r.below(20_000)),
        _ => pos.saturating_sub(r.below(20_000)),
    }
}

/// One random step of a history.
pub fn step(s: &mut Session, cfg: &HistCfg, r: &mut Rng, ctx: &mut Ctx) -> R {
    let h = r.usize(s.handles.len());
    if r.p(100) {
        s.new_waker();
    }
    let more = s.handles.len() < cfg.max_handles;
    let w = [
        cfg.reads,
        cfg.seeks,
        if more { cfg.clones } else { 0 },
        if more { cfg.takes } else { 0 },
        cfg.converts,
        cfg.bad_seeks,
        if s.handles.len() > 1 { cfg.drops } else { 0 },
    ];
    match r.weighted(&w) {
        0 => {
            let style = r.below(8);
            match style {
                0 => {
                    // A single poll, whatever it gives
                    let b = gen_read_buf(r, cfg.max_buf);
                    let pre = if r.p(60) { r.usize(40) } else { 0 };
                    s.poll(h, b, pre, ctx)?;
                }
                1 => {
                    // A few polls without waiting for the source (spurious polls)
                    for _ in 0..r.range(1, 4) {
                        let b = gen_read_buf(r, cfg.max_buf);
                        if let Polled::Pending = s.poll(h, b, 0, ctx)? {
                            s.spurious += 1;
                            if r.p(128) {
                                s.new_waker();
                            }
                        }
                    }
                    if r.p(128) {
                        s.log.tick();
                    }
                }
                2 => {
                    // To the end
                    let b = 1 + gen_read_buf(r, cfg.max_buf).max(64);
                    s.read_n(h, u64::MAX, b, ctx)?;
                }
                3 => {
                    // To a structure boundary
                    let t = s.handles[h].arch.interesting(r);
                    let p = s.handles[h].pos;
                    if t > p {
                        let b = 1 + gen_read_buf(r, cfg.max_buf);
                        let n = if b < 16 { (t - p).min(3000) } else { t - p };
                        s.read_n(h, n, b, ctx)?;
                    }
                }
                _ => {
                    // Some polls with varying buffers, waiting as a good executor does
                    for _ in 0..r.range(1, 12) {
                        let b = gen_read_buf(r, cfg.max_buf);
                        let pre = if r.p(30) { r.usize(20) } else { 0 };
                        match s.poll(h, b, pre, ctx)? {
                            Polled::Pending => s.wait_wake()?,
                            Polled::Eof if b > 0 => break,
                            Polled::Error(_) => break,
                            _ => {}
                        }
                    }
                }
            }
            if r.p(40) {
                s.check_crcs(h, "read")?;
            }
        }
        1 => {
            let a = s.handles[h].arch.clone();
            let t = gen_target(&a, s.handles[h].pos, r);
            let way = r.below(5);
            s.seek(h, t, way, ctx)?;
        }
        2 => s.clone_handle(h, ctx)?,
        3 => s.take(h, ctx)?,
        4 => s.convert(h, ctx)?,
        5 => {
            let pos = s.handles[h].pos;
            let size = s.handles[h].arch.size();
            let neg = |base: u64, r: &mut Rng| -> Option<i64> {
                // Offsets that lead before the start
                let d = i128::from(base) + 1 + i128::from(match r.below(3) {
                    0 => 0,
                    1 => r.below(100),
                    _ => r.next() >> 2,
                });
                i64::try_from(-d).ok()
            };
            let over = |base: u64, r: &mut Rng| -> Option<i64> {
                // Offsets that lead past u64::MAX
                let room = u64::MAX - base;
                let d = i128::from(room) + 1 + i128::from(r.below(1000));
                i64::try_from(d).ok()
            };
            let f = match r.below(4) {
                0 => neg(pos, r).map(SeekFrom::Current),
                1 => neg(size, r).map(SeekFrom::End),
                2 => over(pos, r).map(SeekFrom::Current),
                _ => over(size, r).map(SeekFrom::End),
            };
            match f {
                Some(f) => s.bad_seek(h, f, ctx)?,
                None if r.p(128) => {
                    // Move to where the next one overflows
                    let t = u64::MAX - r.below(50);
                    s.seek(h, t, r.below(3), ctx)?;
                }
                None => {
                    if let Some(f) = over(pos, r) {
                        s.bad_seek(h, SeekFrom::Current(f), ctx)?;
                    } else if pos < 1 << 63 {
                        s.bad_seek(h, SeekFrom::Current(i64::MIN), ctx)?;
                    }
                }
            }
        }
        _ => s.drop_handle(h, ctx)?,
    }
    Ok(())
}

/// After a history: every handle still delivers everything from its position to the end.
pub fn drain(s: &mut Session, r: &mut Rng, ctx: &mut Ctx) -> R {
    {
        let mut l = s.log.lock();
        l.plan.fault = [0; 4];
        l.plan.fault_at.clear();
        l.plan.fail_from = None;
    }
    for h in 0..s.handles.len() {
        let b = *r.pick(&[257usize, 1000, 8192, 30_000]);
        if let Some(k) = s.read_n(h, u64::MAX, b, ctx)? {
            fail!("final read failed with {k:?} although no source fails any more");
        }
        ensure!(s.at_end(h), "the final read did not reach the end");
        s.check_crcs(h, "final read")?;
        // End of file stays end of file
        match s.poll(h, 10, 0, ctx)? {
            Polled::Eof => {}
            o => fail!("{o:?} after the end of the archive"),
        }
    }
    while !s.handles.is_empty() {
        let h = s.handles.len() - 1;
        s.drop_handle(h, ctx)?;
    }
    let l = s.log.lock();
    let (live, wait) = (l.live.len(), l.waiting());
    let maxlive = l.max_live_per_handle;
    drop(l);
    ensure!(live == 0 && wait == 0, "{live} source readers left open");
    ensure!(maxlive <= 1, "{maxlive} sources open at the same time in one reader");
    Ok(())
}
