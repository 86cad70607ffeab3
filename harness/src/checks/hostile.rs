//! C23: no panic, overflow, hang, or data race in any use.
use crate::arch::{Arch, ArchCfg, build_with, gen_name, gen_specs};
use crate::engine::{CountWaker, gen_buf, gen_plan};
use crate::report::{Caught, Ctx, Fail, R, Runner, Violation, catch};
use crate::rng::{Rng, hash_str, mix};
use crate::src::Log;
use crate::{ensure, fail};
use std::fmt::Debug;
use std::future::Future;
use std::io::{Error, ErrorKind, Result, SeekFrom};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::{Duration, SystemTime};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};
use zippity::{Builder, BytesStream, EntryData, Reader};

const KNOWN: &str = include_str!("../../../KNOWN_FINDINGS");

pub fn c23(run: &mut Runner) {
    run.rule = "A case is a sequence of calls to the whole public API (builders, entry maps, setters, readers, seeks, polls with any buffer including empty ones, takes, clones, streams, responders, Debug of everything) with extreme arguments; stage evil with sources which answer every operation arbitrarily (errors, ends, data beyond the end, wrong seek results, pending), stage sources with the monitored sources under failures and wrong declarations, stage memory with slices, vectors and Bytes. Monitors: panics (debug assertions and overflow checks compiled in), time per case, the position and size models, delivered bytes within the buffer. Stage threads uses readers from several threads at once. The extra commands run the same cases under AddressSanitizer, MemorySanitizer, ThreadSanitizer and Miri. Non-trivial: distinct sequences of (call, result).".into();
    run.assumptions.push("Sources keep the promises of their traits' types: EntryData::size() and AsRef<[u8]> always give the same answer, and sources themselves do not panic.".into());
    run.stage_threads("threads", run.n(150, 4000), 2, threads);
    run.stage("evil", run.n(60_000, 2_000_000), |ctx| {
        let shared = Arc::new(Mutex::new(Rng::new(ctx.rng.next())));
        let style = ctx.rng.below(6);
        let repolled = Arc::new(AtomicBool::new(false));
        let rp = repolled.clone();
        api(ctx, move |r| Evil { shared: shared.clone(), repolled: rp.clone(), style, declared: gen_declared(r) }, |d| d.declared)?;
        ensure!(!repolled.load(Ordering::SeqCst), "the future of a source was polled again after it was ready");
        Ok(())
    });
    run.stage("sources", run.n(30_000, 1_000_000), |ctx| {
        let mut plan = gen_plan(&mut ctx.rng);
        if ctx.rng.p(128) {
            let f = *ctx.rng.pick(&[3u32, 20, 100]);
            plan.fault = [f, f, f, f];
        }
        plan.clamp_seek = ctx.rng.p(100);
        let log = Log::new(ctx.rng.next(), plan);
        let l2 = log.clone();
        api(
            ctx,
            move |r| {
                let actual = vec![0x5a; gen_buf(r, MAX)];
                let n = actual.len() as u64;
                let declared = if r.p(128) { n } else { gen_declared(r) };
                l2.source(Arc::new(actual), declared)
            },
            |d| d.declared,
        )?;
        let l = log.lock();
        ensure!(l.live.is_empty(), "a source is open although everything was dropped");
        if let Some(v) = l.violations.first() {
            fail!("{v}");
        }
        Ok(())
    });
    run.stage("memory", run.n(20_000, 600_000), |ctx| match ctx.idx % 4 {
        0 => api(ctx, |r| vec![1u8; gen_buf(r, MAX)], |d| d.len() as u64),
        1 => {
            static DATA: [u8; MAX] = [7; MAX];
            api(ctx, |r| &DATA[..gen_buf(r, MAX)], |d| d.len() as u64)
        }
        2 => api(ctx, |r| bytes::Bytes::from(vec![1u8; gen_buf(r, MAX)]), |d| d.len() as u64),
        _ => api(ctx, |r| "x".repeat(gen_buf(r, MAX / 3)), |d| d.len() as u64),
    });
    findings(run);
}

/// Largest buffers and contents
const MAX: usize = if cfg!(miri) { 200 } else { 9000 };

fn gen_declared(r: &mut Rng) -> u64 {
    match r.below(10) {
        0 | 1 => 0,
        2 => 1,
        3 => r.below(100),
        4 | 5 => r.below(20_000),
        6 => *r.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, u64::from(u32::MAX), u64::MAX / 2]),
        7 => u64::MAX - r.below(2000),
        8 => r.next() >> r.below(64),
        _ => 8192,
    }
}

// ---------------------------------------------------------------------------------------------

/// Answers every call with anything its type allows.
#[derive(Clone)]
pub struct Evil {
    shared: Arc<Mutex<Rng>>,
    repolled: Arc<AtomicBool>,
    style: u64,
    declared: u64,
}

impl Debug for Evil {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Evil({})", self.declared)
    }
}

pub struct EvilReader {
    src: Evil,
    to: u64,
}

pub struct EvilOpen(Evil, bool);

fn evil_error(r: &mut Rng) -> Error {
    Error::new(
        *r.pick(&[ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::Interrupted, ErrorKind::UnexpectedEof, ErrorKind::WriteZero]),
        "evil",
    )
}

impl EntryData for Evil {
    type Reader = EvilReader;
    type Future = EvilOpen;
    fn get_reader(&self) -> EvilOpen {
        EvilOpen(self.clone(), false)
    }
    fn size(&self) -> u64 {
        self.declared
    }
}

impl Future for EvilOpen {
    type Output = Result<EvilReader>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let e = self.0.clone();
        if self.1 {
            // Most futures panic here
            e.repolled.store(true, Ordering::SeqCst);
            return Poll::Pending;
        }
        let mut r = e.shared.lock().unwrap();
        match r.below(16) {
            0 | 1 => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            2 => {
                self.1 = true;
                Poll::Ready(Err(evil_error(&mut r)))
            }
            _ => {
                self.1 = true;
                Poll::Ready(Ok(EvilReader { src: self.0.clone(), to: 0 }))
            }
        }
    }
}

impl AsyncRead for EvilReader {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>> {
        let e = self.src.clone();
        let mut r = e.shared.lock().unwrap();
        let full = buf.remaining();
        // Style 0 hardly ever ends, so that large declared sizes are passed
        let kind = match e.style {
            0 => 4 + r.below(40),
            1 => 5 + r.below(3),
            _ => r.below(16),
        };
        let n = match kind {
            0 => {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            1 => return Poll::Ready(Err(evil_error(&mut r))),
            2..=4 => 0,
            5 => full.min(1),
            6 | 7 => r.usize(full + 1),
            _ => full,
        };
        // In style 1 ends come at random, so that nothing goes on forever
        let n = if e.style == 1 && r.p(30) { 0 } else { n };
        let n = if cfg!(miri) { n.min(150) } else { n };
        match r.below(3) {
            0 => buf.put_slice(&vec![r.next() as u8; n]),
            1 => {
                buf.initialize_unfilled();
                buf.advance(n);
            }
            _ => {
                let s = buf.initialize_unfilled_to(n);
                s.fill(3);
                buf.advance(n);
            }
        }
        Poll::Ready(Ok(()))
    }
}

impl AsyncSeek for EvilReader {
    fn start_seek(mut self: Pin<&mut Self>, position: SeekFrom) -> Result<()> {
        let e = self.src.clone();
        let mut r = e.shared.lock().unwrap();
        if r.p(10) {
            return Err(evil_error(&mut r));
        }
        if let SeekFrom::Start(p) = position {
            self.to = p;
        }
        Ok(())
    }
    fn poll_complete(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<u64>> {
        let e = self.src.clone();
        let mut r = e.shared.lock().unwrap();
        match r.below(20) {
            0 | 1 => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            2 => Poll::Ready(Err(evil_error(&mut r))),
            3 => Poll::Ready(Ok(r.next())),
            4 => Poll::Ready(Ok(*r.pick(&[0, u64::MAX, self.to.wrapping_add(1), self.to.wrapping_sub(1)]))),
            _ => Poll::Ready(Ok(self.to)),
        }
    }
}

// ---------------------------------------------------------------------------------------------

enum Thing<D: EntryData + 'static> {
    Builder(Box<Builder<D>>),
    Reader(Pin<Box<Reader<D>>>, u64, u64),
    Stream(Pin<Box<BytesStream<D>>>, u64, u64),
    #[cfg(feature = "full")]
    Body(Pin<Box<actix_web::body::BoxBody>>, u64),
}

/// Bytes an archive takes up, without the end records
fn need(name: &str, data: u64) -> u128 {
    2 * name.len() as u128 + 156 + u128::from(data)
}

fn gen_time(r: &mut Rng) -> SystemTime {
    let d = Duration::new(r.next() >> r.below(64), r.below(1_000_000_000) as u32);
    let b = if r.p(128) { SystemTime::UNIX_EPOCH.checked_add(d) } else { SystemTime::UNIX_EPOCH.checked_sub(d) };
    b.unwrap_or(SystemTime::UNIX_EPOCH)
}

fn wild32(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => *r.pick(&[0, u32::MAX, 1 << 31, (1 << 31) - 1, 0o777, 0o7777, 1 << 16, 1979, 1980, 2107, 2108, 127, 128]),
        1 => r.next() as u32,
        2 => 1980 + r.below(130) as u32,
        _ => r.below(62) as u32,
    }
}

fn setters<D: EntryData>(e: &mut zippity::BuilderEntry<D>, r: &mut Rng) -> u64 {
    let f = (wild32(r) as i32, wild32(r), wild32(r), wild32(r), wild32(r), wild32(r));
    let k = r.below(14);
    match k {
        0 => {
            e.crc32(wild32(r));
        }
        1 => {
            let _ = e.datetime_fields(f.0, f.1, f.2, f.3, f.4, f.5);
        }
        2 => {
            e.datetime_fields_or_default(f.0, f.1, f.2, f.3, f.4, f.5);
        }
        3 => {
            let _ = e.datetime_system(gen_time(r));
        }
        4 => {
            e.datetime_system_or_default(gen_time(r));
        }
        5 => {
            e.file();
        }
        6 => {
            e.directory();
        }
        7 => {
            e.symlink();
        }
        8 => {
            e.unix_permissions(wild32(r));
        }
        9 => {
            e.readonly(r.p(128));
        }
        10 => {
            use std::os::unix::fs::PermissionsExt as _;
            e.permissions(&std::fs::Permissions::from_mode(wild32(r)));
        }
        #[cfg(feature = "full")]
        11 => {
            let d = chrono::TimeDelta::milliseconds(r.next() as i64 >> r.below(64));
            let x = chrono::NaiveDateTime::UNIX_EPOCH.checked_add_signed(d);
            let x = x.unwrap_or(*r.pick(&[chrono::NaiveDateTime::MIN, chrono::NaiveDateTime::MAX]));
            let _ = e.datetime(x);
        }
        #[cfg(feature = "full")]
        12 => {
            let d = chrono::TimeDelta::milliseconds(r.next() as i64 >> r.below(64));
            let x = chrono::NaiveDateTime::UNIX_EPOCH.checked_add_signed(d);
            let x = x.unwrap_or(*r.pick(&[chrono::NaiveDateTime::MIN, chrono::NaiveDateTime::MAX]));
            e.datetime_or_default(x);
        }
        #[cfg(feature = "full")]
        13 => {
            if let Ok(m) = std::fs::symlink_metadata(*r.pick(&["/", "/dev/null", "/etc/passwd", "/proc/self/exe"])) {
                e.metadata(&m);
            }
        }
        _ => {}
    }
    k
}

fn builder_call<D, S>(b: &mut Builder<D>, make: &S, size_of: &impl Fn(&D) -> u64, sizes: &mut std::collections::BTreeMap<String, u64>, r: &mut Rng) -> R<u64>
where
    D: EntryData + Clone + Debug + 'static,
    S: Fn(&mut Rng) -> D,
{
    let k = r.below(16);
    let mut h = k;
    match k {
        0..=8 => {
            let long = r.below(40) == 0 && !cfg!(miri);
            let mut name = gen_name(r, long);
            if r.below(200) == 0 && !cfg!(miri) {
                name = "n".repeat(65_530 + r.usize(12));
            }
            let d = make(r);
            let n = size_of(&d);
            match b.add_entry(name.clone(), d) {
                Ok(e) => {
                    for _ in 0..r.below(4) {
                        h = mix(h, setters(e, r));
                    }
                    h = mix(h, hash_str(&format!("{}", format!("{e:?}").len())));
                    sizes.insert(name, n);
                }
                Err(e) => {
                    h = mix(h, 77);
                    let _ = format!("{e} {e:?}");
                }
            }
        }
        9 => {
            b.system_time_converter(match r.below(4) {
                0 => |_| (i32::MAX, u32::MAX, u32::MAX, u32::MAX, u32::MAX, u32::MAX),
                1 => |_| (i32::MIN, 0, 0, 0, 0, 0),
                2 => |_| (2107, 12, 31, 23, 59, 60),
                _ => |_| (1980, 1, 1, 0, 0, 0),
            });
        }
        #[cfg(feature = "full")]
        10 => {
            if let Some(tz) = chrono::FixedOffset::east_opt(r.range(0, 172_798) as i32 - 86_399) {
                b.system_time_timezone(tz);
            }
        }
        11 => {
            let m = b.get_entries_mut();
            let n = m.len();
            let way = r.below(9);
            h = mix(h, way);
            match way {
                0 => m.retain(|_, _| r.p(128)),
                1 => m.reverse(),
                2 => m.sort_keys(),
                3 if n > 0 => {
                    let (i, j) = (r.usize(n), r.usize(n));
                    m.swap_indices(i, j);
                }
                4 if n > 0 => {
                    let (i, j) = (r.usize(n), r.usize(n));
                    m.move_index(i, j);
                }
                5 if n > 0 => {
                    m.shift_remove_index(r.usize(n));
                }
                6 if n > 0 => {
                    m.swap_remove_index(r.usize(n));
                }
                7 if n > 0 => {
                    // Under another name, as long as that is still an archive
                    let i = r.usize(n);
                    let long = r.below(10) == 0 && !cfg!(miri);
                    let name = gen_name(r, long);
                    let Some((old, _)) = m.get_index(i) else { fail!("HARNESS no entry {i}") };
                    let size = sizes.get(old).copied().unwrap_or(u64::MAX);
                    let rest: u128 = m.keys().map(|k| need(k, sizes.get(k).copied().unwrap_or(u64::MAX))).sum();
                    if rest + need(&name, size) + 98 <= u128::from(u64::MAX)
                        && let Some((_, e)) = m.shift_remove_index(i)
                    {
                        m.insert(name.clone(), e);
                        sizes.insert(name, size);
                    }
                }
                8 if n > 0 && r.p(20) => m.clear(),
                _ => {}
            }
        }
        12 => {
            for e in b.get_entries_mut().values_mut() {
                if r.p(128) {
                    h = mix(h, setters(e, r));
                }
            }
        }
        13 => {
            let m = b.get_entries();
            h = mix(h, m.len() as u64);
            let _ = format!("{:?}", m.get_index(0));
        }
        14 => {
            let _ = format!("{b:?}");
        }
        _ => {
            let s = b.size();
            h = mix(h, s);
            let want: u128 = 98
                + b.get_entries()
                    .keys()
                    .map(|k| need(k, sizes.get(k).copied().unwrap_or(u64::MAX)))
                    .sum::<u128>();
            ensure!(u128::from(s) == want, "size of the builder {s}, its entries need {want}");
        }
    }
    Ok(h)
}

fn gen_offset(size: u64, pos: u64, r: &mut Rng) -> u64 {
    match r.below(9) {
        0 => *r.pick(&[0, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1]),
        1 => size,
        2 => size.saturating_sub(r.below(300)),
        3 => size.saturating_add(r.below(300)),
        4 => r.below(size.max(1)),
        5 => r.next(),
        6 => pos.saturating_add(r.below(400)),
        7 => pos.saturating_sub(r.below(400)),
        _ => r.below(400),
    }
}

fn gen_i64(r: &mut Rng) -> i64 {
    match r.below(5) {
        0 => *r.pick(&[i64::MIN, i64::MAX, i64::MIN + 1, -1, 0, 1]),
        1 => r.next() as i64,
        2 => (r.next() as i64) >> r.below(64),
        _ => r.below(1000) as i64 - 500,
    }
}

#[allow(clippy::too_many_lines)]
fn api<D, S>(ctx: &mut Ctx, make: S, size_of: impl Fn(&D) -> u64) -> R
where
    D: EntryData + Clone + Debug + Unpin + 'static,
    D::Reader: Unpin + 'static,
    D::Future: Unpin + 'static,
    S: Fn(&mut Rng) -> D,
{
    let mut r = ctx.rng.clone();
    let mut shape = 0u64;
    let mut sizes = std::collections::BTreeMap::new();
    let wk = Waker::from(Arc::new(CountWaker(AtomicU64::new(0))));
    let mut b = Builder::<D>::new();
    for _ in 0..r.below(8) {
        shape = mix(shape, builder_call(&mut b, &make, &size_of, &mut sizes, &mut r)?);
    }
    let mut things: Vec<Thing<D>> = vec![Thing::Builder(Box::new(b))];
    let steps = if cfg!(miri) { r.range(5, 25) } else { r.range(5, 60) };
    // What a case may read at most: sources may go on for very long
    let mut budget = if cfg!(miri) { 8000u64 } else { 3_000_000 };
    for _ in 0..steps {
        if things.is_empty() || budget == 0 {
            break;
        }
        let i = r.usize(things.len());
        let mut code = 0u64;
        let t = things.swap_remove(i);
        let back = match t {
            Thing::Builder(mut b) => {
                if r.p(150) {
                    code = builder_call(&mut b, &make, &size_of, &mut sizes, &mut r)?;
                    Some(Thing::Builder(b))
                } else {
                    let s = b.size();
                    let rd = b.build();
                    ensure!(rd.size() == s, "size of the builder {s}, of the reader {}", rd.size());
                    ctx.count("readers", 1);
                    Some(Thing::Reader(Box::pin(rd), 0, s))
                }
            }
            Thing::Reader(mut rd, mut pos, size) => {
                let k = r.below(24);
                code = k;
                let mut gone = None;
                match k {
                    0..=9 => {
                        let n = gen_buf(&mut r, 2 * MAX);
                        let times = if r.p(60) && !cfg!(miri) { 40 } else { 1 + r.below(5) };
                        for _ in 0..times {
                            let pre = r.usize(4);
                            let mut v = Vec::<u8>::new();
                            let mut rb = if r.p(128) {
                                v.resize(n + pre, 0);
                                ReadBuf::new(&mut v)
                            } else {
                                v.reserve_exact(n + pre);
                                ReadBuf::uninit(&mut v.spare_capacity_mut()[..n + pre])
                            };
                            rb.put_slice(&[9u8; 4][..pre]);
                            let mut cx = Context::from_waker(&wk);
                            let res = rd.as_mut().poll_read(&mut cx, &mut rb);
                            let got = rb.filled().len();
                            // Depends on every byte, which lets the sanitizers see uninitialised ones
                            code = mix(code, rb.filled().iter().fold(0u64, |a, b| a.wrapping_mul(3) ^ u64::from(*b)));
                            ensure!(code != 0x1234_5678_9abc_def0, "never");
                            ensure!(got >= pre && rb.filled()[..pre] == [9u8; 4][..pre], "content of the buffer changed");
                            let got = (got - pre) as u64;
                            match res {
                                Poll::Ready(Ok(())) => {
                                    code = mix(code, got + 4);
                                    pos += got;
                                    budget = budget.saturating_sub(got + 100);
                                    ensure!(got == 0 || pos <= size, "read up to {pos}, the size is {size}");
                                    ensure!(got > 0 || n == 0 || pos >= size, "end of file at {pos} of {size}");
                                    ctx.count("bytes_delivered", got);
                                }
                                Poll::Ready(Err(e)) => {
                                    ensure!(got == 0, "data delivered together with an error");
                                    let _ = format!("{e} {e:?}");
                                    code = mix(code, 2);
                                    ctx.count("errors", 1);
                                }
                                Poll::Pending => {
                                    ensure!(got == 0, "data delivered although pending");
                                    code = mix(code, 3);
                                    ctx.count("pendings", 1);
                                }
                            }
                        }
                    }
                    10..=12 => {
                        pos = gen_offset(size, pos, &mut r);
                        if r.p(128) { rd.as_mut().seek_from_start_pinned(pos) } else { rd.as_mut().get_mut().seek_from_start_mut(pos) }
                    }
                    13..=16 => {
                        let from = match r.below(3) {
                            0 => SeekFrom::Start(gen_offset(size, pos, &mut r)),
                            1 => SeekFrom::Current(gen_i64(&mut r)),
                            _ => SeekFrom::End(gen_i64(&mut r)),
                        };
                        let want = match from {
                            SeekFrom::Start(p) => Some(p),
                            SeekFrom::Current(o) => pos.checked_add_signed(o),
                            SeekFrom::End(o) => size.checked_add_signed(o),
                        };
                        match (rd.as_mut().start_seek(from), want) {
                            (Ok(()), Some(p)) => pos = p,
                            (Err(e), None) => {
                                ensure!(e.kind() == ErrorKind::InvalidInput, "{from:?} failed with {:?}", e.kind());
                                code = mix(code, 5);
                            }
                            (res, want) => fail!("{from:?} at {pos} of {size} gave {res:?}, expected {want:?}"),
                        }
                    }
                    17 => {
                        let mut cx = Context::from_waker(&wk);
                        match rd.as_mut().poll_complete(&mut cx) {
                            Poll::Ready(Ok(p)) => ensure!(p == pos, "seek completed at {p} instead of {pos}"),
                            o => fail!("completing a seek gave {o:?}"),
                        }
                    }
                    18 => gone = Some(Thing::Reader(Box::pin(rd.as_ref().get_ref().clone()), pos, size)),
                    19 => {
                        let taken = rd.as_mut().take_pinned();
                        things.push(Thing::Reader(Box::pin(taken), pos, size));
                        ensure!(rd.size() == 98, "{} B left behind by a take", rd.size());
                        things.push(Thing::Reader(rd, 0, 98));
                        shape = mix(shape, code);
                        continue;
                    }
                    20 => {
                        let s = crate::engine::into_stream(*Pin::into_inner(rd));
                        things.push(Thing::Stream(Box::pin(s), pos, size));
                        shape = mix(shape, code);
                        continue;
                    }
                    21 => {
                        let n = rd.crc32s().count() as u64;
                        let _ = format!("{rd:?} {:#?}", rd.crc32s().next());
                        code = mix(code, n);
                    }
                    #[cfg(feature = "full")]
                    22 => {
                        use actix_web::Responder as _;
                        let x = (*Pin::into_inner(rd));
                        let mut q = actix_web::test::TestRequest::default();
                        if r.p(200) {
                            let h = format!("bytes={}-{}", gen_offset(size, pos, &mut r), if r.p(200) { gen_offset(size, pos, &mut r).to_string() } else { String::new() });
                            q = q.append_header(("Range", h));
                        }
                        let q = q.to_http_request();
                        let resp = if r.p(128) {
                            x.into_responder().respond_to(&q)
                        } else {
                            let (resp, rx) = x.into_responder_with_channel();
                            if r.p(128) {
                                drop(rx);
                            }
                            resp.respond_to(&q)
                        };
                        code = mix(code, u64::from(resp.status().as_u16()));
                        let body = resp.into_body();
                        let left = match actix_web::body::MessageBody::size(&body) {
                            actix_web::body::BodySize::Sized(n) => n,
                            _ => 0,
                        };
                        things.push(Thing::Body(Box::pin(body), left));
                        shape = mix(shape, code);
                        continue;
                    }
                    _ => {
                        shape = mix(shape, code);
                        drop(rd);
                        continue;
                    }
                }
                ensure!(rd.tell() == pos, "position {} instead of {pos}", rd.tell());
                ensure!(rd.size() == size, "size {} instead of {size}", rd.size());
                things.extend(gone);
                Some(Thing::Reader(rd, pos, size))
            }
            Thing::Stream(mut s, mut pos, size) => {
                let k = r.below(12);
                code = 100 + k;
                match k {
                    0..=6 => {
                        for _ in 0..1 + r.below(20) {
                            let mut cx = Context::from_waker(&wk);
                            match futures_core::Stream::poll_next(s.as_mut(), &mut cx) {
                                Poll::Pending => code = mix(code, 1),
                                Poll::Ready(Some(Err(e))) => {
                                    let _ = format!("{e:?}");
                                    code = mix(code, 2);
                                }
                                Poll::Ready(Some(Ok(b))) => {
                                    ensure!(!b.is_empty(), "empty block");
                                    pos += b.len() as u64;
                                    budget = budget.saturating_sub(b.len() as u64 + 100);
                                    ensure!(pos <= size, "blocks up to {pos}, the size is {size}");
                                    code = mix(code, b.len() as u64 + 8);
                                    code = mix(code, b.iter().fold(0u64, |a, b| a.wrapping_mul(3) ^ u64::from(*b)));
                                    ensure!(code != 0x1234_5678_9abc_def0, "never");
                                    ctx.count("bytes_delivered", b.len() as u64);
                                }
                                Poll::Ready(None) => {
                                    ensure!(pos >= size, "the stream ended at {pos} of {size}");
                                    code = mix(code, 3);
                                }
                            }
                        }
                        ensure!(s.reader_ref().tell() == pos, "position {} instead of {pos}", s.reader_ref().tell());
                        Some(Thing::Stream(s, pos, size))
                    }
                    7 => {
                        things.push(Thing::Stream(Box::pin(s.as_ref().get_ref().clone()), pos, size));
                        Some(Thing::Stream(s, pos, size))
                    }
                    8 => {
                        pos = gen_offset(size, pos, &mut r);
                        s.as_mut().reader_pin_mut().seek_from_start_pinned(pos);
                        Some(Thing::Stream(s, pos, size))
                    }
                    9 => {
                        let t = s.as_mut().reader_pin_mut().take_pinned();
                        things.push(Thing::Reader(Box::pin(t), pos, size));
                        Some(Thing::Stream(s, 0, 98))
                    }
                    10 => {
                        let rd = (*Pin::into_inner(s)).into_reader();
                        Some(Thing::Reader(Box::pin(rd), pos, size))
                    }
                    _ => None,
                }
            }
            #[cfg(feature = "full")]
            Thing::Body(mut b, mut left) => {
                use actix_web::body::MessageBody as _;
                let mut keep = true;
                for _ in 0..1 + r.below(20) {
                    let mut cx = Context::from_waker(&wk);
                    match b.as_mut().poll_next(&mut cx) {
                        Poll::Pending => code = mix(code, 1),
                        Poll::Ready(Some(Err(e))) => {
                            let _ = format!("{e:?}");
                            keep = false;
                            break;
                        }
                        Poll::Ready(Some(Ok(x))) => {
                            code = mix(code, x.len() as u64 + 8);
                            budget = budget.saturating_sub(x.len() as u64 + 100);
                            ensure!(x.len() as u64 <= left, "the body is longer than announced");
                            left -= x.len() as u64;
                        }
                        Poll::Ready(None) => {
                            ensure!(left == 0, "the body ended {left} B early");
                            keep = false;
                            break;
                        }
                    }
                }
                (keep && r.p(220)).then_some(Thing::Body(b, left))
            }
        };
        shape = mix(shape, code);
        ctx.tr(|| format!("call {i} -> {code:x}, {} things", things.len()));
        if let Some(b) = back
            && things.len() < 6
        {
            things.push(b);
        }
    }
    ctx.sample(|| format!("{steps} calls, shape {shape:x}"));
    ctx.count("calls", steps);
    ctx.nontrivial(mix(shape, ctx.stage.len() as u64));
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn read_all<D: EntryData>(rd: &mut Pin<Box<Reader<D>>>, truth: &[u8], from: u64, n: u64, r: &mut Rng) -> R<u64> {
    let mut cx = Context::from_waker(Waker::noop());
    let mut p = from;
    let mut buf = vec![0u8; 1 + r.usize(5000)];
    let mut polls = 0u64;
    while p < from + n {
        let mut rb = ReadBuf::new(&mut buf);
        polls += 1;
        ensure!(polls < 2_000_000, "no progress at {p}");
        match rd.as_mut().poll_read(&mut cx, &mut rb) {
            Poll::Pending => std::thread::yield_now(),
            Poll::Ready(Err(e)) => fail!("reading at {p}: {e}"),
            Poll::Ready(Ok(())) => {
                let x = rb.filled();
                if x.is_empty() {
                    ensure!(p as usize == truth.len(), "end of file at {p} of {}", truth.len());
                    break;
                }
                ensure!(truth[p as usize..].starts_with(x), "wrong bytes at {p}");
                p += x.len() as u64;
            }
        }
    }
    Ok(p)
}

/// Several threads with clones of readers over shared sources, readers handed from thread to
/// thread in the middle of things, and shared references used at the same time.
fn threads(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let small = cfg!(miri) || cfg!(feature = "slow");
    let acfg = ArchCfg { max_entries: 5, max_data: if small { 300 } else { 30_000 }, long_names: false, ..ArchCfg::default() };
    let specs = gen_specs(&mut r, &acfg);
    let arch = Arch::new(specs)?;
    let n = match ctx.idx % 3 {
        0 => run_threads(&arch, build_with(&arch.specs, |s| bytes::Bytes::from(s.data.as_ref().clone()))?, &mut r)?,
        1 => run_threads(&arch, build_with(&arch.specs, |s| ArcVec(s.data.clone()))?, &mut r)?,
        _ => {
            let mut plan = gen_plan(&mut r);
            plan.self_wake = true;
            if plan.short == crate::src::Short::One {
                plan.short = crate::src::Short::Random;
            }
            let log = Log::new(r.next(), plan);
            run_threads(&arch, build_with(&arch.specs, |s| log.source(s.data.clone(), s.data.len() as u64))?, &mut r)?
        }
    };
    ctx.count("thread_bytes", n);
    ctx.nontrivial(mix(ctx.idx, n));
    Ok(())
}

/// Shared data as a source
#[derive(Clone, Debug)]
struct ArcVec(Arc<Vec<u8>>);
impl AsRef<[u8]> for ArcVec {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}

fn run_threads<D>(arch: &Arch, b: Builder<D>, r: &mut Rng) -> R<u64>
where
    D: EntryData + Clone + Send + Sync + 'static,
    D::Reader: Send + Sync + Unpin,
    D::Future: Send + Sync + Unpin,
{
    let shared = b.build();
    let size = shared.size();
    let total = AtomicU64::new(0);
    let (tx, rx) = std::sync::mpsc::channel::<(Pin<Box<Reader<D>>>, u64)>();
    let rx = Mutex::new(rx);
    let seeds: Vec<u64> = (0..4).map(|_| r.next()).collect();
    let rounds = if cfg!(miri) { 2 } else { 6 };
    let res: Vec<R> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|s| {
                let tx = tx.clone();
                let (shared, rx, total) = (&shared, &rx, &total);
                let seed = *s;
                sc.spawn(move || -> R {
                    let mut r = Rng::new(seed);
                    for _ in 0..rounds {
                        // Shared references
                        ensure!(shared.size() == size && shared.tell() == 0, "the shared reader changed");
                        let known = shared.crc32s().count();
                        ensure!(known <= arch.specs.len(), "{known} checksums");
                        let (mut rd, at) = match rx.lock().unwrap().try_recv() {
                            Ok(x) if r.p(200) => x,
                            _ => {
                                let mut c = Box::pin(shared.clone());
                                let at = r.below(size + 1);
                                c.as_mut().seek_from_start_pinned(at);
                                (c, at)
                            }
                        };
                        let n = if r.p(100) { u64::MAX - size } else { r.below(4000) };
                        let at2 = read_all(&mut rd, &arch.truth, at, n.min(size), &mut r)?;
                        total.fetch_add(at2 - at, Ordering::Relaxed);
                        for (name, crc) in rd.crc32s() {
                            let i = arch.specs.iter().position(|s| s.name == name);
                            ensure!(i.is_some_and(|i| arch.crcs[i] == crc), "wrong checksum in another thread");
                        }
                        if r.p(128) {
                            let _ = tx.send((rd, at2));
                        } else if r.p(128) {
                            let t = rd.as_mut().take_pinned();
                            let _ = tx.send((Box::pin(t), at2));
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|e| {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| (*x).to_string()));
                Err(Fail(format!("a thread panicked: {}", m.unwrap_or_default())))
            }))
            .collect()
    });
    for x in res {
        x?;
    }
    Ok(total.load(Ordering::Relaxed))
}

// ---------------------------------------------------------------------------------------------
// Known findings: inputs which fail for a known reason

struct Endless(Arc<AtomicU64>);

impl AsyncRead for Endless {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>> {
        let n = self.0.fetch_add(1, Ordering::Relaxed);
        if n < 100_000 {
            let n = buf.remaining();
            buf.initialize_unfilled();
            buf.advance(n);
        }
        Poll::Ready(Ok(()))
    }
}
impl AsyncSeek for Endless {
    fn start_seek(self: Pin<&mut Self>, _: SeekFrom) -> Result<()> {
        Ok(())
    }
    fn poll_complete(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<u64>> {
        Poll::Ready(Ok(0))
    }
}
#[derive(Debug)]
struct EndlessData(Arc<AtomicU64>);
impl EntryData for EndlessData {
    type Reader = Endless;
    type Future = std::future::Ready<Result<Endless>>;
    fn get_reader(&self) -> Self::Future {
        std::future::ready(Ok(Endless(self.0.clone())))
    }
    fn size(&self) -> u64 {
        10
    }
}

/// Returns what failed, if it fails.
fn finding(key: &str) -> Option<String> {
    match key {
        "map-long-name" => {
            let mut b = Builder::<&[u8]>::new();
            let _ = b.add_entry("x".into(), &b"data"[..]);
            let m = b.get_entries_mut();
            let (_, e) = m.shift_remove_index(0)?;
            m.insert("n".repeat(65_536), e);
            match catch(|| {
                let mut rd = Box::pin(b.build());
                let mut v = vec![0; 100_000];
                let mut rb = ReadBuf::new(&mut v);
                let mut cx = Context::from_waker(Waker::noop());
                let _ = rd.as_mut().poll_read(&mut cx, &mut rb);
            }) {
                Caught::Ok(()) => None,
                Caught::Panic(l, m) => Some(format!("panic at {l}: {m}")),
            }
        }
        "map-overflow" => {
            #[derive(Debug)]
            struct Huge;
            impl EntryData for Huge {
                type Reader = std::io::Cursor<Vec<u8>>;
                type Future = std::future::Ready<Result<Self::Reader>>;
                fn get_reader(&self) -> Self::Future {
                    std::future::ready(Ok(std::io::Cursor::new(Vec::new())))
                }
                fn size(&self) -> u64 {
                    1 << 63
                }
            }
            let mut b = Builder::<Huge>::new();
            let mut c = Builder::<Huge>::new();
            let _ = b.add_entry("x".into(), Huge);
            let _ = c.add_entry("y".into(), Huge);
            let (n, e) = c.get_entries_mut().shift_remove_index(0)?;
            b.get_entries_mut().insert(n, e);
            match catch(|| b.build().size()) {
                                Caught::Ok(n) => Some(format!("size {n}")),
                Caught::Panic(l, m) => Some(format!("panic at {l}: {m}")),
            }
        }
        "endless-source" => {
            let count = Arc::new(AtomicU64::new(0));
            let mut b = Builder::<EndlessData>::new();
            let _ = b.add_entry("x".into(), EndlessData(count.clone()));
            let mut rd = Box::pin(b.build());
            rd.as_mut().seek_from_start_pinned(30 + 28 + 1 + 10);
            let mut v = vec![0; 1000];
            let mut rb = ReadBuf::new(&mut v);
            let mut cx = Context::from_waker(Waker::noop());
            let _ = rd.as_mut().poll_read(&mut cx, &mut rb);
            let n = count.load(Ordering::Relaxed);
            (n > 50_000).then(|| format!("one call read {n} times from a source which declared 10 B"))
        }
        _ => Some("unknown key".into()),
    }
}

fn findings(run: &mut Runner) {
    if run.only.is_some() || cfg!(miri) {
        return;
    }
    for key in ["map-long-name", "map-overflow", "endless-source"] {
        let listed = KNOWN.lines().any(|l| l.starts_with(&format!("finding: property=C23 key={key} ")));
        if let Some(what) = finding(key) {
            if listed {
                run.findings.push(format!("{key}: {what}"));
            } else {
                run.violations.push(Violation { stage: "findings".into(), idx: 0, msg: format!("{key}: {what}"), trace: Vec::new() });
            }
        }
    }
}
