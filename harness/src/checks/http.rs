//! C20 (responses and ranges) and C21 (hand-back of the reader).
use super::big::{builder, gen_items, load};
use super::wrong::{Decl, Wrong, gen_wrong};
use crate::arch::{Arch, ArchCfg, build_mon, build_with, describe, fingerprint, gen_specs};
use crate::engine::{CountWaker, gen_plan};
use crate::report::{Ctx, Fail, R, Runner};
use crate::rng::{Rng, mix};
use crate::src::{Log, MonSrc, Plan, Short};
use crate::{ensure, fail};
use actix_web::Responder;
use actix_web::body::{BodySize, BoxBody, MessageBody};
use actix_web::http::header::{HeaderMap, HeaderName, HeaderValue};
use actix_web::web;
use std::collections::BTreeMap;
use std::io::{ErrorKind, Read, Write};
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::io::{AsyncRead, ReadBuf};
use tokio::sync::oneshot;
use zippity::Reader;

// ---------------------------------------------------------------------------------------------
// The model of ranges

#[derive(Clone, Debug, PartialEq, Eq)]
enum Want {
    /// No header: everything, 200
    All,
    /// Exactly this slice (inclusive ends)
    Slice(u64, u64),
    /// 416
    Unsatisfiable,
    /// 400
    Malformed,
    /// One of these, or 416 (and 400 if the flag is set)
    OneOf(Vec<(u64, u64)>, bool),
}

/// One range specification by RFC 9110, strictly.
#[derive(Clone, Copy, Debug)]
enum Spec {
    FromTo(u128, Option<u128>),
    Suffix(u128),
}

impl Spec {
    fn text(&self) -> String {
        match *self {
            Spec::FromTo(a, None) => format!("{a}-"),
            Spec::FromTo(a, Some(b)) => format!("{a}-{b}"),
            Spec::Suffix(n) => format!("-{n}"),
        }
    }
    /// The slice it selects
    fn slice(&self, size: u64) -> Option<(u64, u64)> {
        let s = u128::from(size);
        match *self {
            Spec::FromTo(a, b) => {
                let b = b.unwrap_or(s - 1);
                (a < s && a <= b).then(|| (a as u64, b.min(s - 1) as u64))
            }
            Spec::Suffix(0) => None,
            Spec::Suffix(n) => Some(((s - n.min(s)) as u64, size - 1)),
        }
    }
    fn reversed(&self) -> bool {
        matches!(*self, Spec::FromTo(a, Some(b)) if b < a)
    }
    fn huge(&self) -> bool {
        let m = u128::from(u64::MAX);
        match *self {
            Spec::FromTo(a, b) => a > m || b.is_some_and(|b| b > m),
            Spec::Suffix(n) => n > m,
        }
    }
    /// Refused either way
    fn doubtful(&self) -> bool {
        self.reversed() || self.huge() || matches!(self, Spec::Suffix(0))
    }
    fn want(&self, size: u64) -> Want {
        match self.slice(size) {
            // The parser in use refuses a suffix longer than the representation, where the RFC
            // selects all of it
            Some((a, b)) if matches!(self, Spec::Suffix(n) if *n > u128::from(size)) || self.huge() => Want::OneOf(vec![(a, b)], true),
            Some((a, b)) => Want::Slice(a, b),
            None if self.doubtful() => Want::OneOf(Vec::new(), true),
            None => Want::Unsatisfiable,
        }
    }
}

fn gen_spec(arch: &Arch, r: &mut Rng) -> Spec {
    let size = arch.size();
    let point = |r: &mut Rng| -> u128 {
        match r.below(10) {
            0 => u128::from(size),
            1 => u128::from(size - 1),
            2 => u128::from(size) + u128::from(r.below(1000)),
            3 => *r.pick(&[u128::from(u64::MAX), u128::from(u64::MAX) - 1, 1 << 63, (1 << 63) - 1, 1 << 32, u128::from(u64::MAX) + 1, 99_999_999_999_999_999_999_999]),
            4..=7 => u128::from(arch.interesting(r).min(size)),
            _ => u128::from(r.below(size)),
        }
    };
    match r.below(10) {
        // All but a few bytes
        9 if r.p(60) => Spec::Suffix(u128::from(size - r.below(3))),
        9 => Spec::FromTo(u128::from(r.below(3)), Some(u128::from(size - 1 - r.below(3)))),
        0 => Spec::FromTo(point(r), None),
        1 => Spec::Suffix(*r.pick(&[0, 1, 22, 98, 99])),
        2 => Spec::Suffix(u128::from(r.below(size + 2))),
        3 => Spec::FromTo(0, Some(u128::from(size - 1))),
        4 => {
            let a = point(r);
            Spec::FromTo(a, Some(a))
        }
        _ => {
            let (a, b) = (point(r), point(r));
            if r.p(230) { Spec::FromTo(a.min(b), Some(a.max(b))) } else { Spec::FromTo(a, Some(b)) }
        }
    }
}

const MALFORMED: &[&[u8]] = &[
    b"bytes",
    b"bytes=",
    b"bytes=-",
    b"bytes=x-y",
    b"bytes=1",
    b"bytes=--5",
    b"bytes=5--6",
    b"bytes=0x10-0x20",
    b"bytes=1.5-3",
    b"bytes=1e3-",
    b"=0-5",
    b"0-5",
    b"bytes:0-5",
    b"bytes 0-5",
    b"bytes=\xff-5",
    b"\xff\xfe",
    b"bytes=a",
    b"bytes=1-2-3",
    b"bytes=1-2;3-4",
    b"bytes=1_0-20",
    b"bytes=-x",
    b"bytes=5-x",
    b"bytes=0-5,x",
    b"bytes=-1-5",
    b"nonsense",
    b"bytes=0-5\xc3\xa9",
];

/// Syntactically doubtful: what matters is that the answer is consistent.
const GRAY: &[&str] = &[
    "bytes=+1-5", "bytes= 0-5", "bytes=0 - 5", "bytes=0- 5", "bytes=0-5,", "bytes=,0-5", "bytes=0-5 ", "Bytes=0-5", "BYTES=0-5", "bytes =0-5",
    "items=0-5", "none", "bytes=00-05", "bytes=0-5,,6-7", "seconds=1-2", "bytes=0-+5", "bytes=,", "bytes=,,", "bytes=0-0,-1", "bytes=-0", "",
    "bytes=bytes=0-5", "bytes=0-5=",
];

fn gen_header(arch: &Arch, r: &mut Rng) -> (Option<Vec<u8>>, Want) {
    let size = arch.size();
    match r.below(16) {
        0 => (None, Want::All),
        1 => (Some(r.pick(MALFORMED).to_vec()), Want::Malformed),
        2 => {
            // One of everything is acceptable, if it is consistent
            (Some(r.pick(GRAY).as_bytes().to_vec()), Want::OneOf(vec![(0, u64::MAX)], true))
        }
        3 => {
            let n = r.usize(20);
            let mut v: Vec<u8> = b"bytes=".to_vec();
            for _ in 0..n {
                v.push(*r.pick(b"0123456789-, =x"));
            }
            (Some(v), Want::OneOf(vec![(0, u64::MAX)], true))
        }
        4 | 5 => {
            let specs: Vec<Spec> = (0..r.range(2, 5)).map(|_| gen_spec(arch, r)).collect();
            let sep = *r.pick(&[",", ", ", ",  "]);
            let t = specs.iter().map(Spec::text).collect::<Vec<_>>().join(sep);
            let odd = sep.len() > 2 || specs.iter().any(Spec::doubtful);
            (Some(format!("bytes={t}").into_bytes()), Want::OneOf(specs.iter().filter_map(|s| s.slice(size)).collect(), odd))
        }
        6 => {
            // Sets that do not overlap, in order
            let mut p: Vec<u64> = (0..4).map(|_| r.below(size)).collect();
            p.sort_unstable();
            p.dedup();
            let mut v = Vec::new();
            for c in p.chunks_exact(2) {
                v.push((c[0], c[1]));
            }
            if v.is_empty() {
                v.push((0, 0));
            }
            let t = v.iter().map(|(a, b)| format!("{a}-{b}")).collect::<Vec<_>>().join(",");
            let w = if v.len() == 1 { Want::Slice(v[0].0, v[0].1) } else { Want::OneOf(v, false) };
            (Some(format!("bytes={t}").into_bytes()), w)
        }
        _ => {
            let s = gen_spec(arch, r);
            (Some(format!("bytes={}", s.text()).into_bytes()), s.want(size))
        }
    }
}

#[derive(Debug)]
struct Head {
    status: u16,
    headers: BTreeMap<String, Vec<String>>,
}
impl Head {
    fn get(&self, k: &str) -> R<Option<&str>> {
        match self.headers.get(k) {
            None => Ok(None),
            Some(v) if v.len() == 1 => Ok(Some(&v[0])),
            Some(v) => fail!("header {k} given {} times", v.len()),
        }
    }
}

/// Checks status and headers against the model. Returns the slice to be delivered
/// (None: an error response without content of the archive).
fn judge(h: &Head, want: &Want, size: u64, hdr: &str) -> R<Option<(u64, u64)>> {
    match h.status {
        200 | 206 => {}
        400 => {
            ensure!(
                matches!(want, Want::Malformed | Want::OneOf(_, true)),
                "{hdr}: 400, expected {want:?}"
            );
            return Ok(None);
        }
        416 => {
            ensure!(
                matches!(want, Want::Unsatisfiable | Want::OneOf(..)),
                "{hdr}: 416, expected {want:?}"
            );
            let cr = h.get("content-range")?;
            ensure!(cr == Some(&format!("bytes */{size}")), "{hdr}: 416 with Content-Range {cr:?}, the size is {size}");
            return Ok(None);
        }
        s => fail!("{hdr}: status {s}, expected {want:?}"),
    }
    let ct = h.get("content-type")?;
    ensure!(ct == Some("application/zip"), "{hdr}: Content-Type {ct:?}");
    let ar = h.get("accept-ranges")?;
    ensure!(ar == Some("bytes"), "{hdr}: Accept-Ranges {ar:?}");
    let ce = h.get("content-encoding")?;
    ensure!(ce.is_none() || ce == Some("identity"), "{hdr}: Content-Encoding {ce:?}");
    let len: u64 = match h.get("content-length")?.map(str::parse) {
        Some(Ok(n)) => n,
        o => fail!("{hdr}: Content-Length {o:?}"),
    };
    let cr = match h.get("content-range")? {
        None => None,
        Some(t) => {
            let parsed = t.strip_prefix("bytes ").and_then(|t| t.split_once('/')).and_then(|(x, s)| {
                let (a, b) = x.split_once('-')?;
                Some((a.parse::<u64>().ok()?, b.parse::<u64>().ok()?, s.parse::<u64>().ok()?))
            });
            let Some((a, b, s)) = parsed else { fail!("{hdr}: Content-Range {t:?}") };
            ensure!(s == size, "{hdr}: Content-Range {t:?}, the size is {size}");
            ensure!(a <= b && b < size, "{hdr}: Content-Range {t:?} of {size} B");
            ensure!(len == b - a + 1, "{hdr}: Content-Length {len}, Content-Range {t:?}");
            Some((a, b))
        }
    };
    let slice = match cr {
        Some(s) => s,
        None => {
            ensure!(h.status == 200 && len == size, "{hdr}: status {}, {len} of {size} B without Content-Range", h.status);
            (0, size - 1)
        }
    };
    let whole = slice == (0, size - 1);
    ensure!(
        (h.status == 200) == whole,
        "{hdr}: status {} for bytes {}-{} of {size}",
        h.status,
        slice.0,
        slice.1
    );
    match want {
        Want::All => ensure!(whole && cr.is_none(), "{hdr}: {slice:?} of {size} B, Content-Range {cr:?} without a Range header"),
        Want::Slice(a, b) => ensure!(slice == (*a, *b), "{hdr}: bytes {slice:?} instead of {:?}", (a, b)),
        Want::OneOf(v, _) => ensure!(
            v.contains(&slice) || v.contains(&(0, u64::MAX)),
            "{hdr}: bytes {slice:?}, which were not requested ({v:?})"
        ),
        Want::Malformed | Want::Unsatisfiable => fail!("{hdr}: status {}, expected {want:?}", h.status),
    }
    Ok(Some(slice))
}

fn head_of(status: u16, map: &HeaderMap) -> Head {
    let mut headers: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, v) in map {
        headers
            .entry(k.as_str().to_ascii_lowercase())
            .or_default()
            .push(String::from_utf8_lossy(v.as_bytes()).into_owned());
    }
    Head { status, headers }
}

fn request(hdr: Option<&[u8]>, r: &mut Rng) -> Option<actix_web::HttpRequest> {
    let mut q = actix_web::test::TestRequest::default();
    if r.p(30) {
        q = q.method(actix_web::http::Method::POST);
    }
    if let Some(h) = hdr {
        let v = HeaderValue::from_bytes(h).ok()?;
        q = q.append_header((HeaderName::from_static("range"), v));
    }
    Some(q.to_http_request())
}

struct Driver {
    log: Log,
    counter: Arc<CountWaker>,
    wk: Waker,
    polls: u64,
    pendings: u64,
    shape: u64,
}

enum Out {
    Pending,
    Data(Vec<u8>),
    End,
    Err(Box<dyn std::error::Error>),
}

impl Driver {
    fn new(log: Log) -> Driver {
        let counter = Arc::new(CountWaker(AtomicU64::new(0)));
        Driver { log, wk: Waker::from(counter.clone()), counter, polls: 0, pendings: 0, shape: 0 }
    }

    /// Polls the body once, with the monitors of wake-ups and source errors.
    fn poll(&mut self, body: &mut Pin<Box<BoxBody>>, mismatch: bool) -> R<Out> {
        self.log.begin(0);
        let mut cx = Context::from_waker(&self.wk);
        self.polls += 1;
        let res = body.as_mut().poll_next(&mut cx);
        let l = self.log.lock();
        let (pend, errs) = (l.pending_in_call, l.errors_in_call.clone());
        let mine = l.wakers_in_call.iter().any(|w| w.will_wake(&self.wk));
        drop(l);
        if let Some(v) = self.log.take_violation() {
            fail!("{v}");
        }
        Ok(match res {
            Poll::Pending => {
                ensure!(pend > 0 && mine, "the body is pending, but no source holds its waker");
                ensure!(errs.is_empty(), "source error swallowed by a pending body");
                self.pendings += 1;
                self.shape = mix(self.shape, 1);
                Out::Pending
            }
            Poll::Ready(None) => {
                ensure!(errs.is_empty(), "a source failed, the body just ended");
                self.shape = mix(self.shape, 2);
                Out::End
            }
            Poll::Ready(Some(Ok(b))) => {
                ensure!(errs.is_empty(), "a source failed ({:?}), the body went on", errs[0]);
                self.shape = mix(self.shape, 16 + b.len() as u64);
                Out::Data(b.to_vec())
            }
            Poll::Ready(Some(Err(e))) => {
                self.shape = mix(self.shape, 3);
                if !(mismatch && errs.is_empty()) {
                    ensure!(!errs.is_empty(), "the body failed ({e}), although no source failed");
                    let kind = e.downcast_ref::<std::io::Error>().map(std::io::Error::kind);
                    if let Some(k) = kind {
                        ensure!(errs.contains(&k), "the body failed with {k:?}, the source with {:?}", errs[0]);
                    }
                }
                Out::Err(e)
            }
        })
    }

    fn wait(&mut self) -> R {
        if self.log.lock().plan.self_wake {
            ensure!(self.counter.0.swap(0, Ordering::SeqCst) > 0, "pending without a wake-up");
            return Ok(());
        }
        for _ in 0..1000 {
            if self.counter.0.swap(0, Ordering::SeqCst) > 0 {
                return Ok(());
            }
            self.log.tick();
        }
        fail!("the body's task was never woken (lost wake-up)")
    }
}

fn sane_plan(r: &mut Rng, total: u64) -> Plan {
    let mut p = gen_plan(r);
    if p.short == Short::One && total > 10_000 {
        p.short = Short::Max(600);
    }
    p
}

pub fn c20(run: &mut Runner) {
    run.rule = "A case sends several requests to the real responder: no Range header, ranges with ends at structure boundaries, at and past the size and at the limits of the integers, suffixes, sets, malformed and doubtful values, random text. Status, headers, announced body size and the polled body (pending, short sources) are compared with an independent model of RFC 9110 ranges and the reference archive (stage direct; stage grid: all ranges of a small archive; stage huge: archives of up to 2^64-1 bytes); stage loopback does the same through a real server and sockets, including HEAD, keep-alive and concurrent connections. Non-trivial: distinct (archive, header value, poll results).".into();
    run.assumptions.push("Accepted as the refusal of a legal request: 416 for sets of ranges and for suffixes longer than the archive (which the range parser in use refuses), 400 or 416 for reversed ranges, empty suffixes and numbers above 2^64-1, 400 for more than one space after a comma.".into());
    run.stage("direct", run.n(15_000, 400_000), direct);
    run.stage("grid", run.n(60, 600), grid);
    run.stage("huge", run.n(600, 15_000), huge);
    run.stage("loopback", run.nf(60, 1000), |ctx| loopback(ctx, false));
}

/// Archives far beyond 4 GiB: ranges anywhere, bodies as far as is practical.
fn huge(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let full = r.p(100);
    let big = load(gen_items(&mut r, full)?, 64)?;
    let size = big.size;
    for _ in 0..6 {
        let a = big.interesting(&mut r).min(size - 1);
        let b = match r.below(5) {
            0 => big.interesting(&mut r),
            1 => size - 1,
            2 => a,
            _ => a.saturating_add(r.below(30_000)),
        };
        let spec = match r.below(12) {
            0 => Spec::FromTo(u128::from(a), None),
            1 => Spec::Suffix(u128::from(size - a)),
            2 => Spec::FromTo(u128::from(size) + u128::from(r.below(1000)), None),
            _ => Spec::FromTo(u128::from(a.min(b)), Some(u128::from(a.max(b)))),
        };
        let (hdr, want) = if r.p(20) { (None, Want::All) } else { (Some(format!("bytes={}", spec.text())), spec.want(size)) };
        let shown = hdr.clone().unwrap_or_else(|| "no Range".to_string());
        let Some(req) = request(hdr.as_deref().map(str::as_bytes), &mut r) else { fail!("HARNESS header {shown}") };
        let log = Log::new(r.next(), sane_plan(&mut r, size));
        let resp = builder(&big.items, &log)?.build().into_responder().respond_to(&req);
        let head = head_of(resp.status().as_u16(), resp.headers());
        ctx.tr(|| format!("{shown} of {size} -> {head:?}"));
        let Some((a, b)) = judge(&head, &want, size, &shown)? else { continue };
        let body = resp.into_body();
        // The archive may have 2^64-1 bytes, so the length of a slice always fits
        ensure!(body.size() == BodySize::Sized(b - a + 1), "{shown}: the body announces {:?}, expected {}", body.size(), b - a + 1);
        let mut d = Driver::new(log);
        let mut body = Box::pin(body);
        let mut pos = a;
        let stop = r.range(1, 40_000);
        loop {
            match d.poll(&mut body, false)? {
                Out::Pending => d.wait()?,
                Out::Data(x) => {
                    ensure!(!x.is_empty(), "{shown}: an empty chunk");
                    ensure!(x.len() as u64 - 1 <= b - pos, "{shown}: data beyond the announced slice");
                    ensure!(big.expect(pos, x.len())? == x[..], "{shown}: wrong bytes at {pos}");
                    ctx.count("bytes_checked", x.len() as u64);
                    let Some(p) = pos.checked_add(x.len() as u64) else { fail!("HARNESS position") };
                    pos = p;
                    if pos - a >= stop {
                        break;
                    }
                }
                Out::End => {
                    ensure!(pos == b + 1, "{shown}: the body ended at {pos}, announced up to {b}");
                    break;
                }
                Out::Err(e) => fail!("{shown}: the body failed: {e}"),
            }
        }
        ctx.count("huge_bodies", 1);
        if b - a >= 1 << 32 {
            ctx.count("slices_beyond_4GiB", 1);
        }
        ctx.nontrivial(mix(mix(size, a), mix(b, d.shape)));
    }
    Ok(())
}

fn direct(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let acfg = ArchCfg { max_data: if ctx.idx % 40 == 39 { 2_000_000 } else { 20_000 }, ..ArchCfg::default() };
    let specs = gen_specs(&mut r, &acfg);
    let fp = fingerprint(&specs);
    let arch = Arch::new(specs)?;
    for _ in 0..4 {
        let (hdr, want) = gen_header(&arch, &mut r);
        one(&arch, hdr, &want, fp, &mut r, ctx)?;
    }
    Ok(())
}

fn one(arch: &Arch, hdr: Option<Vec<u8>>, want: &Want, fp: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    let shown = hdr.as_ref().map_or("no Range".to_string(), |h| format!("Range {:?}", String::from_utf8_lossy(h)));
    let Some(req) = request(hdr.as_deref(), r) else { return Ok(()) };
    let plan = sane_plan(r, arch.size());
    let log = Log::new(r.next(), plan);
    let mut reader = build_mon(&arch.specs, &log)?.build();
    if r.p(60) {
        // Where the reader was before does not matter
        reader.seek_from_start_mut(r.below(arch.size() + 10));
    }
    reader = used(reader, &log, arch.size(), r);
    log.begin(0);
    let before = log.lock().ops;
    let resp = if r.p(128) { reader.into_responder().respond_to(&req) } else { reader.into_responder_with_channel().0.respond_to(&req) };
    let ops = log.lock().ops;
    ensure!(ops == before, "{shown}: responding accessed the sources before the body was asked for");
    let head = head_of(resp.status().as_u16(), resp.headers());
    ctx.tr(|| format!("{shown} -> {head:?}"));
    let slice = judge(&head, want, arch.size(), &shown)?;
    let body = resp.into_body();
    match slice {
        None => {
            ensure!(matches!(body.size(), BodySize::None | BodySize::Sized(0)), "{shown}: an error with content");
            ctx.count("refused", 1);
        }
        Some((a, b)) => {
            let announced = body.size();
            ensure!(announced == BodySize::Sized(b - a + 1), "{shown}: the body announces {announced:?}, expected {}", b - a + 1);
            let mut d = Driver::new(log);
            let mut body = Box::pin(body);
            let mut pos = a;
            let mut stuck = 0u64;
            loop {
                match d.poll(&mut body, false)? {
                    Out::Pending => {
                        stuck += 1;
                        ensure!(stuck < 1_000_000, "{shown}: no progress");
                        if r.p(230) {
                            d.wait()?;
                        }
                    }
                    Out::Data(x) => {
                        stuck = 0;
                        let end = pos + x.len() as u64;
                        ensure!(end <= b + 1, "{shown}: {} B beyond the announced slice", end - b - 1);
                        ensure!(arch.truth[pos as usize..end as usize] == x[..], "{shown}: wrong bytes between {pos} and {end}");
                        pos = end;
                        ensure!(!x.is_empty() || stuck < 1000, "{shown}: empty chunks");
                    }
                    Out::End => break,
                    Out::Err(e) => fail!("{shown}: the body failed: {e}"),
                }
            }
            ensure!(pos == b + 1, "{shown}: the body ended at {pos}, announced up to {b}");
            for _ in 0..2 {
                ensure!(matches!(d.poll(&mut body, false)?, Out::End), "{shown}: something after the end of the body");
            }
            ctx.count("bodies", 1);
            ctx.count("bytes_checked", b - a + 1);
            ctx.count("pending_polls", d.pendings);
            ctx.nontrivial(mix(mix(fp, d.shape), crate::rng::hash_str(&shown)));
        }
    }
    ctx.sample(|| format!("{shown} -> {} {:?}", head.status, slice));
    Ok(())
}

/// All ranges of the smallest archives.
fn grid(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let n = ctx.idx % 3;
    let acfg = ArchCfg { max_entries: n, max_data: 9, long_names: false, meta: false, ..ArchCfg::default() };
    let mut specs = gen_specs(&mut r, &acfg);
    for (i, s) in specs.iter_mut().enumerate() {
        s.name = format!("{i}");
    }
    let arch = Arch::new(specs)?;
    let size = arch.size();
    let fp = fingerprint(&arch.specs);
    let (from, step) = if size > 100 { (r.below(37), 37) } else { (ctx.idx % 2, 2) };
    for a in (0..size + 2).skip(from as usize).step_by(step as usize) {
        for k in 0..30u64 {
            let b = match k {
                0 => None,
                1 => Some(a),
                2 => Some(size - 1),
                3 => Some(size),
                4 => Some(size + 1),
                5 => Some(u64::MAX),
                6 => Some(size - 2),
                _ => Some(a + r.below(size)),
            };
            let s = Spec::FromTo(u128::from(a), b.map(u128::from));
            let w = s.want(size);
            one(&arch, Some(format!("bytes={}", s.text()).into_bytes()), &w, fp, &mut r, ctx)?;
        }
        let s = Spec::Suffix(u128::from(a));
        let w = s.want(size);
        one(&arch, Some(format!("bytes={}", s.text()).into_bytes()), &w, fp, &mut r, ctx)?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub fn c21(run: &mut Runner) {
    run.rule = "A case ends a response with a hand-back channel in one of many ways: responder dropped unused, refused range, response dropped before, during (after any number of polls, also pending ones) or after its body, source failures in between, wrongly declared sources, receiver dropped or waiting, readers used (read, failed, sought past the end, in the middle of a pending operation) before they became responders. Monitors: nothing in the channel before, exactly one reader afterwards; its size, checksums (all that were learnt) and complete content; no source left open; body bytes a prefix of the announced slice; errors of sources and wrong declarations are body errors. Stage huge: archives of up to 2^64-1 bytes. Stage every_poll aborts after each number of polls; stage loopback closes real connections. Non-trivial: distinct (archive, range, poll results).".into();
    run.stage("endings", run.n(12_000, 300_000), endings);
    run.stage("every_poll", run.n(250, 5000), every_poll);
    run.stage("wrong", run.n(6000, 150_000), wrong);
    run.stage("huge", run.n(600, 15_000), huge_back);
    run.stage("loopback", run.nf(60, 1000), |ctx| loopback(ctx, true));
}

/// Checks the reader that came back.
fn returned(arch: &Arch, log: &Log, rx: &mut oneshot::Receiver<Reader<MonSrc>>, delivered: Option<(u64, u64)>, preset_ok: bool, r: &mut Rng) -> R {
    let rd = match rx.try_recv() {
        Ok(rd) => rd,
        Err(e) => fail!("the receiver got no reader back ({e})"),
    };
    ensure!(rx.try_recv().is_err(), "a second reader came back");
    ensure!(rd.size() == arch.size(), "the reader that came back has {} B, the original {}", rd.size(), arch.size());
    {
        let l = log.lock();
        ensure!(l.live.is_empty(), "a source is still open after the hand-back");
        ensure!(l.waiting() == 0, "a source operation is still waiting after the hand-back");
    }
    let known: BTreeMap<String, u32> = rd.crc32s().map(|(n, c)| (n.to_string(), c)).collect();
    for (i, s) in arch.specs.iter().enumerate() {
        let k = known.get(&s.name);
        if preset_ok {
            ensure!(k.is_none_or(|k| *k == arch.crcs[i]), "wrong checksum of entry {i} came back");
            ensure!(!s.preset || k.is_some(), "the supplied checksum of entry {i} did not come back");
        }
        if let Some((a, b)) = delivered {
            let e = &arch.parsed.entries[i];
            let hit = |x: (u64, u64)| a < b && a < x.1 && b > x.0;
            let record = hit((e.desc_off + 4, e.desc_off + 8)) || hit((e.cd_off + 16, e.cd_off + 20));
            // All the data and a byte of what follows
            let complete = a < b && a <= e.data_off && b > e.desc_off;
            if arch.exact && (record || complete) {
                ensure!(k.is_some(), "bytes {a}..{b} were delivered, but the checksum of entry {i} did not come back");
            }
        }
    }
    if !preset_ok {
        return Ok(());
    }
    // Still works
    {
        let mut l = log.lock();
        l.plan.fault = [0; 4];
        l.plan.fault_at.clear();
        l.plan.fail_from = None;
        l.handle = 1;
    }
    let mut rd = Box::pin(rd);
    let from = if r.p(128) { 0 } else { r.below(arch.size() + 1) };
    rd.as_mut().seek_from_start_pinned(from);
    let mut cx = Context::from_waker(Waker::noop());
    let mut buf = vec![0u8; 3000];
    let mut p = from;
    let mut pend = 0;
    loop {
        let mut rb = ReadBuf::new(&mut buf);
        match rd.as_mut().poll_read(&mut cx, &mut rb) {
            Poll::Pending => {
                log.tick();
                pend += 1;
                ensure!(pend < 1_000_000, "no progress with the reader that came back");
                continue;
            }
            Poll::Ready(Err(e)) => fail!("the reader that came back failed at {p}: {e}"),
            Poll::Ready(Ok(())) => {}
        }
        let x = rb.filled();
        if x.is_empty() {
            break;
        }
        let end = p + x.len() as u64;
        ensure!(end <= arch.size() && arch.truth[p as usize..end as usize] == *x, "the reader that came back delivered wrong bytes at {p}");
        p = end;
    }
    ensure!(p == arch.size(), "the reader that came back ended at {p} of {}", arch.size());
    Ok(())
}

/// A reader which has been used in some way before it became a responder.
fn used(reader: Reader<MonSrc>, log: &Log, size: u64, r: &mut Rng) -> Reader<MonSrc> {
    if !r.p(100) {
        return reader;
    }
    let mut rd = Box::pin(reader);
    let mut cx = Context::from_waker(Waker::noop());
    let mut buf = vec![0u8; 5000];
    for _ in 0..r.range(1, 3) {
        if r.p(180) {
            let to = match r.below(6) {
                0 => size,
                1 => size.saturating_add(r.below(100)),
                2 => u64::MAX - r.below(3),
                _ => r.below(size),
            };
            rd.as_mut().seek_from_start_pinned(to);
        }
        for _ in 0..r.below(12) {
            log.begin(0);
            let n = 1 + r.usize(buf.len() - 1);
            match rd.as_mut().poll_read(&mut cx, &mut ReadBuf::new(&mut buf[..n])) {
                Poll::Pending if r.p(230) => log.tick(),
                _ => {}
            }
        }
    }
    *Pin::into_inner(rd)
}

/// Readers of archives beyond 4 GiB come back as well.
fn huge_back(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let full = r.p(100);
    let big = load(gen_items(&mut r, full)?, 64)?;
    let size = big.size;
    for _ in 0..4 {
        let log = Log::new(r.next(), sane_plan(&mut r, size));
        let reader = builder(&big.items, &log)?.build();
        let supplied: BTreeMap<String, u32> = reader.crc32s().map(|(n, c)| (n.to_string(), c)).collect();
        let mut reader = reader;
        if r.p(100) {
            reader.seek_from_start_mut(*r.pick(&[size - 1, size, size.saturating_add(1), u64::MAX, size / 2]));
        }
        let (responder, mut rx) = reader.into_responder_with_channel();
        ensure!(rx.try_recv().is_err(), "a reader came back before anything happened");
        let a = big.interesting(&mut r).min(size - 1);
        let hdr = match r.below(4) {
            0 => None,
            1 => Some(format!("bytes={a}-")),
            2 => Some(format!("bytes={a}-{}", a.saturating_add(r.below(10_000)))),
            _ => Some(format!("bytes={}-", size)),
        };
        let Some(req) = request(hdr.as_deref().map(str::as_bytes), &mut r) else { fail!("HARNESS header {hdr:?}") };
        let mut shape = 0;
        if r.p(40) {
            drop(responder);
        } else {
            let resp = responder.respond_to(&req);
            if resp.status().as_u16() >= 400 || r.p(30) {
                drop(resp);
            } else {
                let mut d = Driver::new(log.clone());
                let mut body = Box::pin(resp.into_body());
                for _ in 0..*r.pick(&[0u64, 1, 2, 5, 30]) {
                    match d.poll(&mut body, false)? {
                        Out::Pending => d.wait()?,
                        Out::Data(_) => {}
                        Out::End => break,
                        Out::Err(e) => fail!("the body failed: {e}"),
                    }
                }
                ensure!(rx.try_recv().is_err(), "a reader came back although the body is still there");
                shape = d.shape;
            }
        }
        let rd = match rx.try_recv() {
            Ok(rd) => rd,
            Err(e) => fail!("{hdr:?} of {size}: the receiver got no reader back ({e})"),
        };
        ensure!(rd.size() == size, "the reader that came back has {} B, the original {size}", rd.size());
        ensure!(log.lock().live.is_empty(), "a source is still open after the hand-back");
        let known: BTreeMap<String, u32> = rd.crc32s().map(|(n, c)| (n.to_string(), c)).collect();
        for (n, c) in &supplied {
            ensure!(known.get(n) == Some(c), "the supplied checksum of {n:?} did not come back");
        }
        let mut rd = Box::pin(rd);
        let mut cx = Context::from_waker(Waker::noop());
        let mut buf = vec![0u8; 4000];
        for _ in 0..3 {
            let from = big.interesting(&mut r).min(size);
            // Only what needs no checksum of an enormous entry
            rd.as_mut().seek_from_start_pinned(from);
            let mut p = from;
            for _ in 0..4 {
                log.begin(1);
                let mut rb = ReadBuf::new(&mut buf);
                match rd.as_mut().poll_read(&mut cx, &mut rb) {
                    Poll::Pending => {
                        log.tick();
                        continue;
                    }
                    Poll::Ready(Err(e)) => fail!("the reader that came back failed at {p}: {e}"),
                    Poll::Ready(Ok(())) => {}
                }
                let x = rb.filled();
                ensure!(!x.is_empty() || p >= size, "the reader that came back ended at {p} of {size}");
                ensure!(x.is_empty() || big.expect(p, x.len())? == *x, "the reader that came back delivered wrong bytes at {p}");
                p += x.len() as u64;
            }
        }
        ctx.count("huge_readers_returned", 1);
        ctx.nontrivial(mix(mix(size, a), shape));
    }
    Ok(())
}

fn endings(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let acfg = ArchCfg { max_data: if ctx.idx % 40 == 39 { 2_000_000 } else { 9000 }, ..ArchCfg::default() };
    let specs = gen_specs(&mut r, &acfg);
    ctx.sample(|| describe(&specs));
    let fp = fingerprint(&specs);
    let arch = Arch::new(specs)?;
    for _ in 0..3 {
        let mut plan = sane_plan(&mut r, arch.size());
        if r.p(100) {
            plan.fault = *r.pick(&[[10, 10, 20, 20], [60, 5, 60, 60], [0, 3, 0, 0]]);
            plan.fault_kind = *r.pick(&[ErrorKind::BrokenPipe, ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::UnexpectedEof, ErrorKind::Other]);
        }
        let faulty = plan.fault != [0; 4];
        let log = Log::new(r.next(), plan);
        let reader = used(build_mon(&arch.specs, &log)?.build(), &log, arch.size(), &mut r);
        let (hdr, _) = gen_header(&arch, &mut r);
        let (responder, mut rx) = reader.into_responder_with_channel();
        ensure!(rx.try_recv().is_err(), "a reader came back before anything happened");
        let how = r.below(10);
        if how == 0 {
            ctx.tr(|| "responder dropped".into());
            drop(responder);
            returned(&arch, &log, &mut rx, None, true, &mut r)?;
            ctx.count("responders_dropped", 1);
            continue;
        }
        let Some(req) = request(hdr.as_deref(), &mut r) else { continue };
        let resp = responder.respond_to(&req);
        let head = head_of(resp.status().as_u16(), resp.headers());
        ctx.tr(|| format!("{:?} -> {}", hdr.as_ref().map(|h| String::from_utf8_lossy(h).into_owned()), head.status));
        if head.status >= 400 {
            // It may come back with the refusal or when that is gone
            drop(resp);
            returned(&arch, &log, &mut rx, None, true, &mut r)?;
            ctx.count("refused", 1);
            continue;
        }
        ensure!(rx.try_recv().is_err(), "a reader came back although the response still needs it");
        if how == 1 {
            ctx.tr(|| "response dropped".into());
            drop(resp);
            returned(&arch, &log, &mut rx, None, true, &mut r)?;
            ctx.count("responses_dropped", 1);
            continue;
        }
        let (a, b) = match judge(&head, &Want::OneOf(vec![(0, u64::MAX)], true), arch.size(), "request")? {
            Some(x) => x,
            None => continue,
        };
        let mut d = Driver::new(log.clone());
        let mut body = Box::pin(resp.into_body());
        let mut pos = a;
        let limit = match how {
            2 => 0,
            3 | 4 => r.below(6),
            5 | 6 => r.below(60),
            _ => u64::MAX,
        };
        if how == 9 {
            // Nobody waits for the reader
            drop(std::mem::replace(&mut rx, oneshot::channel().1));
        }
        let mut polls = 0;
        let mut errors = 0;
        let mut ended = false;
        while polls < limit {
            polls += 1;
            match d.poll(&mut body, false)? {
                Out::Pending => {
                    if polls < limit {
                        d.wait()?;
                    }
                }
                Out::Data(x) => {
                    let end = pos + x.len() as u64;
                    ensure!(end <= b + 1 && arch.truth[pos as usize..end as usize] == x[..], "wrong bytes in the body at {pos}");
                    pos = end;
                }
                Out::End => {
                    ensure!(pos == b + 1, "the body ended at {pos}, announced up to {b}");
                    ended = true;
                    break;
                }
                Out::Err(e) => {
                    ensure!(faulty, "the body failed: {e}");
                    errors += 1;
                    // As servers do: a body is not polled again after an error
                    break;
                }
            }
            if how != 9 {
                ensure!(rx.try_recv().is_err(), "a reader came back although the body is still there");
            }
        }
        ctx.tr(|| format!("body dropped after {polls} polls at {pos} of {a}-{b}, {errors} errors"));
        drop(body);
        if how != 9 {
            returned(&arch, &log, &mut rx, Some((a, pos)), true, &mut r)?;
            ctx.count("readers_returned", 1);
        } else {
            ensure!(log.lock().live.is_empty(), "a source is still open after the response was dropped");
        }
        if ended {
            ctx.count("complete_bodies", 1);
        } else {
            ctx.count("aborted_bodies", 1);
        }
        ctx.count("body_errors", errors);
        ctx.nontrivial(mix(mix(fp, d.shape), mix(a, b)));
    }
    Ok(())
}

fn every_poll(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let acfg = ArchCfg { max_data: 100, max_entries: 4, long_names: false, ..ArchCfg::default() };
    let specs = gen_specs(&mut r, &acfg);
    let fp = fingerprint(&specs);
    let arch = Arch::new(specs)?;
    let size = arch.size();
    let (hdr, a, b) = if r.p(128) {
        (None, 0, size - 1)
    } else {
        let (x, y) = (arch.interesting(&mut r).min(size - 1), arch.interesting(&mut r).min(size - 1));
        (Some(format!("bytes={}-{}", x.min(y), x.max(y)).into_bytes()), x.min(y), x.max(y))
    };
    let plan = gen_plan(&mut r);
    let seed = r.next();
    for k in 0..3000u64 {
        let mut plan = plan.clone();
        if ctx.idx % 3 == 0 {
            // The next source operation fails
            plan.fail_from = Some(k / 2);
        }
        let log = Log::new(seed, plan);
        let (responder, mut rx) = build_mon(&arch.specs, &log)?.build().into_responder_with_channel();
        let Some(req) = request(hdr.as_deref(), &mut r) else { return Ok(()) };
        let resp = responder.respond_to(&req);
        let mut d = Driver::new(log.clone());
        let mut body = Box::pin(resp.into_body());
        let mut pos = a;
        let mut finished = false;
        for _ in 0..k {
            match d.poll(&mut body, false)? {
                Out::Pending => d.wait()?,
                Out::Data(x) => {
                    let end = pos + x.len() as u64;
                    ensure!(end <= b + 1 && arch.truth[pos as usize..end as usize] == x[..], "wrong bytes in the body at {pos}");
                    pos = end;
                }
                Out::End => {
                    ensure!(pos == b + 1, "the body ended at {pos}, announced up to {b}");
                    finished = true;
                    break;
                }
                Out::Err(_) => break,
            }
        }
        ensure!(rx.try_recv().is_err(), "a reader came back although the body is still there");
        drop(body);
        returned(&arch, &log, &mut rx, Some((a, pos)), true, &mut r)?;
        ctx.count("abort_points", 1);
        ctx.nontrivial(mix(mix(fp, k), d.shape));
        if finished || k > 400 {
            break;
        }
    }
    Ok(())
}

/// Sources which do not deliver what they declared.
fn wrong(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let acfg = ArchCfg { max_entries: 5, max_data: if ctx.idx % 40 == 39 { 2_000_000 } else { 12_000 }, long_names: false, preset: 60, ..ArchCfg::default() };
    let Wrong { arch, decls, log, reader } = gen_wrong(&mut r, &acfg, None)?;
    let size = arch.size();
    let bad: Vec<usize> = decls.iter().enumerate().filter(|(_, d)| Decl::bad(d)).map(|(i, _)| i).collect();
    let (hdr, a, b) = if r.p(128) || bad.is_empty() {
        (None, 0, size - 1)
    } else {
        let e = &arch.parsed.entries[*r.pick(&bad)];
        let a = match r.below(4) {
            0 => e.data_off,
            1 => e.local_off,
            2 => r.below(e.data_off + 1),
            _ => arch.interesting(&mut r).min(size - 1),
        };
        let b = match r.below(4) {
            0 => e.desc_off,
            1 => e.desc_off.saturating_sub(1),
            2 => e.desc_end,
            _ => arch.interesting(&mut r),
        }
        .clamp(a, size - 1);
        (Some(format!("bytes={a}-{b}").into_bytes()), a, b)
    };
    let (responder, mut rx) = reader.into_responder_with_channel();
    let Some(req) = request(hdr.as_deref(), &mut r) else { return Ok(()) };
    let resp = responder.respond_to(&req);
    let head = head_of(resp.status().as_u16(), resp.headers());
    let want = if hdr.is_some() { Want::Slice(a, b) } else { Want::All };
    judge(&head, &want, size, "request")?;
    // The first wrong entry whose data are requested from the start, and of what follows a byte
    let first = bad.iter().copied().find(|i| {
        let e = &arch.parsed.entries[*i];
        a <= e.data_off && b >= e.desc_off
    });
    // A position from which on delivered bytes are not determined by the declarations
    let known_to = bad.iter().copied().map(|i| &arch.parsed.entries[i]).filter(|e| e.desc_off > a && e.data_off < a).map(|e| e.data_off).min();
    let mut d = Driver::new(log.clone());
    let mut body = Box::pin(resp.into_body());
    let mut pos = a;
    let mut errors = 0;
    let mut stuck = 0u64;
    loop {
        match d.poll(&mut body, true)? {
            Out::Pending => {
                stuck += 1;
                ensure!(stuck < 1_000_000, "no progress");
                d.wait()?;
            }
            Out::Data(x) => {
                stuck = 0;
                let end = pos + x.len() as u64;
                ensure!(end <= b + 1, "more than the announced slice delivered");
                if let Some(i) = first {
                    let e = &arch.parsed.entries[i];
                    ensure!(end <= e.desc_off, "the body goes on after the wrong entry {i} (data end at {}, now at {end})", e.desc_off);
                }
                // Compare where every source involved is right (a checksum only matters in records)
                let comparable = known_to.is_none()
                    && !bad.iter().any(|i| {
                        let e = &arch.parsed.entries[*i];
                        let crc_fields = [(e.desc_off, e.desc_end), (e.cd_off, e.cd_end)];
                        crc_fields.iter().any(|f| pos < f.1 && end > f.0)
                            || (decls[*i].size_wrong() && pos < e.desc_off && end > e.data_off + (decls[*i].actual.len() as u64).min(decls[*i].declared))
                    });
                if comparable {
                    ensure!(arch.truth[pos as usize..end as usize] == x[..], "wrong bytes in the body between {pos} and {end}");
                }
                pos = end;
            }
            Out::End => {
                ensure!(pos == b + 1, "the body ended at {pos}, announced up to {b}");
                ensure!(first.is_none(), "a complete body although entry {} is wrong", first.unwrap_or(0));
                break;
            }
            Out::Err(_) => {
                ensure!(!bad.is_empty(), "the body failed without a wrong source");
                errors += 1;
                break;
            }
        }
    }
    if let Some(i) = first {
        ensure!(errors > 0, "entry {i} is wrong and no error was reported");
    }
    drop(body);
    returned(&arch, &log, &mut rx, None, false, &mut r)?;
    ctx.count("wrong_entries", bad.len() as u64);
    ctx.count("body_errors", errors);
    if !bad.is_empty() {
        ctx.nontrivial(mix(mix(fingerprint(&arch.specs), d.shape), mix(a, b)));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// A real server

type Back = Arc<Mutex<Vec<oneshot::Receiver<Reader<MonSrc>>>>>;

#[derive(Clone)]
struct State {
    arch: Arc<Arch>,
    plan: Plan,
    seed: Arc<AtomicU64>,
    back: Back,
    logs: Arc<Mutex<Vec<Log>>>,
    channel: bool,
}

async fn serve(st: web::Data<State>) -> actix_web::Either<zippity::ActixWebAdapter<MonSrc>, actix_web::HttpResponse> {
    let n = st.seed.fetch_add(1, Ordering::SeqCst);
    let log = Log::new(n, st.plan.clone());
    let b = build_with(&st.arch.specs, |s| log.source(s.data.clone(), s.data.len() as u64));
    let Ok(b) = b else {
        return actix_web::Either::Right(actix_web::HttpResponse::InternalServerError().finish());
    };
    let reader = b.build();
    let resp = if st.channel {
        let (resp, rx) = reader.into_responder_with_channel();
        st.back.lock().unwrap().push(rx);
        st.logs.lock().unwrap().push(log);
        resp
    } else {
        reader.into_responder()
    };
    actix_web::Either::Left(resp)
}

struct Server {
    addr: std::net::SocketAddr,
    handle: actix_web::dev::ServerHandle,
    thread: std::thread::JoinHandle<std::io::Result<()>>,
}

fn start(st: State) -> R<Server> {
    let (tx, rx) = std::sync::mpsc::channel();
    let thread = std::thread::spawn(move || {
        actix_web::rt::System::new().block_on(async move {
            let data = web::Data::new(st);
            let s = actix_web::HttpServer::new(move || {
                actix_web::App::new().app_data(data.clone()).default_service(web::to(serve))
            })
            .workers(1)
            .disable_signals()
            .shutdown_timeout(1)
            .bind(("127.0.0.1", 0))?;
            let addr = s.addrs()[0];
            let run = s.run();
            let _ = tx.send((addr, run.handle()));
            run.await
        })
    });
    match rx.recv_timeout(Duration::from_secs(60)) {
        Ok((addr, handle)) => Ok(Server { addr, handle, thread }),
        Err(_) => fail!("HARNESS the server did not start"),
    }
}

/// Reads a response head; the rest already received is left in `buf`.
fn read_head(s: &mut std::net::TcpStream, buf: &mut Vec<u8>) -> R<Option<Head>> {
    let mut t = [0u8; 4096];
    let end = loop {
        if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            break p;
        }
        match s.read(&mut t) {
            Ok(0) => {
                ensure!(buf.is_empty(), "the connection ended within the response head");
                return Ok(None);
            }
            Ok(n) => buf.extend_from_slice(&t[..n]),
            Err(e) if e.kind() == ErrorKind::ConnectionReset => return Ok(None),
            Err(e) => fail!("no response from the server: {e}"),
        }
    };
    let text = String::from_utf8_lossy(&buf[..end]).into_owned();
    buf.drain(..end + 4);
    let mut lines = text.split("\r\n");
    let status = lines.next().and_then(|l| l.split(' ').nth(1)).and_then(|x| x.parse().ok());
    let Some(status) = status else { fail!("status line missing: {text:?}") };
    let mut headers: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for l in lines {
        if let Some((k, v)) = l.split_once(':') {
            headers.entry(k.trim().to_ascii_lowercase()).or_default().push(v.trim().to_string());
        }
    }
    Ok(Some(Head { status, headers }))
}

fn loopback(ctx: &mut Ctx, back: bool) -> R {
    let mut r = ctx.rng.clone();
    let acfg = ArchCfg { max_data: 200_000, long_names: false, ..ArchCfg::default() };
    let mut specs = gen_specs(&mut r, &acfg);
    if r.p(100) {
        let mut v = vec![0u8; 1 << 20];
        r.fill(&mut v);
        if !specs.iter().any(|s| s.name == "large") {
            specs.push(crate::arch::EntrySpec { name: "large".into(), data: Arc::new(v), preset: false, meta: Vec::new() });
        }
    }
    let fp = fingerprint(&specs);
    let arch = Arc::new(Arch::new(specs)?);
    let mut plan = gen_plan(&mut r);
    plan.self_wake = true;
    plan.short = if r.p(128) { Short::Full } else { Short::Max(2000) };
    let faulty = back && r.p(100);
    if faulty {
        plan.fault = [20, 20, 20, 20];
    }
    let st = State {
        arch: arch.clone(),
        plan,
        seed: Arc::new(AtomicU64::new(r.next())),
        back: Arc::default(),
        logs: Arc::default(),
        channel: back || r.p(128),
    };
    let channel = st.channel;
    let (readers, logs) = (st.back.clone(), st.logs.clone());
    let server = start(st)?;
    let addr = server.addr;
    let mut observed = 0u64;
    let client = |mut r: Rng, ctx: Option<&mut Ctx>| -> R<(u64, u64)> {
        let mut ctx = ctx;
        let mut bytes = 0;
        let mut requests = 0;
        let mut conn: Option<(std::net::TcpStream, Vec<u8>)> = None;
        for _ in 0..r.range(3, 12) {
            let (mut s, mut buf) = match conn.take() {
                Some(c) => c,
                None => {
                    let s = std::net::TcpStream::connect(addr).map_err(|e| Fail(format!("HARNESS connect: {e}")))?;
                    let _ = s.set_read_timeout(Some(Duration::from_secs(60)));
                    (s, Vec::new())
                }
            };
            let (hdr, mut want) = gen_header(&arch, &mut r);
            // The server takes white space around values away
            let hdr = hdr.filter(|h| HeaderValue::from_bytes(h).is_ok());
            if hdr.is_none() {
                want = Want::All;
            }
            let shown = hdr.as_ref().map_or("no Range".to_string(), |h| format!("Range {:?}", String::from_utf8_lossy(h)));
            let head_only = r.p(40);
            let mut q: Vec<u8> = format!("{} /x.zip HTTP/1.1\r\nHost: localhost\r\n", if head_only { "HEAD" } else { "GET" }).into_bytes();
            if let Some(h) = &hdr {
                q.extend_from_slice(b"Range: ");
                q.extend_from_slice(h);
                q.extend_from_slice(b"\r\n");
            }
            q.extend_from_slice(b"\r\n");
            let abort = back && r.p(120);
            let half = abort && r.p(60);
            if half {
                // Half a request
                q.truncate(r.usize(q.len()));
            }
            requests += 1;
            if s.write_all(&q).is_err() || half || (abort && r.p(60)) {
                continue;
            }
            let head = match read_head(&mut s, &mut buf) {
                Ok(Some(h)) => h,
                Ok(None) => {
                    ensure!(faulty || abort, "{shown}: the connection ended without a response");
                    continue;
                }
                Err(e) if abort => {
                    let _ = e;
                    continue;
                }
                Err(e) => return Err(e),
            };
            if let Some(c) = ctx.as_deref_mut() {
                c.tr(|| format!("{shown} head only: {head_only}, abort: {abort} -> {head:?}"));
            }
            let slice = judge(&head, &want, arch.size(), &shown)?;
            let announced: u64 = head.get("content-length")?.and_then(|l| l.parse().ok()).unwrap_or(0);
            let need = if head_only { 0 } else { announced };
            let cut = if abort { r.below(need + 1) } else { need };
            let mut t = vec![0u8; 1 << 16];
            let mut broken = false;
            while (buf.len() as u64) < cut {
                match s.read(&mut t) {
                    Ok(0) => {
                        broken = true;
                        break;
                    }
                    Ok(n) => buf.extend_from_slice(&t[..n]),
                    Err(e) if e.kind() == ErrorKind::ConnectionReset => {
                        broken = true;
                        break;
                    }
                    Err(e) => fail!("{shown}: the response stopped at {} of {need} B: {e}", buf.len()),
                }
            }
            ensure!(!broken || faulty, "{shown}: the connection ended after {} of {need} B", buf.len());
            let n = (buf.len() as u64).min(need);
            if let Some((a, _)) = slice {
                ensure!(
                    buf[..n as usize] == arch.truth[a as usize..(a + n) as usize],
                    "{shown}: wrong bytes in the body"
                );
                bytes += n;
            }
            if broken || abort {
                continue;
            }
            buf.drain(..n as usize);
            ensure!(buf.is_empty(), "{shown}: {} B after the response", buf.len());
            if r.p(128) {
                conn = Some((s, buf));
            }
        }
        Ok((bytes, requests))
    };
    let second = Rng::new(r.next());
    let own = Rng::new(r.next());
    let res = std::thread::scope(|sc| {
        let t = sc.spawn(|| client(second, None));
        let a = client(own, Some(ctx));
        let b = match t.join() {
            Ok(x) => x,
            Err(_) => Err(Fail("HARNESS the second client panicked".into())),
        };
        a.and_then(|x| b.map(|y| (x.0 + y.0, x.1 + y.1)))
    });
    // Stop, and wait until everything is gone
    futures_lite_block_on(server.handle.stop(false));
    match server.thread.join() {
        Ok(Ok(())) => {}
        Ok(Err(e)) => fail!("HARNESS server: {e}"),
        Err(_) => fail!("the server panicked"),
    }
    let (bytes, requests) = res?;
    observed += requests;
    ctx.count("requests", observed);
    ctx.count("bytes_checked", bytes);
    if channel {
        let mut v = std::mem::take(&mut *readers.lock().unwrap());
        let logs = std::mem::take(&mut *logs.lock().unwrap());
        for (rx, log) in v.iter_mut().zip(&logs) {
            // The workers' threads may still be dropping things
            for _ in 0..3000 {
                if !rx.is_empty() {
                    break;
                }
                std::thread::sleep(Duration::from_millis(10));
            }
            returned(&arch, log, rx, None, true, &mut r)?;
            ctx.count("readers_returned", 1);
        }
    }
    ctx.nontrivial(mix(fp, ctx.idx));
    Ok(())
}

/// Runs a future on the spot.
fn futures_lite_block_on<T>(f: impl Future<Output = T>) -> T {
    struct W(std::thread::Thread);
    impl std::task::Wake for W {
        fn wake(self: Arc<Self>) {
            self.0.unpark();
        }
    }
    let wk = Waker::from(Arc::new(W(std::thread::current())));
    let mut cx = Context::from_waker(&wk);
    let mut f = Box::pin(f);
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
        std::thread::park_timeout(Duration::from_millis(50));
    }
}
