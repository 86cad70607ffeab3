//! Instrumented entry data source. Every operation can be delayed, shortened or made to fail by a
//! plan; every operation is logged, and the source checks that it is used within the contract of
//! `Future`, `AsyncRead` and `AsyncSeek`.
use crate::rng::Rng;
use std::collections::BTreeMap;
use std::future::Future;
use std::io::{Error, ErrorKind, Result, SeekFrom};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};
use zippity::EntryData;

pub trait Content: Send + Sync {
    fn len(&self) -> u64;
    fn fill(&self, off: u64, out: &mut [u8]);
}

impl Content for Vec<u8> {
    fn len(&self) -> u64 {
        self.len() as u64
    }
    fn fill(&self, off: u64, out: &mut [u8]) {
        let o = off as usize;
        out.copy_from_slice(&self[o..o + out.len()]);
    }
}

/// Endless pseudo random content, addressable at any offset.
pub struct Proc {
    pub seed: u64,
    pub len: u64,
}
impl Proc {
    fn word(&self, i: u64) -> u64 {
        let mut z = i.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ self.seed;
        z = (z ^ (z >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z ^ (z >> 32)
    }
    pub fn byte(&self, off: u64) -> u8 {
        self.word(off / 8).to_le_bytes()[(off % 8) as usize]
    }
}
impl Content for Proc {
    fn len(&self) -> u64 {
        self.len
    }
    fn fill(&self, off: u64, out: &mut [u8]) {
        let mut i = 0;
        let mut o = off;
        while i < out.len() && o % 8 != 0 {
            out[i] = self.byte(o);
            i += 1;
            o += 1;
        }
        let mut w = o / 8;
        let (body, tail) = {
            let rest = &mut out[i..];
            let k = rest.len() / 8 * 8;
            rest.split_at_mut(k)
        };
        for c in body.chunks_exact_mut(8) {
            c.copy_from_slice(&self.word(w).to_le_bytes());
            w += 1;
        }
        let last = self.word(w).to_le_bytes();
        let k = tail.len();
        tail.copy_from_slice(&last[..k]);
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pend {
    Never,
    /// Pending with the given probability (of 256), for 1..=max ticks.
    Prob(u32, u32),
    /// Always pending for that many ticks.
    Always(u32),
    /// The n-th operation (of those with this setting) is pending once if bit n is set.
    Mask(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Short {
    Full,
    One,
    /// At most that many bytes.
    Max(usize),
    /// Random between one byte and everything.
    Random,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Op {
    Open,
    Read,
    StartSeek,
    SeekDone,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub open: Pend,
    pub read: Pend,
    pub seek: Pend,
    pub short: Short,
    /// Operations wake themselves immediately when pending (each poll counts as a tick), instead
    /// of waiting for the driver's tick.
    pub self_wake: bool,
    /// Probability (of 256) of a failure of each kind of operation.
    pub fault: [u32; 4],
    /// Faults injected at these operations (counted over all sources, by kind).
    pub fault_at: Vec<(Op, u64)>,
    /// All operations fail from the given global operation number on.
    pub fail_from: Option<u64>,
    pub fault_kind: ErrorKind,
    /// Operations after which the source gives up (a hang of the reader).
    pub op_budget: u64,
    /// Seeks beyond the end are clamped to the end.
    pub clamp_seek: bool,
}

impl Default for Plan {
    fn default() -> Self {
        Plan {
            open: Pend::Never,
            read: Pend::Never,
            seek: Pend::Never,
            short: Short::Full,
            self_wake: false,
            fault: [0; 4],
            fault_at: Vec::new(),
            fail_from: None,
            fault_kind: ErrorKind::BrokenPipe,
            op_budget: u64::MAX,
            clamp_seek: false,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Ev {
    Open { src: usize, handle: usize },
    Opened { src: usize },
    Read { src: usize, pos: u64, asked: usize, got: usize },
    StartSeek { src: usize, to: u64 },
    SeekDone { src: usize, pos: u64 },
    Drop { src: usize },
    Fault { src: usize, op: Op },
}

struct Waiting {
    left: u32,
    waker: Waker,
}

#[derive(Default, Clone, Debug)]
pub struct SrcStat {
    pub opens: u64,
    pub bytes: u64,
    pub reads: u64,
    pub seeks: u64,
    pub min_pos: u64,
    pub max_end: u64,
}

pub struct LogInner {
    pub rng: Rng,
    pub plan: Plan,
    waiting: BTreeMap<u64, Waiting>,
    next_op: u64,
    pub mask_pos: u64,
    pub ops: u64,
    pub op_counts: [u64; 4],
    pub violations: Vec<String>,
    pub stats: Vec<SrcStat>,
    /// Currently open futures and readers: id -> (source, handle that opened it)
    pub live: BTreeMap<u64, (usize, usize)>,
    next_live: u64,
    pub max_live_per_handle: usize,
    // Of the current call:
    pub handle: usize,
    pub pending_in_call: u64,
    pub wakers_in_call: Vec<Waker>,
    pub errors_in_call: Vec<ErrorKind>,
    pub ops_in_call: u64,
    pub budget_hit: bool,
    pub total_pending: u64,
    pub total_faults: u64,
    pub total_short: u64,
    pub events: Option<Vec<Ev>>,
}

impl LogInner {
    fn ev(&mut self, e: Ev) {
        if let Some(v) = &mut self.events {
            v.push(e);
        }
    }
    fn viol(&mut self, s: String) {
        if self.violations.len() < 8 {
            self.violations.push(s);
        }
    }

    fn op(&mut self) {
        self.ops += 1;
        self.ops_in_call += 1;
    }

    /// Decides whether the operation identified by `slot` has to wait. Returns true if pending.
    fn wait(&mut self, slot: &mut Option<u64>, pend: Pend, cx: &Context<'_>) -> bool {
        let id = match *slot {
            Some(id) => id,
            None => {
                let ticks = match pend {
                    Pend::Never => 0,
                    Pend::Prob(p, max) => {
                        if self.rng.p(p) {
                            1 + self.rng.below(u64::from(max)) as u32
                        } else {
                            0
                        }
                    }
                    Pend::Always(n) => n,
                    Pend::Mask(m) => {
                        let n = self.mask_pos;
                        self.mask_pos += 1;
                        if n < 64 { ((m >> n) & 1) as u32 } else { 0 }
                    }
                };
                if ticks == 0 {
                    return false;
                }
                let id = self.next_op;
                self.next_op += 1;
                *slot = Some(id);
                self.waiting.insert(
                    id,
                    Waiting {
                        left: if self.plan.self_wake { ticks + 1 } else { ticks },
                        waker: cx.waker().clone(),
                    },
                );
                id
            }
        };
        let self_wake = self.plan.self_wake;
        let w = self.waiting.get_mut(&id).expect("waiting operation");
        if self_wake {
            w.left -= 1;
        }
        if w.left == 0 {
            self.waiting.remove(&id);
            // Keep the slot marked, so that the operation proceeds now.
            *slot = None;
            return false;
        }
        w.waker = cx.waker().clone();
        if self_wake {
            cx.waker().wake_by_ref();
        }
        self.pending_in_call += 1;
        self.total_pending += 1;
        self.wakers_in_call.push(cx.waker().clone());
        true
    }

    fn fault(&mut self, src: usize, op: Op) -> Option<Error> {
        let n = self.op_counts[op as usize];
        self.op_counts[op as usize] += 1;
        let all: u64 = self.op_counts.iter().sum();
        let mut hit = self.plan.fault[op as usize] > 0 && {
            let p = self.plan.fault[op as usize];
            self.rng.p(p)
        };
        hit |= self.plan.fault_at.contains(&(op, n));
        hit |= self.plan.fail_from.is_some_and(|f| all > f);
        if self.ops > self.plan.op_budget {
            self.budget_hit = true;
            hit = true;
        }
        if hit {
            self.total_faults += 1;
            let k = self.plan.fault_kind;
            self.errors_in_call.push(k);
            self.ev(Ev::Fault { src, op });
            Some(Error::new(k, "injected fault"))
        } else {
            None
        }
    }

    fn new_live(&mut self, src: usize) -> u64 {
        let id = self.next_live;
        self.next_live += 1;
        let h = self.handle;
        self.live.insert(id, (src, h));
        let n = self.live.values().filter(|x| x.1 == h).count();
        self.max_live_per_handle = self.max_live_per_handle.max(n);
        id
    }

    /// Operations waiting for a tick.
    pub fn waiting(&self) -> usize {
        self.waiting.len()
    }
    /// Sources with an open future or reader belonging to the handle
    pub fn live_of(&self, handle: usize) -> Vec<usize> {
        self.live
            .values()
            .filter(|x| x.1 == handle)
            .map(|x| x.0)
            .collect()
    }
}

#[derive(Clone)]
pub struct Log(Arc<Mutex<LogInner>>);

impl Log {
    pub fn new(seed: u64, plan: Plan) -> Log {
        Log(Arc::new(Mutex::new(LogInner {
            rng: Rng::new(seed),
            plan,
            waiting: BTreeMap::new(),
            next_op: 0,
            mask_pos: 0,
            ops: 0,
            op_counts: [0; 4],
            violations: Vec::new(),
            stats: Vec::new(),
            live: BTreeMap::new(),
            next_live: 0,
            max_live_per_handle: 0,
            handle: 0,
            pending_in_call: 0,
            wakers_in_call: Vec::new(),
            errors_in_call: Vec::new(),
            ops_in_call: 0,
            budget_hit: false,
            total_pending: 0,
            total_faults: 0,
            total_short: 0,
            events: None,
        })))
    }

    pub fn lock(&self) -> std::sync::MutexGuard<'_, LogInner> {
        match self.0.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        }
    }

    pub fn begin(&self, handle: usize) {
        let mut l = self.lock();
        l.handle = handle;
        l.pending_in_call = 0;
        l.wakers_in_call.clear();
        l.errors_in_call.clear();
        l.ops_in_call = 0;
    }

    /// Lets time pass: every waiting operation comes one tick closer, finished ones wake.
    pub fn tick(&self) {
        let mut to_wake = Vec::new();
        {
            let mut l = self.lock();
            if l.plan.self_wake {
                return;
            }
            for w in l.waiting.values_mut() {
                if w.left > 0 {
                    w.left -= 1;
                    if w.left == 0 {
                        to_wake.push(w.waker.clone());
                    }
                }
            }
        }
        for w in to_wake {
            w.wake();
        }
    }

    /// A new source with the given content, announcing `declared` bytes.
    pub fn source(&self, content: Arc<dyn Content>, declared: u64) -> MonSrc {
        let mut l = self.lock();
        let id = l.stats.len();
        l.stats.push(SrcStat {
            min_pos: u64::MAX,
            ..SrcStat::default()
        });
        MonSrc {
            id,
            log: self.clone(),
            content,
            declared,
        }
    }

    pub fn take_violation(&self) -> Option<String> {
        self.lock().violations.first().cloned()
    }
}

#[derive(Clone)]
pub struct MonSrc {
    pub id: usize,
    pub log: Log,
    pub content: Arc<dyn Content>,
    pub declared: u64,
}

impl std::fmt::Debug for MonSrc {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "MonSrc({})", self.id)
    }
}

impl EntryData for MonSrc {
    type Reader = MonReader;
    type Future = MonOpen;
    fn get_reader(&self) -> MonOpen {
        let mut l = self.log.lock();
        l.op();
        l.stats[self.id].opens += 1;
        let h = l.handle;
        l.ev(Ev::Open {
            src: self.id,
            handle: h,
        });
        let live = l.new_live(self.id);
        drop(l);
        MonOpen {
            src: self.clone(),
            slot: None,
            live: Some(live),
            done: false,
        }
    }
    fn size(&self) -> u64 {
        self.declared
    }
}

pub struct MonOpen {
    src: MonSrc,
    slot: Option<u64>,
    live: Option<u64>,
    done: bool,
}

impl Future for MonOpen {
    type Output = Result<MonReader>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = &mut *self;
        let log = this.src.log.clone();
        let mut l = log.lock();
        l.op();
        if this.done {
            l.viol(format!("open future of source {} polled after completion", this.src.id));
            return Poll::Ready(Err(Error::other("protocol violation")));
        }
        let pend = l.plan.open;
        if l.wait(&mut this.slot, pend, cx) {
            return Poll::Pending;
        }
        this.done = true;
        if let Some(e) = l.fault(this.src.id, Op::Open) {
            return Poll::Ready(Err(e));
        }
        l.ev(Ev::Opened { src: this.src.id });
        let live = this.live.take();
        drop(l);
        Poll::Ready(Ok(MonReader {
            src: this.src.clone(),
            pos: 0,
            slot: None,
            seek: None,
            live,
        }))
    }
}

impl Drop for MonOpen {
    fn drop(&mut self) {
        let mut l = self.src.log.lock();
        if let Some(s) = self.slot {
            l.waiting.remove(&s);
        }
        if let Some(id) = self.live {
            l.live.remove(&id);
            let src = self.src.id;
            l.ev(Ev::Drop { src });
        }
    }
}

pub struct MonReader {
    src: MonSrc,
    pos: u64,
    slot: Option<u64>,
    seek: Option<u64>,
    live: Option<u64>,
}

impl Drop for MonReader {
    fn drop(&mut self) {
        let mut l = self.src.log.lock();
        if let Some(s) = self.slot {
            l.waiting.remove(&s);
        }
        if let Some(id) = self.live {
            l.live.remove(&id);
            let src = self.src.id;
            l.ev(Ev::Drop { src });
        }
    }
}

impl AsyncRead for MonReader {
    fn poll_read(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut ReadBuf<'_>,
    ) -> Poll<Result<()>> {
        let this = &mut *self;
        let log = this.src.log.clone();
        let mut l = log.lock();
        l.op();
        let id = this.src.id;
        if this.seek.is_some() {
            l.viol(format!("source {id} read while a seek is in progress"));
            return Poll::Ready(Err(Error::other("protocol violation")));
        }
        let pend = l.plan.read;
        if l.wait(&mut this.slot, pend, cx) {
            return Poll::Pending;
        }
        if let Some(e) = l.fault(id, Op::Read) {
            return Poll::Ready(Err(e));
        }
        let len = this.src.content.len();
        let avail = len.saturating_sub(this.pos);
        let full = avail.min(buf.remaining() as u64) as usize;
        let mut n = match l.plan.short {
            Short::Full => full,
            Short::One => full.min(1),
            Short::Max(k) => full.min(k),
            Short::Random => {
                if full > 1 && l.rng.p(200) {
                    let r = l.rng.range(1, full as u64) as usize;
                    if l.rng.p(128) { r.min(1 + l.rng.usize(16)) } else { r }
                } else {
                    full
                }
            }
        };
        if full > 0 && n == 0 {
            n = 1;
        }
        if n < full {
            l.total_short += 1;
        }
        let asked = buf.remaining();
        let pos = this.pos;
        let st = &mut l.stats[id];
        st.reads += 1;
        st.bytes += n as u64;
        if n > 0 {
            st.min_pos = st.min_pos.min(pos);
            st.max_end = st.max_end.max(pos + n as u64);
        }
        l.ev(Ev::Read {
            src: id,
            pos,
            asked,
            got: n,
        });
        drop(l);
        if n > 0 {
            let out = buf.initialize_unfilled_to(n);
            this.src.content.fill(pos, &mut out[..n]);
            buf.advance(n);
            this.pos += n as u64;
        }
        Poll::Ready(Ok(()))
    }
}

impl AsyncSeek for MonReader {
    fn start_seek(mut self: Pin<&mut Self>, position: SeekFrom) -> Result<()> {
        let this = &mut *self;
        let log = this.src.log.clone();
        let mut l = log.lock();
        l.op();
        let id = this.src.id;
        if this.seek.is_some() {
            l.viol(format!("source {id}: second seek started while one is in progress"));
            return Err(Error::other("protocol violation"));
        }
        if let Some(s) = this.slot.take() {
            // A pending read is abandoned by a seek of the same reader.
            l.waiting.remove(&s);
        }
        if let Some(e) = l.fault(id, Op::StartSeek) {
            return Err(e);
        }
        let len = this.src.content.len();
        let mut to = match position {
            SeekFrom::Start(p) => p,
            SeekFrom::Current(o) => this
                .pos
                .checked_add_signed(o)
                .ok_or(ErrorKind::InvalidInput)?,
            SeekFrom::End(o) => len.checked_add_signed(o).ok_or(ErrorKind::InvalidInput)?,
        };
        if l.plan.clamp_seek {
            to = to.min(len);
        }
        l.stats[id].seeks += 1;
        l.ev(Ev::StartSeek { src: id, to });
        this.seek = Some(to);
        Ok(())
    }

    fn poll_complete(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<u64>> {
        let this = &mut *self;
        let log = this.src.log.clone();
        let mut l = log.lock();
        l.op();
        let id = this.src.id;
        let Some(to) = this.seek else {
            return Poll::Ready(Ok(this.pos));
        };
        let pend = l.plan.seek;
        if l.wait(&mut this.slot, pend, cx) {
            return Poll::Pending;
        }
        this.seek = None;
        if let Some(e) = l.fault(id, Op::SeekDone) {
            // After a failed seek the position is anywhere.
            this.pos = this.pos.wrapping_add(7).min(this.src.content.len());
            return Poll::Ready(Err(e));
        }
        this.pos = to;
        l.ev(Ev::SeekDone { src: id, pos: to });
        Poll::Ready(Ok(to))
    }
}
