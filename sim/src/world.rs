//! The simulated world: remotes and the real Sender put marks on the air, the channel disturbs
//! them, and each receiver node turns the demodulated line into interrupts or polls of the real
//! receiver on its own skewed clock. One plan is one execution.

use crate::ctx::Ctx;
use crate::refp::{self, Class, NCmd, Proto, WFrame};
use crate::rng::{mix, Rng};
use crate::rx::{self, Clk, Fe, Out, Rx};
use crate::tx::{self, Load};
use serde::{Deserialize, Serialize};

pub const QUIET_US: u32 = 20_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RxCfg {
    pub proto: Proto,
    pub fe: Fe,
    pub clk: Clk,
    pub freq: u32,
    pub skew_ppm: i32,
    pub phase_ns: u32,
    /// counter value at time zero
    pub epoch: u64,
    /// interrupt latency is 0..=lat_ns
    pub lat_ns: u32,
    pub lat_seed: u64,
    /// timestamps by input capture rather than read in the interrupt handler
    pub capture: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TxCfg {
    pub hz: u8,
    pub buf: u8,
    pub skew_ppm: i32,
    pub phase_ns: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Kind {
    /// a remote control sends this frame
    Frame(WFrame),
    /// the application loads this command into the real Sender; further loads while it is busy
    Send { load: Load, extra: Vec<(u32, Load)>, crash_us: Option<u32> },
    /// (off, on) in us
    Noise(Vec<(u32, u32)>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum AirF {
    /// another light source: the line is on
    Pulse { at_us: u32, dur_us: u32 },
    /// the beam is interrupted: the line is off
    Block { at_us: u32, dur_us: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum RxF {
    /// interrupts masked without latching, or polls not made
    Lose { at_us: u32, dur_us: u32 },
    /// interrupts delayed to the end of the window (edges merge), or polls not made
    Stall { at_us: u32, dur_us: u32 },
    Spurious { at_us: u32 },
    PinErr { at_us: u32, dur_us: u32 },
    /// the clock jumps by this many ticks
    Step { at_us: u32, ticks: i64 },
    /// the receiver is created anew
    Restart { at_us: u32 },
}

impl RxF {
    fn span(&self) -> (u32, u32) {
        match *self {
            RxF::Lose { at_us, dur_us } | RxF::Stall { at_us, dur_us } | RxF::PinErr { at_us, dur_us } => {
                (at_us, dur_us)
            }
            RxF::Spurious { at_us } | RxF::Step { at_us, .. } | RxF::Restart { at_us } => (at_us, 0),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Item {
    pub gap_us: u32,
    pub kind: Kind,
    /// the remote's clock error
    pub skew_ppm: i32,
    /// each interval of a frame is off by up to this much
    pub jit_ppm: u32,
    pub jit_seed: u64,
    /// the demodulator lengthens (shortens) marks
    pub stretch_us: i32,
    /// replace interval i of the frame
    pub warp: Vec<(u8, u32)>,
    /// stop after this many intervals
    pub cut: Option<u8>,
    pub air: Vec<AirF>,
    pub rxf: Vec<RxF>,
}

impl Item {
    pub fn new(gap_us: u32, kind: Kind) -> Item {
        Item {
            gap_us,
            kind,
            skew_ppm: 0,
            jit_ppm: 0,
            jit_seed: 0,
            stretch_us: 0,
            warp: vec![],
            cut: None,
            air: vec![],
            rxf: vec![],
        }
    }
    pub fn frame(&self) -> Option<WFrame> {
        match &self.kind {
            Kind::Frame(f) => Some(*f),
            Kind::Send { load, .. } => Some(load.frame()),
            Kind::Noise(_) => None,
        }
    }
    pub fn dirty(&self) -> bool {
        matches!(self.kind, Kind::Noise(_) | Kind::Send { crash_us: Some(_), .. })
            || !self.warp.is_empty()
            || self.cut.is_some()
            || !self.air.is_empty()
            || !self.rxf.is_empty()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub rx: Vec<RxCfg>,
    pub tx: Option<TxCfg>,
    pub items: Vec<Item>,
    /// property-specific index
    pub aux: u32,
}

/// Where an item ended up in time (ns).
#[derive(Clone, Copy, Debug)]
pub struct Slot {
    pub start: u64,
    pub end: u64,
}

pub struct Air {
    pub edges: Vec<(u64, bool)>,
    pub slots: Vec<Slot>,
    pub end: u64,
}

/// Worst relative deviation (ppm) that the tick grid of a sender at `hz` puts on a measured
/// interval, for tables made by truncating and by rounding.
pub fn quant_ppm(class: Class, hz: u32) -> u64 {
    let combos: &[&[u32]] = match class {
        Class::NecStd => &[&[9000, 4500], &[560, 560], &[560, 1690]],
        Class::NecSam => &[&[4500, 4500], &[560, 560], &[560, 1690]],
        Class::Rc5 => &[&[889]],
        Class::Rc6 => &[&[444]],
        _ => &[],
    };
    let mut worst = 0f64;
    for c in combos {
        let nom: f64 = c.iter().map(|v| *v as f64 * hz as f64 / 1e6).sum();
        for round in [0.0, 0.5] {
            let got: f64 = c.iter().map(|v| (*v as f64 * hz as f64 / 1e6 + round).floor()).sum();
            worst = worst.max((got - nom).abs() / nom);
        }
    }
    (worst * 1e6).ceil() as u64
}

impl Plan {
    /// Does every undisturbed frame reach every receiver of its class inside the timing budget?
    pub fn in_budget(&self) -> bool {
        for it in &self.items {
            if it.dirty() {
                continue;
            }
            let Some(fr) = it.frame() else { continue };
            let c = fr.class;
            if it.stretch_us != 0 && (c.biphase() || it.stretch_us.abs() > 150) {
                return false;
            }
            for r in self.rx.iter().filter(|r| r.proto.class() == c) {
                let mut dev = r.skew_ppm.unsigned_abs() as u64
                    + r.lat_ns as u64 * 1000 / c.min_interval_us();
                match &it.kind {
                    Kind::Frame(_) => dev += it.skew_ppm.unsigned_abs() as u64 + it.jit_ppm as u64,
                    Kind::Send { .. } => {
                        let Some(t) = &self.tx else { return false };
                        dev += t.skew_ppm.unsigned_abs() as u64
                            + quant_ppm(c, tx::TX_HZ[t.hz as usize]);
                    }
                    _ => {}
                }
                if dev * 100 > c.budget_ppm(r.freq()) * 98 {
                    return false;
                }
            }
        }
        true
    }

    /// The part of validity shared by all properties.
    pub fn sane(&self) -> bool {
        let total_us: u64 = self.items.iter().map(|i| i.gap_us as u64 + 200_000).sum();
        if self.rx.is_empty() || self.rx.len() > 8 || self.items.len() > 1_500 {
            return false;
        }
        if let Some(t) = &self.tx {
            if t.hz as usize >= tx::TX_HZ.len()
                || t.buf as usize >= tx::TX_BUF.len()
                || t.buf == tx::SMALL_BUF
                || t.skew_ppm.abs() > 100_000
                || total_us > 60_000_000
            {
                return false;
            }
        }
        for r in &self.rx {
            if r.freq() < 20_000
                || r.freq() > 1_000_000_000
                || r.skew_ppm.abs() > 100_000
                || r.lat_ns > 60_000
                || !rx::fits(r.fe, r.clk)
                || (r.fe.polled() && (r.freq() > 2_000_000 || total_us > 60_000_000))
                || matches!(r.clk, Clk::F32(i) | Clk::F64(i) if i as usize >= rx::FUGIT_HZ.len())
            {
                return false;
            }
        }
        for it in &self.items {
            if it.gap_us < QUIET_US || it.skew_ppm.abs() > 300_000 || it.jit_ppm > 300_000 {
                return false;
            }
            if it.stretch_us.abs() > 150 || it.jit_ppm as u64 + it.skew_ppm.unsigned_abs() as u64 > 400_000 {
                return false;
            }
            let dur = match &it.kind {
                Kind::Frame(f) => f.dur_us(),
                Kind::Send { load, extra, crash_us } => {
                    if self.tx.is_none() || !tx::TX_PROTOS.contains(&load.p) {
                        return false;
                    }
                    if load.create && load.p == refp::NecRaw || load.create && load.p == refp::Nec16 {
                        return false;
                    }
                    if !load.create && !load.in_range() {
                        return false;
                    }
                    let d = load.frame().dur_us();
                    // stays clear of the start and the end of the transmission at any tick rate
                    if extra.iter().any(|(t, l)| *t < 500 || *t as u64 > d * 8 / 10 || !l.in_range() || l.create) {
                        return false;
                    }
                    if crash_us.is_some_and(|c| c as u64 > d) {
                        return false;
                    }
                    d
                }
                Kind::Noise(p) => {
                    if p.is_empty() || p.iter().any(|(a, b)| *a == 0 || *b == 0) {
                        return false;
                    }
                    p.iter().map(|(a, b)| (*a as u64) + *b as u64).sum()
                }
            };
            if dur > 10_000_000 {
                return false;
            }
            if it.warp.iter().any(|w| w.1 == 0) {
                return false;
            }
            if !matches!(it.kind, Kind::Frame(_)) && (!it.warp.is_empty() || it.cut.is_some()) {
                return false;
            }
            if it.cut == Some(0) {
                return false;
            }
            // disturbances end before the quiet time does
            let lim = dur as u32;
            for a in &it.air {
                let (AirF::Pulse { at_us, dur_us } | AirF::Block { at_us, dur_us }) = *a;
                if at_us > lim || dur_us > 5_000_000 || dur_us == 0 {
                    return false;
                }
            }
            for f in &it.rxf {
                let (a, d) = f.span();
                if a > lim || d > 5_000_000 {
                    return false;
                }
            }
        }
        true
    }
}

impl RxCfg {
    pub fn freq(&self) -> u32 {
        self.clk.fixed_hz().unwrap_or(self.freq)
    }
    /// counter ticks since time zero
    pub fn tick(&self, t: u64) -> u64 {
        let k = self.freq() as u128 * (1_000_000 + self.skew_ppm) as u128;
        ((t as u128 + self.phase_ns as u128) * k / 1_000_000_000_000_000) as u64
    }
    fn time_of(&self, tick: u64) -> u64 {
        let k = self.freq() as u128 * (1_000_000 + self.skew_ppm) as u128;
        (tick as u128 * 1_000_000_000_000_000).div_ceil(k).saturating_sub(self.phase_ns as u128) as u64
    }
    fn lat(&self, t: u64) -> u64 {
        if self.lat_ns == 0 {
            0
        } else {
            mix(self.lat_seed ^ t.wrapping_mul(0x9E37_79B9_7F4A_7C15)) % (self.lat_ns as u64 + 1)
        }
    }
}

fn scale(us: u32, ppm: i64) -> u64 {
    (us as i128 * 1000 * (1_000_000 + ppm) as i128 / 1_000_000).max(1) as u64
}

/// Put everything on the air.
pub fn air(plan: &Plan, ctx: &mut Ctx) -> Air {
    let mut marks: Vec<(u64, u64)> = vec![];
    let mut blocks: Vec<(u64, u64)> = vec![];
    let mut slots = vec![];
    let mut now: u64 = 0;
    let mut txn = plan.tx.as_ref().map(TxNode::new);
    for it in &plan.items {
        let start = now + it.gap_us as u64 * 1000;
        let mut t = start;
        match &it.kind {
            Kind::Frame(fr) => {
                let mut iv = fr.intervals();
                for (i, us) in &it.warp {
                    let n = iv.len();
                    iv[*i as usize % n] = *us;
                    ctx.fault("warped-interval");
                }
                if let Some(c) = it.cut {
                    if (c as usize) < iv.len() {
                        iv.truncate(c as usize);
                        ctx.fault("truncated-frame");
                    }
                }
                let mut jr = Rng::new(it.jit_seed);
                if it.jit_ppm > 0 {
                    ctx.fault("edge-jitter");
                }
                if it.skew_ppm != 0 {
                    ctx.fault("clock-skew-remote");
                }
                if it.stretch_us != 0 {
                    ctx.fault("mark-stretch");
                }
                let mut edge = true;
                for us in iv {
                    let j = if it.jit_ppm == 0 { 0 } else { jr.irange(-(it.jit_ppm as i64), it.jit_ppm as i64) };
                    let d = scale(us, it.skew_ppm as i64 + j);
                    if edge {
                        let e = (t + d) as i64 + it.stretch_us as i64 * 1000;
                        marks.push((t, (e.max(t as i64 + 1000)) as u64));
                    }
                    t += d;
                    edge = !edge;
                }
                if it.stretch_us > 0 {
                    t += it.stretch_us as u64 * 1000;
                }
            }
            Kind::Noise(p) => {
                for (off, on) in p {
                    t += *off as u64 * 1000;
                    marks.push((t, t + *on as u64 * 1000));
                    t += *on as u64 * 1000;
                    ctx.fault("noise-pulse");
                }
            }
            Kind::Send { load, extra, crash_us } => {
                let n = txn.as_mut().unwrap();
                if n.cfg.skew_ppm != 0 {
                    ctx.fault("clock-skew-sender");
                }
                n.run_to(start, &mut marks);
                let cmd = tx::build(load);
                if let Some(cmd) = &cmd {
                    n.tx.load(cmd);
                    let d = scale(load.frame().dur_us() as u32, n.cfg.skew_ppm as i64) + 8 * n.period() + 1_000_000;
                    if let Some(c) = crash_us {
                        n.run_to(start + *c as u64 * 1000, &mut marks);
                        n.crash(&mut marks);
                        ctx.fault("sender-crash-restart");
                    } else {
                        for (at, l) in extra {
                            n.run_to(start + *at as u64 * 1000, &mut marks);
                            if let Some(c) = tx::build(l) {
                                n.tx.load(&c);
                                ctx.fault("load-while-busy");
                            }
                        }
                    }
                    t = start + d;
                }
                n.run_to(t, &mut marks);
            }
        }
        // air faults, relative to the start of the item
        let mut end = t;
        for a in &it.air {
            match *a {
                AirF::Pulse { at_us, dur_us } => {
                    let s = start + at_us as u64 * 1000;
                    marks.push((s, s + dur_us as u64 * 1000));
                    end = end.max(s + dur_us as u64 * 1000);
                    ctx.fault("interfering-pulse");
                }
                AirF::Block { at_us, dur_us } => {
                    let s = start + at_us as u64 * 1000;
                    blocks.push((s, s + dur_us as u64 * 1000));
                    end = end.max(s + dur_us as u64 * 1000);
                    ctx.fault("beam-blocked");
                }
            }
        }
        for f in &it.rxf {
            let (a, d) = f.span();
            end = end.max(start + (a as u64 + d as u64) * 1000);
        }
        slots.push(Slot { start, end });
        now = end;
    }
    let end = now + 60_000_000;
    if let Some(n) = txn.as_mut() {
        n.run_to(end, &mut marks);
        n.close(end, &mut marks);
    }
    // union of marks minus blocks
    let mut ev: Vec<(u64, i32, i32)> = vec![];
    for (a, b) in marks {
        if b > a {
            ev.push((a, 1, 0));
            ev.push((b, -1, 0));
        }
    }
    for (a, b) in blocks {
        ev.push((a, 0, 1));
        ev.push((b, 0, -1));
    }
    ev.sort();
    let mut edges: Vec<(u64, bool)> = vec![];
    let (mut m, mut bl, mut lvl) = (0, 0, false);
    let mut i = 0;
    while i < ev.len() {
        let t = ev[i].0;
        while i < ev.len() && ev[i].0 == t {
            m += ev[i].1;
            bl += ev[i].2;
            i += 1;
        }
        let l = m > 0 && bl == 0;
        if l != lvl {
            edges.push((t, l));
            lvl = l;
        }
    }
    for e in &edges {
        ctx.s(e.0 << 1 | e.1 as u64);
    }
    ctx.count("edges", edges.len() as u64);
    ctx.sim_ns += end as u128;
    Air { edges, slots, end }
}

/// The real Sender, ticked by its own timer.
pub struct TxNode {
    cfg: TxCfg,
    pub tx: Box<dyn tx::Tx>,
    k: u64,
    on_since: Option<u64>,
}
impl TxNode {
    pub fn new(cfg: &TxCfg) -> Self {
        TxNode { cfg: cfg.clone(), tx: tx::make(cfg.hz, cfg.buf, false), k: 0, on_since: None }
    }
    fn period(&self) -> u64 {
        1_000_000_000 / tx::TX_HZ[self.cfg.hz as usize] as u64 + 1
    }
    fn time(&self, k: u64) -> u64 {
        let hz = tx::TX_HZ[self.cfg.hz as usize] as u128;
        self.cfg.phase_ns as u64
            + (k as u128 * 1000 * (1_000_000 + self.cfg.skew_ppm) as u128 / hz) as u64
    }
    pub fn run_to(&mut self, t: u64, marks: &mut Vec<(u64, u64)>) {
        loop {
            let tt = self.time(self.k);
            if tt >= t {
                return;
            }
            self.k += 1;
            let l = self.tx.tick();
            match (l, self.on_since) {
                (true, None) => self.on_since = Some(tt),
                (false, Some(s)) => {
                    marks.push((s, tt));
                    self.on_since = None;
                }
                _ => {}
            }
        }
    }
    pub fn close(&mut self, t: u64, marks: &mut Vec<(u64, u64)>) {
        if let Some(s) = self.on_since.take() {
            marks.push((s, t));
        }
    }
    /// Power loss: the output goes off, a new Sender starts.
    pub fn crash(&mut self, marks: &mut Vec<(u64, u64)>) {
        let t = self.time(self.k);
        self.close(t, marks);
        self.tx = tx::make(self.cfg.hz, self.cfg.buf, false);
    }
}

pub type Report<T> = (u64, Out<T>);

/// Run one receiver node over the line from `from` on, created at `from`.
/// `mk` creates the receiver (again after a restart).
pub fn drive<T>(
    cfg: &RxCfg,
    plan: &Plan,
    air: &Air,
    from: u64,
    mk: &dyn Fn() -> Box<dyn Rx<T>>,
    ctx: &mut Ctx,
) -> Vec<Report<T>> {
    let mut lose: Vec<(u64, u64)> = vec![];
    let mut stall: Vec<(u64, u64)> = vec![];
    let mut perr: Vec<(u64, u64)> = vec![];
    let mut spur: Vec<u64> = vec![];
    let mut steps: Vec<(u64, i64)> = vec![];
    let mut restart: Vec<u64> = vec![];
    for (it, sl) in plan.items.iter().zip(&air.slots) {
        for f in &it.rxf {
            let (a, d) = f.span();
            let a = sl.start + a as u64 * 1000;
            if a < from {
                // a step before creation still shifts the counter
                if let RxF::Step { ticks, .. } = f {
                    steps.push((a, *ticks));
                }
                continue;
            }
            let w = (a, a + d as u64 * 1000);
            match f {
                RxF::Lose { .. } => {
                    lose.push(w);
                    ctx.fault("edges-lost");
                }
                RxF::Stall { .. } => {
                    stall.push(w);
                    ctx.fault("handler-stalled");
                }
                RxF::PinErr { .. } => {
                    perr.push(w);
                    ctx.fault("pin-read-error");
                }
                RxF::Spurious { .. } => {
                    spur.push(a);
                    ctx.fault("spurious-interrupt");
                }
                RxF::Step { ticks, .. } => {
                    steps.push((a, *ticks));
                    ctx.fault("clock-step");
                }
                RxF::Restart { .. } => {
                    restart.push(a);
                    ctx.fault("receiver-restart");
                }
            }
        }
    }
    if cfg.skew_ppm != 0 {
        ctx.fault("clock-skew-receiver");
    }
    if cfg.lat_ns != 0 {
        ctx.fault("interrupt-latency");
    }
    let inside = |w: &[(u64, u64)], t: u64| w.iter().any(|(a, b)| t >= *a && t < *b);
    let first = air.edges.partition_point(|e| e.0 < from);
    let edges = &air.edges[first..];
    let mut out: Vec<Report<T>> = vec![];
    let mut rx = mk();

    if cfg.fe.polled() {
        #[derive(Clone, Copy)]
        enum E {
            Level(bool),
            Skip(bool),
            Fail(bool),
            Restart,
            End,
        }
        let mut tl: Vec<(u64, u32, E)> = vec![];
        let mut last = 0;
        for (t, l) in edges {
            last = (t + cfg.lat(*t)).max(last);
            tl.push((cfg.tick(last), 0, E::Level(*l)));
        }
        for (a, b) in lose.iter().chain(&stall) {
            tl.push((cfg.tick(*a), 1, E::Skip(true)));
            tl.push((cfg.tick(*b), 1, E::Skip(false)));
        }
        if cfg.fe.pin() {
            for (a, b) in &perr {
                tl.push((cfg.tick(*a), 1, E::Fail(true)));
                tl.push((cfg.tick(*b), 1, E::Fail(false)));
            }
        }
        for a in &restart {
            tl.push((cfg.tick(*a), 2, E::Restart));
        }
        tl.push((cfg.tick(air.end), 3, E::End));
        tl.sort_by_key(|e| (e.0, e.1));
        let mut k = cfg.tick(from);
        let mut lvl = false;
        let (mut skip, mut fail) = (0i32, 0i32);
        for (tick, _, e) in tl {
            if tick > k {
                if skip == 0 {
                    if let Some(p) = rx.pin() {
                        p.0.fail.set((fail > 0).then_some(7));
                    }
                    while k < tick {
                        let (n, o) = rx.poll(lvl, tick - k);
                        k = (k + n + 1).min(tick);
                        match o {
                            Out::Nothing => {}
                            o => out.push((cfg.time_of(k), o)),
                        }
                    }
                } else {
                    k = tick;
                }
            }
            match e {
                E::Level(l) => lvl = l,
                E::Skip(b) => skip += if b { 1 } else { -1 },
                E::Fail(b) => fail += if b { 1 } else { -1 },
                E::Restart => rx = mk(),
                E::End => break,
            }
        }
        ctx.count("polls", k);
        ctx.s(k);
        return out;
    }

    // interrupts: (service time, capture time, level)
    let level_at = |t: u64| {
        let i = air.edges.partition_point(|e| e.0 <= t);
        i > 0 && air.edges[i - 1].1
    };
    let mut isr: Vec<(u64, u64, bool)> = vec![];
    let mut i = 0;
    let mut last_s = 0;
    let mut merged = 0;
    while i < edges.len() {
        let t = edges[i].0;
        if inside(&lose, t) {
            i += 1;
            continue;
        }
        let mut s = (t + cfg.lat(t)).max(last_s);
        while let Some(w) = stall.iter().find(|(a, b)| s >= *a && s < *b) {
            s = w.1;
        }
        let mut cap = t;
        let mut j = i + 1;
        while j < edges.len() && edges[j].0 <= s {
            if !inside(&lose, edges[j].0) {
                cap = edges[j].0;
                merged += 1;
            }
            j += 1;
        }
        isr.push((s, cap, level_at(s)));
        last_s = s;
        i = j;
    }
    ctx.faults("merged-edges", merged);
    for x in spur {
        isr.push((x, x, level_at(x)));
    }
    isr.sort();
    // restarts in time order
    restart.sort();
    let mut ri = 0;
    let mut prev: u64 = cfg.clk.trunc(cfg.tick(from).wrapping_add(cfg.epoch));
    let mut flank = false;
    for (s, cap, lvl) in isr {
        while ri < restart.len() && restart[ri] <= s {
            out.extend(rx.finish().into_iter().map(|c| (restart[ri], Out::Cmd(c))));
            rx = mk();
            flank = false;
            ri += 1;
        }
        let at = if cfg.capture { cap } else { s };
        let mut ts = cfg.tick(at).wrapping_add(cfg.epoch);
        for (x, d) in &steps {
            if *x <= at {
                ts = ts.wrapping_add(*d as u64);
            }
        }
        let ts = cfg.clk.trunc(ts);
        let dt = cfg.clk.trunc(ts.wrapping_sub(prev));
        if cfg.fe.buffer() {
            // entries alternate: a recorder that sees the same level twice has missed a change
            if lvl == flank {
                rx.ev(!lvl, prev, 0);
            }
            flank = lvl;
        }
        if let Some(p) = rx.pin() {
            p.0.fail.set(inside(&perr, s).then_some(9));
        }
        ctx.s(s ^ ts << 20 ^ lvl as u64);
        ctx.count("interrupts", 1);
        let o = rx.ev(lvl, ts, dt);
        match o {
            Out::Nothing => prev = ts,
            // a failed read is not retried here: the edge is simply missed
            Out::Hal(_) => out.push((s, o)),
            _ => {
                prev = ts;
                out.push((s, o));
            }
        }
    }
    while ri < restart.len() {
        out.extend(rx.finish().into_iter().map(|c| (restart[ri], Out::Cmd(c))));
        rx = mk();
        ri += 1;
    }
    let end = air.end;
    out.extend(rx.finish().into_iter().map(|c| (end, Out::Cmd(c))));
    out
}

/// Run a plain receiver node from the start.
pub fn run_rx(cfg: &RxCfg, plan: &Plan, air: &Air, from: u64, ctx: &mut Ctx) -> Vec<Report<NCmd>> {
    let out = drive(cfg, plan, air, from, &|| rx::make(cfg.proto, cfg.fe, cfg.clk, cfg.freq), ctx);
    for (t, o) in &out {
        note(*t, o, ctx);
    }
    out
}

pub fn note(t: u64, o: &Out<NCmd>, ctx: &mut Ctx) {
    ctx.h(t);
    match o {
        Out::Nothing => {}
        Out::Cmd(c) => {
            ctx.count("commands", 1);
            for f in c.f {
                ctx.h(f);
            }
            ctx.h(c.rep as u64 + 2);
        }
        Out::Err(_) => ctx.count("decode-errors", 1),
        Out::Hal(_) => ctx.count("pin-errors", 1),
    }
    ctx.log(|| format!("t={:.3}ms {}", t as f64 / 1e6, show_out(o)));
}

pub fn show(c: &NCmd) -> String {
    let f = c.f;
    let r = if c.rep { " repeat" } else { "" };
    match c.p {
        refp::Nec | refp::Nec16 | refp::Samsung => format!("{:?} addr={} cmd={}{r}", c.p, f[0], f[1]),
        refp::Apple => format!("Apple page={:#x} cmd={:#x} dev={:#x}{r}", f[0], f[1], f[2]),
        refp::NecRaw | refp::Denon => format!("{:?} bits={:#x}", c.p, f[0]),
        refp::Rc5 => format!("Rc5 addr={} cmd={} start={} toggle={}", f[0], f[1], f[2], f[3]),
        refp::Rc6 => format!("Rc6 addr={} cmd={} toggle={}", f[0], f[1], f[2]),
        refp::Sbp => format!("Sbp addr={} cmd={} valid={}", f[0], f[1], f[2]),
    }
}
pub fn show_out(o: &Out<NCmd>) -> String {
    match o {
        Out::Nothing => "-".into(),
        Out::Cmd(c) => show(c),
        Out::Err(e) => format!("error {e:?}"),
        Out::Hal(e) => format!("pin error {e}"),
    }
}
pub fn show_opt(c: &Option<NCmd>) -> String {
    c.as_ref().map_or("nothing".into(), show)
}
