//! Properties decided in the simulated world (sender or remotes, channel, receiver nodes).

use crate::ctx::{viol, Ctx, Res};
use crate::gens;
use crate::judge::{in_range, judge, judge_all, judge_nodes};
use crate::props_rc::{self, C13Plan};
use crate::props_tx::{self, TxItem, TxPlan};
use crate::refp::{self, Class, NCmd, Proto, WFrame};
use crate::rng::Rng;
use crate::run::{Tier, Typed};
use crate::rx::{self, Clk, Fe, Out};
use crate::tx::{self, Load};
use crate::world::*;
use serde::{Deserialize, Serialize};

const RX_REAL: &[&str] = &["Receiver", "PeriodicPoll", "BufferInputReceiver", "Builder", "all protocol decoders", "InfraMonotonic clocks (u32, u64, fugit 32/64)"];
const ALL_REAL: &[&str] = &["Sender and encoders", "Receiver", "PeriodicPoll", "BufferInputReceiver", "Builder", "protocol decoders", "InfraMonotonic clocks"];
const STUB: &[&str] = &["remote controls (reference waveforms)", "optical channel and demodulator", "input pin", "timers and interrupt controller"];

impl Plan {
    /// upper bound on the simulated time
    pub fn total_us(&self) -> u64 {
        self.items
            .iter()
            .map(|i| {
                let d = match &i.kind {
                    Kind::Noise(p) => p.iter().map(|(a, b)| *a as u64 + *b as u64).sum(),
                    _ => i.frame().map_or(0, |f| f.dur_us() * 15 / 10 + 3_000),
                };
                let w: u64 = i.warp.iter().map(|w| w.1 as u64 * 15 / 10).sum();
                let f = i.air.iter().map(|a| {
                    let (AirF::Pulse { at_us, dur_us } | AirF::Block { at_us, dur_us }) = a;
                    *at_us as u64 + *dur_us as u64
                });
                let g = i.rxf.iter().map(|f| match *f {
                    RxF::Lose { at_us, dur_us } | RxF::Stall { at_us, dur_us } | RxF::PinErr { at_us, dur_us } => {
                        at_us as u64 + dur_us as u64
                    }
                    RxF::Spurious { at_us } | RxF::Step { at_us, .. } | RxF::Restart { at_us } => at_us as u64,
                });
                i.gap_us as u64 + (d + w).max(f.chain(g).max().unwrap_or(0))
            })
            .sum::<u64>()
            + 100_000
    }
    /// no 32-bit counter wraps during the run
    pub fn no_wrap(&self) -> bool {
        let t = self.total_us();
        self.rx.iter().all(|r| {
            r.epoch == 0 && (r.clk.bits() == 64 || (t as u128 * r.freq() as u128 * 11 / 10 / 1_000_000) < 1 << 32)
        })
    }
    pub fn slow_down(&mut self) {
        let t = self.total_us().max(1);
        for r in &mut self.rx {
            let lim = ((1u128 << 32) * 1_000_000 * 10 / 12 / t as u128) as u64;
            if r.clk.bits() == 32 && r.freq() as u64 > lim {
                if r.clk != Clk::U32 {
                    r.clk = Clk::U32;
                }
                r.freq = (lim as u32).max(20_000);
            }
        }
    }
}

// ------------------------------------------------------------------------------------------ C01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C01Plan {
    w: Plan,
    /// commands built from numbers
    creates: Vec<Load>,
    /// pulse data taken from a sender (rate, buffer size) and handed to a buffer receiver of the same rate
    #[serde(default)]
    bufs: Vec<(Load, u8, u8)>,
}

fn send(gap: u32, load: Load) -> Item {
    Item::new(gap, Kind::Send { load, extra: vec![], crash_us: None })
}

/// Protocols whose waveform at this sender rate stays within every receiver's budget.
fn sendable(hz: u8, rx: &[RxCfg]) -> Vec<Proto> {
    tx::TX_PROTOS
        .iter()
        .copied()
        .filter(|p| {
            let c = p.class();
            rx.iter()
                .filter(|r| r.proto.class() == c)
                .all(|r| quant_ppm(c, tx::TX_HZ[hz as usize]) * 100 <= c.budget_ppm(r.freq()) * 90)
        })
        .collect()
}

fn c01_gen(r: &mut Rng, idx: u64, _t: Tier) -> C01Plan {
    let first = tx::TX_PROTOS[(idx % 6) as usize];
    let nrx = r.range(1, 3) as usize;
    let mut rx = vec![];
    for k in 0..nrx {
        let p = if k == 0 || r.chance(1, 3) { first } else { *r.pick(&refp::ALL) };
        let fe = gens::fe(r);
        rx.push(gens::node(r, p, fe));
    }
    let mut hz = r.below(tx::TX_HZ.len() as u64) as u8;
    if !sendable(hz, &rx).contains(&first) {
        hz = r.range(9, 15) as u8;
    }
    let ok = sendable(hz, &rx);
    let many = r.chance(1, 1_000);
    let n = if many { r.range(256, 268) } else { r.range(1, 5) };
    let mut items = vec![];
    for k in 0..n {
        let p = if (k == 0 || r.chance(2, 3)) && ok.contains(&first) { first } else { *r.pick(&ok) };
        let mut l = gens::load(r, p);
        if r.chance(1, 3) && p != refp::NecRaw && p != refp::Nec16 {
            l.create = true;
        }
        let mut it = send(gens::gap(r).min(if many { 21_000 } else { 150_000 }), l);
        if r.chance(1, 5) {
            if let Kind::Send { extra, load, .. } = &mut it.kind {
                let d = load.frame().dur_us();
                let q = *r.pick(&tx::TX_PROTOS);
                extra.push((r.range(500, d * 8 / 10) as u32, gens::load(r, q)));
            }
        }
        items.push(it);
    }
    let mut w = Plan {
        rx,
        tx: Some(TxCfg { hz, buf: r.below(4) as u8, skew_ppm: 0, phase_ns: r.below(100_000) as u32 }),
        items,
        aux: 0,
    };
    gens::tune(r, &mut w);
    w.slow_down();
    // the slower clock may have a smaller budget
    if !w.in_budget() {
        w.tx.as_mut().unwrap().skew_ppm = 0;
        for n in &mut w.rx {
            n.skew_ppm = 0;
            n.lat_ns = 0;
        }
    }
    if !w.in_budget() {
        w.items.retain(|i| i.frame().is_some_and(|f| f.class != Class::Rc6));
    }
    let creates = (0..r.range(1, 4))
        .map(|_| Load {
            p: *r.pick(&[refp::Nec, refp::Samsung, refp::Rc5, refp::Rc6, refp::Sbp]),
            f: [gens::code(r), gens::code(r), 0, 0],
            create: true,
        })
        .collect();
    let bufs = (0..5)
        .map(|k| {
            let mut l = gens::load(r, first);
            if k > 0 {
                l.f = gens::nth(idx / 6 * 4 + k - 1, first);
            }
            l.create = false;
            let n = tx::TX_HZ.len() as u64;
            let mut hz = r.below(n) as u8;
            while !bufsend(&l, hz) {
                hz = (hz + 1) % n as u8;
            }
            (l, hz, r.below(4) as u8)
        })
        .collect();
    C01Plan { w, creates, bufs }
}

/// At this rate the pulses are long enough in ticks for a receiver with the same clock.
fn bufsend(l: &Load, hz: u8) -> bool {
    let (c, f) = (l.p.class(), tx::TX_HZ[hz as usize]);
    quant_ppm(c, f) * 100 <= c.budget_ppm(f) * 90
}

fn c01_exec(p: &C01Plan, ctx: &mut Ctx) -> Res {
    let from_numbers = p.w.items.iter().filter_map(|i| match &i.kind {
        Kind::Send { load, .. } if load.create => Some(load),
        _ => None,
    });
    for l in p.creates.iter().chain(from_numbers) {
        ctx.count("creates", 1);
        let Some(c) = tx::build(l) else {
            ctx.count("creates-refused", 1);
            continue;
        };
        let got = c.addr_cmd();
        if got != Some((l.f[0] as u32, l.f[1] as u32)) || !in_range(l) {
            return viol(
                "create",
                format!("{:?}: create({}, {}) is accepted and becomes {:?}, what is sent carries neither", l.p, l.f[0], l.f[1], got),
            );
        }
    }
    for (l, hz, buf) in &p.bufs {
        let mut s = tx::make(*hz, *buf, false);
        let f = tx::TX_HZ[*hz as usize];
        let Some(c) = tx::build(l) else { continue };
        s.load(&c);
        let mut b = s.buffer();
        if let Some(k) = tx::PD_HZ.iter().position(|x| *x == f) {
            // the pulse sender after another command
            let mut s = tx::make_pd(k as u8, *buf);
            s.load(&c);
            s.tick(5);
            s.load(&c);
            b = s.buffer();
        }
        let mut rx = rx::make(l.p, Fe::Buffer, Clk::U32, f);
        for (i, d) in b.iter().enumerate() {
            rx.ev(i % 2 == 0, 0, *d as u64);
            ctx.h(*d as u64);
        }
        let got = rx.finish();
        let want = refp::ref_decode(l.p, l.frame().bits, false);
        ctx.count("verdicts", 1);
        ctx.count("buffers-judged", 1);
        if got != want.into_iter().collect::<Vec<_>>() {
            return viol(
                "buffer",
                format!("{:?} at {f} Hz: the pulses in the sender's buffer {b:?} are read as {:?} instead of {}", l.p, got.iter().map(show).collect::<Vec<_>>(), show_opt(&want)),
            );
        }
    }
    judge_all(&p.w, ctx)
}

pub fn c01() -> Typed<C01Plan> {
    Typed {
        id: "C01",
        runs: (400_000, 12_000_000),
        gen: c01_gen,
        valid: |p| {
            p.w.sane() && p.w.in_budget() && p.w.no_wrap()
                && p.w.items.iter().all(|i| matches!(i.kind, Kind::Send { crash_us: None, .. }) && i.air.is_empty() && i.rxf.is_empty())
                && p.bufs.iter().all(|(l, hz, buf)| (*hz as usize) < tx::TX_HZ.len() && *buf < 4 && !l.create && l.in_range() && tx::TX_PROTOS.contains(&l.p) && bufsend(l, *hz))
                && p.creates.iter().all(|l| l.create && l.f[0] < 1 << 32 && l.f[1] < 1 << 32)
        },
        exec: c01_exec,
        nontrivial: |c| c.get("commands") > 0,
        rule: "a seed makes one sender (22 rates, skew, phase), 1-3 receiver nodes (9 protocols, 14 front ends, 20 clocks, skew, latency) and 1-5 loads (rarely some 260), or commands whose pulse data goes straight into a buffer receiver; non-trivial: at least one command was delivered and judged",
        real: ALL_REAL,
        stub: STUB,
        assumptions: &["at least 20 ms between transmissions", "intervals within 4.5% (RC5 8%; RC6 5%, 2.5% below 100 kHz)"],
    }
}

// ------------------------------------------------------------------------------------------ C03

fn c03_gen(r: &mut Rng, idx: u64, _t: Tier) -> Plan {
    let first = refp::ALL[(idx % 9) as usize];
    let mut rx = vec![];
    for k in 0..r.range(1, 3) {
        let p = if k == 0 || r.chance(1, 2) { first } else { *r.pick(&refp::ALL) };
        let fe = gens::fe(r);
        rx.push(gens::node(r, p, fe));
    }
    let mut items = vec![];
    let n = if rx.iter().any(|n| n.fe.polled()) { r.range(1, 6) } else { gens::count(r, 1, 6, 300) };
    for k in 0..n {
        let p = if k == 0 || r.chance(2, 3) { first } else { *r.pick(&refp::ALL) };
        let fr = match k {
            0 => gens::nth_frame(idx / 9, p),
            _ if p.is_nec() && r.chance(1, 4) => WFrame::repeat(p.class()),
            _ => gens::frame(r, p),
        };
        items.push(Item::new(gens::gap(r), Kind::Frame(fr)));
    }
    let mut w = Plan { rx, tx: None, items, aux: 0 };
    gens::tune(r, &mut w);
    w.slow_down();
    while !w.in_budget() {
        for i in &mut w.items {
            i.skew_ppm /= 2;
            i.jit_ppm /= 2;
        }
        for n in &mut w.rx {
            n.skew_ppm /= 2;
            n.lat_ns /= 2;
        }
    }
    gens::alias(r, &mut w);
    w
}

fn clean(p: &Plan) -> bool {
    p.sane() && p.in_budget() && p.no_wrap() && p.items.iter().all(|i| !i.dirty())
}

pub fn c03() -> Typed<Plan> {
    Typed {
        id: "C03",
        runs: (2_400_000, 40_000_000),
        gen: c03_gen,
        valid: clean,
        exec: |p, ctx| judge_nodes(p, true, ctx),
        nontrivial: |c| c.get("commands") > 0,
        rule: "a seed makes 1-6 frames of any of 6 waveforms (skew, per-interval jitter, mark stretch, gap) heard by 1-3 receiver nodes; non-trivial: at least one command was delivered and judged",
        real: RX_REAL,
        stub: STUB,
        assumptions: &["the budget covers remote skew, receiver skew, jitter and latency together"],
    }
}

// ------------------------------------------------------------------------------------------ C04

fn chaos_item(r: &mut Rng, mine: Proto, with_tx: bool) -> Item {
    let g = gens::gap(r);
    let p = if r.chance(3, 4) { mine } else { *r.pick(&refp::ALL) };
    let mut it = match r.below(6) {
        0 => {
            let n = r.range(1, 40);
            let style = r.below(3);
            let pulses = (0..n)
                .map(|_| match style {
                    0 => (r.log(10, 20_000) as u32, r.log(10, 20_000) as u32),
                    1 => (r.range(200, 2_000) as u32, r.range(200, 2_000) as u32),
                    _ => {
                        // near-protocol pulses
                        let iv = WFrame::new(p.class(), r.u64()).intervals();
                        let k = r.below(iv.len() as u64 / 2) as usize;
                        (iv[2 * k + 1], iv[2 * k])
                    }
                })
                .collect();
            return Item::new(g, Kind::Noise(pulses));
        }
        1 if with_tx => {
            let q = *r.pick(&tx::TX_PROTOS);
            let load = gens::load(r, q);
            let c = r.range(0, load.frame().dur_us()) as u32;
            return Item::new(g.min(150_000), Kind::Send { load, extra: vec![], crash_us: Some(c) });
        }
        _ => Item::new(g, Kind::Frame(gens::frame(r, p))),
    };
    let fr = it.frame().unwrap();
    let n = fr.intervals().len() as u64;
    let d = fr.dur_us();
    it.skew_ppm = if r.chance(1, 3) { r.irange(-250_000, 250_000) as i32 } else { r.irange(-30_000, 30_000) as i32 };
    let at = |r: &mut Rng| r.below(d + 1) as u32;
    let dur = |r: &mut Rng| match r.below(5) {
        0 => r.log(20_000, 3_000_000) as u32,
        _ => r.log(50, 30_000) as u32,
    };
    for _ in 0..r.range(1, 3) {
        match r.below(12) {
            0 => it.cut = Some(r.range(1, n) as u8),
            1 => {
                let us = match r.below(3) {
                    0 => *r.pick(&fr.intervals()),
                    1 => r.log(1, 100_000) as u32,
                    _ => r.log(50, 12_000) as u32,
                };
                it.warp.push((r.below(n) as u8, us))
            }
            2 => it.air.push(AirF::Pulse { at_us: at(r), dur_us: dur(r) }),
            3 => it.air.push(AirF::Block { at_us: at(r), dur_us: dur(r) }),
            4 => it.air.push(AirF::Pulse { at_us: at(r), dur_us: r.range(1, 100) as u32 }),
            5 | 6 => it.rxf.push(RxF::Lose { at_us: at(r), dur_us: dur(r).min(60_000) }),
            7 => it.rxf.push(RxF::Stall { at_us: at(r), dur_us: dur(r).min(60_000) }),
            8 => it.rxf.push(RxF::Spurious { at_us: at(r) }),
            9 => it.rxf.push(RxF::PinErr { at_us: at(r), dur_us: dur(r).min(60_000) }),
            10 => it.rxf.push(RxF::Restart { at_us: at(r) }),
            _ => {
                // lose a single edge
                let iv = fr.intervals();
                let k = r.below(iv.len() as u64) as usize;
                let s: u64 = iv[..k].iter().map(|v| *v as u64).sum();
                it.skew_ppm = 0;
                it.rxf.push(RxF::Lose { at_us: (s.saturating_sub(60)) as u32, dur_us: 120 })
            }
        }
    }
    it
}

fn c04_gen(r: &mut Rng, idx: u64, _t: Tier) -> Plan {
    let mine = refp::ALL[(idx % 9) as usize];
    let fe = if r.chance(1, 12) { *r.pick(&rx::FE_BUF) } else if r.chance(1, 4) { *r.pick(&rx::FE_POLL) } else { *r.pick(&rx::FE_EVENT) };
    let rx = vec![gens::node(r, mine, fe)];
    let with_tx = r.chance(1, 8);
    let mut items = vec![];
    let n = if fe.polled() || with_tx { r.range(1, 5) } else { gens::count(r, 1, 5, 600) };
    for _ in 0..n {
        if r.chance(3, 4) {
            items.push(chaos_item(r, mine, with_tx));
        } else {
            items.push(Item::new(gens::gap(r), Kind::Frame(gens::frame(r, mine))));
        }
    }
    let aux = r.below(items.len() as u64 + 1) as u32;
    items.push(Item::new(gens::gap(r), Kind::Frame(gens::frame(r, mine))));
    let tx = with_tx.then(|| TxCfg { hz: r.below(12) as u8, buf: r.below(4) as u8, skew_ppm: 0, phase_ns: r.below(100_000) as u32 });
    let mut w = Plan { rx, tx, items, aux };
    let keep: Vec<i32> = w.items.iter().map(|i| i.skew_ppm).collect();
    gens::tune(r, &mut w);
    for (i, s) in w.items.iter_mut().zip(keep) {
        if i.dirty() {
            i.skew_ppm = s;
        }
    }
    w.slow_down();
    while !w.in_budget() {
        for i in &mut w.items {
            i.skew_ppm /= 2;
            i.jit_ppm /= 2;
        }
        for n in &mut w.rx {
            n.skew_ppm /= 2;
            n.lat_ns /= 2;
        }
    }
    if w.rx[0].fe.polled() {
        w.rx[0].freq = w.rx[0].freq.min(100_000);
        if r.chance(1, 100) {
            // a long silence: more than 2^20 polls
            let us = (r.range(1_050_000, 2_500_000) * 1_000_000 / w.rx[0].freq as u64).min(40_000_000) as u32;
            let k = r.below(w.items.len() as u64) as usize;
            w.items[k].gap_us = us;
        }
        if w.total_us() > 50_000_000 {
            w.rx[0].fe = Fe::Dt;
        }
    }
    if !w.in_budget() {
        for i in &mut w.items {
            if !i.dirty() {
                i.skew_ppm = 0;
                i.jit_ppm = 0;
            }
        }
        w.rx[0].skew_ppm = 0;
        w.rx[0].lat_ns = 0;
    }
    gens::alias(r, &mut w);
    w
}

fn c04_exec(p: &Plan, ctx: &mut Ctx) -> Res {
    let a = air(p, ctx);
    let cfg = &p.rx[0];
    let who = format!("{:?} {:?} {:?} {} Hz", cfg.proto, cfg.fe, cfg.clk, cfg.freq());
    let out = run_rx(cfg, p, &a, 0, ctx);
    judge(p, &a, cfg, &out, &who, ctx)?;
    if cfg.fe.buffer() {
        return Ok(());
    }
    // a receiver created when the line went quiet before item `aux`
    let k = (p.aux as usize).min(p.items.len() - 1);
    let q = if k == 0 { 0 } else { a.slots[k - 1].end };
    ctx.log(|| format!("twin created at {:.3} ms", q as f64 / 1e6));
    let twin = run_rx(cfg, p, &a, q, ctx);
    let cmds = |v: &[Report<NCmd>]| -> Vec<(u64, NCmd)> {
        v.iter().filter_map(|(t, o)| if let Out::Cmd(c) = o { Some((*t, *c)) } else { None }).collect()
    };
    let m = cmds(&out);
    let tw = cmds(&twin);
    let (mut i, mut j) = (0, 0);
    let mut earlier: Vec<NCmd> = vec![];
    // polls report a little after the edge: what comes before the next item belongs to the last
    let s = if k == 0 { 0 } else { a.slots[k].start };
    while i < m.len() && m[i].0 < s {
        earlier.push(m[i].1);
        i += 1;
    }
    if j < tw.len() && tw[j].0 < s {
        return viol("unlike-fresh", format!("{who}: a receiver created in the quiet time before item {k} reports {}", show(&tw[j].1)));
    }
    ctx.count("verdicts", 1);
    loop {
        match (m.get(i), tw.get(j)) {
            (None, None) => return Ok(()),
            (Some(x), Some(y)) if x == y => {
                earlier.push(x.1);
                i += 1;
                j += 1;
            }
            (Some(x), y)
                if y.is_none_or(|y| y.0 > x.0)
                    && cfg.proto.is_nec()
                    && (x.1.rep || cfg.proto == refp::NecRaw && earlier.contains(&x.1)) =>
            {
                i += 1;
            }
            (x, y) => {
                return viol(
                    "unlike-fresh",
                    format!(
                        "{who}: after the quiet time before item {k} the receiver reports {}, a newly created one {}",
                        x.map_or("nothing more".into(), |x| format!("{} at {:.3} ms", show(&x.1), x.0 as f64 / 1e6)),
                        y.map_or("nothing more".into(), |x| format!("{} at {:.3} ms", show(&x.1), x.0 as f64 / 1e6)),
                    ),
                )
            }
        }
    }
}

fn has_step(p: &Plan) -> bool {
    p.items.iter().any(|i| i.rxf.iter().any(|f| matches!(f, RxF::Step { .. })))
}

pub fn c04() -> Typed<Plan> {
    Typed {
        id: "C04",
        runs: (1_800_000, 40_000_000),
        gen: c04_gen,
        valid: |p| p.sane() && p.in_budget() && p.no_wrap() && p.rx.len() == 1 && !has_step(p) && !p.items.is_empty(),
        exec: c04_exec,
        nontrivial: |c| !c.faults.is_empty() && c.get("commands") > 0,
        rule: "a seed makes up to 5 disturbed or clean transmissions (1-3 faults each at random points of the frame) and a clean one after 20 ms of quiet, heard by one receiver and by one created at a random quiet moment; non-trivial: at least one fault was injected and one command delivered",
        real: ALL_REAL,
        stub: STUB,
        assumptions: &["quiet: line off for 20 ms and no fault active"],
    }
}

// ------------------------------------------------------------------------------------------ C06

/// Two ways to tell a NEC history: frames on the air with faults, or well-formed symbols in any
/// order on the line of a duration-driven receiver.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C06Plan {
    World(Plan),
    Symbols {
        proto: Proto,
        fe: Fe,
        clk: Clk,
        freq: u32,
        /// segments, each after 40 ms of quiet; 0: header, 1: repeat, 2: zero, 3: one, 4: no symbol, 5 + i: frame i
        segs: Vec<Vec<u8>>,
        frames: Vec<u32>,
    },
}

fn c06_any(r: &mut Rng, idx: u64, t: Tier) -> C06Plan {
    if idx % 4 != 3 {
        return C06Plan::World(c06_gen(r, idx, t));
    }
    let proto = [refp::Nec, refp::Nec16, refp::Samsung, refp::Apple, refp::NecRaw][(idx / 4 % 5) as usize];
    let fe = *r.pick(&[Fe::Dt, Fe::Edge, Fe::PinDt, Fe::Built, Fe::Raw, Fe::Step]);
    let clk = gens::clk(r);
    let freq = clk.fixed_hz().unwrap_or(gens::event_freq(r));
    let frames: Vec<u32> = (0..r.range(1, 3)).map(|_| gens::frame(r, proto).bits as u32).collect();
    let mut segs = vec![];
    for _ in 0..r.range(1, 5) {
        let mut s = vec![];
        if r.chance(1, 40) {
            // a button held for long
            s.push(5 + r.below(frames.len() as u64) as u8);
            let n = if r.chance(1, 200) { r.range(65_000, 67_000) } else { r.log(100, 2_000) };
            s.extend((0..n).map(|_| 1));
            segs.push(s);
            continue;
        }
        for _ in 0..r.range(1, 6) {
            match r.below(8) {
                0 => s.push(0),
                1 | 2 => s.push(1),
                3 => s.push(r.range(2, 4) as u8),
                4 => {
                    // part of a frame
                    s.push(0);
                    s.extend((0..r.range(1, 40)).map(|_| r.range(2, 3) as u8));
                }
                _ => s.push(5 + r.below(frames.len() as u64) as u8),
            }
        }
        segs.push(s);
    }
    C06Plan::Symbols { proto, fe, clk, freq, segs, frames }
}

fn c06_symbols(proto: Proto, fe: Fe, clk: Clk, freq: u32, segs: &[Vec<u8>], frames: &[u32], ctx: &mut Ctx) -> Res {
    let hh = if proto == refp::Samsung { 4500 } else { 9000 };
    let tk = |us: u64| (us as u128 * freq as u128 / 1_000_000) as u64;
    let mut rx = rx::make(proto, fe, clk, freq);
    // symbols since the last header, None: it is not the start of a frame any more
    let mut open: Option<(u32, u32)> = None;
    // bits of the frame the last header started, and whether every decoder recognised that header
    let mut mem: Option<(u32, bool)> = None;
    let mut hist: Vec<String> = vec![];
    for seg in segs {
        let mut sym: Vec<u8> = vec![];
        for s in seg {
            if *s >= 5 {
                sym.push(0);
                let b = frames[*s as usize - 5];
                sym.extend((0..32).map(|i| 2 + (b >> i & 1) as u8));
            } else {
                sym.push(*s);
            }
        }
        rx.ev(true, 0, tk(40_000));
        open = None;
        // a decoder that is in the middle of something may take the next header for garbage
        let mut idle = true;
        let mut sure = false;
        ctx.sim_ns += 40_000_000;
        for s in &sym {
            let (m, sp) = match s {
                0 => (hh, 4500),
                1 => (hh, 2250),
                2 => (560, 560),
                3 => (560, 1690),
                _ => (560, 3000),
            };
            ctx.sim_ns += (m + sp) as u128 * 1000;
            ctx.count("edges", 2);
            ctx.s(*s as u64);
            rx.ev(false, 0, tk(m));
            let o = rx.ev(true, 0, tk(sp));
            let got = if let Out::Cmd(c) = o { Some(c) } else { None };
            let mut exp: Option<(Option<NCmd>, bool)> = Some((None, true));
            match *s {
                0 => {
                    sure = idle;
                    idle = false;
                    open = Some((0, 0));
                    mem = None;
                }
                2 | 3 => {
                    if let Some((n, b)) = open {
                        let b = b | ((*s as u32) - 2) << n;
                        open = Some((n + 1, b));
                        if n == 31 {
                            open = None;
                            mem = Some((b, sure));
                            if sure {
                                idle = true;
                            }
                            exp = Some((refp::ref_decode(proto, b as u64, false), sure));
                        }
                    }
                }
                1 if open.is_some() => {
                    open = None;
                    idle = sure;
                }
                1 => {
                    exp = Some(match mem {
                        Some((b, must)) => (refp::ref_decode(proto, b as u64, true), must && idle),
                        None => (None, true),
                    });
                    ctx.count("repeats-judged", 1);
                }
                _ => {
                    if open.take().is_some() {
                        idle = sure;
                    }
                }
            }
            hist.push(["header", "repeat", "0", "1", "garbage"][*s as usize].into());
            let (want, must) = exp.unwrap();
            ctx.count("verdicts", 1);
            let ok = got == want || (!must && got.is_none());
            if let Some(c) = got {
                ctx.count("commands", 1);
                ctx.h(c.f[0] ^ c.f[1] << 32 ^ (c.rep as u64) << 63);
            }
            if !ok {
                let n = hist.len().saturating_sub(40);
                return viol(
                    format!("symbols:{}", if want.is_none() { "phantom" } else if got.is_none() { "lost" } else { "wrong" }),
                    format!(
                        "{proto:?} {fe:?} {clk:?} {freq} Hz: at the last of the symbols [{}]: expected {}, reported {}",
                        hist[n..].join(" "), show_opt(&want), show_opt(&got)
                    ),
                );
            }
        }
        hist.push("quiet".into());
        rx.ev(false, 0, tk(560));
    }
    let _ = open;
    Ok(())
}

fn c06_gen(r: &mut Rng, idx: u64, _t: Tier) -> Plan {
    let mine = [refp::Nec, refp::Nec16, refp::Samsung, refp::Apple, refp::NecRaw][(idx % 5) as usize];
    let fe = if r.chance(1, 4) { *r.pick(&rx::FE_POLL) } else { *r.pick(&rx::FE_EVENT) };
    let c = mine.class();
    let mut items: Vec<Item> = vec![];
    let n = if fe.polled() { r.range(1, 8) } else { gens::count(r, 1, 8, 1_000) };
    for _ in 0..n {
        let g = gens::gap(r);
        let mut fr = gens::frame(r, mine);
        if r.chance(1, 3) {
            // the same command again
            if let Some(f) = items.iter().rev().filter_map(|i| i.frame()).find(|f| !f.repeat) {
                fr = f;
            }
        }
        let mut it = Item::new(g, Kind::Frame(fr));
        match r.below(10) {
            0..=3 => it.kind = Kind::Frame(WFrame::repeat(c)),
            4 => it.cut = Some(r.range(3, 66) as u8),
            5 => it.warp.push((r.range(2, 65) as u8, r.range(3_200, 4_200) as u32)),
            6 if r.chance(1, 2) => it.warp.push((r.below(2) as u8, r.range(30_000, 60_000) as u32)),
            6 => it.kind = Kind::Noise((0..r.range(1, 6)).map(|_| (r.range(300, 2_500) as u32, r.range(100, 900) as u32)).collect()),
            7 if r.chance(1, 2) => it.rxf.push(RxF::Restart { at_us: r.range(15_500, 30_000) as u32 }),
            _ => {}
        }
        items.push(it);
    }
    let mut w = Plan { rx: vec![gens::node(r, mine, fe)], tx: None, items, aux: 0 };
    gens::tune(r, &mut w);
    w.slow_down();
    while !w.in_budget() {
        for i in &mut w.items {
            i.skew_ppm /= 2;
            i.jit_ppm /= 2;
        }
        w.rx[0].skew_ppm /= 2;
        w.rx[0].lat_ns /= 2;
    }
    for i in &mut w.items {
        if i.dirty() {
            i.skew_ppm = i.skew_ppm.clamp(-20_000, 20_000);
            i.jit_ppm = i.jit_ppm.min(10_000);
            i.stretch_us = 0;
        }
    }
    gens::alias(r, &mut w);
    w
}

fn c06_valid(p: &Plan) -> bool {
    p.sane()
        && p.in_budget()
        && p.no_wrap()
        && p.rx.len() == 1
        && p.rx[0].proto.is_nec()
        && !p.rx[0].fe.buffer()
        && p.items.iter().all(|i| {
            let ok = match &i.kind {
                Kind::Frame(f) => f.class == p.rx[0].proto.class() && !(f.repeat && i.dirty()),
                Kind::Noise(n) => n.iter().all(|(a, b)| *a <= 2_500 && *b <= 900 && *a >= 100 && *b >= 50),
                _ => false,
            };
            let kinds = i.warp.len() + i.cut.is_some() as usize + i.rxf.len() + i.air.len();
            ok && kinds <= 1
                && i.air.is_empty()
                && (i.cut.is_none_or(|c| (3..=66).contains(&c)))
                && i.warp.iter().all(|(k, us)| match *k {
                    0 | 1 => (30_000..=60_000).contains(us),
                    2..=65 => (3_200..=4_200).contains(us),
                    _ => false,
                })
                && i.rxf.iter().all(|f| matches!(f, RxF::Restart { at_us } if (15_500..=30_000).contains(at_us)))
                && (!i.dirty() || (i.skew_ppm.abs() <= 20_000 && i.jit_ppm <= 10_000 && i.stretch_us == 0))
        })
}

fn c06_exec(p: &Plan, ctx: &mut Ctx) -> Res {
    let a = air(p, ctx);
    let cfg = &p.rx[0];
    let out = run_rx(cfg, p, &a, 0, ctx);
    // None: nothing to repeat. Some(None): last frame garbled.
    let mut mem: Option<u64> = None;
    let mut hist = String::from("power-up");
    for (i, it) in p.items.iter().enumerate() {
        let lo = a.slots[i].start;
        let hi = a.slots.get(i + 1).map_or(u64::MAX, |s| s.start);
        let got: Vec<NCmd> = out
            .iter()
            .filter(|(t, _)| *t >= lo && *t < hi)
            .filter_map(|(_, o)| if let Out::Cmd(c) = o { Some(*c) } else { None })
            .collect();
        let (exp, what): (Option<NCmd>, &str) = match &it.kind {
            Kind::Frame(f) if f.repeat => (mem.and_then(|b| refp::ref_decode(cfg.proto, b, true)), "repeat"),
            Kind::Frame(_) if !it.rxf.is_empty() => {
                mem = None;
                (None, "restart")
            }
            Kind::Frame(f) => {
                if it.cut.is_some() || it.warp.iter().any(|w| w.0 >= 2) {
                    mem = None;
                    (None, "garbled frame")
                } else if !it.warp.is_empty() {
                    (None, "garbled header")
                } else {
                    mem = Some(f.bits);
                    (refp::ref_decode(cfg.proto, f.bits, false), "frame")
                }
            }
            _ => (None, "noise"),
        };
        ctx.count("verdicts", 1);
        if what == "repeat" {
            ctx.count("repeats-judged", 1);
        }
        let ok = match (&exp, &got[..]) {
            (None, []) => true,
            (Some(x), [y]) => x == y,
            _ => false,
        };
        if !ok {
            return viol(
                format!("{}:{}", what.replace(' ', "-"), if exp.is_none() { "phantom" } else if got.is_empty() { "lost" } else { "wrong" }),
                format!(
                    "{:?} {:?} {:?} {} Hz: {what} (item {i}) after [{hist}]: expected {}, reported {}",
                    cfg.proto, cfg.fe, cfg.clk, cfg.freq(),
                    show_opt(&exp),
                    if got.is_empty() { "nothing".into() } else { got.iter().map(show).collect::<Vec<_>>().join(", ") }
                ),
            );
        }
        hist.push_str(", ");
        hist.push_str(what);
    }
    Ok(())
}

pub fn c06() -> Typed<C06Plan> {
    Typed {
        id: "C06",
        runs: (5_000_000, 60_000_000),
        gen: c06_any,
        valid: |p| match p {
            C06Plan::World(w) => c06_valid(w),
            C06Plan::Symbols { proto, fe, clk, freq, segs, frames } => {
                proto.is_nec()
                    && !fe.polled() && !fe.buffer() && !fe.inst()
                    && rx::fits(*fe, *clk)
                    && (20_000..=1_000_000_000).contains(freq)
                    && clk.fixed_hz().is_none_or(|f| f == *freq)
                    && segs.len() <= 8
                    && segs.iter().all(|s| s.len() <= 70_000 && s.iter().all(|x| *x < 5 + frames.len() as u8))
                    && frames.len() <= 8
            }
        },
        exec: |p, ctx| match p {
            C06Plan::World(w) => c06_exec(w, ctx),
            C06Plan::Symbols { proto, fe, clk, freq, segs, frames } => c06_symbols(*proto, *fe, *clk, *freq, segs, frames, ctx),
        },
        nontrivial: |c| c.get("repeats-judged") > 0,
        rule: "a seed makes up to 8 command frames, repeat frames, frames cut or garbled at a random interval, garbled headers, noise bursts and receiver restarts for one of 5 NEC variants, or headers, repeats, bits, garbage and whole frames in any order on the line; non-trivial: at least one repeat frame was judged",
        real: RX_REAL,
        stub: STUB,
        assumptions: &["a garbled interval is one that is no symbol of the protocol (3.2-4.2 ms)"],
    }
}

// ------------------------------------------------------------------------------------------ C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C11Plan {
    Clock(Plan),
    /// poll counter wrap: idle polls, then frames, tick by tick
    Polls { proto: Proto, fe: Fe, freq: u32, idle: u64, frames: Vec<(u32, WFrame)>, phase: u32 },
}

fn c11_gen(r: &mut Rng, idx: u64, t: Tier) -> C11Plan {
    let npoll = if t == Tier::Quick { 9 } else { 96 };
    if idx < npoll {
        let proto = refp::ALL[((idx + r.below(9) * (idx / 9)) % 9) as usize];
        let freq = gens::poll_freq(r).min(60_000);
        let fr = gens::frame(r, proto);
        let ticks = fr.dur_us() * freq as u64 / 1_000_000;
        let k = if r.chance(3, 4) { r.below(ticks) } else { r.below(60_000) };
        let g = gens::gap(r);
        let f2 = gens::frame(r, proto);
        return C11Plan::Polls {
            proto,
            fe: *r.pick(&rx::FE_POLL),
            freq,
            idle: (1 << 32) - 1 - k,
            frames: vec![(0, fr), (g, f2)],
            phase: r.below(1_000) as u32,
        };
    }
    let mine = refp::ALL[(idx % 9) as usize];
    let fe = if r.chance(5, 6) { *r.pick(&[Fe::Inst, Fe::PinInst, Fe::BuiltPin]) } else { *r.pick(&[Fe::Dt, Fe::PinDt, Fe::Raw]) };
    let mut n = gens::node(r, mine, fe);
    if r.chance(2, 3) {
        n.clk = *r.pick(&[Clk::U32, Clk::U32, Clk::F32(3), Clk::F32(4), Clk::F32(0)]);
        n.freq = n.clk.fixed_hz().unwrap_or(n.freq);
    }
    let f = n.freq() as u64;
    // longest gap below 2^32 ticks
    let maxgap = (((1u128 << 32) * 1_000_000 / f as u128 * 9 / 10) as u64).min(4_000_000_000);
    let mut items = vec![];
    for _ in 0..r.range(1, 5) {
        let g = match r.below(4) {
            0 if maxgap > 400_000 => r.log(20_000, maxgap) as u32,
            1 if maxgap > 400_000 => r.range(maxgap / 2, maxgap) as u32,
            _ => gens::gap(r).min(maxgap.max(20_000) as u32),
        };
        let fr = gens::frame(r, mine);
        let mut it = Item::new(g, Kind::Frame(fr));
        if r.chance(1, 5) {
            let mag = r.log(1, (f / 10).max(2)) as i64;
            let ticks = if r.chance(3, 4) { -mag } else { mag };
            let ticks = if r.chance(1, 5) { -(r.log(1, 1 << 40) as i64) } else { ticks };
            it.rxf.push(RxF::Step { at_us: r.below(fr.dur_us() * 7 / 10) as u32, ticks });
        }
        items.push(it);
    }
    items.push(Item::new(gens::gap(r).min(maxgap.max(20_000) as u32), Kind::Frame(gens::frame(r, mine))));
    let mut w = Plan { rx: vec![n], tx: None, items, aux: 0 };
    gens::tune(r, &mut w);
    // put the wrap somewhere: inside a frame, in a gap, or nowhere
    if r.chance(5, 6) {
        let mut c = Ctx::new(false);
        let a = air(&w, &mut c);
        let k = r.below(a.slots.len() as u64) as usize;
        let t = if r.chance(3, 4) {
            r.range(a.slots[k].start, a.slots[k].end)
        } else {
            r.range(a.slots[k].start - w.items[k].gap_us as u64 * 1000, a.slots[k].start)
        };
        let cfg = &w.rx[0];
        let m = match cfg.clk {
            // fugit compares modulo half the range: its sign flips there
            Clk::F32(_) if r.chance(1, 3) => 1u64 << 31,
            _ if cfg.clk.bits() == 32 => 1u64 << 32,
            _ => if r.chance(1, 2) { 1u64 << 32 } else { 0u64 },
        };
        let e = m.wrapping_sub(cfg.tick(t));
        w.rx[0].epoch = if w.rx[0].clk.bits() == 32 { e & 0xffff_ffff } else { e };
    }
    if has_step(&w) && w.rx[0].clk.bits() == 64 {
        w.rx[0].epoch = w.rx[0].epoch.max(1 << 45);
    }
    if !first_ok(&w) {
        w.rx[0].epoch = if has_step(&w) && w.rx[0].clk.bits() == 64 { 1 << 45 } else { 0 };
        w.items[0].gap_us = w.items[0].gap_us.max(30_000);
    }
    C11Plan::Clock(w)
}

/// A new receiver's first timestamp must not look like a pulse length after zero.
fn first_ok(w: &Plan) -> bool {
    let mut c = Ctx::new(false);
    let a = air(w, &mut c);
    let cfg = &w.rx[0];
    let q = cfg.freq() as u64 / 50;
    a.edges.iter().take(1).all(|e| {
        let ts = cfg.clk.trunc(cfg.tick(e.0).wrapping_add(cfg.epoch));
        ts > q && (cfg.clk.bits() == 32 || ts < 1 << 63)
    })
}

fn steps_back(w: &Plan) -> u128 {
    let f = w.items.iter().flat_map(|i| &i.rxf);
    f.map(|f| if let RxF::Step { ticks, .. } = f { (-(*ticks as i128)).max(0) as u128 } else { 0 }).sum()
}

fn c11_valid(p: &C11Plan) -> bool {
    match p {
        C11Plan::Clock(w) => {
            w.sane()
                && w.in_budget()
                && w.rx.len() == 1
                && !w.rx[0].fe.polled()
                && !w.rx[0].fe.buffer()
                && w.rx[0].clk.trunc(w.rx[0].epoch) == w.rx[0].epoch
                // a 64-bit counter neither wraps nor becomes negative
                && (w.rx[0].clk.bits() == 32
                    || w.rx[0].epoch < 1 << 62
                        && steps_back(w) <= w.rx[0].epoch as u128)
                && w.items.iter().all(|i| {
                    (i.gap_us as u128 + 500_000) * w.rx[0].freq() as u128 * 105 / 100 / 1_000_000 < 1 << 32 || w.rx[0].clk.bits() == 64
                })
                && w.items.iter().all(|i| {
                    matches!(i.kind, Kind::Frame(_))
                        && i.air.is_empty()
                        && i.warp.is_empty()
                        && i.cut.is_none()
                        && i.rxf.len() <= 1
                        && i.skew_ppm.abs() <= 80_000
                        && i.jit_ppm <= 80_000
                        && i.rxf.iter().all(|f| {
                            matches!(f, RxF::Step { at_us, ticks } if *at_us as u64 <= i.frame().unwrap().dur_us() * 7 / 10 && *ticks != 0)
                        })
                })
                && first_ok(w)
        }
        C11Plan::Polls { fe, freq, idle, frames, .. } => {
            fe.polled()
                && (20_000..=100_000).contains(freq)
                && *idle < 1 << 32
                && frames.len() <= 3
                && frames.iter().skip(1).all(|f| f.0 >= QUIET_US && f.0 <= 1_000_000)
                && frames.first().is_none_or(|f| *idle + f.0 as u64 >= *freq as u64 / 50 && f.0 == 0)
        }
    }
}

fn c11_exec(p: &C11Plan, ctx: &mut Ctx) -> Res {
    match p {
        C11Plan::Clock(w) => {
            let cfg = &w.rx[0];
            let a = air(w, ctx);
            let (t0, t1) = (cfg.epoch, cfg.epoch.wrapping_add(cfg.tick(a.end)));
            if cfg.clk.bits() == 32 && t1 >> 32 != t0 >> 32 {
                ctx.fault("counter-wrap");
            }
            let who = format!("{:?} {:?} {:?} {} Hz, counter {:#x} at power-up", cfg.proto, cfg.fe, cfg.clk, cfg.freq(), cfg.epoch);
            let out = run_rx(cfg, w, &a, 0, ctx);
            judge(w, &a, cfg, &out, &who, ctx)
        }
        C11Plan::Polls { proto, fe, freq, idle, frames, phase } => {
            let mut rx = rx::make(*proto, *fe, Clk::U32, *freq);
            let mut left = *idle;
            let mut done = 0u64;
            ctx.s(*idle);
            while left > 0 {
                let (n, o) = rx.poll(false, left);
                if o != Out::Nothing {
                    return viol("phantom", format!("{proto:?}: {} during idle polls", show_out(&o)));
                }
                left -= n;
                done += n;
            }
            ctx.fault("long-idle");
            if done + frames.iter().map(|f| (f.0 as u64 + f.1.dur_us()) * *freq as u64 / 1_000_000).sum::<u64>() >= 1 << 32 {
                ctx.fault("poll-counter-wrap");
            }
            for (k, (gap, fr)) in frames.iter().enumerate() {
                let mut got: Vec<NCmd> = vec![];
                // absolute edge positions, sampled
                let mut us = *gap as u64;
                let mut at = 0u64;
                let mut lvl = false;
                let pos = |us: u64| (us * *freq as u64 + *phase as u64 * 1000) / 1_000_000;
                let mut iv = fr.intervals();
                iv.push(QUIET_US);
                let mut run = |lvl: bool, n: u64, got: &mut Vec<NCmd>| {
                    let mut left = n;
                    while left > 0 {
                        let (m, o) = rx.poll(lvl, left);
                        left -= (m + 1).min(left);
                        if let Out::Cmd(c) = o {
                            got.push(c);
                        }
                    }
                };
                for d in iv {
                    let e = pos(us);
                    run(lvl, e - at, &mut got);
                    at = e;
                    lvl = !lvl;
                    us += d as u64;
                }
                run(false, pos(us) - at, &mut got);
                let exp = refp::ref_decode(*proto, fr.bits, false);
                ctx.count("verdicts", 1);
                ctx.count("commands", got.len() as u64);
                let want: Vec<NCmd> = exp.into_iter().collect();
                for g in &got {
                    ctx.h(g.f[0] ^ g.f[1] << 32);
                }
                if got != want {
                    return viol(
                        "poll-wrap",
                        format!("{proto:?} {fe:?} {freq} Hz: frame {k} after {idle} idle polls: expected {}, reported {:?}", show_opt(&exp), got.iter().map(show).collect::<Vec<_>>()),
                    );
                }
            }
            ctx.sim_ns += *idle as u128 * 1_000_000_000 / *freq as u128;
            Ok(())
        }
    }
}

pub fn c11() -> Typed<C11Plan> {
    Typed {
        id: "C11",
        runs: (200_000, 8_000_000),
        gen: c11_gen,
        valid: c11_valid,
        exec: c11_exec,
        nontrivial: |c| c.faults.contains_key("counter-wrap") || c.faults.contains_key("clock-step") || c.faults.contains_key("poll-counter-wrap"),
        rule: "a seed makes frames with idle times up to 2^32 ticks and puts a counter wrap at a random point and clock steps into random frames; a few runs idle through 2^32 real polls; non-trivial: a wrap or step happened",
        real: RX_REAL,
        stub: STUB,
        assumptions: &["no idle time reaches 2^32 ticks", "a new receiver's first timestamp is later than 20 ms"],
    }
}

// ------------------------------------------------------------------------------------------ C12

fn c12_gen(r: &mut Rng, idx: u64, _t: Tier) -> Plan {
    let mine = [refp::Apple, refp::Sbp, refp::Denon, refp::NecRaw, refp::Apple, refp::Sbp][(idx % 6) as usize];
    let fe = gens::fe(r);
    let mut rx = vec![gens::node(r, mine, fe)];
    if r.chance(1, 3) {
        let fe = gens::fe(r);
        rx.push(gens::node(r, mine, fe));
    }
    let mut items = vec![];
    let n = if rx.iter().any(|n| n.fe.polled()) { r.range(1, 7) } else { gens::count(r, 1, 7, 1_000) };
    for _ in 0..n {
        if mine.is_nec() && !items.is_empty() && r.chance(1, 5) {
            items.push(Item::new(gens::gap(r), Kind::Frame(WFrame::repeat(Class::NecStd))));
            continue;
        }
        let mut fr = gens::frame(r, mine);
        if mine == refp::Apple && r.chance(4, 5) {
            fr = WFrame::new(Class::NecStd, refp::apple_bits(gens::bits(r, 5), gens::bits(r, 7), gens::bits(r, 8)));
        }
        // bits flipped in transit
        for _ in 0..*r.pick(&[0, 0, 1, 1, 2, 3]) {
            fr.bits ^= 1 << r.below(fr.class.nbits() as u64);
        }
        items.push(Item::new(gens::gap(r), Kind::Frame(fr)));
    }
    let mut w = Plan { rx, tx: None, items, aux: 0 };
    gens::tune(r, &mut w);
    w.slow_down();
    gens::alias(r, &mut w);
    w
}

fn c12_exec(p: &Plan, ctx: &mut Ctx) -> Res {
    for it in &p.items {
        if let (Some(f), Some(r)) = (it.frame(), p.rx.first()) {
            if f.repeat {
                continue;
            }
            match refp::ref_decode(r.proto, f.bits, false) {
                None => ctx.fault("frame-corrupted-rejected"),
                Some(c) if c.p == refp::Sbp && c.f[2] == 0 => ctx.fault("frame-corrupted-flagged"),
                _ => {}
            }
        }
    }
    judge_all(p, ctx)
}

pub fn c12() -> Typed<Plan> {
    Typed {
        id: "C12",
        runs: (2_500_000, 40_000_000),
        gen: c12_gen,
        valid: |p| {
            clean(p)
                && p.items.iter().all(|i| i.frame().is_some_and(|f| !f.repeat || f.class == Class::NecStd))
                && p.rx.iter().all(|r| matches!(r.proto, refp::Apple | refp::Sbp | refp::Denon | refp::NecRaw))
        },
        exec: c12_exec,
        nontrivial: |c| c.get("verdicts") > 0 && (c.get("commands") > 0 || c.faults.contains_key("frame-corrupted-rejected")),
        rule: "a seed makes 1-7 Apple, Blu-ray, Denon or raw NEC frames with 0-3 bits flipped in transit, within the timing budget, for 1-2 receivers; non-trivial: a frame was judged",
        real: RX_REAL,
        stub: STUB,
        assumptions: &[],
    }
}

// ------------------------------------------------------------------------------------------ C16

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C16Plan {
    Rx(Plan),
    Tx(TxPlan),
    /// receivers that deliver the buttons of a remote control
    Buttons(C13Plan),
}

fn c16_gen(r: &mut Rng, idx: u64, t: Tier) -> C16Plan {
    if idx % 8 == 7 {
        let pd = r.chance(1, 2);
        let n = if pd { tx::PD_HZ.len() } else { tx::TX_HZ.len() } as u64;
        let mut hz = (idx / 8 % n) as u8;
        if pd && hz >= 6 && t == Tier::Quick && r.chance(1, 2) {
            hz = r.below(6) as u8;
        }
        let p = *r.pick(&tx::TX_PROTOS);
        return C16Plan::Tx(TxPlan {
            pd,
            hz,
            buf: 0,
            ts0: 0,
            again: 0, on0: false,
            items: vec![TxItem { idle: 1, load: gens::load(r, p), busy: vec![], abort: None, over: false, soon: None, late: vec![] }],
        });
    }
    if idx % 8 == 3 {
        return C16Plan::Buttons(props_rc::c13_gen(r, idx / 8, t));
    }
    let mine = refp::ALL[(idx % 9) as usize];
    let k = r.range(1, 4);
    let mut rx = vec![];
    for _ in 0..k {
        let fe = match r.below(8) {
            0..=2 => *r.pick(&rx::FE_POLL),
            3 => *r.pick(&rx::FE_BUF),
            _ => *r.pick(&rx::FE_EVENT),
        };
        let mut n = gens::node(r, mine, fe);
        if n.clk.fixed_hz().is_none() && r.chance(1, 2) {
            // low rates and rates at the edges of integer scaling are where rounding bites
            n.freq = match r.below(4) {
                0 => r.range(20_000, 60_000) as u32,
                1 => (4_294_967_295u64 / *r.pick(&[13_500u64, 11_250, 9_000, 6_750, 5_000, 2_250, 1_120, 889, 1_778, 2_664, 444, 888, 1_680, 840, 2_000, 1_000]) + r.below(5)).clamp(20_000, 1_000_000_000) as u32,
                _ => r.log(20_000, 1_000_000_000) as u32,
            };
            if fe.polled() {
                n.freq = n.freq.min(400_000);
            }
        }
        rx.push(n);
    }
    let mut items = vec![Item::new(gens::gap(r), Kind::Frame(gens::frame(r, mine)))];
    if r.chance(1, 3) {
        items.push(Item::new(gens::gap(r), Kind::Frame(gens::frame(r, mine))));
    }
    let mut w = Plan { rx, tx: None, items, aux: 0 };
    gens::tune(r, &mut w);
    gens::alias(r, &mut w);
    C16Plan::Rx(w)
}

pub fn c16() -> Typed<C16Plan> {
    Typed {
        id: "C16",
        runs: (700_000, 15_000_000),
        gen: c16_gen,
        valid: |p| match p {
            C16Plan::Rx(p) => clean(p),
            C16Plan::Tx(p) => props_tx::valid(p),
            C16Plan::Buttons(p) => props_rc::c13_valid(p),
        },
        exec: |p, ctx| match p {
            C16Plan::Rx(p) => judge_all(p, ctx),
            C16Plan::Tx(p) => props_tx::exec(p, ctx),
            C16Plan::Buttons(p) => props_rc::c13_exec(p, ctx),
        },
        nontrivial: |c| c.get("commands") > 0 || c.get("frames-sent") > 0,
        rule: "a seed makes 1-2 frames heard by 1-4 receivers at unrelated clock rates (20 kHz to 1 GHz, biased to low rates and to the limits of 32-bit scaling), or one transmission at one of 32 sender rates compared with the nominal waveform; non-trivial: a command was delivered or a frame transmitted to its end",
        real: ALL_REAL,
        stub: STUB,
        assumptions: &["RC6 below 100 kHz: 2.5% timing budget"],
    }
}
