//! Properties decided on tick-exact edge histories.

use crate::ctx::{viol, Ctx, Res};
use crate::gens;
use crate::line::{self, Line, Seg};
use crate::multi::{self, Any, Got};
use crate::refp::{self, Ev, NCmd, Proto, WFrame};
use crate::rng::Rng;
use crate::run::{Tier, Typed};
use crate::rx::{self, Clk, Dec, Fe, Out, Rx, St};
use crate::world::{show, show_opt, show_out};
use serde::{Deserialize, Serialize};

const RX_REAL: &[&str] = &["Receiver", "PeriodicPoll", "BufferInputReceiver", "Builder", "protocol decoders", "InfraMonotonic clocks"];
const MULTI_REAL: &[&str] = &["MultiReceiver", "Receiver", "AnyCommand", "protocol decoders", "InfraMonotonic clocks"];
const DEC_REAL: &[&str] = &["protocol decoders (ProtocolDecoder)", "InfraMonotonic clocks"];
const STUB: &[&str] = &["signal source (edge histories)", "input pin", "timers"];

fn rate(r: &mut Rng) -> (Clk, u32) {
    let clk = gens::clk(r);
    let f = gens::event_freq(r);
    (clk, clk.fixed_hz().unwrap_or(f))
}
fn rate_ok(clk: Clk, freq: u32) -> bool {
    match clk {
        Clk::F32(i) | Clk::F64(i) => (i as usize) < rx::FUGIT_HZ.len() && freq == rx::FUGIT_HZ[i as usize],
        _ => (20_000..=1_000_000_000).contains(&freq),
    }
}
fn note(i: usize, o: &Out<NCmd>, ctx: &mut Ctx) {
    ctx.h(i as u64);
    match o {
        Out::Nothing => return,
        Out::Cmd(c) => {
            ctx.count("commands", 1);
            for f in c.f {
                ctx.h(f);
            }
            ctx.h(c.rep as u64 + 2);
        }
        Out::Err(_) => ctx.count("decode-errors", 1),
        Out::Hal(_) => ctx.count("pin-errors", 1),
    }
    ctx.log(|| format!("edge {i}: {}", show_out(o)));
}
fn note_any(i: usize, a: &Any, ctx: &mut Ctx) {
    ctx.count("commands", 1);
    for v in [i as u64, a.id as u64, a.raw, a.addr as u64, a.cmd as u64, a.rep as u64] {
        ctx.h(v);
    }
    ctx.log(|| format!("edge {i}: {a:?}"));
}

// ------------------------------------------------------------------------------------------ C05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C05Plan {
    p: Proto,
    fe: Fe,
    clk: Clk,
    freq: u32,
    line: Line,
}

fn c05_gen(r: &mut Rng, idx: u64, _t: Tier) -> C05Plan {
    let p = refp::ALL[(idx % 9) as usize];
    let (clk, freq) = rate(r);
    let fe = *r.pick(&[Fe::Dt, Fe::Edge, Fe::PinDt, Fe::Built, Fe::Raw, Fe::Step]);
    let mut n = r.range(1, 6);
    let mut l = line::line(r, p, freq, n);
    if r.chance(1, 4) {
        // two parts of frames that make up one only when joined over a foreign gap
        let a = gens::frame(r, p);
        let b = gens::frame(r, p);
        let k = r.range(1, a.intervals().len() as u64 - 1) as u8 | 1;
        let g = match r.below(3) {
            0 => r.range(2_700, 4_000) as u32,
            1 => r.range(10_000, 100_000) as u32,
            _ => r.log(1, 10_000) as u32,
        };
        l.0.push((line::gap(r), Seg::Frame { fr: a, ppm: 0, from: 0, cut: Some(k), mods: vec![] }));
        l.0.push((g, Seg::Frame { fr: b, ppm: 0, from: k + 1, cut: None, mods: vec![] }));
        n += 2;
    }
    let _ = n;
    C05Plan { p, fe, clk, freq, line: l }
}

fn c05_exec(p: &C05Plan, ctx: &mut Ctx) -> Res {
    let evs = p.line.events(p.freq, ctx);
    let mut rx = rx::make(p.p, p.fe, p.clk, p.freq);
    for (i, e) in evs.iter().enumerate() {
        let o = rx.ev(e.lvl, 0, e.dt);
        note(i, &o, ctx);
        if let Out::Cmd(c) = o {
            ctx.count("verdicts", 1);
            if !refp::backed(&evs[..=i], p.freq, &c) {
                return viol(
                    "phantom",
                    format!(
                        "{:?} {:?} {:?} {} Hz reports {} at edge {i}, but no frame on the line carries it; last intervals (us, oldest first): {}",
                        p.p, p.fe, p.clk, p.freq, show(&c), tail(&evs[..=i], p.freq, 8)
                    ),
                );
            }
        }
    }
    Ok(())
}

fn tail(evs: &[Ev], freq: u32, n: usize) -> String {
    evs[evs.len().saturating_sub(n)..]
        .iter()
        .map(|e| format!("{}{:.0}", if e.lvl { "off " } else { "on " }, e.dt as f64 * 1e6 / freq as f64))
        .collect::<Vec<_>>()
        .join(", ")
}

pub fn c05() -> Typed<C05Plan> {
    Typed {
        id: "C05",
        runs: (8_000_000, 60_000_000),
        gen: c05_gen,
        valid: |p| {
            rate_ok(p.clk, p.freq)
                && !p.fe.polled()
                && !p.fe.buffer()
                && !p.fe.inst()
                && !p.line.repeats()
                && p.line.sane(1_000_000, 1 << 30)
                && p.line.0.iter().all(|(g, _)| *g as u128 * p.freq as u128 / 1_000_000 < 1 << 31)
        },
        exec: c05_exec,
        nontrivial: |c| c.get("commands") > 0 && !c.faults.is_empty(),
        rule: "a seed makes up to 8 segments (frames of the receiver's or another protocol with 0-3 intervals replaced, stretched, split or merged, parts of frames spliced together, noise) for one receiver; non-trivial: a disturbance was injected and at least one command was reported and judged",
        real: RX_REAL,
        stub: STUB,
        assumptions: &["levels alternate", "one interval lasts less than 2^31 ticks"],
    }
}

// ------------------------------------------------------------------------------------------ C07

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C07Plan {
    p: Proto,
    freq: u32,
    line: Line,
    /// interrupts without a change of level: (after event, ticks)
    rep: Vec<(u16, u32)>,
    nodes: Vec<(Fe, Clk)>,
}

fn c07_gen(r: &mut Rng, idx: u64, _t: Tier) -> C07Plan {
    let p = refp::ALL[(idx % 9) as usize];
    let fug = r.chance(1, 2);
    let i = r.below(rx::FUGIT_HZ.len() as u64) as u8;
    let slow = r.chance(1, 2);
    let freq = if fug {
        rx::FUGIT_HZ[i as usize]
    } else if slow {
        gens::poll_freq(r)
    } else {
        gens::event_freq(r)
    };
    let n = if slow || fug { r.range(1, 5) } else { gens::count(r, 1, 5, 2_000) };
    let mut l = line::line(r, p, freq, n);
    // keep it pollable and within the range in which no counter wraps
    for (g, _) in &mut l.0 {
        *g = (*g).min(200_000);
    }
    if r.chance(1, 2) {
        l.0.push((gens::gap(r).min(200_000), line::clean(gens::frame(r, p))));
    }
    let (fug, freq) = if marathon(idx) { (false, gens::poll_freq(r).min(60_000)) } else { (fug, freq) };
    if marathon(idx) {
        l = line::marathon(r, p, freq, true);
    }
    let mut nodes = vec![];
    let clks: Vec<Clk> = if fug { vec![Clk::U32, Clk::U64, Clk::F32(i), Clk::F64(i)] } else { vec![Clk::U32, Clk::U64] };
    for fe in rx::FE_EVENT.iter().chain(&rx::FE_BUF) {
        nodes.push((*fe, *r.pick(&clks)));
    }
    if freq <= 250_000 {
        for fe in rx::FE_POLL {
            nodes.push((fe, Clk::U32));
        }
    }
    let rep = if !marathon(idx) && r.chance(1, 6) {
        (0..r.range(1, 3)).map(|_| (r.below(200) as u16, r.log(1, (freq / 500).max(2) as u64) as u32)).collect()
    } else {
        vec![]
    };
    C07Plan { p, freq, line: l, rep, nodes }
}

/// A few runs of every search go on for very long.
fn marathon(idx: u64) -> bool {
    idx % 3_000_000 < 27
}

fn with_rep(evs: &[Ev], rep: &[(u16, u32)], ctx: &mut Ctx) -> Vec<Ev> {
    let mut v = vec![];
    for (i, e) in evs.iter().enumerate() {
        v.push(*e);
        for (k, dt) in rep {
            if *k as usize == i {
                v.push(Ev { lvl: e.lvl, dt: *dt as u64 });
                ctx.fault("spurious-interrupt");
            }
        }
    }
    v
}

fn run_line(rx: &mut dyn Rx<NCmd>, fe: Fe, evs: &[Ev], ctx: &mut Ctx) -> Vec<(usize, Out<NCmd>)> {
    let mut out = vec![];
    let mut ts = 0u64;
    let mut lvl = false;
    for (i, e) in evs.iter().enumerate() {
        ts += e.dt;
        let o = if fe.polled() {
            if e.dt > 1 {
                let (_, o) = rx.poll(lvl, e.dt - 1);
                if o != Out::Nothing {
                    note(i, &o, ctx);
                    // between edges: belongs to no event
                    out.push((usize::MAX, o));
                }
            }
            ctx.count("polls", e.dt);
            rx.poll(e.lvl, 1).1
        } else {
            rx.ev(e.lvl, ts, e.dt)
        };
        lvl = e.lvl;
        note(i, &o, ctx);
        if o != Out::Nothing {
            out.push((i, o));
        }
    }
    for c in rx.finish() {
        out.push((evs.len(), Out::Cmd(c)));
    }
    out
}

fn c07_exec(p: &C07Plan, ctx: &mut Ctx) -> Res {
    let base = p.line.events(p.freq, ctx);
    let evs = with_rep(&base, &p.rep, ctx);
    let mut reference: Option<(Fe, Clk, Vec<(usize, Out<NCmd>)>)> = None;
    let zero = evs.iter().any(|e| e.dt == 0);
    let sum: u64 = evs.iter().map(|e| e.dt).sum();
    for (fe, clk) in &p.nodes {
        if (fe.polled() || fe.buffer()) && !p.rep.is_empty() {
            continue;
        }
        if fe.polled() && (zero || sum > if p.line.repeats() { 300_000_000 } else { 4_000_000 }) {
            continue;
        }
        if fe.inst() && clk.bits() == 32 && sum >= 1 << 31 {
            continue;
        }
        ctx.log(|| format!("{fe:?} {clk:?}"));
        let mut rx = rx::make(p.p, *fe, *clk, p.freq);
        let got = run_line(rx.as_mut(), *fe, &evs, ctx);
        ctx.count("front-ends", 1);
        let Some((fe0, clk0, want)) = &reference else {
            reference = Some((*fe, *clk, got));
            continue;
        };
        ctx.count("verdicts", 1);
        if fe.buffer() {
            let c: Vec<_> = want.iter().filter(|x| matches!(x.1, Out::Cmd(_))).map(|x| x.1).collect();
            let g: Vec<_> = got.iter().map(|x| x.1).collect();
            if c != g {
                let i = c.iter().zip(&g).take_while(|(a, b)| a == b).count();
                return viol(
                    "buffer-differs",
                    format!(
                        "{:?} {} Hz: {fe:?} {clk:?} yields {} commands, {fe0:?} {clk0:?} {}; number {i}: {} against {}",
                        p.p, p.freq, g.len(), c.len(),
                        g.get(i).map_or("nothing".into(), show_out),
                        c.get(i).map_or("nothing".into(), show_out)
                    ),
                );
            }
        } else if *want != got {
            let i = want.iter().zip(&got).take_while(|(a, b)| a == b).count();
            let f = |x: Option<&(usize, Out<NCmd>)>| x.map_or("nothing more".into(), |x| format!("{} at edge {}", show_out(&x.1), x.0));
            return viol(
                "differs",
                format!("{:?} {} Hz: {fe:?} {clk:?} reports {}, {fe0:?} {clk0:?} {}", p.p, p.freq, f(got.get(i)), f(want.get(i))),
            );
        }
    }
    Ok(())
}

pub fn c07() -> Typed<C07Plan> {
    Typed {
        id: "C07",
        runs: (2_500_000, 40_000_000),
        gen: c07_gen,
        valid: |p| {
            (20_000..=1_000_000_000).contains(&p.freq)
                && p.line.sane(200_000, 1 << 30)
                && p.rep.len() <= 8
                && p.nodes.len() <= 32
                && p.nodes.iter().all(|(fe, c)| rx::fits(*fe, *c) && rate_ok(*c, p.freq))
        },
        exec: c07_exec,
        nontrivial: |c| c.get("front-ends") > 1 && (c.get("commands") > 0 || c.get("decode-errors") > 0),
        rule: "a seed makes one edge history (clean and disturbed frames, noise, sometimes interrupts without a change) and feeds it to up to 14 front ends on different clock types; non-trivial: two or more front ends compared and something was reported",
        real: RX_REAL,
        stub: STUB,
        assumptions: &["polled front ends: no interval shorter than one poll", "timestamps: the recording spans less than 2^31 ticks (wrap-around is C11)"],
    }
}

// ------------------------------------------------------------------------------------------ C08, C14

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MPlan {
    set: u8,
    clk: Clk,
    freq: u32,
    line: Line,
    rep: Vec<(u16, u32)>,
    /// call per event, cyclic
    how: Vec<u8>,
    /// pin reads fail this often at this event before one succeeds: (event, times, code)
    fail: Vec<(u16, u16, u32)>,
}

const ANY_PROTOS: [Proto; 7] = [refp::Nec, refp::Samsung, refp::Apple, refp::Rc5, refp::Rc6, refp::Sbp, refp::Denon];

/// How often a pin read fails in a row.
fn burst(r: &mut Rng) -> u16 {
    if r.chance(1, 300) {
        r.log(50, 1_000) as u16
    } else {
        r.range(1, 5) as u16
    }
}

fn mplan(r: &mut Rng, idx: u64, dirty: bool) -> MPlan {
    let set = (idx % multi::SETS as u64) as u8;
    let clk = *r.pick(&[Clk::U32, Clk::U32, Clk::U64, Clk::F32(3), Clk::F64(3)]);
    let freq = multi::fixed(clk, gens::event_freq(r));
    let protos = multi::make(set, clk, freq).protos;
    let mut l = Line(vec![]);
    for _ in 0..gens::count(r, 1, 7, 1_000) {
        let p = if r.chance(5, 6) { *r.pick(&protos) } else { *r.pick(&ANY_PROTOS) };
        if dirty && r.chance(1, 2) {
            l.0.push((line::gap(r), line::seg(r, p, freq)));
        } else {
            let fr = if p.is_nec() && r.chance(1, 4) { WFrame::repeat(p.class()) } else { gens::frame(r, p) };
            l.0.push((gens::gap(r), line::clean(fr)));
        }
    }
    if marathon(idx) {
        let p = *r.pick(&protos);
        l = line::marathon(r, p, freq, dirty);
    }
    let rep = if dirty && !marathon(idx) && r.chance(1, 8) {
        (0..r.range(1, 3)).map(|_| (r.below(200) as u16, r.log(1, (freq / 500).max(2) as u64) as u32)).collect()
    } else {
        vec![]
    };
    let fail = if r.chance(1, 2) {
        (0..r.range(1, 12)).map(|_| (r.below(400) as u16, burst(r), r.u64() as u32)).collect()
    } else {
        vec![]
    };
    MPlan { set, clk, freq, line: l, rep, how: (0..r.range(1, 3)).map(|_| r.below(4) as u8).collect(), fail }
}

fn mvalid(p: &MPlan) -> bool {
    p.set < multi::SETS
        && (20_000..=1_000_000_000).contains(&p.freq)
        && p.freq == multi::fixed(p.clk, p.freq)
        && p.line.sane(1_000_000, 1 << 30)
        && p.line.0.iter().all(|(g, _)| *g as u128 * p.freq as u128 / 1_000_000 < 1 << 31)
        && !p.how.is_empty()
        && p.how.iter().all(|h| *h < 4)
        && p.fail.len() <= 32
        && p.rep.len() <= 8
}

/// One event through the multi receiver, retried while the pin fails.
fn mcall(p: &MPlan, m: &mut multi::Multi, i: usize, e: &Ev, ctx: &mut Ctx) -> Result<Got, crate::ctx::Viol> {
    let how = p.how[i % p.how.len()];
    if how >= multi::PIN {
        for (k, times, code) in &p.fail {
            if *k as usize == i {
                for _ in 0..*times {
                    ctx.fault("pin-read-error");
                    m.pin.0.fail.set(Some(*code));
                    let g = m.ev(how, e.lvl, e.dt);
                    if g != Got::Pin(*code) {
                        return viol("pin-error", format!("set {} event {i}: the pin failed with {code}, the call returned {g:?}", p.set));
                    }
                }
                m.pin.0.fail.set(None);
            }
        }
    }
    Ok(m.ev(how, e.lvl, e.dt))
}

fn c08_exec(p: &MPlan, ctx: &mut Ctx) -> Res {
    let base = p.line.events(p.freq, ctx);
    let evs = with_rep(&base, &p.rep, ctx);
    let mut m = multi::make(p.set, p.clk, p.freq);
    for (i, e) in evs.iter().enumerate() {
        let got = mcall(p, &mut m, i, e, ctx)?;
        let want: Vec<Option<Any>> = m
            .singles
            .iter_mut()
            .map(|s| match s.ev(e.lvl, 0, e.dt) {
                Out::Cmd(c) => Some(c),
                Out::Err(_) => {
                    ctx.count("decode-errors", 1);
                    None
                }
                _ => None,
            })
            .collect();
        for a in want.iter().flatten() {
            note_any(i, a, ctx);
        }
        ctx.count("verdicts", 1);
        let same = match &got {
            Got::Slots(v) => *v == want,
            Got::Iter(v) => *v == want.iter().flatten().copied().collect::<Vec<_>>(),
            Got::Pin(_) => false,
        };
        if !same {
            return viol(
                "slots",
                format!("{:?} {:?} {} Hz, event {i} (call {}): multi receiver gives {got:?}, stand-alone receivers {want:?}", m.protos, p.clk, p.freq, p.how[i % p.how.len()]),
            );
        }
    }
    Ok(())
}

pub fn c08() -> Typed<MPlan> {
    Typed {
        id: "C08",
        runs: (4_000_000, 60_000_000),
        gen: |r, i, _| mplan(r, i, true),
        valid: mvalid,
        exec: c08_exec,
        nontrivial: |c| c.get("commands") > 0,
        rule: "a seed makes up to 7 frames of different protocols, clean and disturbed, for one of 11 protocol sets of 2-6 slots, with pin errors before random events, through all four calls; non-trivial: some slot delivered a command",
        real: MULTI_REAL,
        stub: STUB,
        assumptions: &[],
    }
}

fn c14_exec(p: &MPlan, ctx: &mut Ctx) -> Res {
    let evs = p.line.events(p.freq, ctx);
    let mut m = multi::make(p.set, p.clk, p.freq);
    let n = m.protos.len();
    let mut mem: Vec<Option<u64>> = vec![None; n];
    let mut i = 0;
    for seg in p.line.walk() {
        let Seg::Frame { fr, .. } = seg else { continue };
        let len = fr.intervals().len() + 1;
        let mut got: Vec<Vec<Any>> = vec![vec![]; n];
        let mut loose: Vec<Any> = vec![];
        for e in &evs[i..i + len] {
            match mcall(p, &mut m, i, e, ctx)? {
                Got::Slots(v) => {
                    for (k, a) in v.into_iter().enumerate() {
                        if let Some(a) = a {
                            note_any(i, &a, ctx);
                            got[k].push(a);
                        }
                    }
                }
                Got::Iter(v) => {
                    for a in v {
                        note_any(i, &a, ctx);
                        loose.push(a);
                    }
                }
                Got::Pin(c) => return viol("pin-error", format!("pin error {c} without one")),
            }
            i += 1;
        }
        let protos = m.protos.clone();
        let mut total = 0;
        for (k, pr) in protos.iter().enumerate() {
            let exp = refp::expect(*pr, fr, &mut mem[k]);
            ctx.count("verdicts", 1);
            let w = exp.as_ref().map(multi::want);
            let found: Vec<Any> = if !got[k].is_empty() {
                got[k].clone()
            } else {
                // the iterator names no slot: the protocol id does
                let id = multi::want(&NCmd { p: *pr, f: [0; 4], rep: false }).id;
                loose.iter().filter(|a| a.id == id).copied().collect()
            };
            total += found.len();
            let ok = match (&w, &found[..]) {
                (None, []) => true,
                (Some(w), [a]) => w.fits(a),
                _ => false,
            };
            if !ok {
                return viol(
                    if found.is_empty() { "lost" } else { "identity" },
                    format!("{protos:?} {:?} {} Hz: {fr:?} in slot {k} ({pr:?}) is {}, delivered as {found:?}", p.clk, p.freq, show_opt(&exp)),
                );
            }
        }
        let all = got.iter().map(|v| v.len()).sum::<usize>() + loose.len();
        if all != total {
            return viol("identity", format!("{protos:?}: {fr:?} delivered {got:?} {loose:?}: a command with an unknown protocol"));
        }
    }
    Ok(())
}

pub fn c14() -> Typed<MPlan> {
    Typed {
        id: "C14",
        runs: (6_000_000, 60_000_000),
        gen: |r, i, _| {
            let mut p = mplan(r, i, false);
            p.rep.clear();
            p
        },
        valid: |p| {
            mvalid(p)
                && p.rep.is_empty()
                && p.line.0.iter().all(|(g, s)| {
                    *g >= 20_000 && matches!(s, Seg::Frame { ppm: 0, from: 0, cut: None, mods, .. } if mods.is_empty()) || matches!(s, Seg::Again(..))
                })
        },
        exec: c14_exec,
        nontrivial: |c| c.get("commands") > 0,
        rule: "a seed makes up to 7 clean frames of different protocols (any bit pattern, NEC repeats) for one of 11 protocol sets, with pin errors before random events; every delivered generic command is compared with the frame; non-trivial: some slot delivered a command",
        real: MULTI_REAL,
        stub: STUB,
        assumptions: &["the repeat flag is specified for the NEC family only", "Apple remotes have no address; the pairing id is not part of the generic view"],
    }
}

// ------------------------------------------------------------------------------------------ C09

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C09Plan {
    Event { p: Proto, fe: Fe, clk: Clk, freq: u32, line: Line, fail: Vec<(u16, u16, u32)> },
    /// windows of failing polls: (after this many polls, this many, code)
    Poll { p: Proto, freq: u32, line: Line, fail: Vec<(u32, u16, u32)> },
    Multi(MPlan),
}

fn c09_gen(r: &mut Rng, idx: u64, _t: Tier) -> C09Plan {
    if idx % 8 == 7 {
        let mut p = mplan(r, idx / 8, true);
        for h in &mut p.how {
            *h |= 2;
        }
        if p.fail.is_empty() {
            p.fail = (0..r.range(1, 20)).map(|_| (r.below(300) as u16, burst(r), r.u64() as u32)).collect();
        }
        return C09Plan::Multi(p);
    }
    let p = refp::ALL[(idx % 9) as usize];
    let mut segs = vec![];
    if r.chance(1, 3) {
        segs.push((line::gap(r), line::seg(r, p, 40_000)));
    }
    for _ in 0..r.range(1, 3) {
        let fr = if p.is_nec() && r.chance(1, 4) { WFrame::repeat(p.class()) } else { gens::frame(r, p) };
        segs.push((gens::gap(r).min(100_000), line::clean(fr)));
    }
    for s in &mut segs {
        s.0 = s.0.min(100_000);
    }
    let mut line = Line(segs);
    if marathon(idx) {
        line = line::marathon(r, p, 40_000, true);
    }
    let n: u64 = line.0.iter().map(|(_, s)| match s {
        Seg::Frame { fr, .. } => fr.intervals().len() as u64 + 1,
        Seg::Raw(v) => v.len() as u64 * 2,
        Seg::Soup(v) => v.iter().map(|(g, n)| g.len() as u64 * *n as u64).sum::<u64>() + 1,
        Seg::Again(..) => 0,
    }).sum();
    if idx % 2 == 0 {
        let (clk, freq) = rate(r);
        let mut fail: Vec<_> = (0..r.range(1, 10)).map(|_| (r.below(n) as u16, burst(r), r.u64() as u32)).collect();
        if marathon(idx) || r.chance(1, 20_000) {
            let at = r.below(n) as u16;
            fail.extend([(at, 40_000, 1), (at, 30_000, 2)]);
        }
        return C09Plan::Event { p, fe: *r.pick(&[Fe::PinDt, Fe::PinInst, Fe::BuiltPin]), clk, freq, line, fail };
    }
    let freq = gens::poll_freq(r).min(100_000);
    let total: u64 = line.0.iter().map(|(g, s)| (*g as u64 + match s {
        Seg::Frame { fr, .. } => fr.dur_us(),
        _ => 10_000,
    }) * freq as u64 / 1_000_000).sum();
    let long = marathon(idx) || r.chance(1, 20_000);
    let mut fail: Vec<_> = (0..r.range(1, 12))
        .map(|_| {
            let w = match r.below(4) {
                0 => 1,
                1 => r.log(1, 2_000) as u16,
                _ => r.range(1, 12) as u16,
            };
            (r.below(total.max(1)) as u32, w, r.u64() as u32)
        })
        .collect();
    if long {
        let at = r.below(total.max(1)) as u32;
        fail.extend([(at, 40_000, 1), (at + 40_000, 30_000, 2)]);
    }
    C09Plan::Poll { p, freq, line, fail }
}

fn c09_exec(plan: &C09Plan, ctx: &mut Ctx) -> Res {
    match plan {
        C09Plan::Multi(m) => c08_exec(m, ctx),
        C09Plan::Event { p, fe, clk, freq, line, fail } => {
            let evs = line.events(*freq, ctx);
            let mut a = rx::make(*p, *fe, *clk, *freq);
            let mut b = rx::make(*p, *fe, *clk, *freq);
            let mut ts = 0;
            for (i, e) in evs.iter().enumerate() {
                ts += e.dt;
                let want = a.ev(e.lvl, clk.trunc(ts), e.dt);
                for (k, times, code) in fail {
                    if *k as usize == i {
                        for n in 0..*times {
                            ctx.fault("pin-read-error");
                            b.pin().unwrap().0.fail.set(Some(*code));
                            let o = b.ev(e.lvl, clk.trunc(ts), e.dt);
                            note(i, &o, ctx);
                            if o != Out::Hal(*code) {
                                return viol("not-reported", format!("{p:?} {fe:?} {clk:?} {freq} Hz: pin read {n} of event {i} failed with {code}, the call returned {}", show_out(&o)));
                            }
                        }
                        b.pin().unwrap().0.fail.set(None);
                    }
                }
                let got = b.ev(e.lvl, clk.trunc(ts), e.dt);
                note(i, &got, ctx);
                ctx.count("verdicts", 1);
                if got != want {
                    return viol("not-free", format!("{p:?} {fe:?} {clk:?} {freq} Hz: event {i} gives {} after earlier pin errors, {} without them", show_out(&got), show_out(&want)));
                }
            }
            Ok(())
        }
        C09Plan::Poll { p, freq, line, fail } => {
            let evs = line.events(*freq, ctx);
            let mut a = rx::make(*p, Fe::PollPin, Clk::U32, *freq);
            let mut b = rx::make(*p, Fe::PollPin, Clk::U32, *freq);
            let mut k = 0u64;
            let mut lvl = false;
            // level both have seen last
            let mut seen = false;
            let mut hidden = 0u64;
            for e in &evs {
                for j in 0..e.dt {
                    let now = if j + 1 == e.dt { e.lvl } else { lvl };
                    let bad = fail.iter().find(|(s, n, _)| k >= *s as u64 && k < *s as u64 + *n as u64);
                    let want = a.poll(if bad.is_some() { seen } else { now }, 1).1;
                    if let Some((_, _, code)) = bad {
                        ctx.fault("pin-read-error");
                        hidden += (now != seen) as u64;
                        b.pin().unwrap().0.fail.set(Some(*code));
                        let o = b.poll(now, 1).1;
                        b.pin().unwrap().0.fail.set(None);
                        ctx.count("pin-errors", 1);
                        if o != Out::Hal(*code) {
                            return viol("not-reported", format!("{p:?} polled at {freq} Hz: read {k} failed with {code}, the call returned {}", show_out(&o)));
                        }
                        if want != Out::Nothing {
                            return viol("not-free", format!("{p:?} polled at {freq} Hz: a poll without a change reports {}", show_out(&want)));
                        }
                    } else {
                        seen = now;
                        let o = b.poll(now, 1).1;
                        note(k as usize, &o, ctx);
                        if o != want {
                            return viol(
                                "not-free",
                                format!("{p:?} polled at {freq} Hz: poll {k} reports {} after earlier pin errors, {} if those polls had seen no change", show_out(&o), show_out(&want)),
                            );
                        }
                    }
                    k += 1;
                }
                if e.dt > 0 {
                    lvl = e.lvl;
                }
            }
            ctx.count("verdicts", 1);
            ctx.count("polls", k);
            ctx.faults("edge-hidden-by-pin-error", hidden);
            Ok(())
        }
    }
}

pub fn c09() -> Typed<C09Plan> {
    Typed {
        id: "C09",
        runs: (1_600_000, 30_000_000),
        gen: c09_gen,
        valid: |p| match p {
            C09Plan::Multi(m) => mvalid(m) && m.how.iter().all(|h| *h >= 2),
            C09Plan::Event { fe, clk, freq, line, fail, .. } => {
                fe.pin() && !fe.polled() && rate_ok(*clk, *freq) && line.sane(100_000, 1 << 20) && fail.len() <= 64
            }
            C09Plan::Poll { freq, line, fail, .. } => {
                (20_000..=250_000).contains(freq) && line.sane(100_000, 1 << 16) && fail.len() <= 64
            }
        },
        exec: c09_exec,
        nontrivial: |c| c.faults.contains_key("pin-read-error") && c.get("verdicts") > 0,
        rule: "a seed makes up to 4 frames and puts failing pin reads (bursts of 1-5 before an event is retried, windows of 1-2000 failing polls) at random points; compared with the same history without failures; non-trivial: at least one read failed",
        real: &["Receiver", "PeriodicPoll", "MultiReceiver", "protocol decoders", "InfraMonotonic clocks"],
        stub: STUB,
        assumptions: &["a failed poll that hides an edge delays that edge to the next good poll"],
    }
}

// ------------------------------------------------------------------------------------------ C10

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C10Plan {
    p: Proto,
    fe: Fe,
    clk: Clk,
    freq: u32,
    /// first these intervals (us, mark first) over and over
    run: (Vec<u32>, u32),
    /// levels of those (bit n % 64) when edges get lost or invented; else alternating
    #[serde(default)]
    lv: Option<u64>,
    /// before all that these clean frames in turn, this long (us) apart, this many
    #[serde(default)]
    frames: (Vec<WFrame>, u32, u32),
    /// (level, ticks since the last event, or counter value for timestamp front ends)
    evs: Vec<(bool, u64)>,
    /// finally 20 ms of quiet and this frame
    last: Option<WFrame>,
}

fn extreme(r: &mut Rng, bits: u32, freq: u32, us: &[u64]) -> u64 {
    let max = if bits == 32 { u32::MAX as u64 } else { u64::MAX };
    let nom = |r: &mut Rng| (*r.pick(us) as u128 * freq as u128 / 1_000_000) as u64;
    let v = match r.below(12) {
        0 => r.below(4),
        1 => max - r.below(4),
        2 => max / 2 + r.below(5) - 2,
        3 => max - nom(r),
        4 => max.wrapping_add(1).wrapping_add(nom(r)),
        5 => r.u64() & max,
        6 => (1u64 << r.below(bits as u64)).wrapping_sub(r.below(2)),
        7 => (1 << 32) - 1 - r.below(2),
        _ => nom(r),
    };
    v & max
}

fn c10_gen(r: &mut Rng, idx: u64, _t: Tier) -> C10Plan {
    let p = refp::ALL[(idx % 9) as usize];
    if idx < 3 {
        // more polls than the counter can count, on a quiet and on a busy line
        let mut evs: Vec<(bool, u64)> = (0..r.range(1, 30)).map(|_| (r.chance(1, 2), r.log(1, 5_000))).collect();
        evs.push((false, (1 << 32) - r.below(2_000)));
        evs.extend((0..r.range(1, 30)).map(|_| (r.chance(1, 2), r.log(1, 500))));
        return C10Plan { p: *r.pick(&refp::ALL), fe: rx::FE_POLL[idx as usize], clk: Clk::U32, freq: gens::poll_freq(r), run: (vec![], 0), lv: None, frames: (vec![], 0, 0), evs, last: None };
    }
    let fe = match r.below(8) {
        0 => *r.pick(&rx::FE_BUF),
        1 => *r.pick(&rx::FE_POLL),
        _ => *r.pick(&rx::FE_EVENT),
    };
    let clk = if fe.polled() { Clk::U32 } else { gens::clk(r) };
    let freq = clk.fixed_hz().unwrap_or(match r.below(6) {
        0 => r.log(1, u32::MAX as u64) as u32,
        1 => u32::MAX - r.below(3) as u32,
        2 => r.range(1, 2_000) as u32,
        _ => gens::event_freq(r),
    });
    let bits = clk.bits();
    let max = if bits == 32 { u32::MAX as u64 } else { u64::MAX };
    let mut us: Vec<u64> = vec![];
    let c = p.class();
    let fr = WFrame::new(c, r.u64());
    let iv: Vec<u64> = fr.intervals().iter().map(|v| *v as u64).collect();
    us.extend(&iv);
    us.extend(iv.windows(2).map(|w| w[0] + w[1]));
    us.extend([11_250, 6_750, 13_500]);
    let mut evs: Vec<(bool, u64)> = vec![];
    let mut lvl = false;
    if fe.polled() {
        for _ in 0..r.range(1, 60) {
            evs.push((r.chance(1, 2), r.log(1, 5_000)));
        }
    } else if fe.inst() {
        let mut t = extreme(r, bits, freq, &us);
        for _ in 0..r.range(1, 120) {
            lvl = if r.chance(9, 10) { !lvl } else { r.chance(1, 2) };
            t = match r.below(6) {
                0 => extreme(r, bits, freq, &us),
                1 => t.wrapping_sub(extreme(r, bits, freq, &us)) & max,
                _ => t.wrapping_add((*r.pick(&us) as u128 * freq as u128 / 1_000_000) as u64) & max,
            };
            evs.push((lvl, t));
        }
    } else {
        let tk = |us: u64| (us as u128 * freq as u128 / 1_000_000) as u64;
        for _ in 0..r.range(1, 4) {
            match r.below(3) {
                0 => {
                    // a whole frame in which each mark-space pair is long + long, adding up modulo
                    // the counter to what the frame needs
                    let alias = r.chance(1, 2);
                    evs.push((true, extreme(r, bits, freq, &us)));
                    for (k, w) in iv.chunks(2).enumerate() {
                        let want = tk(w[0]) + w.get(1).map_or(0, |x| tk(*x));
                        if alias || k == 0 || r.chance(1, 20) {
                            let a = max - r.below(want.max(1) * 2 + 2).min(max);
                            evs.push((false, a));
                            evs.push((true, want.wrapping_sub(a) & max));
                        } else {
                            evs.push((false, tk(w[0])));
                            evs.push((true, want - tk(w[0])));
                        }
                    }
                }
                1 => {
                    for _ in 0..r.range(1, 60) {
                        lvl = if fe.buffer() || r.chance(9, 10) { !lvl } else { r.chance(1, 2) };
                        evs.push((lvl, extreme(r, bits, freq, &us)));
                    }
                }
                _ => {
                    evs.push((true, extreme(r, bits, freq, &us)));
                    for (k, v) in iv.iter().enumerate() {
                        let d = if r.chance(1, 15) { extreme(r, bits, freq, &us) } else { tk(*v) };
                        evs.push((k % 2 == 1, d));
                    }
                }
            }
            lvl = evs.last().is_some_and(|e| e.0);
        }
        if fe.buffer() {
            for (i, e) in evs.iter_mut().enumerate() {
                e.0 = i % 2 == 0;
            }
        }
    }
    let last = ((20_000..=1_000_000_000).contains(&freq)).then(|| gens::frame(r, p));
    let mut run = (vec![], 0);
    let mut lv = None;
    if !fe.polled() && !fe.inst() && !fe.buffer() && (20_000..=1_000_000_000).contains(&freq) && r.chance(1, 3) {
        // a regular disturbance that looks like symbols of the protocol, for a long time
        let sy = line::symbols(p);
        let mut v = vec![];
        for _ in 0..r.range(1, 3) {
            v.extend(r.pick(&sy));
        }
        if r.chance(1, 2) {
            v = r.pick(&sy).clone();
        }
        let n = if r.chance(1, 200) { 70_000 } else { r.log(10, 700) as u32 };
        run = (v, n);
        if r.chance(1, 3) {
            let (a, b) = (r.u64(), r.u64());
            lv = Some(*r.pick(&[0, u64::MAX, a, a & b, a | b]));
        }
        if r.chance(3, 4) {
            evs.truncate(r.below(40) as usize);
        }
    }
    let mut frames = (vec![], 0, 0);
    if (3..300).contains(&(idx % 100_000)) && (fe.polled() || (20_000..=1_000_000_000).contains(&freq)) {
        // more frames than a 16-bit counter can count
        let mut v = vec![];
        for k in 0..r.range(1, 3) {
            v.push(if k > 0 && p.is_nec() && r.chance(1, 2) { WFrame::repeat(p.class()) } else { gens::frame(r, p) });
        }
        frames = (v, r.range(20_000, 30_000) as u32, 65_536 + r.below(600) as u32);
        if fe.buffer() {
            frames.2 = if idx % 5 == 0 { frames.2 } else { 3_000 };
        }
    }
    if fe.polled() && frames.2 > 0 {
        let freq = gens::poll_freq(r).min(40_000);
        if idx % 2 == 0 {
            frames.2 = 3_000;
        }
        return C10Plan { p, fe, clk, freq, run, lv, frames, evs, last };
    }
    C10Plan { p, fe, clk, freq, run, lv, frames, evs, last }
}

/// Every frame of a long series arrives, once.
fn c10_frames(p: &C10Plan, rx: &mut dyn Rx<NCmd>, who: &str, ctx: &mut Ctx) -> Result<u64, crate::ctx::Viol> {
    let (frames, gap, n) = &p.frames;
    ctx.fault("long-repetition");
    let tk = |us: u64| (us as u128 * p.freq as u128 / 1_000_000) as u64;
    let max = if p.clk.bits() == 32 { u32::MAX as u64 } else { u64::MAX };
    let mut mem = None;
    let mut ts = 0u64;
    let mut all = vec![];
    let ivs: Vec<Vec<u32>> = frames.iter().map(|f| f.intervals()).collect();
    let mut t = 0u64;
    for k in 0..*n as usize {
        let fr = &frames[k % frames.len()];
        let want = refp::expect(p.p, fr, &mut mem);
        let mut got = None;
        let mut more = 0;
        let mut pos = t;
        for (j, us) in std::iter::once(gap).chain(&ivs[k % frames.len()]).enumerate() {
            let (a, b) = (tk(pos), tk(pos + *us as u64));
            pos += *us as u64;
            let mut put = |o: Out<NCmd>| match o {
                Out::Cmd(c) if got.is_none() => got = Some(c),
                Out::Nothing => {}
                _ => more += 1,
            };
            if p.fe.polled() {
                let mut left = b - a;
                while left > 0 {
                    let (m, o) = rx.poll(j % 2 == 1, left);
                    left -= (m + 1).min(left);
                    put(o);
                }
            } else {
                ts = ts.wrapping_add(b - a) & max;
                put(rx.ev(j % 2 == 0, ts, b - a));
            }
        }
        t = pos;
        ctx.count("edges", ivs[k % frames.len()].len() as u64);
        if p.fe.buffer() {
            all.extend(want);
            continue;
        }
        if p.fe.polled() {
            // the end of the last mark
            let (m, o) = rx.poll(false, 1);
            let _ = m;
            if let Out::Cmd(c) = o {
                if got.is_none() {
                    got = Some(c);
                } else {
                    more += 1;
                }
            }
            t += 1_000_000u64.div_ceil(p.freq as u64);
        }
        ctx.count("verdicts", 1);
        if got != want || more > 0 {
            return viol("long-series", format!("{who}: frame {k} of a series, {fr:?}, is reported as {} and {more} other reports, expected {}", show_opt(&got), show_opt(&want)));
        }
    }
    if p.fe.buffer() {
        let got = rx.finish();
        let i = got.iter().zip(&all).take_while(|(a, b)| a == b).count();
        if got != all {
            return viol("long-series", format!("{who}: of {} recorded frames number {i} is not reported as sent", all.len()));
        }
    }
    ctx.s(*n as u64);
    ctx.sim_ns += t as u128 * 1000;
    Ok(ts)
}

fn c10_exec(p: &C10Plan, ctx: &mut Ctx) -> Res {
    let mut rx = rx::make(p.p, p.fe, p.clk, p.freq);
    let who = format!("{:?} {:?} {:?} {} Hz", p.p, p.fe, p.clk, p.freq);
    let mut lvl = false;
    let max = if p.clk.bits() == 32 { u32::MAX as u64 } else { u64::MAX };
    let mut ts = 0u64;
    if p.frames.2 > 0 {
        ts = c10_frames(p, rx.as_mut(), &who, ctx)?;
        if !p.fe.buffer() && !p.fe.polled() {
            // the last mark of RC5 and RC6 has ended already, like all others
            lvl = false;
        }
    }
    // true distances between starts of marks, for alternating duration-driven histories
    let mut hist: Vec<Ev> = vec![];
    let mut alternating = !p.fe.inst() && !p.fe.polled() && p.frames.2 == 0;
    if p.run.1 > 0 {
        ctx.fault("regular-disturbance");
        let tk = |us: u64| (us as u128 * p.freq as u128 / 1_000_000) as u64;
        let judged = p.run.1 <= 1_000 && p.lv.is_none();
        let mut n = 0;
        alternating &= judged;
        rx.ev(true, 0, tk(40_000));
        hist.push(Ev { lvl: true, dt: tk(40_000) });
        for k in 0..p.run.1 {
            for (j, us) in p.run.0.iter().enumerate() {
                let l = p.lv.map_or(j % 2 == 1, |m| m >> (n % 64) & 1 == 1);
                n += 1;
                if p.lv.is_some() && l == lvl {
                    ctx.fault("repeated-level");
                }
                lvl = l;
                let e = Ev { lvl: l, dt: tk(*us as u64) };
                ctx.count("edges", 1);
                let o = rx.ev(e.lvl, 0, e.dt);
                if judged {
                    hist.push(e);
                }
                if let (true, Out::Cmd(c)) = (alternating, o) {
                    ctx.count("verdicts", 1);
                    if !refp::backed(&hist, p.freq, &c) {
                        return viol("mistaken", format!("{who}: {} in round {k} of a regular disturbance {:?}", show(&c), p.run.0));
                    }
                }
                note(usize::MAX, &o, ctx);
            }
        }
        ctx.s(p.run.1 as u64);
        ctx.s(p.lv.unwrap_or(0xaaaa));
    }
    for (i, (l, d)) in p.evs.iter().enumerate() {
        ctx.s(d << 1 | *l as u64);
        ctx.count("edges", 1);
        if *d > max / 4 {
            ctx.fault("extreme-duration");
        }
        if *l == lvl {
            ctx.fault("repeated-level");
            alternating = false;
        }
        if p.fe.inst() && *d < ts {
            ctx.fault("clock-backwards");
        }
        if p.fe.polled() {
            if *d >= 1 << 30 {
                ctx.fault("poll-counter-wrap");
            }
            let mut left = *d;
            while left > 0 {
                let (n, o) = rx.poll(*l, left);
                note(i, &o, ctx);
                left -= (n + 1).min(left);
            }
            ctx.sim_ns += *d as u128 * 1_000_000_000 / p.freq as u128;
        } else {
            let o = rx.ev(*l, *d, *d);
            note(i, &o, ctx);
            hist.push(Ev { lvl: *l, dt: *d });
            if let (true, Out::Cmd(c)) = (alternating, o) {
                ctx.count("verdicts", 1);
                if p.freq >= 20_000 && p.freq <= 1_000_000_000 && !refp::backed(&hist, p.freq, &c) {
                    return viol("mistaken", format!("{who}: {} at event {i}, but the line was on and off for much longer than its pulses (or not at all): {}", show(&c), tail(&hist, p.freq, 6)));
                }
            }
        }
        lvl = *l;
        ts = *d;
    }
    let buffered = if p.fe.buffer() { rx.finish().len() as u64 } else { 0 };
    ctx.h(buffered);
    if let Some(fr) = &p.last {
        // not wedged: quiet, then a frame
        if p.fe.buffer() {
            return Ok(());
        }
        let tk = |us: u64| (us as u128 * p.freq as u128 / 1_000_000) as u64;
        let mut got = vec![];
        if p.fe.polled() {
            let mut run = |l: bool, n: u64| {
                let mut left = n;
                while left > 0 {
                    let (m, o) = rx.poll(l, left);
                    left -= (m + 1).min(left);
                    got.push(o);
                }
            };
            run(false, tk(30_000) + 1);
            let n0 = fr.intervals();
            let mut pos = 0;
            for (k, us) in n0.iter().enumerate() {
                let (a, b) = (tk(pos), tk(pos + *us as u64));
                run(k % 2 == 0, b - a);
                pos += *us as u64;
            }
            run(false, tk(30_000) + 1);
        } else {
            // 64 bits do not wrap in practice
            if p.fe.inst() && max == u64::MAX && ts > max - tk(1_000_000) {
                ts = 0;
            }
            let mut go = |l: bool, d: u64| {
                ts = ts.wrapping_add(d) & max;
                rx.ev(l, ts, d)
            };
            if p.fe.inst() {
                // a clock that went backwards needs one more edge to settle: a short pulse, then quiet
                go(true, tk(50_000));
                go(false, tk(200));
            } else if lvl {
                go(false, tk(30_000));
            }
            got.push(go(true, tk(30_000)));
            let iv = fr.intervals();
            let mut pos = 0;
            for (k, us) in iv.iter().enumerate() {
                let (a, b) = (tk(pos), tk(pos + *us as u64));
                got.push(go(k % 2 == 1, b - a));
                pos += *us as u64;
            }
        }
        // what the quiet time itself triggers does not count
        let cmds: Vec<NCmd> = got.iter().filter_map(|o| if let Out::Cmd(c) = o { Some(*c) } else { None }).collect();
        let want = refp::ref_decode(p.p, fr.bits, false);
        ctx.count("verdicts", 1);
        ctx.count("commands", cmds.len() as u64);
        if cmds.last() != want.as_ref() && want.is_some() {
            return viol("wedged", format!("{who}: after {} events and 30 ms of quiet a clean frame is reported as {}, expected {}", p.evs.len(), show_opt(&cmds.last().copied()), show_opt(&want)));
        }
    }
    Ok(())
}

pub fn c10() -> Typed<C10Plan> {
    Typed {
        id: "C10",
        runs: (90_000, 3_000_000),
        gen: c10_gen,
        valid: |p| {
            let max = if p.clk.bits() == 32 { u32::MAX as u64 } else { u64::MAX };
            p.freq > 0
                && rx::fits(p.fe, p.clk)
                && p.clk.fixed_hz().is_none_or(|f| f == p.freq)
                && p.evs.len() <= 1_000
                && (!p.fe.polled() || p.evs.iter().map(|e| e.1).sum::<u64>() < 1 << 33)
                && p.run.0.len() % 2 == 0
                && p.run.0.len() <= 8
                && p.run.1 <= 100_000
                && p.run.0.iter().all(|us| *us <= 50_000)
                && (p.frames.2 == 0
                    || !p.frames.0.is_empty()
                        && p.frames.0.len() <= 8
                        && p.frames.0.iter().all(|f| f.class == p.p.class() && (!f.repeat || p.p.is_nec()))
                        && (20_000..=30_000).contains(&p.frames.1)
                        && p.frames.2 <= 70_000
                        && (20_000..=if p.fe.polled() { 50_000 } else { 1_000_000_000 }).contains(&p.freq))
                && (p.run.1 == 0 || !p.run.0.is_empty() && !p.fe.polled() && !p.fe.inst() && !p.fe.buffer() && (20_000..=1_000_000_000).contains(&p.freq))
                && p.evs.iter().enumerate().all(|(i, (l, d))| {
                    if p.fe.polled() {
                        *d >= 1 && *d <= 1 << 32
                    } else {
                        *d <= max && (!p.fe.buffer() || *l == (i % 2 == 0))
                    }
                })
                && p.last.is_none_or(|f| {
                    f.class == p.p.class() && !f.repeat && (20_000..=1_000_000_000).contains(&p.freq)
                        && !(p.fe.polled() && p.freq > 2_000_000)
                        || p.fe.polled()
                })
        },
        exec: c10_exec,
        nontrivial: |c| c.faults.contains_key("extreme-duration") || c.faults.contains_key("regular-disturbance") || c.faults.contains_key("poll-counter-wrap") || c.faults.contains_key("clock-backwards") || c.faults.contains_key("repeated-level"),
        rule: "a seed makes up to some hundred events over the full range of the clock type (0, 1, maximum, nominal, pairs adding up to a pulse modulo 2^32 or 2^64, backwards timestamps, repeated levels) at any rate from 1 Hz to 2^32-1 Hz with overflow checks on, sometimes after a regular disturbance of up to 70,000 well-formed symbols, then a clean frame; non-trivial: an extreme duration, backwards clock or repeated level occurred",
        real: RX_REAL,
        stub: STUB,
        assumptions: &["reports and recovery are judged at 20 kHz to 1 GHz only"],
    }
}

// ------------------------------------------------------------------------------------------ C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C15Plan {
    p: Proto,
    clk: Clk,
    freq: u32,
    line: Line,
    rep: Vec<(u16, u32)>,
    /// the owner resets before these events
    reset: Vec<u16>,
    /// events after completion or error that the owner lets pass before resetting: per occurrence, cyclic
    lag: Vec<u16>,
}

fn c15_gen(r: &mut Rng, idx: u64, _t: Tier) -> C15Plan {
    let p = refp::ALL[(idx % 9) as usize];
    let (clk, freq) = rate(r);
    let (clk, freq) = match clk {
        Clk::F32(_) => (Clk::F32(3), 1_000_000),
        Clk::F64(_) => (Clk::F64(3), 1_000_000),
        c => (c, freq),
    };
    let mut l = Line(vec![]);
    for _ in 0..gens::count(r, 1, 5, 3_000) {
        if r.chance(1, 2) {
            l.0.push((line::gap(r), line::seg(r, p, freq)));
        } else {
            let fr = if p.is_nec() && r.chance(1, 4) { WFrame::repeat(p.class()) } else { gens::frame(r, p) };
            l.0.push((gens::gap(r), line::clean(fr)));
        }
    }
    let forgets = r.chance(1, 20);
    if forgets {
        // the owner lets many more symbols pass
        let sy = line::symbols(p);
        let half = *r.pick(&[444u32, 888, 889, 1778, 500, 560, 480]);
        let mut v = vec![];
        for _ in 0..r.range(1, 4) {
            let s = if r.chance(1, 2) { vec![half, half] } else { r.pick(&sy).clone() };
            v.push((s, r.log(10, 600) as u16));
        }
        let k = r.below(l.0.len() as u64 + 1) as usize;
        let other = r.pick(&sy)[1];
        let gap = *r.pick(&[half, other]);
        l.0.insert(k, (gap, line::Seg::Soup(v)));
    }
    let forgets = forgets && !marathon(idx);
    if marathon(idx) {
        l = line::marathon(r, p, freq, true);
    }
    let rep = if !marathon(idx) && r.chance(1, 8) {
        (0..r.range(1, 3)).map(|_| (r.below(200) as u16, r.log(1, (freq / 500).max(2) as u64) as u32)).collect()
    } else {
        vec![]
    };
    C15Plan {
        p,
        clk,
        freq,
        line: l,
        rep,
        reset: (0..r.below(4)).map(|_| r.below(250) as u16).collect(),
        lag: if forgets {
            vec![r.log(10, 3_000) as u16]
        } else {
            (0..r.range(1, 3)).map(|_| *r.pick(&[0, 0, 0, 1, 2, 5])).collect()
        },
    }
}

fn c15_exec(p: &C15Plan, ctx: &mut Ctx) -> Res {
    let base = p.line.events(p.freq, ctx);
    let evs = with_rep(&base, &p.rep, ctx);
    let who = format!("{:?} {:?} {} Hz", p.p, p.clk, p.freq);
    let mk = || rx::make_dec(p.p, p.clk, p.freq);
    let mut d = mk();
    if let Some(c) = d.command() {
        return viol("command-not-done", format!("{who}: a new decoder offers {}", show(&c)));
    }
    // the decoder built anew at each reset
    let mut fresh: Option<Box<dyn Dec>> = None;
    let mut since = 0usize;
    let mut lagi = 0usize;
    let mut left: Option<u16> = None;
    let reset = |d: &mut Box<dyn Dec>, i: usize, ctx: &mut Ctx| -> Res {
        d.reset();
        ctx.count("resets", 1);
        if let Some(c) = d.command() {
            return viol("command-not-done", format!("{who}: reset before event {i}, then the decoder offers {}", show(&c)));
        }
        Ok(())
    };
    for (i, e) in evs.iter().enumerate() {
        if p.reset.iter().any(|k| *k as usize == i) {
            ctx.fault("owner-reset");
            reset(&mut d, i, ctx)?;
            fresh = Some(mk());
            since = i;
            left = None;
        }
        let st = d.event(e.lvl, e.dt);
        let cmd = d.command();
        ctx.h(i as u64 ^ (st == St::Done) as u64);
        ctx.count("verdicts", 1);
        if let Some(c) = &cmd {
            note(i, &Out::Cmd(*c), ctx);
            if st != St::Done {
                return viol("command-not-done", format!("{who}: after event {i} the state is {st:?}, but the decoder offers {}", show(c)));
            }
        } else if st == St::Done && !matches!(p.p, refp::Apple) && !p.p.is_nec() {
            return viol("done-without-command", format!("{who}: event {i} reports completion, but there is no command"));
        }
        if let Some(f) = &mut fresh {
            let fst = f.event(e.lvl, e.dt);
            let fcmd = f.command();
            let rep = p.p.is_nec() && st == St::Done && cmd.is_none_or(|c| c.rep || p.p == refp::NecRaw) && fcmd.is_none();
            if (fst, fcmd) != (st, cmd) {
                if rep && (fst == St::Done || fst == St::Idle) {
                    // a repeat: both start over here
                    reset(&mut d, i + 1, ctx)?;
                    f.reset();
                    left = None;
                    continue;
                }
                return viol(
                    "reset-not-fresh",
                    format!("{who}: reset before event {since}; event {i} then gives {st:?} {}, with a new decoder {fst:?} {}", show_opt(&cmd), show_opt(&fcmd)),
                );
            }
        }
        if matches!(st, St::Done | St::Error(_)) {
            let n = left.unwrap_or_else(|| {
                lagi += 1;
                p.lag[(lagi - 1) % p.lag.len()]
            });
            if n == 0 {
                reset(&mut d, i + 1, ctx)?;
                fresh = Some(mk());
                since = i + 1;
                left = None;
            } else {
                ctx.fault("owner-late");
                left = Some(n - 1);
            }
        }
    }
    // all in one call against step by step
    let mut a = mk();
    let mut b = mk();
    for (i, e) in evs.iter().enumerate() {
        let x = a.total(e.lvl, e.dt);
        let y = match b.event(e.lvl, e.dt) {
            St::Idle | St::Receiving => Out::Nothing,
            St::Done => {
                let c = b.command();
                b.reset();
                c.map_or(Out::Nothing, Out::Cmd)
            }
            St::Error(e) => {
                b.reset();
                Out::Err(e)
            }
        };
        if x != y {
            return viol("total-differs", format!("{who}: event {i}: event_total gives {}, stepping gives {}", show_out(&x), show_out(&y)));
        }
    }
    Ok(())
}

pub fn c15() -> Typed<C15Plan> {
    Typed {
        id: "C15",
        runs: (6_000_000, 60_000_000),
        gen: c15_gen,
        valid: |p| {
            (20_000..=1_000_000_000).contains(&p.freq)
                && (p.clk.fixed_hz().is_none() || p.freq == 1_000_000)
                && p.line.sane(1_000_000, 1 << 30)
                && p.line.0.iter().all(|(g, _)| *g as u128 * p.freq as u128 / 1_000_000 < 1 << 31)
                && !p.lag.is_empty()
                && p.rep.len() <= 8
        },
        exec: c15_exec,
        nontrivial: |c| c.get("resets") > 0 && c.get("edges") > 10,
        rule: "a seed makes one edge history for one bare decoder and an owner that queries after every event and resets at random points and late after completion or error; each reset is followed by a comparison with a decoder built at that moment; non-trivial: at least one reset happened",
        real: DEC_REAL,
        stub: STUB,
        assumptions: &["NEC repeats may resolve against the last completed command after a reset"],
    }
}

