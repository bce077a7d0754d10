//! Several parties: a remote, a chain of relays (each a real receiver feeding a real sender) and a
//! last receiver.

use crate::ctx::{viol, Ctx, Res};
use crate::gens;
use crate::refp::{self, NCmd, Proto, WFrame};
use crate::rng::Rng;
use crate::run::{Tier, Typed};
use crate::rx::{self, Clk, Fe, Out};
use crate::tx::{self, AnyCmd};
use crate::world::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Stage {
    rx: RxCfg,
    tx: TxCfg,
    /// what the application takes between the report and the load
    delay_us: u32,
    /// the application passes the generic command on (protocol, address, command code)
    generic: bool,
    /// power loss: (which of its loads, how long after it); the frame is lost with it
    crash: Option<(u8, u32)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RelayPlan {
    p: Proto,
    /// what the remote sends; `rx` is not used
    items: Vec<Item>,
    stages: Vec<Stage>,
    last: RxCfg,
}

const FES: [Fe; 9] = [Fe::Dt, Fe::Inst, Fe::Edge, Fe::PinDt, Fe::PinInst, Fe::Poll, Fe::PollPin, Fe::Raw, Fe::Step];
const GAP_US: u32 = 130_000;

fn world(items: Vec<Item>, rx: &RxCfg) -> Plan {
    Plan { rx: vec![rx.clone()], tx: None, items, aux: 0 }
}

fn genericable(p: Proto) -> bool {
    matches!(p, refp::Nec | refp::Samsung | refp::Rc5 | refp::Rc6)
}

/// Loss of light, never enough of it to make a command.
fn harmless(i: &Item) -> bool {
    i.air.is_empty()
        && i.warp.is_empty()
        && i.rxf.iter().all(|f| matches!(f, RxF::Restart { .. }))
        && match &i.kind {
            Kind::Frame(f) => match i.cut {
                Some(c) => (c as usize) < f.intervals().len() * 8 / 10 && i.skew_ppm == 0 && i.jit_ppm == 0,
                None => i.rxf.is_empty(),
            },
            // too short for a header or a repeat
            Kind::Noise(p) => p.len() <= 8 && p.iter().map(|(a, b)| *a as u64 + *b as u64).sum::<u64>() <= 3_000,
            _ => false,
        }
}

fn hop_ok(p: Proto, tx: &TxCfg, rx: &RxCfg) -> bool {
    let c = p.class();
    let dev = quant_ppm(c, tx::TX_HZ[tx.hz as usize])
        + tx.skew_ppm.unsigned_abs() as u64
        + rx.skew_ppm.unsigned_abs() as u64
        + rx.lat_ns as u64 * 1000 / c.min_interval_us();
    dev * 100 <= c.budget_ppm(rx.freq()) * 98
}

fn valid(p: &RelayPlan) -> bool {
    let n = p.stages.len();
    if n == 0 || n > 4 || p.items.is_empty() || p.items.len() > 12 || !tx::TX_PROTOS.contains(&p.p) {
        return false;
    }
    let Some(first) = p.stages.first() else { return false };
    let w = world(p.items.clone(), &first.rx);
    if !w.sane() || !w.in_budget() || p.items.iter().any(|i| !harmless(i) || i.gap_us < GAP_US) {
        return false;
    }
    let total_us: u64 = w.total_us() + 2_000_000;
    let nodes: Vec<&RxCfg> = p.stages.iter().map(|s| &s.rx).chain([&p.last]).collect();
    for (k, r) in nodes.iter().enumerate() {
        let mut one = w.clone();
        one.items.clear();
        one.rx = vec![(*r).clone()];
        if !one.sane()
            || r.proto != p.p
            || r.epoch != 0
            || (k < n && !FES.contains(&r.fe))
            || (k < n && !matches!(r.clk, Clk::U32 | Clk::U64))
            || (r.clk.bits() == 32 && total_us as u128 * r.freq() as u128 * 11 / 10 / 1_000_000 >= 1 << 32)
        {
            return false;
        }
    }
    p.stages.iter().enumerate().all(|(k, s)| {
        (s.tx.hz as usize) < tx::TX_HZ.len()
            && (s.tx.buf as usize) < tx::TX_BUF.len()
            && s.tx.buf != tx::SMALL_BUF
            && s.delay_us <= 10_000
            && hop_ok(p.p, &s.tx, nodes[k + 1])
            && (!s.generic || genericable(p.p))
            && s.crash.is_none_or(|(_, us)| (1_000..=8_000).contains(&us))
    })
}

fn peek(c: &AnyCmd) -> NCmd {
    use crate::rx::Norm;
    match c {
        AnyCmd::Nec(c) => c.norm(),
        AnyCmd::Nec16(c) => c.norm(),
        AnyCmd::Samsung(c) => c.norm(),
        AnyCmd::Raw(c) => c.norm(),
        AnyCmd::Rc5(c) => c.norm(),
        AnyCmd::Rc6(c) => c.norm(),
        AnyCmd::Sbp(c) => c.norm(),
        AnyCmd::Refused(a, c) => NCmd { p: refp::Sbp, f: [*a as u64, *c as u64, 0, 0], rep: false },
    }
}

fn compare(who: &str, want: &[NCmd], got: &[NCmd], ctx: &mut Ctx) -> Res {
    ctx.count("verdicts", 1);
    ctx.count("commands", got.len() as u64);
    for c in got {
        for f in c.f {
            ctx.h(f);
        }
        ctx.h(c.rep as u64);
    }
    if want == got {
        return Ok(());
    }
    let i = want.iter().zip(got).take_while(|(a, b)| a == b).count();
    viol(
        if got.len() < want.len() {
            "lost"
        } else if got.len() > want.len() {
            "extra"
        } else {
            "changed"
        },
        format!(
            "{who}: {} commands instead of {}; number {i}: expected {}, got {}",
            got.len(),
            want.len(),
            show_opt(&want.get(i).copied()),
            show_opt(&got.get(i).copied())
        ),
    )
}

fn exec(p: &RelayPlan, ctx: &mut Ctx) -> Res {
    let first = world(p.items.clone(), &p.stages[0].rx);
    let mut line = air(&first, ctx);
    // what the remote's commands are to the first receiver
    let mut mem = None;
    let mut want: Vec<NCmd> = vec![];
    for it in &p.items {
        for f in &it.rxf {
            if matches!(f, RxF::Restart { .. }) {
                mem = None;
            }
        }
        let Some(fr) = it.frame() else { continue };
        if let Some(cut) = it.cut {
            // from the mark after it on the header counts
            if cut >= 3 && fr.class == p.p.class() && p.p.is_nec() {
                mem = None;
            }
            continue;
        }
        want.extend(refp::expect(p.p, &fr, &mut mem));
    }
    let mut plan = first;
    for (k, s) in p.stages.iter().enumerate() {
        let who = format!("relay {k} ({:?} {:?} {:?} {} Hz)", s.rx.proto, s.rx.fe, s.rx.clk, s.rx.freq());
        let out = drive(&s.rx, &plan, &line, 0, &|| rx::make_any(p.p, s.rx.fe, s.rx.clk, s.rx.freq, s.generic), ctx);
        let reports: Vec<(u64, AnyCmd)> =
            out.into_iter().filter_map(|(t, o)| if let Out::Cmd(c) = o { Some((t, c)) } else { None }).collect();
        // the generic view has address and command code only
        if s.generic {
            for c in &mut want {
                match p.p {
                    refp::Rc5 => (c.f[2], c.f[3]) = (3, 0),
                    refp::Rc6 => c.f[2] = 0,
                    _ => {}
                }
                c.rep = false;
            }
        }
        let got: Vec<NCmd> = reports.iter().map(|x| peek(&x.1)).collect();
        ctx.log(|| format!("{who}: {}", got.iter().map(show).collect::<Vec<_>>().join(", ")));
        compare(&who, &want, &got, ctx)?;
        // pass it on
        let mut n = TxNode::new(&s.tx);
        let mut marks = vec![];
        let mut end = line.end;
        for (i, (t, c)) in reports.iter().enumerate() {
            let at = t + s.delay_us as u64 * 1000;
            n.run_to(at, &mut marks);
            n.tx.load(c);
            ctx.count("relayed", 1);
            ctx.s(at);
            if let Some((w, us)) = s.crash {
                if w as usize == i {
                    n.run_to(at + us as u64 * 1000, &mut marks);
                    n.crash(&mut marks);
                    ctx.fault("relay-crash-restart");
                    want[i].p = refp::Denon; // marked lost
                }
            }
            end = end.max(at);
        }
        want.retain(|c| c.p != refp::Denon);
        for c in &mut want {
            // a repeat is passed on as the command it stands for
            c.rep = false;
        }
        let end = end + 250_000_000;
        n.run_to(end, &mut marks);
        n.close(end, &mut marks);
        let edges = marks.into_iter().filter(|(a, b)| b > a).flat_map(|(a, b)| [(a, true), (b, false)]).collect();
        line = Air { edges, slots: vec![], end };
        plan = world(vec![], &p.last);
        ctx.sim_ns += end as u128;
    }
    let who = format!("last receiver ({:?} {:?} {:?} {} Hz)", p.last.proto, p.last.fe, p.last.clk, p.last.freq());
    let out = run_rx(&p.last, &plan, &line, 0, ctx);
    let got: Vec<NCmd> = out.iter().filter_map(|(_, o)| if let Out::Cmd(c) = o { Some(*c) } else { None }).collect();
    compare(&who, &want, &got, ctx)
}

fn gen(r: &mut Rng, idx: u64, _t: Tier) -> RelayPlan {
    let p = tx::TX_PROTOS[(idx % 6) as usize];
    let c = p.class();
    let ns = r.range(1, 3) as usize;
    let mut items = vec![];
    for k in 0..r.range(1, 4) {
        let gap = GAP_US + if r.chance(1, 2) { 0 } else { r.log(1, 100_000) as u32 };
        let mut it = match r.below(8) {
            0 => {
                let mut it = Item::new(gap, Kind::Frame(gens::frame(r, p)));
                let n = it.frame().unwrap().intervals().len() as u64;
                it.cut = Some(r.range(1, (n * 8 / 10 - 1).max(1)) as u8);
                it
            }
            1 => Item::new(gap, Kind::Noise((0..r.range(1, 4)).map(|_| (r.log(1, 350) as u32, r.log(1, 350) as u32)).collect())),
            2 | 3 if k > 0 && p.is_nec() => Item::new(gap, Kind::Frame(WFrame::repeat(c))),
            4 => {
                let q = *r.pick(&refp::ALL);
                Item::new(gap, Kind::Frame(gens::frame(r, q)))
            }
            _ => Item::new(gap, Kind::Frame(gens::frame(r, p))),
        };
        if matches!(it.kind, Kind::Noise(_)) && r.chance(1, 2) {
            it.rxf.push(RxF::Restart { at_us: 0 });
        }
        items.push(it);
    }
    let node = |r: &mut Rng, relay: bool| loop {
        let fe = if relay { *r.pick(&FES) } else { gens::fe(r) };
        let mut n = gens::node(r, p, fe);
        if relay && !matches!(n.clk, Clk::U32 | Clk::U64) {
            continue;
        }
        if n.clk == Clk::U32 {
            n.freq = n.freq.min(400_000_000);
        } else if n.clk.bits() == 32 && n.freq() > 400_000_000 {
            continue;
        }
        return n;
    };
    let mut rxs: Vec<RxCfg> = (0..=ns).map(|k| node(r, k < ns)).collect();
    let mut stages = vec![];
    for k in 0..ns {
        let mut hz = r.below(tx::TX_HZ.len() as u64) as u8;
        if quant_ppm(c, tx::TX_HZ[hz as usize]) * 100 > c.budget_ppm(rxs[k + 1].freq()) * 90 {
            hz = r.range(9, 15) as u8;
        }
        let quant = quant_ppm(c, tx::TX_HZ[hz as usize]);
        let left = (c.budget_ppm(rxs[k + 1].freq()) * 97 / 100).saturating_sub(quant);
        let parts = gens::split(r, left, 3);
        // the first receiver's skew is taken from the remote's budget below
        rxs[k + 1].skew_ppm = gens::sign(r, parts[0]);
        rxs[k + 1].lat_ns = ((parts[1] * c.min_interval_us()) / 1000).min(60_000) as u32;
        stages.push(Stage {
            rx: rxs[k].clone(),
            tx: TxCfg { hz, buf: r.below(4) as u8, skew_ppm: gens::sign(r, parts[2]), phase_ns: r.below(100_000) as u32 },
            delay_us: r.log(1, 10_000) as u32,
            generic: genericable(p) && r.chance(1, 4),
            crash: r.chance(1, 6).then(|| (r.below(3) as u8, r.range(1_000, 8_000) as u32)),
        });
    }
    let mut w = world(items, &rxs[0]);
    gens::tune(r, &mut w);
    // tune also puts skew on frames that are cut
    for i in &mut w.items {
        if i.cut.is_some() {
            i.skew_ppm = 0;
            i.jit_ppm = 0;
            i.stretch_us = 0;
        }
    }
    stages[0].rx = w.rx[0].clone();
    // the clock of a 32-bit node must not wrap in here (C11's business)
    let t = w.total_us() + 2_000_000;
    let lim = ((1u128 << 32) * 1_000_000 * 10 / 12 / t as u128) as u32;
    let mut last = rxs[ns].clone();
    for n in stages.iter_mut().map(|s| &mut s.rx).chain([&mut last]) {
        if n.clk.bits() == 32 && n.freq() > lim {
            n.clk = Clk::U32;
            n.freq = lim.max(1_000_000);
        }
    }
    RelayPlan { p, items: w.items, stages, last }
}

pub fn c19() -> Typed<RelayPlan> {
    Typed {
        id: "C19",
        runs: (120_000, 3_000_000),
        gen,
        valid,
        exec,
        nontrivial: |c| c.get("relayed") > 0,
        rule: "a seed makes a remote's frames (truncated ones, noise and foreign frames among them), a chain of 1-3 relays (receiver front end, clock, sender rate, delay, typed or generic command, power losses) and a last receiver; non-trivial: at least one command was passed on",
        real: &["Receiver", "PeriodicPoll", "protocol decoders", "command types passed from receiver to sender", "AnyCommand and AddressCommand::create", "Sender and encoders"],
        stub: &["remote control (reference waveforms)", "optical channel", "input pins", "timers and interrupt controller", "the relay application (loads what was reported)"],
        assumptions: &["frames at least 130 ms apart, so that no relay is busy when the next command comes", "each hop within the timing budget of its receiver"],
    }
}
