//! Transmitter properties at tick resolution.

use crate::ctx::{viol, Ctx, Res};
use crate::gens;
use crate::refp::WFrame;
use crate::rng::Rng;
use crate::run::{Tier, Typed};
use crate::tx::{self, Load};
use infrared::sender::Status;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TxItem {
    /// idle ticks before the load (after the previous frame's end, or from power-up)
    pub idle: u64,
    pub load: Load,
    /// loads while the transmission is under way, at this many per mille of its length
    pub busy: Vec<(u16, Load)>,
    /// per mille of the frame at which the owner gives up (reset, or power loss and restart)
    pub abort: Option<u16>,
    /// (PulsedataSender) the aborted frame is not reset but replaced by the next item's load
    #[serde(default)]
    pub over: bool,
    /// the load comes this many ticks after the previous frame's end (Sender: it may still be busy)
    #[serde(default)]
    pub soon: Option<u8>,
    /// (PulsedataSender) ticks that come late: per mille of the frame, ticks
    #[serde(default)]
    pub late: Vec<(u16, u16)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TxPlan {
    /// false: the embedded-hal Sender; true: PulsedataSender with the caller's time stamps
    pub pd: bool,
    pub hz: u8,
    pub buf: u8,
    pub ts0: u32,
    /// (Sender) the output is on when the sender is set up
    #[serde(default)]
    pub on0: bool,
    pub items: Vec<TxItem>,
    /// and all of them this many times more
    #[serde(default)]
    pub again: u32,
}

enum Dev {
    S(Box<dyn tx::Tx>),
    P(Box<dyn tx::Pd>, u32),
}

impl Dev {
    fn new(p: &TxPlan, ts: u32, on: bool) -> Dev {
        if p.pd {
            Dev::P(tx::make_pd(p.hz, p.buf), ts)
        } else {
            Dev::S(tx::make(p.hz, p.buf, on))
        }
    }
    /// (output on, reported idle)
    fn tick(&mut self) -> (bool, Option<bool>) {
        match self {
            Dev::S(s) => (s.tick(), None),
            Dev::P(p, ts) => {
                let st = p.tick(*ts);
                *ts = ts.wrapping_add(1);
                (st == Status::Transmit(true), Some(st == Status::Idle))
            }
        }
    }
    fn skip(&mut self, n: u64) {
        if let Dev::P(_, ts) = self {
            *ts = ts.wrapping_add(n as u32);
        }
    }
    fn load(&mut self, c: &tx::AnyCmd) {
        match self {
            Dev::S(s) => s.load(c),
            Dev::P(p, _) => p.load(c),
        }
    }
}

pub fn hz_of(p: &TxPlan) -> u32 {
    if p.pd {
        tx::PD_HZ[p.hz as usize]
    } else {
        tx::TX_HZ[p.hz as usize]
    }
}

pub fn valid(p: &TxPlan) -> bool {
    let n = if p.pd { tx::PD_HZ.len() } else { tx::TX_HZ.len() };
    if p.hz as usize >= n || p.buf as usize >= tx::TX_BUF.len() || p.items.len() > 1_500 {
        return false;
    }
    if p.again > 0 && (p.items.len() as u64 * p.again as u64 > 70_000 || p.items.iter().map(|i| i.idle).sum::<u64>() > 500 * p.items.len() as u64 || hz_of(p) > 50_000) {
        return false;
    }
    p.items.iter().all(|i| {
        tx::TX_PROTOS.contains(&i.load.p)
            && i.load.in_range()
            && !i.load.create
            && i.load.fits(p.buf)
            && i.idle < 6_000_000_000
            && (!p.pd || i.busy.is_empty())
            && i.abort.is_none_or(|a| (20..=950).contains(&a))
            && (!i.over || p.pd && i.abort.is_some())
            && i.soon.is_none_or(|s| s < 3)
            && (p.pd || i.late.is_empty())
            && i.late.len() <= 8
            && i.late.iter().all(|(a, n)| *a <= 950 && (1..=5000).contains(n))
            && i.busy.iter().all(|(a, l)| {
                (20..=950).contains(a) && l.in_range() && !l.create && l.fits(p.buf) && tx::TX_PROTOS.contains(&l.p)
            })
    })
}

/// Ticks idle and checks that the output stays off.
fn idle(d: &mut Dev, n: u64, what: &str, ctx: &mut Ctx) -> Res {
    for i in 0..n {
        let (on, idle) = d.tick();
        if on {
            return viol("spurious-output", format!("{what}: output on after {i} ticks although nothing is being sent"));
        }
        if idle == Some(false) && i >= 3 {
            return viol("not-ready", format!("{what}: still transmitting {i} ticks after the end"));
        }
    }
    ctx.count("ticks", n);
    Ok(())
}

pub fn exec(p: &TxPlan, ctx: &mut Ctx) -> Res {
    let hz = hz_of(p);
    let mut d = Dev::new(p, p.ts0, p.on0);
    if p.on0 && !p.pd {
        ctx.fault("output-left-on");
        idle(&mut d, 1, "output on at power-up", ctx)?;
    }
    let mut ticks = 0u64;
    ctx.s(p.ts0 as u64);
    let all = p.items.len() * (p.again as usize + 1);
    if p.again > 0 {
        ctx.fault("long-repetition");
    }
    for k in 0..all {
        let it = &p.items[k % p.items.len()];
        let before = if k == 0 { "after power-up" } else { "after the previous frame" };
        // loaded over a frame under way
        let prev = &p.items[(k + p.items.len() - 1) % p.items.len()];
        let over = k > 0 && prev.over && tx::build(&prev.load).is_some();
        let soon = k > 0 && it.soon.is_some() && !over;
        let gap = match it.soon {
            _ if over => 0,
            Some(s) if soon => s as u64,
            _ => it.idle + if k > 0 { 3 } else { 0 },
        };
        ctx.s(gap);
        idle(&mut d, gap, before, ctx)?;
        ticks += gap;
        let Some(cmd) = tx::build(&it.load) else { continue };
        let fr: WFrame = it.load.frame();
        let who = format!("{:?} ({:?}) at {hz} Hz", it.load.p, fr);
        d.load(&cmd);
        let iv = fr.intervals();
        let un = fr.units();
        let total: u64 = iv.iter().map(|v| *v as u64 * hz as u64 / 1_000_000).sum();
        let mut busy: Vec<(u64, &Load)> = it.busy.iter().map(|(a, l)| (total * *a as u64 / 1000, l)).collect();
        busy.sort_by_key(|x| x.0);
        let abort = it.abort.map(|a| total * a as u64 / 1000);
        if p.pd && p.ts0.checked_add((total + it.idle) as u32).is_none() {
            ctx.fault("tick-counter-wrap");
        }
        let mut late: Vec<(u64, u64)> = it.late.iter().map(|(a, n)| (total * *a as u64 / 1000, *n as u64)).collect();
        late.sort();
        let mut li = 0;
        if over {
            ctx.fault("load-over-frame");
        }
        // start
        let mut wait = 0;
        let mut dropped = false;
        while !d.tick().0 {
            wait += 1;
            if wait > 2 {
                if soon && !p.pd {
                    dropped = true;
                    break;
                }
                return viol("no-start", format!("{who}: output still off {wait} ticks after the load"));
            }
        }
        if soon {
            ctx.fault("load-at-frame-end");
        }
        if dropped {
            // refused because the sender was busy still: nothing may come of it
            ctx.count("loads-refused", 1);
            idle(&mut d, total.min(20_000), "after a load at the very end of a frame was refused", ctx)?;
            continue;
        }
        let mut t: u64 = 1;
        let mut bi = 0;
        let mut aborted = false;
        let mut left_on = false;
        'frame: for (i, us) in iv.iter().enumerate() {
            let level = i % 2 == 0;
            // length of this interval in ticks; its first tick has been made
            let nom = *us as u128 * hz as u128; // in 1e-6 ticks
            let slack = un[i] as u128 * 1_000_000;
            let mut len: u64 = 1;
            let mut lateness: u64 = 0;
            loop {
                if li < late.len() && late[li].0 <= t {
                    d.skip(late[li].1);
                    lateness += late[li].1;
                    t += late[li].1;
                    len += late[li].1;
                    ctx.fault("late-tick");
                    ctx.s(t);
                    li += 1;
                }
                while bi < busy.len() && busy[bi].0 <= t {
                    if let Some(c) = tx::build(busy[bi].1) {
                        d.load(&c);
                        ctx.fault("load-while-busy");
                        ctx.s(t);
                    }
                    bi += 1;
                }
                if abort.is_some_and(|a| t >= a) {
                    aborted = true;
                    left_on = level;
                    break 'frame;
                }
                let (on, st) = d.tick();
                t += 1;
                if on == level {
                    len += 1;
                    if (len - lateness) as u128 * 1_000_000 > nom + slack {
                        return viol(
                            "too-long",
                            format!("{who}: interval {i} ({us} us) lasts more than {len} ticks instead of {:.2}", nom as f64 / 1e6),
                        );
                    }
                    if st == Some(true) {
                        return viol("early-idle", format!("{who}: reports ready inside interval {i}"));
                    }
                } else {
                    break;
                }
            }
            if (len as u128) * 1_000_000 + slack < nom {
                return viol(
                    "too-short",
                    format!("{who}: interval {i} ({us} us) lasts {len} ticks instead of {:.2}", nom as f64 / 1e6),
                );
            }
            ctx.h(len);
        }
        ticks += t;
        ctx.count("ticks", t);
        if aborted && it.over && k + 1 < all {
        } else if aborted {
            match &mut d {
                Dev::S(_) => {
                    ctx.fault("sender-crash-restart");
                    d = Dev::new(p, 0, left_on);
                }
                Dev::P(pd, _) => {
                    ctx.fault("reset-mid-frame");
                    pd.reset();
                }
            }
            idle(&mut d, 200, "after the abort", ctx)?;
        } else {
            ctx.count("frames-sent", 1);
        }
        ctx.log(|| format!("{who}: {} in {t} ticks", if aborted { "aborted" } else { "sent" }));
    }
    // nothing follows the last frame
    let tail = (hz as u64 / 8).min(40_000);
    idle(&mut d, 3 + tail, "after the last frame", ctx)?;
    ctx.sim_ns += (ticks + tail) as u128 * 1_000_000_000 / hz as u128;
    ctx.count("verdicts", 1);
    Ok(())
}

pub fn gen(r: &mut Rng, idx: u64, tier: Tier) -> TxPlan {
    if idx < if tier == Tier::Thorough { 6 } else { 3 } {
        // the sender's own tick counter wraps while idle
        let p = if tier == Tier::Quick { [tx::TX_PROTOS[0], tx::TX_PROTOS[4], tx::TX_PROTOS[5]][idx as usize] } else { tx::TX_PROTOS[idx as usize] };
        return TxPlan {
            pd: false,
            hz: r.below(6) as u8,
            buf: r.below(4) as u8,
            ts0: 0,
            on0: true,
            again: 0,
            items: vec![
                TxItem { idle: 3, load: gens::load(r, p), busy: vec![], abort: None, over: false, soon: None, late: vec![] },
                TxItem { idle: (1 << 32) - r.range(1, 3000), load: gens::load(r, p), busy: vec![], abort: None, over: false, soon: None, late: vec![] },
            ],
        };
    }
    if (10..22).contains(&(idx % 200_000)) {
        // more loads than a 16-bit counter can count
        let n = r.range(1, 3);
        let pd = r.chance(1, 2);
        let items: Vec<TxItem> = (0..n)
            .map(|_| {
                let p = tx::TX_PROTOS[if r.chance(1, 4) { r.below(6) } else { r.range(4, 5) } as usize];
                TxItem { idle: r.below(20), load: gens::load(r, p), busy: vec![], abort: None, over: false, soon: r.chance(1, 4).then(|| r.below(3) as u8), late: vec![] }
            })
            .collect();
        let slow: Vec<u8> = (0..6).filter(|i| (if pd { tx::PD_HZ[*i as usize] } else { tx::TX_HZ[*i as usize] }) <= 50_000).collect();
        return TxPlan { pd, hz: *r.pick(&slow), buf: r.below(4) as u8, ts0: r.u64() as u32, on0: false, again: (65_536 / n + r.range(1, 300)) as u32, items };
    }
    let pd = r.chance(1, 3);
    let hz = if pd {
        let n = tx::PD_HZ.len() as u64;
        // the fast rates cost millions of ticks per frame
        if r.chance(1, 6) { r.below(n) } else { r.below(n.min(6)) }
    } else {
        r.below(tx::TX_HZ.len() as u64)
    } as u8;
    let fast = pd && hz >= 6;
    let many = !fast && r.chance(1, 400);
    let hz = if many { r.below(6) as u8 } else { hz };
    let n = if fast { r.range(1, 2) } else if many { r.range(260, 700) } else { r.range(1, 5) };
    let mut items = vec![];
    // only what fits in a small buffer
    let rc = idx % 6 >= 4 && r.chance(1, 2);
    for k in 0..n {
        let p = if k == 0 {
            tx::TX_PROTOS[(idx % 6) as usize]
        } else if rc {
            tx::TX_PROTOS[r.range(4, 5) as usize]
        } else {
            *r.pick(&tx::TX_PROTOS)
        };
        let busy = if !pd && r.chance(1, 2) {
            (0..r.range(1, 3)).map(|_| {
                let q = if rc { tx::TX_PROTOS[r.range(4, 5) as usize] } else { *r.pick(&tx::TX_PROTOS) };
                (r.range(20, 950) as u16, gens::load(r, q))
            }).collect()
        } else {
            vec![]
        };
        items.push(TxItem {
            idle: match r.below(4) {
                0 => 0,
                1 => r.below(20),
                _ => r.log(1, if many { 100 } else { 30_000 }),
            },
            load: if k == 0 { Load { p, f: gens::nth(idx / 6, p), create: false } } else { gens::load(r, p) },
            busy,
            abort: r.chance(1, 8).then(|| r.range(20, 950) as u16),
            over: false,
            soon: r.chance(1, 6).then(|| r.below(3) as u8),
            late: if pd && r.chance(1, 4) {
                (0..r.range(1, 4)).map(|_| (r.range(0, 950) as u16, r.log(1, 5000) as u16)).collect()
            } else {
                vec![]
            },
        });
        if pd && r.chance(1, 4) {
            let it = items.last_mut().unwrap();
            it.abort = Some(r.range(20, 950) as u16);
            it.over = true;
        }
    }
    let small = items.iter().all(|i: &TxItem| i.load.fits(tx::SMALL_BUF) && i.busy.iter().all(|b| b.1.fits(tx::SMALL_BUF)));
    TxPlan {
        pd,
        hz,
        buf: if small && r.chance(1, 2) { tx::SMALL_BUF } else { r.below(4) as u8 },
        ts0: match r.below(4) {
            0 => 0,
            1 => u32::MAX - r.below(200_000) as u32,
            2 => 0x8000_0000 - r.below(100_000) as u32,
            _ => r.u64() as u32,
        },
        on0: !pd && r.chance(1, 3),
        again: 0,
        items,
    }
}

pub fn c02() -> Typed<TxPlan> {
    Typed {
        id: "C02",
        runs: (400_000, 8_000_000),
        gen,
        valid,
        exec,
        nontrivial: |c| c.get("frames-sent") > 0,
        rule: "a seed makes a sequence of loads (6 protocols, 22 sender tick rates or 10 PulsedataSender rates, 5 buffer sizes, idle times, loads while busy, at the very end of a frame and over a frame, late ticks, aborts, starting counter values); non-trivial: at least one frame was transmitted to its end and every tick compared with the nominal waveform",
        real: &["sender::Sender", "sender::PulsedataSender", "PulsedataBuffer", "Nec/Rc5/Rc6 encoders"],
        stub: &["PWM pin (records on/off)", "tick timer"],
        assumptions: &["one tick() call per timer period", "a load less than 3 ticks after the previous frame's end may be refused, but is then refused whole"],
    }
}
