//! Shared random generators, biased towards edges.

use crate::refp::{self, Class, Proto, WFrame};
use crate::rng::{mix, Rng};
use crate::rx::{self, Clk, Fe};
use crate::tx::{self, Load};
use crate::world::*;

pub fn bits(r: &mut Rng, n: u32) -> u64 {
    let m = if n == 64 { u64::MAX } else { (1u64 << n) - 1 };
    let v = match r.below(16) {
        // bytes put together: equal, complementary, empty and full ones
        12 | 13 if n > 8 => {
            let b = bits(r, 8);
            (0..n.div_ceil(8)).fold(0, |v, _| {
                v << 8
                    | match r.below(5) {
                        0 => b,
                        1 => !b & 0xff,
                        2 => 0,
                        3 => 0xff,
                        _ => bits(r, 8),
                    }
            })
        }
        // small numbers, large numbers
        14 => r.below(16),
        15 => !r.below(16),
        0 => 0,
        1 => u64::MAX,
        2 => 0x5555_5555_5555_5555,
        3 => 0xaaaa_aaaa_aaaa_aaaa,
        4 => 1 << r.below(n as u64),
        5 => !(1 << r.below(n as u64)),
        6 => 1 << (n - 1) | r.below(4),
        _ => r.u64(),
    };
    v & m
}

/// A frame of this class as its remotes send it (redundant parts consistent most of the time).
pub fn frame(r: &mut Rng, p: Proto) -> WFrame {
    let c = p.class();
    let b = match p {
        _ if r.chance(1, 4) => bits(r, c.nbits()),
        refp::Nec | refp::Samsung => refp::ref_bits(p, [bits(r, 8), bits(r, 8), 0, 0]),
        refp::Nec16 => refp::ref_bits(p, [bits(r, 16), bits(r, 8), 0, 0]),
        refp::Apple => refp::apple_bits(bits(r, 5), bits(r, 7), bits(r, 8)),
        refp::Sbp => refp::ref_bits(p, [bits(r, 16), bits(r, 8), 0, 0]) | r.below(16) << 16,
        _ => bits(r, c.nbits()),
    };
    WFrame::new(c, b)
}

/// The payload number `seq` of this protocol, in an order that spreads over all of them: 2^16 numbers in
/// a row are all the payloads of the protocols with up to 16 bits of them.
pub fn nth(seq: u64, p: Proto) -> [u64; 4] {
    let v = seq.wrapping_mul(40_503) & 0xffff;
    let (a, c, hi) = (v >> 8, v & 0xff, mix(seq) >> 32);
    match p {
        refp::Nec | refp::Samsung => [a, c, 0, 0],
        refp::Nec16 => [a | (hi & 0xff) << 8, c, 0, 0],
        refp::Rc5 => [v & 31, v >> 5 & 63, 2 + (v >> 12 & 1), v >> 11 & 1],
        refp::Rc6 => [a, c, hi & 1, 0],
        refp::NecRaw => [v | (hi & 0xffff) << 16, 0, 0, 0],
        refp::Apple => [a & 31, c & 127, hi & 255, 0],
        refp::Sbp => [a | (hi & 0xff) << 8, c, 0, 0],
        _ => [v | hi << 16, 0, 0, 0],
    }
}

pub fn nth_frame(seq: u64, p: Proto) -> WFrame {
    let f = nth(seq, p);
    let b = match p {
        refp::Apple => refp::apple_bits(f[0], f[1], f[2]),
        refp::Denon => f[0] & ((1 << 48) - 1),
        _ => refp::ref_bits(p, f),
    };
    WFrame::new(p.class(), b)
}

pub fn load(r: &mut Rng, p: Proto) -> Load {
    let f = match p {
        refp::Nec | refp::Samsung => [bits(r, 8), bits(r, 8), r.below(2), 0],
        refp::Nec16 => [bits(r, 16), bits(r, 8), r.below(2), 0],
        refp::NecRaw => [bits(r, 32), 0, 0, 0],
        refp::Rc5 => [bits(r, 5), bits(r, 6), r.range(2, 3), r.below(2)],
        refp::Rc6 => [bits(r, 8), bits(r, 8), r.below(2), 0],
        _ => unreachable!(),
    };
    Load { p, f, create: false }
}

/// Numbers around the limits of address and command fields.
pub fn code(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => *r.pick(&[0, 1, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 511, 65535, 65536]),
        1 => bits(r, 32),
        2 => bits(r, 16),
        _ => bits(r, 8),
    }
}

pub fn event_freq(r: &mut Rng) -> u32 {
    match r.below(5) {
        0 => *r.pick(&[
            20_000, 32_768, 40_000, 44_100, 48_000, 100_000, 1_000_000, 1_000_001, 8_000_000, 16_000_000,
            48_000_000, 72_000_000, 84_000_000, 100_000_000, 125_000_000, 168_000_000, 999_999_937, 1_000_000_000,
        ]),
        1 => 1_000_000,
        _ => r.log(20_000, 1_000_000_000) as u32,
    }
}
pub fn poll_freq(r: &mut Rng) -> u32 {
    match r.below(3) {
        0 => *r.pick(&[20_000, 22_050, 32_768, 38_000, 40_000, 44_100, 50_000, 100_000]),
        _ => r.log(20_000, 250_000) as u32,
    }
}

pub fn clk(r: &mut Rng) -> Clk {
    match r.below(6) {
        0 | 1 => Clk::U32,
        2 => Clk::U64,
        3 | 4 => Clk::F32(r.below(rx::FUGIT_HZ.len() as u64) as u8),
        _ => Clk::F64(r.below(rx::FUGIT_HZ.len() as u64) as u8),
    }
}

pub fn fe(r: &mut Rng) -> Fe {
    match r.below(10) {
        0..=5 => *r.pick(&rx::FE_EVENT),
        6..=8 => *r.pick(&rx::FE_POLL),
        _ => *r.pick(&rx::FE_BUF),
    }
}

pub fn node(r: &mut Rng, proto: Proto, fe: Fe) -> RxCfg {
    let clk = if fe.polled() { Clk::U32 } else { clk(r) };
    let freq = if fe.polled() { poll_freq(r) } else { event_freq(r) };
    RxCfg {
        proto,
        fe,
        clk,
        freq: clk.fixed_hz().unwrap_or(freq),
        skew_ppm: 0,
        phase_ns: r.below(100_000) as u32,
        epoch: 0,
        lat_ns: 0,
        lat_seed: r.u64(),
        capture: r.chance(1, 4),
    }
}

/// Split `total` ppm into n random non-negative parts (sum below total), often extreme.
pub fn split(r: &mut Rng, total: u64, n: usize) -> Vec<u64> {
    let mut left = total;
    let mut v = vec![0; n];
    let full = r.chance(1, 2);
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        order.swap(i, r.below(i as u64 + 1) as usize);
    }
    for (k, i) in order.iter().enumerate() {
        let x = if r.chance(1, 3) {
            0
        } else if full && k == n - 1 {
            left
        } else {
            r.below(left + 1)
        };
        v[*i] = x;
        left -= x;
    }
    v
}

pub fn sign(r: &mut Rng, v: u64) -> i32 {
    if r.chance(1, 2) {
        v as i32
    } else {
        -(v as i32)
    }
}

/// How many parts a history has; once in a while hundreds.
pub fn count(r: &mut Rng, lo: u64, hi: u64, one_in: u64) -> u64 {
    if r.chance(1, one_in) {
        r.log(100, 700)
    } else {
        r.range(lo, hi)
    }
}

pub fn gap(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => QUIET_US,
        1 => QUIET_US + r.below(50) as u32,
        2 => r.range(20_000, 60_000) as u32,
        3 => r.range(80_000, 130_000) as u32,
        _ => r.log(20_000, 400_000) as u32,
    }
}

/// Set skews, latency and jitter of a plan of remote-control frames so that everything stays
/// within the budget of every receiver.
pub fn tune(r: &mut Rng, plan: &mut Plan) {
    let all: Vec<(Class, u64)> = plan
        .items
        .iter()
        .filter(|i| !i.dirty())
        .filter_map(|i| i.frame())
        .flat_map(|f| {
            plan.rx.iter().filter(move |n| n.proto.class() == f.class).map(move |n| (f.class, n.freq()))
        })
        .map(|(c, f)| (c, c.budget_ppm(f)))
        .collect();
    let budget = all.iter().map(|x| x.1).min().unwrap_or(25_000) * 97 / 100;
    let min_iv = all.iter().map(|x| x.0.min_interval_us()).min().unwrap_or(444);
    let quant = match &plan.tx {
        Some(t) => plan
            .items
            .iter()
            .filter(|i| matches!(i.kind, Kind::Send { .. }))
            .filter_map(|i| i.frame())
            .map(|f| quant_ppm(f.class, tx::TX_HZ[t.hz as usize]))
            .max()
            .unwrap_or(0),
        None => 0,
    };
    let left = budget.saturating_sub(quant);
    let parts = split(r, left, 4);
    for n in &mut plan.rx {
        n.skew_ppm = sign(r, parts[0]);
        n.lat_ns = ((parts[1] * min_iv) / 1000).min(60_000) as u32;
    }
    if let Some(t) = &mut plan.tx {
        t.skew_ppm = sign(r, parts[2] + parts[3]);
    }
    for it in &mut plan.items {
        if let Kind::Frame(f) = &it.kind {
            it.skew_ppm = sign(r, parts[2]);
            it.jit_ppm = parts[3] as u32;
            it.jit_seed = r.u64();
            if !f.class.biphase() && r.chance(1, 2) {
                it.stretch_us = *r.pick(&[-150, 150, -80, 60, 100]);
            }
        }
    }
}

/// Once in a while one gap becomes, for one receiver's clock, a power of two plus a pulse length of
/// its protocol: long idle times must not alias.
pub fn alias(r: &mut Rng, plan: &mut Plan) {
    if !r.chance(1, 25) {
        return;
    }
    let n = plan.rx[r.below(plan.rx.len() as u64) as usize].clone();
    let iv = WFrame::new(n.proto.class(), r.u64()).intervals();
    let k = r.below(iv.len() as u64) as usize;
    let k = if r.chance(1, 2) { 0 } else { k };
    let mut us = iv[k] as u64;
    if r.chance(2, 3) {
        us += iv.get(k + 1).copied().unwrap_or(0) as u64;
    }
    if n.proto.is_nec() && r.chance(1, 6) {
        us = us.max(6_750);
    }
    if r.chance(1, 2) {
        us = us.saturating_sub(*iv.last().unwrap() as u64);
    }
    let pow = match (n.fe.polled(), n.clk.bits()) {
        (true, _) => *r.pick(&[16, 16, 16, 20]),
        (_, 32) => *r.pick(&[16, 16, 20, 24, 31]),
        _ => *r.pick(&[16, 24, 31, 32, 32, 32, 33]),
    };
    let f = n.freq() as u128 * (1_000_000 + n.skew_ppm) as u128 / 1_000_000;
    let ticks = (1u128 << pow) * r.range(1, 2) as u128;
    let gap = us as u128 + ticks * 1_000_000 / f;
    let k = r.below(plan.items.len() as u64) as usize;
    let (was, ok) = (plan.items[k].gap_us, plan.sane() && plan.no_wrap());
    if gap < 4_000_000_000 && gap >= QUIET_US as u128 {
        plan.items[k].gap_us = gap as u32;
        if ok && !(plan.sane() && plan.no_wrap()) || plan.rx.iter().any(|n| n.fe.polled()) && plan.total_us() > 45_000_000 {
            plan.items[k].gap_us = was;
        }
    }
}
