//! Independent reference for every protocol: nominal waveforms, what a receiver has to make of a
//! frame, and the lenient matcher that decides whether an observed edge history backs a command.
//! Nothing here calls into the code under test.

use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Proto {
    Nec,
    Nec16,
    Samsung,
    Apple,
    NecRaw,
    Rc5,
    Rc6,
    Sbp,
    Denon,
}
pub use Proto::*;

pub const ALL: [Proto; 9] = [Nec, Nec16, Samsung, Apple, NecRaw, Rc5, Rc6, Sbp, Denon];

/// What goes over the air.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Class {
    NecStd,
    NecSam,
    Rc5,
    Rc6,
    Sbp,
    Denon,
}

impl Proto {
    pub fn class(self) -> Class {
        match self {
            Nec | Nec16 | Apple | NecRaw => Class::NecStd,
            Samsung => Class::NecSam,
            Rc5 => Class::Rc5,
            Rc6 => Class::Rc6,
            Sbp => Class::Sbp,
            Denon => Class::Denon,
        }
    }
    pub fn is_nec(self) -> bool {
        matches!(self, Nec | Nec16 | Samsung | Apple | NecRaw)
    }
}

impl Class {
    pub fn nbits(self) -> u32 {
        match self {
            Class::NecStd | Class::NecSam => 32,
            Class::Rc5 => 14,
            Class::Rc6 => 17,
            Class::Sbp => 36,
            Class::Denon => 48,
        }
    }
    pub fn biphase(self) -> bool {
        matches!(self, Class::Rc5 | Class::Rc6)
    }
    /// Timing budget (ppm of each measured interval) inside which frames have to decode by a
    /// receiver whose clock runs at `freq`.
    pub fn budget_ppm(self, freq: u32) -> u64 {
        match self {
            Class::Rc5 => 80_000,
            // the 6T leader has to stay clear of 5T + 12%
            Class::Rc6 if freq >= 100_000 => 50_000,
            Class::Rc6 => 25_000,
            _ => 45_000,
        }
    }
    /// Shortest interval that is measured, in us.
    pub fn min_interval_us(self) -> u64 {
        match self {
            Class::NecStd | Class::NecSam => 1120,
            Class::Rc5 => 889,
            Class::Rc6 => 444,
            Class::Sbp => 1000,
            Class::Denon => 840,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct WFrame {
    pub class: Class,
    /// NEC: 32 bits, first sent = bit 0. RC5: 14 bits, bit 13 (first start bit) is taken as one.
    /// RC6: bit 16 = toggle, 15..0 = address, command. SBP: 15..0 address, 35..16 the 20 command
    /// bits. Denon: 48 bits, first sent = bit 0.
    pub bits: u64,
    /// NEC repeat frame (bits ignored)
    pub repeat: bool,
}

impl WFrame {
    pub fn new(class: Class, bits: u64) -> Self {
        let m = (1u64 << class.nbits()) - 1;
        let mut bits = bits & m;
        if class == Class::Rc5 {
            bits |= 1 << 13;
        }
        WFrame { class, bits, repeat: false }
    }
    pub fn repeat(class: Class) -> Self {
        WFrame { class, bits: 0, repeat: true }
    }
    /// Alternating mark, space, ..., mark in us.
    pub fn intervals(&self) -> Vec<u32> {
        let pd = |hh: u32, hl: u32, m: u32, z: u32, o: u32, n: u32, stop: u32| {
            let mut v = vec![hh, hl];
            for i in 0..n {
                v.push(m);
                v.push(if self.bits >> i & 1 == 1 { o } else { z });
            }
            v.push(stop);
            v
        };
        match (self.class, self.repeat) {
            (Class::NecStd, true) => vec![9000, 2250, 560],
            (Class::NecSam, true) => vec![4500, 2250, 560],
            (Class::NecStd, false) => pd(9000, 4500, 560, 560, 1690, 32, 560),
            (Class::NecSam, false) => pd(4500, 4500, 560, 560, 1690, 32, 560),
            (Class::Denon, _) => pd(3400, 1600, 480, 360, 1200, 48, 480),
            (Class::Sbp, _) => {
                let mut v = vec![4500, 4500];
                for i in 0..16 {
                    v.push(500);
                    v.push(if self.bits >> i & 1 == 1 { 1500 } else { 500 });
                }
                v.push(500);
                v.push(4500);
                for i in 16..36 {
                    v.push(500);
                    v.push(if self.bits >> i & 1 == 1 { 1500 } else { 500 });
                }
                v.push(500);
                v
            }
            (Class::Rc5, _) => {
                let mut h = vec![];
                for i in (0..14).rev() {
                    if self.bits >> i & 1 == 1 {
                        h.extend([(false, 889), (true, 889)]);
                    } else {
                        h.extend([(true, 889), (false, 889)]);
                    }
                }
                runs(&h)
            }
            (Class::Rc6, _) => {
                const T: u32 = 444;
                let mut h = vec![(true, 6 * T), (false, 2 * T), (true, T), (false, T)];
                for _ in 0..3 {
                    h.extend([(false, T), (true, T)]);
                }
                if self.bits >> 16 & 1 == 1 {
                    h.extend([(true, 2 * T), (false, 2 * T)]);
                } else {
                    h.extend([(false, 2 * T), (true, 2 * T)]);
                }
                for i in (0..16).rev() {
                    if self.bits >> i & 1 == 1 {
                        h.extend([(true, T), (false, T)]);
                    } else {
                        h.extend([(false, T), (true, T)]);
                    }
                }
                runs(&h)
            }
        }
    }
    pub fn dur_us(&self) -> u64 {
        self.intervals().iter().map(|v| *v as u64).sum()
    }
    /// For each interval of `intervals()`: how many protocol time units it spans (1 for
    /// pulse-distance codes, half-bits for the biphase codes).
    pub fn units(&self) -> Vec<u32> {
        let t = match self.class {
            Class::Rc5 => 889,
            Class::Rc6 => 444,
            _ => 0,
        };
        self.intervals().iter().map(|v| if t == 0 { 1 } else { v / t }).collect()
    }
}

/// Merge half-bits into runs, dropping leading and trailing spaces.
fn runs(h: &[(bool, u32)]) -> Vec<u32> {
    let mut out: Vec<u32> = vec![];
    let mut cur = false;
    for &(l, d) in h {
        if l == cur {
            if let Some(x) = out.last_mut() {
                *x += d;
            }
        } else {
            out.push(d);
            cur = l;
        }
    }
    if !cur && !out.is_empty() {
        out.pop();
    }
    out
}

/// A command in normal form.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct NCmd {
    pub p: Proto,
    /// Nec, Nec16, Samsung: addr, cmd. Apple: page, command, device. NecRaw, Denon: bits.
    /// Rc5: addr, cmd, start, toggle. Rc6: addr, cmd, toggle. Sbp: addr, cmd, valid.
    pub f: [u64; 4],
    pub rep: bool,
}

pub const APPLE_VENDOR: u64 = 0x43f;

/// The Apple frame for the given fields (parity bit set so that the number of ones is odd).
pub fn apple_bits(page: u64, cmd: u64, dev: u64) -> u64 {
    let b = (page & 0x1f) | APPLE_VENDOR << 5 | (cmd & 0x7f) << 17 | (dev & 0xff) << 24;
    if b.count_ones() % 2 == 0 {
        b | 1 << 16
    } else {
        b
    }
}

/// What a receiver for `p` has to report for a complete frame carrying `bits`.
pub fn ref_decode(p: Proto, bits: u64, rep: bool) -> Option<NCmd> {
    let f = match p {
        Nec | Samsung => [bits & 0xff, bits >> 16 & 0xff, 0, 0],
        Nec16 => [bits & 0xffff, bits >> 16 & 0xff, 0, 0],
        Apple => {
            if bits >> 5 & 0x7ff != APPLE_VENDOR || bits.count_ones() % 2 == 0 {
                return None;
            }
            [bits & 0x1f, bits >> 17 & 0x7f, bits >> 24 & 0xff, 0]
        }
        NecRaw | Denon => [bits, 0, 0, 0],
        Rc5 => [bits >> 6 & 0x1f, bits & 0x3f, bits >> 12 & 3, bits >> 11 & 1],
        Rc6 => [bits >> 8 & 0xff, bits & 0xff, bits >> 16 & 1, 0],
        Sbp => {
            let c = bits >> 20 & 0xff;
            let ci = bits >> 28 & 0xff;
            [bits & 0xffff, c, (c ^ ci == 0xff) as u64, 0]
        }
    };
    // the raw NEC view has no repeat flag
    Some(NCmd { p, f, rep: rep && p != NecRaw })
}

/// Frame bits that a transmitter of protocol `p` sends for these fields.
pub fn ref_bits(p: Proto, f: [u64; 4]) -> u64 {
    match p {
        Nec => {
            let (a, c) = (f[0] & 0xff, f[1] & 0xff);
            a | (!a & 0xff) << 8 | c << 16 | (!c & 0xff) << 24
        }
        Samsung => {
            let (a, c) = (f[0] & 0xff, f[1] & 0xff);
            a | a << 8 | c << 16 | (!c & 0xff) << 24
        }
        Nec16 => {
            let (a, c) = (f[0] & 0xffff, f[1] & 0xff);
            a | c << 16 | (!c & 0xff) << 24
        }
        Apple => apple_bits(f[0], f[1], f[2]),
        NecRaw | Denon => f[0],
        Rc5 => (f[0] & 0x1f) << 6 | (f[1] & 0x3f) | (f[2] & 3) << 12 | (f[3] & 1) << 11 | 1 << 13,
        Rc6 => (f[0] & 0xff) << 8 | (f[1] & 0xff) | (f[2] & 1) << 16,
        Sbp => {
            let c = f[1] & 0xff;
            (f[0] & 0xffff) | c << 20 | (!c & 0xff) << 28
        }
    }
}

/// What receiver `p` reports for a clean frame on the air; NEC repeats resolve against `mem`
/// (bits of the last complete frame of that class).
pub fn expect(p: Proto, fr: &WFrame, mem: &mut Option<u64>) -> Option<NCmd> {
    if p == Samsung && fr.class == Class::Sbp {
        // same header: to a Samsung receiver this is a frame that starts well and is garbled
        *mem = None;
    }
    if p.class() != fr.class {
        return None;
    }
    if fr.repeat {
        return mem.and_then(|b| ref_decode(p, b, true));
    }
    if p.is_nec() {
        *mem = Some(fr.bits);
    }
    ref_decode(p, fr.bits, false)
}

// ---------------------------------------------------------------------------------------------
// Lenient matching

/// One event as the decoder saw it.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Ev {
    pub lvl: bool,
    pub dt: u64,
}

fn near(ticks: u128, freq: u32, us: u32, pct: u128) -> bool {
    // |ticks/f - us| <= pct% us + 2 ticks, all scaled by f*1e6
    let m = ticks * 1_000_000;
    let n = us as u128 * freq as u128;
    let slack = n * pct / 100 + 2 * 1_000_000;
    m <= n + slack && m + slack >= n
}

const PD_PCT: u128 = 30;

/// Distances between starts of marks, for alternating histories: (index of the event, ticks)
fn risings(evs: &[Ev]) -> Vec<(usize, u128)> {
    let mut v = vec![];
    let mut acc: u128 = 0;
    for (i, e) in evs.iter().enumerate() {
        acc += e.dt as u128;
        if e.lvl {
            v.push((i, acc));
            acc = 0;
        }
    }
    v
}

/// Is `cmd`, reported at the last event of `evs`, backed by a complete frame ending there?
/// `evs` must alternate.
pub fn backed(evs: &[Ev], freq: u32, cmd: &NCmd) -> bool {
    let p = cmd.p;
    if evs.is_empty() {
        return false;
    }
    match p {
        Rc5 => backed_rc5(evs, freq, cmd),
        Rc6 => backed_rc6(evs, freq, cmd),
        _ => {
            let r = risings(evs);
            if r.last().map(|x| x.0) != Some(evs.len() - 1) {
                return false;
            }
            if p.is_nec() {
                let hh = if p == Samsung { 4500 } else { 9000 };
                let last = r[r.len() - 1].1;
                let rep_ok = || {
                    near(last, freq, hh + 2250, PD_PCT)
                        && (33..r.len()).any(|e| nec_frame(&r[..e], freq, hh, cmd))
                };
                if cmd.rep {
                    rep_ok()
                } else {
                    nec_frame(&r, freq, hh, cmd) || (p == NecRaw && rep_ok())
                }
            } else if p == Sbp {
                if r.len() < 38 {
                    return false;
                }
                let w = &r[r.len() - 38..];
                if !near(w[0].1, freq, 9000, PD_PCT) || !near(w[17].1, freq, 5000, PD_PCT) {
                    return false;
                }
                let sym = |i: usize, one: bool| near(w[i].1, freq, if one { 2000 } else { 1000 }, PD_PCT);
                for i in 0..16 {
                    if !sym(1 + i, cmd.f[0] >> i & 1 == 1) {
                        return false;
                    }
                }
                for i in 0..4 {
                    if !sym(18 + i, true) && !sym(18 + i, false) {
                        return false;
                    }
                }
                let mut inv_ok = true;
                for i in 0..8 {
                    let b = cmd.f[1] >> i & 1 == 1;
                    if !sym(22 + i, b) {
                        return false;
                    }
                    if !sym(30 + i, true) && !sym(30 + i, false) {
                        return false;
                    }
                    inv_ok &= sym(30 + i, !b);
                }
                cmd.f[2] == 0 || inv_ok
            } else {
                if r.len() < 49 {
                    return false;
                }
                let w = &r[r.len() - 49..];
                near(w[0].1, freq, 5000, PD_PCT)
                    && (0..48).all(|i| {
                        let one = cmd.f[0] >> i & 1 == 1;
                        near(w[1 + i].1, freq, if one { 1680 } else { 840 }, PD_PCT)
                    })
            }
        }
    }
}

fn nec_frame(r: &[(usize, u128)], freq: u32, hh: u32, cmd: &NCmd) -> bool {
    if r.len() < 33 {
        return false;
    }
    let w = &r[r.len() - 33..];
    if !near(w[0].1, freq, hh + 4500, PD_PCT) {
        return false;
    }
    // which bits does the command determine?
    let (known, val): (u64, u64) = match cmd.p {
        Nec | Samsung => (0x00ff_00ff, cmd.f[0] | cmd.f[1] << 16),
        Nec16 => (0x00ff_ffff, cmd.f[0] | cmd.f[1] << 16),
        NecRaw => (0xffff_ffff, cmd.f[0]),
        Apple => (0xffff_ffff, apple_bits(cmd.f[0], cmd.f[1], cmd.f[2])),
        _ => unreachable!(),
    };
    (0..32).all(|i| {
        let z = near(w[1 + i].1, freq, 1120, PD_PCT);
        let o = near(w[1 + i].1, freq, 2250, PD_PCT);
        if known >> i & 1 == 1 {
            if val >> i & 1 == 1 {
                o
            } else {
                z
            }
        } else {
            z || o
        }
    })
}

/// Biphase: depth first over ambiguous interval lengths. No interval passes over the middle of a
/// bit without an edge there.
fn backed_rc5(evs: &[Ev], freq: u32, cmd: &NCmd) -> bool {
    let bits = ref_bits(Rc5, cmd.f);
    if cmd.f[2] >> 1 != 1 {
        return false; // the first start bit is the edge that starts the frame
    }
    let k = evs.len() - 1;
    fn go(evs: &[Ev], freq: u32, bits: u64, i: usize, clock: i32) -> bool {
        let k = evs.len() - 1;
        if i > k {
            return false;
        }
        // the next bit and where its middle is
        let bit = 12 - clock / 2;
        let mid = 2 * (13 - bit);
        for u in 1..=2i32 {
            if !near(evs[i].dt as u128, freq, 889 * u as u32, PD_PCT) {
                continue;
            }
            let c = clock + u;
            if c < mid {
                if go(evs, freq, bits, i + 1, c) {
                    return true;
                }
            } else if c == mid && evs[i].lvl == (bits >> bit & 1 == 1) {
                if bit == 0 {
                    if i == k {
                        return true;
                    }
                } else if go(evs, freq, bits, i + 1, c) {
                    return true;
                }
            }
        }
        false
    }
    (k.saturating_sub(26)..k).any(|s| evs[s].lvl && go(evs, freq, bits, s + 1, 0))
}

fn backed_rc6(evs: &[Ev], freq: u32, cmd: &NCmd) -> bool {
    const PCT: u128 = 20;
    // middles: start and mode bits at 9, 11, 13, 15, toggle at 18, data at 21, 23, ..., 51
    fn mid_after(clock: i32) -> i32 {
        match clock {
            ..=14 => clock + 1 + clock % 2,
            15..=17 => 18,
            18..=20 => 21,
            c => c + 1 + c % 2,
        }
    }
    let data = (cmd.f[0] << 8) | cmd.f[1];
    let toggle = cmd.f[2] == 1;
    let k = evs.len() - 1;
    fn go(evs: &[Ev], freq: u32, data: u64, toggle: bool, i: usize, clock: i32) -> bool {
        let k = evs.len() - 1;
        if i > k {
            return false;
        }
        let e = evs[i];
        let mid = mid_after(clock);
        for u in 1..=3i32 {
            if !near(e.dt as u128, freq, 444 * u as u32, PCT) {
                continue;
            }
            let c = clock + u;
            let one = !e.lvl;
            let ok = if c < mid {
                true
            } else if c > mid {
                false
            } else if c == 18 {
                one == toggle
            } else if c >= 21 {
                one == (data >> ((51 - c) / 2) & 1 == 1)
            } else {
                true
            };
            if !ok {
                continue;
            }
            if c == 51 {
                if i == k {
                    return true;
                }
                continue;
            }
            if go(evs, freq, data, toggle, i + 1, c) {
                return true;
            }
        }
        false
    }
    let lo = k.saturating_sub(48);
    (lo..k).any(|s| {
        s + 2 <= k
            && evs[s].lvl
            && !evs[s + 1].lvl
            && near(evs[s + 1].dt as u128, freq, 444 * 6, PCT)
            && evs[s + 2].lvl
            && near(evs[s + 2].dt as u128, freq, 888, PCT)
            && go(evs, freq, data, toggle, s + 3, 8)
    })
}
