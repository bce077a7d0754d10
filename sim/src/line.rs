//! Tick-exact edge histories: frames of any protocol, whole or in part, with intervals replaced,
//! stretched, split by glitches or merged by a lost pair of edges, and raw pulses.

use crate::ctx::Ctx;
use crate::gens;
use crate::refp::{self, Ev, Proto, WFrame};
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mod {
    /// interval i lasts this many us
    Set(u8, u32),
    /// interval i is off by this many ppm
    Ppm(u8, i32),
    /// interval i is split at a fraction (1/1000) by a glitch of this many ticks
    Glitch(u8, u16, u16),
    /// the edges at both ends of interval i are missing
    Drop(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Seg {
    Frame { fr: WFrame, ppm: i32, from: u8, cut: Option<u8>, mods: Vec<Mod> },
    /// (off, on) in ticks
    Raw(Vec<(u32, u32)>),
    /// intervals in us, mark first, each group repeated
    Soup(Vec<(Vec<u32>, u16)>),
    /// the segments before this one, that many of them, that many times more (its gap is not used)
    Again(u8, u32),
}

/// Most events of one history.
const LONGEST: u64 = 6_000_000;

/// Each segment comes after a gap in us.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Line(pub Vec<(u32, Seg)>);

fn ticks(us: u64, ppm: i64, freq: u32) -> u64 {
    (us as u128 * freq as u128 * (1_000_000 + ppm) as u128 / 500_000_000_000 + 1) as u64 / 2
}

impl Line {
    /// Alternating events, the first one the start of a mark, the last one the end of one.
    pub fn events(&self, freq: u32, ctx: &mut Ctx) -> Vec<Ev> {
        let mut d: Vec<u64> = vec![];
        let mut starts = vec![];
        for (gap, seg) in &self.0 {
            let g = ticks(*gap as u64, 0, freq);
            starts.push(d.len());
            match seg {
                Seg::Again(k, n) => {
                    let at = starts.len() - 1;
                    let part = d[starts[at - (*k as usize).min(at)]..].to_vec();
                    ctx.fault("long-repetition");
                    for _ in 0..*n {
                        d.extend(&part);
                    }
                }
                Seg::Raw(p) => {
                    ctx.faults("noise-pulse", p.len() as u64);
                    let mut first = g;
                    for (off, on) in p {
                        d.push(first + *off as u64);
                        d.push(*on as u64);
                        first = 0;
                    }
                }
                Seg::Soup(groups) => {
                    let mut v: Vec<u64> = vec![];
                    for (g, n) in groups {
                        for _ in 0..*n {
                            v.extend(g.iter().map(|us| ticks(*us as u64, 0, freq)));
                        }
                    }
                    ctx.faults("symbol-out-of-place", groups.len() as u64);
                    if v.len() % 2 == 0 {
                        v.push(ticks(500, 0, freq));
                    }
                    d.push(g);
                    d.extend(v);
                }
                Seg::Frame { fr, ppm, from, cut, mods } => {
                    let iv = fr.intervals();
                    let a = (*from as usize & !1).min(iv.len() - 1);
                    let b = cut.map_or(iv.len(), |c| (c as usize).clamp(1, iv.len()));
                    if a > 0 || b < iv.len() {
                        ctx.fault("frame-cut");
                    }
                    if *ppm != 0 {
                        ctx.fault("clock-skew-remote");
                    }
                    let mut v: Vec<u64> = iv[a..b.max(a + 1)].iter().map(|u| ticks(*u as u64, *ppm as i64, freq)).collect();
                    for m in mods {
                        match *m {
                            Mod::Set(i, us) if (i as usize) < v.len() => {
                                v[i as usize] = ticks(us as u64, 0, freq);
                                ctx.fault("interval-replaced");
                            }
                            Mod::Ppm(i, p) if (i as usize) < v.len() => {
                                let x = v[i as usize] as i128;
                                v[i as usize] = (x + x * p as i128 / 1_000_000).max(0) as u64;
                                ctx.fault("interval-stretched");
                            }
                            Mod::Glitch(i, at, w) if (i as usize) < v.len() => {
                                let i = i as usize;
                                let x = v[i];
                                let a = x * (at as u64).min(1000) / 1000;
                                let w = (w as u64).min(x - a);
                                v.splice(i..=i, [a, w, x - a - w]);
                                ctx.fault("glitch");
                            }
                            Mod::Drop(i) if i > 0 && (i as usize) + 1 < v.len() => {
                                let i = i as usize;
                                let x = v[i - 1] + v[i] + v[i + 1];
                                v.splice(i - 1..=i + 1, [x]);
                                ctx.fault("edge-pair-lost");
                            }
                            _ => {}
                        }
                    }
                    // a segment ends with a mark
                    if v.len() % 2 == 0 {
                        v.pop();
                    }
                    d.push(g);
                    d.extend(v);
                }
            }
        }
        let mut lvl = false;
        let out: Vec<Ev> = d
            .into_iter()
            .map(|dt| {
                lvl = !lvl;
                Ev { lvl, dt }
            })
            .collect();
        for e in &out {
            ctx.s(e.dt << 1 | e.lvl as u64);
            ctx.count("edges", 1);
        }
        let t: u128 = out.iter().map(|e| e.dt as u128).sum();
        ctx.sim_ns += t * 1_000_000_000 / freq as u128;
        out
    }
    /// The segments in order, repetitions written out.
    pub fn walk(&self) -> Vec<&Seg> {
        let mut v: Vec<&Seg> = vec![];
        for (i, (_, s)) in self.0.iter().enumerate() {
            match s {
                Seg::Again(k, n) => {
                    let part = v[i - (*k as usize).min(i)..].to_vec();
                    for _ in 0..*n {
                        v.extend(&part);
                    }
                }
                s => v.push(s),
            }
        }
        v
    }
    pub fn repeats(&self) -> bool {
        self.0.iter().any(|s| matches!(s.1, Seg::Again(..)))
    }
    pub fn sane(&self, max_us: u64, max_ticks: u64) -> bool {
        let len = |s: &Seg| match s {
            Seg::Frame { fr, .. } => fr.intervals().len() as u64 + 18,
            Seg::Raw(v) => v.len() as u64 * 2,
            Seg::Soup(v) => v.iter().map(|(g, n)| g.len() as u64 * *n as u64).sum::<u64>() + 2,
            Seg::Again(..) => 0,
        };
        self.0.len() <= 1_000
            && self.0.iter().enumerate().all(|(i, (_, s))| match s {
                // one repetition, of what starts the history
                Seg::Again(k, n) => {
                    *k > 0
                        && *n <= 70_000
                        && (1..=8).contains(&i)
                        && self.0[..i].iter().map(|s| len(&s.1)).sum::<u64>() * *n as u64 <= LONGEST
                        && !self.0[i + 1..].iter().any(|s| matches!(s.1, Seg::Again(..)))
                }
                _ => true,
            })
            && self.0.iter().all(|(g, s)| {
                *g as u64 <= max_us
                    && match s {
                        Seg::Again(..) => true,
                        Seg::Raw(p) => p.len() <= 200 && p.iter().all(|(a, b)| *a as u64 <= max_ticks && *b as u64 <= max_ticks),
                        Seg::Soup(v) => {
                            v.len() <= 150
                                && v.iter().map(|(g, n)| g.len() * *n as usize).sum::<usize>() <= 2_500
                                && v.iter().all(|(g, _)| g.iter().all(|us| *us as u64 <= max_us))
                        }
                        Seg::Frame { ppm, mods, .. } => {
                            ppm.abs() <= 400_000
                                && mods.len() <= 8
                                && mods.iter().all(|m| match m {
                                    Mod::Set(_, us) => *us as u64 <= max_us,
                                    Mod::Ppm(_, p) => *p > -1_000_000 && *p <= 3_000_000,
                                    _ => true,
                                })
                        }
                    }
            })
    }
}

fn near_miss(r: &mut Rng, fr: &WFrame, n: u64) -> Mod {
    let i = r.below(n) as u8;
    match r.below(10) {
        0 | 1 => {
            // some other interval of this or another protocol
            let us = *r.pick(&[444, 480, 500, 560, 889, 888, 1200, 1332, 1500, 1600, 1690, 1776, 1778, 2250, 2664, 3400, 4500, 9000]);
            Mod::Set(i, us)
        }
        2 => Mod::Set(i, *r.pick(&fr.intervals())),
        3 => Mod::Set(i, r.log(1, 40_000) as u32),
        4 => Mod::Set(i, 0),
        5 => Mod::Glitch(i, r.below(1001) as u16, r.below(3) as u16),
        6 => Mod::Glitch(i, r.below(1001) as u16, r.log(1, 60_000) as u16),
        7 => Mod::Drop(i),
        8 => Mod::Ppm(i, r.irange(-400_000, 600_000) as i32),
        _ => Mod::Ppm(i, if r.chance(1, 2) { 310_000 + r.below(200_000) as i32 } else { -310_000 - r.below(200_000) as i32 }),
    }
}

/// The symbols of a protocol as mark and space.
pub fn symbols(p: Proto) -> Vec<Vec<u32>> {
    use crate::refp::Class::*;
    let v: &[[u32; 2]] = match p.class() {
        NecStd => &[[9000, 4500], [9000, 2250], [560, 560], [560, 1690]],
        NecSam => &[[4500, 4500], [4500, 2250], [560, 560], [560, 1690]],
        Sbp => &[[4500, 4500], [500, 4500], [500, 500], [500, 1500]],
        Denon => &[[3400, 1600], [480, 360], [480, 1200]],
        Rc5 => &[[889, 889], [1778, 889], [889, 1778], [1778, 1778]],
        Rc6 => &[[2664, 888], [444, 444], [888, 888], [444, 888], [888, 444], [1332, 444], [1332, 888], [444, 1332], [888, 1332]],
    };
    v.iter().map(|x| x.to_vec()).collect()
}

/// Well-formed symbols in the wrong places: frames with symbols replaced, inserted, left out or
/// repeated many times.
pub fn soup(r: &mut Rng, mine: Proto) -> Seg {
    let sy = symbols(mine);
    let mut v: Vec<(Vec<u32>, u16)> = vec![];
    if r.chance(3, 4) {
        let fr = gens::frame(r, mine);
        v.extend(fr.intervals().chunks_exact(2).map(|c| (c.to_vec(), 1)));
    } else {
        v.push((sy[0].clone(), 1));
    }
    for _ in 0..*r.pick(&[1, 1, 2, 3]) {
        let i = r.below(v.len() as u64 + 1) as usize;
        let i = if r.chance(1, 3) { i.min(1) } else { i };
        let s = r.pick(&sy).clone();
        match r.below(5) {
            0 => v.insert(i, (s, 1)),
            1 if i < v.len() => v[i].0 = s,
            2 if i < v.len() && v.len() > 1 => {
                v.remove(i);
            }
            3 => v.insert(i, (s, r.log(2, 1000) as u16)),
            _ => {
                // leave a symbol behind and start over
                let fr = gens::frame(r, mine);
                v.truncate(i.max(1));
                v.push((s, 1));
                v.extend(fr.intervals().chunks_exact(2).skip(r.below(3) as usize).map(|c| (c.to_vec(), 1)));
            }
        }
    }
    v.truncate(150);
    Seg::Soup(v)
}

/// A segment meant to look like a frame of `mine` without being one, most of the time.
pub fn seg(r: &mut Rng, mine: Proto, freq: u32) -> Seg {
    if r.chance(1, 10) {
        let n = r.range(1, 40);
        let t = (freq / 1000).max(1) as u64;
        return Seg::Raw((0..n).map(|_| (r.log(1, 20 * t) as u32, r.log(1, 20 * t) as u32)).collect());
    }
    let p = if r.chance(4, 5) { mine } else { *r.pick(&refp::ALL) };
    if r.chance(1, 8) {
        return soup(r, p);
    }
    let fr = if p.is_nec() && r.chance(1, 5) { WFrame::repeat(p.class()) } else { gens::frame(r, p) };
    let n = fr.intervals().len() as u64;
    let mut mods = vec![];
    if r.chance(2, 3) {
        for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
            mods.push(near_miss(r, &fr, n));
        }
    }
    let ppm = match r.below(4) {
        0 => r.irange(-350_000, 350_000) as i32,
        1 => 0,
        _ => r.irange(-60_000, 60_000) as i32,
    };
    Seg::Frame {
        fr,
        ppm,
        from: if r.chance(1, 8) { r.below(n) as u8 } else { 0 },
        cut: r.chance(1, 6).then(|| r.range(1, n) as u8),
        mods,
    }
}

pub fn gap(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => *r.pick(&[560, 1690, 4500, 2250, 889, 1778, 444, 888, 1332, 2664, 360, 1200, 500, 1500, 0]),
        1 => r.log(1, 20_000) as u32,
        _ => gens::gap(r),
    }
}

pub fn line(r: &mut Rng, mine: Proto, freq: u32, n: u64) -> Line {
    Line((0..n).map(|_| (gap(r), seg(r, mine, freq))).collect())
}

/// A clean frame.
pub fn clean(fr: WFrame) -> Seg {
    Seg::Frame { fr, ppm: 0, from: 0, cut: None, mods: vec![] }
}

/// A history in which the same thing happens more often than a 16-bit counter can count: events, or
/// whole frames. Then something else.
pub fn marathon(r: &mut Rng, p: Proto, freq: u32, dirty: bool) -> Line {
    let mut l = Line(vec![]);
    let gap = |r: &mut Rng| r.range(20_000, 30_000) as u32;
    let g = gap(r);
    l.0.push((g, clean(gens::frame(r, p))));
    if p.is_nec() && r.chance(1, 2) {
        l.0.push((gap(r), clean(WFrame::repeat(p.class()))));
    }
    if dirty && r.chance(1, 2) {
        l.0.push((gap(r), seg(r, p, freq)));
    }
    let k = l.0.len();
    let n: u64 = Line(l.0.clone()).events(freq, &mut Ctx::new(false)).len() as u64;
    let times = if r.chance(2, 3) { 65_536 + r.below(1_000) } else { 65_536 / n + r.range(1, 50) };
    l.0.push((0, Seg::Again(k as u8, times.min(LONGEST / (n + 18 * k as u64)) as u32)));
    l.0.push((gap(r), clean(gens::frame(r, p))));
    l
}

/// Histories for the simulator builds with other feature sets (see featsim): one per line.
pub fn print_histories(seed: u64, n: u64) {
    use std::io::Write;
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    let mut ctx = Ctx::new(false);
    for idx in 0..n {
        let mut r = Rng::new(crate::rng::mix(seed ^ crate::rng::mix(0xfea7 ^ idx)));
        // with or without a logger that listens
        let log = if r.chance(1, 2) { "L" } else { "" };
        if idx % 10 == 9 {
            let p = *r.pick(&["Nec", "Samsung", "Rc5", "Rc6"]);
            writeln!(out, "S{log} {p} {} {}", gens::code(&mut r), gens::code(&mut r)).unwrap();
            continue;
        }
        let p = refp::ALL[(idx % 9) as usize];
        let freq = match r.below(4) {
            0 | 1 => 40_000,
            2 => 1_000_000,
            _ => gens::event_freq(&mut r),
        };
        let mut l = line(&mut r, p, freq, 1);
        for _ in 0..r.range(1, 4) {
            if r.chance(1, 2) {
                l.0.push((gens::gap(&mut r), clean(gens::frame(&mut r, p))));
                if p.is_nec() && r.chance(1, 2) {
                    l.0.push((gens::gap(&mut r), clean(WFrame::repeat(p.class()))));
                }
            } else {
                l.0.push((gap(&mut r), seg(&mut r, p, freq)));
            }
        }
        let evs = l.events(freq, &mut ctx);
        write!(out, "R{log} {p:?} {freq}").unwrap();
        for e in evs {
            write!(out, " {}", e.dt.min(u32::MAX as u64)).unwrap();
        }
        writeln!(out).unwrap();
    }
    out.flush().unwrap();
    let faults: Vec<String> = ctx.faults.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect();
    eprintln!("{{\"simulated_ns\": {}, \"edges\": {}, \"faults\": {{{}}}}}", ctx.sim_ns, ctx.get("edges"), faults.join(", "));
}
