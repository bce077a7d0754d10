//! C13: remote-control models turn frames into actions and actions into frames.

use crate::ctx::{viol, Ctx, Res};
use crate::gens;
use crate::judge::judge;
use crate::refp::{self, NCmd, Proto, WFrame};
use crate::rng::Rng;
use crate::run::{Tier, Typed};
use crate::rx::*;
use crate::tx::{self, Load};
use crate::world::*;
use fugit::{TimerInstantU32, TimerInstantU64};
use infrared::cmd::AddressCommand;
use infrared::protocol::rc6::Rc6Command;
use infrared::protocol::{AppleNec, Nec, Protocol, Rc5, Rc6, SamsungNec, Sbp};
use infrared::receiver::DecoderBuilder;
use infrared::remotecontrol::{
    nec::{Apple2009, SamsungTv, SpecialForMp3},
    rc5::CdPlayer,
    sbp::SamsungBluRayPlayer,
    Action, Action::*, Button, RemoteControlModel,
};
use infrared::ProtocolId;
use serde::{Deserialize, Serialize};

// What the shipped remotes' buttons send (address in TABLES; Apple: page << 8 | command).
const TV: &[(u64, Action)] = &[
    (2, Power), (1, Source), (4, One), (5, Two), (6, Three), (8, Four), (9, Five), (10, Six), (12, Seven),
    (13, Eight), (14, Nine), (17, Zero), (44, Teletext), (19, ChannelPrev), (7, VolumeUp), (11, VolumeDown),
    (15, VolumeMute), (107, ChannelList), (18, ChannelListNext), (16, ChannelListPrev), (75, Tools), (31, Info),
    (88, Return), (45, Exit), (104, Enter), (96, Up), (97, Down), (101, Left), (98, Right), (108, Red),
    (20, Green), (21, Yellow), (22, Blue), (63, Emanual), (62, PictureSize), (37, Subtitle), (70, Stop),
    (69, Rewind), (71, Play), (74, Paus), (72, Forward),
];
const MP3: &[(u64, Action)] = &[
    (69, Power), (70, Mode), (71, Mute), (68, Play_Pause), (64, Prev), (67, Next), (7, Eq), (21, Minus),
    (9, Plus), (22, Zero), (25, Shuffle), (13, U_SD), (12, One), (24, Two), (94, Three), (8, Four), (28, Five),
    (90, Six), (66, Seven), (82, Eight), (74, Nine),
];
const APPLE: &[(u64, Action)] = &[
    (0x0e01, Menu), (0x0e02, Play_Pause), (0x0e03, Right), (0x0e04, Left), (0x0e05, Up), (0x0e06, Down),
    (0x0e2e, Enter), (0x0e2f, Play_Pause2), (0x0003, BatteryLow), (0x0007, BatteryLow),
];
const CD: &[(u64, Action)] = &[
    (1, One), (2, Two), (3, Three), (4, Four), (5, Five), (6, Six), (7, Seven), (8, Eight), (9, Nine),
    (11, Time), (12, Power), (16, Up), (17, Down), (18, Setup), (21, Left), (22, Right), (23, Enter),
    (28, Random), (29, Repeat), (32, Next), (33, Prev), (37, PitchReset), (38, PitchPlus), (39, PitchMinus),
    (41, Prog), (48, Paus), (53, Play), (54, Stop),
];
const BLURAY: &[(u64, Action)] = &[
    (2, One), (3, Two), (4, Three), (5, Four), (6, Five), (7, Six), (8, Seven), (9, Eight), (10, Nine),
];
/// A remote an application defines itself, with the trait's own decode and encode.
const OWN: &[(u64, Action)] = &[(0, Zero), (255, Power), (128, Up), (127, Down), (1, Left), (254, Right)];

#[derive(Default)]
struct OwnRemote;
impl RemoteControlModel for OwnRemote {
    const PROTOCOL: ProtocolId = ProtocolId::Rc6;
    const ADDRESS: u32 = 213;
    type Cmd = Rc6Command;
    const BUTTONS: &'static [(u32, Action)] =
        &[(0, Zero), (255, Power), (128, Up), (127, Down), (1, Left), (254, Right)];
}

const ACTIONS: [Action; 62] = [
    Power, Source, One, Two, Three, Four, Five, Six, Seven, Eight, Nine, Zero, Teletext, ChannelPrev, VolumeUp,
    VolumeDown, VolumeMute, ChannelList, ChannelListNext, ChannelListPrev, Tools, Info, Return, Exit, Enter, Up,
    Down, Left, Right, Red, Green, Yellow, Blue, Emanual, PictureSize, Subtitle, Stop, Rewind, Play, Paus,
    Play_Pause, Play_Pause2, Forward, Mode, Shuffle, U_SD, Plus, Minus, Next, Prev, Eq, Mute, Random, Repeat,
    Time, Setup, Menu, PitchReset, PitchPlus, PitchMinus, Prog, BatteryLow,
];

struct Table {
    proto: Proto,
    addr: u64,
    t: &'static [(u64, Action)],
    name: &'static str,
}
const TABLES: [Table; 6] = [
    Table { proto: refp::Samsung, addr: 7, t: TV, name: "SamsungTv" },
    Table { proto: refp::Nec, addr: 0, t: MP3, name: "SpecialForMp3" },
    Table { proto: refp::Apple, addr: 0, t: APPLE, name: "Apple2009" },
    Table { proto: refp::Rc5, addr: 20, t: CD, name: "CdPlayer" },
    Table { proto: refp::Sbp, addr: 32, t: BLURAY, name: "SamsungBluRayPlayer" },
    Table { proto: refp::Rc6, addr: 213, t: OWN, name: "an application's own remote" },
];
const APPLE_IDX: usize = 2;

/// A delivered button.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Bt {
    act: Option<Action>,
    n: NCmd,
    rep: bool,
}

fn bt<R: RemoteControlModel>(b: Button<R>) -> Bt
where
    R::Cmd: Norm,
{
    Bt { act: b.action(), n: b.command().norm(), rep: b.is_repeat() }
}
fn bt_raw<R: RemoteControlModel>(c: R::Cmd) -> Bt
where
    R::Cmd: Norm,
{
    bt(Button::<R>::from(c))
}

fn mk_m<P, R, M>(fe: Fe, freq: u32) -> Box<dyn Rx<Bt>>
where
    P: Protocol + DecoderBuilder<M> + 'static,
    P::Cmd: Norm + AddressCommand + 'static,
    P::Decoder: 'static,
    R: RemoteControlModel<Cmd = <P as Protocol>::Cmd> + 'static,
    M: Mono2,
{
    match fe {
        Built => Box::new(Evd {
            r: infrared::receiver().protocol::<P>().remotecontrol(R::default()).monotonic::<M>().frequency(freq).build(),
            how: Built,
            f: bt::<R>,
        }),
        BuiltPin => {
            let pin = SimPin::default();
            Box::new(Pinned {
                r: infrared::receiver()
                    .pin(pin.clone())
                    .protocol::<P>()
                    .monotonic::<M>()
                    .frequency(freq)
                    .remotecontrol(R::default())
                    .build(),
                pin,
                how: BuiltPin,
                f: bt::<R>,
            })
        }
        _ => make_cm::<P, M, Button<R>, Bt>(fe, freq, bt::<R>, bt_raw::<R>),
    }
}

fn mk_p<P, R>(fe: Fe, clk: Clk, freq: u32) -> Box<dyn Rx<Bt>>
where
    P: Protocol
        + DecoderBuilder<u32>
        + DecoderBuilder<u64>
        + DecoderBuilder<TimerInstantU32<1_000_000>>
        + DecoderBuilder<TimerInstantU64<1_000_000>>
        + 'static,
    <P as Protocol>::Cmd: Norm + AddressCommand + 'static,
    R: RemoteControlModel<Cmd = <P as Protocol>::Cmd> + 'static,
{
    match (fe, clk) {
        (Poll | PollPin, _) => make_poll::<P, Button<R>, Bt>(fe, freq, bt::<R>),
        (BuiltPoll, _) => Box::new(Polled {
            r: infrared::receiver().protocol::<P>().frequency(freq).remotecontrol(R::default()).build_polled(),
            f: bt::<R>,
        }),
        (_, Clk::U32) => mk_m::<P, R, u32>(fe, freq),
        (_, Clk::U64) => mk_m::<P, R, u64>(fe, freq),
        (_, Clk::F32(_)) => mk_m::<P, R, TimerInstantU32<1_000_000>>(fe, 1_000_000),
        (_, Clk::F64(_)) => mk_m::<P, R, TimerInstantU64<1_000_000>>(fe, 1_000_000),
    }
}

fn mk(model: u8, fe: Fe, clk: Clk, freq: u32) -> Box<dyn Rx<Bt>> {
    match model {
        0 => mk_p::<SamsungNec, SamsungTv>(fe, clk, freq),
        1 => mk_p::<Nec, SpecialForMp3>(fe, clk, freq),
        2 => mk_p::<AppleNec, Apple2009>(fe, clk, freq),
        3 => mk_p::<Rc5, CdPlayer>(fe, clk, freq),
        4 => mk_p::<Sbp, SamsungBluRayPlayer>(fe, clk, freq),
        _ => mk_p::<Rc6, OwnRemote>(fe, clk, freq),
    }
}

fn encode(model: u8, a: &Action) -> Option<NCmd> {
    match model {
        0 => SamsungTv::encode(a).map(|c| c.norm()),
        1 => SpecialForMp3::encode(a).map(|c| c.norm()),
        2 => Apple2009::encode(a).map(|c| c.norm()),
        3 => CdPlayer::encode(a).map(|c| c.norm()),
        4 => SamsungBluRayPlayer::encode(a).map(|c| c.norm()),
        _ => OwnRemote::encode(a).map(|c| c.norm()),
    }
}
/// Buttons a later version of the model may have added.
fn listed(model: u8, code: u64, act: Option<Action>) -> bool {
    let b = match model {
        0 => SamsungTv::BUTTONS,
        1 => SpecialForMp3::BUTTONS,
        2 => Apple2009::BUTTONS,
        3 => CdPlayer::BUTTONS,
        4 => SamsungBluRayPlayer::BUTTONS,
        _ => OwnRemote::BUTTONS,
    };
    b.iter().any(|(c, a)| act.map_or(*c as u64 == code, |x| x == *a))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C13Plan {
    model: u8,
    w: Plan,
    /// actions looked up (index into ACTIONS)
    probe: Vec<u8>,
}

fn frame_of(r: &mut Rng, m: usize, addr: u64, code: u64) -> WFrame {
    let t = &TABLES[m];
    let bits = match t.proto {
        refp::Apple => refp::apple_bits(code >> 8, code & 0x7f, gens::bits(r, 8)),
        refp::Rc5 => refp::ref_bits(refp::Rc5, [addr, code, 3, r.below(2)]),
        refp::Rc6 => refp::ref_bits(refp::Rc6, [addr, code, r.below(2), 0]),
        refp::Sbp => refp::ref_bits(refp::Sbp, [addr, code, 0, 0]) | r.below(16) << 16,
        p => refp::ref_bits(p, [addr, code, 0, 0]),
    };
    WFrame::new(t.proto.class(), bits)
}

pub fn c13_gen(r: &mut Rng, idx: u64, _t: Tier) -> C13Plan {
    let m = (idx % 6) as usize;
    let t = &TABLES[m];
    let mut rx = vec![];
    for _ in 0..r.range(1, 2) {
        let fe = gens::fe(r);
        let mut n = gens::node(r, t.proto, fe);
        if !fe.polled() {
            n.clk = *r.pick(&[Clk::U32, Clk::U32, Clk::U64, Clk::F32(3), Clk::F64(3)]);
            n.freq = n.clk.fixed_hz().unwrap_or(n.freq);
        }
        rx.push(n);
    }
    let sendable = tx::TX_PROTOS.contains(&t.proto);
    let hz = r.range(9, 15) as u8;
    let mut items: Vec<Item> = vec![];
    // long histories only where nothing ticks along
    let tx_free = !sendable || r.chance(1, 4);
    let tx_free = tx_free && rx.iter().all(|n| !n.fe.polled());
    for _ in 0..r.range(1, 6) {
        let known = t.t[r.below(t.t.len() as u64) as usize].0;
        let (addr, code) = match r.below(8) {
            0 => (t.addr, gens::bits(r, 8)),
            1 => (t.addr ^ 1 << r.below(8), known),
            2 => (gens::bits(r, 16), known),
            3 => (t.addr, known ^ 1 << r.below(8)),
            4 if t.proto == refp::Apple => (0, gens::bits(r, 5) << 8 | gens::bits(r, 7)),
            4 if t.proto == refp::Sbp => (t.addr | 1 << r.range(8, 15), known),
            _ => (t.addr, known),
        };
        let am = match t.proto {
            refp::Rc5 => 31,
            refp::Sbp => 0xffff,
            _ => 0xff,
        };
        let cm = match t.proto {
            refp::Rc5 => 63,
            refp::Apple => 0x1f7f,
            _ => 255,
        };
        let (addr, code) = (addr & am, code & cm);
        if sendable && !tx_free && r.chance(1, 2) {
            let load = Load { p: t.proto, f: [addr, code, 0, 0], create: true };
            items.push(Item::new(gens::gap(r).min(150_000), Kind::Send { load, extra: vec![], crash_us: None }));
        } else {
            items.push(Item::new(gens::gap(r), Kind::Frame(frame_of(r, m, addr, code))));
        }
        // the button is held
        if r.chance(1, 3) {
            let fr = items.last().unwrap().frame().unwrap();
            let long = items.len() < 2 && tx_free && r.chance(1, 300);
            for _ in 0..if long { r.range(250, 500) } else { r.range(1, 3) } {
                let f = if t.proto.is_nec() { WFrame::repeat(fr.class) } else { fr };
                items.push(Item::new(gens::gap(r), Kind::Frame(f)));
            }
        }
        if r.chance(1, 10) {
            items.push(Item::new(gens::gap(r), Kind::Noise(vec![(r.range(300, 9_000) as u32, r.range(300, 9_000) as u32)])));
        }
    }
    let tx = (sendable && !tx_free).then(|| TxCfg { hz, buf: r.below(4) as u8, skew_ppm: 0, phase_ns: r.below(100_000) as u32 });
    let mut w = Plan { rx, tx, items, aux: 0 };
    gens::tune(r, &mut w);
    w.slow_down();
    if !w.in_budget() {
        for i in &mut w.items {
            i.skew_ppm = 0;
            i.jit_ppm = 0;
        }
        if let Some(t) = &mut w.tx {
            t.skew_ppm = 0;
        }
        for n in &mut w.rx {
            n.skew_ppm = 0;
            n.lat_ns = 0;
        }
    }
    let probe = (0..r.range(1, 6)).map(|_| r.below(ACTIONS.len() as u64) as u8).collect();
    C13Plan { model: m as u8, w, probe }
}

/// The action a delivered command stands for; None: the table leaves it open.
fn want(m: u8, n: &NCmd) -> Option<Option<Action>> {
    let t = &TABLES[m as usize];
    let (addr, code) = if m as usize == APPLE_IDX { (0, n.f[0] << 8 | n.f[1]) } else { (n.f[0], n.f[1]) };
    if addr != t.addr {
        return Some(None);
    }
    match t.t.iter().find(|x| x.0 == code) {
        Some(x) => Some(Some(x.1)),
        None if listed(m, code, None) => None,
        None => Some(None),
    }
}

pub fn c13_exec(p: &C13Plan, ctx: &mut Ctx) -> Res {
    let t = &TABLES[p.model as usize];
    let check = |a: &Action| -> Res {
        let got = encode(p.model, a);
        if p.model as usize == APPLE_IDX {
            return match got {
                None => Ok(()),
                // a version that can build Apple commands has to build the right one
                Some(n) if t.t.iter().any(|(c, b)| b == a && n.f[0] << 8 | n.f[1] == *c) => Ok(()),
                Some(n) => viol("encode", format!("{}: {a:?} becomes {}", t.name, show(&n))),
            };
        }
        match (t.t.iter().find(|x| x.1 == *a), got) {
            (Some(x), Some(n)) if n.f[0] == t.addr && n.f[1] == x.0 && !n.rep => Ok(()),
            (Some(_), got) => viol("encode", format!("{}: {a:?} becomes {}", t.name, show_opt(&got))),
            (None, None) => Ok(()),
            (None, Some(_)) if listed(p.model, 0, Some(*a)) => Ok(()),
            (None, Some(n)) => viol("encode", format!("{}: {a:?} is no button but becomes {}", t.name, show(&n))),
        }
    };
    for a in &p.probe {
        ctx.count("encodes", 1);
        check(&ACTIONS[*a as usize])?;
    }
    for it in &p.w.items {
        if let Kind::Send { load, .. } = &it.kind {
            if let Some(x) = t.t.iter().find(|x| load.f[0] == t.addr && x.0 == load.f[1]) {
                ctx.count("encodes", 1);
                check(&x.1)?;
            }
            if tx::build(load).is_none() {
                return viol("encode", format!("{}: command {} for address {} cannot be built", t.name, load.f[1], load.f[0]));
            }
        }
    }
    let a = air(&p.w, ctx);
    for (k, cfg) in p.w.rx.iter().enumerate() {
        let who = format!("receiver {k} for {} ({:?} {:?} {} Hz)", t.name, cfg.fe, cfg.clk, cfg.freq());
        ctx.log(|| who.clone());
        let out = drive(cfg, &p.w, &a, 0, &|| mk(p.model, cfg.fe, cfg.clk, cfg.freq()), ctx);
        let mut plain: Vec<Report<NCmd>> = vec![];
        for (at, o) in &out {
            let n = match o {
                Out::Cmd(b) => Out::Cmd(b.n),
                Out::Nothing => Out::Nothing,
                Out::Err(e) => Out::Err(*e),
                Out::Hal(e) => Out::Hal(*e),
            };
            note(*at, &n, ctx);
            plain.push((*at, n));
            let Out::Cmd(b) = o else { continue };
            ctx.log(|| format!("  action {:?} repeat {}", b.act, b.rep));
            ctx.h(b.act.map_or(0, |a| 1 + a as u64));
            if b.act.is_some() {
                ctx.count("actions", 1);
            }
            if let Some(w) = want(p.model, &b.n) {
                if w != b.act {
                    return viol("action", format!("{who}: {} is delivered as {:?} instead of {:?}", show(&b.n), b.act, w));
                }
            }
            if t.proto.is_nec() && b.rep != b.n.rep {
                return viol("repeat", format!("{who}: {} is delivered with repeat = {}", show(&b.n), b.rep));
            }
        }
        judge(&p.w, &a, cfg, &plain, &who, ctx)?;
    }
    Ok(())
}

pub fn c13_valid(p: &C13Plan) -> bool {
    (p.model as usize) < TABLES.len()
        && p.probe.iter().all(|a| (*a as usize) < ACTIONS.len())
        && p.w.sane()
        && p.w.in_budget()
        && p.w.no_wrap()
        && p.w.rx.iter().all(|r| {
            r.proto == TABLES[p.model as usize].proto && matches!(r.clk, Clk::U32 | Clk::U64 | Clk::F32(3) | Clk::F64(3))
        })
        && p.w.items.iter().all(|i| {
            i.air.is_empty()
                && i.rxf.is_empty()
                && i.warp.is_empty()
                && i.cut.is_none()
                && match &i.kind {
                    Kind::Send { load, extra, crash_us } => {
                        load.create && crate::judge::in_range(load) && extra.is_empty() && crash_us.is_none() && load.p == TABLES[p.model as usize].proto
                    }
                    _ => true,
                }
        })
}

pub fn c13() -> Typed<C13Plan> {
    Typed {
        id: "C13",
        runs: (200_000, 4_000_000),
        gen: c13_gen,
        valid: c13_valid,
        exec: c13_exec,
        nontrivial: |c| c.get("actions") > 0,
        rule: "a seed makes 1-6 button presses (own, unlisted and foreign codes; held buttons; sent by the real Sender where the protocol has an encoder, by a remote otherwise) for one of 6 models, 1-2 receiver nodes delivering Buttons, and looks up 1-6 actions; non-trivial: at least one action was delivered",
        real: &["remote control models and Button", "Sender and encoders", "Receiver", "PeriodicPoll", "BufferInputReceiver", "Builder", "protocol decoders"],
        stub: &["remote controls without an encoder in the crate (Apple, Blu-ray) and held buttons", "optical channel and demodulator", "input pin", "timers and interrupt controller"],
        assumptions: &["the reference tables are those the crate ships"],
    }
}
