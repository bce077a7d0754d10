//! Multi-protocol receivers of the crate and, next to each, its slots as stand-alone receivers.

use crate::refp::{self, NCmd, Proto};
use crate::rx::{make_cm, Clk, Fe, Mono2, Rx, SimPin};
use fugit::{TimerInstantU32, TimerInstantU64};
use infrared::cmd::AnyCommand;
use infrared::protocol::{AppleNec, Denon, Nec, Rc5, Rc6, SamsungNec, Sbp};
use infrared::receiver::MultiReceiver;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Any {
    pub id: u8,
    pub raw: u64,
    pub addr: u32,
    pub cmd: u32,
    pub rep: bool,
}
fn any_of(c: AnyCommand) -> Any {
    Any { id: c.protocol as u8, raw: c.raw, addr: c.address, cmd: c.command, rep: c.repeat }
}
fn any_raw<C: Into<AnyCommand>>(c: C) -> Any {
    any_of(c.into())
}

/// What the slots delivered: one entry per slot, or (iterator calls) the filled ones.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Got {
    Slots(Vec<Option<Any>>),
    Iter(Vec<Any>),
    Pin(u32),
}

/// Which of the four calls
pub const GENERIC: u8 = 0;
pub const GENERIC_ITER: u8 = 1;
pub const PIN: u8 = 2;

pub struct Multi {
    pub protos: Vec<Proto>,
    pub pin: SimPin,
    f: Box<dyn FnMut(u8, bool, u64) -> Got>,
    pub singles: Vec<Box<dyn Rx<Any>>>,
}
impl Multi {
    pub fn ev(&mut self, how: u8, mark: bool, dt: u64) -> Got {
        self.pin.0.mark.set(mark);
        (self.f)(how, mark, dt)
    }
}

macro_rules! proto_of {
    (Nec) => { refp::Nec };
    (SamsungNec) => { refp::Samsung };
    (AppleNec) => { refp::Apple };
    (Rc5) => { refp::Rc5 };
    (Rc6) => { refp::Rc6 };
    (Sbp) => { refp::Sbp };
    (Denon) => { refp::Denon };
}
macro_rules! one {
    ($freq:ident, $n:literal, $m:ty, $($p:ident)+) => {{
        let pin = SimPin::default();
        let mut r = MultiReceiver::<$n, ($($p),+), SimPin, $m>::new($freq, pin.clone());
        Multi {
            protos: vec![$(proto_of!($p)),+],
            pin,
            f: Box::new(move |how, mark, dt| {
                let dt = <$m as Mono2>::d(dt);
                match how {
                    GENERIC => Got::Slots(r.event_generic(dt, mark).into_iter().map(|c| c.map(any_of)).collect()),
                    GENERIC_ITER => Got::Iter(r.event_generic_iter(dt, mark).map(any_of).collect()),
                    PIN => match r.event(dt) {
                        Ok(a) => Got::Slots(a.into_iter().map(|c| c.map(any_of)).collect()),
                        Err(e) => Got::Pin(e.0),
                    },
                    _ => match r.event_iter(dt) {
                        Ok(a) => Got::Iter(a.map(any_of).collect()),
                        Err(e) => Got::Pin(e.0),
                    },
                }
            }),
            singles: vec![$(make_cm::<$p, $m, AnyCommand, Any>(Fe::Dt, $freq, any_of, any_raw)),+],
        }
    }};
}
macro_rules! sets {
    ($set:ident, $clk:ident, $freq:ident; $($i:literal: $n:literal ($($p:ident)+),)*) => {
        match $set {
            $($i => match $clk {
                Clk::U32 => one!($freq, $n, u32, $($p)+),
                Clk::U64 => one!($freq, $n, u64, $($p)+),
                Clk::F32(_) => one!($freq, $n, TimerInstantU32<1_000_000>, $($p)+),
                Clk::F64(_) => one!($freq, $n, TimerInstantU64<1_000_000>, $($p)+),
            },)*
            _ => unreachable!(),
        }
    };
}
pub const SETS: u8 = 11;

/// Fugit clocks run at 1 MHz here.
pub fn make(set: u8, clk: Clk, freq: u32) -> Multi {
    let freq = fixed(clk, freq);
    sets!(set, clk, freq;
        0: 2 (Nec Rc5),
        1: 2 (Rc6 Denon),
        2: 2 (Sbp SamsungNec),
        3: 3 (Nec Rc5 Rc6),
        4: 3 (Denon AppleNec Nec),
        5: 4 (Nec SamsungNec Rc5 Denon),
        6: 4 (Rc6 Sbp AppleNec Rc5),
        7: 5 (Denon Nec Rc6 SamsungNec Rc5),
        8: 5 (AppleNec Sbp Rc5 Nec Denon),
        9: 6 (Nec SamsungNec AppleNec Rc5 Rc6 Sbp),
        10: 6 (Denon Sbp Rc6 Rc5 SamsungNec Nec),
    )
}
pub fn fixed(clk: Clk, freq: u32) -> u32 {
    if clk.fixed_hz().is_some() {
        1_000_000
    } else {
        freq
    }
}

/// The generic view a frame must get. None in `rep`: not specified.
pub struct WantAny {
    pub id: u8,
    pub addr: u32,
    pub cmd: u32,
    pub raw: Option<u64>,
    pub rep: Option<bool>,
}
pub fn want(c: &NCmd) -> WantAny {
    let (f, w) = (c.f, |id, addr: u64, cmd: u64, raw, rep| WantAny { id, addr: addr as u32, cmd: cmd as u32, raw, rep });
    match c.p {
        refp::Nec => w(1, f[0], f[1], None, Some(c.rep)),
        refp::Samsung => w(3, f[0], f[1], None, Some(c.rep)),
        refp::Apple => w(4, 0, f[0] << 7 | f[1], None, Some(c.rep)),
        refp::Rc5 => w(5, f[0], f[1], None, None),
        refp::Rc6 => w(6, f[0], f[1], None, None),
        refp::Sbp => w(7, f[0], f[1], None, None),
        refp::Denon => w(8, 0, 0, Some(f[0]), None),
        _ => unreachable!(),
    }
}
impl WantAny {
    pub fn fits(&self, a: &Any) -> bool {
        self.id == a.id
            && match self.raw {
                Some(r) => r == a.raw,
                None => self.addr == a.addr && self.cmd == a.cmd,
            }
            && self.rep.is_none_or(|r| r == a.rep)
    }
}
