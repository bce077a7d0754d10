//! The transmitting side of the system under test: the real Sender on a stand-in PWM pin (the
//! crate's own seam: embedded-hal's PwmPin), and the real PulsedataSender with the caller's time.

use crate::refp::{self, Proto, WFrame};
use infrared::cmd::AddressCommand;
use infrared::protocol::{
    nec::{Nec16Command, NecCommand, NecDebugCmd, SamsungNecCommand},
    rc5::Rc5Command,
    rc6::Rc6Command,
    sbp::SbpCommand,
    Nec, Nec16, NecDebug, Rc5, Rc6, SamsungNec,
};
use infrared::sender::{ProtocolEncoder, PulsedataSender, Sender, Status};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct SimPwm(pub Rc<Cell<bool>>);
impl embedded_hal::PwmPin for SimPwm {
    type Duty = u16;
    fn disable(&mut self) {
        self.0.set(false)
    }
    fn enable(&mut self) {
        self.0.set(true)
    }
    fn get_duty(&self) -> u16 {
        0
    }
    fn get_max_duty(&self) -> u16 {
        100
    }
    fn set_duty(&mut self, _: u16) {}
}

/// A command to transmit, in the crate's terms.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Load {
    pub p: Proto,
    pub f: [u64; 4],
    /// build it with AddressCommand::create(f[0], f[1])
    pub create: bool,
}

pub const TX_PROTOS: [Proto; 6] =
    [refp::Nec, refp::Nec16, refp::Samsung, refp::NecRaw, refp::Rc5, refp::Rc6];

pub const SMALL_BUF: u8 = 4;

impl Load {
    /// Does its frame fit in this buffer?
    pub fn fits(&self, buf: u8) -> bool {
        buf != SMALL_BUF || matches!(self.p, refp::Rc5 | refp::Rc6)
    }
    /// Fields inside their ranges (what a caller may put into the public struct).
    pub fn in_range(&self) -> bool {
        let f = self.f;
        match self.p {
            // f[2]: a command received as a repeat is sent like any other
            refp::Nec | refp::Samsung => f[0] < 256 && f[1] < 256 && f[2] < 2,
            refp::Nec16 => f[0] < 65536 && f[1] < 256 && f[2] < 2,
            refp::NecRaw => f[0] < 1 << 32,
            refp::Rc5 => f[0] < 32 && f[1] < 64 && (f[2] == 3 || f[2] == 2) && f[3] < 2,
            refp::Rc6 => f[0] < 256 && f[1] < 256 && f[2] < 2,
            _ => false,
        }
    }
    pub fn frame(&self) -> WFrame {
        let mut f = self.f;
        if self.create && self.p == refp::Rc5 {
            f[2] = 3;
            f[3] = 0;
        }
        if self.create && self.p == refp::Rc6 {
            f[2] = 0;
        }
        WFrame::new(self.p.class(), refp::ref_bits(self.p, f))
    }
}

pub enum AnyCmd {
    Nec(NecCommand),
    Nec16(Nec16Command),
    Samsung(SamsungNecCommand),
    Raw(NecDebugCmd),
    Rc5(Rc5Command),
    Rc6(Rc6Command),
    Sbp(SbpCommand),
    /// address and command code the crate would not take
    Refused(u32, u32),
}

/// None: the crate refuses to build the command.
pub fn build(l: &Load) -> Option<AnyCmd> {
    let f = l.f;
    if l.create {
        let (a, c) = (f[0] as u32, f[1] as u32);
        return match l.p {
            refp::Nec => NecCommand::create(a, c).map(AnyCmd::Nec),
            refp::Samsung => SamsungNecCommand::create(a, c).map(AnyCmd::Samsung),
            refp::Rc5 => Rc5Command::create(a, c).map(AnyCmd::Rc5),
            refp::Rc6 => Rc6Command::create(a, c).map(AnyCmd::Rc6),
            refp::Sbp => SbpCommand::create(a, c).map(AnyCmd::Sbp),
            _ => None,
        };
    }
    Some(match l.p {
        refp::Nec => AnyCmd::Nec(NecCommand { addr: f[0] as u8, cmd: f[1] as u8, repeat: f[2] == 1 }),
        refp::Samsung => {
            AnyCmd::Samsung(SamsungNecCommand { addr: f[0] as u8, cmd: f[1] as u8, repeat: f[2] == 1 })
        }
        refp::Nec16 => AnyCmd::Nec16(Nec16Command { addr: f[0] as u16, cmd: f[1] as u8, repeat: f[2] == 1 }),
        refp::NecRaw => AnyCmd::Raw(NecDebugCmd { bits: f[0] as u32 }),
        // the various ways to get hold of a command
        refp::Rc5 if f[2] == 3 && (f[0] + f[1]) % 3 == 0 => {
            AnyCmd::Rc5(Rc5Command::new(f[0] as u8, f[1] as u8, f[3] == 1))
        }
        refp::Rc5 if (f[0] + f[1]) % 3 == 1 => {
            AnyCmd::Rc5(Rc5Command::unpack((f[2] << 12 | f[3] << 11 | f[0] << 6 | f[1]) as u16))
        }
        refp::Rc6 if f[2] == 0 && (f[0] + f[1]) % 3 == 0 => AnyCmd::Rc6(Rc6Command::new(f[0] as u8, f[1] as u8)),
        refp::Rc6 if (f[0] + f[1]) % 3 == 1 => {
            AnyCmd::Rc6(Rc6Command::from_bits((f[0] << 8 | f[1]) as u16, f[2] == 1))
        }
        refp::Rc5 => AnyCmd::Rc5(Rc5Command {
            addr: f[0] as u8,
            cmd: f[1] as u8,
            start: f[2] as u8,
            toggle: f[3] == 1,
        }),
        refp::Rc6 => AnyCmd::Rc6(Rc6Command { addr: f[0] as u8, cmd: f[1] as u8, toggle: f[2] == 1 }),
        _ => return None,
    })
}

impl AnyCmd {
    /// address and command as the crate's own accessors give them
    pub fn addr_cmd(&self) -> Option<(u32, u32)> {
        match self {
            AnyCmd::Nec(c) => Some((c.address(), c.command())),
            AnyCmd::Samsung(c) => Some((c.address(), c.command())),
            AnyCmd::Rc5(c) => Some((c.address(), c.command())),
            AnyCmd::Rc6(c) => Some((c.address(), c.command())),
            AnyCmd::Sbp(c) => Some((c.address(), c.command())),
            _ => None,
        }
    }
}

pub trait Tx {
    fn load(&mut self, c: &AnyCmd);
    /// One periodic tick; returns whether the output is on afterwards.
    fn tick(&mut self) -> bool;
    /// The loaded pulses, in ticks.
    fn buffer(&self) -> Vec<u32>;
}

struct SenderTx<const F: u32, const S: usize> {
    s: Sender<SimPwm, F, S>,
    pin: SimPwm,
}
impl<const F: u32, const S: usize> Tx for SenderTx<F, S> {
    fn load(&mut self, c: &AnyCmd) {
        match c {
            AnyCmd::Nec(c) => self.s.load::<Nec>(c),
            AnyCmd::Nec16(c) => self.s.load::<Nec16>(c),
            AnyCmd::Samsung(c) => self.s.load::<SamsungNec>(c),
            AnyCmd::Raw(c) => self.s.load::<NecDebug>(c),
            AnyCmd::Rc5(c) => self.s.load::<Rc5>(c),
            AnyCmd::Rc6(c) => self.s.load::<Rc6>(c),
            AnyCmd::Sbp(_) | AnyCmd::Refused(..) => unreachable!("no encoder"),
        }
    }
    fn tick(&mut self) -> bool {
        self.s.tick();
        self.pin.0.get()
    }
    fn buffer(&self) -> Vec<u32> {
        self.s.buffer().to_vec()
    }
}
fn sender<const F: u32, const S: usize>(on: bool) -> Box<dyn Tx> {
    let pin = SimPwm::default();
    pin.0.set(on);
    Box::new(SenderTx::<F, S> { s: Sender::new(pin.clone()), pin })
}

macro_rules! rates {
    ($($i:literal => $f:literal),* $(,)?) => {
        pub const TX_HZ: &[u32] = &[$($f),*];
        /// The last one only has room for RC5 and RC6.
        pub const TX_BUF: &[usize] = &[68, 96, 128, 200, 48];
        /// `on`: the state the output was left in by whoever had it before.
        pub fn make(fi: u8, si: u8, on: bool) -> Box<dyn Tx> {
            match fi {
                $($i => match si {
                    0 => sender::<$f, 68>(on),
                    1 => sender::<$f, 96>(on),
                    2 => sender::<$f, 128>(on),
                    4 => sender::<$f, 48>(on),
                    _ => sender::<$f, 200>(on),
                },)*
                _ => unreachable!(),
            }
        }
    };
}
rates! {
    0 => 20_000, 1 => 25_600, 2 => 32_768, 3 => 38_000, 4 => 40_000, 5 => 44_100, 6 => 48_000,
    7 => 50_000, 8 => 62_500, 9 => 100_000, 10 => 125_000, 11 => 250_000, 12 => 327_680,
    13 => 500_000, 14 => 999_999, 15 => 1_000_000,
    16 => 30_000, 17 => 36_000, 18 => 56_000, 19 => 76_000, 20 => 153_600, 21 => 200_000,
}

// -------------------------------------------------------------------- PulsedataSender (own time)

pub trait Pd {
    fn load(&mut self, c: &AnyCmd);
    fn tick(&mut self, ts: u32) -> Status;
    fn reset(&mut self);
    fn buffer(&self) -> Vec<u32>;
}
struct PdTx<const F: u32, const S: usize>(PulsedataSender<S>);
impl<const F: u32, const S: usize> PdTx<F, S> {
    fn go<P: ProtocolEncoder<F>>(&mut self, c: &P::Cmd) {
        self.0.load_command::<P, F>(c)
    }
}
impl<const F: u32, const S: usize> Pd for PdTx<F, S> {
    fn load(&mut self, c: &AnyCmd) {
        match c {
            AnyCmd::Nec(c) => self.go::<Nec>(c),
            AnyCmd::Nec16(c) => self.go::<Nec16>(c),
            AnyCmd::Samsung(c) => self.go::<SamsungNec>(c),
            AnyCmd::Raw(c) => self.go::<NecDebug>(c),
            AnyCmd::Rc5(c) => self.go::<Rc5>(c),
            AnyCmd::Rc6(c) => self.go::<Rc6>(c),
            AnyCmd::Sbp(_) | AnyCmd::Refused(..) => unreachable!("no encoder"),
        }
    }
    fn tick(&mut self, ts: u32) -> Status {
        self.0.tick(ts)
    }
    fn reset(&mut self) {
        self.0.reset()
    }
    fn buffer(&self) -> Vec<u32> {
        self.0.buffer().to_vec()
    }
}
fn pd<const F: u32, const S: usize>() -> Box<dyn Pd> {
    Box::new(PdTx::<F, S>(PulsedataSender::new()))
}

#[cfg(not(feature = "extreme-rates"))]
pub const PD_HZ: &[u32] = &[20_000, 32_768, 44_100, 100_000, 999_999, 1_000_000];
#[cfg(feature = "extreme-rates")]
pub const PD_HZ: &[u32] =
    &[20_000, 32_768, 44_100, 100_000, 999_999, 1_000_000, 8_000_000, 12_345_678, 48_000_000, 125_000_000];

/// `si` indexes TX_BUF.
pub fn make_pd(fi: u8, si: u8) -> Box<dyn Pd> {
    macro_rules! s {
        ($f:literal) => {
            match si {
                0 => pd::<$f, 68>(),
                1 => pd::<$f, 96>(),
                2 => pd::<$f, 128>(),
                4 => pd::<$f, 48>(),
                _ => pd::<$f, 200>(),
            }
        };
    }
    match fi {
        0 => s!(20_000),
        1 => s!(32_768),
        2 => s!(44_100),
        3 => s!(100_000),
        4 => s!(999_999),
        5 => s!(1_000_000),
        #[cfg(feature = "extreme-rates")]
        6 => s!(8_000_000),
        #[cfg(feature = "extreme-rates")]
        7 => s!(12_345_678),
        #[cfg(feature = "extreme-rates")]
        8 => s!(48_000_000),
        #[cfg(feature = "extreme-rates")]
        9 => s!(125_000_000),
        _ => unreachable!(),
    }
}
