//! The receiving side of the system under test behind one object-safe interface: every protocol,
//! every reception front end, every clock type. All of it is the real crate; only the input pin is
//! a stand-in (that is the crate's own seam: embedded-hal's InputPin).

use crate::refp::{self, NCmd, Proto};
use crate::tx::AnyCmd;
use embedded_hal::digital::v2::InputPin;
use fugit::{Duration, Instant, TimerInstantU32, TimerInstantU64};
use infrared::cmd::{AddressCommand, AnyCommand};
use infrared::protocol::{
    denon::DenonCommand,
    nec::{AppleNecCommand, Nec16Command, NecCommand, NecDebugCmd, SamsungNecCommand},
    rc5::Rc5Command,
    rc6::Rc6Command,
    sbp::SbpCommand,
    AppleNec, Denon, Nec, Nec16, NecDebug, Protocol, Rc5, Rc6, SamsungNec, Sbp,
};
use infrared::receiver::{
    time::InfraMonotonic, BufferInputReceiver, DecoderBuilder, DecodingError, Error, NoPin,
    PeriodicPoll, ProtocolDecoder, Receiver, State,
};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::rc::Rc;

// ------------------------------------------------------------------------------------ pin seam

#[derive(Default)]
pub struct PinCell {
    pub mark: Cell<bool>,
    pub fail: Cell<Option<u32>>,
    pub reads: Cell<u64>,
}
/// Output of an active-low demodulator, with injectable read errors.
#[derive(Clone, Default)]
pub struct SimPin(pub Rc<PinCell>);

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct PinFault(pub u32);

impl InputPin for SimPin {
    type Error = PinFault;
    fn is_high(&self) -> Result<bool, PinFault> {
        self.is_low().map(|v| !v)
    }
    fn is_low(&self) -> Result<bool, PinFault> {
        self.0.reads.set(self.0.reads.get() + 1);
        match self.0.fail.get() {
            Some(c) => {
                // an odd fault is over after one read
                if c & 1 == 1 {
                    self.0.fail.set(None);
                }
                Err(PinFault(c))
            }
            None => Ok(self.0.mark.get()),
        }
    }
}

// ------------------------------------------------------------------------------------ results

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Out<T> {
    Nothing,
    Cmd(T),
    Err(EKind),
    /// the pin's own error value came back
    Hal(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EKind {
    Address,
    Data,
    Validation,
    Remote,
}

impl From<DecodingError> for EKind {
    fn from(e: DecodingError) -> Self {
        match e {
            DecodingError::Address => EKind::Address,
            DecodingError::Data => EKind::Data,
            DecodingError::Validation => EKind::Validation,
            DecodingError::RemoteControlError => EKind::Remote,
        }
    }
}

pub trait Norm {
    fn norm(&self) -> NCmd;
}
fn nc(p: Proto, f: [u64; 4], rep: bool) -> NCmd {
    NCmd { p, f, rep }
}
impl Norm for NecCommand {
    fn norm(&self) -> NCmd {
        nc(refp::Nec, [self.addr as u64, self.cmd as u64, 0, 0], self.repeat)
    }
}
impl Norm for Nec16Command {
    fn norm(&self) -> NCmd {
        nc(refp::Nec16, [self.addr as u64, self.cmd as u64, 0, 0], self.repeat)
    }
}
impl Norm for SamsungNecCommand {
    fn norm(&self) -> NCmd {
        nc(refp::Samsung, [self.addr as u64, self.cmd as u64, 0, 0], self.repeat)
    }
}
impl Norm for AppleNecCommand {
    fn norm(&self) -> NCmd {
        nc(
            refp::Apple,
            [self.command_page as u64, self.command as u64, self.device_id as u64, 0],
            self.repeat,
        )
    }
}
impl Norm for NecDebugCmd {
    fn norm(&self) -> NCmd {
        nc(refp::NecRaw, [self.bits as u64, 0, 0, 0], false)
    }
}
impl Norm for Rc5Command {
    fn norm(&self) -> NCmd {
        nc(
            refp::Rc5,
            [self.addr as u64, self.cmd as u64, self.start as u64, self.toggle as u64],
            false,
        )
    }
}
impl Norm for Rc6Command {
    fn norm(&self) -> NCmd {
        nc(refp::Rc6, [self.addr as u64, self.cmd as u64, self.toggle as u64, 0], false)
    }
}
impl Norm for SbpCommand {
    fn norm(&self) -> NCmd {
        nc(refp::Sbp, [self.address as u64, self.command as u64, self.valid as u64, 0], false)
    }
}
impl Norm for DenonCommand {
    fn norm(&self) -> NCmd {
        nc(refp::Denon, [self.bits, 0, 0, 0], false)
    }
}

// ------------------------------------------------------------------------------------ clocks

pub trait Mono2: InfraMonotonic + 'static
where
    Self::Duration: 'static,
    Self::Instant: 'static,
{
    fn d(t: u64) -> Self::Duration;
    fn i(t: u64) -> Self::Instant;
}
impl Mono2 for u32 {
    fn d(t: u64) -> u32 {
        t as u32
    }
    fn i(t: u64) -> u32 {
        t as u32
    }
}
impl Mono2 for u64 {
    fn d(t: u64) -> u64 {
        t
    }
    fn i(t: u64) -> u64 {
        t
    }
}
impl<const N: u32, const D: u32> Mono2 for Instant<u32, N, D> {
    fn d(t: u64) -> Duration<u32, N, D> {
        Duration::<u32, N, D>::from_ticks(t as u32)
    }
    fn i(t: u64) -> Self {
        Instant::<u32, N, D>::from_ticks(t as u32)
    }
}
impl<const N: u32, const D: u32> Mono2 for Instant<u64, N, D> {
    fn d(t: u64) -> Duration<u64, N, D> {
        Duration::<u64, N, D>::from_ticks(t)
    }
    fn i(t: u64) -> Self {
        Instant::<u64, N, D>::from_ticks(t)
    }
}

/// Clock representation of a receiver. The fugit rates are compile-time constants of the crate's API.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Clk {
    U32,
    U64,
    /// fugit instants, index into FUGIT_HZ
    F32(u8),
    F64(u8),
}
/// (the last two count in units of 25/10^6 and 3/10^6 seconds)
pub const FUGIT_HZ: [u32; 9] =
    [20_000, 32_768, 40_000, 1_000_000, 48_000_000, 33_554_432, 12_345_678, 40_000, 333_333];

impl Clk {
    pub fn fixed_hz(self) -> Option<u32> {
        match self {
            Clk::F32(i) | Clk::F64(i) => Some(FUGIT_HZ[i as usize % FUGIT_HZ.len()]),
            _ => None,
        }
    }
    pub fn bits(self) -> u32 {
        match self {
            Clk::U32 | Clk::F32(_) => 32,
            _ => 64,
        }
    }
    /// ticks as this clock's counter shows them
    pub fn trunc(self, t: u64) -> u64 {
        if self.bits() == 32 {
            t & 0xffff_ffff
        } else {
            t
        }
    }
}

/// Reception front end.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Fe {
    /// Receiver::new, event(dt, edge)
    Dt,
    /// Receiver::with_input, event_edge(dt, edge)
    Edge,
    /// Receiver::new, event_instant(t, edge)
    Inst,
    /// Receiver::with_pin, event(dt)
    PinDt,
    /// Receiver::with_pin (with_fugit / with_fugit64 on fugit clocks), event_instant(t)
    PinInst,
    /// receiver().protocol().monotonic().frequency().build(), event(dt, edge)
    Built,
    /// the same with the builder's pin() and event_instant(t)
    BuiltPin,
    /// the protocol's own decoder, event_total
    Raw,
    /// the protocol's own decoder, event + command + reset
    Step,
    /// PeriodicPoll::new, poll(level)
    Poll,
    /// PeriodicPoll::with_pin, poll()
    PollPin,
    /// receiver()....build_polled(), poll(level)
    BuiltPoll,
    /// BufferInputReceiver over the recorded durations
    Buffer,
    /// BufferInputReceiver::iter_with
    BufferWith,
}
pub use Fe::*;

impl Fe {
    pub fn polled(self) -> bool {
        matches!(self, Poll | PollPin | BuiltPoll)
    }
    pub fn buffer(self) -> bool {
        matches!(self, Buffer | BufferWith)
    }
    pub fn pin(self) -> bool {
        matches!(self, PinDt | PinInst | BuiltPin | PollPin)
    }
    pub fn inst(self) -> bool {
        matches!(self, Inst | PinInst | BuiltPin)
    }
}
pub const FE_EVENT: [Fe; 9] = [Dt, Edge, Inst, PinDt, PinInst, Built, BuiltPin, Raw, Step];
pub const FE_POLL: [Fe; 3] = [Poll, PollPin, BuiltPoll];
pub const FE_BUF: [Fe; 2] = [Buffer, BufferWith];

// ------------------------------------------------------------------------------------ interface

pub trait Rx<T> {
    /// One interrupt: level after the edge, counter value, duration since the previous interrupt.
    fn ev(&mut self, _mark: bool, _ts: u64, _dt: u64) -> Out<T> {
        unreachable!("not event driven")
    }
    /// n consecutive polls at one level; returns the first thing reported and at which poll (0-based).
    /// Stops there: the caller continues with the rest.
    fn poll(&mut self, _mark: bool, _n: u64) -> (u64, Out<T>) {
        unreachable!("not polled")
    }
    /// End of the recording (buffer front ends hand out everything here).
    fn finish(&mut self) -> Vec<T> {
        vec![]
    }
    fn pin(&self) -> Option<&SimPin> {
        None
    }
}

fn lift<C, T>(r: Result<Option<C>, DecodingError>, f: fn(C) -> T) -> Out<T> {
    match r {
        Ok(None) => Out::Nothing,
        Ok(Some(c)) => Out::Cmd(f(c)),
        Err(e) => Out::Err(e.into()),
    }
}
fn lift_pin<C, T>(r: Result<Option<C>, Error<PinFault>>, f: fn(C) -> T) -> Out<T> {
    match r {
        Ok(None) => Out::Nothing,
        Ok(Some(c)) => Out::Cmd(f(c)),
        Err(Error::Hal(e)) => Out::Hal(e.0),
        Err(Error::Address) => Out::Err(EKind::Address),
        Err(Error::Data) => Out::Err(EKind::Data),
        Err(Error::Validation) => Out::Err(EKind::Validation),
        Err(Error::RemoteControlError) => Out::Err(EKind::Remote),
    }
}

pub struct Evd<P: DecoderBuilder<M>, M: InfraMonotonic, C: From<P::Cmd>, T> {
    pub r: Receiver<P, NoPin, M, C>,
    pub how: Fe,
    pub f: fn(C) -> T,
}
impl<P: DecoderBuilder<M>, M: Mono2, C: From<P::Cmd>, T> Rx<T> for Evd<P, M, C, T> {
    fn ev(&mut self, mark: bool, ts: u64, dt: u64) -> Out<T> {
        let r = match self.how {
            Inst => self.r.event_instant(M::i(ts), mark),
            Edge => self.r.event_edge(M::d(dt), mark),
            _ => self.r.event(M::d(dt), mark),
        };
        lift(r, self.f)
    }
}

pub struct Pinned<P: DecoderBuilder<M>, M: InfraMonotonic, C: From<P::Cmd>, T> {
    pub r: Receiver<P, SimPin, M, C>,
    pub pin: SimPin,
    pub how: Fe,
    pub f: fn(C) -> T,
}
impl<P: DecoderBuilder<M>, M: Mono2, C: From<P::Cmd>, T> Rx<T> for Pinned<P, M, C, T> {
    fn ev(&mut self, mark: bool, ts: u64, dt: u64) -> Out<T> {
        self.pin.0.mark.set(mark);
        let r = match self.how {
            PinDt => self.r.event(M::d(dt)),
            _ => self.r.event_instant(M::i(ts)),
        };
        lift_pin(r, self.f)
    }
    fn pin(&self) -> Option<&SimPin> {
        Some(&self.pin)
    }
}

struct RawDec<P: DecoderBuilder<M>, M: InfraMonotonic, T> {
    d: P::Decoder,
    step: bool,
    f: fn(P::Cmd) -> T,
}
impl<P: DecoderBuilder<M>, M: Mono2, T> Rx<T> for RawDec<P, M, T> {
    fn ev(&mut self, mark: bool, _ts: u64, dt: u64) -> Out<T> {
        if !self.step {
            return lift(self.d.event_total(mark, M::d(dt)), self.f);
        }
        match self.d.event(mark, M::d(dt)) {
            State::Idle | State::Receiving => Out::Nothing,
            State::Done => {
                let c = self.d.command();
                self.d.reset();
                c.map_or(Out::Nothing, |c| Out::Cmd((self.f)(c)))
            }
            State::Error(e) => {
                self.d.reset();
                Out::Err(e.into())
            }
        }
    }
}

pub struct Polled<P: DecoderBuilder<u32>, C: From<P::Cmd>, T> {
    pub r: PeriodicPoll<P, NoPin, C>,
    pub f: fn(C) -> T,
}
impl<P: DecoderBuilder<u32>, C: From<P::Cmd>, T> Rx<T> for Polled<P, C, T> {
    fn poll(&mut self, mark: bool, n: u64) -> (u64, Out<T>) {
        for i in 0..n {
            match self.r.poll(mark) {
                Ok(None) => {}
                r => return (i, lift(r, self.f)),
            }
        }
        (n, Out::Nothing)
    }
}

struct PolledPin<P: DecoderBuilder<u32>, C: From<P::Cmd>, T> {
    r: PeriodicPoll<P, SimPin, C>,
    pin: SimPin,
    f: fn(C) -> T,
}
impl<P: DecoderBuilder<u32>, C: From<P::Cmd>, T> Rx<T> for PolledPin<P, C, T> {
    fn poll(&mut self, mark: bool, n: u64) -> (u64, Out<T>) {
        self.pin.0.mark.set(mark);
        for i in 0..n {
            match self.r.poll() {
                Ok(None) => {}
                r => return (i, lift_pin(r, self.f)),
            }
        }
        (n, Out::Nothing)
    }
    fn pin(&self) -> Option<&SimPin> {
        Some(&self.pin)
    }
}

struct Buf<P: DecoderBuilder<M>, M: InfraMonotonic, C: From<P::Cmd>, T> {
    r: BufferInputReceiver<P, M, C>,
    with: bool,
    freq: u32,
    rec: Vec<M::Duration>,
    f: fn(C) -> T,
}
impl<P: DecoderBuilder<M>, M: Mono2, C: From<P::Cmd>, T> Rx<T> for Buf<P, M, C, T> {
    fn ev(&mut self, mark: bool, _ts: u64, dt: u64) -> Out<T> {
        assert_eq!(mark, self.rec.len() % 2 == 0, "recordings alternate, starting with a mark");
        self.rec.push(M::d(dt));
        Out::Nothing
    }
    fn finish(&mut self) -> Vec<T> {
        let rec = std::mem::take(&mut self.rec);
        // a first look at the recording, given up half way, must not change what the second one sees
        let mut out = vec![];
        for full in [false, true] {
            let mut it = if self.with { self.r.iter_with::<P, M, C>(self.freq, &rec) } else { self.r.iter(&rec) };
            if !full {
                let _ = it.next();
                continue;
            }
            // the iterator is driven the way an application does: a for loop ...
            for c in it.by_ref() {
                out.push((self.f)(c));
            }
            // ... and it stays at its end
            for _ in 0..2 {
                out.extend(it.next().map(self.f));
            }
        }
        out
    }
}

/// Receiver of protocol P, clock M, delivering C, seen as T.
pub fn make_cm<P, M, C, T: 'static>(fe: Fe, freq: u32, f: fn(C) -> T, raw: fn(P::Cmd) -> T) -> Box<dyn Rx<T>>
where
    P: DecoderBuilder<M> + 'static,
    P::Decoder: 'static,
    M: Mono2,
    C: From<P::Cmd> + 'static,
    P::Cmd: 'static,
{
    match fe {
        Dt | Inst => Box::new(Evd { r: Receiver::<P, NoPin, M, C>::new(freq), how: fe, f }),
        Edge => Box::new(Evd { r: Receiver::<P, NoPin, M, C>::with_input(freq, NoPin), how: fe, f }),
        PinDt | PinInst => {
            let pin = SimPin::default();
            Box::new(Pinned { r: Receiver::<P, SimPin, M, C>::with_pin(freq, pin.clone()), pin, how: fe, f })
        }
        Raw | Step => Box::new(RawDec::<P, M, T> { d: P::build(freq), step: fe == Step, f: raw }),
        Buffer | BufferWith => Box::new(Buf::<P, M, C, T> {
            r: match (fe, freq.wrapping_mul(0x9e37_79b1) >> 30) {
                (Buffer, h) if freq == 1_000_000 => {
                    if h & 1 == 0 {
                        BufferInputReceiver::new()
                    } else {
                        BufferInputReceiver::default()
                    }
                }
                (Buffer, _) => BufferInputReceiver::with_frequenzy(freq),
                // iter_with brings its own rate: the receiver's is another one
                (_, 0) => BufferInputReceiver::with_frequenzy(7),
                (_, 1) => BufferInputReceiver::with_frequenzy(u32::MAX),
                (_, 2) => BufferInputReceiver::with_frequenzy(40_000),
                _ => BufferInputReceiver::default(),
            },
            with: fe == BufferWith,
            freq,
            rec: vec![],
            f,
        }),
        _ => unreachable!("front end {fe:?} here"),
    }
}

pub fn make_poll<P, C, T: 'static>(fe: Fe, freq: u32, f: fn(C) -> T) -> Box<dyn Rx<T>>
where
    P: DecoderBuilder<u32> + 'static,
    P::Decoder: 'static,
    C: From<P::Cmd> + 'static,
    P::Cmd: 'static,
{
    match fe {
        Poll => Box::new(Polled { r: PeriodicPoll::<P, NoPin, C>::new(freq), f }),
        PollPin => {
            let pin = SimPin::default();
            Box::new(PolledPin { r: PeriodicPoll::<P, SimPin, C>::with_pin(freq, pin.clone()), pin, f })
        }
        _ => unreachable!(),
    }
}

fn norm_of<C: Norm>(c: C) -> NCmd {
    c.norm()
}

/// Named builder methods for the protocols that have one; the rate is set before or after, at times twice.
macro_rules! builder_of {
    ($f:ident, $b:expr, $p:ident) => {
        match $f % 3 {
            0 => $b.frequency($f).protocol::<$p>(),
            1 => $b.frequency(20_000).protocol::<$p>().frequency($f),
            _ => $b.protocol::<$p>().frequency($f),
        }
    };
    ($f:ident, $b:expr, $p:ident named $m:ident) => {
        match $f % 3 {
            0 => $b.frequency($f).$m(),
            1 => $b.frequency(20_000).$m().frequency($f),
            _ => $b.$m().frequency($f),
        }
    };
}

macro_rules! for_proto {
    ($p:ident, $fe:ident, $clk:ident, $freq:ident, $ty:ident, $($named:tt)*) => {{
        macro_rules! clk {
            ($m:ty) => {
                match $fe {
                    Built => Box::new(Evd {
                        r: builder_of!($freq, infrared::receiver(), $($named)*).monotonic::<$m>().build(),
                        how: Built,
                        f: norm_of::<<$ty as Protocol>::Cmd>,
                    }) as Box<dyn Rx<NCmd>>,
                    BuiltPin => {
                        let pin = SimPin::default();
                        Box::new(Pinned {
                            r: if $freq % 2 == 0 {
                                builder_of!($freq, infrared::receiver(), $($named)*).pin(pin.clone()).monotonic::<$m>().build()
                            } else {
                                builder_of!($freq, infrared::receiver().monotonic::<$m>().pin(pin.clone()), $($named)*).build()
                            },
                            pin,
                            how: BuiltPin,
                            f: norm_of::<<$ty as Protocol>::Cmd>,
                        })
                    }
                    _ => make_cm::<$ty, $m, <$ty as Protocol>::Cmd, NCmd>($fe, $freq, norm_of, norm_of),
                }
            };
        }
        macro_rules! fug {
            ($m:ty, $ctor:ident) => {
                if $fe == PinInst {
                    let pin = SimPin::default();
                    Box::new(Pinned {
                        r: Receiver::<$ty, SimPin, $m, <$ty as Protocol>::Cmd>::$ctor(pin.clone()),
                        pin,
                        how: PinInst,
                        f: norm_of::<<$ty as Protocol>::Cmd>,
                    }) as Box<dyn Rx<NCmd>>
                } else {
                    clk!($m)
                }
            };
        }
        match $clk {
            Clk::U32 => match $fe {
                Poll | PollPin => make_poll::<$ty, <$ty as Protocol>::Cmd, NCmd>($fe, $freq, norm_of),
                BuiltPoll => Box::new(Polled {
                    r: builder_of!($freq, infrared::receiver(), $($named)*).build_polled(),
                    f: norm_of::<<$ty as Protocol>::Cmd>,
                }) as Box<dyn Rx<NCmd>>,
                _ => clk!(u32),
            },
            Clk::U64 => clk!(u64),
            Clk::F32(i) => match i {
                0 => fug!(TimerInstantU32<20_000>, with_fugit),
                1 => fug!(TimerInstantU32<32_768>, with_fugit),
                2 => fug!(TimerInstantU32<40_000>, with_fugit),
                3 => fug!(TimerInstantU32<1_000_000>, with_fugit),
                4 => fug!(TimerInstantU32<48_000_000>, with_fugit),
                5 => fug!(TimerInstantU32<33_554_432>, with_fugit),
                6 => fug!(TimerInstantU32<12_345_678>, with_fugit),
                7 => clk!(Instant<u32, 25, 1_000_000>),
                _ => clk!(Instant<u32, 3, 1_000_000>),
            },
            Clk::F64(i) => match i {
                0 => fug!(TimerInstantU64<20_000>, with_fugit64),
                1 => fug!(TimerInstantU64<32_768>, with_fugit64),
                2 => fug!(TimerInstantU64<40_000>, with_fugit64),
                3 => fug!(TimerInstantU64<1_000_000>, with_fugit64),
                4 => fug!(TimerInstantU64<48_000_000>, with_fugit64),
                5 => fug!(TimerInstantU64<33_554_432>, with_fugit64),
                6 => fug!(TimerInstantU64<12_345_678>, with_fugit64),
                7 => clk!(Instant<u64, 25, 1_000_000>),
                _ => clk!(Instant<u64, 3, 1_000_000>),
            },
        }
    }};
}

/// A receiver of the crate, newly created.
pub fn make(p: Proto, fe: Fe, clk: Clk, freq: u32) -> Box<dyn Rx<NCmd>> {
    let freq = clk.fixed_hz().unwrap_or(freq);
    match p {
        refp::Nec => for_proto!(p, fe, clk, freq, Nec, Nec named nec),
        refp::Nec16 => for_proto!(p, fe, clk, freq, Nec16, Nec16 named nec16),
        refp::Samsung => for_proto!(p, fe, clk, freq, SamsungNec, SamsungNec named nec_samsung),
        refp::Apple => for_proto!(p, fe, clk, freq, AppleNec, AppleNec named nec_apple),
        refp::NecRaw => for_proto!(p, fe, clk, freq, NecDebug, NecDebug),
        refp::Rc5 => for_proto!(p, fe, clk, freq, Rc5, Rc5 named rc5),
        refp::Rc6 => for_proto!(p, fe, clk, freq, Rc6, Rc6 named rc6),
        refp::Sbp => for_proto!(p, fe, clk, freq, Sbp, Sbp named samsung_bluray),
        refp::Denon => for_proto!(p, fe, clk, freq, Denon, Denon named denon),
    }
}

fn any_of<P, C>(fe: Fe, clk: Clk, freq: u32, f: fn(C) -> AnyCmd, raw: fn(P::Cmd) -> AnyCmd) -> Box<dyn Rx<AnyCmd>>
where
    P: DecoderBuilder<u32> + DecoderBuilder<u64> + 'static,
    <P as DecoderBuilder<u32>>::Decoder: 'static,
    <P as DecoderBuilder<u64>>::Decoder: 'static,
    C: From<P::Cmd> + 'static,
    P::Cmd: 'static,
{
    match (fe, clk) {
        (Poll | PollPin, _) => make_poll::<P, C, AnyCmd>(fe, freq, f),
        (_, Clk::U64) => make_cm::<P, u64, C, AnyCmd>(fe, freq, f, raw),
        _ => make_cm::<P, u32, C, AnyCmd>(fe, freq, f, raw),
    }
}

/// A receiver whose commands are handed on: as they are, or as what is left of them in the generic view.
pub fn make_any(p: Proto, fe: Fe, clk: Clk, freq: u32, generic: bool) -> Box<dyn Rx<AnyCmd>> {
    fn back<C: AddressCommand>(a: AnyCommand, f: fn(C) -> AnyCmd) -> AnyCmd {
        C::create(a.address, a.command).map_or(AnyCmd::Refused(a.address, a.command), f)
    }
    match (p, generic) {
        (refp::Nec, false) => any_of::<Nec, NecCommand>(fe, clk, freq, AnyCmd::Nec, AnyCmd::Nec),
        (refp::Nec16, _) => any_of::<Nec16, Nec16Command>(fe, clk, freq, AnyCmd::Nec16, AnyCmd::Nec16),
        (refp::Samsung, false) => any_of::<SamsungNec, SamsungNecCommand>(fe, clk, freq, AnyCmd::Samsung, AnyCmd::Samsung),
        (refp::NecRaw, _) => any_of::<NecDebug, NecDebugCmd>(fe, clk, freq, AnyCmd::Raw, AnyCmd::Raw),
        (refp::Rc5, false) => any_of::<Rc5, Rc5Command>(fe, clk, freq, AnyCmd::Rc5, AnyCmd::Rc5),
        (refp::Rc6, false) => any_of::<Rc6, Rc6Command>(fe, clk, freq, AnyCmd::Rc6, AnyCmd::Rc6),
        (refp::Nec, true) => any_of::<Nec, AnyCommand>(fe, clk, freq, |a| back(a, AnyCmd::Nec), |c| back(c.into(), AnyCmd::Nec)),
        (refp::Samsung, true) => {
            any_of::<SamsungNec, AnyCommand>(fe, clk, freq, |a| back(a, AnyCmd::Samsung), |c| back(c.into(), AnyCmd::Samsung))
        }
        (refp::Rc5, true) => any_of::<Rc5, AnyCommand>(fe, clk, freq, |a| back(a, AnyCmd::Rc5), |c| back(c.into(), AnyCmd::Rc5)),
        (refp::Rc6, true) => any_of::<Rc6, AnyCommand>(fe, clk, freq, |a| back(a, AnyCmd::Rc6), |c| back(c.into(), AnyCmd::Rc6)),
        _ => unreachable!(),
    }
}

/// Can this front end be built on this clock?
pub fn fits(fe: Fe, clk: Clk) -> bool {
    !fe.polled() || clk == Clk::U32
}

// ------------------------------------------------------------------------------------ bare decoder

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum St {
    Idle,
    Receiving,
    Done,
    Error(EKind),
}

pub trait Dec {
    fn event(&mut self, mark: bool, dt: u64) -> St;
    fn command(&self) -> Option<NCmd>;
    fn reset(&mut self);
    fn total(&mut self, mark: bool, dt: u64) -> Out<NCmd>;
}
struct DecW<P: DecoderBuilder<M>, M: InfraMonotonic>(P::Decoder);
impl<P: DecoderBuilder<M>, M: Mono2> Dec for DecW<P, M>
where
    P::Cmd: Norm,
{
    fn event(&mut self, mark: bool, dt: u64) -> St {
        match self.0.event(mark, M::d(dt)) {
            State::Idle => St::Idle,
            State::Receiving => St::Receiving,
            State::Done => St::Done,
            State::Error(e) => St::Error(e.into()),
        }
    }
    fn command(&self) -> Option<NCmd> {
        self.0.command().map(|c| c.norm())
    }
    fn reset(&mut self) {
        self.0.reset()
    }
    fn total(&mut self, mark: bool, dt: u64) -> Out<NCmd> {
        lift(self.0.event_total(mark, M::d(dt)), norm_of)
    }
}
fn dec_of<P>(clk: Clk, freq: u32) -> Box<dyn Dec>
where
    P: DecoderBuilder<u32>
        + DecoderBuilder<u64>
        + DecoderBuilder<TimerInstantU32<1_000_000>>
        + DecoderBuilder<TimerInstantU64<1_000_000>>
        + 'static,
    P::Cmd: Norm,
{
    match clk {
        Clk::U32 => Box::new(DecW::<P, u32>(<P as DecoderBuilder<u32>>::build(freq))),
        Clk::U64 => Box::new(DecW::<P, u64>(<P as DecoderBuilder<u64>>::build(freq))),
        Clk::F32(_) => Box::new(DecW::<P, TimerInstantU32<1_000_000>>(
            <P as DecoderBuilder<TimerInstantU32<1_000_000>>>::build(1_000_000),
        )),
        Clk::F64(_) => Box::new(DecW::<P, TimerInstantU64<1_000_000>>(
            <P as DecoderBuilder<TimerInstantU64<1_000_000>>>::build(1_000_000),
        )),
    }
}
/// A bare decoder (fugit clocks run at 1 MHz here).
pub fn make_dec(p: Proto, clk: Clk, freq: u32) -> Box<dyn Dec> {
    match p {
        refp::Nec => dec_of::<Nec>(clk, freq),
        refp::Nec16 => dec_of::<Nec16>(clk, freq),
        refp::Samsung => dec_of::<SamsungNec>(clk, freq),
        refp::Apple => dec_of::<AppleNec>(clk, freq),
        refp::NecRaw => dec_of::<NecDebug>(clk, freq),
        refp::Rc5 => dec_of::<Rc5>(clk, freq),
        refp::Rc6 => dec_of::<Rc6>(clk, freq),
        refp::Sbp => dec_of::<Sbp>(clk, freq),
        refp::Denon => dec_of::<Denon>(clk, freq),
    }
}
