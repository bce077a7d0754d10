//! Plays edge histories and loads through every part of the library that this build's features
//! enable, and prints one number per part: a hash over everything it reported, for the driver
//! (tools/features.py) to compare between builds.
//!
//! featsim HISTORIES [PART]: with PART, one line per history.
//!
//! A history is `R protocol frequency dt dt ...` (alternating edges, the first one starts a mark)
//! or `S protocol address command`.
#![allow(dead_code, unused_imports, unused_macros, unused_variables, unused_mut)]

use infrared::cmd::AnyCommand;
use infrared::protocol::*;
use infrared::receiver::{DecoderBuilder, DecodingError, MultiReceiver, NoPin, ProtocolDecoder, State};
use infrared::sender::{ProtocolEncoder, PulsedataSender, Status};
use infrared::{BufferInputReceiver, PeriodicPoll, Protocol, Receiver};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[cfg(any(feature = "hal", feature = "embedded"))]
mod pins {
    use std::cell::Cell;
    use std::rc::Rc;
    #[derive(Clone)]
    pub struct In(pub Rc<Cell<bool>>);
    impl embedded_hal::digital::v2::InputPin for In {
        type Error = ();
        fn is_high(&self) -> Result<bool, ()> {
            Ok(!self.0.get())
        }
        fn is_low(&self) -> Result<bool, ()> {
            Ok(self.0.get())
        }
    }
    #[derive(Clone)]
    pub struct Out(pub Rc<Cell<bool>>);
    impl embedded_hal::PwmPin for Out {
        type Duty = u32;
        fn disable(&mut self) {
            self.0.set(false)
        }
        fn enable(&mut self) {
            self.0.set(true)
        }
        fn get_duty(&self) -> u32 {
            0
        }
        fn get_max_duty(&self) -> u32 {
            1
        }
        fn set_duty(&mut self, _: u32) {}
    }
}

/// Formats whatever the library logs.
#[cfg(feature = "log")]
mod logger {
    pub struct Sink;
    impl log::Log for Sink {
        fn enabled(&self, _: &log::Metadata) -> bool {
            true
        }
        fn log(&self, r: &log::Record) {
            std::hint::black_box(format!("{}", r.args()).len());
        }
        fn flush(&self) {}
    }
}

/// What the linker script of a target would provide.
#[cfg(feature = "defmt")]
mod logger {
    #[defmt::global_logger]
    struct Sink;
    unsafe impl defmt::Logger for Sink {
        fn acquire() {}
        unsafe fn flush() {}
        unsafe fn release() {}
        unsafe fn write(b: &[u8]) {
            std::hint::black_box(b.len());
        }
    }
    defmt::timestamp!("");
    #[no_mangle]
    pub extern "Rust" fn _defmt_panic() -> ! {
        panic!("defmt")
    }
}

struct Hist {
    freq: u32,
    dts: Vec<u32>,
}

/// Reports, hashed.
#[derive(Default)]
struct H(u64);
impl H {
    fn put(&mut self, i: usize, s: String) {
        for b in i.to_le_bytes().into_iter().chain(s.into_bytes()) {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100_0000_01b3).rotate_left(23);
        }
    }
    fn res<C: Debug, E: Debug>(&mut self, i: usize, r: Result<Option<C>, E>) {
        match r {
            Ok(None) => {}
            r => self.put(i, format!("{r:?}")),
        }
    }
}

struct Rig {
    only: Option<String>,
    /// digest, and how many histories made the part report something
    parts: BTreeMap<String, (u64, u64)>,
    idx: usize,
}

impl Rig {
    fn part(&mut self, name: String, f: impl FnOnce(&mut H)) {
        if self.only.as_ref().is_some_and(|o| *o != name) {
            return;
        }
        let mut h = H::default();
        if catch_unwind(AssertUnwindSafe(|| f(&mut h))).is_err() {
            h.put(0, "panic".into());
        }
        if self.only.is_some() {
            println!("{} {:016x}", self.idx, h.0);
        }
        let p = self.parts.entry(name).or_default();
        p.0 = (p.0 ^ h.0).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
        p.1 += (h.0 != 0) as u64;
    }
}

fn edges(h: &Hist) -> impl Iterator<Item = (usize, u32, bool)> + '_ {
    h.dts.iter().enumerate().map(|(i, d)| (i, *d, i % 2 == 0))
}

/// The parts every build has.
fn basic<P>(rig: &mut Rig, n: &str, h: &Hist)
where
    P: DecoderBuilder<u32> + DecoderBuilder<u64>,
    P::Cmd: Debug,
{
    rig.part(format!("{n} decoder"), |o| {
        let mut d = <P as DecoderBuilder<u32>>::build(h.freq);
        for (i, dt, e) in edges(h) {
            let s = d.event(e, dt);
            if s == State::Done {
                o.put(i, format!("{:?}", d.command()));
            }
            if matches!(s, State::Done | State::Error(_)) {
                o.put(i, format!("{s:?}"));
                d.reset();
            }
        }
    });
    rig.part(format!("{n} decoder total"), |o| {
        let mut d = <P as DecoderBuilder<u64>>::build(h.freq);
        for (i, dt, e) in edges(h) {
            o.res(i, d.event_total(e, dt as u64));
        }
    });
    rig.part(format!("{n} receiver durations"), |o| {
        let mut r = Receiver::<P, NoPin, u32>::new(h.freq);
        for (i, dt, e) in edges(h) {
            o.res(i, r.event(dt, e));
        }
    });
    rig.part(format!("{n} receiver timestamps"), |o| {
        let mut r = Receiver::<P, NoPin, u32>::new(h.freq);
        let mut t = 0u32;
        for (i, dt, e) in edges(h) {
            t = t.wrapping_add(dt);
            o.res(i, r.event_instant(t, e));
        }
    });
    rig.part(format!("{n} receiver 64 bit"), |o| {
        let mut r = Receiver::<P, NoPin, u64>::new(h.freq);
        for (i, dt, e) in edges(h) {
            o.res(i, r.event(dt as u64, e));
        }
    });
    rig.part(format!("{n} buffer"), |o| {
        let mut r = BufferInputReceiver::<P>::with_frequenzy(h.freq);
        for (i, c) in r.iter(&h.dts).enumerate() {
            o.put(i, format!("{c:?}"));
        }
    });
    rig.part(format!("{n} builder"), |o| {
        let mut r = infrared::receiver().protocol::<P>().frequency(h.freq).build();
        for (i, dt, e) in edges(h) {
            o.res(i, r.event(dt, e));
        }
    });
    if polls(h) {
        rig.part(format!("{n} polled"), |o| {
            let mut r = PeriodicPoll::<P>::new(h.freq);
            for (i, dt, e) in edges(h) {
                for _ in 1..dt {
                    o.res(i, r.poll(!e));
                }
                o.res(i, r.poll(e));
            }
        });
    }
    #[cfg(any(feature = "hal", feature = "embedded"))]
    hal::<P>(rig, n, h);
}

/// The builder's own methods.
fn named(rig: &mut Rig, n: &str, h: &Hist) {
    macro_rules! by {
        ($m:ident) => {
            rig.part(format!("{n} builder method"), |o| {
                let mut r = infrared::receiver().$m().frequency(h.freq).build();
                for (i, dt, e) in edges(h) {
                    o.res(i, r.event(dt, e));
                }
            })
        };
    }
    match n {
        #[cfg(feature = "nec")]
        "Nec" => by!(nec),
        #[cfg(feature = "nec")]
        "Nec16" => by!(nec16),
        #[cfg(feature = "nec")]
        "Samsung" => by!(nec_samsung),
        #[cfg(feature = "nec")]
        "Apple" => by!(nec_apple),
        #[cfg(feature = "rc5")]
        "Rc5" => by!(rc5),
        #[cfg(feature = "rc6")]
        "Rc6" => by!(rc6),
        #[cfg(feature = "sbp")]
        "Sbp" => by!(samsung_bluray),
        #[cfg(feature = "denon")]
        "Denon" => by!(denon),
        _ => {}
    }
}

fn polls(h: &Hist) -> bool {
    h.freq <= 40_000 && h.dts.iter().map(|d| *d as u64).sum::<u64>() < 200_000
}

#[cfg(any(feature = "hal", feature = "embedded"))]
fn hal<P>(rig: &mut Rig, n: &str, h: &Hist)
where
    P: DecoderBuilder<u32>,
    P::Cmd: Debug,
{
    let pin = || pins::In(Default::default());
    rig.part(format!("{n} receiver pin"), |o| {
        let p = pin();
        let mut r = Receiver::<P, _, u32>::with_pin(h.freq, p.clone());
        let mut s = infrared::receiver().protocol::<P>().pin(p.clone()).frequency(h.freq).build();
        let mut t = 0u32;
        for (i, dt, e) in edges(h) {
            p.0.set(e);
            t = t.wrapping_add(dt);
            o.res(i, r.event(dt));
            o.res(i, s.event_instant(t));
        }
    });
    if polls(h) {
        rig.part(format!("{n} polled pin"), |o| {
            let p = pin();
            let mut r = PeriodicPoll::<P, _>::with_pin(h.freq, p.clone());
            for (i, dt, e) in edges(h) {
                for _ in 1..dt {
                    o.res(i, r.poll());
                }
                p.0.set(e);
                o.res(i, r.poll());
            }
        });
    }
}

#[cfg(any(feature = "fugit", feature = "embedded"))]
fn fgt<P>(rig: &mut Rig, n: &str, h: &Hist)
where
    P: DecoderBuilder<fugit::TimerInstantU32<40_000>> + DecoderBuilder<fugit::TimerInstantU64<1_000_000>>,
    P::Cmd: Debug,
{
    type A = fugit::TimerInstantU32<40_000>;
    type B = fugit::TimerInstantU64<1_000_000>;
    if h.freq == 40_000 {
        rig.part(format!("{n} fugit 32 bit"), |o| {
            let mut r = Receiver::<P, NoPin, A>::new(h.freq);
            let mut t = 0u32;
            for (i, dt, e) in edges(h) {
                t = t.wrapping_add(dt);
                o.res(i, r.event_instant(A::from_ticks(t), e));
            }
        });
    }
    if h.freq == 1_000_000 {
        rig.part(format!("{n} fugit 64 bit"), |o| {
            let mut r = infrared::receiver().protocol::<P>().monotonic::<B>().frequency(h.freq).build();
            for (i, dt, e) in edges(h) {
                o.res(i, r.event(fugit::TimerDurationU64::from_ticks(dt as u64), e));
            }
        });
    }
    #[cfg(feature = "embedded")]
    if h.freq == 1_000_000 {
        rig.part(format!("{n} fugit pin"), |o| {
            let p = pins::In(Default::default());
            let mut r = Receiver::<P, _, B>::with_fugit64(p.clone());
            let mut t = 0;
            for (i, dt, e) in edges(h) {
                p.0.set(e);
                t += dt as u64;
                o.res(i, r.event_instant(B::from_ticks(t)));
            }
        });
    }
}

/// The protocol-independent view.
fn multi<P>(rig: &mut Rig, n: &str, h: &Hist)
where
    P: DecoderBuilder<u32>,
    P::Cmd: Debug + Into<AnyCommand>,
{
    rig.part(format!("{n} multi"), |o| {
        let mut r = MultiReceiver::<3, (P, P, P), NoPin>::new(h.freq, NoPin);
        for (i, dt, e) in edges(h) {
            for c in r.event_generic_iter(dt, e) {
                o.put(i, format!("{c:?}"));
            }
        }
    });
    #[cfg(any(feature = "hal", feature = "embedded"))]
    rig.part(format!("{n} multi pin"), |o| {
        let p = pins::In(Default::default());
        let mut r = MultiReceiver::<2, (P, P), _>::new(h.freq, p.clone());
        for (i, dt, e) in edges(h) {
            p.0.set(e);
            for c in r.event_iter(dt).unwrap() {
                o.put(i, format!("{c:?}"));
            }
        }
    });
}

#[cfg(feature = "remotes")]
fn remote<P, M>(rig: &mut Rig, n: &str, h: &Hist)
where
    P: DecoderBuilder<u32>,
    P::Cmd: Debug + infrared::cmd::AddressCommand,
    M: infrared::remotecontrol::RemoteControlModel<Cmd = P::Cmd> + Debug,
{
    use infrared::remotecontrol::*;
    rig.part(format!("{n} remote {}", M::MODEL), |o| {
        let mut r = infrared::receiver().protocol::<P>().frequency(h.freq).remotecontrol(M::default()).build();
        for (i, dt, e) in edges(h) {
            if let Ok(Some(b)) = r.event(dt, e) {
                o.put(i, format!("{:?} {:?}", b.action().map(|a| a.to_str().to_string()), b.command()));
            }
        }
        for (c, a) in M::BUTTONS {
            o.put(*c as usize, format!("{a:?} {:?} {:?} {:?}", M::encode(a), M::DEVTYPE, M::PROTOCOL));
        }
    });
}

fn send<P>(rig: &mut Rig, n: &str, addr: u32, cmd: u32)
where
    P: ProtocolEncoder<40_000> + ProtocolEncoder<1_000_000>,
    P::Cmd: infrared::cmd::AddressCommand,
{
    use infrared::cmd::AddressCommand;
    let Some(c) = P::Cmd::create(addr, cmd) else {
        rig.part(format!("{n} create"), |o| o.put(0, "refused".into()));
        return;
    };
    rig.part(format!("{n} pulse sender"), |o| {
        let mut s = PulsedataSender::<128>::new();
        s.load_command::<P, 1_000_000>(&c);
        o.put(0, format!("{:?}", s.buffer()));
        s.load_command::<P, 40_000>(&c);
        o.put(0, format!("{:?}", s.buffer()));
        let mut last = Status::Idle;
        for t in 0..4_000 {
            let x = s.tick(t);
            if x != last {
                o.put(t as usize, format!("{x:?}"));
                last = x;
            }
        }
    });
    #[cfg(any(feature = "hal", feature = "embedded"))]
    rig.part(format!("{n} sender"), |o| {
        let p = pins::Out(Default::default());
        let mut s = infrared::sender::Sender::<_, 40_000, 128>::new(p.clone());
        s.load::<P>(&c);
        let mut last = false;
        for t in 0..4_000 {
            s.tick();
            if p.0.get() != last {
                last = p.0.get();
                o.put(t, format!("{last}"));
            }
        }
    });
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    #[cfg(feature = "log")]
    {
        log::set_logger(&logger::Sink).unwrap();
    }
    let args: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&args[1]).unwrap();
    let mut rig = Rig { only: args.get(2).cloned(), parts: BTreeMap::new(), idx: 0 };
    for (idx, line) in text.lines().enumerate() {
        rig.idx = idx;
        let w: Vec<&str> = line.split(' ').collect();
        // "R" and "S" or, while the logger listens, "RL" and "SL"
        #[cfg(feature = "log")]
        log::set_max_level(if w[0].ends_with('L') { log::LevelFilter::Trace } else { log::LevelFilter::Off });
        let num: Vec<u32> = w[2..].iter().map(|x| x.parse().unwrap()).collect();
        if w[0].starts_with('S') {
            let (a, c) = (num[0], num[1]);
            match w[1] {
                #[cfg(feature = "nec")]
                "Nec" => send::<Nec>(&mut rig, w[1], a, c),
                #[cfg(feature = "nec")]
                "Samsung" => send::<SamsungNec>(&mut rig, w[1], a, c),
                #[cfg(feature = "rc5")]
                "Rc5" => send::<Rc5>(&mut rig, w[1], a, c),
                #[cfg(feature = "rc6")]
                "Rc6" => send::<Rc6>(&mut rig, w[1], a, c),
                _ => {}
            }
            continue;
        }
        let h = &Hist { freq: num[0], dts: num[1..].to_vec() };
        let rig = &mut rig;
        named(rig, w[1], h);
        macro_rules! play {
            ($p:ty $(; $any:ident)? $(, $($m:tt)*)?) => {{
                basic::<$p>(rig, w[1], h);
                #[cfg(any(feature = "fugit", feature = "embedded"))]
                fgt::<$p>(rig, w[1], h);
                $( $any::<$p>(rig, w[1], h); )?
                $(
                    #[cfg(feature = "remotes")]
                    remote::<$p, infrared::remotecontrol::$($m)*>(rig, w[1], h);
                )?
            }};
        }
        match w[1] {
            #[cfg(feature = "nec")]
            "Nec" => play!(Nec; multi, nec::SpecialForMp3),
            #[cfg(feature = "nec")]
            "Nec16" => play!(Nec16),
            #[cfg(feature = "nec")]
            "Samsung" => play!(SamsungNec; multi, nec::SamsungTv),
            #[cfg(feature = "nec")]
            "Apple" => play!(AppleNec; multi, nec::Apple2009),
            #[cfg(feature = "nec")]
            "NecRaw" => play!(NecDebug),
            #[cfg(feature = "rc5")]
            "Rc5" => play!(Rc5; multi, rc5::CdPlayer),
            #[cfg(feature = "rc6")]
            "Rc6" => play!(Rc6; multi),
            #[cfg(feature = "sbp")]
            "Sbp" => play!(Sbp; multi, sbp::SamsungBluRayPlayer),
            #[cfg(feature = "denon")]
            "Denon" => play!(Denon; multi),
            _ => {}
        }
    }
    if rig.only.is_none() {
        for (k, (v, n)) in &rig.parts {
            println!("{v:016x} {n} {k}");
        }
    }
}
