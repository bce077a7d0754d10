From 8f967ed03f307e2fda2315b94131d02b752be187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:31 +0000
Subject: [PATCH 01/19] fix: stop transmitting at the end of the loaded command

PulsedataBuffer::get handed out everything in the backing array, so the
sender went on playing the zeroes and leftovers of longer, earlier commands
behind the loaded one.
---
 src/sender/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sender/buffer.rs b/src/sender/buffer.rs
index f24a0b9..0a05e06 100644
--- a/src/sender/buffer.rs
+++ b/src/sender/buffer.rs
@@ -23,7 +23,7 @@ impl<const S: usize> PulsedataBuffer<S> {
     }
 
     pub fn get(&self, index: usize) -> Option<u32> {
-        self.buf.get(index).cloned()
+        self.buffer().get(index).cloned()
     }
 
     pub fn buffer(&self) -> &[u32] {
-- 
2.43.0


From 2a9c4dc13b0526acdec841b3aa54a97258d8c1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:33 +0000
Subject: [PATCH 02/19] fix: give the closing mark of Nec and Rc5 frames its
 length

The encoders ended with the edge that starts the last mark, so the sender
switched it off one tick later: the Nec stop mark and the last half-bit of
Rc5 commands ending in a one were a single tick long.
---
 src/protocol/nec/encoder.rs | 4 ++++
 src/protocol/rc5/encoder.rs | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/src/protocol/nec/encoder.rs b/src/protocol/nec/encoder.rs
index 858e080..943b6ee 100644
--- a/src/protocol/nec/encoder.rs
+++ b/src/protocol/nec/encoder.rs
@@ -49,6 +49,10 @@ where
             bi += 2;
         }
 
+        // The closing mark ends the last bit
+        b[bi] = <Self as ProtocolEncoder<F>>::DATA[3];
+        bi += 1;
+
         bi
     }
 }
diff --git a/src/protocol/rc5/encoder.rs b/src/protocol/rc5/encoder.rs
index 4019414..2719399 100644
--- a/src/protocol/rc5/encoder.rs
+++ b/src/protocol/rc5/encoder.rs
@@ -42,6 +42,12 @@ impl<const FREQ: u32> ProtocolEncoder<FREQ> for Rc5 {
             prev = cur;
         }
 
+        // A trailing one ends with a mark
+        if prev {
+            buf[index] = rc5len;
+            index += 1;
+        }
+
         index
     }
 }
-- 
2.43.0


From 7f0661facb5bffe39516cf63c87d1d239717beeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:34 +0000
Subject: [PATCH 03/19] fix: compute pulse lengths of the encoders without
 rounding the frequency

The frequency was cut to whole kHz before scaling (32768 Hz became 32 kHz,
2.4% off), and the Rc6 table overflowed u32 from 9.7 MHz on.
---
 src/protocol/nec/encoder.rs | 12 ++----------
 src/protocol/rc5/encoder.rs | 12 ++----------
 src/protocol/rc6/encoder.rs |  2 +-
 3 files changed, 5 insertions(+), 21 deletions(-)

diff --git a/src/protocol/nec/encoder.rs b/src/protocol/nec/encoder.rs
index 943b6ee..a3cdb92 100644
--- a/src/protocol/nec/encoder.rs
+++ b/src/protocol/nec/encoder.rs
@@ -3,16 +3,8 @@ use crate::{
     sender::ProtocolEncoder,
 };
 
-const fn calc_ticks(l: u32, mut f: u32) -> u32 {
-    //TODO: Fix overflow
-    let mut div = 1_000_000;
-
-    if f > 1000 {
-        f /= 1000;
-        div /= 1000;
-    }
-
-    f * l / div
+const fn calc_ticks(l: u32, f: u32) -> u32 {
+    (f as u64 * l as u64 / 1_000_000) as u32
 }
 
 impl<Cmd, const F: u32> ProtocolEncoder<F> for Nec<Cmd>
diff --git a/src/protocol/rc5/encoder.rs b/src/protocol/rc5/encoder.rs
index 2719399..b21ea7c 100644
--- a/src/protocol/rc5/encoder.rs
+++ b/src/protocol/rc5/encoder.rs
@@ -1,15 +1,7 @@
 use crate::{protocol::Rc5, sender::ProtocolEncoder};
 
-//TODO: Check Overflow
-const fn calc_freq(mut f: u32) -> u32 {
-    let mut div = 1_000_000;
-
-    if f > 1000 {
-        f /= 1000;
-        div /= 1000;
-    }
-
-    (889 * f) / div
+const fn calc_freq(f: u32) -> u32 {
+    (889 * f as u64 / 1_000_000) as u32
 }
 
 impl<const FREQ: u32> ProtocolEncoder<FREQ> for Rc5 {
diff --git a/src/protocol/rc6/encoder.rs b/src/protocol/rc6/encoder.rs
index 2b40348..108943f 100644
--- a/src/protocol/rc6/encoder.rs
+++ b/src/protocol/rc6/encoder.rs
@@ -2,7 +2,7 @@ use crate::{protocol::Rc6, sender::ProtocolEncoder};
 
 impl<const F: u32> ProtocolEncoder<F> for Rc6 {
     type EncoderData = [u32; 1];
-    const DATA: Self::EncoderData = [((444 * F) / 1_000_000)];
+    const DATA: Self::EncoderData = [(444 * F as u64 / 1_000_000) as u32];
 
     fn encode(cmd: &Self::Cmd, b: &mut [u32]) -> usize {
         use Level::*;
-- 
2.43.0


From 8b71736ba4f540d724190ffb34a6d73b260db348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:36 +0000
Subject: [PATCH 04/19] fix: keep the last bit of Denon commands

Bit 47 was read but never stored.
---
 src/protocol/denon/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/denon/mod.rs b/src/protocol/denon/mod.rs
index 00fcb5b..582501b 100644
--- a/src/protocol/denon/mod.rs
+++ b/src/protocol/denon/mod.rs
@@ -86,7 +86,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Denon, Mono> for DenonDecoder<Mono> {
                 (DenonState::Idle,          PulseWidth::Sync)   => DenonState::Data(0),
                 (DenonState::Idle,          _)                  => DenonState::Idle,
                 (DenonState::Data(47),      PulseWidth::Zero)   => DenonState::Done,
-                (DenonState::Data(47),      PulseWidth::One)    => DenonState::Done,
+                (DenonState::Data(47),      PulseWidth::One)    => { self.buf |= 1 << 47; DenonState::Done }
                 (DenonState::Data(idx),     PulseWidth::Zero)   => DenonState::Data(idx + 1),
                 (DenonState::Data(idx),     PulseWidth::One)    => { self.buf |= 1 << idx; DenonState::Data(idx + 1) }
                 (DenonState::Data(_ix),     _)                  => DenonState::Idle,
-- 
2.43.0


From fa65e051380fb4ec8f38bd6e434570f757ee625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:37 +0000
Subject: [PATCH 05/19] fix: start every Denon command with an empty buffer

After a frame that failed half-way the decoder went back to Idle with the
bits received so far, and they ended up in the next command.
---
 src/protocol/denon/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/denon/mod.rs b/src/protocol/denon/mod.rs
index 582501b..25555b8 100644
--- a/src/protocol/denon/mod.rs
+++ b/src/protocol/denon/mod.rs
@@ -83,7 +83,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Denon, Mono> for DenonDecoder<Mono> {
                 .unwrap_or(PulseWidth::Fail);
 
             self.state = match (self.state, pulsewidth) {
-                (DenonState::Idle,          PulseWidth::Sync)   => DenonState::Data(0),
+                (DenonState::Idle,          PulseWidth::Sync)   => { self.buf = 0; DenonState::Data(0) }
                 (DenonState::Idle,          _)                  => DenonState::Idle,
                 (DenonState::Data(47),      PulseWidth::Zero)   => DenonState::Done,
                 (DenonState::Data(47),      PulseWidth::One)    => { self.buf |= 1 << 47; DenonState::Done }
-- 
2.43.0


From 0fc9dd0c979949dcf95ea5225670574213005ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:39 +0000
Subject: [PATCH 06/19] fix: do not repeat a Nec command that was not received

A repeat frame after a frame that broke off, or with no frame before it,
was reported as the command made of the bits collected so far.
---
 src/protocol/nec/decoder.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/protocol/nec/decoder.rs b/src/protocol/nec/decoder.rs
index 6bf3bf5..ea40483 100644
--- a/src/protocol/nec/decoder.rs
+++ b/src/protocol/nec/decoder.rs
@@ -33,6 +33,7 @@ impl<Mono: InfraMonotonic, Cmd: NecCommandVariant> DecoderBuilder<Mono> for Nec<
         NecDecoder {
             state: NecState::Init,
             bitbuf: 0,
+            repeatable: false,
             cmd_type: Default::default(),
             dt_save: Mono::ZERO_DURATION,
             pulsespans: PulseSpans::new(freq, &pulselens::<Cmd>(), &TOL),
@@ -45,6 +46,8 @@ pub struct NecDecoder<Mono: InfraMonotonic, C = NecCommand> {
     state: NecState,
     // Data buffer
     bitbuf: u32,
+    // The data buffer holds a complete command
+    repeatable: bool,
     // Nec Command type
     cmd_type: PhantomData<C>,
     // Saved dt
@@ -100,8 +103,8 @@ where
                 .unwrap_or(PulseWidth::Invalid);
 
             let status = match (self.state, pulsewidth) {
-                (Init,              Sync)   => { self.bitbuf = 0; Receiving(0) },
-                (Init,              Repeat) => RepeatDone,
+                (Init,              Sync)   => { self.bitbuf = 0; self.repeatable = false; Receiving(0) },
+                (Init,              Repeat) if self.repeatable => RepeatDone,
                 (Init,              _)      => Init,
 
                 (Receiving(31),     One)    => { self.bitbuf |= 1 << 31; Done }
@@ -122,6 +125,7 @@ where
                 pulsewidth
             );
 
+            self.repeatable |= status == Done;
             self.state = status;
 
             self.dt_save = Mono::ZERO_DURATION;
-- 
2.43.0


From 9bcafa0bf49f3f28cb2cadbbbc94bf503b3acea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:40 +0000
Subject: [PATCH 07/19] fix: do not overflow when adding up the halves of a
 pulse

Two long durations, such as a stuck line and a long pause, overflowed: a
panic with overflow checks (always with fugit durations), otherwise a sum
that wrapped around to a short pulse.
---
 src/protocol/denon/mod.rs       | 2 +-
 src/protocol/nec/decoder.rs     | 2 +-
 src/protocol/sbp/mod.rs         | 2 +-
 src/receiver/time.rs            | 5 +++++
 src/receiver/time/fgt.rs        | 8 ++++++++
 src/receiver/time/primitives.rs | 8 ++++++++
 6 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/protocol/denon/mod.rs b/src/protocol/denon/mod.rs
index 25555b8..0b6c8aa 100644
--- a/src/protocol/denon/mod.rs
+++ b/src/protocol/denon/mod.rs
@@ -79,7 +79,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Denon, Mono> for DenonDecoder<Mono> {
     fn event(&mut self, rising: bool, dt: Mono::Duration) -> State {
 
         if rising {
-            let pulsewidth = self.spans.get::<PulseWidth>( self.dt_save + dt)
+            let pulsewidth = self.spans.get::<PulseWidth>(Mono::saturating_add(self.dt_save, dt))
                 .unwrap_or(PulseWidth::Fail);
 
             self.state = match (self.state, pulsewidth) {
diff --git a/src/protocol/nec/decoder.rs b/src/protocol/nec/decoder.rs
index ea40483..9a27a8b 100644
--- a/src/protocol/nec/decoder.rs
+++ b/src/protocol/nec/decoder.rs
@@ -97,7 +97,7 @@ where
 
         if rising {
 
-            let total_duration = dur + self.dt_save;
+            let total_duration = Mono::saturating_add(dur, self.dt_save);
 
             let pulsewidth = self.pulsespans.get(total_duration)
                 .unwrap_or(PulseWidth::Invalid);
diff --git a/src/protocol/sbp/mod.rs b/src/protocol/sbp/mod.rs
index 49551e8..3858946 100644
--- a/src/protocol/sbp/mod.rs
+++ b/src/protocol/sbp/mod.rs
@@ -138,7 +138,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Sbp, Mono> for SbpDecoder<Mono> {
         use SbpState::*;
 
         if rising {
-            let dt = self.since_rising + dt;
+            let dt = Mono::saturating_add(self.since_rising, dt);
             let pulsewidth = self.spans.get::<SbpPulse>(dt).unwrap_or(SbpPulse::NotAPulseWidth);
 
             self.state = match (self.state, pulsewidth) {
diff --git a/src/receiver/time.rs b/src/receiver/time.rs
index 96fe8fa..f35a4ba 100644
--- a/src/receiver/time.rs
+++ b/src/receiver/time.rs
@@ -20,6 +20,11 @@ pub trait InfraMonotonic: Sized {
 
     fn checked_sub(a: Self::Instant, b: Self::Instant) -> Option<Self::Duration>;
 
+    /// Sum of two durations, limited to the longest one that can be represented
+    fn saturating_add(a: Self::Duration, b: Self::Duration) -> Self::Duration {
+        a + b
+    }
+
     fn create_span(freq: u32, p: u32, t: u32) -> Span<Self::Duration>;
 }
 
diff --git a/src/receiver/time/fgt.rs b/src/receiver/time/fgt.rs
index 6e71079..88ce4ad 100644
--- a/src/receiver/time/fgt.rs
+++ b/src/receiver/time/fgt.rs
@@ -12,6 +12,10 @@ impl<const NOM: u32, const DENOM: u32> InfraMonotonic for Instant<u32, NOM, DENO
         a.checked_duration_since(b)
     }
 
+    fn saturating_add(a: Self::Duration, b: Self::Duration) -> Self::Duration {
+        Self::Duration::from_ticks(a.ticks().saturating_add(b.ticks()))
+    }
+
     fn create_span(_freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
         Span::<Self::Duration>::new(p.micros(), t)
     }
@@ -37,6 +41,10 @@ impl<const NOM: u32, const DENOM: u32> InfraMonotonic for Instant<u64, NOM, DENO
         a.checked_duration_since(b)
     }
 
+    fn saturating_add(a: Self::Duration, b: Self::Duration) -> Self::Duration {
+        Self::Duration::from_ticks(a.ticks().saturating_add(b.ticks()))
+    }
+
     fn create_span(_freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
         let p: u64 = p.into();
         Span::<Self::Duration>::new(p.micros(), t)
diff --git a/src/receiver/time/primitives.rs b/src/receiver/time/primitives.rs
index feedf93..5f6e7f8 100644
--- a/src/receiver/time/primitives.rs
+++ b/src/receiver/time/primitives.rs
@@ -13,6 +13,10 @@ impl InfraMonotonic for u32 {
         a.checked_sub(b)
     }
 
+    fn saturating_add(a: Self::Duration, b: Self::Duration) -> Self::Duration {
+        a.saturating_add(b)
+    }
+
     fn create_span(freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
         Span::<u32>::scaled(p, freq, t)
     }
@@ -28,6 +32,10 @@ impl InfraMonotonic for u64 {
         a.checked_sub(b)
     }
 
+    fn saturating_add(a: Self::Duration, b: Self::Duration) -> Self::Duration {
+        a.saturating_add(b)
+    }
+
     fn create_span(freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
         Span::<u64>::scaled(p, freq, t)
     }
-- 
2.43.0


From cf052642b62ca504c8a4a3988808f91620d7e7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:42 +0000
Subject: [PATCH 08/19] fix: zero-length pulses match no span

Unused entries of the span table are [0, 0], so in the Rc5 and Rc6 decoders
a zero duration counted as a pulse of 3 and 7 time units.
---
 src/receiver/time.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/receiver/time.rs b/src/receiver/time.rs
index f35a4ba..0d8460d 100644
--- a/src/receiver/time.rs
+++ b/src/receiver/time.rs
@@ -59,6 +59,11 @@ where
     }
 
     pub fn get<P: From<usize>>(&self, pl: Mono::Duration) -> Option<P> {
+        // The unused spans have zero length
+        if pl <= Mono::ZERO_DURATION {
+            return None;
+        }
+
         self.spans
             .iter()
             .position(|v| v.contains(pl))
-- 
2.43.0


From 361bae8f1157f2ef2164f74a21dbc739740b8c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:43 +0000
Subject: [PATCH 09/19] fix: decoders have a command only when done

ProtocolDecoder::command is documented to return None unless the state is
Done; Rc5, Rc6 and Sbp always returned a command.
---
 src/protocol/rc5/decoder.rs | 5 ++++-
 src/protocol/rc6/decoder.rs | 5 ++++-
 src/protocol/sbp/mod.rs     | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/protocol/rc5/decoder.rs b/src/protocol/rc5/decoder.rs
index 3a404d1..fe4285d 100644
--- a/src/protocol/rc5/decoder.rs
+++ b/src/protocol/rc5/decoder.rs
@@ -68,7 +68,10 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc5, Mono> for Rc5Decoder<Mono> {
     }
 
     fn command(&self) -> Option<Rc5Command> {
-        Some(Rc5Command::unpack(self.bitbuf))
+        match self.state {
+            Rc5State::Done => Some(Rc5Command::unpack(self.bitbuf)),
+            _ => None,
+        }
     }
 
     fn reset(&mut self) {
diff --git a/src/protocol/rc6/decoder.rs b/src/protocol/rc6/decoder.rs
index 76234d6..798266e 100644
--- a/src/protocol/rc6/decoder.rs
+++ b/src/protocol/rc6/decoder.rs
@@ -93,7 +93,10 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc6, Mono> for Rc6Decoder<Mono> {
     }
 
     fn command(&self) -> Option<Rc6Command> {
-        Some(Rc6Command::from_bits(self.data, self.toggle))
+        match self.state {
+            Rc6State::Done => Some(Rc6Command::from_bits(self.data, self.toggle)),
+            _ => None,
+        }
     }
 
     fn reset(&mut self) {
diff --git a/src/protocol/sbp/mod.rs b/src/protocol/sbp/mod.rs
index 3858946..6294fc5 100644
--- a/src/protocol/sbp/mod.rs
+++ b/src/protocol/sbp/mod.rs
@@ -170,7 +170,10 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Sbp, Mono> for SbpDecoder<Mono> {
         self.state.into()
     }
     fn command(&self) -> Option<SbpCommand> {
-        Some(SbpCommand::unpack(self.address, self.command))
+        match self.state {
+            SbpState::Done => Some(SbpCommand::unpack(self.address, self.command)),
+            _ => None,
+        }
     }
 
     fn reset(&mut self) {
-- 
2.43.0


From 5cced56254649de5806b7e889a2d30ff71a87707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:45 +0000
Subject: [PATCH 10/19] fix: let the 32 bit tick counter wrap around

The first edge after a wrap-around was given a duration of zero, which lost
the frame in which it happened.
---
 src/receiver/time/primitives.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/receiver/time/primitives.rs b/src/receiver/time/primitives.rs
index 5f6e7f8..a2de1a7 100644
--- a/src/receiver/time/primitives.rs
+++ b/src/receiver/time/primitives.rs
@@ -10,7 +10,8 @@ impl InfraMonotonic for u32 {
     const ZERO_DURATION: Self::Duration = 0;
 
     fn checked_sub(a: Self::Instant, b: Self::Instant) -> Option<Self::Duration> {
-        a.checked_sub(b)
+        // The counter wraps around
+        Some(a.wrapping_sub(b))
     }
 
     fn saturating_add(a: Self::Duration, b: Self::Duration) -> Self::Duration {
-- 
2.43.0


From 0c3886a918cd7324b1f808cdb6be1fe985e0dfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:46 +0000
Subject: [PATCH 11/19] fix: count polls in which the pin could not be read

The poll clock stood still on a pin error, so the pulse in which it happened
was measured too short.
---
 src/receiver/ppoll.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/receiver/ppoll.rs b/src/receiver/ppoll.rs
index 02f6dd4..464939d 100644
--- a/src/receiver/ppoll.rs
+++ b/src/receiver/ppoll.rs
@@ -87,7 +87,14 @@ where
     }
 
     pub fn poll(&mut self) -> Result<Option<Cmd>, Error<Pin::Error>> {
-        let edge = self.input.is_low().map_err(Error::Hal)?;
+        let edge = match self.input.is_low() {
+            Ok(edge) => edge,
+            Err(err) => {
+                // Time passes all the same
+                self.clock = self.clock.wrapping_add(1);
+                return Err(Error::Hal(err));
+            }
+        };
 
         self.poll_base(edge).map_err(Into::into)
     }
-- 
2.43.0


From e695211f0400a3ca86ffec89f0f24bce3774d2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:48 +0000
Subject: [PATCH 12/19] fix: go on with the rest of the buffer after an error

A garbled or rejected frame ended the iteration and hid all commands
recorded after it.
---
 src/receiver/iter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/receiver/iter.rs b/src/receiver/iter.rs
index 7398553..dbb5537 100644
--- a/src/receiver/iter.rs
+++ b/src/receiver/iter.rs
@@ -60,11 +60,12 @@ where
                 State::Done => {
                     let cmd = self.decoder.command();
                     self.decoder.reset();
-                    break cmd.map(|r| r.into());
+                    if let Some(cmd) = cmd {
+                        break Some(cmd.into());
+                    }
                 }
                 State::Error(_) => {
                     self.decoder.reset();
-                    break None;
                 }
             }
         }
-- 
2.43.0


From 7494b148708e2177a5cdb574a30d18cedf9e6fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:49 +0000
Subject: [PATCH 13/19] fix: keep the page in the command code of Apple
 commands

The page was shifted out of its u8.
---
 src/protocol/nec/apple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/nec/apple.rs b/src/protocol/nec/apple.rs
index e925129..a416a60 100644
--- a/src/protocol/nec/apple.rs
+++ b/src/protocol/nec/apple.rs
@@ -70,7 +70,7 @@ impl AddressCommand for AppleNecCommand {
     }
 
     fn command(&self) -> u32 {
-        u32::from((self.command_page << 7) | self.command)
+        (u32::from(self.command_page) << 7) | u32::from(self.command)
     }
 
     fn create(_addr: u32, _cmd: u32) -> Option<Self> {
-- 
2.43.0


From 4af19c86a2bd84fd21ca97982ed5e8e4275dccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:51 +0000
Subject: [PATCH 14/19] fix: refuse to create commands whose codes do not fit

Nec and Samsung cut address and command to 8 bits, Rc5 let them run into
each other when packed, so another command than the one asked for was sent.
---
 src/protocol/nec/samsung.rs  | 6 ++++--
 src/protocol/nec/standard.rs | 6 ++++--
 src/protocol/rc5/mod.rs      | 7 ++++++-
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/protocol/nec/samsung.rs b/src/protocol/nec/samsung.rs
index cd60a29..8193dc8 100644
--- a/src/protocol/nec/samsung.rs
+++ b/src/protocol/nec/samsung.rs
@@ -1,5 +1,7 @@
 //!NEC Samsung Command variant
 
+use core::convert::TryInto;
+
 use crate::{
     cmd::{AddressCommand, Command},
     protocol::nec::{NecCommandVariant, NecPulseLen, NEC_SAMSUNG_TIMING},
@@ -53,8 +55,8 @@ impl AddressCommand for SamsungNecCommand {
 
     fn create(addr: u32, cmd: u32) -> Option<Self> {
         Some(SamsungNecCommand {
-            addr: addr as u8,
-            cmd: cmd as u8,
+            addr: addr.try_into().ok()?,
+            cmd: cmd.try_into().ok()?,
             repeat: false,
         })
     }
diff --git a/src/protocol/nec/standard.rs b/src/protocol/nec/standard.rs
index e50d63e..dc80d2a 100644
--- a/src/protocol/nec/standard.rs
+++ b/src/protocol/nec/standard.rs
@@ -1,5 +1,7 @@
 //! The Standard NEC variant
 
+use core::convert::TryInto;
+
 use crate::{
     cmd::{AddressCommand, Command},
     protocol::nec::{NecCommandVariant, NecPulseLen, NEC_STANDARD_TIMING},
@@ -54,8 +56,8 @@ impl AddressCommand for NecCommand {
 
     fn create(addr: u32, cmd: u32) -> Option<Self> {
         Some(NecCommand {
-            addr: addr as u8,
-            cmd: cmd as u8,
+            addr: addr.try_into().ok()?,
+            cmd: cmd.try_into().ok()?,
             repeat: false,
         })
     }
diff --git a/src/protocol/rc5/mod.rs b/src/protocol/rc5/mod.rs
index 59ca5bb..a2ba056 100644
--- a/src/protocol/rc5/mod.rs
+++ b/src/protocol/rc5/mod.rs
@@ -90,7 +90,12 @@ impl AddressCommand for Rc5Command {
 
     fn create(addr: u32, cmd: u32) -> Option<Rc5Command> {
         let addr: u8 = addr.try_into().ok()?;
-        let cmd = cmd.try_into().ok()?;
+        let cmd: u8 = cmd.try_into().ok()?;
+
+        // 5 bit address and 6 bit command
+        if addr > 0x1F || cmd > 0x3F {
+            return None;
+        }
 
         Some(Rc5Command::new(addr, cmd, false))
     }
-- 
2.43.0


From 33eaee221eed5b2775855b1bdbbc83323b172b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:34 +0000
Subject: [PATCH 15/19] fix: scale the tolerance of pulses together with their
 length

The tolerance was taken of the length in ticks and rounded down, so that at
low clock rates it vanished (Rc6 at 20 kHz: 444 us had to be 8 ticks exactly)
and frames with perfect timing were lost. Lengths were scaled with the rate
cut to kHz or MHz, and with 32 bit fugit clocks the multiplication overflowed.
All clock types now get the same spans.
---
 src/protocol/utils.rs           | 14 ++++++--------
 src/receiver/time/fgt.rs        | 17 +++++++++++++----
 src/receiver/time/primitives.rs | 18 +++++++++++++-----
 3 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/protocol/utils.rs b/src/protocol/utils.rs
index 58b763d..7872dce 100644
--- a/src/protocol/utils.rs
+++ b/src/protocol/utils.rs
@@ -1,12 +1,10 @@
-pub(crate) const fn scale_with_samplerate(len: u32, mut samplerate: u32) -> u32 {
-    let mut div = 1_000_000;
-
-    while len.checked_mul(samplerate).is_none() {
-        div /= 1000;
-        samplerate /= 1000;
-    }
+pub(crate) const fn scale_with_samplerate(len: u32, samplerate: u32) -> u32 {
+    (len as u64 * samplerate as u64 / 1_000_000) as u32
+}
 
-    (len * samplerate) / div
+/// The same, rounded up
+pub(crate) const fn scale_up_with_samplerate(len: u32, samplerate: u32) -> u32 {
+    (len as u64 * samplerate as u64).div_ceil(1_000_000) as u32
 }
 
 #[cfg(test)]
diff --git a/src/receiver/time/fgt.rs b/src/receiver/time/fgt.rs
index 88ce4ad..cbabbeb 100644
--- a/src/receiver/time/fgt.rs
+++ b/src/receiver/time/fgt.rs
@@ -1,4 +1,4 @@
-use fugit::{Duration, ExtU32, ExtU64, Instant};
+use fugit::{Duration, Instant};
 
 use crate::receiver::time::{InfraMonotonic, Span};
 
@@ -17,7 +17,12 @@ impl<const NOM: u32, const DENOM: u32> InfraMonotonic for Instant<u32, NOM, DENO
     }
 
     fn create_span(_freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
-        Span::<Self::Duration>::new(p.micros(), t)
+        let span = Span::<u32>::scaled(p, DENOM / NOM, t);
+
+        Span {
+            low: Self::Duration::from_ticks(span.low),
+            high: Self::Duration::from_ticks(span.high),
+        }
     }
 }
 
@@ -46,8 +51,12 @@ impl<const NOM: u32, const DENOM: u32> InfraMonotonic for Instant<u64, NOM, DENO
     }
 
     fn create_span(_freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
-        let p: u64 = p.into();
-        Span::<Self::Duration>::new(p.micros(), t)
+        let span = Span::<u64>::scaled(p, DENOM / NOM, t);
+
+        Span {
+            low: Self::Duration::from_ticks(span.low),
+            high: Self::Duration::from_ticks(span.high),
+        }
     }
 }
 
diff --git a/src/receiver/time/primitives.rs b/src/receiver/time/primitives.rs
index a2de1a7..d2bb04a 100644
--- a/src/receiver/time/primitives.rs
+++ b/src/receiver/time/primitives.rs
@@ -1,5 +1,5 @@
 use crate::{
-    protocol::utils::scale_with_samplerate,
+    protocol::utils::{scale_up_with_samplerate, scale_with_samplerate},
     receiver::time::{InfraMonotonic, Span},
 };
 
@@ -52,8 +52,12 @@ impl Span<u32> {
     }
 
     pub const fn scaled(pulse: u32, freq: u32, tol: u32) -> Self {
-        let base = scale_with_samplerate(pulse, freq);
-        Self::new(base, tol)
+        let tol = pulse * tol / 100;
+
+        Span {
+            low: scale_with_samplerate(pulse - tol, freq),
+            high: scale_up_with_samplerate(pulse + tol, freq),
+        }
     }
 }
 
@@ -69,7 +73,11 @@ impl Span<u64> {
         }
     }
     pub const fn scaled(pulse: u32, freq: u32, tol: u32) -> Self {
-        let base = scale_with_samplerate(pulse, freq);
-        Self::new(base, tol)
+        let span = Span::<u32>::scaled(pulse, freq, tol);
+
+        Span {
+            low: span.low as u64,
+            high: span.high as u64,
+        }
     }
 }
-- 
2.43.0


From 52e87a8b2ed012e1caa5dc136203da9e6094415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:36 +0000
Subject: [PATCH 16/19] fix: forget the first half of a Sbp pulse once it is
 used

After a missed falling edge it was added to the next pulse as well.
---
 src/protocol/sbp/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/protocol/sbp/mod.rs b/src/protocol/sbp/mod.rs
index 6294fc5..57f236c 100644
--- a/src/protocol/sbp/mod.rs
+++ b/src/protocol/sbp/mod.rs
@@ -163,6 +163,8 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Sbp, Mono> for SbpDecoder<Mono> {
                 (Done,          _)      => Done,
                 (Err(err),      _)      => Err(err),
             };
+
+            self.since_rising = Mono::ZERO_DURATION;
         } else {
             self.since_rising = dt;
         }
-- 
2.43.0


From 755bd2b80b86cd9c821f5485fa16430efff67d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:28 +0000
Subject: [PATCH 17/19] fix: reject Rc5 and Rc6 frames with a missing mid-bit
 transition

---
 src/protocol/rc5/decoder.rs | 5 +++++
 src/protocol/rc6/decoder.rs | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/protocol/rc5/decoder.rs b/src/protocol/rc5/decoder.rs
index fe4285d..6ddd545 100644
--- a/src/protocol/rc5/decoder.rs
+++ b/src/protocol/rc5/decoder.rs
@@ -46,6 +46,11 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc5, Mono> for Rc5Decoder<Mono> {
                 Data(12)
             }
 
+            // Every bit has a transition in its middle
+            (Data(bit), _, Some(_)) if self.clock > 2 * (13 - usize::from(bit)) => {
+                Err(DecodingError::Data)
+            }
+
             (Data(0), true, Some(_)) if is_odd => {
                 self.bitbuf |= 1;
                 Done
diff --git a/src/protocol/rc6/decoder.rs b/src/protocol/rc6/decoder.rs
index 798266e..6644901 100644
--- a/src/protocol/rc6/decoder.rs
+++ b/src/protocol/rc6/decoder.rs
@@ -59,6 +59,8 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc6, Mono> for Rc6Decoder<Mono> {
             (LeadingPaus,   true,     Some(2))      => HeaderData(3),
             (LeadingPaus,   _,        _)            => Idle,
 
+            // Every bit has a transition in its middle
+            (HeaderData(n), _,          Some(_)) if self.clock > 15 - 2 * n as usize => Idle,
             (HeaderData(n), _,          Some(_)) if odd => {
                 self.headerdata |= if rising { 0 } else { 1 } << n;
                 if n == 0 {
@@ -72,10 +74,13 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc6, Mono> for Rc6Decoder<Mono> {
             (HeaderData(_), _,          None)       => Idle,
 
             (Trailing,      false,      Some(3))    => { self.toggle = true; Data(15) }
-            (Trailing,      true,       Some(2))    => { self.toggle = false; Data(15) }
+            (Trailing,      true,       Some(2)) if self.clock == 18 => { self.toggle = false; Data(15) }
             (Trailing,      false,      Some(1))    => Trailing,
             (Trailing,      _,          _)          => Idle,
 
+            (Data(n),       _,          Some(_)) if self.clock > 51 - 2 * n as usize => Rc6Err(DecodingError::Data),
+            // The halves of the trailing bit are two units long
+            (Data(15),      _,          Some(1)) if self.clock == 19 => Rc6Err(DecodingError::Data),
             (Data(0),       true,       Some(_)) if odd => Done,
             (Data(0),       false,      Some(_)) if odd => { self.data |= 1; Done }
             (Data(0),       _,          Some(_))        => Data(0),
-- 
2.43.0


From f053f011f5046f056dd94e36595be42c17359fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:47 +0000
Subject: [PATCH 18/19] fix: build the Sbp protocol without the remotes feature

---
 src/protocol/sbp/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/protocol/sbp/mod.rs b/src/protocol/sbp/mod.rs
index 57f236c..203ddbf 100644
--- a/src/protocol/sbp/mod.rs
+++ b/src/protocol/sbp/mod.rs
@@ -9,7 +9,6 @@
 
 use core::convert::TryInto;
 
-#[cfg(feature = "remotes")]
 use crate::receiver::{DecodingError, ProtocolDecoder, State};
 use crate::{
     cmd::{AddressCommand, Command},
-- 
2.43.0


From 73fb77867c2ab3442aa79ae19e4eea1112e00950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:37 +0000
Subject: [PATCH 19/19] fix: build the polled receiver with embedded-hal alone

---
 src/receiver/ppoll.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/receiver/ppoll.rs b/src/receiver/ppoll.rs
index 464939d..58df5e4 100644
--- a/src/receiver/ppoll.rs
+++ b/src/receiver/ppoll.rs
@@ -1,6 +1,6 @@
 use core::marker::PhantomData;
 
-#[cfg(feature = "embedded")]
+#[cfg(feature = "embedded-hal")]
 use embedded_hal::digital::v2::InputPin;
 
 use crate::{
-- 
2.43.0

