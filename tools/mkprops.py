#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the prose stays editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "What the sender transmits is what the receiver reports, once and in order",
  "When the library's sender transmits commands over a clean channel, at least 20 ms apart, a receiver of the same protocol reports each of them exactly once, in the order sent, with every field as sent (a NEC command's repeat flag is not transmitted: it goes out as a full frame), and reports nothing else. "
  "This holds for NEC (standard, 16-bit, Samsung, raw), RC5 and RC6, for any mix of protocols on one sender, and for every combination of sender tick rate, receiver clock rate, clock skew and interrupt latency that keeps each interval within 4.5% of nominal (8% for RC5; for RC6 5%, or 2.5% when the receiver clock is slower than 100 kHz). "
  "The pulse data a sender holds for a loaded command, handed to a buffer receiver of the same rate, yields that command. A command built from a numeric address and command code is either refused or arrives with exactly those codes.",
  ["inputs","schedules","configurations","histories"],
  "For every command sequence, every moment at which the application loads the next one, every sender tick rate / receiver clock rate / skew / latency inside the budget, every reception front end.",
  "Tests encode one command into an array and feed that same array to a decoder at the same rate (20k, 40k, 48M), one fresh decoder per command, one front end; no test ever ticks a sender, sends two commands, or uses two different clocks.",
  ["src/sender/hal.rs","src/sender/senders.rs","src/sender/buffer.rs","src/protocol/nec/encoder.rs","src/protocol/rc5/encoder.rs","src/protocol/rc6/encoder.rs","src/receiver.rs","src/protocol/nec/decoder.rs","src/protocol/rc5/decoder.rs","src/protocol/rc6/decoder.rs","src/cmd.rs"],
  [("tick-driven frame playback","src/sender/senders.rs PulsedataSender::tick"),("encode with ticks computed from the sender frequency","src/protocol/*/encoder.rs"),("decoder state machines with tolerance spans","src/protocol/*/decoder.rs, src/receiver/time.rs"),("reset after every delivered command","src/receiver.rs event_edge")],
  [("PulsedataBuffer","pulse lengths of the loaded command","src/sender/buffer.rs"),("bitbuf/data/state","bits collected so far","src/protocol/*/decoder.rs")],
  ["PwmPin enable/disable calls","Receiver/PeriodicPoll/BufferInputReceiver results"])

p("C02", "The transmitter emits exactly the loaded frame and nothing else",
  "From its first tick on, also when the output pin was on before, the sender's output is off except while a loaded command is being transmitted, and a transmission is exactly the protocol's sequence of marks and spaces for that command: every mark and space, the closing mark included, is within one tick per protocol time unit of its nominal length at every tick rate, and it ends with the output off and the sender ready. "
  "Neither commands sent earlier, nor the buffer size, nor idle time before loading, nor the tick counter's value or wrap-around influence the waveform. "
  "A load while a transmission is under way leaves that transmission unchanged (loading the low-level pulse sender, which has no such guard, gives up the frame under way and sends the new one whole), and a late tick of the pulse sender lengthens only the interval it falls in.",
  ["inputs","schedules","configurations","histories"],
  "For every protocol with an encoder, every command, every tick rate, every interleaving of load and tick calls from power-up on, every buffer size that fits, every starting value of the tick counter.",
  "No test calls tick; encoders are only compared with decoders through an array, so what the output pin does before, between and after frames is unobserved.",
  ["src/sender/hal.rs","src/sender/senders.rs","src/sender/buffer.rs","src/protocol/nec/encoder.rs","src/protocol/rc5/encoder.rs","src/protocol/rc6/encoder.rs"],
  [("status/pos/ts_lastedge stepping","src/sender/senders.rs tick"),("load only when idle","src/sender/hal.rs load"),("pulse length tables","src/protocol/*/encoder.rs DATA")],
  [("status","Idle / Transmit(level)","src/sender/senders.rs"),("pos, ts_lastedge","next pulse and time of last edge","src/sender/senders.rs"),("offset","length of the loaded frame","src/sender/buffer.rs")],
  ["PwmPin enable/disable calls per tick","PulsedataSender::tick status"])

p("C03", "Every frame within the timing budget is decoded, exactly once",
  "For every supported protocol (NEC standard, 16-bit, Samsung, Apple and raw; RC5; RC6; Samsung Blu-ray; Denon), frames from any remote control whose intervals stay within 4.5% of nominal (8% for RC5; for RC6 5%, or 2.5% when the receiver clock is slower than 100 kHz) are each reported exactly once with the transmitted bits, whatever the gap of at least 20 ms before them. A receiver that hears nothing but such frames of its own protocol reports no error. "
  "For the pulse-distance protocols (all but RC5 and RC6) only the distance between starts of marks counts, so a receiver module that lengthens or shortens marks by up to 150 microseconds changes nothing.",
  ["inputs","schedules","configurations","histories"],
  "For every bit pattern, every per-interval timing error inside the budget (oscillator skew, edge jitter, demodulator stretch), every gap, every front end.",
  "Tests replay a handful of recorded frames; SBP has no test at all, Denon only counts frames, Apple never goes through a decoder.",
  ["src/protocol/nec/decoder.rs","src/protocol/rc5/decoder.rs","src/protocol/rc6/decoder.rs","src/protocol/sbp/mod.rs","src/protocol/denon/mod.rs","src/receiver/time.rs","src/receiver/time/primitives.rs","src/receiver/time/fgt.rs"],
  [("pulse spans with tolerance","src/receiver/time.rs PulseSpans"),("bit assembly","protocol decoders event()")],
  [("bitbuf, buf, address/command, data","bits so far","protocol decoders")],
  ["receiver results"])

p("C04", "A receiver recovers: after faults and 20 ms of quiet, the next frame decodes",
  "Whatever a receiver saw before (noise, truncated or colliding frames, lost, merged or spurious interrupts, a stuck line, dropped polls), once the line has been idle for at least 20 ms the next well-formed frame is reported correctly at the first attempt. "
  "What a receiver reports after such a quiet period is the same as what a newly created receiver would report, NEC repeat frames excepted.",
  ["fault_sequences","histories","schedules","inputs"],
  "For every history of edges and faults, every protocol and front end, every frame that follows.",
  "Two tests contain one recorded disturbed frame each; no test injects a fault at a chosen bit or checks the data decoded afterwards.",
  ["src/protocol/nec/decoder.rs","src/protocol/rc5/decoder.rs","src/protocol/rc6/decoder.rs","src/protocol/sbp/mod.rs","src/protocol/denon/mod.rs","src/receiver.rs","src/receiver/ppoll.rs"],
  [("reset on error","src/receiver.rs event_edge, src/receiver/decoder.rs event_total"),("resynchronisation on out-of-range intervals","protocol decoders event()")],
  [("decoder state","partial frame","protocol decoders")],
  ["receiver results"])

p("C05", "No phantom commands: every report is backed by a complete frame on the line",
  "A receiver reports a command only at the edge that completes a frame of its protocol: the observed intervals from the frame's header up to that edge each match the protocol's symbol within 30% (20% for RC6) plus two clock ticks, with an edge in the middle of every bit for RC5 and RC6, and the bits they carry are the command's. "
  "Noise, frames of other protocols, truncated frames, glitches of zero or tiny length, and frames with an interval outside those limits never produce a report.",
  ["fault_sequences","histories","inputs"],
  "For every sequence of alternating edges, in particular frames with a single interval, edge or bit disturbed at every position, mixtures of protocols and splices of partial frames.",
  "Tests check that good recordings decode; only one recorded foreign frame is checked to be ignored.",
  ["src/protocol/nec/decoder.rs","src/protocol/rc5/decoder.rs","src/protocol/rc6/decoder.rs","src/protocol/sbp/mod.rs","src/protocol/denon/mod.rs","src/receiver/time.rs"],
  [("span lookup","src/receiver/time.rs PulseSpans::get"),("state machines reject unexpected symbols","protocol decoders event()"),("clearing of collected bits","protocol decoders reset()")],
  [("bits collected so far","must belong to one frame","protocol decoders")],
  ["receiver results"])

p("C06", "NEC repeats refer to the last command frame, never to garbled data",
  "On the NEC family a repeat frame is reported as the command of the most recent frame whose header was recognised, with the repeat flag set, provided that frame was received completely and correctly; if that frame was cut short or garbled, or no frame was ever received, the repeat is not reported at all. "
  "A full command frame is always reported with the repeat flag clear, also when it carries the same command again.",
  ["histories","fault_sequences","inputs"],
  "For every sequence of command frames, repeat frames and disturbances at any bit, for all NEC variants.",
  "One recording with a single good command followed by repeats is tested; nothing covers a repeat after a garbled frame, after reset or at power-up.",
  ["src/protocol/nec/decoder.rs","src/protocol/nec/standard.rs","src/protocol/nec/nec16.rs","src/protocol/nec/samsung.rs","src/protocol/nec/apple.rs","src/protocol/nec/raw.rs"],
  [("bits kept across reset for repeats","src/protocol/nec/decoder.rs reset/command")],
  [("bitbuf","bits of the last command frame","src/protocol/nec/decoder.rs")],
  ["receiver results (repeat flag)"])

p("C07", "All reception front ends report the same commands for the same signal",
  "Fed with the same edges, the event-driven receiver (durations, timestamps, explicit edge, active-low pin), the periodically polled receiver, the buffer receiver, the stand-alone decoder and receivers made by the builder report the same sequence of commands, and the event-driven and polled ones the same errors, independent of the clock representation (32 or 64 bit integers, fugit instants). "
  "In particular a disturbance inside a capture buffer never hides the commands recorded after it.",
  ["inputs","histories","configurations","schedules"],
  "For every edge sequence (clean, noisy, erroneous), every protocol, every front end and clock type, every way of splitting the work into calls.",
  "Each front end is tested with one or two recordings of one protocol; none are compared with each other.",
  ["src/receiver.rs","src/receiver/ppoll.rs","src/receiver/bufferinput.rs","src/receiver/iter.rs","src/receiver/builder.rs","src/receiver/decoder.rs","src/receiver/time/fgt.rs","src/receiver/time/primitives.rs"],
  [("shared decoder behind different drivers","src/receiver.rs event_edge, src/receiver/ppoll.rs poll_base, src/receiver/iter.rs next")],
  [("prev_instant / last_edge / pos","driver-side clock","src/receiver.rs, src/receiver/ppoll.rs, src/receiver/iter.rs")],
  ["results of all front ends"])

p("C08", "A multi-protocol receiver behaves as its independent single receivers",
  "For every history of edges, slot i of a multi-protocol receiver reports exactly what a stand-alone receiver of protocol i would report at that same edge, whatever the other protocols in it see, decode or reject; the iterator form yields exactly the filled slots in order. "
  "A failing pin read is returned as the pin's error and affects none of the slots.",
  ["histories","fault_sequences","configurations"],
  "For every set of two to six protocols, every interleaving of frames of different protocols, noise and pin faults.",
  "No test uses the multi receiver.",
  ["src/receiver/multi.rs","src/cmd.rs"],
  [("per-slot receivers driven by the same edge","src/receiver/multi.rs ReceiverWrapper::event")],
  [("receivers","one decoder per slot","src/receiver/multi.rs")],
  ["MultiReceiver::event_generic, event_generic_iter, event, event_iter"])

p("C09", "A failing pin read is reported and costs nothing but that read",
  "When reading the input pin fails, the call returns that pin's error and the receiver is otherwise unaffected: repeating the event-driven call with the same duration or timestamp gives the result it would have given, and a polled receiver keeps counting time, so a failed poll counts like one that saw no change: failed polls that hide no edge change nothing about what is reported afterwards, and an edge they hide is taken to happen at the next poll that succeeds.",
  ["fault_sequences","schedules","histories"],
  "For every placement and burst length of pin read errors inside and between frames, for event-driven, timestamp-driven, polled and multi receivers.",
  "No test has a pin that fails.",
  ["src/receiver.rs","src/receiver/ppoll.rs","src/receiver/multi.rs","src/receiver/error.rs"],
  [("error returned before any state change","src/receiver.rs event/event_instant"),("poll clock","src/receiver/ppoll.rs poll")],
  [("clock, last_edge, edge","poll counter and last edge","src/receiver/ppoll.rs"),("prev_instant","time of last edge","src/receiver.rs")],
  ["receiver results and errors"])

p("C10", "No signal, timing or call history crashes or wedges a receiver",
  "No sequence of edges, durations, timestamps or polls, however extreme (zero, huge, backwards, repeated levels, years of noise), makes any receiver panic, overflow or loop forever, at any supported clock rate and clock type. "
  "A line stuck on for a long time and then off for a long time is never mistaken for a short pulse, whatever the sum of the two durations.",
  ["inputs","histories","configurations","fault_sequences"],
  "For every event history over the full range of durations and timestamps, every protocol, clock type and front end, with overflow checks on.",
  "Tests use durations of a few milliseconds; the largest is about 1.5 s.",
  ["src/protocol/nec/decoder.rs","src/protocol/sbp/mod.rs","src/protocol/denon/mod.rs","src/protocol/rc5/decoder.rs","src/protocol/rc6/decoder.rs","src/receiver/time.rs","src/receiver/time/primitives.rs","src/receiver/time/fgt.rs","src/receiver/ppoll.rs","src/receiver.rs","src/protocol/utils.rs"],
  [("duration arithmetic","protocol decoders event(), src/receiver/time/*"),("frequency scaling","src/protocol/utils.rs")],
  [("dt_save / since_rising","saved first half of a pulse","protocol decoders")],
  ["receiver results, panics"])

p("C11", "Clock wrap-around, long idle and clock steps cost at most the frame in flight",
  "For a timestamp-driven receiver the wrap-around of a 32-bit tick counter at any point, also inside a frame, and for a polled receiver the wrap-around of its poll counter, change nothing about what is reported as long as the line is never idle for 2^32 ticks or more. "
  "A clock stepping backwards or forwards at any point costs at most the frame during which, or directly before which, it happens, and every later frame is reported correctly.",
  ["schedules","fault_sequences","histories"],
  "For every position of the wrap or step relative to the frames, every protocol, 32-bit integer and fugit clocks, every idle length below 2^32 ticks.",
  "No test uses timestamps at all, nor more than about 86000 polls.",
  ["src/receiver.rs","src/receiver/ppoll.rs","src/receiver/time/primitives.rs","src/receiver/time/fgt.rs"],
  [("instant difference","src/receiver/time/* checked_sub, src/receiver.rs event_instant"),("wrapping poll counter","src/receiver/ppoll.rs poll_base")],
  [("prev_instant","previous timestamp","src/receiver.rs"),("clock, last_edge","poll counter","src/receiver/ppoll.rs")],
  ["receiver results"])

p("C12", "Redundancy is honoured: corrupted Apple and Blu-ray frames never pass as valid",
  "An Apple frame is reported only if its vendor code and odd parity are right, and a Samsung Blu-ray command is marked valid exactly when its command byte and inverted copy agree, for every frame a corrupting channel can produce. "
  "The fields reported (Apple page, command and device id; Blu-ray address and command; raw bits for NEC debug and all 48 Denon bits) are those carried by the frame, and one rejected frame does not keep later good ones from being reported.",
  ["fault_sequences","inputs","histories"],
  "For every bit pattern, every number and placement of bits flipped in transit, every sequence of good and corrupted frames.",
  "Apple frames are only unpacked from ten constants, never with an error; SBP has no test; Denon bits are printed, not checked.",
  ["src/protocol/nec/apple.rs","src/protocol/nec/decoder.rs","src/protocol/nec/raw.rs","src/protocol/sbp/mod.rs","src/protocol/denon/mod.rs"],
  [("validate/unpack","src/protocol/nec/apple.rs"),("valid flag","src/protocol/sbp/mod.rs SbpCommand::unpack")],
  [("valid","checksum ok","src/protocol/sbp/mod.rs")],
  ["receiver results"])

p("C13", "Pressing a button on a modelled remote yields that button's action",
  "For every remote control model and every action it lists, the command the model encodes for that action, sent by the sender and received over a clean channel by a receiver configured with the same model, is reported with that action (the Apple remote is receive-only: its buttons are sent by the real remote and its model encodes nothing); NEC repeats while the button is held keep the action and are marked as repeats. "
  "Commands for another device address, or with a code the model does not list, are reported with no action.",
  ["inputs","histories","schedules"],
  "For every remote model, every press/hold/release sequence interleaved with other remotes on the same channel, every front end that supports button mapping.",
  "One button of one remote is checked from a recording; encode is never tested.",
  ["src/remotecontrol/mod.rs","src/remotecontrol/mapper.rs","src/remotecontrol/nec/samsungtv.rs","src/remotecontrol/nec/specialformp3.rs","src/remotecontrol/nec/apple2009.rs","src/remotecontrol/rc5/cdplayer.rs","src/remotecontrol/sbp/blurayplayer.rs","src/receiver/builder.rs"],
  [("address check and table lookup","src/remotecontrol/mod.rs decode/encode"),("mapping at delivery","src/remotecontrol/mapper.rs From")],
  [("BUTTONS, ADDRESS","model tables","src/remotecontrol/*/*.rs")],
  ["Button::action, Button::command, Button::is_repeat"])

p("C14", "The protocol-independent view of a command loses no identity",
  "The generic command delivered by a multi-protocol receiver names the protocol of the frame actually received and carries that frame's address, command code and NEC repeat state unchanged (for Denon, all its bits), so two frames of one protocol that differ in address or command code never become indistinguishable in it. "
  "For Apple remotes, which have no address, the command code includes the command page; the pairing id is not part of the generic view, and the repeat state of the other protocols is not specified.",
  ["inputs","histories"],
  "For every frame of every protocol with a generic view, in every slot of a multi receiver and every mixture of frames.",
  "AnyCommand is never constructed in a test.",
  ["src/cmd.rs","src/receiver/multi.rs","src/protocol/nec/apple.rs","src/protocol/nec/standard.rs","src/protocol/nec/samsung.rs","src/protocol/rc5/mod.rs","src/protocol/rc6/cmd.rs","src/protocol/sbp/mod.rs","src/protocol/denon/mod.rs"],
  [("From<Cmd> for AnyCommand","src/cmd.rs, src/protocol/denon/mod.rs"),("address()/command()/is_repeat()","protocol command types")],
  [],
  ["MultiReceiver results"])

p("C15", "The decoder contract: commands only when done, reset means fresh",
  "A stand-alone decoder offers a command only when its last event reported completion, in every other state it offers none, and its all-in-one event call reports exactly what stepping it by hand would. "
  "After a reset at any point, in mid-frame or after completion or error, it behaves on all later edges as a newly built decoder, except that NEC decoders may still resolve repeat frames against the last completed command.",
  ["histories","inputs","schedules"],
  "For every edge history, every point at which the owner resets, queries or abandons a frame, every protocol and clock type.",
  "No test calls reset, or command outside of completion.",
  ["src/receiver/decoder.rs","src/protocol/nec/decoder.rs","src/protocol/rc5/decoder.rs","src/protocol/rc6/decoder.rs","src/protocol/sbp/mod.rs","src/protocol/denon/mod.rs"],
  [("command()/reset()/event_total()","src/receiver/decoder.rs and protocol decoders")],
  [("decoder state","progress through a frame","protocol decoders")],
  ["ProtocolDecoder::event, command, reset, event_total"])

p("C16", "Decoding does not depend on the clock rate",
  "A frame inside the timing budget is decoded to the same command at every receiver clock or poll rate from 20 kHz up to 1 GHz, whatever the phase of the clock relative to the signal, for integer and fugit clocks alike; rates that are not whole kilohertz or megahertz are no exception. "
  "Likewise a sender produces the same waveform, up to one tick per protocol time unit, at every tick rate from 20 kHz up.",
  ["configurations","inputs","schedules"],
  "For every clock rate and phase, every protocol, every bit pattern.",
  "Three round rates (20 kHz, 40 kHz, 48 MHz) are tested, always with sender and receiver sharing rate and rounding.",
  ["src/receiver/time/primitives.rs","src/receiver/time/fgt.rs","src/protocol/utils.rs","src/protocol/nec/encoder.rs","src/protocol/rc5/encoder.rs","src/protocol/rc6/encoder.rs","src/receiver/builder.rs"],
  [("microseconds to ticks","src/protocol/utils.rs scale_with_samplerate, fugit micros, encoder calc_ticks/calc_freq")],
  [("spans","accepted tick ranges","src/receiver/time.rs")],
  ["receiver results, PwmPin calls"])

p("C17", "Protocol numbers survive conversion",
  "Converting a protocol identifier to its number and back gives the same identifier, and unknown numbers map to the placeholder.",
  ["inputs"], "For every 8-bit number.",
  "Not tested; 256 cases of a constant table.",
  ["src/protocol.rs"], [("From<u8>","src/protocol.rs")], [], ["ProtocolId"])

p("C18", "Every combination of cargo features builds and behaves like the default",
  "The crate compiles with every subset of its features (log and defmt exclude each other), each subset offers what its features promise, and everything offered reports on every signal, and sends for every command, exactly what it does with the default features: whichever other protocols, remote models, embedded-hal, fugit or logging features are enabled, and whether or not a logger listens.",
  ["inputs","configurations","histories"], "For every feature subset and every signal history.",
  "Tests build the default feature set only.",
  ["Cargo.toml","src/lib.rs","src/fmt.rs","src/protocol.rs","src/receiver.rs","src/receiver/ppoll.rs","src/receiver/time.rs","src/receiver/time/primitives.rs","src/sender/mod.rs"],
  [("cfg(feature)","src/**"),("log statements without effects","src/fmt.rs and its uses")],
  [("log levels","whether arguments of a log statement are evaluated","src/fmt.rs")], ["receiver results","sender results"])

p("C19", "Relays pass commands on unchanged",
  "A command reported by a receiver can be loaded into a sender as it is, and the frame then transmitted carries everything the receiver reported: a chain of receive-and-resend relays, each on clocks of its own, delivers to its last receiver exactly the commands received by the first, in order and each once, with NEC repeats arriving as the full command they stand for. "
  "Timing errors do not add up from hop to hop, and noise, truncated frames, restarts and power losses of a relay cost at most the frame they hit and, for a restarted NEC receiver, the repeats that refer to frames before the restart. "
  "Passing on the protocol-independent view instead (address and command code, for NEC, Samsung, RC5 and RC6) preserves both codes.",
  ["inputs","schedules","configurations","histories","fault_sequences","crash_points"],
  "For every frame sequence, every number of hops, every receiver front end and clock and sender rate of each hop inside the timing budget, every processing delay, every point of a power loss.",
  "No test feeds what a receiver reported into a sender, and none has more than one party.",
  ["src/receiver.rs","src/receiver/ppoll.rs","src/sender/hal.rs","src/sender/senders.rs","src/cmd.rs","src/protocol/nec/standard.rs","src/protocol/nec/nec16.rs","src/protocol/nec/samsung.rs","src/protocol/nec/raw.rs","src/protocol/rc5/mod.rs","src/protocol/rc6/cmd.rs"],
  [("unpack on reception, pack on transmission","src/protocol/nec/*.rs, src/protocol/rc5/mod.rs, src/protocol/rc6"),("generic view and create","src/cmd.rs AnyCommand, AddressCommand::create")],
  [("command fields","what one frame carries","src/protocol/*")],
  ["receiver results, PwmPin calls"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
