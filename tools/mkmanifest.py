#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection (seeded search)"
NOTE = {
"C01": "Seeded end-to-end runs of the real Sender and receivers on separate skewed clocks against a reference model of the waveforms; sampled, not exhaustive. The channel, pins and timers are stubs.",
"C02": "Every tick of the real senders' output is compared with an independent nominal waveform, with loads while busy, aborts, restarts and counter wraps at seeded points; 32 tick rates, 5 buffer sizes.",
"C03": "Reference remotes with skew, jitter and mark stretch inside the stated budget against the real receivers on skewed clocks with latency; sampled.",
"C04": "Seeded fault sequences (12 kinds) before quiet and a clean frame, judged against the reference and against a receiver created in the quiet time; sampled.",
"C05": "Every command reported on seeded disturbed edge histories must be backed by a frame found by an independent lenient matcher; the limits are 30% (20% RC6) plus two ticks.",
"C06": "Histories of frames, repeats, frames garbled at a seeded interval, noise and restarts against a one-cell memory model; garbled means outside every symbol of the protocol.",
"C07": "The same seeded history through up to 14 front ends on several clock types, results compared event by event; polled ones only where no interval is shorter than a poll.",
"C08": "Each of 11 protocol sets against stand-alone receivers fed the same events, with pin errors before seeded events; sampled.",
"C09": "Runs with failing pin reads compared with the same run without them (retry, or a poll that saw no change); sampled.",
"C10": "Extreme durations, timestamps, levels and rates from 1 Hz to 2^32-1 Hz with overflow checks on; then quiet and a clean frame has to decode. Hangs are caught by a 180 s watchdog.",
"C11": "Counter wraps put at seeded points of frames and gaps, clock steps inside frames, idle times up to 2^32 ticks, and real 2^32-poll idles; sampled.",
"C12": "Frames with 0-3 bits flipped in transit against a reference check of vendor, parity and inverted copy; sampled.",
"C13": "Buttons pressed on modelled remotes through the real encoder, sender, channel and receiver against independent copies of the shipped tables.",
"C14": "Clean frames of mixed protocols through multi receivers, generic commands compared with the frame; pin errors before seeded events.",
"C15": "Bare decoders queried after every event and reset at seeded points, each time compared with a decoder built at that moment.",
"C16": "Frames heard by several receivers at unrelated rates from 20 kHz to 1 GHz, and transmissions at 32 tick rates, against the reference; sampled.",
"C18": "Seeded histories through a build of the library per feature set (75 of 960 quick, all thorough), every enabled part compared with the default build; a set that does not compile is a violation, too. Fault: the missing features and logging.",
"C19": "Chains of 1-3 relays (real receiver feeding real sender, own clocks, delays, power losses) between a reference remote and a last receiver; every hop's reports compared with the reference sequence; sampled.",
}
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "checks": [dict(property=k, quick_cmd=f"./check.sh {k} quick", thorough_cmd=f"./check.sh {k} thorough",
     evidence_file=f"evidence/{k}.json", technique=T, level="exploration", level_note=v) for k, v in NOTE.items()],
 "not_applicable": [
  {"property": "C17", "reason": "A conversion table: a pure function of an 8-bit number with no clock, schedule, fault or history in it."},
 ],
 "notes": "No hooks in /repo: the crate's own seams (InputPin, PwmPin, InfraMonotonic, explicit tick/poll/event calls) are enough. check.sh replays: sim/target/release/irsim replay FILE (C18: tools/features.py replay FILE /verif).",
}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
