//! What the receivers of a simulated world have to report.

use crate::ctx::{viol, Ctx, Res};
use crate::refp::{self, NCmd};
use crate::rx::Out;
use crate::world::*;

/// Exactly-once, in-order, nothing else, for every undisturbed item of the plan. Disturbed items
/// may report anything while they and the quiet time after them last.
pub fn judge(plan: &Plan, air: &Air, cfg: &RxCfg, out: &[Report<NCmd>], who: &str, ctx: &mut Ctx) -> Res {
    let cmds: Vec<(u64, NCmd)> =
        out.iter().filter_map(|(t, o)| if let Out::Cmd(c) = o { Some((*t, *c)) } else { None }).collect();
    let is_nec = cfg.proto.is_nec();
    let mut mem: Option<u64> = None;
    let mut known = true;
    let mut expected: Vec<NCmd> = vec![];
    for (i, it) in plan.items.iter().enumerate() {
        let lo = air.slots[i].start;
        let hi = air.slots.get(i + 1).map_or(u64::MAX, |s| s.start);
        let got: Vec<NCmd> = cmds.iter().filter(|(t, _)| *t >= lo && *t < hi).map(|x| x.1).collect();
        if i == 0 {
            if let Some((t, c)) = cmds.iter().find(|(t, _)| *t < lo) {
                return viol("phantom", format!("{who}: {} at {t} ns, before anything was sent", show(c)));
            }
        }
        if it.dirty() {
            if is_nec {
                known = false;
            }
            continue;
        }
        let Some(fr) = it.frame() else { continue };
        // refused commands are not on the air
        if let Kind::Send { load, .. } = &it.kind {
            if crate::tx::build(load).is_none() {
                if !cfg.fe.buffer() && !got.is_empty() {
                    return viol("phantom", format!("{who}: item {i} was refused but {} was reported", show(&got[0])));
                }
                continue;
            }
        }
        if fr.class == cfg.proto.class() && fr.repeat && !known {
            continue;
        }
        if fr.class == cfg.proto.class() && !fr.repeat {
            known = true;
        }
        let e = refp::expect(cfg.proto, &fr, &mut mem);
        expected.extend(e);
        if cfg.fe.buffer() {
            continue;
        }
        ctx.count("verdicts", 1);
        match (&e, &got[..]) {
            (None, []) => {}
            (Some(a), [b]) if a == b => {
                let t = cmds.iter().find(|(t, _)| *t >= lo && *t < hi).unwrap().0;
                let slack = 2_000_000_000 / cfg.freq() as u64 * 2 + 100_000;
                if t > air.slots[i].end + slack {
                    return viol("late", format!("{who}: item {i} reported {} ns after its end", t - air.slots[i].end));
                }
            }
            (None, g) => {
                return viol("phantom", format!("{who}: item {i} ({fr:?}) must not be reported, got {}", show(&g[0])))
            }
            (Some(a), []) => {
                return viol("lost", format!("{who}: item {i} ({fr:?}): {} was not reported", show(a)))
            }
            (Some(a), [b]) => {
                return viol("wrong", format!("{who}: item {i}: expected {}, got {}", show(a), show(b)))
            }
            (Some(a), g) => {
                return viol("duplicate", format!("{who}: item {i}: {} reported as {} commands: {}", show(a), g.len(), show(&g[1])))
            }
        }
    }
    if cfg.fe.buffer() {
        ctx.count("verdicts", 1);
        let got: Vec<NCmd> = cmds.iter().map(|x| x.1).collect();
        if plan.items.iter().any(|i| i.dirty()) {
            // the undisturbed frames appear in order
            let mut k = 0;
            for g in &got {
                if k < expected.len() && *g == expected[k] {
                    k += 1;
                }
            }
            if k < expected.len() {
                return viol("lost", format!("{who}: recording yields {} commands, {} is missing", got.len(), show(&expected[k])));
            }
        } else if got != expected {
            let i = got.iter().zip(&expected).take_while(|(a, b)| a == b).count();
            return viol(
                if got.len() < expected.len() { "lost" } else if got.len() > expected.len() { "phantom" } else { "wrong" },
                format!(
                    "{who}: recording yields {} commands instead of {}; number {i}: expected {}, got {}",
                    got.len(),
                    expected.len(),
                    show_opt(&expected.get(i).copied()),
                    show_opt(&got.get(i).copied())
                ),
            );
        }
    }
    Ok(())
}

fn in_range_create(l: &crate::tx::Load) -> bool {
    match l.p {
        refp::Nec | refp::Samsung | refp::Rc6 => l.f[0] < 256 && l.f[1] < 256,
        refp::Rc5 => l.f[0] < 32 && l.f[1] < 64,
        refp::Sbp => l.f[0] < 65536 && l.f[1] < 256,
        _ => false,
    }
}

pub fn in_range(l: &crate::tx::Load) -> bool {
    if l.create {
        in_range_create(l)
    } else {
        l.in_range()
    }
}

/// Run every node and judge it.
pub fn judge_all(plan: &Plan, ctx: &mut Ctx) -> Res {
    judge_nodes(plan, false, ctx)
}

/// `quiet`: a receiver that hears only undisturbed frames of its own protocol has no errors to report.
pub fn judge_nodes(plan: &Plan, quiet: bool, ctx: &mut Ctx) -> Res {
    let a = air(plan, ctx);
    for (k, cfg) in plan.rx.iter().enumerate() {
        let who = format!("receiver {k} ({:?} {:?} {:?} {} Hz)", cfg.proto, cfg.fe, cfg.clk, cfg.freq());
        ctx.log(|| who.clone());
        let out = run_rx(cfg, plan, &a, 0, ctx);
        judge(plan, &a, cfg, &out, &who, ctx)?;
        let own = plan.items.iter().all(|i| !i.dirty() && i.frame().is_some_and(|f| f.class == cfg.proto.class()));
        if quiet && own {
            ctx.count("verdicts", 1);
            if let Some((t, o)) = out.iter().find(|(_, o)| matches!(o, Out::Err(_))) {
                return viol("spurious-error", format!("{who}: {o:?} at {t} ns, although only undisturbed frames of its own protocol are on the air"));
            }
        }
    }
    Ok(())
}
