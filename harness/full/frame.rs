//! P07: evidence convinces, and cannot be made against honest parties.
use std::collections::{BTreeMap, BTreeSet};
use std::format;
use std::prelude::v1::*;
use std::vec;

use manul::engine::Outcome;
use manul::protocol::{
    BoxedFormat, DirectMessage, EchoBroadcast, EntryPoint, NormalBroadcast, Protocol, ProtocolError, ProtocolMessage, RequiredMessageParts,
    RoundId,
};
use manul::session::FormatKind;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};

use super::common::big::Big;
use super::common::ecref::*;
use super::common::runner::*;
use super::net::*;
use super::tamper::{aimed, case, convinces, driven, run_case, Arena, Aux, Case, Edit, Init, Refresh, Setup, Sign};
use super::tamper::Err as ErrOf;
use crate::dev::TestParams as T;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Frame {
    pub case: Case,
    /// to whom the direct messages shown as evidence were sent
    pub to: u8,
    /// scalars alleged in the evidence
    pub y: u64,
}

fn format_of(s: &Setup) -> BoxedFormat {
    BoxedFormat(if s.json { FormatKind::Json } else { FormatKind::Binary })
}

fn ticked(s: &str) -> Vec<String> {
    s.split('`').skip(1).step_by(2).map(|x| x.to_string()).collect()
}

/// Every error the protocol can allege, found out from what its deserializer accepts.
fn allegations<A: Arena>(all: &[Id], scalars: &[Value]) -> Vec<(String, ErrOf<A>)> {
    let wrap = |v: Value| json!({"error": v, "phantom": null});
    let parse = |v: Value| serde_json::from_value::<ErrOf<A>>(wrap(v)).map_err(|e| e.to_string());
    let names = match parse(json!("?")) {
        Err(e) => ticked(&e).into_iter().filter(|n| n != "?").collect::<Vec<_>>(),
        Ok(_) => vec![],
    };
    let mut out = vec![];
    for n in names {
        if let Ok(e) = parse(json!(n)) {
            out.push((n, e));
            continue;
        }
        // fields one by one
        let mut partial: Vec<Map<String, Value>> = vec![Map::new()];
        for _ in 0..4 {
            let mut next = vec![];
            for p in &partial {
                match parse(json!({ n.clone(): p })) {
                    Ok(e) => out.push((n.clone(), e)),
                    Err(e) if e.contains("missing field") => {
                        let Some(f) = ticked(&e).into_iter().next() else { continue };
                        let id_like = p.clone();
                        for i in all {
                            let mut q = id_like.clone();
                            q.insert(f.clone(), json!(i));
                            let bad = matches!(parse(json!({ n.clone(): q.clone() })), Err(e) if !e.contains("missing field"));
                            if !bad {
                                next.push(q);
                            }
                        }
                        for s in scalars {
                            let mut q = id_like.clone();
                            q.insert(f.clone(), s.clone());
                            let bad = matches!(parse(json!({ n.clone(): q.clone() })), Err(e) if !e.contains("missing field"));
                            if !bad {
                                next.push(q);
                            }
                        }
                    }
                    Err(_) => {}
                }
            }
            partial = next;
        }
    }
    out
}

fn only(m: &ProtocolMessage, p: &RequiredMessageParts) -> Option<ProtocolMessage> {
    if (p.echo_broadcast && m.echo_broadcast.0.is_none()) || (p.normal_broadcast && m.normal_broadcast.0.is_none()) || (p.direct_message && m.direct_message.0.is_none())
    {
        return None;
    }
    Some(ProtocolMessage {
        echo_broadcast: if p.echo_broadcast { m.echo_broadcast.clone() } else { EchoBroadcast(None) },
        normal_broadcast: if p.normal_broadcast { m.normal_broadcast.clone() } else { NormalBroadcast(None) },
        direct_message: if p.direct_message { m.direct_message.clone() } else { DirectMessage(None) },
    })
}

/// P07, second half.
pub fn cannot_frame<A: Arena>(f: &Frame) -> R {
    let c = &f.case;
    let ran = run_case::<A>(c);
    let assoc = A::assoc(&c.setup);
    let sid = c.setup.sid();
    let format = format_of(&c.setup);
    let all = ids(&ran.all);
    let sent: BTreeMap<(Id, Id, u8), ProtocolMessage> = ran.run.sent.into_iter().map(|(a, b, r, m)| ((a, b, r), m)).collect();
    let rc = T::rc();
    let scalars: Vec<Value> = [2, f.y]
        .into_iter()
        .map(|x| serde_json::to_value(ssc::<T>(&Big::from_u64(x).rem(&rc.n))).expect("serializes"))
        .collect();
    let alleged = allegations::<A>(&all, &scalars);
    let mut o = obs(false).tag(format!("{} kinds of errors", alleged.iter().map(|(n, _)| n).collect::<BTreeSet<_>>().len()));
    for h in all.iter().filter(|i| !ran.corrupted.contains(*i)) {
        let others: Vec<Id> = all.iter().filter(|i| *i != h).cloned().collect();
        let round_ids: BTreeSet<u8> = sent.keys().filter(|k| k.0 == *h).map(|k| k.2).collect();
        // the broadcasts of the honest party, with a direct message to one of the others
        let mut own: BTreeMap<u8, ProtocolMessage> = BTreeMap::new();
        let mut packs: BTreeMap<RoundId, BTreeMap<Id, EchoBroadcast>> = BTreeMap::new();
        for r in &round_ids {
            let to = &others[f.to as usize % others.len()];
            if let Some(m) = sent.get(&(*h, *to, *r)) {
                own.insert(*r, m.clone());
            }
            let pack: BTreeMap<Id, EchoBroadcast> =
                others.iter().filter_map(|x| sent.get(&(*x, *h, *r)).filter(|m| !m.echo_broadcast.0.is_none()).map(|m| (*x, m.echo_broadcast.clone()))).collect();
            packs.insert(RoundId::new(*r), pack);
        }
        for (name, e) in &alleged {
            let req = ProtocolError::<Id>::required_messages(e);
            for (r, m) in &own {
                let Some(msg) = only(m, &req.this_round) else { continue };
                let mut prev = BTreeMap::new();
                let mut whole = true;
                for (q, parts) in req.previous_rounds.iter().flatten() {
                    match own.get(&q.num()).and_then(|m| only(m, parts)) {
                        Some(m) => {
                            prev.insert(*q, m);
                        }
                        None => whole = false,
                    }
                }
                let mut echos = BTreeMap::new();
                for q in req.combined_echos.iter().flatten() {
                    match packs.get(q) {
                        Some(p) => {
                            echos.insert(*q, p.clone());
                        }
                        None => whole = false,
                    }
                }
                if !whole {
                    continue;
                }
                let res = no_panic(|| e.verify_messages_constitute_error(&format, h, &sid, &assoc, msg.clone(), prev.clone(), echos.clone()).map_err(|e| format!("{e:?}")));
                match res {
                    Ok(Ok(())) => {
                        return fail(
                            format!("honest party framed:{name}"),
                            format!("{e:?} is proven of the honest {h:?} (corrupted: {:?}) by its round {r} message and the direct message to {:?}", ran.bad, others[f.to as usize % others.len()]),
                        )
                    }
                    Ok(Err(x)) => {
                        // the messages are of the right kinds, and it is the claim itself that is refused
                        if !x.contains("deserialize") && !x.contains("is `None`") {
                            o.nontrivial = true;
                            o = o.tag(format!("refused: {name}"));
                        }
                    }
                    Err(p) => return fail(format!("evidence panics:{name}"), format!("{e:?} alleged of the honest {h:?}, message of round {r}: {p}")),
                }
            }
        }
        for (r, m) in &own {
            let id = RoundId::new(*r);
            type PR<A> = <<A as Arena>::EP as EntryPoint<Id>>::Protocol;
            let parts = [
                ("echo broadcast", <PR<A> as Protocol<Id>>::verify_echo_broadcast_is_invalid(&format, &id, &m.echo_broadcast).is_ok()),
                ("normal broadcast", <PR<A> as Protocol<Id>>::verify_normal_broadcast_is_invalid(&format, &id, &m.normal_broadcast).is_ok()),
                ("direct message", <PR<A> as Protocol<Id>>::verify_direct_message_is_invalid(&format, &id, &m.direct_message).is_ok()),
            ];
            for (what, proven) in parts {
                if proven {
                    return fail(format!("honest party framed:invalid {what} of round {r}"), format!("the {what} of the honest {h:?} in round {r} is proven invalid"));
                }
            }
        }
    }
    let finished = ran.run.reports.values().filter(|r| matches!(r.outcome, Outcome::Result(_))).count();
    o = o.tag(if finished == all.len() { "session finished" } else { "session broken off" });
    Ok(o)
}

fn frames(case: BoxedStrategy<Case>) -> BoxedStrategy<Frame> {
    (case, any::<u8>(), prop_oneof![Just(0u64), Just(1), any::<u64>()]).prop_map(|(case, to, y)| Frame { case, to, y }).boxed()
}
/// Sessions, most of them honest.
fn sessions<A: Arena>(ns: std::ops::RangeInclusive<u8>) -> BoxedStrategy<Frame> {
    frames(
        (case::<A>(ns), 0u8..3)
            .prop_map(|(mut c, k)| {
                if k > 0 {
                    c.edits.clear();
                    c.input = 0;
                }
                c
            })
            .boxed(),
    )
}
/// Key refresh in which the corrupted party's ElGamal secrets are known.
fn known_y() -> BoxedStrategy<Frame> {
    (sessions::<Refresh>(3..=3), 0u8..2)
        .prop_map(|(mut f, k)| {
            f.case.setup.json = true;
            f.case.plan.json = true;
            f.case.commit = true;
            f.case.input = 0;
            f.case.edits = vec![Edit { round: 2, at: 0, part: k, who: 255, op: 22, path: vec![], val: 0 }];
            f
        })
        .boxed()
}
fn quiet_driven() -> BoxedStrategy<Frame> {
    frames(
        (driven(), 0u8..3)
            .prop_map(|(mut c, k)| {
                if k > 0 {
                    c.edits.clear();
                }
                c
            })
            .boxed(),
    )
}

pub fn p07(ctx: &Ctx) {
    let rule = "an honest party reports provable misbehaviour";
    ctx.check("evidence-key-init", rule, ctx.n(6000, 200_000), || case::<Init>(2..=4), convinces::<Init>);
    ctx.check("evidence-key-refresh", rule, ctx.n(600, 20_000), || case::<Refresh>(2..=3), convinces::<Refresh>);
    ctx.check("evidence-aux-gen", rule, ctx.n(800, 25_000), || case::<Aux>(2..=3), convinces::<Aux>);
    ctx.check("evidence-signing", rule, ctx.n(1200, 30_000), || case::<Sign>(2..=4), convinces::<Sign>);
    ctx.check("evidence-signing-error-rounds", rule, ctx.n(400, 10_000), driven, convinces::<Sign>);
    ctx.check("evidence-aimed/key-init", rule, ctx.n(2000, 100_000), || aimed::<Init>(2..=4), convinces::<Init>);
    ctx.check("evidence-aimed/key-refresh", rule, ctx.n(800, 15_000), || aimed::<Refresh>(2..=3), convinces::<Refresh>);
    ctx.check("evidence-aimed/aux-gen", rule, ctx.n(500, 15_000), || aimed::<Aux>(2..=3), convinces::<Aux>);
    ctx.check("evidence-aimed/signing", rule, ctx.n(800, 15_000), || aimed::<Sign>(2..=3), convinces::<Sign>);
    let rule = "evidence of the right shape is refused because the claim does not hold";
    ctx.check("frame-key-init", rule, ctx.n(3000, 100_000), || sessions::<Init>(2..=4), cannot_frame::<Init>);
    ctx.check("frame-key-refresh", rule, ctx.n(200, 8_000), || sessions::<Refresh>(2..=3), cannot_frame::<Refresh>);
    ctx.check("frame-key-refresh-known-y", rule, ctx.n(60, 2_000), known_y, cannot_frame::<Refresh>);
    ctx.check("frame-aux-gen", rule, ctx.n(200, 8_000), || sessions::<Aux>(2..=3), cannot_frame::<Aux>);
    ctx.check("frame-signing", rule, ctx.n(150, 5_000), || sessions::<Sign>(2..=4), cannot_frame::<Sign>);
    ctx.check("frame-signing-error-rounds", rule, ctx.n(100, 3_000), quiet_driven, cannot_frame::<Sign>);
}
