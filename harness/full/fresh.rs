//! P12: what a party sends in one session is made from fresh randomness, and what is sent encrypted is masked.
use std::collections::{BTreeMap, HashMap};
use std::format;
use std::prelude::v1::*;
use std::vec;

use manul::protocol::ProtocolMessage;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::Value;

use super::common::big::{Big, SBig};
use super::common::ecref::*;
use super::common::keys::key;
use super::common::masks::*;
use super::common::runner::*;
use super::entities::{deal, threshold_shares, Deal};
use super::net::*;
use super::replay::{play, values, Play, World};
use super::reshare::reshare_sent;
use super::tamper::{Aux, Init, Refresh, Sign};
use crate::dev::TestParams as T;
use crate::params::SchemeParams;
use crate::vensure;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Series {
    n: u8,
    seed: u64,
    /// all sessions have the same identifier and message
    same: bool,
    runs: u8,
}
fn series(n: std::ops::RangeInclusive<u8>, runs: u8) -> BoxedStrategy<Series> {
    (n, any::<u64>(), any::<bool>()).prop_map(move |(n, seed, same)| Series { n, seed, same, runs }).boxed()
}
impl Series {
    fn world(&self, k: u64) -> World {
        let n = self.n as u64;
        let s = if self.same { 0 } else { k };
        let mix = |x: u64, y: u64| (self.seed ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15)).wrapping_add(y.wrapping_mul(0xD1B5_4A32_D192_ED03));
        World {
            ids: (0..self.n).map(|i| i * 7 + 1).collect(),
            sid: mix(s, 1).to_le_bytes().repeat(4),
            seeds: (0..n).map(|i| mix(k + 100, i + 2)).collect(),
            shares: (0..n).map(|i| mix(7, i + 3) | 1).collect(),
            aux: (0..n as usize).map(|i| (i + (self.seed % 3) as usize * 4, i + (self.seed % 5) as usize)).collect(),
            msg: mix(s, 9),
        }
    }
}

/// The texts of a message that can hold something random.
fn leaves(v: &Value, path: String, out: &mut Vec<(String, String)>) {
    match v {
        Value::String(s) => out.push((path, s.trim_start_matches("0x").into())),
        Value::Array(a) => {
            // maps are sent as lists of pairs, byte strings as lists of numbers
            if a.len() > 3 && a.iter().all(|x| x.is_u64()) {
                let b: Vec<u8> = a.iter().map(|x| x.as_u64().expect("a number") as u8).collect();
                return out.push((path, Big::from_be(&b).to_hex()));
            }
            for (i, x) in a.iter().enumerate() {
                leaves(x, format!("{path}/{i}"), out)
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                // who a message is for, and who sends it as which old holder
                if !["destination", "old_share_id"].contains(&k.as_str()) {
                    leaves(x, format!("{path}/{k}"), out)
                }
            }
        }
        _ => {}
    }
}

type Sent = Vec<(usize, usize, u8, [Option<Value>; 3])>;

/// Nothing that is sent repeats something sent in another session or by another party in the same place.
fn unrepeated(sessions: &[Sent]) -> Result<usize, Fail> {
    let mut by_place: HashMap<String, Vec<(usize, usize, usize, String)>> = HashMap::new();
    for (k, sent) in sessions.iter().enumerate() {
        for (from, to, round, parts) in sent {
            for (p, v) in parts.iter().enumerate() {
                let mut out = vec![];
                if let Some(v) = v {
                    leaves(v, String::new(), &mut out);
                }
                for (path, text) in out {
                    // broadcasts go to everybody
                    let to = if p == 2 { *to } else { 0 };
                    by_place.entry(format!("round {round} part {p} {path}")).or_default().push((k, *from, to, text));
                }
            }
        }
    }
    let mut places: Vec<_> = by_place.into_iter().collect();
    places.sort();
    let (mut accidents, mut compared) = (0, 0);
    for (place, list) in places {
        let mut seen: HashMap<&str, (usize, usize, usize)> = HashMap::new();
        for (k, from, to, text) in &list {
            let digits = text.trim_matches('0').len();
            if text.len() < 8 || !text.bytes().all(|b| b.is_ascii_hexdigit()) {
                continue;
            }
            compared += 1;
            match seen.insert(text, (*k, *from, *to)) {
                Some(other) if other != (*k, *from, *to) => {
                    if digits <= 18 {
                        accidents += 1;
                        if accidents < 3 {
                            continue;
                        }
                    }
                    return fail(
                        format!("repeated:{}", place.split('/').take(3).filter(|x| x.parse::<u32>().is_err()).collect::<Vec<_>>().join("/")),
                        format!("{place}: {text} is sent in session {k} by party {from} to {to}, and in session {} by party {} to {}", other.0, other.1, other.2),
                    );
                }
                _ => {}
            }
        }
    }
    Ok(compared)
}

fn sent_of(m: &BTreeMap<(usize, usize, u8), [Option<Value>; 3]>) -> Sent {
    m.iter().map(|((f, t, r), v)| (*f, *t, *r, v.clone())).collect()
}

fn sessions<A: Play>(c: &Series) -> Result<Vec<Sent>, Fail> {
    let mut out = vec![];
    for k in 0..c.runs as u64 {
        let w = c.world(k);
        let ran = play::<A, T>(&w, &mut manul::engine::Honest);
        vensure!(ran.finished.len() == c.n as usize, "no result", "an honest session does not finish: {:?}", ran.notes);
        out.push(sent_of(&ran.sent));
    }
    Ok(out)
}

fn fresh<A: Play>(c: &Series) -> R {
    let n = unrepeated(&sessions::<A>(c)?)?;
    Ok(obs(n > 0).tag_if(c.same, "same session id each time"))
}

fn fresh_shares(c: &(Deal, usize, bool, u64)) -> R {
    let (d, t_new, overlap, seed) = c;
    let all = set(&d.ids);
    let old = threshold_shares::<T>(&all, d.t, &d.key, d.seed)?;
    let mut out = vec![];
    for k in 0..4 {
        let sent = reshare_sent::<T>(&old, d.t, *t_new, *overlap, seed.wrapping_add(k << 20))?;
        let list = ids(&all);
        let at = |i: &Id| list.iter().position(|x| x == i).unwrap_or(100 + i.index() as usize);
        let mut s: Sent = sent.iter().map(|(f, t, r, m): &(Id, Id, u8, ProtocolMessage)| (at(f), at(t), *r, values(m))).collect();
        for m in s.iter_mut().flat_map(|x| x.3.iter_mut()).flatten() {
            // the constant term belongs to the share that is shared again, and with one coefficient it is all there is
            if let Some(a) = m.get_mut("public_polynomial").and_then(|p| p.as_array_mut()) {
                a.remove(0);
            }
            if *t_new == 1 {
                *m = Value::Null;
            }
        }
        out.push(s);
    }
    let n = unrepeated(&out)?;
    Ok(obs(n > 0).tag(format!("t={t_new}")))
}

fn cipher(v: &Value) -> Option<Big> {
    Big::from_hex(v.get("ciphertext")?.as_str()?.trim_start_matches("0x"))
}
/// The ciphertexts in a map, with the position of the receiver.
fn entries(v: &Value, w: &World) -> Option<Vec<(usize, Big)>> {
    let pos = |k: u64| w.ids.iter().position(|i| *i as u64 == k);
    v.as_array()?.iter().map(|p| Some((pos(p.get(0)?.as_u64()?)?, cipher(p.get(1)?)?))).collect()
}

/// Opens the ciphertexts of a series of signing sessions with the keys of their receivers and senders.
fn opened(c: &Series, w: &World, sent: &Sent, out: &mut Vec<Mask>) -> Option<()> {
    let n = &T::rc().n;
    let lp = Big::one().shl(T::LP_BOUND - 1);
    let keys: Vec<_> = w.aux.iter().map(|(k, _)| key(128, false, *k)).collect();
    for i in 0..c.n as usize {
        let to = (i + 1) % c.n as usize;
        let part = |round: u8, p: usize| sent.iter().find(|(f, t, r, _)| (*f, *t, *r) == (i, to, round)).and_then(|x| x.3[p].clone());
        let r1 = part(1, 0)?;
        let r2 = part(2, 0)?;
        let mut random = |k: usize, label, x: &Big| {
            out.push(Mask { label, value: SBig::from(keys[k].randomizer(x)), bound: keys[k].n.clone(), signed: false });
        };
        let (cap_k, cap_g) = (cipher(r1.get("cap_k")?)?, cipher(r1.get("cap_g")?)?);
        random(i, "randomizer of K", &cap_k);
        random(i, "randomizer of G", &cap_g);
        let mut hidden = vec![];
        for (f, label) in [("cap_ds", "randomizer of D"), ("hat_cap_ds", "randomizer of hat D")] {
            for (j, x) in entries(r2.get(f)?, w)? {
                random(j, label, &x);
            }
        }
        for (f, label, of) in [("cap_fs", "beta", "randomizer of F"), ("hat_cap_fs", "hat beta", "randomizer of hat F")] {
            for (_, x) in entries(r2.get(f)?, w)? {
                random(i, of, &x);
                let b = SBig::from(keys[i].decrypt(&x)).balanced(&keys[i].n);
                hidden.push(Mask { label, value: b, bound: lp.clone(), signed: true });
            }
        }
        out.extend(hidden);
        for (label, x) in [("k", &cap_k), ("gamma", &cap_g)] {
            let v = SBig::from(keys[i].decrypt(x)).balanced(&keys[i].n).modulo(n);
            out.push(Mask { label, value: SBig::from(v), bound: n.clone(), signed: false });
        }
    }
    Some(())
}

fn nonces(c: &Series) -> R {
    let mut out = vec![];
    for (k, s) in sessions::<Sign>(c)?.iter().enumerate() {
        if opened(c, &c.world(k as u64), s, &mut out).is_none() {
            return Ok(obs(false).tag("unknown layout"));
        }
    }
    let seen = assess("signing", out, 0)?;
    Ok(seen.iter().fold(obs(true), |o, (l, n)| if *n < 24 { o.tag(format!("few {l}")) } else { o }).tag_if(c.same, "same session id each time"))
}

pub fn p12(ctx: &Ctx) {
    let rule = "honest sessions that differ in the parties' randomness only, or in the session as well; their messages are compared place by place";
    ctx.check("key-init", rule, ctx.n(1000, 20_000), || series(2..=4, 6), fresh::<Init>);
    ctx.check("key-refresh", rule, ctx.n(160, 3_000), || series(2..=3, 3), fresh::<Refresh>);
    ctx.check("aux-gen", rule, ctx.n(160, 3_000), || series(2..=3, 3), fresh::<Aux>);
    ctx.check("signing", rule, ctx.n(200, 4000), || series(2..=3, 4), fresh::<Sign>);
    ctx.check("resharing", rule, ctx.n(2000, 40_000), || (deal::<T>(4), 1usize..5, any::<bool>(), any::<u64>()).boxed(), fresh_shares);
    ctx.check(
        "signing-nonces",
        "series of honest signing sessions with known keys: nonces, masks of the products, and randomizers are recovered from the ciphertexts",
        ctx.n(32, 700),
        || series(3..=3, 24),
        nonces,
    );
}
