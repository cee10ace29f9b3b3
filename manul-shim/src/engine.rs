//! Runs the sessions of all the parties of a protocol in one thread, one message at a time.
use crate::protocol::*;
use crate::session::FormatKind;
use rand_core::CryptoRngCore;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{self, Debug};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What the test controls.
pub trait Network<Id> {
    /// A message of `from` about to be sent to `to`. Returns `false` to withhold it.
    fn on_send(&mut self, _format: &BoxedFormat, _from: &Id, _to: &Id, _round: u8, _msg: &mut ProtocolMessage) -> bool {
        true
    }
    /// A message about to be taken in by `to` (what it records is what is left here).
    fn on_receive(&mut self, _format: &BoxedFormat, _from: &Id, _to: &Id, _round: u8, _msg: &mut ProtocolMessage) {}
    /// The echoed broadcasts `from` is about to send to `to`. Returns `false` to withhold them.
    fn on_echo(&mut self, _from: &Id, _to: &Id, _round: u8, _echos: &mut BTreeMap<Id, EchoBroadcast>) -> bool {
        true
    }
    /// Echoed broadcasts about to be taken in by `to`.
    fn on_receive_echo(&mut self, _from: &Id, _to: &Id, _round: u8, _echos: &mut BTreeMap<Id, EchoBroadcast>) {}
    /// Which of the `n` undelivered messages is delivered next.
    fn pick(&mut self, _n: usize) -> usize {
        0
    }
    /// How many more copies of a message are delivered.
    fn duplicate(&mut self) -> bool {
        false
    }
}
pub struct Honest;
impl<Id> Network<Id> for Honest {}

pub enum Outcome<R> {
    Result(R),
    /// Waiting for messages in this round that never came (or were invalid).
    Stalled(u8),
    LocalError(String),
    Panicked(String),
}
impl<R> Debug for Outcome<R> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Outcome::Result(_) => f.write_str("Result"),
            Outcome::Stalled(r) => write!(f, "Stalled in round {r}"),
            Outcome::LocalError(e) => write!(f, "{e}"),
            Outcome::Panicked(e) => write!(f, "Panicked: {e}"),
        }
    }
}

enum EvidenceKind<E> {
    Echo,
    Normal,
    Direct,
    Protocol(E),
    Mismatch,
}

/// What a party can show to others to prove that another one misbehaved.
pub struct Evidence<Id: PartyId, P: Protocol<Id>> {
    pub guilty: Id,
    pub round: u8,
    description: String,
    kind: EvidenceKind<P::ProtocolError>,
    format: BoxedFormat,
    shared_randomness: Vec<u8>,
    message: ProtocolMessage,
    previous: BTreeMap<RoundId, ProtocolMessage>,
    combined_echos: BTreeMap<RoundId, BTreeMap<Id, EchoBroadcast>>,
    /// what was needed for the evidence but is not in the transcript
    missing: Option<String>,
}
impl<Id: PartyId, P: Protocol<Id>> Debug for Evidence<Id, P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Evidence({:?}, round {}, {})", self.guilty, self.round, self.description)
    }
}
impl<Id: PartyId, P: Protocol<Id>> Evidence<Id, P> {
    pub fn description(&self) -> String {
        self.description.clone()
    }
    pub fn is_protocol_error(&self) -> bool {
        matches!(self.kind, EvidenceKind::Protocol(_))
    }
    pub fn is_mismatch(&self) -> bool {
        matches!(self.kind, EvidenceKind::Mismatch)
    }
    /// Checks the evidence, the way a third party which only has `associated_data` would.
    pub fn verify(
        &self,
        associated_data: &<P::ProtocolError as ProtocolError<Id>>::AssociatedData,
    ) -> Result<(), String> {
        if let Some(m) = &self.missing {
            return Err(format!("the evidence cannot be made: {m} is not in the transcript"));
        }
        let rid = RoundId::new(self.round);
        let mve = |e: MessageValidationError| format!("{e:?}");
        match &self.kind {
            EvidenceKind::Echo => {
                P::verify_echo_broadcast_is_invalid(&self.format, &rid, &self.message.echo_broadcast).map_err(mve)
            }
            EvidenceKind::Normal => {
                P::verify_normal_broadcast_is_invalid(&self.format, &rid, &self.message.normal_broadcast).map_err(mve)
            }
            EvidenceKind::Direct => {
                P::verify_direct_message_is_invalid(&self.format, &rid, &self.message.direct_message).map_err(mve)
            }
            EvidenceKind::Mismatch => Ok(()),
            EvidenceKind::Protocol(e) => {
                // the evidence reaches whoever checks it over the wire
                let bytes = self.format.0.ser(e).map_err(|e| format!("{e:?}"))?;
                let e: P::ProtocolError = self.format.0.de(&bytes).map_err(|e| format!("the error does not deserialize: {e}"))?;
                e.verify_messages_constitute_error(
                    &self.format,
                    &self.guilty,
                    &self.shared_randomness,
                    associated_data,
                    self.message.clone(),
                    self.previous.clone(),
                    self.combined_echos.clone(),
                )
                .map_err(|e| format!("{e:?}"))
            }
        }
    }
    /// The protocol error of this evidence, if it is one, asserted against another message/party.
    pub fn verify_with(
        &self,
        guilty: &Id,
        message: &ProtocolMessage,
        previous: &BTreeMap<RoundId, ProtocolMessage>,
        combined_echos: &BTreeMap<RoundId, BTreeMap<Id, EchoBroadcast>>,
        associated_data: &<P::ProtocolError as ProtocolError<Id>>::AssociatedData,
    ) -> Option<Result<(), String>> {
        match &self.kind {
            EvidenceKind::Protocol(e) => Some(
                e.verify_messages_constitute_error(
                    &self.format,
                    guilty,
                    &self.shared_randomness,
                    associated_data,
                    message.clone(),
                    previous.clone(),
                    combined_echos.clone(),
                )
                .map_err(|e| format!("{e:?}")),
            ),
            _ => None,
        }
    }
    pub fn message(&self) -> &ProtocolMessage {
        &self.message
    }
    pub fn previous(&self) -> &BTreeMap<RoundId, ProtocolMessage> {
        &self.previous
    }
    pub fn combined_echos(&self) -> &BTreeMap<RoundId, BTreeMap<Id, EchoBroadcast>> {
        &self.combined_echos
    }
}

pub struct Report<Id: PartyId, P: Protocol<Id>> {
    pub outcome: Outcome<P::Result>,
    pub provable_errors: BTreeMap<Id, Evidence<Id, P>>,
    pub unprovable_errors: BTreeMap<Id, String>,
    /// The rounds the party went through.
    pub rounds: Vec<u8>,
}

pub struct Run<Id: PartyId, P: Protocol<Id>> {
    pub reports: BTreeMap<Id, Report<Id, P>>,
    /// Every message sent, as it left: from, to, round, message.
    pub sent: Vec<(Id, Id, u8, ProtocolMessage)>,
}

#[derive(Clone)]
enum Body<Id> {
    Regular(ProtocolMessage),
    Echo(BTreeMap<Id, EchoBroadcast>),
}
#[derive(Clone)]
struct Wire<Id> {
    from: Id,
    to: Id,
    round: u8,
    body: Body<Id>,
}

struct Current<Id: PartyId, P: Protocol<Id>> {
    round: BoxedRound<Id, P>,
    id: u8,
    info: CommunicationInfo<Id>,
    payloads: BTreeMap<Id, Payload>,
    artifacts: BTreeMap<Id, Artifact>,
    failed: BTreeSet<Id>,
    my_echo: EchoBroadcast,
    /// echo broadcasts received in this round
    echos: BTreeMap<Id, EchoBroadcast>,
    /// the echo stage: whom we still wait for
    echo_stage: Option<BTreeSet<Id>>,
}

struct Party<Id: PartyId, P: Protocol<Id>> {
    id: Id,
    rng: Box<dyn CryptoRngCore>,
    current: Option<Current<Id, P>>,
    cached: Vec<Wire<Id>>,
    /// messages by sender and round
    transcript: BTreeMap<(Id, u8), ProtocolMessage>,
    /// echo packs by sender and round
    packs: BTreeMap<(Id, u8), BTreeMap<Id, EchoBroadcast>>,
    report: Report<Id, P>,
    done: bool,
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| e.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "?".into())
}

enum Stop {
    Local(LocalError),
}
impl From<LocalError> for Stop {
    fn from(e: LocalError) -> Self {
        Stop::Local(e)
    }
}

impl<Id: PartyId, P: Protocol<Id>> Party<Id, P> {
    fn start(
        &mut self,
        round: BoxedRound<Id, P>,
        format: &BoxedFormat,
        net: &mut dyn Network<Id>,
        out: &mut Vec<Wire<Id>>,
    ) -> Result<(), LocalError> {
        let id = round.id().num();
        self.report.rounds.push(id);
        let info = round.round().communication_info();
        let echo = round.round().make_echo_broadcast(&mut *self.rng, format)?;
        let normal = round.round().make_normal_broadcast(&mut *self.rng, format)?;
        let mut artifacts = BTreeMap::new();
        for to in &info.message_destinations {
            let (direct, artifact) = round.round().make_direct_message(&mut *self.rng, format, to)?;
            if let Some(a) = artifact {
                artifacts.insert(to.clone(), a);
            }
            let mut msg = ProtocolMessage {
                echo_broadcast: echo.clone(),
                normal_broadcast: normal.clone(),
                direct_message: direct,
            };
            if net.on_send(format, &self.id, to, id, &mut msg) {
                out.push(Wire { from: self.id.clone(), to: to.clone(), round: id, body: Body::Regular(msg) });
            }
        }
        self.current = Some(Current {
            round,
            id,
            info,
            payloads: BTreeMap::new(),
            artifacts,
            failed: BTreeSet::new(),
            my_echo: echo,
            echos: BTreeMap::new(),
            echo_stage: None,
        });
        Ok(())
    }

    fn blame(&mut self, guilty: &Id, e: Evidence<Id, P>) {
        self.report.provable_errors.entry(guilty.clone()).or_insert(e);
    }

    fn evidence(
        &self,
        format: &BoxedFormat,
        shared: &[u8],
        guilty: &Id,
        round: u8,
        message: ProtocolMessage,
        description: String,
        kind: EvidenceKind<P::ProtocolError>,
    ) -> Evidence<Id, P> {
        let mut ev = Evidence {
            guilty: guilty.clone(),
            round,
            description,
            kind,
            format: *format,
            shared_randomness: shared.to_vec(),
            message,
            previous: BTreeMap::new(),
            combined_echos: BTreeMap::new(),
            missing: None,
        };
        if let EvidenceKind::Protocol(e) = &ev.kind {
            let required = ProtocolError::<Id>::required_messages(e);
            let keep = |m: &ProtocolMessage, p: &RequiredMessageParts, what: &str, missing: &mut Option<String>| {
                if (p.echo_broadcast && m.echo_broadcast.is_none())
                    || (p.normal_broadcast && m.normal_broadcast.is_none())
                    || (p.direct_message && m.direct_message.is_none())
                {
                    *missing = Some(format!("{what}: {p:?}"));
                }
                ProtocolMessage {
                    echo_broadcast: if p.echo_broadcast { m.echo_broadcast.clone() } else { EchoBroadcast::none() },
                    normal_broadcast: if p.normal_broadcast { m.normal_broadcast.clone() } else { NormalBroadcast::none() },
                    direct_message: if p.direct_message { m.direct_message.clone() } else { DirectMessage::none() },
                }
            };
            let mut missing = None;
            ev.message = keep(&ev.message, &required.this_round, "this round", &mut missing);
            for (r, parts) in required.previous_rounds.iter().flatten() {
                match self.transcript.get(&(guilty.clone(), r.num())) {
                    Some(m) => {
                        ev.previous.insert(*r, keep(m, parts, &format!("round {}", r.num()), &mut missing));
                    }
                    None => missing = Some(format!("round {}", r.num())),
                }
            }
            for r in required.combined_echos.iter().flatten() {
                match self.packs.get(&(guilty.clone(), r.num())) {
                    Some(m) => {
                        let mut m = m.clone();
                        m.remove(guilty);
                        ev.combined_echos.insert(*r, m);
                    }
                    None => missing = Some(format!("echos of round {}", r.num())),
                }
            }
            ev.missing = missing;
        }
        ev
    }

    fn on_regular(&mut self, format: &BoxedFormat, shared: &[u8], from: &Id, msg: ProtocolMessage) -> Result<(), Stop> {
        let cur = self.current.as_mut().expect("a round is on");
        let rid = cur.id;
        if !cur.info.expecting_messages_from.contains(from)
            || cur.payloads.contains_key(from)
            || cur.failed.contains(from)
        {
            return Ok(()); // out of place or repeated: of no effect
        }
        let res = cur.round.round().receive_message(format, from, msg.clone());
        match res {
            Ok(p) => {
                cur.payloads.insert(from.clone(), p);
                if !msg.echo_broadcast.is_none() {
                    cur.echos.insert(from.clone(), msg.echo_broadcast.clone());
                }
                self.transcript.insert((from.clone(), rid), msg);
            }
            Err(e) => {
                cur.failed.insert(from.clone());
                let description = format!("{e:?}");
                let kind = match e.0 {
                    ReceiveErrorType::Local(e) => return Err(e.into()),
                    ReceiveErrorType::Unprovable(e) => {
                        self.report.unprovable_errors.insert(from.clone(), e.0);
                        return Ok(());
                    }
                    ReceiveErrorType::InvalidEchoBroadcast(_) => EvidenceKind::Echo,
                    ReceiveErrorType::InvalidNormalBroadcast(_) => EvidenceKind::Normal,
                    ReceiveErrorType::InvalidDirectMessage(_) => EvidenceKind::Direct,
                    ReceiveErrorType::Protocol(e) => EvidenceKind::Protocol(e),
                };
                let ev = self.evidence(format, shared, from, rid, msg, description, kind);
                self.blame(from, ev);
            }
        }
        Ok(())
    }

    fn on_echo(&mut self, format: &BoxedFormat, shared: &[u8], from: &Id, pack: BTreeMap<Id, EchoBroadcast>) {
        let my_id = self.id.clone();
        let cur = self.current.as_mut().expect("a round is on");
        let rid = cur.id;
        let Some(waiting) = cur.echo_stage.as_mut() else { return };
        if !waiting.contains(from) || cur.failed.contains(from) {
            return;
        }
        let mut bad_pack = None;
        let mut liars = vec![];
        for (id, mine) in cur.echos.iter().filter(|(id, _)| *id != from) {
            match pack.get(id) {
                None => bad_pack = Some(id.clone()),
                Some(theirs) if theirs != mine => liars.push((id.clone(), mine.clone())),
                _ => {}
            }
        }
        // in manul these cannot be otherwise: the echoed messages carry their senders' signatures
        match pack.get(&my_id) {
            Some(theirs) if *theirs != cur.my_echo => bad_pack = Some(my_id.clone()),
            None if !cur.my_echo.is_none() => bad_pack = Some(my_id.clone()),
            _ => {}
        }
        if let Some(extra) = pack.keys().find(|k| **k != my_id && (*k == from || !cur.echos.contains_key(k))) {
            bad_pack = Some(extra.clone());
        }
        if let Some(b) = bad_pack {
            cur.failed.insert(from.clone());
            self.report
                .unprovable_errors
                .insert(from.clone(), format!("invalid echo of {b:?}"));
            return;
        }
        if !liars.is_empty() {
            for (l, mine) in liars {
                self.current.as_mut().unwrap().failed.insert(l.clone());
                let msg = ProtocolMessage {
                    echo_broadcast: mine,
                    normal_broadcast: NormalBroadcast::none(),
                    direct_message: DirectMessage::none(),
                };
                let ev = self.evidence(format, shared, &l, rid, msg, "Mismatched echo broadcasts".into(), EvidenceKind::Mismatch);
                self.blame(&l, ev);
            }
            return;
        }
        waiting.remove(from);
        self.packs.insert((from.clone(), rid), pack);
    }

    /// Moves on as far as the messages received so far allow.
    fn advance(
        &mut self,
        format: &BoxedFormat,
        net: &mut dyn Network<Id>,
        out: &mut Vec<Wire<Id>>,
    ) -> Result<bool, Stop> {
        let cur = self.current.as_mut().expect("a round is on");
        if !cur.failed.is_empty() || !cur.info.expecting_messages_from.iter().all(|i| cur.payloads.contains_key(i)) {
            return Ok(false);
        }
        if cur.echo_stage.is_none() {
            let (targets, from): (BTreeSet<Id>, BTreeSet<Id>) = match &cur.info.echo_round_participation {
                EchoRoundParticipation::Default => (cur.info.message_destinations.clone(), cur.info.message_destinations.clone()),
                EchoRoundParticipation::Send => Default::default(),
                EchoRoundParticipation::Receive { echo_targets } => (echo_targets.clone(), echo_targets.clone()),
            };
            let any = !cur.my_echo.is_none() || cur.echos.values().any(|e| !e.is_none());
            let waiting = if any { from } else { BTreeSet::new() };
            if any {
                for to in &targets {
                    let mut pack = cur.echos.clone();
                    if net.on_echo(&self.id, to, cur.id, &mut pack) {
                        out.push(Wire { from: self.id.clone(), to: to.clone(), round: cur.id, body: Body::Echo(pack) });
                    }
                }
            }
            let more = !waiting.is_empty();
            cur.echo_stage = Some(waiting);
            if more {
                return Ok(true);
            }
        }
        if !cur.echo_stage.as_ref().unwrap().is_empty() {
            return Ok(false);
        }
        let cur = self.current.take().unwrap();
        match cur.round.into_round().finalize(&mut *self.rng, cur.payloads, cur.artifacts)? {
            FinalizeOutcome::Result(r) => {
                self.report.outcome = Outcome::Result(r);
                self.done = true;
            }
            FinalizeOutcome::AnotherRound(r) => self.start(r, format, net, out)?,
        }
        Ok(true)
    }

    fn step(
        &mut self,
        format: &BoxedFormat,
        shared: &[u8],
        msg: Option<Wire<Id>>,
        net: &mut dyn Network<Id>,
        out: &mut Vec<Wire<Id>>,
    ) -> Result<(), Stop> {
        self.cached.extend(msg);
        loop {
            let mut progress = false;
            let cached = std::mem::take(&mut self.cached);
            for w in cached {
                let Some(cur) = self.current.as_ref() else {
                    break;
                };
                let regular = matches!(w.body, Body::Regular(_));
                let now = w.round == cur.id && (regular || cur.echo_stage.is_some());
                if !now {
                    if !self.report.rounds.contains(&w.round) || (w.round == cur.id && !regular) {
                        self.cached.push(w);
                    }
                    continue;
                }
                match w.body {
                    Body::Regular(m) => self.on_regular(format, shared, &w.from, m)?,
                    Body::Echo(p) => self.on_echo(format, shared, &w.from, p),
                }
            }
            while self.current.is_some() && self.advance(format, net, out)? {
                progress = true;
            }
            if !progress || self.done {
                return Ok(());
            }
        }
    }

    fn guarded(
        &mut self,
        f: impl FnOnce(&mut Self) -> Result<(), Stop>,
    ) {
        match catch_unwind(AssertUnwindSafe(|| f(self))) {
            Ok(Ok(())) => {}
            Ok(Err(Stop::Local(e))) => {
                self.report.outcome = Outcome::LocalError(e.0);
                self.done = true;
            }
            Err(p) => {
                self.report.outcome = Outcome::Panicked(panic_text(p));
                self.done = true;
            }
        }
    }
}

pub fn run<Id: PartyId, EP: EntryPoint<Id>>(
    format: FormatKind,
    session_id: &[u8],
    parties: Vec<(Id, EP, Box<dyn CryptoRngCore>)>,
    net: &mut dyn Network<Id>,
) -> Run<Id, EP::Protocol> {
    let format = BoxedFormat(format);
    let mut out: Vec<Wire<Id>> = vec![];
    let mut sessions: BTreeMap<Id, Party<Id, EP::Protocol>> = BTreeMap::new();
    for (id, ep, rng) in parties {
        let mut p = Party {
            id: id.clone(),
            rng,
            current: None,
            cached: vec![],
            transcript: BTreeMap::new(),
            packs: BTreeMap::new(),
            report: Report {
                outcome: Outcome::Stalled(0),
                provable_errors: BTreeMap::new(),
                unprovable_errors: BTreeMap::new(),
                rounds: vec![],
            },
            done: false,
        };
        let my = id.clone();
        p.guarded(|p| {
            let round = ep.make_round(&mut *p.rng, session_id, &my)?;
            p.start(round, &format, net, &mut out)?;
            Ok(())
        });
        sessions.insert(id, p);
    }
    // parties that expect nothing from anyone move on by themselves
    for p in sessions.values_mut().filter(|p| !p.done) {
        p.guarded(|p| p.step(&format, session_id, None, net, &mut out));
    }
    let mut sent = vec![];
    let mut pending: Vec<Wire<Id>> = vec![];
    loop {
        for w in out.drain(..) {
            if let Body::Regular(m) = &w.body {
                sent.push((w.from.clone(), w.to.clone(), w.round, m.clone()));
            }
            if net.duplicate() {
                pending.push(w.clone());
            }
            pending.push(w);
        }
        if pending.is_empty() {
            break;
        }
        let k = net.pick(pending.len()).min(pending.len() - 1);
        let mut w = pending.remove(k);
        if let Body::Regular(m) = &mut w.body {
            net.on_receive(&format, &w.from, &w.to, w.round, m);
        }
        if let Body::Echo(p) = &mut w.body {
            net.on_receive_echo(&w.from, &w.to, w.round, p);
        }
        if let Some(p) = sessions.get_mut(&w.to) {
            if !p.done {
                p.guarded(|p| p.step(&format, session_id, Some(w), net, &mut out));
            }
        }
    }
    let reports = sessions
        .into_iter()
        .map(|(id, mut p)| {
            if let (Outcome::Stalled(r), Some(c)) = (&mut p.report.outcome, &p.current) {
                *r = c.id;
            }
            (id, p.report)
        })
        .collect();
    Run { reports, sent }
}
