pub mod misbehave {
    use crate::protocol::*;
    use rand_core::CryptoRngCore;
    use std::collections::BTreeMap;
    use std::fmt::{self, Debug};
    use std::marker::PhantomData;

    pub trait Behavior: 'static + Debug {}
    impl<T: 'static + Debug> Behavior for T {}

    pub enum FinalizeOverride<Id: PartyId, P: Protocol<Id>> {
        Override(FinalizeOutcome<Id, P>),
        UseDefault {
            round: BoxedRound<Id, P>,
            payloads: BTreeMap<Id, Payload>,
            artifacts: BTreeMap<Id, Artifact>,
        },
    }

    type Proto<Id, B, M> = <<M as Misbehaving<Id, B>>::EntryPoint as EntryPoint<Id>>::Protocol;

    pub trait Misbehaving<Id: PartyId, B: Behavior>: 'static {
        type EntryPoint: EntryPoint<Id> + Debug + 'static;

        fn modify_echo_broadcast(
            _rng: &mut dyn CryptoRngCore,
            _round: &BoxedRound<Id, <Self::EntryPoint as EntryPoint<Id>>::Protocol>,
            _behavior: &B,
            _format: &BoxedFormat,
            echo_broadcast: EchoBroadcast,
        ) -> Result<EchoBroadcast, LocalError> {
            Ok(echo_broadcast)
        }
        fn modify_normal_broadcast(
            _rng: &mut dyn CryptoRngCore,
            _round: &BoxedRound<Id, <Self::EntryPoint as EntryPoint<Id>>::Protocol>,
            _behavior: &B,
            _format: &BoxedFormat,
            normal_broadcast: NormalBroadcast,
        ) -> Result<NormalBroadcast, LocalError> {
            Ok(normal_broadcast)
        }
        fn modify_direct_message(
            _rng: &mut dyn CryptoRngCore,
            _round: &BoxedRound<Id, <Self::EntryPoint as EntryPoint<Id>>::Protocol>,
            _behavior: &B,
            _format: &BoxedFormat,
            _destination: &Id,
            direct_message: DirectMessage,
            artifact: Option<Artifact>,
        ) -> Result<(DirectMessage, Option<Artifact>), LocalError> {
            Ok((direct_message, artifact))
        }
        fn override_finalize(
            _rng: &mut dyn CryptoRngCore,
            round: BoxedRound<Id, <Self::EntryPoint as EntryPoint<Id>>::Protocol>,
            _behavior: &B,
            payloads: BTreeMap<Id, Payload>,
            artifacts: BTreeMap<Id, Artifact>,
        ) -> Result<FinalizeOverride<Id, <Self::EntryPoint as EntryPoint<Id>>::Protocol>, LocalError> {
            Ok(FinalizeOverride::UseDefault { round, payloads, artifacts })
        }
    }

    pub struct MisbehavingEntryPoint<Id: PartyId, B: Behavior, M: Misbehaving<Id, B>> {
        entry_point: M::EntryPoint,
        behavior: Option<B>,
        phantom: PhantomData<(Id, M)>,
    }
    impl<Id: PartyId, B: Behavior, M: Misbehaving<Id, B>> MisbehavingEntryPoint<Id, B, M> {
        pub fn new(entry_point: M::EntryPoint, behavior: Option<B>) -> Self {
            Self { entry_point, behavior, phantom: PhantomData }
        }
    }
    impl<Id: PartyId, B: Behavior, M: Misbehaving<Id, B>> EntryPoint<Id> for MisbehavingEntryPoint<Id, B, M> {
        type Protocol = Proto<Id, B, M>;
        fn make_round(
            self,
            rng: &mut dyn CryptoRngCore,
            shared_randomness: &[u8],
            id: &Id,
        ) -> Result<BoxedRound<Id, Self::Protocol>, LocalError> {
            let round = self.entry_point.make_round(rng, shared_randomness, id)?;
            Ok(match self.behavior {
                None => round,
                Some(behavior) => wrap::<Id, B, M>(round, behavior),
            })
        }
    }

    fn wrap<Id: PartyId, B: Behavior, M: Misbehaving<Id, B>>(
        round: BoxedRound<Id, Proto<Id, B, M>>,
        behavior: B,
    ) -> BoxedRound<Id, Proto<Id, B, M>> {
        BoxedRound::new_dynamic(Wrapped::<Id, B, M> { round, behavior, phantom: PhantomData })
    }

    struct Wrapped<Id: PartyId, B: Behavior, M: Misbehaving<Id, B>> {
        round: BoxedRound<Id, Proto<Id, B, M>>,
        behavior: B,
        phantom: PhantomData<M>,
    }
    impl<Id: PartyId, B: Behavior, M: Misbehaving<Id, B>> Debug for Wrapped<Id, B, M> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Wrapped")
        }
    }
    impl<Id: PartyId, B: Behavior, M: Misbehaving<Id, B>> Round<Id> for Wrapped<Id, B, M> {
        type Protocol = Proto<Id, B, M>;
        fn transition_info(&self) -> TransitionInfo {
            self.round.round().transition_info()
        }
        fn communication_info(&self) -> CommunicationInfo<Id> {
            self.round.round().communication_info()
        }
        fn make_echo_broadcast(&self, rng: &mut dyn CryptoRngCore, format: &BoxedFormat) -> Result<EchoBroadcast, LocalError> {
            let m = self.round.round().make_echo_broadcast(rng, format)?;
            M::modify_echo_broadcast(rng, &self.round, &self.behavior, format, m)
        }
        fn make_normal_broadcast(
            &self,
            rng: &mut dyn CryptoRngCore,
            format: &BoxedFormat,
        ) -> Result<NormalBroadcast, LocalError> {
            let m = self.round.round().make_normal_broadcast(rng, format)?;
            M::modify_normal_broadcast(rng, &self.round, &self.behavior, format, m)
        }
        fn make_direct_message(
            &self,
            rng: &mut dyn CryptoRngCore,
            format: &BoxedFormat,
            destination: &Id,
        ) -> Result<(DirectMessage, Option<Artifact>), LocalError> {
            let (m, a) = self.round.round().make_direct_message(rng, format, destination)?;
            M::modify_direct_message(rng, &self.round, &self.behavior, format, destination, m, a)
        }
        fn receive_message(
            &self,
            format: &BoxedFormat,
            from: &Id,
            message: ProtocolMessage,
        ) -> Result<Payload, ReceiveError<Id, Self::Protocol>> {
            self.round.round().receive_message(format, from, message)
        }
        fn finalize(
            self: Box<Self>,
            rng: &mut dyn CryptoRngCore,
            payloads: BTreeMap<Id, Payload>,
            artifacts: BTreeMap<Id, Artifact>,
        ) -> Result<FinalizeOutcome<Id, Self::Protocol>, LocalError> {
            let this = *self;
            let out = match M::override_finalize(rng, this.round, &this.behavior, payloads, artifacts)? {
                FinalizeOverride::Override(o) => o,
                FinalizeOverride::UseDefault { round, payloads, artifacts } => {
                    round.into_round().finalize(rng, payloads, artifacts)?
                }
            };
            Ok(match out {
                FinalizeOutcome::Result(r) => FinalizeOutcome::Result(r),
                FinalizeOutcome::AnotherRound(r) => FinalizeOutcome::AnotherRound(wrap::<Id, B, M>(r, this.behavior)),
            })
        }
    }
}
