use crate::session::{FormatKind, WireFormat};
use rand_core::CryptoRngCore;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{self, Debug, Display};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct LocalError(pub String);
impl LocalError {
    pub fn new(m: impl Into<String>) -> Self {
        Self(m.into())
    }
}
impl Display for LocalError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Local error: {}", self.0)
    }
}
impl std::error::Error for LocalError {}

pub trait PartyId: 'static + Debug + Clone + Ord + Send + Sync + Serialize + for<'de> Deserialize<'de> {}
impl<T> PartyId for T where T: 'static + Debug + Clone + Ord + Send + Sync + Serialize + for<'de> Deserialize<'de> {}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct RoundId(u8);
impl RoundId {
    pub fn new(n: u8) -> Self {
        Self(n)
    }
    pub fn num(&self) -> u8 {
        self.0
    }
}
impl From<u8> for RoundId {
    fn from(n: u8) -> Self {
        Self(n)
    }
}
impl PartialEq<u8> for RoundId {
    fn eq(&self, o: &u8) -> bool {
        self.0 == *o
    }
}
impl Display for RoundId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Round {}", self.0)
    }
}

#[derive(Debug, Clone, Copy)]
pub struct BoxedFormat(pub FormatKind);
impl BoxedFormat {
    pub fn new<F: WireFormat>() -> Self {
        Self(F::KIND)
    }
}

#[derive(Debug, Clone)]
pub enum MessageValidationError {
    Local(LocalError),
    InvalidEvidence(String),
}
impl From<LocalError> for MessageValidationError {
    fn from(e: LocalError) -> Self {
        Self::Local(e)
    }
}

#[derive(Debug, Clone)]
pub enum ProtocolValidationError {
    Local(LocalError),
    InvalidEvidence(String),
}
impl From<LocalError> for ProtocolValidationError {
    fn from(e: LocalError) -> Self {
        Self::Local(e)
    }
}

pub trait ProtocolMessagePart: Sized {
    type Error;
    fn none() -> Self;
    fn new<T: 'static + Serialize>(format: &BoxedFormat, message: T) -> Result<Self, LocalError>;
    fn is_none(&self) -> bool;
    fn assert_is_none(&self) -> Result<(), Self::Error>;
    fn verify_is_some(&self) -> Result<(), MessageValidationError>;
    fn verify_is_not<T: DeserializeOwned>(&self, format: &BoxedFormat) -> Result<(), MessageValidationError>;
    fn deserialize<T: DeserializeOwned>(&self, format: &BoxedFormat) -> Result<T, Self::Error>;
}

macro_rules! part {
    ($name:ident, $err:ident, $variant:ident) => {
        #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
        pub struct $name(pub Option<Vec<u8>>);
        #[derive(Debug, Clone)]
        pub struct $err(pub String);
        impl Display for $err {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(&self.0)
            }
        }
        impl ProtocolMessagePart for $name {
            type Error = $err;
            fn none() -> Self {
                Self(None)
            }
            fn new<T: 'static + Serialize>(format: &BoxedFormat, message: T) -> Result<Self, LocalError> {
                Ok(Self(Some(format.0.ser(message)?.into())))
            }
            fn is_none(&self) -> bool {
                self.0.is_none()
            }
            fn assert_is_none(&self) -> Result<(), $err> {
                match &self.0 {
                    None => Ok(()),
                    Some(_) => Err($err("The payload was expected to be `None`, but contains a message".into())),
                }
            }
            fn verify_is_some(&self) -> Result<(), MessageValidationError> {
                match &self.0 {
                    Some(_) => Ok(()),
                    None => Err(MessageValidationError::InvalidEvidence("the payload is `None`".into())),
                }
            }
            fn verify_is_not<T: DeserializeOwned>(&self, format: &BoxedFormat) -> Result<(), MessageValidationError> {
                match self.deserialize::<T>(format) {
                    Err(_) => Ok(()),
                    Ok(_) => Err(MessageValidationError::InvalidEvidence("the message deserialized successfully".into())),
                }
            }
            fn deserialize<T: DeserializeOwned>(&self, format: &BoxedFormat) -> Result<T, $err> {
                let bytes = self
                    .0
                    .as_ref()
                    .ok_or_else(|| $err("The payload is `None` and cannot be deserialized".into()))?;
                format.0.de(bytes).map_err(|e| $err(format!("Deserialization error: {e}")))
            }
        }
        impl From<$err> for ProtocolValidationError {
            fn from(e: $err) -> Self {
                Self::InvalidEvidence(format!("Failed to deserialize: {}", e.0))
            }
        }
        impl From<$err> for MessageValidationError {
            fn from(e: $err) -> Self {
                Self::InvalidEvidence(format!("Failed to deserialize: {}", e.0))
            }
        }
        impl<Id, P: Protocol<Id>> From<$err> for ReceiveError<Id, P> {
            fn from(e: $err) -> Self {
                Self(ReceiveErrorType::$variant(e))
            }
        }
    };
}
part!(EchoBroadcast, EchoBroadcastError, InvalidEchoBroadcast);
part!(NormalBroadcast, NormalBroadcastError, InvalidNormalBroadcast);
part!(DirectMessage, DirectMessageError, InvalidDirectMessage);

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ProtocolMessage {
    pub echo_broadcast: EchoBroadcast,
    pub normal_broadcast: NormalBroadcast,
    pub direct_message: DirectMessage,
}

#[derive(Debug, Clone)]
pub struct RemoteError(pub String);
impl RemoteError {
    pub fn new(s: impl Into<String>) -> Self {
        Self(s.into())
    }
}

pub struct ReceiveError<Id, P: Protocol<Id>>(pub ReceiveErrorType<Id, P>);
pub enum ReceiveErrorType<Id, P: Protocol<Id>> {
    Local(LocalError),
    InvalidEchoBroadcast(EchoBroadcastError),
    InvalidNormalBroadcast(NormalBroadcastError),
    InvalidDirectMessage(DirectMessageError),
    Protocol(P::ProtocolError),
    Unprovable(RemoteError),
}
impl<Id, P: Protocol<Id>> ReceiveError<Id, P> {
    pub fn local(m: impl Into<String>) -> Self {
        Self(ReceiveErrorType::Local(LocalError::new(m)))
    }
    pub fn unprovable(m: impl Into<String>) -> Self {
        Self(ReceiveErrorType::Unprovable(RemoteError::new(m)))
    }
    pub fn protocol(e: P::ProtocolError) -> Self {
        Self(ReceiveErrorType::Protocol(e))
    }
}
impl<Id, P: Protocol<Id>> From<LocalError> for ReceiveError<Id, P> {
    fn from(e: LocalError) -> Self {
        Self(ReceiveErrorType::Local(e))
    }
}
impl<Id, P: Protocol<Id>> From<RemoteError> for ReceiveError<Id, P> {
    fn from(e: RemoteError) -> Self {
        Self(ReceiveErrorType::Unprovable(e))
    }
}

pub struct Payload(Box<dyn Any>);
impl Payload {
    pub fn new<T: 'static>(v: T) -> Self {
        Self(Box::new(v))
    }
    pub fn empty() -> Self {
        Self::new(())
    }
    pub fn downcast<T: 'static>(self) -> Result<T, LocalError> {
        self.0
            .downcast::<T>()
            .map(|b| *b)
            .map_err(|_| LocalError::new(format!("failed to downcast a payload to {}", std::any::type_name::<T>())))
    }
}
impl Debug for Payload {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Payload")
    }
}

pub struct Artifact(Box<dyn Any>);
impl Artifact {
    pub fn new<T: 'static>(v: T) -> Self {
        Self(Box::new(v))
    }
    pub fn downcast<T: 'static>(self) -> Result<T, LocalError> {
        self.0
            .downcast::<T>()
            .map(|b| *b)
            .map_err(|_| LocalError::new(format!("failed to downcast an artifact to {}", std::any::type_name::<T>())))
    }
}
impl Debug for Artifact {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Artifact")
    }
}

pub enum FinalizeOutcome<Id: PartyId, P: Protocol<Id>> {
    AnotherRound(BoxedRound<Id, P>),
    Result(P::Result),
}

#[derive(Debug, Clone)]
pub struct TransitionInfo {
    pub id: RoundId,
    pub parents: BTreeSet<RoundId>,
    pub siblings: BTreeSet<RoundId>,
    pub children: BTreeSet<RoundId>,
    pub may_produce_result: bool,
}
impl TransitionInfo {
    pub fn new_linear(n: u8) -> Self {
        Self {
            id: n.into(),
            parents: if n > 1 { [RoundId(n - 1)].into() } else { [].into() },
            siblings: [].into(),
            children: [RoundId(n + 1)].into(),
            may_produce_result: false,
        }
    }
    pub fn new_linear_terminating(n: u8) -> Self {
        Self {
            children: [].into(),
            may_produce_result: true,
            ..Self::new_linear(n)
        }
    }
    pub fn with_children(mut self, children: BTreeSet<u8>) -> Self {
        self.children.extend(children.into_iter().map(RoundId));
        self
    }
    pub fn with_siblings(mut self, siblings: BTreeSet<u8>) -> Self {
        self.siblings.extend(siblings.into_iter().map(RoundId));
        self
    }
}

#[derive(Debug, Clone)]
pub enum EchoRoundParticipation<Id> {
    Default,
    Send,
    Receive { echo_targets: BTreeSet<Id> },
}

#[derive(Debug, Clone)]
pub struct CommunicationInfo<Id> {
    pub message_destinations: BTreeSet<Id>,
    pub expecting_messages_from: BTreeSet<Id>,
    pub echo_round_participation: EchoRoundParticipation<Id>,
}
impl<Id: PartyId> CommunicationInfo<Id> {
    pub fn regular(other: &BTreeSet<Id>) -> Self {
        Self {
            message_destinations: other.clone(),
            expecting_messages_from: other.clone(),
            echo_round_participation: EchoRoundParticipation::Default,
        }
    }
    pub fn none() -> Self {
        Self {
            message_destinations: BTreeSet::new(),
            expecting_messages_from: BTreeSet::new(),
            echo_round_participation: EchoRoundParticipation::Default,
        }
    }
}

pub trait EntryPoint<Id: PartyId> {
    type Protocol: Protocol<Id>;
    fn entry_round_id() -> RoundId {
        1.into()
    }
    fn make_round(
        self,
        rng: &mut dyn CryptoRngCore,
        shared_randomness: &[u8],
        id: &Id,
    ) -> Result<BoxedRound<Id, Self::Protocol>, LocalError>;
}

pub trait Protocol<Id>: 'static {
    type Result: Debug;
    type ProtocolError: ProtocolError<Id>;
    fn verify_direct_message_is_invalid(
        format: &BoxedFormat,
        round_id: &RoundId,
        message: &DirectMessage,
    ) -> Result<(), MessageValidationError>;
    fn verify_echo_broadcast_is_invalid(
        format: &BoxedFormat,
        round_id: &RoundId,
        message: &EchoBroadcast,
    ) -> Result<(), MessageValidationError>;
    fn verify_normal_broadcast_is_invalid(
        format: &BoxedFormat,
        round_id: &RoundId,
        message: &NormalBroadcast,
    ) -> Result<(), MessageValidationError>;
}

#[derive(Debug, Clone, Copy, Default)]
pub struct RequiredMessageParts {
    pub echo_broadcast: bool,
    pub normal_broadcast: bool,
    pub direct_message: bool,
}
impl RequiredMessageParts {
    pub fn echo_broadcast() -> Self {
        Self { echo_broadcast: true, ..Self::default() }
    }
    pub fn normal_broadcast() -> Self {
        Self { normal_broadcast: true, ..Self::default() }
    }
    pub fn direct_message() -> Self {
        Self { direct_message: true, ..Self::default() }
    }
    pub fn and_echo_broadcast(self) -> Self {
        Self { echo_broadcast: true, ..self }
    }
    pub fn and_normal_broadcast(self) -> Self {
        Self { normal_broadcast: true, ..self }
    }
    pub fn and_direct_message(self) -> Self {
        Self { direct_message: true, ..self }
    }
}

#[derive(Debug, Clone)]
pub struct RequiredMessages {
    pub this_round: RequiredMessageParts,
    pub previous_rounds: Option<BTreeMap<RoundId, RequiredMessageParts>>,
    pub combined_echos: Option<BTreeSet<RoundId>>,
}
impl RequiredMessages {
    pub fn new(
        this_round: RequiredMessageParts,
        previous_rounds: Option<BTreeMap<RoundId, RequiredMessageParts>>,
        combined_echos: Option<BTreeSet<RoundId>>,
    ) -> Self {
        Self { this_round, previous_rounds, combined_echos }
    }
}

pub trait ProtocolError<Id>: Display + Debug + Clone + Serialize + for<'de> Deserialize<'de> {
    type AssociatedData: Debug;
    fn required_messages(&self) -> RequiredMessages;
    #[allow(clippy::too_many_arguments)]
    fn verify_messages_constitute_error(
        &self,
        format: &BoxedFormat,
        guilty_party: &Id,
        shared_randomness: &[u8],
        associated_data: &Self::AssociatedData,
        message: ProtocolMessage,
        previous_messages: BTreeMap<RoundId, ProtocolMessage>,
        combined_echos: BTreeMap<RoundId, BTreeMap<Id, EchoBroadcast>>,
    ) -> Result<(), ProtocolValidationError>;
}

pub trait Round<Id: PartyId>: 'static + Debug {
    type Protocol: Protocol<Id>;
    fn transition_info(&self) -> TransitionInfo;
    fn communication_info(&self) -> CommunicationInfo<Id>;
    fn make_echo_broadcast(&self, _rng: &mut dyn CryptoRngCore, _format: &BoxedFormat) -> Result<EchoBroadcast, LocalError> {
        Ok(EchoBroadcast::none())
    }
    fn make_normal_broadcast(
        &self,
        _rng: &mut dyn CryptoRngCore,
        _format: &BoxedFormat,
    ) -> Result<NormalBroadcast, LocalError> {
        Ok(NormalBroadcast::none())
    }
    fn make_direct_message(
        &self,
        _rng: &mut dyn CryptoRngCore,
        _format: &BoxedFormat,
        _destination: &Id,
    ) -> Result<(DirectMessage, Option<Artifact>), LocalError> {
        Ok((DirectMessage::none(), None))
    }
    fn receive_message(
        &self,
        format: &BoxedFormat,
        from: &Id,
        message: ProtocolMessage,
    ) -> Result<Payload, ReceiveError<Id, Self::Protocol>>;
    fn finalize(
        self: Box<Self>,
        rng: &mut dyn CryptoRngCore,
        payloads: BTreeMap<Id, Payload>,
        artifacts: BTreeMap<Id, Artifact>,
    ) -> Result<FinalizeOutcome<Id, Self::Protocol>, LocalError>;
}

trait AnyRound<Id: PartyId, P: Protocol<Id>>: Round<Id, Protocol = P> {
    fn as_any(&self) -> &dyn Any;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
    fn as_round(&self) -> &dyn Round<Id, Protocol = P>;
    fn into_round(self: Box<Self>) -> Box<dyn Round<Id, Protocol = P>>;
}
impl<Id: PartyId, P: Protocol<Id>, R: Round<Id, Protocol = P>> AnyRound<Id, P> for R {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn into_any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
    fn as_round(&self) -> &dyn Round<Id, Protocol = P> {
        self
    }
    fn into_round(self: Box<Self>) -> Box<dyn Round<Id, Protocol = P>> {
        self
    }
}

pub struct BoxedRound<Id: PartyId, P: Protocol<Id>>(Box<dyn AnyRound<Id, P>>);
impl<Id: PartyId, P: Protocol<Id>> Debug for BoxedRound<Id, P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("BoxedRound")
    }
}
impl<Id: PartyId, P: Protocol<Id>> Debug for FinalizeOutcome<Id, P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("FinalizeOutcome")
    }
}
impl<Id, P: Protocol<Id>> Debug for ReceiveError<Id, P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.0 {
            ReceiveErrorType::Local(e) => write!(f, "{e}"),
            ReceiveErrorType::InvalidEchoBroadcast(e) => write!(f, "Echo broadcast error: {e}"),
            ReceiveErrorType::InvalidNormalBroadcast(e) => write!(f, "Normal broadcast error: {e}"),
            ReceiveErrorType::InvalidDirectMessage(e) => write!(f, "Direct message error: {e}"),
            ReceiveErrorType::Protocol(e) => write!(f, "Protocol error: {e}"),
            ReceiveErrorType::Unprovable(e) => write!(f, "Unprovable error: {}", e.0),
        }
    }
}
impl<Id: PartyId, P: Protocol<Id>> BoxedRound<Id, P> {
    pub fn new_dynamic<R: Round<Id, Protocol = P>>(round: R) -> Self {
        Self(Box::new(round))
    }
    pub fn id(&self) -> RoundId {
        self.0.transition_info().id
    }
    pub fn round(&self) -> &dyn Round<Id, Protocol = P> {
        self.0.as_round()
    }
    pub fn into_round(self) -> Box<dyn Round<Id, Protocol = P>> {
        self.0.into_round()
    }
    pub fn downcast_ref<T: Round<Id>>(&self) -> Result<&T, LocalError> {
        self.0
            .as_any()
            .downcast_ref::<T>()
            .ok_or_else(|| LocalError::new(format!("failed to downcast a round to {}", std::any::type_name::<T>())))
    }
    pub fn downcast<T: Round<Id>>(self) -> Result<T, LocalError> {
        self.0
            .into_any()
            .downcast::<T>()
            .map(|b| *b)
            .map_err(|_| LocalError::new(format!("failed to downcast a round to {}", std::any::type_name::<T>())))
    }
}
