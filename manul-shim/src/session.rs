use serde::{de::DeserializeOwned, Serialize};
use std::fmt::Debug;

pub use crate::protocol::LocalError;

/// The formats known to the stand-in.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FormatKind {
    Binary,
    Json,
}

impl FormatKind {
    pub fn ser<T: Serialize>(self, value: T) -> Result<Box<[u8]>, LocalError> {
        use bincode::Options;
        match self {
            FormatKind::Binary => bincode::DefaultOptions::new()
                .with_fixint_encoding()
                .serialize(&value)
                .map(Into::into)
                .map_err(|e| LocalError::new(format!("serialization: {e}"))),
            FormatKind::Json => serde_json::to_vec(&value)
                .map(Into::into)
                .map_err(|e| LocalError::new(format!("serialization: {e}"))),
        }
    }
    pub fn de<T: DeserializeOwned>(self, bytes: &[u8]) -> Result<T, String> {
        use bincode::Options;
        match self {
            FormatKind::Binary => bincode::DefaultOptions::new()
                .with_fixint_encoding()
                .with_limit(1 << 24)
                .deserialize(bytes)
                .map_err(|e| e.to_string()),
            FormatKind::Json => serde_json::from_slice(bytes).map_err(|e| e.to_string()),
        }
    }
}

pub trait WireFormat: 'static + Debug {
    const KIND: FormatKind;
    fn serialize<T: Serialize>(value: T) -> Result<Box<[u8]>, LocalError> {
        Self::KIND.ser(value)
    }
    fn deserialize<T: DeserializeOwned>(bytes: &[u8]) -> Result<T, String> {
        Self::KIND.de(bytes)
    }
}

pub trait SessionParameters: 'static + Debug {
    type Signer: Clone + Debug + signature::Keypair<VerifyingKey = Self::Verifier>;
    type Verifier: crate::protocol::PartyId;
    type WireFormat: WireFormat;
}
