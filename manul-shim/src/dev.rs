use crate::engine;
use crate::protocol::{EntryPoint, LocalError, Protocol};
use crate::session::{FormatKind, SessionParameters, WireFormat};
use rand_core::{CryptoRngCore, SeedableRng as _};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::marker::PhantomData;

#[derive(Debug, Clone, Copy)]
pub struct BinaryFormat;
impl WireFormat for BinaryFormat {
    const KIND: FormatKind = FormatKind::Binary;
}
#[derive(Debug, Clone, Copy)]
pub struct HumanReadableFormat;
impl WireFormat for HumanReadableFormat {
    const KIND: FormatKind = FormatKind::Json;
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct TestSigner(u8);
impl TestSigner {
    pub fn new(id: u8) -> Self {
        Self(id)
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct TestVerifier(u8);
impl TestVerifier {
    pub fn index(&self) -> u8 {
        self.0
    }
}
impl signature::Keypair for TestSigner {
    type VerifyingKey = TestVerifier;
    fn verifying_key(&self) -> TestVerifier {
        TestVerifier(self.0)
    }
}

#[derive(Debug, Clone, Copy)]
pub struct TestSessionParams<F>(PhantomData<F>);
impl<F: WireFormat> SessionParameters for TestSessionParams<F> {
    type Signer = TestSigner;
    type Verifier = TestVerifier;
    type WireFormat = F;
}

pub struct ExecutionResult<P: Protocol<SP::Verifier>, SP: SessionParameters> {
    pub reports: BTreeMap<SP::Verifier, engine::Report<SP::Verifier, P>>,
}

impl<P: Protocol<SP::Verifier>, SP: SessionParameters> ExecutionResult<P, SP> {
    pub fn results(self) -> Result<BTreeMap<SP::Verifier, P::Result>, LocalError> {
        self.reports
            .into_iter()
            .map(|(id, r)| match r.outcome {
                engine::Outcome::Result(x) => Ok((id, x)),
                other => Err(LocalError::new(format!("{id:?}: no result: {other:?}"))),
            })
            .collect()
    }
}

/// Runs the sessions to the end, messages being delivered in the order they were sent.
pub fn run_sync<EP, SP>(
    rng: &mut impl CryptoRngCore,
    entry_points: Vec<(SP::Signer, EP)>,
) -> Result<ExecutionResult<EP::Protocol, SP>, LocalError>
where
    EP: EntryPoint<SP::Verifier>,
    SP: SessionParameters,
{
    use signature::Keypair;
    let mut session_id = [0u8; 32];
    rng.fill_bytes(&mut session_id);
    let mut parties: Vec<(SP::Verifier, EP, Box<dyn CryptoRngCore>)> = vec![];
    for (signer, ep) in entry_points {
        let mut seed = [0u8; 32];
        rng.fill_bytes(&mut seed);
        parties.push((signer.verifying_key(), ep, Box::new(rand_chacha::ChaCha8Rng::from_seed(seed))));
    }
    let run = engine::run(SP::WireFormat::KIND, &session_id, parties, &mut engine::Honest);
    if let Some((id, p)) = run.reports.iter().find_map(|(id, r)| match &r.outcome {
        engine::Outcome::Panicked(p) => Some((id, p)),
        _ => None,
    }) {
        panic!("{id:?} panicked: {p}");
    }
    Ok(ExecutionResult { reports: run.reports })
}
