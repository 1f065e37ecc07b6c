//! Stand-in for `easy-upnp` 0.2: the same public API (lazy iterators, the same
//! types and trait implementations), on a simulated gateway that never touches
//! the network. The gateway is controlled and inspected through [`sim`].

use serde::Deserialize;
use thiserror::Error;

/// Stand-in for `cidr_utils::cidr::Ipv4Cidr`.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Deserialize)]
pub struct Ipv4Cidr(pub [u8; 4], pub u8);

#[derive(Debug, Error)]
#[error("{0}")]
pub struct AddPortError(pub String);

#[derive(Debug, Error)]
#[error("{0}")]
pub struct SearchError(pub String);

#[derive(Debug, Error)]
pub enum Error {
    #[error("No matching gateway found")]
    NoMatchingGateway,

    #[error("Could not get interface address: {0}")]
    CannotGetInterfaceAddress(#[source] std::io::Error),

    #[error("Error adding port: {0}")]
    IgdAddPortError(#[from] AddPortError),

    #[error("Error searching for gateway: {0}")]
    IgdSearchError(#[from] SearchError)
}

type Result<R> = std::result::Result<R, Error>;

#[allow(clippy::upper_case_acronyms)]
#[derive(Clone, Copy, Debug, Deserialize)]
pub enum PortMappingProtocol {
    TCP,
    UDP
}

#[derive(Debug, Deserialize)]
pub struct UpnpConfig {
    pub address: Option<Ipv4Cidr>,
    pub port: u16,
    pub protocol: PortMappingProtocol,
    pub duration: u32,
    pub comment: String
}

pub fn add_ports(configs: impl IntoIterator<Item = UpnpConfig>) -> impl Iterator<Item = Result<()>> {
    configs.into_iter().map(|config| sim::add(&config))
}

pub fn delete_ports(configs: impl IntoIterator<Item = UpnpConfig>) -> impl Iterator<Item = Result<()>> {
    configs.into_iter().map(|config| sim::remove(&config))
}

/// The simulated gateway.
pub mod sim {
    use std::collections::BTreeMap;
    use std::sync::{Mutex, MutexGuard};

    use super::*;

    /// (port, is UDP)
    pub type Mapping = (u16, bool);

    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum Call {
        Add { mapping: Mapping, duration: u32, ok: bool },
        Remove { mapping: Mapping, ok: bool }
    }

    #[derive(Debug, Default)]
    pub struct Gateway {
        /// Mappings now on the gateway, with their lease.
        pub mappings: BTreeMap<Mapping, u32>,

        /// Every call made, in order.
        pub calls: Vec<Call>,

        /// Outcome of the next calls: bit n set means that the n-th call
        /// made from now on fails.
        pub fail_mask: u64,

        pub made: u32
    }

    static GATEWAY: Mutex<Option<Gateway>> = Mutex::new(None);

    pub fn gateway() -> MutexGuard<'static, Option<Gateway>> {
        GATEWAY.lock().unwrap_or_else(|err| err.into_inner())
    }

    /// Start over with an empty gateway.
    pub fn reset() {
        *gateway() = Some(Gateway::default());
    }

    fn with<T>(f: impl FnOnce(&mut Gateway) -> T) -> T {
        f(gateway().get_or_insert_with(Gateway::default))
    }

    fn next_fails(gateway: &mut Gateway) -> bool {
        let fails = gateway.made < 64 && gateway.fail_mask >> gateway.made & 1 == 1;

        gateway.made += 1;

        fails
    }

    pub(crate) fn add(config: &UpnpConfig) -> Result<()> {
        with(|gateway| {
            let mapping = (config.port, matches!(config.protocol, PortMappingProtocol::UDP));
            let ok = !next_fails(gateway);

            gateway.calls.push(Call::Add { mapping, duration: config.duration, ok });

            if !ok {
                return Err(Error::IgdAddPortError(AddPortError(String::from("simulated failure"))));
            }

            gateway.mappings.insert(mapping, config.duration);

            Ok(())
        })
    }

    pub(crate) fn remove(config: &UpnpConfig) -> Result<()> {
        with(|gateway| {
            let mapping = (config.port, matches!(config.protocol, PortMappingProtocol::UDP));
            let ok = !next_fails(gateway);

            gateway.calls.push(Call::Remove { mapping, ok });

            if !ok {
                return Err(Error::NoMatchingGateway);
            }

            gateway.mappings.remove(&mapping);

            Ok(())
        })
    }
}
