//! Deterministic keys, records and messages.

use std::path::Path;

use hyperborealib::prelude::*;
use hyperborealib::rest_api::prelude::{Client, Server};

/// The secret key whose scalar is `n`.
pub fn secret(n: u64) -> SecretKey {
    let mut bytes = [0_u8; 32];
    bytes[24..].copy_from_slice(&n.to_be_bytes());
    SecretKey::deserialize(bytes).unwrap()
}

/// The secret key of the opposite curve point: its public key differs from
/// that of `secret(n)` in one bit.
pub fn secret_neg(n: u64) -> SecretKey {
    SecretKey::deserialize((-k256::Scalar::from(n)).to_bytes()).unwrap()
}

pub fn public(n: u64) -> PublicKey { secret(n).public_key() }

/// Scalars whose public keys share the first eight base64 characters.
pub const SAME_PREFIX: (u64, u64) = (541447, 1097374);

/// Scalars whose public keys share the last six base64 characters.
pub const SAME_SUFFIX: (u64, u64) = (1020506, 1907433);

pub const TYPES: [ClientType; 4] = [ClientType::Thin, ClientType::Thick, ClientType::Server, ClientType::File];

/// A certificate with a chosen date.
pub fn cert(client: &SecretKey, server: &PublicKey, date: u64) -> ConnectionCertificate {
    let token = ConnectionToken::new(date, server.clone());
    let sign = client.create_signature(token.to_bytes());
    ConnectionCertificate { token, sign }
}

pub fn client(key: &SecretKey, server: &PublicKey, date: u64, info: ClientInfo) -> Client {
    Client::new(key.public_key(), cert(key, server, date), info)
}

pub fn server(n: u64, address: &str) -> Server { Server::new(public(n), address) }

/// A client of key `n` connected to server key `s`, distinguishable by `mark`.
pub fn marked_client(n: u64, s: u64, mark: u64, client_type: ClientType) -> Client {
    client(&secret(n), &public(s), 1_700_000_000 + mark, ClientInfo::new(client_type, Some(format!("addr{mark}.example"))))
}

pub fn sender(n: u64, s: u64) -> Sender {
    Sender::new(marked_client(n, s, n, ClientType::Thin), server(s, &format!("s{s}.example")))
}

/// A message distinguishable by `text` (not a genuinely encrypted one; the
/// inbox stores any).
pub fn plain(text: &str) -> Message {
    Message::new(text, format!("sign of {text}"), MessageEncoding::default())
}

/// A runtime without any driver: it parks on a condition variable.
pub fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap()
}

/// Number of files below a folder, and their total size.
pub fn tree(path: &Path) -> Vec<(String, Vec<u8>)> {
    fn walk(path: &Path, rel: &str, out: &mut Vec<(String, Vec<u8>)>) {
        let mut entries: Vec<_> = std::fs::read_dir(path).into_iter().flatten().flatten().collect();
        entries.sort_by_key(|e| e.file_name());
        for entry in entries {
            let name = format!("{rel}/{}", entry.file_name().to_string_lossy());
            if entry.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                out.push((format!("{name}/"), Vec::new()));
                walk(&entry.path(), &name, out);
            } else {
                out.push((name, std::fs::read(entry.path()).unwrap_or_default()));
            }
        }
    }
    let mut out = Vec::new();
    walk(path, "", &mut out);
    out
}
