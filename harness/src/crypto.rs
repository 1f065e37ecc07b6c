//! C01-C04: messages, encodings, keys and signatures.

use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

use hyperborealib::prelude::*;
use k256::elliptic_curve::point::AffineCoordinates;
use k256::elliptic_curve::sec1::ToEncodedPoint;
use k256::sha2::{Digest, Sha256};
use serde_json::json;

use crate::clients::{b64, genuine, high_s, unb64};
use crate::fixture::*;
use crate::report::*;

// ------------------------------------------------ an independent reading of the protocol

const INFO: [u8; 64] = [
    162, 241, 203, 77, 49, 90, 31, 126, 67, 94, 191, 219, 56, 141, 46, 233,
    70, 18, 207, 194, 52, 154, 176, 139, 244, 222, 155, 110, 177, 91, 32, 218,
    150, 232, 148, 23, 13, 172, 48, 131, 95, 216, 144, 224, 163, 106, 254, 135,
    93, 220, 84, 116, 42, 3, 211, 57, 186, 174, 208, 121, 253, 185, 210, 240
];

const AES_NONCE: [u8; 12] = [234, 90, 0, 39, 141, 73, 94, 100, 178, 97, 128, 118];
const CHACHA_NONCE: [u8; 12] = [197, 93, 164, 33, 103, 79, 137, 143, 186, 253, 74, 220];

fn hmac(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut block = [0_u8; 64];
    if key.len() > 64 { block[..32].copy_from_slice(&Sha256::digest(key)); } else { block[..key.len()].copy_from_slice(key); }
    let mut inner = Sha256::new();
    inner.update(block.map(|b| b ^ 0x36));
    for part in parts { inner.update(part); }
    let mut outer = Sha256::new();
    outer.update(block.map(|b| b ^ 0x5c));
    outer.update(inner.finalize());
    outer.finalize().into()
}

/// HKDF-SHA256 over the x coordinate of the common point.
pub fn shared(secret: &SecretKey, public: &PublicKey, salt: Option<&[u8]>) -> [u8; 32] {
    let scalar = *k256::SecretKey::from_slice(&secret.serialize()).unwrap().to_nonzero_scalar();
    let point = k256::PublicKey::from_sec1_bytes(&public.to_bytes()).unwrap().to_projective();
    let x = (point * scalar).to_affine().x();
    let prk = hmac(salt.unwrap_or(&[]), &[&x]);
    hmac(&prk, &[&INFO, &[1]])
}

fn encrypted(how: Encryption, key: &[u8; 32], data: &[u8]) -> Vec<u8> {
    use aes_gcm::{aead::Aead, KeyInit};
    match how {
        Encryption::None => data.to_vec(),
        Encryption::Aes256Gcm => aes_gcm::Aes256Gcm::new(key.into()).encrypt(&AES_NONCE.into(), data).unwrap(),
        Encryption::ChaCha20Poly1305 => chacha20poly1305::ChaCha20Poly1305::new(key.into()).encrypt(&CHACHA_NONCE.into(), data).unwrap()
    }
}

fn decrypted(how: Encryption, key: &[u8; 32], data: &[u8]) -> Option<Vec<u8>> {
    use aes_gcm::{aead::Aead, KeyInit};
    match how {
        Encryption::None => Some(data.to_vec()),
        Encryption::Aes256Gcm => aes_gcm::Aes256Gcm::new(key.into()).decrypt(&AES_NONCE.into(), data).ok(),
        Encryption::ChaCha20Poly1305 => chacha20poly1305::ChaCha20Poly1305::new(key.into()).decrypt(&CHACHA_NONCE.into(), data).ok()
    }
}

/// Reads standard brotli only, and the whole of it.
fn unbrotli(data: &[u8]) -> Option<Vec<u8>> {
    let alloc = brotli::enc::StandardAlloc::default;
    let mut state = brotli::BrotliState::new_strict(alloc(), alloc(), alloc());
    let mut out = Vec::new();
    let (mut left, mut at, mut total) = (data.len(), 0, 0);
    loop {
        let mut buffer = [0_u8; 65536];
        let (mut room, mut end) = (buffer.len(), 0);
        let result = brotli::BrotliDecompressStream(&mut left, &mut at, data, &mut room, &mut end, &mut buffer, &mut total, &mut state);
        out.extend_from_slice(&buffer[..end]);
        match result {
            brotli::BrotliResult::ResultSuccess => return (left == 0).then_some(out),
            brotli::BrotliResult::NeedsMoreOutput => (),
            _ => return None
        }
    }
}

fn inflate(data: &[u8]) -> Option<Vec<u8>> {
    let mut state = flate2::Decompress::new(false);
    let mut out = Vec::new();
    loop {
        out.reserve(65536);
        let (was_in, was_out) = (state.total_in(), state.total_out());
        let status = state.decompress_vec(&data[was_in as usize..], &mut out, flate2::FlushDecompress::None).ok()?;
        if status == flate2::Status::StreamEnd { return (state.total_in() as usize == data.len()).then_some(out); }
        if state.total_in() == was_in && state.total_out() == was_out { return None; }
    }
}

fn decompressed(how: Compression, data: &[u8]) -> Option<Vec<u8>> {
    match how {
        Compression::None => Some(data.to_vec()),
        Compression::Deflate => inflate(data),
        Compression::Brotli => unbrotli(data)
    }
}

/// Every way another implementation may compress.
fn compressions(how: Compression, data: &[u8]) -> Vec<Vec<u8>> {
    use std::io::Write;
    match how {
        Compression::None => vec![data.to_vec()],
        Compression::Deflate => [0, 1, 4, 6, 9].iter().map(|level| {
            let mut encoder = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::new(*level));
            encoder.write_all(data).unwrap();
            encoder.finish().unwrap()
        }).collect(),
        Compression::Brotli => [(0, 22), (1, 10), (5, 16), (9, 24), (11, 22)].iter().map(|(quality, window)| {
            let params = brotli::enc::BrotliEncoderParams { quality: *quality, lgwin: *window, ..Default::default() };
            let mut out = Vec::new();
            brotli::BrotliCompress(&mut &data[..], &mut out, &params).unwrap();
            out
        }).collect()
    }
}

const LEVELS: [CompressionLevel; 3] = [CompressionLevel::Fast, CompressionLevel::Balanced, CompressionLevel::Quality];
const ENCRYPTIONS: [Encryption; 3] = [Encryption::None, Encryption::Aes256Gcm, Encryption::ChaCha20Poly1305];
const COMPRESSIONS: [Compression; 3] = [Compression::None, Compression::Deflate, Compression::Brotli];

pub fn encodings() -> Vec<MessageEncoding> {
    let mut out = Vec::new();
    for encryption in ENCRYPTIONS { for compression in COMPRESSIONS { out.push(MessageEncoding::new(Encoding::Base64, encryption, compression)); } }
    out
}

/// The documented name.
pub fn encoding_name(e: &MessageEncoding) -> String {
    let mut name = String::from("base64");
    match e.encryption { Encryption::None => (), Encryption::Aes256Gcm => name += "/aes256-gcm", Encryption::ChaCha20Poly1305 => name += "/chacha20-poly1305" }
    match e.compression { Compression::None => (), Compression::Deflate => name += "/deflate", Compression::Brotli => name += "/brotli" }
    name
}

/// Bytes of a length: constant, ramp, text or incompressible.
fn fill(kind: usize, len: usize) -> Vec<u8> {
    let mut x = 0x9e3779b97f4a7c15_u64 ^ len as u64;
    (0..len).map(|n| match kind {
        0 => 0,
        1 => (n % 251) as u8 ^ (n >> 8) as u8,
        2 => b"the quick brown fox jumps over the lazy dog. "[n % 45],
        _ => { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 24) as u8 }
    }).collect()
}

/// A grid of secret scalars, with the boundaries of the group.
pub fn grid() -> Vec<SecretKey> {
    let hex = |text: &str| SecretKey::deserialize((0..32).map(|n| u8::from_str_radix(&text[n * 2..n * 2 + 2], 16).unwrap()).collect::<Vec<_>>()).unwrap();
    vec![
        secret(1), secret(2), secret(3), secret_neg(1), secret_neg(2),
        hex("0000000000000000000000000000000100000000000000000000000000000000"),
        hex("8000000000000000000000000000000000000000000000000000000000000000"),
        hex("7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0"),
        hex("7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a1"),
        hex("00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff"),
        hex("0123456789abcdeffedcba98765432100123456789abcdeffedcba9876543210"),
        hex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364000"),
        secret(541447)
    ]
}

// ---------------------------------------------------------------- C01

fn contains(haystack: &[u8], needle: &[u8]) -> bool { haystack.windows(needle.len()).any(|w| w == needle) }

/// One message from `a` to `b`, sent as JSON text.
fn exchange(rep: &mut Rep, a: &SecretKey, b: &SecretKey, payload: &[u8], encoding: MessageEncoding, level: CompressionLevel, tag: &str) -> bool {
    if rep.failed() { return false; }
    rep.eval();
    let case = format!("{} {level:?} {tag}", encoding_name(&encoding));
    rep.case(&case);
    let detail = json!({ "encoding": encoding_name(&encoding), "level": format!("{level:?}"), "payload": tag, "length": payload.len() });
    let result = guard(|| -> Result<(), String> {
        let message = Message::create(a, &b.public_key(), payload, encoding, level).map_err(|e| format!("creating failed: {e}"))?;
        let text = message.to_json().map_err(|e| format!("writing failed: {e}"))?.to_string();
        let document = serde_json::from_str(&text).map_err(|e| format!("not JSON: {e}"))?;
        let received = Message::from_json(&document).map_err(|e| format!("parsing failed: {e}"))?;
        let read = received.read(b, &a.public_key()).map_err(|e| format!("reading failed: {e}"))?;
        if read != payload { return Err(format!("read {} bytes that differ from the sender's {}", read.len(), payload.len())); }

        // What another implementation makes of it.
        let key = shared(b, &a.public_key(), None);
        let open = |text: &str, what: &str| -> Result<Vec<u8>, String> {
            let bytes = unb64(text).ok_or_else(|| format!("the {what} is not URL-safe base64"))?;
            let bytes = decrypted(encoding.encryption, &key, &bytes).ok_or_else(|| format!("the {what} cannot be decrypted by another implementation"))?;
            decompressed(encoding.compression, &bytes).ok_or_else(|| format!("the {what} cannot be decompressed by another implementation"))
        };
        if open(&message.content, "content")? != payload { return Err("another implementation reads another content".into()); }
        if !genuine(&a.public_key(), payload, &open(&message.sign, "signature")?) { return Err("another implementation finds no valid signature".into()); }

        // What an eavesdropper sees.
        if encoding.encryption != Encryption::None {
            let sign = open(&message.sign, "signature")?;
            for field in [&message.content, &message.sign] {
                let raw = unb64(field).unwrap();
                for form in compressions(encoding.compression, payload).iter().chain([&payload.to_vec(), &sign]) {
                    if form.len() >= 6 && contains(&raw, form) { return Err("an encrypted message shows its plaintext form".into()); }
                }
            }
        }
        Ok(())
    }).and_then(|r| r);
    if let Err(what) = result {
        rep.fail(case, what, detail);
        return false;
    }
    true
}

/// Messages made by another implementation.
fn foreign(rep: &mut Rep, a: &SecretKey, b: &SecretKey, payload: &[u8], encoding: MessageEncoding, tag: &str) {
    let key = shared(a, &b.public_key(), None);
    let sign = {
        use k256::ecdsa::signature::Signer;
        let sign: k256::ecdsa::Signature = k256::ecdsa::SigningKey::from_slice(&a.serialize()).unwrap().sign(payload);
        sign.to_vec()
    };
    for (n, content) in compressions(encoding.compression, payload).iter().enumerate() {
        for packed in compressions(encoding.compression, &sign) {
            if rep.failed() { return; }
            rep.eval();
            let message = Message::new(b64(&encrypted(encoding.encryption, &key, content)), b64(&encrypted(encoding.encryption, &key, &packed)), encoding);
            let read = guard(|| message.read(b, &a.public_key()).map_err(|e| e.to_string())).and_then(|r| r);
            if read.as_deref() != Ok(payload) {
                rep.fail(format!("foreign {} {n} {tag}", encoding_name(&encoding)), format!("a message of another implementation is read as {:?}", read.map(|r| r.len())), json!({ "message": message.to_json().unwrap_or_default() }));
            }
        }
    }
}

pub fn c01(tier: Tier) -> Property {
    let quick = tier == Tier::Quick;
    let mut units = Vec::new();
    let lengths: usize = if quick { 300 } else { 1200 };
    for (e, encoding) in encodings().into_iter().enumerate() {
        for kind in 0..4 {
            units.push(Unit::new(format!("lengths {} fill {kind}", encoding_name(&encoding)), move |rep| {
                let (a, b) = (secret(3 + e as u64), secret(70));
                for len in 0..=lengths {
                    let payload = fill(kind, len);
                    for level in LEVELS {
                        if !exchange(rep, &a, &b, &payload, encoding, level, &format!("fill {kind} length {len}")) { return; }
                        rep.nontrivial(&(e, kind, len, format!("{level:?}")));
                    }
                }
                rep.sample(|| json!({ "encoding": encoding_name(&encoding), "fill": kind, "lengths": lengths }));
            }));
        }
        units.push(Unit::new(format!("boundaries {}", encoding_name(&encoding)), move |rep| {
            let (a, b) = (secret(5), secret(6));
            let mut all = Vec::new();
            for base in [1024_usize, 4096, 8192, 16384, 32768, 65536, 131072] { for d in 0..3 { all.push(base - 1 + d); } }
            for len in all {
                for kind in 0..4 {
                    for level in LEVELS {
                        if level == CompressionLevel::Quality && encoding.compression == Compression::Brotli && len > 17000 && (rep.quick() || kind == 3) { continue; }
                        if !exchange(rep, &a, &b, &fill(kind, len), encoding, level, &format!("fill {kind} length {len}")) { return; }
                        rep.nontrivial(&(e, kind, len, format!("{level:?}")));
                    }
                }
            }
        }));
        units.push(Unit::new(format!("short {}", encoding_name(&encoding)), move |rep| {
            let (a, b) = (secret(7), secret(8));
            let mut all: Vec<Vec<u8>> = (0..=255_u8).map(|x| vec![x]).collect();
            let menu: Vec<u8> = if rep.quick() { vec![0, 1, 3, 10, 13, 32, 34, 47, 61, 92, 127, 128, 194, 224, 254, 255] } else { (0..=255).collect() };
            for x in &menu { for y in &menu { all.push(vec![*x, *y]); } }
            for payload in &all {
                let levels: &[CompressionLevel] = if payload.len() == 2 { &[CompressionLevel::Balanced] } else { &LEVELS };
                for level in levels {
                    if !exchange(rep, &a, &b, payload, encoding, *level, &format!("bytes {payload:?}")) { return; }
                    rep.nontrivial(&(e, payload, format!("{level:?}")));
                }
            }
        }));
        units.push(Unit::new(format!("keys {}", encoding_name(&encoding)), move |rep| {
            for (i, a) in grid().iter().enumerate() {
                for (j, b) in grid().iter().enumerate() {
                    for payload in [fill(0, 0), fill(2, 1), fill(2, 200)] {
                        if !exchange(rep, a, b, &payload, encoding, CompressionLevel::Balanced, &format!("keys {i} {j} length {}", payload.len())) { return; }
                        rep.nontrivial(&(e, i, j, payload.len()));
                    }
                    foreign(rep, a, b, &fill(2, 100), encoding, &format!("keys {i} {j}"));
                }
            }
        }));
        units.push(Unit::new(format!("foreign {}", encoding_name(&encoding)), move |rep| {
            for kind in 0..4 {
                for len in (0..70).chain([255, 256, 257, 1000, 4096, 65535, 65536, 70000]) {
                    foreign(rep, &secret(9), &secret(10), &fill(kind, len), encoding, &format!("fill {kind} length {len}"));
                }
            }
        }));
        units.push(Unit::new(format!("powers {}", encoding_name(&encoding)), move |rep| {
            for power in 17..=(if rep.quick() { 22 } else { 25 }) {
                for kind in [0, 2] {
                    let len = (1_usize << power) + 1;
                    if !exchange(rep, &secret(13), &secret(14), &fill(kind, len), encoding, CompressionLevel::Fast, &format!("fill {kind} length {len}")) { return; }
                    rep.nontrivial(&(e, kind, len, "Fast"));
                }
            }
        }));
        if !quick {
            for kind in 0..4 {
                units.push(Unit::new(format!("large {} fill {kind}", encoding_name(&encoding)), move |rep| {
                    for level in LEVELS {
                        let len = if level == CompressionLevel::Quality { 300_001 } else { 3_000_001 };
                        exchange(rep, &secret(11), &secret(12), &fill(kind, len), encoding, level, &format!("fill {kind} length {len}"));
                        rep.nontrivial(&(e, kind, len));
                    }
                }));
            }
        }
    }
    units.push(Unit::new("recorded", |rep| {
        // Texts made by earlier versions of this library and its documentation.
        let key = b"example 32 bytes long key ......";
        for (name, text, plain) in [("base64/chacha20-poly1305/brotli", "6aHXWENbkDrFuBQxQIa5RiPGgQ1_Je2rVeYw7Zt19VB8", &b"Hello, World!"[..])] {
            rep.eval();
            let read = guard(|| MessageEncoding::from_str(name).unwrap().backward(text, key).map_err(|e| e.to_string())).and_then(|r| r);
            if read.as_deref() != Ok(plain) { rep.fail(name, format!("a recorded text is read as {read:?}"), json!({ "text": text })); }
        }
        // A stream with the large window, as earlier versions of this library made them.
        let mut params = brotli::enc::BrotliEncoderParams { quality: 11, ..Default::default() };
        params.large_window = true;
        for len in 0..300 {
            rep.eval();
            let mut out = Vec::new();
            brotli::BrotliCompress(&mut &fill(2, len)[..], &mut out, &params).unwrap();
            let read = guard(|| Compression::Brotli.decompress(&out).map_err(|e| e.to_string())).and_then(|r| r);
            if read.as_deref() != Ok(&fill(2, len)[..]) { rep.fail(format!("large window {len}"), format!("an earlier version's stream is read as {read:?}"), json!({})); }
        }
    }));
    Property {
        id: "C01",
        level: Level::Exploration,
        rule: "payload x encoding x level x key pair; every message is created, sent as JSON text, read back, and decoded by an independent implementation; every one is non-trivial and counted once",
        assumptions: vec!["the k256, aes-gcm, chacha20poly1305, flate2 and brotli crates implement their algorithms", "the HKDF info and the nonces of the protocol are the ones declared in the code"],
        bounds: json!({ "every_length_to": lengths, "fills": 4, "boundary_lengths_to": if quick { (1 << 22) + 1 } else { (1 << 25) + 1 }, "key_grid": grid().len() }),
        units
    }
}

// ---------------------------------------------------------------- C02

/// Edits of a text: every substitution, insertion, deletion, truncation and swap.
pub fn edits(text: &str, alphabet: &[char]) -> BTreeSet<String> {
    let chars: Vec<char> = text.chars().collect();
    let mut out = BTreeSet::new();
    for n in 0..=chars.len() {
        out.insert(chars[..n].iter().collect());
        out.insert(chars[n..].iter().collect());
        for c in alphabet {
            let mut edit = chars.clone();
            edit.insert(n, *c);
            out.insert(edit.iter().collect());
            if n < chars.len() {
                let mut edit = chars.clone();
                edit[n] = *c;
                out.insert(edit.iter().collect());
            }
        }
        if n < chars.len() {
            let mut edit = chars.clone();
            edit.remove(n);
            out.insert(edit.iter().collect());
            if n + 1 < chars.len() {
                let mut edit = chars.clone();
                edit.swap(n, n + 1);
                out.insert(edit.iter().collect());
            }
        }
    }
    out.remove(text);
    out
}

struct Forged<'a> { message: &'a Message, receiver: &'a SecretKey, sender: &'a PublicKey, signed: Option<&'a [u8]>, why: String }

/// Reading must fail, unless the result is exactly `signed`.
fn refused(rep: &mut Rep, f: Forged) -> bool {
    if rep.failed() { return false; }
    rep.eval();
    let got = guard(|| f.message.read(f.receiver, f.sender).map_err(|e| e.to_string()));
    let bad = match &got {
        Err(panic) => Some(panic.clone()),
        Ok(Ok(bytes)) if f.signed != Some(&bytes[..]) => Some(format!("read as {bytes:?}")),
        _ => None
    };
    if let Some(bad) = bad {
        rep.fail(&f.why, format!("{}: {bad}", f.why), json!({ "content": f.message.content, "sign": f.message.sign, "encoding": encoding_name(&f.message.encoding) }));
        return false;
    }
    true
}

fn payloads() -> Vec<Vec<u8>> { vec![Vec::new(), b"hi".to_vec(), b"pay 100 coins to the bearer".to_vec()] }

fn base64_alphabet(quick: bool) -> Vec<char> {
    let mut out: Vec<char> = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_".chars().collect();
    if quick { out = "AQghw-_9".chars().collect(); }
    out.extend(['=', '+', '/', ' ', '\n', '\0', 'é']);
    out
}

pub fn c02(tier: Tier) -> Property {
    let quick = tier == Tier::Quick;
    let mut units = Vec::new();
    let level = CompressionLevel::Balanced;
    for encoding in encodings() {
        let name = encoding_name(&encoding);
        for (p, payload) in payloads().into_iter().enumerate() {
            units.push(Unit::new(format!("edits {name} payload {p}"), move |rep| {
                let (a, b) = (secret(3), secret(4));
                let message = Message::create(&a, &b.public_key(), &payload, encoding, level).unwrap();
                let exact = (encoding.encryption == Encryption::None).then_some(&payload[..]);
                for field in ["content", "sign"] {
                    let text = if field == "content" { message.content.clone() } else { message.sign.clone() };
                    for edit in edits(&text, &base64_alphabet(quick)) {
                        rep.nontrivial(&(field, &edit));
                        let mut altered = message.clone();
                        if field == "content" { altered.content = edit.clone(); } else { altered.sign = edit.clone(); }
                        if !refused(rep, Forged { message: &altered, receiver: &b, sender: &a.public_key(), signed: exact, why: format!("{field} altered to {edit:?}") }) { return; }
                    }
                    // The same at the level of bytes.
                    let raw = unb64(&text).unwrap();
                    let mut all = Vec::new();
                    for n in 0..raw.len() {
                        for bit in 0..8 { let mut edit = raw.clone(); edit[n] ^= 1 << bit; all.push(edit); }
                        all.push(raw[..n].to_vec());
                        all.push(raw[n + 1..].to_vec());
                    }
                    for x in 0..=255_u8 { let mut edit = raw.clone(); edit.push(x); all.push(edit); }
                    for edit in all {
                        rep.nontrivial(&(field, &edit));
                        let mut altered = message.clone();
                        if field == "content" { altered.content = b64(&edit); } else { altered.sign = b64(&edit); }
                        if !refused(rep, Forged { message: &altered, receiver: &b, sender: &a.public_key(), signed: exact, why: format!("{field} bytes altered to {edit:?}") }) { return; }
                    }
                }
                // The content replaced by other well-formed contents, keeping the signature.
                for other in payloads().into_iter().chain([b"hI".to_vec(), b"hi\0".to_vec(), b"h".to_vec(), b"pay 900 coins to the bearer".to_vec()]) {
                    if other == payload { continue; }
                    let mut altered = message.clone();
                    altered.content = encoding.forward(&other, &shared(&a, &b.public_key(), None), level).unwrap();
                    rep.nontrivial(&("other", &other));
                    if !refused(rep, Forged { message: &altered, receiver: &b, sender: &a.public_key(), signed: None, why: format!("content replaced by {other:?}") }) { return; }
                }
                // The signature replaced by a well-formed one that is not the sender's.
                let good = a.create_signature(&payload);
                let half = |n: usize| good[n * 32..n * 32 + 32].to_vec();
                let n_bytes = unb64("_____________________rqu3OavSKA7v9JejNA2QUE=").unwrap();
                let mut signs = vec![
                    high_s(&good), secret(9).create_signature(&payload), b.create_signature(&payload), secret_neg(3).create_signature(&payload),
                    a.create_signature(Sha256::digest(&payload)), Vec::new(), vec![0; 64], vec![1; 64], vec![255; 64], [half(1), half(0)].concat(), [half(0), half(0)].concat(),
                    [half(0), vec![0; 32]].concat(), [vec![0; 32], half(1)].concat(), [half(0), n_bytes.clone()].concat(), [n_bytes, half(1)].concat(),
                    [good.clone(), vec![0]].concat(), [vec![0], good.clone()].concat(), good[..63].to_vec(), good[1..].to_vec(), [good.clone(), good.clone()].concat()
                ];
                for other in payloads().into_iter().filter(|o| *o != payload) { signs.push(a.create_signature(other)); }
                for sign in signs {
                    let mut altered = message.clone();
                    altered.sign = encoding.forward(&sign, &shared(&a, &b.public_key(), None), level).unwrap();
                    rep.nontrivial(&("sign", &sign));
                    if !refused(rep, Forged { message: &altered, receiver: &b, sender: &a.public_key(), signed: None, why: format!("signature replaced by {sign:?}") }) { return; }
                }
                // Other labels.
                for other in encodings() {
                    if other == encoding { continue; }
                    let altered = Message { encoding: other, ..message.clone() };
                    let exact = exact.filter(|_| other.encryption == Encryption::None);
                    rep.nontrivial(&("label", encoding_name(&other)));
                    if !refused(rep, Forged { message: &altered, receiver: &b, sender: &a.public_key(), signed: exact, why: format!("label {name} changed to {}", encoding_name(&other), name = encoding_name(&encoding)) }) { return; }
                }
                // Other claimed senders, and other readers.
                let mut others = grid();
                others.extend([secret_neg(3), secret_neg(4), secret(4), secret(9)]);
                for (n, other) in others.iter().enumerate() {
                    rep.nontrivial(&("key", n));
                    if *other != a && !refused(rep, Forged { message: &message, receiver: &b, sender: &other.public_key(), signed: None, why: format!("claimed to be sent by key {n}") }) { return; }
                    // The opposite of a key has the same shared secrets.
                    if encoding.encryption == Encryption::None || [&a, &b, &secret_neg(3), &secret_neg(4)].contains(&other) { continue; }
                    for sender in [a.public_key(), b.public_key(), other.public_key()] {
                        if !refused(rep, Forged { message: &message, receiver: other, sender: &sender, signed: None, why: format!("read with secret key {n}") }) { return; }
                        let opened = guard(|| encoding.backward(&message.content, &other.create_shared_secret(&sender, None)).is_ok());
                        if opened != Ok(false) { rep.fail(format!("opened with secret key {n}"), format!("decrypting with another key: {opened:?}"), json!({})); return; }
                    }
                }
                rep.sample(|| json!({ "content": message.content, "sign": message.sign, "encoding": encoding_name(&encoding) }));
            }));
        }
        units.push(Unit::new(format!("arbitrary {name}"), move |rep| {
            let (a, b) = (secret(3), secret(4));
            let mut texts: Vec<String> = vec![String::new()];
            let letters: Vec<char> = if rep.quick() { "AQg=_é".chars().collect() } else { "ABQgw5=_-+ é".chars().collect() };
            let mut last = texts.clone();
            for _ in 0..4 {
                last = last.iter().flat_map(|t| letters.iter().map(move |c| format!("{t}{c}"))).collect();
                texts.extend(last.iter().cloned());
            }
            let key = shared(&a, &b.public_key(), None);
            let sign = encoding.forward(a.create_signature(b""), &key, level).unwrap();
            let empty = encoding.forward(b"", &key, level).unwrap();
            for text in &texts {
                rep.nontrivial(text);
                for (content, sign, signed) in [(text, &sign, Some(&b""[..])), (&empty, text, None), (text, text, None)] {
                    let message = Message::new(content, sign, encoding);
                    if !refused(rep, Forged { message: &message, receiver: &b, sender: &a.public_key(), signed, why: format!("arbitrary {content:?} {sign:?}") }) { return; }
                }
            }
            // All short byte strings behind the text encoding.
            for n in 0..65536_u32 {
                if rep.quick() && n % 7 != 0 && n > 2000 { continue; }
                let bytes = if n < 256 { vec![n as u8] } else { vec![(n >> 8) as u8, n as u8] };
                let text = b64(&bytes);
                for (content, sign, signed) in [(&text, &sign, Some(&b""[..])), (&empty, &text, None)] {
                    let message = Message::new(content, sign, encoding);
                    if !refused(rep, Forged { message: &message, receiver: &b, sender: &a.public_key(), signed, why: format!("arbitrary {content:?} {sign:?}") }) { return; }
                }
            }
        }));
    }
    for share in 0..8 { units.push(Unit::new(format!("splices {share}"), move |rep| {
        // Messages between three parties, under every encoding.
        let keys = [secret(3), secret(4), secret(5)];
        let mut all = Vec::new();
        for (i, a) in keys.iter().enumerate() { for (j, b) in keys.iter().enumerate() {
            if i == j { continue; }
            for payload in [&b"yes"[..], b"no"] { for encoding in encodings() {
                all.push((i, j, payload, Message::create(a, &b.public_key(), payload, encoding, level).unwrap()));
            } }
        } }
        for (ai, aj, ap, a) in all.iter().skip(share).step_by(8) {
            for (bi, bj, bp, b) in &all {
                // The content of one with the signature of the other, under both labels, read by everyone as sent by either.
                for label in [a.encoding, b.encoding] {
                    let message = Message::new(&a.content, &b.sign, label);
                    let mut senders = vec![ai, bi];
                    senders.dedup();
                    for sender in senders {
                        for reader in 0..3 {
                            if reader == *sender { continue; }
                            let plain = [a.encoding, b.encoding, label].iter().all(|e| e.encryption == Encryption::None);
                            let signed = if sender != bi || ap != bp { None } else if plain || (message == *b && reader == *bj) { Some(*ap) } else { None };
                            rep.nontrivial(&(ai, aj, ap, bi, bj, bp, encoding_name(&a.encoding), encoding_name(&b.encoding), encoding_name(&label), sender, reader));
                            if !refused(rep, Forged { message: &message, receiver: &keys[reader], sender: &keys[*sender].public_key(), signed, why: format!("content of {ai}->{aj} with signature of {bi}->{bj} under {}", encoding_name(&label)) }) { return; }
                        }
                    }
                }
            }
        }
    })); }
    Property {
        id: "C02",
        level: Level::Exploration,
        rule: "alterations of genuine messages and arbitrary field contents; each distinct altered field, splice, label or key counts once",
        assumptions: vec!["AEAD tags and ECDSA are unforgeable; the check enumerates structural forgeries, not cryptanalysis"],
        bounds: json!({ "payloads": 3, "encodings": 9, "single_edits": if quick { "reduced alphabet, all bit flips" } else { "full alphabet, all bit flips" }, "arbitrary_texts_to_length": 4, "parties_spliced": 3 }),
        units
    }
}

// ---------------------------------------------------------------- C03

fn short_strings(rep: &Rep, share: usize, shares: usize) -> impl Iterator<Item = Vec<u8>> {
    let three = !rep.quick();
    let top = if three { 1 + 256 + 65536 + (1 << 24) } else { 1 + 256 + 65536 };
    (0..top).filter(move |n| n % shares == share).map(|n: usize| match n {
        0 => vec![],
        1..=256 => vec![(n - 1) as u8],
        257..=65792 => { let n = n - 257; vec![(n >> 8) as u8, n as u8] }
        _ => { let n = n - 65793; vec![(n >> 16) as u8, (n >> 8) as u8, n as u8] }
    })
}

const NAMES: [&str; 14] = ["base64", "none", "plain", "aes256-gcm", "chacha20-poly1305", "deflate", "brotli", "", "Base64", "base32", "aes-256-gcm", "gzip", "base64 ", "PLAIN"];

fn encoding_of(name: &str) -> Option<Encoding> { (name == "base64").then_some(Encoding::Base64) }

fn encryption_of(name: &str) -> Option<Encryption> {
    match name { "none" | "plain" => Some(Encryption::None), "aes256-gcm" => Some(Encryption::Aes256Gcm), "chacha20-poly1305" => Some(Encryption::ChaCha20Poly1305), _ => None }
}

fn compression_of(name: &str) -> Option<Compression> {
    match name { "none" | "plain" => Some(Compression::None), "deflate" => Some(Compression::Deflate), "brotli" => Some(Compression::Brotli), _ => None }
}

/// What the documentation says a message encoding's name means.
pub fn message_encoding_of(name: &str) -> Option<MessageEncoding> {
    let parts: Vec<&str> = name.split('/').collect();
    match parts[..] {
        [e] => Some(MessageEncoding::new(encoding_of(e)?, Encryption::None, Compression::None)),
        [e, x] => {
            let encoding = encoding_of(e)?;
            if let Some(encryption) = encryption_of(x) { return Some(MessageEncoding::new(encoding, encryption, Compression::None)); }
            Some(MessageEncoding::new(encoding, Encryption::None, compression_of(x)?))
        }
        [e, x, c] => Some(MessageEncoding::new(encoding_of(e)?, encryption_of(x)?, compression_of(c)?)),
        _ => None
    }
}

fn name_check(rep: &mut Rep, name: &str) {
    rep.eval();
    rep.nontrivial(&name);
    let got = guard(|| (Encoding::from_str(name).ok(), Encryption::from_str(name).ok(), Compression::from_str(name).ok(), MessageEncoding::from_str(name).ok()));
    let want = (encoding_of(name), encryption_of(name), compression_of(name), message_encoding_of(name));
    if got.as_ref() != Ok(&want) { rep.fail(format!("name {name:?}"), format!("{name:?} is parsed to {got:?}, not {want:?}"), json!({ "name": name })); }
}

fn inverts(rep: &mut Rep, data: &[u8], tag: &str) -> bool {
    if rep.failed() { return false; }
    rep.eval();
    let result = guard(|| -> Result<(), String> {
        let text = Encoding::Base64.encode(data);
        if text != b64(data) || base64_encode(data) != text { return Err(format!("base64 text is {text:?}")); }
        if Encoding::Base64.decode(&text).ok().as_deref() != Some(data) || base64_decode(&text).ok().as_deref() != Some(data) { return Err("base64 does not invert".into()); }
        for compression in COMPRESSIONS {
            for level in LEVELS {
                if level == CompressionLevel::Quality && data.len() > 70000 { continue; }
                let packed = compression.compress(data, level).map_err(|e| format!("{compression} {level:?}: {e}"))?;
                if compression.decompress(&packed).ok().as_deref() != Some(data) { return Err(format!("{compression} {level:?} does not invert")); }
                if decompressed(compression, &packed).as_deref() != Some(data) { return Err(format!("{compression} {level:?} is not standard {compression}")); }
                let direct = match compression { Compression::None => continue, Compression::Deflate => deflate_compress(data, level), Compression::Brotli => brotli_compress(data, level) };
                let direct = direct.map_err(|e| format!("{compression} {level:?}: {e}"))?;
                let back = match compression { Compression::Deflate => deflate_decompress(&direct), _ => brotli_decompress(&direct) };
                if back.ok().as_deref() != Some(data) || compression.decompress(&direct).ok().as_deref() != Some(data) { return Err(format!("{compression} {level:?} function does not invert")); }
            }
        }
        for encryption in ENCRYPTIONS {
            for key in [[0; 32], [255; 32], *b"amogus aboba banana aboba amogus"] {
                let packed = encryption.encrypt(data, &key).map_err(|e| format!("{encryption}: {e}"))?;
                if encryption.decrypt(&packed, &key).ok().as_deref() != Some(data) { return Err(format!("{encryption} does not invert")); }
                if packed != encrypted(encryption, &key, data) { return Err(format!("{encryption} is not the protocol's")); }
                let direct = match encryption { Encryption::None => continue, Encryption::Aes256Gcm => aes256_gcm_encrypt(data, &key).ok(), Encryption::ChaCha20Poly1305 => chacha20_poly1305_encrypt(data, &key).ok() };
                let back = match encryption { Encryption::Aes256Gcm => aes256_gcm_decrypt(&packed, &key).ok(), _ => chacha20_poly1305_decrypt(&packed, &key).ok() };
                if direct.as_ref() != Some(&packed) || back.as_deref() != Some(data) { return Err(format!("{encryption} functions disagree")); }
            }
        }
        Ok(())
    }).and_then(|r| r);
    if let Err(what) = result {
        rep.fail(tag, what, json!({ "length": data.len(), "start": &data[..data.len().min(64)] }));
        return false;
    }
    true
}

/// Arbitrary bytes never make a decoder panic.
fn total(rep: &mut Rep, data: &[u8]) -> bool {
    if rep.failed() { return false; }
    rep.eval();
    let key = [7_u8; 32];
    let result = guard(|| {
        for compression in COMPRESSIONS { let _ = compression.decompress(data); }
        Encryption::Aes256Gcm.decrypt(data, &key).is_ok() || Encryption::ChaCha20Poly1305.decrypt(data, &key).is_ok()
    });
    if result != Ok(false) {
        rep.fail(format!("bytes {data:?}"), format!("decoding arbitrary bytes: {result:?}"), json!({ "bytes": data }));
        return false;
    }
    true
}

pub fn c03(tier: Tier) -> Property {
    let quick = tier == Tier::Quick;
    let mut units = Vec::new();
    for kind in 0..4 {
        units.push(Unit::new(format!("inverses fill {kind}"), move |rep| {
            let top = if rep.quick() { 400 } else { 3000 };
            for len in (0..=top).chain([4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537]) {
                if !inverts(rep, &fill(kind, len), &format!("fill {kind} length {len}")) { return; }
                rep.nontrivial(&(kind, len));
            }
        }));
        for power in 17..=(if quick { 22 } else { 25 }) {
            units.push(Unit::new(format!("inverses 2^{power} fill {kind}"), move |rep| {
                let top = 1_usize << power;
                for len in if rep.quick() && power > 18 { vec![top + 1] } else { vec![top - 1, top, top + 1] } {
                    if !inverts(rep, &fill(kind, len), &format!("fill {kind} length {len}")) { return; }
                    rep.nontrivial(&(kind, len));
                }
            }));
        }
    }
    for share in 0..8 {
        units.push(Unit::new(format!("inverses short {share}"), move |rep| {
            let all: Vec<Vec<u8>> = short_strings(rep, share, 8).filter(|s| s.len() < 3).collect();
            for data in all {
                if rep.quick() && data.len() == 2 && data[0] % 16 != 0 && data[1] % 16 != 0 { continue; }
                rep.nontrivial(&data);
                if !inverts(rep, &data, &format!("bytes {data:?}")) { return; }
            }
        }));
    }
    for share in 0..32 {
        units.push(Unit::new(format!("totality {share}"), move |rep| {
            for data in short_strings(rep, share, 32) {
                rep.nontrivial(&data);
                if !total(rep, &data) { return; }
            }
        }));
    }
    for compression in [Compression::Deflate, Compression::Brotli] {
        for kind in 0..4 {
            units.push(Unit::new(format!("mutated {compression} fill {kind}"), move |rep| {
                let lens: &[usize] = if rep.quick() { &[0, 1, 40, 300] } else { &[0, 1, 2, 40, 300, 3000] };
                for len in lens {
                    for packed in compressions(compression, &fill(kind, *len)) {
                        let packed = &packed[..packed.len().min(600)];
                        for n in 0..packed.len() {
                            if !total(rep, &packed[..n]) { return; }
                            for bit in 0..8 {
                                let mut edit = packed.to_vec();
                                edit[n] ^= 1 << bit;
                                rep.nontrivial(&edit);
                                if !total(rep, &edit) { return; }
                            }
                        }
                    }
                }
            }));
        }
    }
    for encryption in [Encryption::Aes256Gcm, Encryption::ChaCha20Poly1305] {
        units.push(Unit::new(format!("altered {encryption}"), move |rep| {
            let key = *b"amogus aboba banana aboba amogus";
            for len in 0..=(if rep.quick() { 80 } else { 300 }) {
                let packed = encrypted(encryption, &key, &fill(3, len));
                let mut all: Vec<(Vec<u8>, [u8; 32])> = Vec::new();
                for n in 0..packed.len() {
                    for bit in 0..8 { let mut edit = packed.clone(); edit[n] ^= 1 << bit; all.push((edit, key)); }
                    all.push((packed[..n].to_vec(), key));
                    all.push((packed[n + 1..].to_vec(), key));
                    let mut edit = packed.clone(); edit.swap(n, 0);
                    if edit != packed { all.push((edit, key)); }
                }
                for x in [0, 1, 255] { let mut edit = packed.clone(); edit.push(x); all.push((edit, key)); }
                for n in 0..256 { let mut other = key; other[n / 8] ^= 1 << (n % 8); all.push((packed.clone(), other)); }
                for (data, key) in all {
                    rep.eval();
                    rep.nontrivial(&(&data, key));
                    let got = guard(|| (encryption.decrypt(&data, &key).is_ok(), if encryption == Encryption::Aes256Gcm { aes256_gcm_decrypt(&data, &key).is_ok() } else { chacha20_poly1305_decrypt(&data, &key).is_ok() }));
                    if got != Ok((false, false)) { rep.fail(format!("{encryption} {data:?}"), format!("an altered value is opened: {got:?}"), json!({ "data": data, "key": key.to_vec() })); return; }
                }
            }
        }));
    }
    units.push(Unit::new("names", move |rep| {
        for e in encodings() {
            rep.eval();
            let (name, shown) = (encoding_name(&e), e.to_string());
            if shown != name { rep.fail(format!("name {name}"), format!("shown as {shown}"), json!({})); }
        }
        for (shown, name) in [
            (Encoding::Base64.to_string(), "base64"), (Encryption::None.to_string(), "plain"), (Encryption::Aes256Gcm.to_string(), "aes256-gcm"),
            (Encryption::ChaCha20Poly1305.to_string(), "chacha20-poly1305"), (Compression::None.to_string(), "plain"), (Compression::Deflate.to_string(), "deflate"), (Compression::Brotli.to_string(), "brotli")
        ] {
            rep.eval();
            if shown != name { rep.fail(format!("name {name}"), format!("shown as {shown}"), json!({})); }
        }
        // All sequences of name parts.
        let mut all = vec![String::new()];
        let mut last: Vec<String> = NAMES.iter().map(|n| n.to_string()).collect();
        all.extend(last.iter().cloned());
        for _ in 1..4 {
            last = last.iter().flat_map(|t| NAMES.iter().map(move |n| format!("{t}/{n}"))).collect();
            all.extend(last.iter().cloned());
        }
        for name in &all { name_check(rep, name); }
        // All single edits of the valid names.
        let letters: Vec<char> = (' '..='~').chain(['\0', '\n', '\t', 'é', 'ſ', 'K']).collect();
        let mut valid: BTreeSet<String> = encodings().iter().map(encoding_name).collect();
        for name in NAMES { valid.insert(name.into()); }
        for e in ["base64/none/plain", "base64/plain/brotli", "base64/aes256-gcm/none"] { valid.insert(e.into()); }
        for name in &valid {
            for edit in edits(name, &letters) { name_check(rep, &edit); }
            name_check(rep, &name.to_uppercase());
            name_check(rep, &format!("{name}{name}"));
        }
    }));
    units.push(Unit::new("base64 texts", move |rep| {
        let letters: Vec<char> = if rep.quick() { "AQgw_-+= é".chars().collect() } else { "ABQgwx79_-+/=. \né".chars().collect() };
        let mut last = vec![String::new()];
        for _ in 0..5 {
            for text in &last {
                rep.eval();
                rep.nontrivial(text);
                let got = guard(|| (Encoding::Base64.decode(text).ok(), base64_decode(text).ok()));
                let strange = text.chars().any(|c| !c.is_ascii_alphanumeric() && !"-_=".contains(c));
                let fine = match &got {
                    Err(_) => false,
                    Ok((a, b)) => a == b && unb64(text).is_none_or(|bytes| a.as_ref() == Some(&bytes)) && !(strange && a.is_some())
                };
                if !fine { rep.fail(format!("text {text:?}"), format!("{text:?} is decoded to {got:?}"), json!({ "text": text })); }
            }
            last = last.iter().flat_map(|t| letters.iter().map(move |c| format!("{t}{c}"))).collect();
        }
    }));
    Property {
        id: "C03",
        level: Level::Exploration,
        rule: "every primitive on every input of the families; each distinct input, altered ciphertext, key or name counts once",
        assumptions: vec!["the aes-gcm, chacha20poly1305, flate2, brotli and base64 crates implement their algorithms"],
        bounds: json!({ "every_byte_string_to_length": if quick { 2 } else { 3 }, "structured_lengths": if quick { "0..=400, around the powers of two to 4 MiB" } else { "0..=3000, around the powers of two to 32 MiB" }, "names": "all sequences of up to 4 of 14 parts, all single edits" }),
        units
    }
}

// ---------------------------------------------------------------- C04

fn serde_forms<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(value: &T) -> Result<(), String> {
    let text = serde_json::to_string(value).map_err(|e| format!("JSON text: {e}"))?;
    let back: T = serde_json::from_str(&text).map_err(|e| format!("reading JSON text: {e}"))?;
    if back != *value { return Err("JSON text does not invert".into()); }
    let back: T = serde_json::from_reader(text.as_bytes()).map_err(|e| format!("reading a JSON stream: {e}"))?;
    if back != *value { return Err("JSON stream does not invert".into()); }
    let tree = serde_json::to_value(value).map_err(|e| format!("JSON value: {e}"))?;
    let back: T = serde_json::from_value(tree).map_err(|e| format!("reading a JSON value: {e}"))?;
    if back != *value { return Err("JSON value does not invert".into()); }
    let bytes = bincode::serialize(value).map_err(|e| format!("bincode: {e}"))?;
    let back: T = bincode::deserialize(&bytes).map_err(|e| format!("reading bincode: {e}"))?;
    if back != *value { return Err("bincode does not invert".into()); }
    let mut bytes = Vec::new();
    ciborium::into_writer(value, &mut bytes).map_err(|e| format!("CBOR: {e}"))?;
    let back: T = ciborium::from_reader(&bytes[..]).map_err(|e| format!("reading CBOR: {e}"))?;
    if back != *value { return Err("CBOR does not invert".into()); }
    Ok(())
}

pub fn check_serde<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(value: &T) -> Result<(), String> {
    guard(|| serde_forms(value)).and_then(|r| r)
}

fn secret_bytes_check(rep: &mut Rep, bytes: &[u8]) -> bool {
    rep.eval();
    rep.nontrivial(&("secret", bytes));
    let want = k256::SecretKey::from_slice(bytes).ok().map(|k| k.to_bytes().to_vec());
    let got = guard(|| (SecretKey::deserialize(bytes).ok().map(|k| k.serialize()), SecretKey::from_base64(b64(bytes)).ok().map(|k| k.serialize())));
    // Whether a shortened key is padded or refused is not promised.
    let ok = got.as_ref() == Ok(&(want.clone(), want.clone())) || (bytes.len() != 32 && got == Ok((None, None)));
    if !ok { rep.fail(format!("secret {bytes:?}"), format!("read as {got:?}, not {want:?}"), json!({ "bytes": bytes })); }
    ok
}

fn public_bytes_check(rep: &mut Rep, bytes: &[u8]) -> bool {
    rep.eval();
    rep.nontrivial(&("public", bytes));
    let want = k256::PublicKey::from_sec1_bytes(bytes).ok().map(|k| k.to_sec1_bytes().to_vec());
    let got = guard(|| (PublicKey::from_bytes(bytes).ok().map(|k| k.to_bytes().to_vec()), PublicKey::from_base64(b64(bytes)).ok().map(|k| k.to_bytes().to_vec())));
    // Whether another form of a public key is read is not promised.
    let ok = got.as_ref() == Ok(&(want.clone(), want.clone())) || (bytes.len() != 33 && got == Ok((None, None)));
    if !ok { rep.fail(format!("public {bytes:?}"), format!("read as {got:?}, not {want:?}"), json!({ "bytes": bytes })); }
    ok
}

/// Whether `sign` is refused for `key` and `message` (false or an error).
fn unsigned(rep: &mut Rep, key: &PublicKey, message: &[u8], sign: &[u8], why: &str) -> bool {
    rep.eval();
    let got = guard(|| key.verify_signature(message, sign).unwrap_or(false));
    if got != Ok(false) { rep.fail(why, format!("{why}: {got:?}"), json!({ "message": message, "sign": sign })); return false; }
    true
}

/// What a capsule holds for a key, read independently.
fn capsule_holds(key: &PublicKey, capsule: &[u8]) -> Option<Vec<u8>> {
    let len = u64::from_be_bytes(capsule.get(..8)?.try_into().ok()?);
    let rest = &capsule[8..];
    if len > rest.len() as u64 { return None; }
    let (sign, message) = rest.split_at(len as usize);
    genuine(key, message, sign).then(|| message.to_vec())
}

fn capsule_check(rep: &mut Rep, key: &PublicKey, capsule: &[u8]) -> bool {
    rep.eval();
    rep.nontrivial(&(key.to_bytes(), capsule));
    let want = capsule_holds(key, capsule);
    let got = guard(|| key.decode_encapsulated_signature(capsule).ok().flatten());
    let ok = got.as_ref() == Ok(&want);
    if !ok { rep.fail(format!("capsule {capsule:?}"), format!("decoded to {got:?}, not {want:?}"), json!({ "capsule": capsule })); }
    ok
}

pub fn c04(tier: Tier) -> Property {
    let quick = tier == Tier::Quick;
    let mut units = Vec::new();
    units.push(Unit::new("storage", |rep| {
        let mut keys = grid();
        keys.extend((1..300).flat_map(|n| [secret(n), secret_neg(n)]));
        let mut seen: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
        for key in &keys {
            rep.eval();
            let result = guard(|| -> Result<(), String> {
                let bytes = key.serialize();
                let public = key.public_key();
                let point = k256::SecretKey::from_slice(&bytes).map_err(|_| "not a secret key")?.public_key().to_encoded_point(true);
                if bytes.len() != 32 || SecretKey::deserialize(&bytes).ok().as_ref() != Some(key) { return Err("secret key bytes do not invert".into()); }
                if key.to_base64() != b64(&bytes) || SecretKey::from_base64(key.to_base64()).ok().as_ref() != Some(key) { return Err("secret key text does not invert".into()); }
                if public.to_bytes()[..] != *point.as_bytes() { return Err("not the compressed public key".into()); }
                if PublicKey::from_bytes(public.to_bytes()).ok().as_ref() != Some(&public) { return Err("public key bytes do not invert".into()); }
                if public.to_base64() != b64(&public.to_bytes()) || PublicKey::from_base64(public.to_base64()).ok().as_ref() != Some(&public) { return Err("public key text does not invert".into()); }
                check_serde(key).map_err(|e| format!("secret key: {e}"))?;
                check_serde(&public).map_err(|e| format!("public key: {e}"))?;
                check_serde(&(key.clone(), vec![Some(public.clone()), None])).map_err(|e| format!("keys in a structure: {e}"))?;
                if crate::report::hash(key) != crate::report::hash(&key.clone()) || crate::report::hash(&public) != crate::report::hash(&PublicKey::from_bytes(public.to_bytes()).unwrap()) { return Err("equal keys hash differently".into()); }
                Ok(())
            }).and_then(|r| r);
            if let Err(what) = result { rep.fail(format!("key {}", key.to_base64()), what, json!({})); return; }
            rep.nontrivial(&key.serialize());
            if let Some(other) = seen.insert(key.public_key().to_bytes().to_vec(), key.serialize()) {
                if other != key.serialize() { rep.fail("public keys", "two secret keys have one public key", json!({})); }
            }
        }
    }));
    units.push(Unit::new("drawn", |rep| {
        // Keys drawn by the library are keys, and follow the generator they are given.
        use rand_chacha::rand_core::SeedableRng;
        let mut seen = BTreeSet::new();
        for n in 0..300_u64 {
            rep.eval();
            let draw = || SecretKey::random_from(&mut rand_chacha::ChaCha20Rng::seed_from_u64(n));
            let result = guard(|| (draw(), draw(), SecretKey::random(), SecretKey::random()));
            let Ok((a, b, c, d)) = result else { rep.fail("drawn", "drawing a key panics", json!({})); return };
            if a != b || c == d || !seen.insert(a.serialize()) || !seen.insert(c.serialize()) || !seen.insert(d.serialize()) { rep.fail("drawn", "drawn keys repeat, or do not follow their generator", json!({ "n": n })); return; }
            if SecretKey::deserialize(c.serialize()).ok() != Some(c) { rep.fail("drawn", "a drawn key is not a key", json!({ "n": n })); return; }
            rep.nontrivial(&n);
        }
    }));
    units.push(Unit::new("not keys", |rep| {
        let order = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141";
        let order: Vec<u8> = (0..32).map(|n| u8::from_str_radix(&order[n * 2..n * 2 + 2], 16).unwrap()).collect();
        let mut all: Vec<Vec<u8>> = Vec::new();
        for x in [0_u8, 1, 2, 3, 4, 127, 128, 255] { for len in 0..70 { all.push(vec![x; len]); } }
        for d in -3_i32..=3 { let mut k = order.clone(); k[31] = (k[31] as i32 + d) as u8; all.push(k.clone()); k.push(0); all.push(k.clone()); k.insert(0, 0); all.push(k); }
        for key in grid() {
            let bytes = key.serialize();
            for n in 0..=bytes.len() { all.push(bytes[..n].to_vec()); all.push(bytes[n..].to_vec()); }
            for n in 0..256 { let mut edit = bytes.clone(); edit[n / 8] ^= 1 << (n % 8); all.push(edit); }
        }
        for bytes in &all { if !secret_bytes_check(rep, bytes) { return; } }
        let mut all: Vec<Vec<u8>> = all.into_iter().step_by(3).collect();
        for key in grid() {
            let key = k256::SecretKey::from_slice(&key.serialize()).unwrap().public_key();
            let bytes = key.to_encoded_point(true).as_bytes().to_vec();
            let long = key.to_encoded_point(false).as_bytes().to_vec();
            for n in 0..=bytes.len() { all.push(bytes[..n].to_vec()); all.push(bytes[n..].to_vec()); }
            for n in 0..264 { let mut edit = bytes.clone(); edit[n / 8] ^= 1 << (n % 8); all.push(edit); }
            for x in 0..=255_u8 {
                let mut edit = bytes.clone(); edit[0] = x; all.push(edit);
                let mut edit = long.clone(); edit[0] = x; all.push(edit);
                let mut edit = bytes.clone(); edit.push(x); all.push(edit);
            }
            for n in (0..520).step_by(3) { let mut edit = long.clone(); edit[n / 8] ^= 1 << (n % 8); all.push(edit); }
            all.push(long);
        }
        for bytes in &all { if !public_bytes_check(rep, bytes) { return; } }
        // Texts that are not base64 of a key.
        for key in grid() {
            let (s, p) = (b64(&key.serialize()), b64(&key.public_key().to_bytes()));
            for text in edits(&s, &['A', '=', '+', ' ', 'é']) {
                rep.eval();
                let want = unb64(&text).and_then(|b| k256::SecretKey::from_slice(&b).ok()).map(|k| k.to_bytes().to_vec());
                let got = guard(|| SecretKey::from_base64(&text).ok().map(|k| k.serialize()));
                if got != Ok(want.clone()) && !(got == Ok(None) && unb64(&text).is_some_and(|b| b.len() != 32)) { rep.fail(format!("secret {text:?}"), format!("read as {got:?}, not {want:?}"), json!({})); return; }
            }
            for text in edits(&p, &['A', '=', '+', ' ', 'é']) {
                rep.eval();
                let want = unb64(&text).and_then(|b| k256::PublicKey::from_sec1_bytes(&b).ok()).map(|k| k.to_sec1_bytes().to_vec());
                let got = guard(|| PublicKey::from_base64(&text).ok().map(|k| k.to_bytes().to_vec()));
                if got != Ok(want.clone()) && !(got == Ok(None) && unb64(&text).is_some_and(|b| b.len() != 33)) { rep.fail(format!("public {text:?}"), format!("read as {got:?}, not {want:?}"), json!({})); return; }
            }
        }
    }));
    units.push(Unit::new("not keys, serde", |rep| {
        // The serde forms refuse what is not a key.
        let good = serde_json::to_value(secret(5)).unwrap();
        let bad_secrets = [vec![0_u8; 32], vec![255; 32], vec![], vec![1; 33], vec![1; 23]];
        for bad in &bad_secrets {
            rep.eval();
            rep.nontrivial(bad);
            let doc = json!({ "0": bad });
            let got = guard(|| serde_json::from_value::<SecretKey>(doc.clone()).is_ok());
            if good.get("0").is_some() && got != Ok(false) { rep.fail(format!("serde secret {bad:?}"), format!("accepted: {got:?}"), json!({})); }
        }
        for doc in [json!(null), json!({}), json!([]), json!("x"), json!(5), json!({ "0": "x" }), json!({ "0": [300] }), json!({ "0": [-1] }), json!({ "1": [1] })] {
            rep.eval();
            let got = guard(|| (serde_json::from_value::<SecretKey>(doc.clone()).is_ok(), serde_json::from_value::<PublicKey>(doc.clone()).is_ok()));
            if got != Ok((false, false)) { rep.fail(format!("serde {doc}"), format!("accepted as a key: {got:?}"), json!({})); }
        }
    }));
    for first in 0..grid().len() {
        units.push(Unit::new(format!("secrets {first}"), move |rep| {
            let keys = grid();
            let salts: Vec<Option<Vec<u8>>> = vec![None, Some(vec![]), Some(vec![0]), Some(vec![1]), Some(b"salt".to_vec()), Some(b"Salt".to_vec()), Some(vec![7; 32]), Some(vec![7; 63]), Some(vec![7; 64]), Some(vec![7; 65]), Some(vec![9; 300])];
            let mut seen: BTreeMap<[u8; 32], (usize, usize, Vec<u8>)> = BTreeMap::new();
            for second in 0..keys.len() {
                for salt in &salts {
                    rep.eval();
                    rep.nontrivial(&(second, salt));
                    let (a, b) = (&keys[first], &keys[second]);
                    let got = guard(|| (a.create_shared_secret(&b.public_key(), salt.as_deref()), b.create_shared_secret(&a.public_key(), salt.as_deref())));
                    let want = shared(a, &b.public_key(), salt.as_deref());
                    if got != Ok((want, want)) { rep.fail(format!("secrets {first} {second} {salt:?}"), format!("the parties derive {got:?}, not {want:?}"), json!({})); return; }
                    // Different pairs or salts give different secrets, but the
                    // opposite of a key and zeros at the end of a salt change nothing.
                    let scalar = |n: usize| { let s = keys[n].serialize(); let o = (-*k256::SecretKey::from_slice(&s).unwrap().to_nonzero_scalar()).to_bytes().to_vec(); s.min(o) };
                    let mut trimmed = salt.clone().unwrap_or_default();
                    while trimmed.last() == Some(&0) { trimmed.pop(); }
                    if let Some((_, other, old)) = seen.insert(want, (first, second, trimmed.clone())) {
                        if scalar(other) != scalar(second) || old != trimmed { rep.fail(format!("secrets {first} {second} {salt:?}"), "the same secret for another key or salt", json!({})); return; }
                    }
                }
            }
        }));
    }
    units.push(Unit::new("signatures", |rep| {
        let keys = grid();
        let messages: Vec<Vec<u8>> = [fill(0, 0), fill(0, 1), b"Hello, World!".to_vec(), b"Hello, World?".to_vec(), fill(3, 64), fill(3, 65), fill(1, 100_000)].to_vec();
        for (i, key) in keys.iter().enumerate() {
            for (m, message) in messages.iter().enumerate() {
                let Ok(sign) = guard(|| key.create_signature(message)) else { rep.fail(format!("sign {i} {m}"), "signing panics", json!({})); return };
                rep.eval();
                rep.nontrivial(&(i, m));
                let fine = guard(|| key.public_key().verify_signature(message, &sign).ok());
                if !genuine(&key.public_key(), message, &sign) || fine != Ok(Some(true)) { rep.fail(format!("sign {i} {m}"), format!("a signature is not valid: {fine:?}"), json!({ "sign": sign })); return; }
                for (j, other) in keys.iter().enumerate() {
                    if i != j && !unsigned(rep, &other.public_key(), message, &sign, &format!("signature {i} {m} by key {j}")) { return; }
                }
                for (o, other) in messages.iter().enumerate() {
                    if m != o && !unsigned(rep, &key.public_key(), other, &sign, &format!("signature {i} {m} for message {o}")) { return; }
                }
                if !unsigned(rep, &key.public_key(), message, &high_s(&sign), "malleated signature") { return; }
            }
        }
        // Every message length.
        let key = secret(3);
        for kind in 0..4 { for len in 0..300 {
            let message = fill(kind, len);
            rep.eval();
            rep.nontrivial(&("length", kind, len));
            let fine = guard(|| key.public_key().verify_signature(&message, key.create_signature(&message)).ok());
            if fine != Ok(Some(true)) { rep.fail(format!("length {len}"), format!("a signature is not valid: {fine:?}"), json!({})); return; }
            for edit in [[&message[..], &[0]].concat(), message[..len.saturating_sub(1)].to_vec()] {
                if edit != message && !unsigned(rep, &key.public_key(), &edit, &key.create_signature(&message), "another length") { return; }
            }
        } }
    }));
    units.push(Unit::new("altered signatures", |rep| {
        for key in grid().iter().take(if rep.quick() { 4 } else { 13 }) {
            let message = b"Hello, World!";
            let sign = key.create_signature(message);
            let mut all = Vec::new();
            for n in 0..sign.len() {
                for bit in 0..8 { let mut edit = sign.clone(); edit[n] ^= 1 << bit; all.push(edit); }
                all.push(sign[..n].to_vec());
                all.push(sign[n + 1..].to_vec());
                for x in [0, 255] { let mut edit = sign.clone(); edit.insert(n, x); all.push(edit); }
            }
            for x in 0..=255_u8 { let mut edit = sign.clone(); edit.push(x); all.push(edit); all.push(vec![x; 64]); }
            all.extend([vec![], [&sign[32..], &sign[..32]].concat(), k256::ecdsa::Signature::from_slice(&sign).unwrap().to_der().as_bytes().to_vec()]);
            for sign in all {
                rep.nontrivial(&sign);
                if !unsigned(rep, &key.public_key(), message, &sign, "an altered signature") { return; }
            }
            for n in 0..message.len() { for bit in 0..8 {
                let mut edit = message.to_vec();
                edit[n] ^= 1 << bit;
                if !unsigned(rep, &key.public_key(), &edit, &sign, "an altered message") { return; }
            } }
        }
    }));
    for i in 0..grid().len() {
        units.push(Unit::new(format!("capsules {i}"), move |rep| {
            let keys = grid();
            let key = &keys[i];
            for len in 0..(if rep.quick() { 100 } else { 1000 }) {
                let message = fill(3, len);
                rep.eval();
                let result = guard(|| key.create_encapsulated_signature(&message));
                let Ok(capsule) = result else { rep.fail(format!("capsule {i} {len}"), "creating panics", json!({})); return };
                if capsule_holds(&key.public_key(), &capsule).as_ref() != Some(&message) { rep.fail(format!("capsule {i} {len}"), "not the documented form", json!({ "capsule": capsule })); return; }
                if !capsule_check(rep, &key.public_key(), &capsule) { return; }
                if len < 5 { for (j, other) in keys.iter().enumerate() { if i != j && !capsule_check(rep, &other.public_key(), &capsule) { return; } } }
            }
        }));
    }
    for len in [0, 1, 13] {
        units.push(Unit::new(format!("altered capsules {len}"), move |rep| {
            let key = secret(3);
            let capsule = key.create_encapsulated_signature(fill(2, len));
            for n in 0..capsule.len() {
                for x in 0..=255_u8 { let mut edit = capsule.clone(); edit[n] = x; if !capsule_check(rep, &key.public_key(), &edit) { return; } }
                if !capsule_check(rep, &key.public_key(), &capsule[..n]) || !capsule_check(rep, &key.public_key(), &capsule[n..]) { return; }
            }
            let mut longer = capsule.clone();
            for x in [0_u8, 5, 255] { longer.push(x); if !capsule_check(rep, &key.public_key(), &longer) { return; } }
            // Every length claim near a boundary.
            let real = capsule.len() as u64;
            let mut claims: Vec<u64> = (0..200).collect();
            for base in [real, 1 << 31, 1 << 32, 1 << 62, 1 << 63, u64::MAX - 20] { for d in 0..20 { claims.push(base.wrapping_add(d)); claims.push(base.wrapping_sub(d)); } }
            for claim in claims {
                for size in [8, 9, capsule.len() - 1, capsule.len()] {
                    let mut edit = capsule[..size].to_vec();
                    edit[..8].copy_from_slice(&claim.to_be_bytes());
                    if !capsule_check(rep, &key.public_key(), &edit) { return; }
                }
            }
        }));
    }
    units.push(Unit::new("no capsules", |rep| {
        for n in 0..40 { for x in [0_u8, 1, 255] { if !capsule_check(rep, &public(3), &vec![x; n]) { return; } } }
    }));
    Property {
        id: "C04",
        level: Level::Exploration,
        rule: "keys of a grid with the group's boundaries, all ordered pairs, salts, messages, and every alteration of stored keys, signatures and capsules; each distinct input counts once",
        assumptions: vec!["the k256 crate implements secp256k1 and ECDSA; which bytes are keys is decided by it", "the secret keys k and -k share their secrets, as ECDH uses the x coordinate; salts differing in trailing zeros are one HMAC key"],
        bounds: json!({ "key_grid": grid().len(), "salts": 11, "message_lengths": if quick { 300 } else { 1000 }, "alterations": "every bit, truncation and length claim" }),
        units
    }
}
