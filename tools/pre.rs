#![allow(dead_code, unused_imports)]
use ksusig::*;
use std::path::PathBuf;
fn scratch(n: &str) -> PathBuf {
    PathBuf::from(std::env::var("SCRATCH").expect("SCRATCH")).join(n)
}
fn check(ok: bool, what: &str) {
    if !ok {
        println!("VIOLATED: {what}");
        std::process::exit(1);
    }
}
/// entries, directory, and end record (with comment), then trailing bytes
fn zip(entries: &[u8], cd: &[u8], comment: &[u8], trailing: &[u8]) -> Vec<u8> {
    let mut v = entries.to_vec();
    v.extend_from_slice(cd);
    v.extend_from_slice(&[0x50, 0x4b, 5, 6, 0, 0, 0, 0, 1, 0, 1, 0]);
    v.extend_from_slice(&(cd.len() as u32).to_le_bytes());
    v.extend_from_slice(&(entries.len() as u32).to_le_bytes());
    v.extend_from_slice(&(comment.len() as u16).to_le_bytes());
    v.extend_from_slice(comment);
    v.extend_from_slice(trailing);
    v
}
fn key256() -> ksusig::PrivateKey {
    ksusig::PrivateKey::EcdsaP256(p256::ecdsa::SigningKey::from_slice(&[7u8; 32]).expect("key"))
}
fn key384() -> ksusig::PrivateKey {
    ksusig::PrivateKey::EcdsaP384(p384::ecdsa::SigningKey::from_slice(&[9u8; 48]).expect("key"))
}
