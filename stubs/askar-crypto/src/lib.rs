//! Stand-in for `askar-crypto` 0.2, which this sandbox does not have.
//!
//! The analyser needs the *signatures* (so that didcomm type-checks); the
//! bodies are a deterministic toy so that demonstrations can run code that
//! depends on it. Nothing in here is secure.
#![allow(clippy::all)]

use std::fmt;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ErrorKind {
    Custom,
    Encryption,
    ExceededBuffer,
    Invalid,
    InvalidKeyData,
    InvalidNonce,
    MissingSecretKey,
    Unexpected,
    Usage,
    Unsupported,
}

#[derive(Debug)]
pub struct Error {
    kind: ErrorKind,
    pub message: Option<String>,
}

impl Error {
    pub fn new(kind: ErrorKind, m: &str) -> Self {
        Error { kind, message: Some(m.to_string()) }
    }
    pub fn kind(&self) -> ErrorKind {
        self.kind
    }
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}: {:?}", self.kind, self.message)
    }
}

impl std::error::Error for Error {}

fn hash(parts: &[&[u8]]) -> [u8; 32] {
    use sha2::{Digest, Sha256};
    let mut h = Sha256::new();
    for p in parts {
        h.update((p.len() as u64).to_be_bytes());
        h.update(p);
    }
    let mut out = [0u8; 32];
    out.copy_from_slice(&h.finalize());
    out
}

fn expand(parts: &[&[u8]], len: usize) -> Vec<u8> {
    let seed = hash(parts);
    let mut out = vec![];
    let mut i = 0u32;
    while out.len() < len {
        out.extend_from_slice(&hash(&[&seed, &i.to_be_bytes()]));
        i += 1;
    }
    out.truncate(len);
    out
}

fn eat(n: usize) -> Vec<u8> {
    let mut v = vec![];
    while v.len() < n {
        v.extend_from_slice(uuid::Uuid::new_v4().as_bytes());
    }
    v.truncate(n);
    v
}

pub mod random {
    pub trait KeyMaterial {
        fn read_okm(&mut self, buf: &mut [u8]);
    }
    pub struct StdRng;
    impl KeyMaterial for StdRng {
        fn read_okm(&mut self, buf: &mut [u8]) {
            buf.copy_from_slice(&crate::eat(buf.len()));
        }
    }
    impl<T: KeyMaterial + ?Sized> KeyMaterial for &mut T {
        fn read_okm(&mut self, buf: &mut [u8]) {
            (**self).read_okm(buf)
        }
    }
    pub fn default_rng() -> StdRng {
        StdRng
    }
    pub fn fill_random(buf: &mut [u8]) {
        buf.copy_from_slice(&crate::eat(buf.len()));
    }
}

pub mod buffer {
    use crate::{Error, ErrorKind};

    pub trait WriteBuffer: std::fmt::Debug {
        fn buffer_write(&mut self, data: &[u8]) -> Result<(), Error>;
    }
    pub trait ResizeBuffer: WriteBuffer + AsRef<[u8]> + AsMut<[u8]> {
        fn buffer_insert(&mut self, pos: usize, data: &[u8]) -> Result<(), Error>;
        fn buffer_remove(&mut self, range: std::ops::Range<usize>) -> Result<(), Error>;
        fn buffer_resize(&mut self, len: usize) -> Result<(), Error>;
    }

    #[derive(Clone, PartialEq, Eq, Default)]
    pub struct SecretBytes(Vec<u8>);

    impl std::fmt::Debug for SecretBytes {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("SecretBytes")
        }
    }
    impl SecretBytes {
        pub fn with_capacity(n: usize) -> Self {
            SecretBytes(Vec::with_capacity(n))
        }
        pub fn from_slice(data: &[u8]) -> Self {
            SecretBytes(data.to_vec())
        }
        pub fn from_slice_reserve(data: &[u8], _reserve: usize) -> Self {
            SecretBytes(data.to_vec())
        }
        pub fn extend_from_slice(&mut self, data: &[u8]) {
            self.0.extend_from_slice(data)
        }
        pub fn into_vec(self) -> Vec<u8> {
            self.0
        }
    }
    impl std::ops::Deref for SecretBytes {
        type Target = [u8];
        fn deref(&self) -> &[u8] {
            &self.0
        }
    }
    impl AsRef<[u8]> for SecretBytes {
        fn as_ref(&self) -> &[u8] {
            &self.0
        }
    }
    impl AsMut<[u8]> for SecretBytes {
        fn as_mut(&mut self) -> &mut [u8] {
            &mut self.0
        }
    }
    impl From<&[u8]> for SecretBytes {
        fn from(d: &[u8]) -> Self {
            SecretBytes(d.to_vec())
        }
    }
    impl From<Vec<u8>> for SecretBytes {
        fn from(d: Vec<u8>) -> Self {
            SecretBytes(d)
        }
    }
    impl WriteBuffer for SecretBytes {
        fn buffer_write(&mut self, data: &[u8]) -> Result<(), Error> {
            self.0.extend_from_slice(data);
            Ok(())
        }
    }
    impl ResizeBuffer for SecretBytes {
        fn buffer_insert(&mut self, pos: usize, data: &[u8]) -> Result<(), Error> {
            if pos > self.0.len() {
                return Err(Error::new(ErrorKind::ExceededBuffer, "insert"));
            }
            self.0.splice(pos..pos, data.iter().cloned());
            Ok(())
        }
        fn buffer_remove(&mut self, range: std::ops::Range<usize>) -> Result<(), Error> {
            self.0.drain(range);
            Ok(())
        }
        fn buffer_resize(&mut self, len: usize) -> Result<(), Error> {
            self.0.resize(len, 0);
            Ok(())
        }
    }
    impl WriteBuffer for Vec<u8> {
        fn buffer_write(&mut self, data: &[u8]) -> Result<(), Error> {
            self.extend_from_slice(data);
            Ok(())
        }
    }
    impl ResizeBuffer for Vec<u8> {
        fn buffer_insert(&mut self, pos: usize, data: &[u8]) -> Result<(), Error> {
            self.splice(pos..pos, data.iter().cloned());
            Ok(())
        }
        fn buffer_remove(&mut self, range: std::ops::Range<usize>) -> Result<(), Error> {
            self.drain(range);
            Ok(())
        }
        fn buffer_resize(&mut self, len: usize) -> Result<(), Error> {
            self.resize(len, 0);
            Ok(())
        }
    }
}

pub mod repr {
    use crate::buffer::{SecretBytes, WriteBuffer};
    use crate::random::KeyMaterial;
    use crate::Error;

    pub trait KeyGen: Sized {
        fn generate(rng: impl KeyMaterial) -> Result<Self, Error>;
        fn random() -> Result<Self, Error> {
            Self::generate(crate::random::default_rng())
        }
    }
    pub trait KeySecretBytes: std::fmt::Debug + Sized {
        fn from_secret_bytes(key: &[u8]) -> Result<Self, Error>;
        fn with_secret_bytes<O>(&self, f: impl FnOnce(Option<&[u8]>) -> O) -> O;
    }
    pub trait ToSecretBytes {
        fn secret_bytes_length(&self) -> Result<usize, Error>;
        fn write_secret_bytes(&self, out: &mut dyn WriteBuffer) -> Result<(), Error>;
        fn to_secret_bytes(&self) -> Result<SecretBytes, Error> {
            let mut b = SecretBytes::default();
            self.write_secret_bytes(&mut b)?;
            Ok(b)
        }
    }
    impl<T: KeySecretBytes> ToSecretBytes for T {
        fn secret_bytes_length(&self) -> Result<usize, Error> {
            self.with_secret_bytes(|b| {
                b.map(|b| b.len())
                    .ok_or_else(|| Error::new(crate::ErrorKind::MissingSecretKey, "no secret"))
            })
        }
        fn write_secret_bytes(&self, out: &mut dyn WriteBuffer) -> Result<(), Error> {
            self.with_secret_bytes(|b| match b {
                Some(b) => out.buffer_write(b),
                None => Err(Error::new(crate::ErrorKind::MissingSecretKey, "no secret")),
            })
        }
    }
    pub trait KeyPublicBytes: Sized {
        fn from_public_bytes(key: &[u8]) -> Result<Self, Error>;
        fn with_public_bytes<O>(&self, f: impl FnOnce(&[u8]) -> O) -> O;
    }
    pub trait ToPublicBytes {
        fn public_bytes_length(&self) -> Result<usize, Error>;
        fn write_public_bytes(&self, out: &mut dyn WriteBuffer) -> Result<(), Error>;
        fn to_public_bytes(&self) -> Result<SecretBytes, Error> {
            let mut b = SecretBytes::default();
            self.write_public_bytes(&mut b)?;
            Ok(b)
        }
    }
    impl<T: KeyPublicBytes> ToPublicBytes for T {
        fn public_bytes_length(&self) -> Result<usize, Error> {
            Ok(self.with_public_bytes(|b| b.len()))
        }
        fn write_public_bytes(&self, out: &mut dyn WriteBuffer) -> Result<(), Error> {
            self.with_public_bytes(|b| out.buffer_write(b))
        }
    }
}

pub mod encrypt {
    use crate::buffer::ResizeBuffer;
    use crate::Error;

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct KeyAeadParams {
        pub nonce_length: usize,
        pub tag_length: usize,
    }
    pub trait KeyAeadInPlace {
        fn encrypt_in_place(
            &self,
            buffer: &mut dyn ResizeBuffer,
            nonce: &[u8],
            aad: &[u8],
        ) -> Result<usize, Error>;
        fn decrypt_in_place(
            &self,
            buffer: &mut dyn ResizeBuffer,
            nonce: &[u8],
            aad: &[u8],
        ) -> Result<(), Error>;
        fn aead_params(&self) -> KeyAeadParams;
        fn aead_padding(&self, _len: usize) -> usize {
            0
        }
    }
    pub trait KeyAeadMeta {
        fn random_nonce() -> Vec<u8>;
    }
}

pub mod kdf {
    use crate::buffer::{SecretBytes, WriteBuffer};
    use crate::Error;

    pub trait KeyExchange<Rhs: ?Sized = Self> {
        fn write_key_exchange(&self, other: &Rhs, out: &mut dyn WriteBuffer) -> Result<(), Error>;
        fn key_exchange_bytes(&self, other: &Rhs) -> Result<SecretBytes, Error> {
            let mut b = SecretBytes::default();
            self.write_key_exchange(other, &mut b)?;
            Ok(b)
        }
    }
    pub trait KeyDerivation {
        fn derive_key_bytes(&mut self, key_output: &mut [u8]) -> Result<(), Error>;
    }
    pub trait FromKeyDerivation {
        fn from_key_derivation<D: KeyDerivation>(derive: D) -> Result<Self, Error>
        where
            Self: Sized;
    }

    pub mod ecdh_1pu {
        use super::*;
        #[derive(Debug)]
        pub struct Ecdh1PU<'d, Key: KeyExchange + ?Sized> {
            ephem_key: &'d Key,
            send_key: &'d Key,
            recip_key: &'d Key,
            alg: &'d [u8],
            apu: &'d [u8],
            apv: &'d [u8],
            cc_tag: &'d [u8],
            receive: bool,
        }
        impl<'d, Key: KeyExchange + ?Sized> Ecdh1PU<'d, Key> {
            pub fn new(
                ephem_key: &'d Key,
                send_key: &'d Key,
                recip_key: &'d Key,
                alg: &'d [u8],
                apu: &'d [u8],
                apv: &'d [u8],
                cc_tag: &'d [u8],
                receive: bool,
            ) -> Self {
                Self { ephem_key, send_key, recip_key, alg, apu, apv, cc_tag, receive }
            }
        }
        impl<Key: KeyExchange + ?Sized> KeyDerivation for Ecdh1PU<'_, Key> {
            fn derive_key_bytes(&mut self, out: &mut [u8]) -> Result<(), Error> {
                let (ze, zs) = if self.receive {
                    (
                        self.recip_key.key_exchange_bytes(self.ephem_key)?,
                        self.recip_key.key_exchange_bytes(self.send_key)?,
                    )
                } else {
                    (
                        self.ephem_key.key_exchange_bytes(self.recip_key)?,
                        self.send_key.key_exchange_bytes(self.recip_key)?,
                    )
                };
                let v = crate::expand(
                    &[b"1pu", &ze, &zs, self.alg, self.apu, self.apv, self.cc_tag],
                    out.len(),
                );
                out.copy_from_slice(&v);
                Ok(())
            }
        }
    }

    pub mod ecdh_es {
        use super::*;
        #[derive(Debug)]
        pub struct EcdhEs<'d, Key: KeyExchange + ?Sized> {
            ephem_key: &'d Key,
            recip_key: &'d Key,
            alg: &'d [u8],
            apu: &'d [u8],
            apv: &'d [u8],
            receive: bool,
        }
        impl<'d, Key: KeyExchange + ?Sized> EcdhEs<'d, Key> {
            pub fn new(
                ephem_key: &'d Key,
                recip_key: &'d Key,
                alg: &'d [u8],
                apu: &'d [u8],
                apv: &'d [u8],
                receive: bool,
            ) -> Self {
                Self { ephem_key, recip_key, alg, apu, apv, receive }
            }
        }
        impl<Key: KeyExchange + ?Sized> KeyDerivation for EcdhEs<'_, Key> {
            fn derive_key_bytes(&mut self, out: &mut [u8]) -> Result<(), Error> {
                let z = if self.receive {
                    self.recip_key.key_exchange_bytes(self.ephem_key)?
                } else {
                    self.ephem_key.key_exchange_bytes(self.recip_key)?
                };
                let v = crate::expand(&[b"es", &z, self.alg, self.apu, self.apv], out.len());
                out.copy_from_slice(&v);
                Ok(())
            }
        }
    }
}

pub mod sign {
    use crate::buffer::{SecretBytes, WriteBuffer};
    use crate::Error;

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum SignatureType {
        EdDSA,
        ES256,
        ES256K,
    }
    pub trait KeySign: KeySigVerify {
        fn write_signature(
            &self,
            message: &[u8],
            sig_type: Option<SignatureType>,
            out: &mut dyn WriteBuffer,
        ) -> Result<(), Error>;
        fn create_signature(
            &self,
            message: &[u8],
            sig_type: Option<SignatureType>,
        ) -> Result<SecretBytes, Error> {
            let mut b = SecretBytes::default();
            self.write_signature(message, sig_type, &mut b)?;
            Ok(b)
        }
    }
    pub trait KeySigVerify {
        fn verify_signature(
            &self,
            message: &[u8],
            signature: &[u8],
            sig_type: Option<SignatureType>,
        ) -> Result<bool, Error>;
    }
}

pub mod jwk {
    use crate::Error;

    pub trait FromJwk: Sized {
        fn from_jwk(jwk: &str) -> Result<Self, Error> {
            let v: serde_json::Value = serde_json::from_str(jwk)
                .map_err(|_| Error::new(crate::ErrorKind::InvalidKeyData, "bad json"))?;
            Self::from_jwk_parts(&v)
        }
        #[doc(hidden)]
        fn from_jwk_parts(jwk: &serde_json::Value) -> Result<Self, Error>;
    }
    pub trait ToJwk {
        fn to_jwk_public(&self, alg: Option<crate::alg::KeyAlg>) -> Result<String, Error>;
        fn to_jwk_secret(&self) -> Result<crate::buffer::SecretBytes, Error>;
    }
}

pub mod alg {
    use crate::buffer::{ResizeBuffer, WriteBuffer};
    use crate::encrypt::{KeyAeadInPlace, KeyAeadMeta, KeyAeadParams};
    use crate::jwk::{FromJwk, ToJwk};
    use crate::kdf::{FromKeyDerivation, KeyDerivation, KeyExchange};
    use crate::random::KeyMaterial;
    use crate::repr::{KeyGen, KeyPublicBytes, KeySecretBytes};
    use crate::sign::{KeySigVerify, KeySign, SignatureType};
    use crate::{Error, ErrorKind};

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum KeyAlg {
        Ed25519,
        X25519,
    }

    pub trait SymType {
        const NAME: &'static str;
        const KEY: usize;
        const NONCE: usize;
        const TAG: usize;
    }

    macro_rules! symtype {
        ($($n:ident $k:expr, $no:expr, $t:expr;)*) => { $(
            #[derive(Debug)]
            pub struct $n;
            impl super::SymType for $n {
                const NAME: &'static str = stringify!($n);
                const KEY: usize = $k;
                const NONCE: usize = $no;
                const TAG: usize = $t;
            }
        )* }
    }

    macro_rules! symkey {
        ($K:ident) => {
            pub struct $K<T>(Vec<u8>, std::marker::PhantomData<T>);
            impl<T> std::fmt::Debug for $K<T> {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str(stringify!($K))
                }
            }
            impl<T: SymType> KeyGen for $K<T> {
                fn generate(mut rng: impl KeyMaterial) -> Result<Self, Error> {
                    let mut v = vec![0u8; T::KEY];
                    rng.read_okm(&mut v);
                    Ok($K(v, std::marker::PhantomData))
                }
            }
            impl<T: SymType> KeySecretBytes for $K<T> {
                fn from_secret_bytes(key: &[u8]) -> Result<Self, Error> {
                    if key.len() != T::KEY {
                        return Err(Error::new(ErrorKind::InvalidKeyData, "length"));
                    }
                    Ok($K(key.to_vec(), std::marker::PhantomData))
                }
                fn with_secret_bytes<O>(&self, f: impl FnOnce(Option<&[u8]>) -> O) -> O {
                    f(Some(&self.0))
                }
            }
            impl<T: SymType> FromKeyDerivation for $K<T> {
                fn from_key_derivation<D: KeyDerivation>(mut d: D) -> Result<Self, Error> {
                    let mut v = vec![0u8; T::KEY];
                    d.derive_key_bytes(&mut v)?;
                    Ok($K(v, std::marker::PhantomData))
                }
            }
            impl<T: SymType> KeyAeadMeta for $K<T> {
                fn random_nonce() -> Vec<u8> {
                    crate::eat(T::NONCE)
                }
            }
            impl<T: SymType> KeyAeadInPlace for $K<T> {
                fn encrypt_in_place(
                    &self,
                    buffer: &mut dyn ResizeBuffer,
                    nonce: &[u8],
                    aad: &[u8],
                ) -> Result<usize, Error> {
                    if nonce.len() != T::NONCE {
                        return Err(Error::new(ErrorKind::InvalidNonce, "nonce"));
                    }
                    let n = buffer.as_ref().len();
                    let ks = crate::expand(&[b"ks", T::NAME.as_bytes(), &self.0, nonce], n);
                    for (b, k) in buffer.as_mut().iter_mut().zip(ks) {
                        *b ^= k;
                    }
                    let tag = crate::expand(
                        &[b"tag", T::NAME.as_bytes(), &self.0, nonce, aad, buffer.as_ref()],
                        T::TAG,
                    );
                    buffer.buffer_insert(n, &tag)?;
                    Ok(n)
                }
                fn decrypt_in_place(
                    &self,
                    buffer: &mut dyn ResizeBuffer,
                    nonce: &[u8],
                    aad: &[u8],
                ) -> Result<(), Error> {
                    if nonce.len() != T::NONCE || buffer.as_ref().len() < T::TAG {
                        return Err(Error::new(ErrorKind::Encryption, "AEAD"));
                    }
                    let n = buffer.as_ref().len() - T::TAG;
                    let tag = crate::expand(
                        &[b"tag", T::NAME.as_bytes(), &self.0, nonce, aad, &buffer.as_ref()[..n]],
                        T::TAG,
                    );
                    if tag != buffer.as_ref()[n..] {
                        return Err(Error::new(ErrorKind::Encryption, "AEAD"));
                    }
                    buffer.buffer_resize(n)?;
                    let ks = crate::expand(&[b"ks", T::NAME.as_bytes(), &self.0, nonce], n);
                    for (b, k) in buffer.as_mut().iter_mut().zip(ks) {
                        *b ^= k;
                    }
                    Ok(())
                }
                fn aead_params(&self) -> KeyAeadParams {
                    KeyAeadParams { nonce_length: T::NONCE, tag_length: T::TAG }
                }
            }
        };
    }

    mod sym {
        use super::*;
        symkey!(AesKey);
        symkey!(Chacha20Key);
    }

    pub mod aes {
        pub use super::sym::AesKey;
        symtype! {
            A128Gcm 16, 12, 16; A256Gcm 32, 12, 16; A128CbcHs256 32, 16, 16;
            A256CbcHs512 64, 16, 32; A128Kw 16, 0, 8; A256Kw 32, 0, 8;
        }
    }
    pub mod chacha20 {
        pub use super::sym::Chacha20Key;
        symtype! { C20P 32, 12, 16; XC20P 32, 24, 16; }
    }

    fn b64(v: &serde_json::Value, k: &str) -> Result<Option<Vec<u8>>, Error> {
        match v.get(k).and_then(|x| x.as_str()) {
            None => Ok(None),
            Some(s) => base64::decode_config(s, base64::URL_SAFE_NO_PAD)
                .map(Some)
                .map_err(|_| Error::new(ErrorKind::InvalidKeyData, "base64")),
        }
    }

    macro_rules! asymkey {
        ($m:ident, $K:ident, $kty:expr, $crv:expr, $hasy:expr) => {
            pub mod $m {
                use super::*;
                #[derive(Clone)]
                pub struct $K {
                    x: Vec<u8>,
                    y: Vec<u8>,
                    d: Option<Vec<u8>>,
                }
                impl std::fmt::Debug for $K {
                    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                        write!(f, concat!(stringify!($K), "({:?},{:?})"), self.x, self.d.is_some())
                    }
                }
                impl $K {
                    fn of_secret(d: Vec<u8>) -> Self {
                        let x = crate::expand(&[b"pub", $crv.as_bytes(), &d], 32);
                        let y = if $hasy { crate::expand(&[b"y", &x], 32) } else { vec![] };
                        $K { x, y, d: Some(d) }
                    }
                }
                impl KeyGen for $K {
                    fn generate(mut rng: impl KeyMaterial) -> Result<Self, Error> {
                        let mut d = vec![0u8; 32];
                        rng.read_okm(&mut d);
                        Ok(Self::of_secret(d))
                    }
                }
                impl KeySecretBytes for $K {
                    fn from_secret_bytes(key: &[u8]) -> Result<Self, Error> {
                        if key.len() != 32 {
                            return Err(Error::new(ErrorKind::InvalidKeyData, "length"));
                        }
                        Ok(Self::of_secret(key.to_vec()))
                    }
                    fn with_secret_bytes<O>(&self, f: impl FnOnce(Option<&[u8]>) -> O) -> O {
                        f(self.d.as_deref())
                    }
                }
                impl KeyPublicBytes for $K {
                    fn from_public_bytes(key: &[u8]) -> Result<Self, Error> {
                        if key.len() != 32 {
                            return Err(Error::new(ErrorKind::InvalidKeyData, "length"));
                        }
                        Ok($K { x: key.to_vec(), y: vec![], d: None })
                    }
                    fn with_public_bytes<O>(&self, f: impl FnOnce(&[u8]) -> O) -> O {
                        f(&self.x)
                    }
                }
                impl FromJwk for $K {
                    fn from_jwk_parts(jwk: &serde_json::Value) -> Result<Self, Error> {
                        let bad = || Error::new(ErrorKind::InvalidKeyData, "jwk");
                        let x = b64(jwk, "x")?.ok_or_else(bad)?;
                        let y = b64(jwk, "y")?.unwrap_or_default();
                        let d = b64(jwk, "d")?;
                        if x.len() != 32 {
                            return Err(bad());
                        }
                        if let Some(d) = &d {
                            if d.len() != 32 {
                                return Err(bad());
                            }
                        }
                        Ok($K { x, y, d })
                    }
                }
                impl ToJwk for $K {
                    fn to_jwk_public(&self, _alg: Option<KeyAlg>) -> Result<String, Error> {
                        let e = |b: &[u8]| base64::encode_config(b, base64::URL_SAFE_NO_PAD);
                        Ok(if $hasy {
                            format!(
                                r#"{{"crv":"{}","kty":"{}","x":"{}","y":"{}"}}"#,
                                $crv, $kty, e(&self.x), e(&self.y)
                            )
                        } else {
                            format!(r#"{{"crv":"{}","kty":"{}","x":"{}"}}"#, $crv, $kty, e(&self.x))
                        })
                    }
                    fn to_jwk_secret(&self) -> Result<crate::buffer::SecretBytes, Error> {
                        let e = |b: &[u8]| base64::encode_config(b, base64::URL_SAFE_NO_PAD);
                        Ok(format!(
                            r#"{{"crv":"{}","kty":"{}","x":"{}","d":"{}"}}"#,
                            $crv, $kty, e(&self.x), e(self.d.as_deref().unwrap_or(&[]))
                        )
                        .into_bytes()
                        .into())
                    }
                }
                impl KeyExchange for $K {
                    fn write_key_exchange(
                        &self,
                        other: &Self,
                        out: &mut dyn WriteBuffer,
                    ) -> Result<(), Error> {
                        if self.d.is_none() {
                            return Err(Error::new(ErrorKind::MissingSecretKey, "no secret"));
                        }
                        let (a, b) = if self.x <= other.x {
                            (&self.x, &other.x)
                        } else {
                            (&other.x, &self.x)
                        };
                        out.buffer_write(&crate::hash(&[b"dh", $crv.as_bytes(), a, b]))
                    }
                }
                impl KeySigVerify for $K {
                    fn verify_signature(
                        &self,
                        message: &[u8],
                        signature: &[u8],
                        sig_type: Option<SignatureType>,
                    ) -> Result<bool, Error> {
                        check_sig_type($crv, sig_type)?;
                        Ok(signature == &crate::expand(&[b"sig", $crv.as_bytes(), &self.x, message], 64)[..])
                    }
                }
                impl KeySign for $K {
                    fn write_signature(
                        &self,
                        message: &[u8],
                        sig_type: Option<SignatureType>,
                        out: &mut dyn WriteBuffer,
                    ) -> Result<(), Error> {
                        check_sig_type($crv, sig_type)?;
                        if self.d.is_none() {
                            return Err(Error::new(ErrorKind::MissingSecretKey, "no secret"));
                        }
                        out.buffer_write(&crate::expand(&[b"sig", $crv.as_bytes(), &self.x, message], 64))
                    }
                }
            }
        };
    }

    fn check_sig_type(crv: &str, t: Option<SignatureType>) -> Result<(), Error> {
        match (crv, t) {
            (_, None)
            | ("Ed25519", Some(SignatureType::EdDSA))
            | ("P-256", Some(SignatureType::ES256))
            | ("secp256k1", Some(SignatureType::ES256K)) => Ok(()),
            _ => Err(Error::new(ErrorKind::Unsupported, "signature type")),
        }
    }

    asymkey!(ed25519, Ed25519KeyPair, "OKP", "Ed25519", false);
    asymkey!(x25519, X25519KeyPair, "OKP", "X25519", false);
    asymkey!(p256, P256KeyPair, "EC", "P-256", true);
    asymkey!(k256, K256KeyPair, "EC", "secp256k1", true);
}
