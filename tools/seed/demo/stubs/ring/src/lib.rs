//! Stand-in for `ring`: the verdict on a signature is an oracle of the harness.
#![no_std]
pub mod error {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Unspecified;
    impl core::fmt::Display for Unspecified {
        fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
            f.write_str("ring::error::Unspecified")
        }
    }
}
pub mod signature {
    use crate::error::Unspecified;
    extern "C" {
        fn lsx_oracle_verify(alg: u32, k: *const u8, kl: usize, e: *const u8, el: usize, m: *const u8, ml: usize, s: *const u8, sl: usize) -> u32;
    }
    pub trait VerificationAlgorithm: core::fmt::Debug + Sync {
        fn id(&self) -> u32;
    }
    #[derive(Debug)]
    pub struct EcdsaVerificationAlgorithm(u32);
    #[derive(Debug)]
    pub struct EdDSAParameters(u32);
    #[derive(Debug)]
    pub struct RsaParameters(u32);
    impl VerificationAlgorithm for EcdsaVerificationAlgorithm {
        fn id(&self) -> u32 {
            self.0
        }
    }
    impl VerificationAlgorithm for EdDSAParameters {
        fn id(&self) -> u32 {
            self.0
        }
    }
    impl VerificationAlgorithm for RsaParameters {
        fn id(&self) -> u32 {
            self.0
        }
    }
    // the numbers 5, 8, 10, 13, 14, 15 are the DNSSEC algorithm numbers with this meaning
    pub static RSA_PKCS1_1024_8192_SHA1_FOR_LEGACY_USE_ONLY: RsaParameters = RsaParameters(5);
    pub static RSA_PKCS1_1024_8192_SHA256_FOR_LEGACY_USE_ONLY: RsaParameters = RsaParameters(8);
    pub static RSA_PKCS1_1024_8192_SHA512_FOR_LEGACY_USE_ONLY: RsaParameters = RsaParameters(10);
    pub static RSA_PKCS1_2048_8192_SHA1_FOR_LEGACY_USE_ONLY: RsaParameters = RsaParameters(105);
    pub static RSA_PKCS1_2048_8192_SHA256: RsaParameters = RsaParameters(108);
    pub static RSA_PKCS1_2048_8192_SHA384: RsaParameters = RsaParameters(109);
    pub static RSA_PKCS1_2048_8192_SHA512: RsaParameters = RsaParameters(110);
    pub static RSA_PKCS1_3072_8192_SHA384: RsaParameters = RsaParameters(111);
    pub static RSA_PSS_2048_8192_SHA256: RsaParameters = RsaParameters(208);
    pub static RSA_PSS_2048_8192_SHA384: RsaParameters = RsaParameters(209);
    pub static RSA_PSS_2048_8192_SHA512: RsaParameters = RsaParameters(210);
    pub static ECDSA_P256_SHA256_FIXED: EcdsaVerificationAlgorithm = EcdsaVerificationAlgorithm(13);
    pub static ECDSA_P384_SHA384_FIXED: EcdsaVerificationAlgorithm = EcdsaVerificationAlgorithm(14);
    pub static ECDSA_P256_SHA256_ASN1: EcdsaVerificationAlgorithm = EcdsaVerificationAlgorithm(113);
    pub static ECDSA_P256_SHA384_ASN1: EcdsaVerificationAlgorithm = EcdsaVerificationAlgorithm(114);
    pub static ECDSA_P384_SHA256_ASN1: EcdsaVerificationAlgorithm = EcdsaVerificationAlgorithm(115);
    pub static ECDSA_P384_SHA384_ASN1: EcdsaVerificationAlgorithm = EcdsaVerificationAlgorithm(116);
    pub static ED25519: EdDSAParameters = EdDSAParameters(15);

    #[derive(Clone, Copy, Debug)]
    pub struct UnparsedPublicKey<B> {
        algorithm: &'static dyn VerificationAlgorithm,
        bytes: B,
    }
    impl<B> AsRef<B> for UnparsedPublicKey<B> {
        fn as_ref(&self) -> &B {
            &self.bytes
        }
    }
    impl<B> UnparsedPublicKey<B> {
        pub fn new(algorithm: &'static dyn VerificationAlgorithm, bytes: B) -> Self {
            Self { algorithm, bytes }
        }
        pub fn verify(&self, message: &[u8], signature: &[u8]) -> Result<(), Unspecified>
        where
            B: AsRef<[u8]>,
        {
            let k = self.bytes.as_ref();
            ask(self.algorithm.id(), k, &[], message, signature)
        }
    }
    #[derive(Clone, Copy)]
    pub struct RsaPublicKeyComponents<B> {
        pub n: B,
        pub e: B,
    }
    impl<B: AsRef<[u8]>> RsaPublicKeyComponents<B> {
        pub fn verify(&self, params: &'static RsaParameters, message: &[u8], signature: &[u8]) -> Result<(), Unspecified> {
            ask(params.0, self.n.as_ref(), self.e.as_ref(), message, signature)
        }
    }
    fn ask(alg: u32, k: &[u8], e: &[u8], m: &[u8], s: &[u8]) -> Result<(), Unspecified> {
        let r = unsafe { lsx_oracle_verify(alg, k.as_ptr(), k.len(), e.as_ptr(), e.len(), m.as_ptr(), m.len(), s.as_ptr(), s.len()) };
        if r != 0 {
            Ok(())
        } else {
            Err(Unspecified)
        }
    }
}
