//! P06: key schedule.
//! @level proof
//! @assume HKDF and PSK callbacks return exactly the number of bytes asked for, or fail (arbitrary bytes otherwise)
use crate::{nd, spy::*};
use spdmlib::common::key_schedule::SpdmKeySchedule;
use spdmlib::protocol::*;

fn secret64() -> (Box<[u8; 64]>, u16) {
    (Box::new(nd::any()), 0)
}

/// `$call` makes one derivation; it must be exactly `kind(key, BinConcat(len, label, ctx), size)`.
fn check_one(kind: Kind, algo: SpdmBaseHashAlgo, key: &[u8], info: ([u8; INFO], usize), size: u16, r: Option<&[u8]>) {
    unsafe {
        assert!(KDF_N == 1, "one derivation");
        let c = &KDF[0];
        assert!(c.kind == kind && c.algo == algo.bits(), "primitive and hash algorithm");
        assert!(c.key_len == key.len() && eq(&c.key[..c.key_len], key), "the parent secret is the key");
        assert!(c.info_len == info.1, "length of the derivation input");
        assert!(c.info == info.0, "derivation input is length, version, label, transcript hash");
        assert!(c.size == size, "output size");
        cover!(r.is_some(), "derived");
        cover!(r.is_none(), "failed");
        match r {
            Some(d) => {
                assert!(c.ok, "no secret when the derivation failed");
                assert!(eq(d, &c.out[..size as usize]), "the secret is the derived bytes");
            }
            None => assert!(!c.ok, "derived secret is not dropped"),
        }
    }
}
macro_rules! directed {
    ($h:ident, $f:ident, $Key:ident, $label:literal) => {{
        let a = SpdmBaseHashAlgo::$h;
        install_kdf();
        let v = version();
        let n = a.get_size();
        let key = $Key { data_size: n, data: Box::new(nd::any()) };
        let th: [u8; 64] = nd::any();
        let th = &th[..n as usize];
        let r = SpdmKeySchedule::new().$f(false, v, a, Some(&key), None, th);
        check_one(Kind::Expand, a, key.as_ref(), bin_concat(n, v, $label, th), n, r.as_ref().map(|x| x.as_ref()));
        let r = SpdmKeySchedule::new().$f(false, v, a, None, None, th);
        assert!(r.is_none() && unsafe { KDF_N } == 1, "no parent secret, no derivation");
    }};
}
macro_rules! directed_psk {
    ($h:ident, $f:ident, $label:literal, $psk:expr) => {{
        let a = SpdmBaseHashAlgo::$h;
        install_kdf();
        let v = version();
        let n = a.get_size();
        let th: [u8; 64] = nd::any();
        let th = &th[..n as usize];
        let mut hint = SpdmPskHintStruct::default();
        hint.data_size = 8;
        hint.data[..8].copy_from_slice(&nd::any::<[u8; 8]>());
        let r = SpdmKeySchedule::new().$f(true, v, a, None, Some(&hint), th);
        check_one($psk, a, hint.as_ref(), bin_concat(n, v, $label, th), n, r.as_ref().map(|x| x.as_ref()));
    }};
}
macro_rules! undirected {
    ($h:ident, $f:ident, $Key:ident, $label:literal) => {{
        let a = SpdmBaseHashAlgo::$h;
        install_kdf();
        let v = version();
        let n = a.get_size();
        let key = $Key { data_size: n, data: Box::new(nd::any()) };
        let r = SpdmKeySchedule::new().$f(v, a, &key);
        check_one(Kind::Expand, a, key.as_ref(), bin_concat(n, v, $label, &[]), n, r.as_ref().map(|x| x.as_ref()));
    }};
}
macro_rules! aead {
    ($h:ident, $Key:ident, $wrap:ident) => {{
        let a = SpdmBaseHashAlgo::$h;
        install_kdf();
        let (v, e) = (version(), aead_algo());
        let n = a.get_size();
        let key = $Key { data_size: n, data: Box::new(nd::any()) };
        let r = SpdmKeySchedule::new().derive_aead_key_iv(v, a, e, &SpdmMajorSecret::$wrap(&key));
        unsafe {
            let all_ok = KDF_N == 2 && KDF[0].ok && KDF[1].ok;
            cover!(all_ok, "derived");
            cover!(r.is_none(), "failed");
            assert!(r.is_some() == all_ok, "key and IV exactly when both derivations succeed");
            let (ki, ii) = (bin_concat(e.get_key_size(), v, b"key", &[]), bin_concat(e.get_iv_size(), v, b"iv", &[]));
            let mut seen = (false, false);
            for i in 0..2 {
                if i < KDF_N {
                    let c = &KDF[i];
                    assert!(c.kind == Kind::Expand && c.algo == a.bits(), "primitive and hash algorithm");
                    assert!(c.key_len == n as usize && eq(&c.key[..c.key_len], key.as_ref()), "the direction secret is the key");
                    if c.info_len == ki.1 {
                        assert!(c.info == ki.0 && c.size >= e.get_key_size(), "key derivation input");
                        seen.0 = true;
                        if let Some((k, _)) = &r {
                            assert!(k.data_size >= e.get_key_size(), "key size");
                            assert!(eq(&k.data[..e.get_key_size() as usize], &c.out[..e.get_key_size() as usize]), "the key is the derived bytes");
                        }
                    } else {
                        assert!(c.info_len == ii.1 && c.info == ii.0 && c.size == e.get_iv_size(), "IV derivation input");
                        seen.1 = true;
                        if let Some((_, v)) = &r {
                            assert!(eq(v.as_ref(), &c.out[..12]), "the IV is the derived bytes");
                        }
                    }
                }
            }
            assert!(r.is_none() || seen == (true, true), "one key and one IV derivation");
        }
    }};
}

macro_rules! handshake_secret { ($h:ident) => {{
        let a = SpdmBaseHashAlgo::$h;
        install_kdf();
        let v = version();
        let dn = 96u16;
        let key = SpdmDheFinalKeyStruct { data_size: dn, data: Box::new(nd::any()) };
        let r = SpdmKeySchedule::new().derive_handshake_secret(v, a, &key);
        let n = a.get_size();
        check_one(Kind::Extract, a, key.as_ref(), ([0; INFO], n as usize), n, r.as_ref().map(|x| x.as_ref()));
    }}}
macro_rules! master_secret {
    ($h:ident, $fail:literal) => {{
        let a = SpdmBaseHashAlgo::$h;
        install_kdf();
        unsafe { KDF_FAIL = $fail };
        let v = version();
        let n = a.get_size() as usize;
        let key = SpdmHandshakeSecretStruct { data_size: n as u16, data: Box::new(nd::any()) };
        let r = SpdmKeySchedule::new().derive_master_secret(v, a, &key);
        unsafe {
            cover!(KDF_N > 0, "derives");
            assert!(r.is_some() == ($fail < 0), "a secret exactly when both steps succeed");
            let (i, il) = bin_concat(n as u16, v, b"derived", &[]);
            let c = &KDF[0];
            assert!(c.kind == Kind::Expand && c.algo == a.bits() && c.size as usize == n, "the salt is expanded");
            assert!(c.key_len == n && eq(&c.key[..n], key.as_ref()), "from the handshake secret");
            assert!(c.info_len == il && c.info == i, "with the label derived");
            if $fail != 0 {
                assert!(KDF_N == 2, "two steps");
                let d = &KDF[1];
                assert!(d.kind == Kind::Extract && d.algo == a.bits(), "the master secret is extracted");
                assert!(d.info_len == n && eq(&d.info[..n], &c.out[..n]), "with that salt");
                assert!(d.key_len == n && d.key == [0u8; 96], "from zeros of the hash size");
                if let Some(r) = &r {
                    assert!(eq(r.as_ref(), &d.out[..n]), "the secret is the extracted bytes");
                }
            }
        }
    }};
}
macro_rules! export {
    ($h:ident, $psk:literal) => {{
        let a = SpdmBaseHashAlgo::$h;
        install_kdf();
        let v = version();
        let n = a.get_size();
        let key = SpdmMasterSecretStruct { data_size: n, data: Box::new(nd::any()) };
        let mut hint = SpdmPskHintStruct::default();
        hint.data_size = 8;
        hint.data[..8].copy_from_slice(&nd::any::<[u8; 8]>());
        let r = SpdmKeySchedule::new().derive_export_master_secret($psk, v, a, if $psk { None } else { Some(&key) }, Some(&hint));
        let info = bin_concat(n, v, b"exp master", &[]);
        if $psk {
            check_one(Kind::PskMaster, a, hint.as_ref(), info, n, r.as_ref().map(|x| x.as_ref()));
        } else {
            check_one(Kind::Expand, a, key.as_ref(), info, n, r.as_ref().map(|x| x.as_ref()));
        }
    }};
}

harnesses! {
    /// BinConcat is le16(length), "spdmM.m ", label, context, and refuses what does not fit.
    /// @fns: SpdmKeySchedule::binconcat
    /// @bound: labels up to 3 bytes, contexts up to 6 bytes, buffers of 10 to 20 bytes
    #[unwind(24)]
    fn binconcat() {
        let v = version();
        let len: u16 = nd::any();
        let label: [u8; 3] = nd::any();
        let ctx: [u8; 6] = nd::any();
        let (ln, cn, bn): (usize, usize, usize) = (nd::any(), nd::any(), nd::any());
        nd::assume(ln <= 3 && cn <= 6 && bn >= 10 && bn <= 20);
        let with: bool = nd::any();
        nd::assume(with || cn == 0);
        let mut buf = [0u8; 20];
        let r = SpdmKeySchedule::new().binconcat(len, v, &label[..ln], if with { Some(&ctx[..cn]) } else { None }, &mut buf[..bn]);
        assert!(r.is_some() == (10 + ln + cn <= bn), "refused exactly when it does not fit");
        cover!(r.is_none(), "refused");
        if let Some(r) = r {
            cover!(r.len() == 19, "longest");
            assert!(r.len() == 10 + ln + cn, "length");
            let h = bin_concat(len, v, &[], &[]).0;
            let i: usize = nd::any();
            nd::assume(i < 10 + ln + cn);
            assert!(r[i] == if i < 10 { h[i] } else if i < 10 + ln { label[i - 10] } else { ctx[i - 10 - ln] }, "every byte");
        }
    }
    /// @fns: SpdmKeySchedule::derive_handshake_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn handshake_secret_256() { handshake_secret!(TPM_ALG_SHA_256) }
    /// @fns: SpdmKeySchedule::derive_handshake_secret
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn handshake_secret_384() { handshake_secret!(TPM_ALG_SHA_384) }
    /// @fns: SpdmKeySchedule::derive_handshake_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn handshake_secret_512() { handshake_secret!(TPM_ALG_SHA_512) }
    /// The master secret is extracted from zeros with the salt expanded from the handshake secret.
    /// @fns: SpdmKeySchedule::derive_master_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn master_secret_256() { master_secret!(TPM_ALG_SHA_256, -1) }
    /// The master secret is extracted from zeros with the salt expanded from the handshake secret.
    /// @fns: SpdmKeySchedule::derive_master_secret
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn master_secret_384() { master_secret!(TPM_ALG_SHA_384, -1) }
    /// The master secret is extracted from zeros with the salt expanded from the handshake secret.
    /// @fns: SpdmKeySchedule::derive_master_secret
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn master_secret_fail0() { master_secret!(TPM_ALG_SHA_384, 0) }
    /// The master secret is extracted from zeros with the salt expanded from the handshake secret.
    /// @fns: SpdmKeySchedule::derive_master_secret
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn master_secret_fail1() { master_secret!(TPM_ALG_SHA_384, 1) }
    /// The master secret is extracted from zeros with the salt expanded from the handshake secret.
    /// @fns: SpdmKeySchedule::derive_master_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn master_secret_512() { master_secret!(TPM_ALG_SHA_512, -1) }
    /// @fns: SpdmKeySchedule::derive_request_handshake_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn request_handshake_256() { directed!(TPM_ALG_SHA_256, derive_request_handshake_secret, SpdmHandshakeSecretStruct, b"req hs data") }
    /// @fns: SpdmKeySchedule::derive_request_handshake_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn request_handshake_psk_256() { directed_psk!(TPM_ALG_SHA_256, derive_request_handshake_secret, b"req hs data", Kind::PskHandshake) }
    /// @fns: SpdmKeySchedule::derive_request_handshake_secret
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn request_handshake_384() { directed!(TPM_ALG_SHA_384, derive_request_handshake_secret, SpdmHandshakeSecretStruct, b"req hs data") }
    /// @fns: SpdmKeySchedule::derive_request_handshake_secret
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn request_handshake_psk_384() { directed_psk!(TPM_ALG_SHA_384, derive_request_handshake_secret, b"req hs data", Kind::PskHandshake) }
    /// @fns: SpdmKeySchedule::derive_request_handshake_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn request_handshake_512() { directed!(TPM_ALG_SHA_512, derive_request_handshake_secret, SpdmHandshakeSecretStruct, b"req hs data") }
    /// @fns: SpdmKeySchedule::derive_request_handshake_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn request_handshake_psk_512() { directed_psk!(TPM_ALG_SHA_512, derive_request_handshake_secret, b"req hs data", Kind::PskHandshake) }
    /// @fns: SpdmKeySchedule::derive_response_handshake_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn response_handshake_256() { directed!(TPM_ALG_SHA_256, derive_response_handshake_secret, SpdmHandshakeSecretStruct, b"rsp hs data") }
    /// @fns: SpdmKeySchedule::derive_response_handshake_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn response_handshake_psk_256() { directed_psk!(TPM_ALG_SHA_256, derive_response_handshake_secret, b"rsp hs data", Kind::PskHandshake) }
    /// @fns: SpdmKeySchedule::derive_response_handshake_secret
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn response_handshake_384() { directed!(TPM_ALG_SHA_384, derive_response_handshake_secret, SpdmHandshakeSecretStruct, b"rsp hs data") }
    /// @fns: SpdmKeySchedule::derive_response_handshake_secret
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn response_handshake_psk_384() { directed_psk!(TPM_ALG_SHA_384, derive_response_handshake_secret, b"rsp hs data", Kind::PskHandshake) }
    /// @fns: SpdmKeySchedule::derive_response_handshake_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn response_handshake_512() { directed!(TPM_ALG_SHA_512, derive_response_handshake_secret, SpdmHandshakeSecretStruct, b"rsp hs data") }
    /// @fns: SpdmKeySchedule::derive_response_handshake_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn response_handshake_psk_512() { directed_psk!(TPM_ALG_SHA_512, derive_response_handshake_secret, b"rsp hs data", Kind::PskHandshake) }
    /// @fns: SpdmKeySchedule::derive_request_data_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn request_data_256() { directed!(TPM_ALG_SHA_256, derive_request_data_secret, SpdmMasterSecretStruct, b"req app data") }
    /// @fns: SpdmKeySchedule::derive_request_data_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn request_data_psk_256() { directed_psk!(TPM_ALG_SHA_256, derive_request_data_secret, b"req app data", Kind::PskMaster) }
    /// @fns: SpdmKeySchedule::derive_request_data_secret
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn request_data_384() { directed!(TPM_ALG_SHA_384, derive_request_data_secret, SpdmMasterSecretStruct, b"req app data") }
    /// @fns: SpdmKeySchedule::derive_request_data_secret
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn request_data_psk_384() { directed_psk!(TPM_ALG_SHA_384, derive_request_data_secret, b"req app data", Kind::PskMaster) }
    /// @fns: SpdmKeySchedule::derive_request_data_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn request_data_512() { directed!(TPM_ALG_SHA_512, derive_request_data_secret, SpdmMasterSecretStruct, b"req app data") }
    /// @fns: SpdmKeySchedule::derive_request_data_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn request_data_psk_512() { directed_psk!(TPM_ALG_SHA_512, derive_request_data_secret, b"req app data", Kind::PskMaster) }
    /// @fns: SpdmKeySchedule::derive_response_data_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn response_data_256() { directed!(TPM_ALG_SHA_256, derive_response_data_secret, SpdmMasterSecretStruct, b"rsp app data") }
    /// @fns: SpdmKeySchedule::derive_response_data_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn response_data_psk_256() { directed_psk!(TPM_ALG_SHA_256, derive_response_data_secret, b"rsp app data", Kind::PskMaster) }
    /// @fns: SpdmKeySchedule::derive_response_data_secret
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn response_data_384() { directed!(TPM_ALG_SHA_384, derive_response_data_secret, SpdmMasterSecretStruct, b"rsp app data") }
    /// @fns: SpdmKeySchedule::derive_response_data_secret
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn response_data_psk_384() { directed_psk!(TPM_ALG_SHA_384, derive_response_data_secret, b"rsp app data", Kind::PskMaster) }
    /// @fns: SpdmKeySchedule::derive_response_data_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn response_data_512() { directed!(TPM_ALG_SHA_512, derive_response_data_secret, SpdmMasterSecretStruct, b"rsp app data") }
    /// @fns: SpdmKeySchedule::derive_response_data_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn response_data_psk_512() { directed_psk!(TPM_ALG_SHA_512, derive_response_data_secret, b"rsp app data", Kind::PskMaster) }
    /// @fns: SpdmKeySchedule::derive_finished_key
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn finished_256() { undirected!(TPM_ALG_SHA_256, derive_finished_key, SpdmDirectionHandshakeSecretStruct, b"finished") }
    /// @fns: SpdmKeySchedule::derive_finished_key
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn finished_384() { undirected!(TPM_ALG_SHA_384, derive_finished_key, SpdmDirectionHandshakeSecretStruct, b"finished") }
    /// @fns: SpdmKeySchedule::derive_finished_key
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn finished_512() { undirected!(TPM_ALG_SHA_512, derive_finished_key, SpdmDirectionHandshakeSecretStruct, b"finished") }
    /// @fns: SpdmKeySchedule::derive_update_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn update_256() { undirected!(TPM_ALG_SHA_256, derive_update_secret, SpdmDirectionDataSecretStruct, b"traffic upd") }
    /// @fns: SpdmKeySchedule::derive_update_secret
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn update_384() { undirected!(TPM_ALG_SHA_384, derive_update_secret, SpdmDirectionDataSecretStruct, b"traffic upd") }
    /// @fns: SpdmKeySchedule::derive_update_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn update_512() { undirected!(TPM_ALG_SHA_512, derive_update_secret, SpdmDirectionDataSecretStruct, b"traffic upd") }
    /// @fns: SpdmKeySchedule::derive_export_master_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn export_256() { export!(TPM_ALG_SHA_256, false) }
    /// @fns: SpdmKeySchedule::derive_export_master_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn export_psk_256() { export!(TPM_ALG_SHA_256, true) }
    /// @fns: SpdmKeySchedule::derive_export_master_secret
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn export_384() { export!(TPM_ALG_SHA_384, false) }
    /// @fns: SpdmKeySchedule::derive_export_master_secret
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn export_psk_384() { export!(TPM_ALG_SHA_384, true) }
    /// @fns: SpdmKeySchedule::derive_export_master_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn export_512() { export!(TPM_ALG_SHA_512, false) }
    /// @fns: SpdmKeySchedule::derive_export_master_secret
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn export_psk_512() { export!(TPM_ALG_SHA_512, true) }
    /// @fns: SpdmKeySchedule::derive_aead_key_iv
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn aead_handshake_256() { aead!(TPM_ALG_SHA_256, SpdmDirectionHandshakeSecretStruct, SpdmDirectionHandshakeSecret) }
    /// @fns: SpdmKeySchedule::derive_aead_key_iv
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn aead_handshake_384() { aead!(TPM_ALG_SHA_384, SpdmDirectionHandshakeSecretStruct, SpdmDirectionHandshakeSecret) }
    /// @fns: SpdmKeySchedule::derive_aead_key_iv
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn aead_handshake_512() { aead!(TPM_ALG_SHA_512, SpdmDirectionHandshakeSecretStruct, SpdmDirectionHandshakeSecret) }
    /// @fns: SpdmKeySchedule::derive_aead_key_iv
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn aead_data_256() { aead!(TPM_ALG_SHA_256, SpdmDirectionDataSecretStruct, SpdmDirectionDataSecret) }
    /// @fns: SpdmKeySchedule::derive_aead_key_iv
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn aead_data_384() { aead!(TPM_ALG_SHA_384, SpdmDirectionDataSecretStruct, SpdmDirectionDataSecret) }
    /// @fns: SpdmKeySchedule::derive_aead_key_iv
    /// @tier: thorough
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(100)]
    fn aead_data_512() { aead!(TPM_ALG_SHA_512, SpdmDirectionDataSecretStruct, SpdmDirectionDataSecret) }
}
