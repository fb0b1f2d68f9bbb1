//! P08: session keys, key update, set-up and teardown.
//! @level proof
//! @assume HKDF and PSK callbacks are functions that give different secrets for different inputs and parents
//! @assume HMAC callbacks return the digest size or fail (arbitrary bytes otherwise)
use crate::{nd, spy::*};
use core::mem::ManuallyDrop;
use spdmlib::common::session::*;
use spdmlib::error::*;
use spdmlib::message::SpdmKeyExchangeMutAuthAttributes;
use spdmlib::protocol::*;

/// Is `p` exactly the key, IV and sequence number derived from direction secret `secret`?
fn holds(p: &SpdmSessionSecretParam, secret: u32, seq: u64) -> bool {
    p.encryption_key.data_size == 32 && tag_of(&p.encryption_key.data[..]) == t(secret, L_KEY)
        && p.salt.data_size == 12 && p.salt.data[..] == nonce(secret, 0) && p.sequence_number == seq
}
fn erased(p: &SpdmSessionSecretParam) -> bool {
    p.encryption_key.data_size == 0 && *p.encryption_key.data == [0; 32] && p.salt.data_size == 0 && *p.salt.data == [0; 12] && p.sequence_number == 0
}
const RQ: u32 = t(TAG_PSK_MS, L_REQ_APP);
const RP: u32 = t(TAG_PSK_MS, L_RSP_APP);

macro_rules! update {
    ($rq:literal, $rp:literal, $keep:literal) => {{
        install_free_kdf();
        let mut s = ManuallyDrop::new(session(0xfffd_fffe, aead_algo(), 2, false, true));
        s.set_session_state(SpdmSessionState::SpdmSessionEstablished);
        let (a, b): (u64, u64) = (nd::any(), nd::any());
        s.set_request_direction_sequence_number(a);
        s.set_response_direction_sequence_number(b);
        let v = SpdmVersion::SpdmVersion12;
        assert!(s.create_data_secret_update(v, $rq, $rp).is_ok(), "update succeeds");
        let (nq, np) = (t(RQ, L_UPDATE), t(RP, L_UPDATE));
        let k = ManuallyDrop::new(s.export_keys());
        assert!(if $rq { holds(&k.0, nq, 0) } else { holds(&k.0, RQ, a) }, "request keys: new with sequence number 0 if updated, else untouched");
        assert!(if $rp { holds(&k.1, np, 0) } else { holds(&k.1, RP, b) }, "response keys: new with sequence number 0 if updated, else untouched");
        // the new keys have been used for a while
        let (c, d): (u64, u64) = (nd::any(), nd::any());
        if $rq { s.set_request_direction_sequence_number(c); }
        if $rp { s.set_response_direction_sequence_number(d); }
        let keep = $keep;
        assert!(s.activate_data_secret_update(v, $rq, $rp, keep).is_ok(), "activation succeeds");
        let k = ManuallyDrop::new(s.export_keys());
        if keep {
            assert!(if $rq { holds(&k.0, nq, c) } else { holds(&k.0, RQ, a) }, "new request keys stay");
            assert!(if $rp { holds(&k.1, np, d) } else { holds(&k.1, RP, b) }, "new response keys stay");
        } else {
            assert!(holds(&k.0, RQ, a) && holds(&k.1, RP, b), "old keys and sequence numbers are back");
        }
        // the next update of both directions starts from the secrets now in use
        assert!(s.create_data_secret_update(v, true, true).is_ok(), "second update succeeds");
        let k = ManuallyDrop::new(s.export_keys());
        let (rq, rp) = (if $rq && keep { nq } else { RQ }, if $rp && keep { np } else { RP });
        assert!(holds(&k.0, t(rq, L_UPDATE), 0) && holds(&k.1, t(rp, L_UPDATE), 0), "the next update follows from the secret in use");
        cover!(true, "updated again");
    }};
}
macro_rules! hmac_with {
    ($gen:ident, $ver:ident, $dir:expr) => {{
        install_free_kdf();
        install_hmac();
        let s = ManuallyDrop::new(session(0xfffd_fffe, SpdmAeadAlgo::AES_256_GCM, 2, true, false));
        let (data, n): ([u8; 34], usize) = (nd::any(), nd::any());
        nd::assume(n <= 34);
        let mac = ManuallyDrop::new(SpdmDigestStruct { data_size: 32, data: Box::new(nd::any()) });
        let i: usize = nd::any();
        nd::assume(i < n);
        let r = ManuallyDrop::new(s.$gen(&data[..n]));
        unsafe {
            assert!(HMAC.n == 1 && !HMAC.verify && HMAC.algo == 1, "one HMAC");
            assert!(HMAC.key_len == 32 && HMAC.key == t($dir, L_FINISHED), "under the finished key of that direction");
            assert!(HMAC.data_len == n && HMAC.data[i] == data[i], "over the data given");
            match &*r {
                Ok(d) => assert!(HMAC.ok && d.data_size == 32 && *d.data == HMAC.mac, "result is the HMAC"),
                Err(e) => assert!(!HMAC.ok && *e == SPDM_STATUS_CRYPTO_ERROR, "failure is reported"),
            }
            cover!(r.is_ok(), "made");
            let r = s.$ver(&data[..n], &mac);
            assert!(HMAC.n == 2 && HMAC.verify && HMAC.algo == 1, "one verification");
            assert!(HMAC.key_len == 32 && HMAC.key == t($dir, L_FINISHED), "under the finished key of that direction");
            assert!(HMAC.data_len == n && HMAC.data[i] == data[i], "over the data given");
            assert!(HMAC.mac_len == 32 && HMAC.mac == *mac.data, "of the HMAC given");
            assert!(r.is_ok() == HMAC.ok, "verdict is passed on");
            cover!(r.is_err(), "rejected");
        }
    }};
}
macro_rules! key_failure {
    ($k:literal) => {{
        install_free_kdf();
        let mut s = ManuallyDrop::new(session(0xfffd_fffe, SpdmAeadAlgo::AES_256_GCM, 2, false, false));
        let th = ManuallyDrop::new(SpdmDigestStruct { data_size: 0, data: Box::new([0; 64]) });
        unsafe { FREE_FAIL = $k };
        let r = s.generate_handshake_secret(SpdmVersion::SpdmVersion12, &th);
        assert!(r == Err(SPDM_STATUS_CRYPTO_ERROR), "a failed derivation is reported");
        unsafe { FREE_N = 0 };
        let r = s.generate_data_secret(SpdmVersion::SpdmVersion12, &th);
        assert!(r == Err(SPDM_STATUS_CRYPTO_ERROR), "a failed derivation is reported");
        cover!(unsafe { FREE_N } == $k + 1, "stopped there");
    }};
}

harnesses! {
    /// Diffie-Hellman session: handshake and data keys hang off the exchanged secret as DSP0274 says.
    /// @fns: SpdmSession::set_dhe_secret, SpdmSession::generate_data_secret, SpdmSession::generate_handshake_secret
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(70)]
    fn dhe_keys() {
        install_free_kdf();
        install_hmac();
        let v = SpdmVersion::SpdmVersion12;
        let mut s = ManuallyDrop::new(SpdmSession::new());
        s.setup(0xfffd_fffe).unwrap();
        s.set_crypto_param(SpdmBaseHashAlgo::TPM_ALG_SHA_256, SpdmDheAlgo::SECP_384_R1, aead_algo(), SpdmKeyScheduleAlgo::SPDM_KEY_SCHEDULE);
        s.set_transport_param(2, 0);
        let mut d = [0u8; 96];
        d[..4].copy_from_slice(&TAG_DHE.to_le_bytes());
        assert!(s.set_dhe_secret(v, SpdmDheFinalKeyStruct { data_size: 96, data: Box::new(d) }).is_ok(), "secret accepted");
        let th = ManuallyDrop::new(SpdmDigestStruct { data_size: 0, data: Box::new([0; 64]) });
        assert!(s.generate_handshake_secret(v, &th).is_ok() && s.generate_data_secret(v, &th).is_ok(), "keys derived");
        let hs = t(TAG_DHE, L_EXTRACT);
        let ms = t(t(hs, L_DERIVED), L_EXTRACT);
        let k = ManuallyDrop::new(s.export_keys());
        assert!(holds(&k.0, t(ms, L_REQ_APP), 0), "request keys from the master secret");
        assert!(holds(&k.1, t(ms, L_RSP_APP), 0), "response keys from the master secret");
        let _ = ManuallyDrop::new(s.generate_hmac_with_request_finished_key(&[0; 32]));
        assert!(unsafe { HMAC.key } == t(t(hs, L_REQ_HS), L_FINISHED), "request finished key from the handshake secret");
        let _ = ManuallyDrop::new(s.generate_hmac_with_response_finished_key(&[0; 32]));
        assert!(unsafe { HMAC.key } == t(t(hs, L_RSP_HS), L_FINISHED), "response finished key from the handshake secret");
        cover!(true, "all derived");
    }
    /// @fns: SpdmSession::generate_hmac_with_request_finished_key, SpdmSession::verify_hmac_with_request_finished_key
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(70)]
    fn hmac_request() { hmac_with!(generate_hmac_with_request_finished_key, verify_hmac_with_request_finished_key, t(TAG_PSK_HS, L_REQ_HS)) }
    /// @fns: SpdmSession::generate_hmac_with_response_finished_key, SpdmSession::verify_hmac_with_response_finished_key
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(70)]
    fn hmac_response() { hmac_with!(generate_hmac_with_response_finished_key, verify_hmac_with_response_finished_key, t(TAG_PSK_HS, L_RSP_HS)) }
    /// @fns: SpdmSession::create_data_secret_update, SpdmSession::activate_data_secret_update, SpdmSession::export_keys
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(70)]
    fn update_request_kept() { update!(true, false, true) }
    /// @fns: SpdmSession::create_data_secret_update, SpdmSession::activate_data_secret_update, SpdmSession::export_keys
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(70)]
    fn update_request_abandoned() { update!(true, false, false) }
    /// @fns: SpdmSession::create_data_secret_update, SpdmSession::activate_data_secret_update, SpdmSession::export_keys
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(70)]
    fn update_response_kept() { update!(false, true, true) }
    /// @fns: SpdmSession::create_data_secret_update, SpdmSession::activate_data_secret_update, SpdmSession::export_keys
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(70)]
    fn update_response_abandoned() { update!(false, true, false) }
    /// @fns: SpdmSession::create_data_secret_update, SpdmSession::activate_data_secret_update, SpdmSession::export_keys
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(70)]
    fn update_both_kept() { update!(true, true, true) }
    /// @fns: SpdmSession::create_data_secret_update, SpdmSession::activate_data_secret_update, SpdmSession::export_keys
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(70)]
    fn update_both_abandoned() { update!(true, true, false) }
    /// @fns: SpdmSession::generate_handshake_secret, SpdmSession::generate_data_secret
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(70)]
    fn failure_0() { key_failure!(0) }
    /// @fns: SpdmSession::generate_handshake_secret, SpdmSession::generate_data_secret
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    /// @tier: thorough
    #[unwind(70)]
    fn failure_3() { key_failure!(3) }
    /// @fns: SpdmSession::generate_handshake_secret, SpdmSession::generate_data_secret
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(70)]
    fn failure_6() { key_failure!(6) }
    /// After teardown nothing of the session is left, and set-up starts from nothing.
    /// @fns: SpdmSession::teardown, SpdmSession::setup, SpdmSession::set_default
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(70)]
    fn teardown() {
        install_free_kdf();
        install_hmac();
        let id: u32 = nd::any();
        nd::assume(id != 0);
        let mut s = ManuallyDrop::new(session(id, aead_algo(), 2, true, true));
        s.set_session_state(SpdmSessionState::SpdmSessionEstablished);
        s.set_request_direction_sequence_number(nd::any());
        s.set_response_direction_sequence_number(nd::any());
        s.set_slot_id(nd::any());
        s.heartbeat_period = nd::any();
        s.secure_spdm_version_sel = nd::any();
        s.set_mut_auth_requested(SpdmKeyExchangeMutAuthAttributes::MUT_AUTH_REQ);
        s.runtime_info.message_f_initialized = true;
        s.runtime_info.rsp_cert_hash = Some(SpdmDigestStruct::default());
        s.runtime_info.req_cert_hash = Some(SpdmDigestStruct::default());
        assert!(s.teardown(id).is_ok(), "torn down");
        assert!(s.get_session_id() == 0, "slot is free");
        let again: bool = nd::any();
        if again {
            let other: u32 = nd::any();
            assert!(s.setup(other).is_ok() && s.get_session_id() == other, "set up again");
        }
        assert!(s.get_session_state() == SpdmSessionState::SpdmSessionNotStarted, "not started");
        assert!(!s.get_use_psk() && s.get_slot_id() == 0 && s.heartbeat_period == 0, "defaults");
        assert!(s.secure_spdm_version_sel == SpdmSession::new().secure_spdm_version_sel, "secured message version");
        assert!(s.get_mut_auth_requested().is_empty(), "no mutual authentication pending");
        let c = s.get_crypto_param();
        assert!(c.base_hash_algo.is_empty() && c.dhe_algo.is_empty() && c.aead_algo.is_empty() && c.key_schedule_algo.is_empty(), "no algorithms");
        let k = ManuallyDrop::new(s.export_keys());
        assert!(erased(&k.0) && erased(&k.1), "data keys erased");
        s.set_crypto_param(SpdmBaseHashAlgo::TPM_ALG_SHA_256, c.dhe_algo, c.aead_algo, c.key_schedule_algo);
        let _ = ManuallyDrop::new(s.generate_hmac_with_request_finished_key(&[0; 4]));
        assert!(unsafe { HMAC.key_len } == 0, "request finished key erased");
        let _ = ManuallyDrop::new(s.generate_hmac_with_response_finished_key(&[0; 4]));
        assert!(unsafe { HMAC.key_len } == 0, "response finished key erased");
        let r = &s.runtime_info;
        assert!(r.psk_hint.is_none() && r.rsp_cert_hash.is_none() && r.req_cert_hash.is_none() && !r.message_f_initialized, "runtime state cleared");
        assert!(r.digest_context_th.is_none() && r.digest_context_l1l2.is_none(), "transcripts cleared");
        // nothing can be rolled back to either
        let _ = s.activate_data_secret_update(SpdmVersion::SpdmVersion12, true, true, false);
        let k = ManuallyDrop::new(s.export_keys());
        assert!(erased(&k.0) && erased(&k.1), "backup keys erased");
        cover!(again, "set up again");
    }
}
