//! Assumed contracts of the cryptographic primitives: each callback records
//! its arguments and answers with an arbitrary value of the size its contract
//! promises, or with failure. Nothing else is assumed about them.
use crate::nd;
use codec::Writer;
use spdmlib::crypto::*;
use spdmlib::error::*;
use spdmlib::protocol::*;

pub fn eq(a: &[u8], b: &[u8]) -> bool {
    a == b
}

pub fn version() -> SpdmVersion {
    let v: u8 = nd::any();
    nd::assume(v == 0x10 || v == 0x11 || v == 0x12);
    ver(v)
}
pub fn ver(v: u8) -> SpdmVersion {
    match v {
        0x10 => SpdmVersion::SpdmVersion10,
        0x11 => SpdmVersion::SpdmVersion11,
        _ => SpdmVersion::SpdmVersion12,
    }
}
pub fn hash_algo() -> SpdmBaseHashAlgo {
    let k: u8 = nd::any();
    match k % 3 {
        0 => SpdmBaseHashAlgo::TPM_ALG_SHA_256,
        1 => SpdmBaseHashAlgo::TPM_ALG_SHA_384,
        _ => SpdmBaseHashAlgo::TPM_ALG_SHA_512,
    }
}
pub fn aead_algo() -> SpdmAeadAlgo {
    let k: u8 = nd::any();
    match k % 3 {
        0 => SpdmAeadAlgo::AES_128_GCM,
        1 => SpdmAeadAlgo::AES_256_GCM,
        _ => SpdmAeadAlgo::CHACHA20_POLY1305,
    }
}

// ------------------------------------------------------------------ hkdf
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    None,
    Extract,
    Expand,
    PskHandshake,
    PskMaster,
}
pub const INFO: usize = 88;
#[derive(Clone, Copy)]
pub struct Kdf {
    pub kind: Kind,
    pub algo: u32,
    /// expand: the pseudo-random key; extract: the input keying material; psk: the hint
    pub key: [u8; 96],
    pub key_len: usize,
    /// expand: info; extract: salt
    pub info: [u8; INFO],
    pub info_len: usize,
    pub size: u16,
    pub ok: bool,
    pub out: [u8; 64],
    pub out_len: u16,
}
const K0: Kdf = Kdf { kind: Kind::None, algo: 0, key: [0; 96], key_len: 0, info: [0; INFO], info_len: 0, size: 0, ok: false, out: [0; 64], out_len: 0 };
pub const KDF_MAX: usize = 10;
pub static mut KDF: [Kdf; KDF_MAX] = [K0; KDF_MAX];
pub static mut KDF_N: usize = 0;
/// Which derivation fails: ANY (each one may), NONE, or the one with that index.
pub static mut KDF_FAIL: isize = ANY;
pub const ANY: isize = -2;
pub const NONE: isize = -1;

fn kdf_call(kind: Kind, algo: u32, key: &[u8], info: &[u8], size: u16) -> (bool, [u8; 64]) {
    unsafe {
        assert!(KDF_N < KDF_MAX && key.len() <= 96 && info.len() <= INFO, "no more derivations than the schedule has");
        let c = &mut KDF[KDF_N];
        KDF_N += 1;
        c.kind = kind;
        c.algo = algo;
        c.key[..key.len()].copy_from_slice(key);
        c.key_len = key.len();
        c.info[..info.len()].copy_from_slice(info);
        c.info_len = info.len();
        c.size = size;
        let ok = if KDF_FAIL == ANY { nd::any() } else { KDF_FAIL != KDF_N as isize - 1 };
        let out: [u8; 64] = nd::any();
        c.ok = ok;
        c.out = out;
        c.out_len = size;
        (ok, out)
    }
}
fn okm(r: (bool, [u8; 64]), size: u16) -> Option<SpdmHkdfOutputKeyingMaterial> {
    if r.0 && size <= 64 {
        Some(SpdmHkdfOutputKeyingMaterial { data_size: size, data: Box::new(r.1) })
    } else {
        None
    }
}
fn extract_cb(a: SpdmBaseHashAlgo, salt: &[u8], ikm: &SpdmHkdfInputKeyingMaterial) -> Option<SpdmHkdfPseudoRandomKey> {
    let n = a.get_size();
    let r = kdf_call(Kind::Extract, a.bits(), ikm.as_ref(), salt, n);
    if r.0 {
        Some(SpdmHkdfPseudoRandomKey { data_size: n, data: Box::new(r.1) })
    } else {
        None
    }
}
fn expand_cb(a: SpdmBaseHashAlgo, prk: &SpdmHkdfPseudoRandomKey, info: &[u8], n: u16) -> Option<SpdmHkdfOutputKeyingMaterial> {
    okm(kdf_call(Kind::Expand, a.bits(), prk.as_ref(), info, n), n)
}
fn psk_hs_cb(_v: SpdmVersion, a: SpdmBaseHashAlgo, h: &SpdmPskHintStruct, info: &[u8]) -> Option<SpdmHkdfOutputKeyingMaterial> {
    okm(kdf_call(Kind::PskHandshake, a.bits(), h.as_ref(), info, a.get_size()), a.get_size())
}
fn psk_ms_cb(_v: SpdmVersion, a: SpdmBaseHashAlgo, h: &SpdmPskHintStruct, info: &[u8]) -> Option<SpdmHkdfOutputKeyingMaterial> {
    okm(kdf_call(Kind::PskMaster, a.bits(), h.as_ref(), info, a.get_size()), a.get_size())
}
pub fn install_kdf() {
    hkdf::register(SpdmHkdf { hkdf_extract_cb: extract_cb, hkdf_expand_cb: expand_cb });
    spdmlib::secret::psk::register(spdmlib::secret::SpdmSecretPsk {
        handshake_secret_hkdf_expand_cb: psk_hs_cb,
        master_secret_hkdf_expand_cb: psk_ms_cb,
    });
}
/// DSP0274 BinConcat: le16(length) "spdmM.m " label context
pub fn bin_concat(len: u16, v: SpdmVersion, label: &[u8], ctx: &[u8]) -> ([u8; INFO], usize) {
    let mut o = [0u8; INFO];
    let l = len.to_le_bytes();
    o[0] = l[0];
    o[1] = l[1];
    o[2..10].copy_from_slice(match v.get_u8() {
        0x10 => b"spdm1.0 ",
        0x11 => b"spdm1.1 ",
        _ => b"spdm1.2 ",
    });
    o[10..10 + label.len()].copy_from_slice(label);
    o[10 + label.len()..10 + label.len() + ctx.len()].copy_from_slice(ctx);
    (o, 10 + label.len() + ctx.len())
}

// ------------------------------------------------- free key derivation
// The same primitives as an injective function: a 32-bit tag names how a
// secret was derived (label and parent), so a check can say which key is used.
pub const L_DERIVED: u32 = 0;
pub const L_REQ_HS: u32 = 1;
pub const L_RSP_HS: u32 = 2;
pub const L_REQ_APP: u32 = 3;
pub const L_RSP_APP: u32 = 4;
pub const L_KEY: u32 = 5;
pub const L_IV: u32 = 6;
pub const L_FINISHED: u32 = 7;
pub const L_EXP: u32 = 8;
pub const L_UPDATE: u32 = 9;
pub const L_EXTRACT: u32 = 10;
pub const TAG_DHE: u32 = 1;
pub const TAG_PSK_HS: u32 = 2;
pub const TAG_PSK_MS: u32 = 3;
pub const fn t(parent: u32, label: u32) -> u32 {
    parent * 16 + label + 16
}
/// Which derivation (0-based) fails; NONE or ANY
pub static mut FREE_FAIL: isize = NONE;
pub static mut FREE_N: isize = 0;
/// Arbitrary bytes every derived IV is combined with
pub static mut SALT: [u8; 12] = [0; 12];
pub fn bytes_of(tag: u32) -> [u8; 64] {
    unsafe { core::mem::transmute([tag.to_le(); 16]) }
}
pub fn tag_of(b: &[u8]) -> u32 {
    if b.len() < 4 {
        0
    } else {
        u32::from_le_bytes([b[0], b[1], b[2], b[3]])
    }
}
fn label_of(info: &[u8]) -> u32 {
    match (info[10], info[11], info[12], info.get(14).copied().unwrap_or(0)) {
        (b'd', _, _, _) => L_DERIVED,
        (b'r', _, b'q', b'h') => L_REQ_HS,
        (b'r', _, b'p', b'h') => L_RSP_HS,
        (b'r', _, b'q', _) => L_REQ_APP,
        (b'r', _, b'p', _) => L_RSP_APP,
        (b'k', _, _, _) => L_KEY,
        (b'f', _, _, _) => L_FINISHED,
        (b'e', _, _, _) => L_EXP,
        (b't', _, _, _) => L_UPDATE,
        _ => 15,
    }
}
fn free(parent: u32, info: &[u8], n: u16) -> Option<SpdmHkdfOutputKeyingMaterial> {
    unsafe {
        FREE_N += 1;
        if FREE_FAIL == FREE_N - 1 || (FREE_FAIL == ANY && nd::any()) {
            return None;
        }
        let l = if info.len() == 12 { L_IV } else { label_of(info) };
        let mut b = bytes_of(t(parent, l));
        if l == L_IV {
            for i in 0..12 {
                b[i] ^= SALT[i];
            }
        }
        Some(SpdmHkdfOutputKeyingMaterial { data_size: n, data: Box::new(b) })
    }
}
fn free_extract(a: SpdmBaseHashAlgo, salt: &[u8], ikm: &SpdmHkdfInputKeyingMaterial) -> Option<SpdmHkdfPseudoRandomKey> {
    unsafe {
        FREE_N += 1;
        if FREE_FAIL == FREE_N - 1 || (FREE_FAIL == ANY && nd::any()) {
            return None;
        }
    }
    let p = tag_of(ikm.as_ref());
    let p = if p == 0 { tag_of(salt) } else { p };
    Some(SpdmHkdfPseudoRandomKey { data_size: a.get_size(), data: Box::new(bytes_of(t(p, L_EXTRACT))) })
}
fn free_expand(_a: SpdmBaseHashAlgo, prk: &SpdmHkdfPseudoRandomKey, info: &[u8], n: u16) -> Option<SpdmHkdfOutputKeyingMaterial> {
    free(tag_of(prk.as_ref()), info, n)
}
fn free_psk_hs(_v: SpdmVersion, a: SpdmBaseHashAlgo, _h: &SpdmPskHintStruct, info: &[u8]) -> Option<SpdmHkdfOutputKeyingMaterial> {
    free(TAG_PSK_HS, info, a.get_size())
}
fn free_psk_ms(_v: SpdmVersion, a: SpdmBaseHashAlgo, _h: &SpdmPskHintStruct, info: &[u8]) -> Option<SpdmHkdfOutputKeyingMaterial> {
    free(TAG_PSK_MS, info, a.get_size())
}
pub fn install_free_kdf() {
    hkdf::register(SpdmHkdf { hkdf_extract_cb: free_extract, hkdf_expand_cb: free_expand });
    spdmlib::secret::psk::register(spdmlib::secret::SpdmSecretPsk {
        handshake_secret_hkdf_expand_cb: free_psk_hs,
        master_secret_hkdf_expand_cb: free_psk_ms,
    });
    unsafe { SALT = nd::any() }
}
/// IV of a direction secret, combined with a sequence number: DSP0277 per-message nonce.
pub fn nonce(secret: u32, seq: u64) -> [u8; 12] {
    let b = bytes_of(t(secret, L_IV));
    let s = seq.to_le_bytes();
    let mut o = [0u8; 12];
    for i in 0..12 {
        o[i] = b[i] ^ unsafe { SALT[i] };
        if i < 8 {
            o[i] ^= s[i];
        }
    }
    o
}

// ------------------------------------------------------------------ AEAD
pub const AEAD_MAX: usize = 64;
pub struct Aead {
    pub n: usize,
    pub algo: u16,
    pub key: u32,
    pub iv: [u8; 12],
    pub aad: [u8; 16],
    pub aad_len: usize,
    pub input: [u8; AEAD_MAX],
    pub input_len: usize,
    pub tag: [u8; 16],
    pub output: [u8; AEAD_MAX],
    pub ok: bool,
}
pub static mut AEAD: Aead = Aead { n: 0, algo: 0, key: 0, iv: [0; 12], aad: [0; 16], aad_len: 0, input: [0; AEAD_MAX], input_len: 0, tag: [0; 16], output: [0; AEAD_MAX], ok: false };

fn aead_args(a: SpdmAeadAlgo, key: &SpdmAeadKeyStruct, iv: &SpdmAeadIvStruct, aad: &[u8], input: &[u8]) {
    unsafe {
        AEAD.n += 1;
        AEAD.algo = a.bits();
        assert!(key.data_size >= a.get_key_size() && iv.data_size == 12, "key and IV have the size of the algorithm");
        AEAD.key = tag_of(key.as_ref());
        AEAD.iv.copy_from_slice(&iv.data[..12]);
        assert!(aad.len() <= 16 && input.len() <= AEAD_MAX, "bounded message");
        AEAD.aad_len = aad.len();
        for i in 0..16 {
            if i < aad.len() {
                AEAD.aad[i] = aad[i];
            }
        }
        AEAD.input_len = input.len();
        for i in 0..AEAD_MAX {
            if i < input.len() {
                AEAD.input[i] = input[i];
            } else {
                break;
            }
        }
    }
}
fn encrypt_cb(a: SpdmAeadAlgo, key: &SpdmAeadKeyStruct, iv: &SpdmAeadIvStruct, aad: &[u8], plain: &[u8], tag: &mut [u8], cipher: &mut [u8]) -> SpdmResult<(usize, usize)> {
    aead_args(a, key, iv, aad, plain);
    unsafe {
        assert!(tag.len() == a.get_tag_size() as usize && cipher.len() == plain.len(), "room for cipher text and tag");
        AEAD.ok = nd::any();
        if !AEAD.ok {
            return Err(SPDM_STATUS_CRYPTO_ERROR);
        }
        AEAD.tag = nd::any();
        AEAD.output = nd::any();
        tag.copy_from_slice(&AEAD.tag);
        for i in 0..AEAD_MAX {
            if i < cipher.len() {
                cipher[i] = AEAD.output[i];
            } else {
                break;
            }
        }
        Ok((cipher.len(), 16))
    }
}
fn decrypt_cb(a: SpdmAeadAlgo, key: &SpdmAeadKeyStruct, iv: &SpdmAeadIvStruct, aad: &[u8], cipher: &[u8], tag: &[u8], plain: &mut [u8]) -> SpdmResult<usize> {
    aead_args(a, key, iv, aad, cipher);
    unsafe {
        assert!(tag.len() == a.get_tag_size() as usize && plain.len() == cipher.len(), "tag and plain text sizes");
        AEAD.tag.copy_from_slice(tag);
        AEAD.ok = nd::any();
        AEAD.output = nd::any();
        // a failing primitive may have written anything
        for i in 0..AEAD_MAX {
            if i < plain.len() {
                plain[i] = AEAD.output[i];
            } else {
                break;
            }
        }
        if AEAD.ok {
            Ok(plain.len())
        } else {
            Err(SPDM_STATUS_CRYPTO_ERROR)
        }
    }
}
pub fn install_aead() {
    aead::register(SpdmAead { encrypt_cb, decrypt_cb });
}

// ------------------------------------------------------------------ HMAC
pub struct Hmac {
    pub n: usize,
    pub verify: bool,
    pub algo: u32,
    pub key: u32,
    pub key_len: usize,
    pub data: [u8; 64],
    pub data_len: usize,
    pub mac: [u8; 64],
    pub mac_len: u16,
    pub ok: bool,
}
pub static mut HMAC: Hmac = Hmac { n: 0, verify: false, algo: 0, key: 0, key_len: 0, data: [0; 64], data_len: 0, mac: [0; 64], mac_len: 0, ok: false };
fn hmac_args(a: SpdmBaseHashAlgo, key: &[u8], data: &[u8]) -> bool {
    unsafe {
        HMAC.n += 1;
        HMAC.algo = a.bits();
        HMAC.key = tag_of(key);
        HMAC.key_len = key.len();
        assert!(data.len() <= 64, "bounded data");
        HMAC.data_len = data.len();
        for i in 0..64 {
            if i < data.len() {
                HMAC.data[i] = data[i];
            } else {
                break;
            }
        }
        let ok: bool = nd::any();
        HMAC.ok = ok;
        ok
    }
}
fn hmac_cb(a: SpdmBaseHashAlgo, key: &[u8], data: &[u8]) -> Option<SpdmDigestStruct> {
    let ok = hmac_args(a, key, data);
    let mac: [u8; 64] = nd::any();
    unsafe {
        HMAC.verify = false;
        HMAC.mac = mac;
        HMAC.mac_len = a.get_size();
    }
    if ok {
        Some(SpdmDigestStruct { data_size: a.get_size(), data: Box::new(mac) })
    } else {
        None
    }
}
fn hmac_verify_cb(a: SpdmBaseHashAlgo, key: &[u8], data: &[u8], mac: &SpdmDigestStruct) -> SpdmResult {
    let ok = hmac_args(a, key, data);
    unsafe {
        HMAC.verify = true;
        HMAC.mac = *mac.data;
        HMAC.mac_len = mac.data_size;
    }
    if ok {
        Ok(())
    } else {
        Err(SPDM_STATUS_VERIF_FAIL)
    }
}
pub fn install_hmac() {
    hmac::register(SpdmHmac { hmac_cb, hmac_verify_cb });
}

// --------------------------------------------------------------- sessions
use spdmlib::common::session::*;
/// A session with derived handshake and data keys, built through the public API only.
pub fn session(id: u32, aead: SpdmAeadAlgo, seq_bytes: u8, handshake: bool, data: bool) -> SpdmSession {
    let v = SpdmVersion::SpdmVersion12;
    let mut s = SpdmSession::new();
    s.setup(id).unwrap();
    s.set_use_psk(true);
    s.runtime_info.psk_hint = Some(SpdmPskHintStruct::default());
    s.set_crypto_param(SpdmBaseHashAlgo::TPM_ALG_SHA_256, SpdmDheAlgo::SECP_384_R1, aead, SpdmKeyScheduleAlgo::SPDM_KEY_SCHEDULE);
    s.set_transport_param(seq_bytes, 0);
    let th = SpdmDigestStruct { data_size: 0, data: Box::new([0; 64]) };
    if handshake {
        s.generate_handshake_secret(v, &th).unwrap();
    }
    if data {
        s.generate_data_secret(v, &th).unwrap();
    }
    s
}

// ------------------------------------------------------------------ hash
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    None,
    Init,
    Update,
    Dup,
    Final,
    All,
}
/// One call of a hash primitive. Content is compared at one arbitrary position (`PROBE`), hence everywhere.
#[derive(Clone, Copy)]
pub struct HashCall {
    pub op: Op,
    /// context worked on (the new one for Init and Dup; the call's own number for All)
    pub ctx: usize,
    /// algorithm (Init, All) or source context (Dup)
    pub arg: usize,
    pub len: usize,
    pub probe: u8,
    pub ok: bool,
}
const H0: HashCall = HashCall { op: Op::None, ctx: 0, arg: 0, len: 0, probe: 0, ok: true };
pub const HASH_MAX: usize = 24;
pub static mut HASH: [HashCall; HASH_MAX] = [H0; HASH_MAX];
pub static mut HASH_N: usize = 0;
pub static mut HASH_CTX: usize = 0;
pub static mut HASH_FAIL: isize = NONE;
pub static mut PROBE: usize = 0;
pub fn probe(d: &[u8]) -> u8 {
    unsafe {
        if PROBE < d.len() {
            d[PROBE]
        } else {
            0
        }
    }
}
fn hash_call(op: Op, ctx: usize, arg: usize, d: &[u8]) -> bool {
    unsafe {
        assert!(HASH_N < HASH_MAX, "bounded number of hash calls");
        let ok = if HASH_FAIL == ANY { nd::any() } else { HASH_FAIL != HASH_N as isize };
        HASH[HASH_N] = HashCall { op, ctx, arg, len: d.len(), probe: probe(d), ok };
        HASH_N += 1;
        ok
    }
}
pub fn hash_log(i: usize) -> HashCall {
    unsafe {
        if i < HASH_N {
            HASH[i]
        } else {
            H0
        }
    }
}
/// Digest of context `h`, or of hash_all call number `h` (plus 0x2000).
pub fn digest_tag(h: usize) -> u32 {
    0x1000 + h as u32
}
fn digest(h: usize, size: u16) -> SpdmDigestStruct {
    SpdmDigestStruct { data_size: size, data: Box::new(bytes_of(digest_tag(h))) }
}
pub static mut HASH_SIZE: u16 = 32;
fn h_all(a: SpdmBaseHashAlgo, d: &[u8]) -> Option<SpdmDigestStruct> {
    let n = unsafe { HASH_N };
    if hash_call(Op::All, 0x1000 + n, a.bits() as usize, d) { Some(digest(0x1000 + n, unsafe { HASH_SIZE })) } else { None }
}
fn h_init(a: SpdmBaseHashAlgo) -> Option<usize> {
    let h = unsafe {
        HASH_CTX += 1;
        HASH_CTX
    };
    if hash_call(Op::Init, h, a.bits() as usize, &[]) { Some(h) } else { None }
}
fn h_update(h: usize, d: &[u8]) -> SpdmResult {
    if hash_call(Op::Update, h, 0, d) { Ok(()) } else { Err(SPDM_STATUS_CRYPTO_ERROR) }
}
fn h_final(h: usize) -> Option<SpdmDigestStruct> {
    if hash_call(Op::Final, h, 0, &[]) { Some(digest(h, unsafe { HASH_SIZE })) } else { None }
}
fn h_dup(src: usize) -> Option<usize> {
    let h = unsafe {
        HASH_CTX += 1;
        HASH_CTX
    };
    if hash_call(Op::Dup, h, src, &[]) { Some(h) } else { None }
}
pub fn install_hash() {
    hash::register(SpdmHash { hash_all_cb: h_all, hash_ctx_init_cb: h_init, hash_ctx_update_cb: h_update, hash_ctx_finalize_cb: h_final, hash_ctx_dup_cb: h_dup });
    unsafe { PROBE = nd::any() }
}

/// Any version, known or not.
pub fn ver_any(v: u8) -> spdmlib::protocol::SpdmVersion {
    use codec::Codec;
    spdmlib::protocol::SpdmVersion::read_bytes(&[v]).unwrap()
}
