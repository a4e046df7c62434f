//! Cryptographic oracles behind the `ring` and `bitcoin_hashes` stand-ins.
use crate::api::*;

/// One signature check the code asked for.
pub struct VCall {
    pub alg: u32,
    pub key: Vec<u8>,
    pub exp: Vec<u8>,
    pub msg: Vec<u8>,
    pub sig: Vec<u8>,
    pub ok: u32,
}
pub struct HCall {
    pub alg: u32,
    pub msg: Vec<u8>,
    pub out: Vec<u8>,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// every check gets a fresh symbolic verdict
    Free,
    /// valid exactly when (alg, key, message, signature) was registered
    Ideal,
    AlwaysOk,
}
pub struct State {
    pub mode: Mode,
    pub valid: Vec<VCall>,
    pub calls: Vec<VCall>,
    pub hashes: Vec<HCall>,
    pub nhash: usize,
    /// every digest is the same
    pub flat: bool,
    /// With `flat`, how many hashes there may be.
    pub limit: usize,
    pub fresh: u32,
    /// (algorithm, digest): what the digest of an input not registered may be (one of these, or some other value)
    pub picks: Vec<(u32, Vec<u8>)>,
}
static mut ST: Option<State> = None;
#[allow(static_mut_refs)]
pub fn st() -> &'static mut State {
    unsafe {
        if ST.is_none() {
            reset(Mode::Ideal);
        }
        ST.as_mut().unwrap()
    }
}
pub fn reset(mode: Mode) {
    unsafe { ST = Some(State { mode, valid: vec![], calls: vec![], hashes: vec![], nhash: 0, flat: false, limit: usize::MAX, fresh: 0, picks: vec![] }) }
}
/// Registers a valid signature.
pub fn sign(alg: u32, key: &[u8], exp: &[u8], msg: &[u8], sig: &[u8]) {
    st().valid.push(VCall { alg, key: key.to_vec(), exp: exp.to_vec(), msg: msg.to_vec(), sig: sig.to_vec(), ok: 1 });
}
/// Registers a digest.
pub fn set_hash(alg: u32, msg: &[u8], out: &[u8]) {
    st().hashes.push(HCall { alg, msg: msg.to_vec(), out: out.to_vec() });
}

#[no_mangle]
pub unsafe extern "C" fn lsx_oracle_verify(alg: u32, k: *const u8, kl: usize, e: *const u8, el: usize, m: *const u8, ml: usize, s: *const u8, sl: usize) -> u32 {
    let sl_ = |p: *const u8, n: usize| std::slice::from_raw_parts(p, n).to_vec();
    let (key, exp, msg, sig) = (sl_(k, kl), sl_(e, el), sl_(m, ml), sl_(s, sl));
    let o = st();
    let ok = match o.mode {
        Mode::AlwaysOk => 1,
        Mode::Free | Mode::Ideal => {
            let mut r = 0;
            for v in o.valid.iter() {
                if v.alg == alg && v.key.len() == kl && v.exp.len() == el && v.msg.len() == ml && v.sig.len() == sl {
                    r |= memeq(&v.key, &key) & memeq(&v.exp, &exp) & memeq(&v.msg, &msg) & memeq(&v.sig, &sig);
                }
            }
            if o.mode == Mode::Free {
                r |= (sym_u8() & 1) as u32;
            }
            r
        }
    };
    o.calls.push(VCall { alg, key, exp, msg, sig, ok });
    ok
}

pub fn hash(alg: u32, msg: &[u8], out: &mut [u8]) {
    let o = st();
    if o.flat && alg == 1 {
        out.fill(0x44);
        return;
    }
    if o.picks.iter().any(|p| p.0 == alg) && !o.hashes.iter().any(|h| h.alg == alg && h.msg == msg) {
        let which = sym_u8();
        out.fill(0xee);
        for (i, p) in o.picks.iter().enumerate() {
            if p.0 == alg && p.1.len() == out.len() {
                let cur = out.to_vec();
                memite((which == i as u8 + 1) as u32, out, &p.1, &cur);
            }
        }
        set_hash(alg, msg, out);
        return;
    }
    // unknown inputs get a digest of their own
    let known = o.hashes.iter().any(|h| h.alg == alg && h.msg.len() == msg.len() && memeq(&h.msg, msg) != 0);
    if !known {
        o.fresh += 1;
        let n = out.len();
        for (i, b) in out.iter_mut().enumerate() {
            *b = if i + 1 == n { o.fresh as u8 } else if i + 2 == n { 0xe0 ^ (o.fresh >> 8) as u8 } else { 0xe0 };
        }
        set_hash(alg, msg, out);
        return;
    }
    for h in o.hashes.iter() {
        if h.alg == alg && h.msg.len() == msg.len() && memeq(&h.msg, msg) != 0 {
            out.copy_from_slice(&h.out);
            return;
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn lsx_oracle_hash(alg: u32, m: *const u8, ml: usize, out: *mut u8, ol: usize) {
    let msg = std::slice::from_raw_parts(m, ml).to_vec();
    let out = std::slice::from_raw_parts_mut(out, ol);
    st().nhash += 1;
    check(st().nhash <= st().limit, "excessive iteration counts are not worked through");
    hash(alg, &msg, out);
}
