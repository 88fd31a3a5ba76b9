//! Sortition credentials, the random function under them, and the byte strings hashed and signed.
use crate::nd;
use crate::txs::some_adr;
use algorsand::config::ConsensusParams;
use algorsand::crypto::{self, hashable::Hashable, CryptoHash, VrfKeypair, VrfOutput, VrfProof, VrfPublicKey};
use algorsand::data::basics::{self, AccountData, Address, MicroAlgos};
use algorsand::data::committee::{self, credential::*, sortition, Selector};
use sha2::Digest;

struct Sel(Vec<u8>, u64);
impl Hashable for Sel {
    fn to_be_hashed(&self) -> (&'static str, Vec<u8>) {
        ("AS", self.0.clone())
    }
}
impl Selector for Sel {
    fn committee_size(&self, _: &ConsensusParams) -> u64 {
        self.1
    }
}
fn be(b: &[u8; 32]) -> (u128, u128) {
    (u128::from_be_bytes(b[..16].try_into().unwrap()), u128::from_be_bytes(b[16..].try_into().unwrap()))
}
fn sym32(name: &str) -> [u8; 32] {
    let mut b = [7; 32];
    let s = nd::bytes::<2>(name);
    (b[0], b[31]) = (s[0], s[1]);
    b
}
fn out(name: &str) -> VrfOutput {
    let mut b = [9; 64];
    let s = nd::bytes::<2>(name);
    (b[0], b[63]) = (s[0], s[1]);
    VrfOutput(b)
}
/// A credential of a given weight and what its lowest output has to be.
fn cred(max: usize, name: &str) -> (Credential, (u128, u128), CryptoHash) {
    let w = 1 + nd::choose(max, "weight") as u64;
    let h = CryptoHash(sym32(name));
    let raw = out(name);
    let member = some_adr(5, name);
    let separated = nd::flip("separated");
    let hash = |i: u64| -> (u128, u128) {
        if separated {
            be(&crypto::hash(&verif_hashable_credential_hash_rep(raw.clone(), member, i)).0)
        } else {
            let mut b = [0; 64];
            b[..32].copy_from_slice(&h.0);
            b[32..40].copy_from_slice(&i.to_be_bytes());
            be(&crypto::hash(&b).0)
        }
    };
    let mut low = hash(1);
    // (short numbers one at a time)
    let full = |x: (u128, u128)| nd::assume(w == 1 && max > 2 || nd::thorough() || x.0 >> 120 != 0);
    full(low);
    for i in 2..=w {
        let x = hash(i);
        full(x);
        if x < low {
            low = x;
        }
    }
    let c = Credential::verif_new(w, h.clone(), if separated { Some((raw.clone(), member)) } else { None }, VrfProof::verif_new([0; 80]));
    nd::check(c.verif_selected() && c.verif_weight() == w, "a credential with weight is selected");
    (c, low, h)
}
/// A credential of weight w stands for w tickets, and its lowest one counts.
pub fn lowest_ticket() {
    let (mut c, low, _) = cred(if nd::thorough() { 4 } else { 3 }, "c");
    let d = c.verif_lowest_output_digest();
    nd::check(be(&d.0) == low, "the lowest output is the lowest of as many hashes as the weight, none of them the one which decided the weight");
    nd::check(c.verif_lowest_output_digest() == d, "asking again gives the same");
}
/// Ties are broken by the lowest ticket, a strict order.
pub fn tie_break() {
    let n = if nd::thorough() { 3 } else { 2 };
    let (mut a, la, ha) = cred(n, "a");
    let (mut b, lb, hb) = cred(if nd::thorough() { n } else { 3 - a.verif_weight() as usize }, "b");
    let (ab, ba) = (a.verif_lt(&mut b), b.verif_lt(&mut a));
    nd::check(ab == (la < lb) && ba == (lb < la), "the credential with the lowest ticket comes first");
    nd::check(!(ab && ba), "never both");
    nd::check((a == b) == (ha == hb), "credentials are equal with equal outputs");
    nd::cover(if ab { "first" } else { "not first" });
}
/// What is hashed for a credential determines output, member and ticket.
pub fn ticket_binds() {
    let one = |n: &str| {
        let (o, m) = (out(n), some_adr(5, n));
        let i = nd::u64(n);
        (o.clone(), m, i, verif_hashable_credential_hash_rep(o, m, i))
    };
    let (a, b) = (one("a"), one("b"));
    nd::check((a.3 == b.3) == (a.0 == b.0 && a.1 == b.1 && a.2 == b.2), "every ticket is hashed from other bytes");
}

static mut ASKED: Option<(u64, u64, f64, CryptoHash)> = None;
static mut WEIGHT: u64 = 0;
fn oracle(money: u64, total: u64, size: f64, h: &CryptoHash) -> u64 {
    unsafe {
        ASKED = Some((money, total, size, h.clone()));
        WEIGHT
    }
}
/// A credential is accepted exactly with a valid proof of the member's key for this selector and a positive weight.
pub fn credential_verify() {
    let key = |k: u8| VrfKeypair::from_seed([k + 1; 32]);
    let (mine, other) = (key(0), key(1));
    // (proofs which are not valid are made for fixed messages: the stand-in group is too small for the hashes of all messages to differ in it)
    let any: Vec<u8> = vec![1, nd::u8("selector")];
    let (sel, proven, cheat) = match nd::choose(4, "proven") {
        0 => (any.clone(), any, false),
        1 => (vec![1, 2], vec![1, 3], false),
        2 => (vec![1, 2], vec![1], false),
        _ => (vec![1, 2], vec![1, 2], true),
    };
    let cred = UnauthenticatedCredential::verif_new(if cheat { &other } else { &mine }, &Sel(proven.clone(), 3));
    let status = [basics::Status::Online, basics::Status::Offline, basics::Status::NotParticipating][nd::choose(3, "status")];
    let mut data = AccountData::verif_new(status, MicroAlgos(nd::u64("money")));
    data.selection_id = mine.public();
    let member = some_adr(3, "member");
    let total = nd::u64("total");
    let size = [1u64, 20, 5000][nd::choose(3, "size")];
    let mut p = ConsensusParams::default();
    p.credential_domain_separation_enabled = nd::flip("separated");
    let stake = if status == basics::Status::Online { data.micro_algos } else { MicroAlgos(0) };
    nd::assume(total >= stake.0 && size <= total);
    unsafe {
        sortition::VERIF_SELECT = Some(oracle);
        ASKED = None;
        WEIGHT = nd::u64("weight");
    }
    let r = cred.verif_verify(&p, committee::BalanceRecord { data, addr: member }, Sel(sel.clone(), size), MicroAlgos(total));
    let asked = unsafe { (*std::ptr::addr_of_mut!(ASKED)).take() };
    let weight = unsafe { WEIGHT };
    let honest = !cheat && proven == sel;
    if !honest {
        nd::check(matches!(r, Err(Error::VrfVerifyFailed(_))) && asked.is_none(), "a proof for another selector or by another key is refused");
        return;
    }
    let raw = mine.public().verify(&mine.prove(&Sel(sel, 3)).unwrap(), &Sel(proven, 3)).unwrap();
    let h = if p.credential_domain_separation_enabled {
        crypto::hash(&verif_hashable_credential_hash_rep(raw.clone(), member, 0))
    } else {
        let mut b = raw.0.to_vec();
        b.extend_from_slice(&member.0);
        crypto::hash(&b)
    };
    if stake.0 == 0 {
        nd::check(matches!(r, Err(Error::ZeroWeight)), "no stake, no credential");
        nd::cover("no stake");
        return;
    }
    match asked {
        None => nd::check(false, "sortition decides"),
        Some((m, t, s, x)) => nd::check(m == stake.0 && t == total && s == size as f64 && x == h, "sortition decides with the member's stake, the total, the committee's size and the hash of output and member"),
    }
    match r {
        Ok(mut c) => {
            nd::cover("accepted");
            nd::check(weight > 0 && c.verif_weight() == weight && c.verif_vrf_out() == h, "the credential has the weight sortition gave it");
            if weight == 1 {
                let want = if p.credential_domain_separation_enabled {
                    crypto::hash(&verif_hashable_credential_hash_rep(raw, member, 1))
                } else {
                    let mut b = [0; 64];
                    b[..32].copy_from_slice(&h.0);
                    b[39] = 1;
                    crypto::hash(&b)
                };
                nd::check(c.verif_lowest_output_digest() == want, "its tickets are hashed the way its weight was");
            }
        }
        Err(Error::ZeroWeight) => {
            nd::cover("not selected");
            nd::check(weight == 0, "refused without weight only");
        }
        Err(_) => nd::check(false, "a valid proof is not refused"),
    }
}

// ---- the verifiable random function, over the stand-in group ----
fn num(b: &[u8]) -> u8 {
    b[1]
}
fn point(v: u8) -> [u8; 32] {
    let mut b = [0; 32];
    b[1] = v;
    b
}
fn sha512(parts: &[&[u8]]) -> [u8; 64] {
    let mut h = sha2::Sha512::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().as_slice().try_into().unwrap()
}
/// ECVRF-ED25519-SHA512-Elligator2 verification as draft 3 has it: the output, if the proof is valid.
fn spec_verify(pk: &[u8; 32], pi: &[u8; 80], alpha: &[u8]) -> Option<[u8; 64]> {
    let bad = |p: &[u8]| p[0] == 0xee && p[31] == 0xee;
    if bad(pk) || bad(&pi[..32]) || pi[79] >= 0x10 {
        return None;
    }
    let (y, g, c, s) = (num(pk), num(&pi[..32]), num(&pi[32..48]), num(&pi[48..]));
    let h = sha512(&[&[4, 1], pk, alpha]);
    let h = num(&h[..32]).wrapping_mul(8); // (the sign bit is cleared)
    let u = s.wrapping_sub(c.wrapping_mul(y));
    let v = s.wrapping_mul(h).wrapping_sub(c.wrapping_mul(g));
    let want = sha512(&[&[4, 2], &point(h), &point(g), &point(u), &point(v)]);
    if want[..16] != pi[32..48] {
        return None;
    }
    Some(sha512(&[&[4, 3], &point(g.wrapping_mul(8))]))
}
/// Every proof that is made verifies, for its message, under its key, with the output the draft defines.
pub fn vrf_complete() {
    let kp = VrfKeypair::from_seed([1 + nd::choose(3, "key") as u8; 32]);
    let n = nd::choose(3, "length");
    let m = nd::vec(n, "message");
    let pi = kp.prove_bytes(&m);
    nd::check(pi.is_ok(), "a key proves every message");
    let pi = pi.unwrap();
    let raw: [u8; 80] = pi.as_ref().try_into().unwrap();
    let r = kp.public().verify_bytes(&pi, &m);
    nd::check(r.is_ok(), "a proof verifies");
    nd::check(kp.prove_bytes(&m).map_or(false, |x| x == pi), "proving again gives the same proof");
    let pk: [u8; 32] = {
        let sk = ed25519_dalek::SecretKey::from_bytes(&[1; 32]).unwrap();
        let k: ed25519_dalek::PublicKey = (&sk).into();
        k.to_bytes()
    };
    if kp == VrfKeypair::from_seed([1; 32]) {
        nd::check(kp.public() == VrfPublicKey::verif_new(pk), "the key is the one of the signature scheme");
        nd::check(r.unwrap().0[..] == spec_verify(&pk, &raw, &m).unwrap_or([0; 64])[..], "with the output the draft defines");
    }
}
/// A proof is accepted exactly if the draft accepts it; nothing crashes.
pub fn vrf_exact() {
    let mut pk = [3; 32];
    (pk[0], pk[1], pk[2], pk[31]) = (nd::u8("pk"), nd::u8("pk"), nd::u8("pk"), nd::u8("pk"));
    let mut pi = [5; 80];
    for i in [0, 1, 2, 31, 49, 50, 79] {
        pi[i] = nd::u8("proof");
    }
    for i in 32..48 {
        pi[i] = nd::u8("challenge");
    }
    let m = nd::vec(nd::choose(2, "length"), "message");
    let r = VrfPublicKey::verif_new(pk).verify_bytes(&VrfProof::verif_new(pi), &m);
    let want = spec_verify(&pk, &pi, &m);
    nd::check(r.is_ok() == want.is_some(), "accepted exactly if valid");
    if let (Ok(r), Some(w)) = (r, want) {
        nd::cover("valid");
        nd::check(r.0[..] == w[..], "the output is the hash of the proof's point without its torsion");
    } else {
        nd::cover("invalid");
    }
}
