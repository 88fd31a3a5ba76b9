//! Multisignatures and batches, one-time signatures, VRF, hash domains.
use crate::nd;
use crate::txs::pk;
use algorsand::crypto::{batch_verifier::BatchVerifier, *};
use ed25519_dalek::{Keypair, PublicKey, SecretKey, Signature, Signer};

pub fn keypair(i: u8) -> Keypair {
    let secret = SecretKey::from_bytes(&[i + 1; 32]).unwrap();
    let public = (&secret).into();
    Keypair { secret, public }
}
fn sigv(b: [u8; 64]) -> Signature {
    Signature::from_bytes(&b).unwrap()
}
/// Some signature which is nobody's signature of anything here: `k` tells them apart.
fn forged(k: u8) -> Signature {
    let mut b = [k; 64];
    b[63] = 0;
    sigv(b)
}
/// What a slot of a multisignature may hold: nothing, the right signature, one of another message, one of another key, a symbolic string.
fn slot(kp: &Keypair, other: &Keypair, msg: &[u8], n: usize) -> (Option<Signature>, bool) {
    match nd::choose(n, "slot") {
        0 => (None, true),
        1 => (Some(kp.sign(msg)), true),
        2 => {
            let mut m = msg.to_vec();
            m.push(nd::u8("appended"));
            (Some(kp.sign(&m)), false)
        }
        3 => (Some(other.sign(msg)), kp.public == other.public),
        _ => {
            let mut b = nd::bytes::<64>("sig");
            b[63] &= 0x0f;
            (Some(sigv(b)), b[..] == kp.sign(msg).to_bytes()[..])
        }
    }
}

/// The address fixes version, threshold and the list of keys, and exists for sensible combinations only.
pub fn msig_address() {
    let one = |n: &str| {
        let k = nd::choose(4, n);
        let keys: Vec<PublicKey> = (0..k).map(|_| if nd::flip("any key") { pk(&nd::bytes("key")) } else { keypair(0).public }).collect();
        (nd::u8("version"), nd::u8("threshold"), keys)
    };
    let (a, b) = (one("keys a"), one("keys b"));
    let get = |x: &(u8, u8, Vec<PublicKey>)| MultisigAddr::verif_from_pks(x.0, x.1, &x.2);
    let legal = |x: &(u8, u8, Vec<PublicKey>)| x.0 == 1 && x.1 > 0 && (x.1 as usize) <= x.2.len();
    let (ra, rb) = (get(&a), get(&b));
    nd::check(ra.is_ok() == legal(&a), "an address exists exactly for version 1 and a threshold between one and the number of keys");
    if let (Ok(x), Ok(y)) = (&ra, &rb) {
        nd::cover("two addresses");
        let same = a.1 == b.1 && a.2 == b.2;
        nd::check((x == y) == same, "two groups have one address exactly if threshold and keys are the same");
    }
    let subs: Vec<MultisigSubsig> = a.2.iter().map(|k| MultisigSubsig { key: *k, sig: if nd::flip("signed") { Some(forged(1)) } else { None } }).collect();
    nd::check(MultisigAddr::verif_from_subsigs(a.0, a.1, &subs) == ra, "signatures do not change the address");
}

/// A multisignature is valid iff it is for that address, carries enough signatures and all of them verify.
pub fn msig_verify() {
    let n = 1 + nd::choose(if nd::thorough() { 4 } else { 3 }, "keys");
    let kps: Vec<Keypair> = (0..n).map(|i| keypair(if i > 0 && nd::flip("same key as before") { i as u8 - 1 } else { i as u8 })).collect();
    let other = keypair(9);
    let msg = nd::vec(3, "msg");
    let (version, threshold) = (nd::u8("version"), nd::u8("threshold"));
    let mut subsigs = vec![];
    let (mut present, mut good) = (0usize, true);
    for i in 0..n {
        let (sig, ok) = slot(&kps[i], &other, &msg, if i == 0 { 5 } else { 4 });
        present += sig.is_some() as usize;
        good &= ok;
        subsigs.push(MultisigSubsig { key: kps[i].public, sig });
    }
    let m = MultisigSignature { version, threshold, subsigs };
    let legal = version == 1 && threshold > 0 && threshold as usize <= n;
    let own = MultisigAddr::verif_from_subsigs(version, threshold, &m.subsigs);
    let (addr, right) = match own {
        Ok(a) if nd::flip("its address") => (a, true),
        _ => (MultisigAddr::verif_new(nd::bytes("addr")), false),
    };
    let right = right || MultisigAddr::verif_from_subsigs(version, threshold, &m.subsigs).map_or(false, |a| a == addr);
    let r = m.verify(&msg, &addr);
    let want = legal && right && present >= threshold as usize && good;
    nd::check((r == Ok(true)) == want, "valid exactly if the address is right, enough signatures are there, and every one verifies");
    let mut batch = BatchVerifier::default();
    let rb = m.verif_batch_verify(&msg, &addr, &mut batch);
    nd::check((rb == Ok(true)) == (legal && right && present >= threshold as usize), "queueing checks everything but the signatures");
    nd::check(rb != Ok(false) && r != Ok(false) || !good, "nothing but a bad signature makes it false");
    if rb == Ok(true) {
        nd::check(batch.num_sigs_enqued() == present, "every signature is queued");
        nd::check(batch.verify().is_ok() == good, "the batch verifies exactly if every signature does");
    }
    if want {
        nd::cover("valid");
        if (threshold as usize) < n {
            nd::cover("valid with a proper subset");
        }
    } else if legal && right {
        nd::cover("invalid");
    }
}

/// Large groups: 255 members at most.
pub fn msig_large() {
    let n = 254 + nd::choose(4, "keys");
    let kp = keypair(0);
    let msg = [1, 2, 3];
    let threshold = if nd::flip("all") { n.min(255) as u8 } else { 1 };
    let signed = if nd::flip("enough") { threshold as usize } else { threshold as usize - 1 };
    let s = kp.sign(&msg);
    let subsigs: Vec<_> = (0..n).map(|i| MultisigSubsig { key: kp.public, sig: if i < signed { Some(s) } else { None } }).collect();
    let m = MultisigSignature { version: 1, threshold, subsigs };
    let addr = MultisigAddr::verif_from_subsigs(1, threshold, &m.subsigs).unwrap();
    nd::check((m.verify(&msg, &addr) == Ok(true)) == (n <= 255 && signed >= threshold as usize), "up to 255 members, and enough signatures of them");
}

fn member(kps: &[Keypair], sigs: &[u8], threshold: u8, version: u8) -> MultisigSignature {
    MultisigSignature {
        version,
        threshold,
        subsigs: kps
            .iter()
            .zip(sigs)
            .map(|(k, s)| MultisigSubsig { key: k.public, sig: match s { 0 => None, x => Some(forged(*x)) } })
            .collect(),
    }
}
fn which(n: usize, name: &str) -> Vec<u8> {
    (0..n).map(|_| nd::choose(3, name) as u8).collect()
}

/// Combining partial multisignatures collects the signatures of all, at their positions, or refuses.
pub fn msig_combine() {
    let n = 2usize;
    let kps: Vec<Keypair> = (0..n as u8).map(keypair).collect();
    let (sa, sb) = (which(n, "a"), which(n, "b"));
    let mut kb: Vec<Keypair> = (0..n as u8).map(keypair).collect();
    let diff = nd::choose(5, "difference");
    match diff {
        1 => kb[nd::choose(n, "where")] = keypair(7),
        2 => kb.truncate(n - 1),
        3 => kb.push(keypair(5)),
        4 => kb.swap(0, 1),
        _ => {}
    }
    let mut sb = sb;
    sb.resize(kb.len(), 0);
    let (ta, tb, va, vb) = (nd::u8("threshold a"), nd::u8("threshold b"), nd::u8("version a"), nd::u8("version b"));
    let (a, b) = (member(&kps, &sa, ta, va), member(&kb, &sb, tb, vb));
    let fit = ta == tb && va == vb && diff == 0;
    let clash = fit && (0..n).any(|i| sa[i] != 0 && sb[i] != 0 && sa[i] != sb[i]);
    let union: Vec<u8> = if fit { (0..n).map(|i| if sa[i] != 0 { sa[i] } else { sb[i] }).collect() } else { vec![] };
    // merging two
    let r = a.verif_merge(&b);
    nd::check(r.is_ok() == (fit && !clash), "merged exactly if group, threshold and version agree and no position has two signatures");
    if let Ok(m) = &r {
        nd::cover("merged");
        nd::check(*m == member(&kps, &union, ta, va), "all signatures of both, at their positions");
        nd::check(b.verif_merge(&a) == r, "in either order");
    }
    // adding one to another
    let mut c = a.clone();
    let r = c.verif_add_sigs(vec![b.clone()]);
    nd::check(r.is_ok() == (fit && !clash), "added under the same conditions");
    if r.is_ok() {
        nd::check(c == member(&kps, &union, ta, va), "added at their positions");
    } else if !fit {
        nd::check(c == a, "nothing of another group is added");
    }
    nd::check(a.clone().verif_add_sigs(vec![]).is_err(), "nothing to add");
    // assembling
    let r = MultisigSignature::verif_assemble(&[a.clone(), b.clone()]);
    nd::check(r.is_ok() == fit, "assembled exactly if group, threshold and version agree");
    if let Ok(m) = &r {
        let ok = (0..n).all(|i| match m.subsigs[i].sig {
            None => sa[i] == 0 && sb[i] == 0,
            Some(s) => (sa[i] != 0 && s == forged(sa[i])) || (sb[i] != 0 && s == forged(sb[i])),
        });
        nd::check(ok && m.version == va && m.threshold == ta && m.subsigs.len() == n, "every position that was signed is, with a signature that was given for it");
        nd::check((0..n).all(|i| m.subsigs[i].key == kps[i].public), "with the keys in their places");
    }
    nd::check(MultisigSignature::verif_assemble(&[a.clone()]).is_err() && MultisigSignature::verif_assemble(&[]).is_err(), "assembling takes two");
}

/// Parts of three: one that does not belong is noticed wherever it is and in whatever it differs.
pub fn msig_three() {
    let n = if nd::thorough() { 4usize } else { 3 };
    let kps: Vec<Keypair> = (0..n as u8).map(keypair).collect();
    let (t, v) = (nd::u8("threshold"), nd::u8("version"));
    let odd = nd::choose(3, "odd one");
    let diff = nd::choose(5, "difference");
    let mut sigs = vec![];
    let mut parts = vec![];
    for i in 0..3 {
        let mut ks: Vec<Keypair> = (0..n as u8).map(keypair).collect();
        let (mut pt, mut pv) = (t, v);
        if i == odd {
            match diff {
                1 => ks[nd::choose(n, "where")] = keypair(9),
                2 => ks.truncate(n - 1),
                3 => pt = nd::u8("other threshold"),
                4 => pv = nd::u8("other version"),
                _ => {}
            }
            nd::assume(diff != 3 || pt != t);
            nd::assume(diff != 4 || pv != v);
        }
        // (the first two sign in their own place, the third in the last one, together with the second or alone)
        let mut s = vec![0u8; ks.len()];
        match i {
            0 => s[0] = nd::flip("first signs") as u8,
            1 => (s[1], s[ks.len() - 1]) = (2, nd::flip("second signs twice") as u8),
            _ => s[ks.len() - 1] = 1 + nd::flip("differently") as u8,
        }
        parts.push(member(&ks, &s, pt, pv));
        sigs.push(s);
    }
    let fit = diff == 0;
    let r = MultisigSignature::verif_assemble(&parts);
    nd::check(r.is_ok() == fit, "assembled exactly if all of them are for the same group, threshold and version");
    if let Ok(m) = &r {
        let ok = (0..n).all(|i| match m.subsigs[i].sig {
            None => sigs.iter().all(|s| s[i] == 0),
            Some(x) => sigs.iter().any(|s| s[i] != 0 && x == forged(s[i])),
        });
        nd::check(ok && m.version == v && m.threshold == t && m.subsigs.len() == n && (0..n).all(|i| m.subsigs[i].key == kps[i].public), "all signatures, in their places");
    }
    let clash = fit && sigs[1][n - 1] != 0 && sigs[1][n - 1] != sigs[2][n - 1];
    let mut c = parts[0].clone();
    let r = c.verif_add_sigs(parts[1..].to_vec());
    nd::check(r.is_ok() == (fit && !clash), "added exactly if all fit and no position has two signatures");
    if r.is_ok() {
        let union: Vec<u8> = (0..n).map(|i| sigs.iter().map(|s| s[i]).max().unwrap()).collect();
        nd::cover("added");
        nd::check(c == member(&kps, &union, t, v), "all added at their positions");
        nd::check(parts[2].verif_merge(&parts[1]).and_then(|m| m.verif_merge(&parts[0])) == Ok(c), "as by merging one after the other");
    } else if !fit {
        nd::cover("refused");
        nd::check(c == parts[0], "nothing is added if one is of another group");
    }
}

/// From signing each alone to a valid multisignature: any subset of the members, in any order.
pub fn msig_flow() {
    let n = 3usize;
    let dup = nd::flip("a member twice");
    let kps: Vec<Keypair> = (0..n as u8).map(|i| keypair(if dup && i == 2 { 0 } else { i })).collect();
    let pks: Vec<PublicKey> = kps.iter().map(|k| k.public).collect();
    let threshold = 1 + nd::choose(n, "threshold") as u8;
    let addr = MultisigAddr::verif_from_pks(1, threshold, &pks).unwrap();
    let msg = nd::vec(2, "msg");
    let order = [[0usize, 1, 2], [2, 1, 0], [1, 0, 2]][nd::choose(3, "order")];
    let mut parts = vec![];
    let mut members = [false; 3];
    for i in order {
        if nd::flip("signs") {
            parts.push(addr.verif_sign(&msg, 1, threshold, &pks, &kps[i]).unwrap());
            for j in 0..n {
                members[j] |= pks[j] == pks[i];
            }
        }
    }
    for p in &parts {
        nd::check(p.subsigs.len() == n && p.threshold == threshold && p.version == 1, "a part has the shape of the group");
    }
    let count = members.iter().filter(|x| **x).count();
    let m = match (parts.len(), nd::choose(3, "how")) {
        (0, _) => return,
        (_, 0) => {
            let mut m = parts[0].clone();
            if parts.len() > 1 {
                m.verif_add_sigs(parts[1..].to_vec()).unwrap();
            }
            m
        }
        (_, 1) => parts[1..].iter().fold(parts[0].clone(), |m, p| m.verif_merge(p).unwrap()),
        (1, _) => parts[0].clone(),
        (_, _) => MultisigSignature::verif_assemble(&parts).unwrap(),
    };
    let r = m.verify(&msg, &addr);
    nd::check((r == Ok(true)) == (count >= threshold as usize), "valid as soon as enough members have signed");
    nd::cover(if r == Ok(true) { "enough" } else { "not enough" });
    let mut other = msg.clone();
    other[0] ^= nd::u8("flip");
    nd::check(m.verify(&other, &addr) != Ok(true) || other == msg, "for that message only");
    // strangers, wrong parameters
    let s = addr.verif_sign(&msg, 1, threshold, &pks, &keypair(8));
    nd::check(s == Err(multisig_error_missing()), "a stranger cannot sign");
    let t = nd::u8("threshold");
    nd::check(addr.verif_sign(&msg, 1, t, &pks, &kps[0]).is_ok() == (t == threshold), "nor can parameters of another address be signed for");
    let v = nd::u8("version");
    nd::check(addr.verif_sign(&msg, v, threshold, &pks, &kps[0]).is_ok() == (v == 1), "version");
}
fn multisig_error_missing() -> MultisigError {
    MultisigError::KeyNotExists
}

/// A batch verifies iff it is not empty and each of its signatures does.
pub fn batch() {
    let n = nd::choose(if nd::thorough() { 6 } else { 5 }, "n");
    let mut b = if nd::flip("sized") { BatchVerifier::with_capacity(nd::choose(3, "capacity")) } else { BatchVerifier::default() };
    let mut good = true;
    for i in 0..n {
        let kp = keypair((i % 2) as u8);
        let msg = nd::vec(i % 3, "msg");
        let (s, ok) = slot(&kp, &keypair(7), &msg, 4);
        let (s, ok) = match s {
            Some(s) => (s, ok),
            None => (forged(3), false),
        };
        b.enque_sig(kp.public, &msg, s);
        good &= ok;
        nd::check(b.num_sigs_enqued() == i + 1, "queued");
    }
    let r = b.verify();
    nd::check(r.is_ok() == (n > 0 && good), "verifies exactly if there is something and all of it is right");
    nd::check(b.verify() == r, "repeatably");
    if r.is_ok() {
        nd::cover("verified");
    }
}

// ---- one-time signatures

struct Msg(Vec<u8>);
impl Hashable for Msg {
    fn to_be_hashed(&self) -> (algorsand::protocol::HashID, Vec<u8>) {
        (algorsand::protocol::VOTE, self.0.clone())
    }
}
fn ots_id(batch: u64, offset: u64) -> OTSIdentifier {
    OTSIdentifier { batch, offset }
}
fn hr(x: &impl Hashable) -> Vec<u8> {
    x.hash_rep()
}
fn ok(pk: &PublicKey, msg: &[u8], s: &Signature) -> bool {
    use ed25519_dalek::Verifier;
    pk.verify(msg, s).is_ok()
}
struct Secrets {
    s: OTSSecrets,
    start: u64,
    n: u64,
    dil: u64,
    /// everything before this is gone (if anything was deleted); its batch is broken out into single keys
    low: Option<(u64, u64)>,
}
impl Secrets {
    fn new(any_start: bool) -> Self {
        let start = if any_start { [0u64, 1, 65535][nd::choose(3, "start")] } else { 126 };
        let n = nd::choose(if nd::thorough() { 4 } else { 3 }, "batches") as u64;
        Secrets { s: OTSSecrets::generate(start, n), start, n, dil: [1, 4][nd::choose(2, "dilution")], low: None }
    }
    /// a batch in or around the ones there are
    fn near(&self, name: &str) -> u64 {
        let b = nd::u64(name);
        nd::assume(b >= self.start.saturating_sub(2) && b <= self.start + self.n + 1);
        b
    }
    fn delete(&mut self) {
        let (b, o) = (nd::concretize(self.near("delete batch")), nd::concretize(nd::below(self.dil + 2, "delete offset")));
        self.s.delete_before(ots_id(b, o), self.dil);
        if b >= self.start && self.low.map_or(true, |l| (b, o) > l) {
            self.low = Some((b, o));
        }
    }
    fn usable(&self, b: u64, o: u64) -> bool {
        let there = b >= self.start && b < self.start + self.n;
        match self.low {
            None => there,
            Some(l) => there && (b > l.0 || (b == l.0 && o >= l.1 && o < self.dil)),
        }
    }
    /// No secret is left that could sign, or vouch for a key that signs, under an identifier before the deletion.
    fn check_held(&self) {
        let (batches, offsets) = self.s.verif_held();
        let (pk2, pk2_sig) = self.s.verif_offsets_pk2();
        let (lb, lo) = self.low.unwrap_or((0, 0));
        let b0 = if self.low.is_some() { lb + 1 } else { self.start };
        nd::check(batches.len() as u64 == (self.start + self.n).saturating_sub(b0), "exactly the later batches are left");
        for (i, (k, s)) in batches.iter().enumerate() {
            let id = OTSSubkeyBatchID { sub_key_pk: *k, batch: b0 + i as u64 };
            nd::check(ok(&self.s.verifier, &hr(&id), s), "every batch key left belongs to a later batch");
        }
        let want = if self.low.is_some() && lb < self.start + self.n { self.dil.saturating_sub(lo) } else { 0 };
        nd::check(offsets.len() as u64 == want, "exactly the later offsets of the current batch are left");
        for (i, (k, s)) in offsets.iter().enumerate() {
            let id = OTSSubkeyOffsetID { sub_key_pk: *k, batch: lb, offset: lo + i as u64 };
            nd::check(ok(&pk2, &hr(&id), s), "every offset key left belongs to a later offset");
        }
        if !offsets.is_empty() {
            let id = OTSSubkeyBatchID { sub_key_pk: pk2, batch: lb };
            nd::check(ok(&self.s.verifier, &hr(&id), &pk2_sig), "the current batch is vouched for");
            nd::check(batches.iter().chain(&offsets).all(|k| k.0 != pk2), "its own key is gone");
        }
    }
}

/// Signatures can be made exactly for the identifiers that are left, after any deletions.
pub fn ots_history() {
    let n = nd::choose(3, "deletions");
    let mut s = Secrets::new(n < 2);
    for _ in 0..n {
        s.delete();
    }
    s.s = s.s.snapshot();
    // (concrete from here: refusing formats the identifier)
    let (b, o) = (nd::concretize(s.near("batch")), nd::concretize(nd::below(s.dil + 3, "offset")));
    let msg = Msg(vec![7]);
    let sig = s.s.sign(&ots_id(b, o), &msg);
    let good = sig.verify(&ots_id(b, o), &msg, &s.s.verifier);
    nd::check(good == s.usable(b, o), "a signature is made exactly for identifiers that are not deleted");
    if good {
        nd::cover("signed");
        if s.low.is_some() {
            nd::cover("signed after deleting");
        }
    }
}

/// Deleted secrets are gone, not only unused: what is left can only sign for later identifiers.
pub fn ots_held() {
    let mut s = Secrets::new(nd::flip("start"));
    s.check_held();
    for _ in 0..(if nd::thorough() { 3 } else { 2 }) {
        s.delete();
        s.check_held();
        if s.low.is_some() {
            nd::cover("deleted");
        }
    }
    let t = s.s.snapshot();
    nd::check(t.verif_held() == s.s.verif_held() && t.verif_offsets_pk2() == s.s.verif_offsets_pk2() && t.verifier == s.s.verifier, "a snapshot holds the same");
    nd::check(t.first_batch == s.s.first_batch && t.first_offset == s.s.first_offset, "at the same position");
}

/// A signature is good for its identifier, message and master key only, and parts of signatures cannot be recombined.
pub fn ots_sound() {
    let s = OTSSecrets::generate(126, 3);
    let other = OTSSecrets::generate(126, 3);
    let mut s = s;
    if nd::flip("expanded") {
        s.delete_before(ots_id(126, 0), 3);
    }
    let at = |n: &str| {
        let b = nd::u64(n);
        nd::assume((126..129).contains(&b));
        (b, nd::below(3, n))
    };
    let a = [(126, 1), (128, 0)][nd::choose(2, "a")];
    let c = at("c");
    let c = (nd::concretize(c.0), nd::concretize(c.1));
    let (ma, mc) = (Msg(vec![1]), Msg(vec![2]));
    let sa = s.sign(&ots_id(a.0, a.1), &ma);
    let sc = if nd::flip("other signer") { other.sign(&ots_id(c.0, c.1), &mc) } else { s.sign(&ots_id(c.0, c.1), &mc) };
    let mut f = s.sign(&ots_id(a.0, a.1), &ma);
    let mix = nd::choose(32, "mix");
    (f.sig, f.pk, f.pk1_sig, f.pk2, f.pk2_sig) = (sa.sig, sa.pk, sa.pk1_sig, sa.pk2, sa.pk2_sig);
    if mix & 1 != 0 { f.sig = sc.sig }
    if mix & 2 != 0 { f.pk = sc.pk }
    if mix & 4 != 0 { f.pk1_sig = sc.pk1_sig }
    if mix & 8 != 0 { f.pk2 = sc.pk2 }
    if mix & 16 != 0 { f.pk2_sig = sc.pk2_sig }
    let v = at("verified for");
    let v = (nd::concretize(v.0), nd::concretize(v.1));
    let m = Msg(vec![1 + nd::choose(2, "msg") as u8]);
    let good = f.verify(&ots_id(v.0, v.1), &m, &s.verifier);
    let as_a = v == a && m.0 == ma.0;
    let as_c = v == c && m.0 == mc.0 && sc.verify(&ots_id(c.0, c.1), &mc, &s.verifier);
    nd::check(!good || as_a || as_c, "only what was signed, for the identifier it was signed for");
    if mix == 0 {
        nd::check(good == as_a, "exactly that");
    }
    if good {
        nd::cover("verified");
    }
    nd::check(!f.verify(&ots_id(v.0, v.1), &m, &other.verifier) || mix == 31, "not under another master key");
}

/// A signature verifies for no other identifier, message or key, however far away.
pub fn ots_elsewhere() {
    let mut s = OTSSecrets::generate(126, 3);
    if nd::flip("expanded") {
        s.delete_before(ots_id(127, 0), 3);
    }
    let a = [(127u64, 1u64), (128, 0)][nd::choose(2, "a")];
    let m = Msg(vec![1, 2]);
    let f = s.sign(&ots_id(a.0, a.1), &m);
    nd::check(f.verify(&ots_id(a.0, a.1), &m, &s.verifier), "signed");
    let v = (nd::u64("batch"), nd::u64("offset"));
    match nd::choose(3, "what") {
        0 => nd::check(f.verify(&ots_id(v.0, v.1), &m, &s.verifier) == (v == a), "for its identifier only"),
        1 => {
            let n = Msg(nd::vec(1 + nd::choose(3, "len"), "msg"));
            nd::check(f.verify(&ots_id(a.0, a.1), &n, &s.verifier) == (n.0 == m.0), "for its message only");
        }
        _ => {
            let k = pk(&nd::bytes("key"));
            nd::check(f.verify(&ots_id(a.0, a.1), &m, &k) == (k == s.verifier), "under its master key only");
        }
    }
}

/// The two levels of keys are signed under different domains, and what is signed fixes key, batch and offset.
pub fn ots_ids() {
    let k = |n: &str| pk(&nd::bytes(n));
    let a = OTSSubkeyBatchID { sub_key_pk: k("ka"), batch: nd::u64("ba") };
    let b = OTSSubkeyBatchID { sub_key_pk: k("kb"), batch: nd::u64("bb") };
    let c = OTSSubkeyOffsetID { sub_key_pk: k("kc"), batch: nd::u64("bc"), offset: nd::u64("oc") };
    let d = OTSSubkeyOffsetID { sub_key_pk: k("kd"), batch: nd::u64("bd"), offset: nd::u64("od") };
    if nd::flip("batches") {
        nd::check((hr(&a) == hr(&b)) == (a.sub_key_pk == b.sub_key_pk && a.batch == b.batch), "batch identifiers are injective");
    } else {
        let same = c.sub_key_pk == d.sub_key_pk && c.batch == d.batch && c.offset == d.offset;
        nd::check((hr(&c) == hr(&d)) == same, "offset identifiers are injective");
    }
    nd::check(hr(&a) != hr(&c), "and never the same");
    nd::check(hr(&a)[..4] == b"OT1\x82"[..] && hr(&c)[..4] == b"OT2\x83"[..], "each under its own domain");
}
