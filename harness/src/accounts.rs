//! Keys of accounts: what the store holds after crashes, which rounds they are good for, and which of them are kept.
use crate::nd;
use crate::txs::some_adr;
use algorsand::config::{ConsensusParams, CONSENSUS};
use algorsand::crypto::{hashable::Hashable, OTSSecrets, VrfKeypair};
use algorsand::data::account::{Error, Participation, Root};
use algorsand::data::account_manager::VerifAccountManager;
use algorsand::data::basics::{Address, MicroAlgos, Round};
use algorsand::data::bookkeeping::{BlockHeader, CompactCertState};
use algorsand::data::transactions::TxFields;
use algorsand::protocol;
use std::collections::HashMap;

#[cfg(any(irsx, shims))]
use sled::model;
#[cfg(not(any(irsx, shims)))]
mod model {
    pub fn pending() -> usize {
        0
    }
    pub fn die_after(_: usize) {}
    pub fn fail_after(_: usize) {}
    pub fn struck() -> bool {
        false
    }
    pub fn crash(_: usize) {}
}

fn copy(p: &Participation) -> Participation {
    Participation { parent: p.parent, vrf: p.vrf.clone(), voting: p.voting.snapshot(), first_valid: p.first_valid, last_valid: p.last_valid, key_dilution: p.key_dilution }
}
fn same_voting(a: &OTSSecrets, b: &OTSSecrets) -> bool {
    a.verifier == b.verifier && a.first_batch == b.first_batch && a.first_offset == b.first_offset && a.verif_held() == b.verif_held() && a.verif_offsets_pk2() == b.verif_offsets_pk2()
}
fn same(a: &Participation, b: &Participation) -> bool {
    a.parent == b.parent && a.vrf == b.vrf && a.first_valid == b.first_valid && a.last_valid == b.last_valid && a.key_dilution == b.key_dilution && same_voting(&a.voting, &b.voting)
}
fn some_part(k: u8, name: &str) -> Participation {
    Participation {
        parent: some_adr(k, name),
        vrf: VrfKeypair::from_seed([k; 32]),
        voting: OTSSecrets::generate(k as u64, 2),
        first_valid: Round(nd::u64(name)),
        last_valid: Round(nd::u64(name)),
        key_dilution: nd::u64(name),
    }
}
/// What the store holds: the participation keys stored last, if any.
fn check_restored(want: &[&Option<Participation>], label: &str) {
    let got = Participation::restore();
    let good = match &got {
        Ok(p) => want.iter().any(|w| w.as_ref().map_or(false, |w| same(w, p))),
        Err(Error::NotFound) => want.iter().any(|w| w.is_none()),
        Err(_) => false,
    };
    nd::check(good, label);
    nd::cover(if got.is_ok() { "keys" } else { "no keys" });
}
fn step(mem: &mut Participation, stored: &Option<Participation>, n: usize) -> (Result<(), Error>, Option<Participation>) {
    match n {
        0 => {
            let r = mem.persist();
            (r, Some(copy(mem)))
        }
        1 => {
            *mem = some_part(4, "new keys");
            let r = mem.persist();
            (r, Some(copy(mem)))
        }
        2 => {
            mem.parent = some_adr(5, "new parent");
            let r = mem.persist_new_parent();
            (r, stored.as_ref().map(|s| Participation { parent: mem.parent, ..copy(s) }))
        }
        _ => {
            mem.key_dilution = [2, 0][nd::choose(2, "dilution")];
            let p = ConsensusParams { default_key_dilution: 3, ..Default::default() };
            let r = mem.delete_old_keys(Round(6 + nd::choose(4, "round") as u64), &p);
            (r, stored.as_ref().map(|s| Participation { voting: mem.voting.snapshot(), ..copy(s) }))
        }
    }
}
/// A crash at any point leaves the keys as they were before or after what was going on, and what was completed stays.
pub fn keys_crash() {
    let mut mem = some_part(3, "keys");
    let mut stored: Option<Participation> = None;
    for _ in 0..nd::choose(if nd::thorough() { 4 } else { 3 }, "steps") {
        let n = nd::choose(4, "step");
        let (r, s) = step(&mut mem, &stored, n);
        nd::check(r.is_ok(), "storing keys works");
        // (the keys are one object: what is in the store and what is in memory may differ in what was not stored)
        stored = s;
    }
    let before = stored.as_ref().map(copy);
    let n = nd::choose(4, "last step");
    model::die_after(nd::choose(9, "dies after"));
    let (_, after) = step(&mut mem, &stored, n);
    let died = model::struck();
    model::crash(nd::choose(model::pending() + 1, "unflushed writes kept"));
    if died {
        nd::cover("crashed");
        check_restored(&[&before, &after], "a crash leaves the keys of before or after, never a mixture");
    } else {
        nd::cover("completed");
        check_restored(&[&after], "what was completed survives a crash");
    }
}
/// A storage error is reported, and whatever was reported as stored is.
pub fn keys_errors() {
    let mut mem = some_part(3, "keys");
    let mut stored: Option<Participation> = None;
    if nd::flip("stored") {
        nd::check(mem.persist().is_ok(), "storing keys works");
        stored = Some(copy(&mem));
    }
    let n = nd::choose(4, "step");
    model::fail_after(nd::choose(9, "fails after"));
    let (r, after) = step(&mut mem, &stored, n);
    let failed = model::struck();
    model::crash(if failed { nd::choose(model::pending() + 1, "unflushed writes kept") } else { 0 });
    nd::check(r.is_err() == failed, "an error is reported exactly if there is one");
    if failed {
        nd::cover("failed");
        check_restored(&[&stored, &after], "an error leaves the keys of before or after, never a mixture");
    } else {
        check_restored(&[&after], "what was reported as stored is");
    }
}
/// The root key is the one imported last.
pub fn root_crash() {
    nd::check(matches!(Root::restore(), Err(Error::NotFound)), "no root key at first");
    let seed = |n: &str| {
        let mut s = [1; 32];
        (s[0], s[31]) = (nd::u8(n), nd::u8(n));
        s
    };
    let restored = |want: &[[u8; 32]]| -> bool { Root::restore().map_or(false, |r| want.iter().any(|w| r.kp.secret.as_bytes() == w) && r.kp.public == (&r.kp.secret).into()) };
    let (a, b) = (seed("seed"), seed("second seed"));
    let first = nd::flip("imported before");
    if first {
        let r = Root::verif_import(a);
        nd::check(r.map_or(false, |r| r.kp.secret.as_bytes() == &a && r.kp.public == (&r.kp.secret).into() && r.address().0 == r.kp.public.to_bytes()), "the key pair of the seed is imported");
        nd::check(restored(&[a]), "and can be restored");
    }
    model::die_after(nd::choose(4, "dies after"));
    let _ = Root::verif_import(b);
    let died = model::struck();
    model::crash(nd::choose(model::pending() + 1, "unflushed writes kept"));
    if !died {
        nd::check(restored(&[b]), "an imported key survives a crash");
    } else if first {
        nd::check(restored(&[a, b]), "a crash leaves the old or the new key");
    } else {
        nd::check(restored(&[b]) || matches!(Root::restore(), Err(Error::NotFound)), "a crash leaves no key or the new one");
    }
}

struct Vote(u8);
impl Hashable for Vote {
    fn to_be_hashed(&self) -> (protocol::HashID, Vec<u8>) {
        (protocol::VOTE, vec![self.0])
    }
}
fn can_sign(p: &Participation, r: u64, dilution: u64) -> bool {
    let id = Round(r).ots_id(dilution);
    p.voting.sign(&id, &Vote(1)).verify(&id, &Vote(1), &p.voting.verifier)
}
/// New participation keys can vote in every round they are valid for, and what was deleted cannot vote any more.
pub fn keys_rounds() {
    // (signatures of symbolic rounds would be encoded byte by byte)
    let first = [0u64, 1, 5, 1 << 40][nd::choose(4, "first")];
    let n = nd::choose(if nd::thorough() { 9 } else { 6 }, "rounds") as u64;
    let dil = 1 + nd::choose(3, "dilution") as u64;
    let parent = some_adr(2, "parent");
    let r = Participation::fill_db_with_participation_keys(parent, Round(first), Round(first + n), dil);
    nd::check(r.is_ok(), "keys for an interval");
    let mut p = r.unwrap();
    nd::check(p.address() == parent && p.valid_interval() == (Round(first), Round(first + n)) && p.key_dilution == dil, "the keys are for this account and interval");
    check_restored(&[&Some(copy(&p))], "new keys are stored");
    let low = nd::choose(n as usize + 3, "deleted before") as u64;
    if low > 0 {
        // (the round after the last one is asked for as soon as that is over)
        let q = ConsensusParams { default_key_dilution: 77, ..Default::default() };
        nd::check(p.delete_old_keys(Round(first + low), &q).is_ok(), "old keys can be deleted");
        check_restored(&[&Some(copy(&p))], "what was deleted is deleted from the store");
    }
    let r = first + nd::choose(n as usize + 1, "round") as u64;
    nd::check(can_sign(&p, r, dil) == (r >= first + low), "exactly the rounds from this one on can be voted in");
    nd::cover(if r >= first + low { "votes" } else { "deleted" });
}
/// No keys for an interval that ends before it begins.
pub fn keys_interval() {
    let (a, b) = (nd::u64("first"), nd::u64("last"));
    nd::assume(b < a);
    let r = Participation::fill_db_with_participation_keys(Address::default(), Round(a), Round(b), 1 + nd::u8("dilution") as u64);
    nd::check(matches!(r, Err(Error::InvalidRoundInterval(x, y)) if x == Round(a) && y == Round(b)), "an interval that ends before it begins is refused");
    nd::check(matches!(Participation::restore(), Err(Error::NotFound)), "and nothing is stored");
}
/// Which rounds keys are valid for, and how they are registered.
pub fn keys_valid() {
    let p = some_part(3, "keys");
    let (a, b) = (nd::u64("from"), nd::u64("to"));
    nd::assume(a <= b);
    nd::check(p.overlaps_interval(Round(a), Round(b)) == (a <= p.last_valid.0 && b >= p.first_valid.0), "keys overlap an interval if a round of it is theirs");
    let (fee, lease) = (nd::u64("fee"), nd::bytes::<32>("lease"));
    let t = p.generate_registration_transaction(MicroAlgos(fee), Round(a), Round(b), lease);
    let h = &t.header;
    nd::check(h.sender == p.parent && h.fee == MicroAlgos(fee) && h.first_valid == Round(a) && h.last_valid == Round(b) && h.lease == lease, "the registration is the account's own");
    nd::check(h.note.is_empty() && h.rekey_to == Address::default(), "and nothing else");
    match &t.fields {
        TxFields::Keyreg(k) => nd::check(
            k.vote_pk == p.voting.verifier && k.selection_pk == p.vrf.public() && k.vote_first == p.first_valid && k.vote_last == p.last_valid && k.vote_key_dilution == p.key_dilution && !k.nonparticipation,
            "the keys and the rounds they are valid for are registered",
        ),
        _ => nd::check(false, "a key registration"),
    }
}

fn managed(k: usize) -> Participation {
    let d = |bit: usize| (k >> bit & 1) as u64;
    Participation {
        parent: Address([1 + d(0) as u8; 32]),
        vrf: VrfKeypair::from_seed([1 + d(1) as u8; 32]),
        voting: OTSSecrets::generate(0, 1),
        first_valid: Round(10 + 5 * d(2)),
        last_valid: Round(20 + 10 * d(3)),
        key_dilution: 1,
    }
}
/// The manager keeps each key once and finds exactly those valid for a round.
pub fn manager_keys() {
    let mut m = VerifAccountManager::default();
    let mut kept: Vec<Participation> = vec![];
    let shared = OTSSecrets::generate(0, 1);
    for i in 0..1 + nd::choose(if nd::thorough() { 3 } else { 2 }, "keys") {
        // (the first one differs from the others in one thing at a time, or in none)
        let k = if i == 0 { 0 } else { [0, 1, 2, 4, 8, 12][nd::choose(6, "different")] };
        let mut p = managed(k);
        if i == 0 || nd::flip("same voting keys") {
            p.voting = shared.snapshot();
        }
        let id = |p: &Participation| (p.parent, p.first_valid, p.last_valid, p.voting.verifier.to_bytes(), p.vrf.public());
        let new = kept.iter().all(|q| id(q) != id(&p));
        nd::check(m.add_participation(copy(&p)) == new, "added exactly if it is not there yet");
        if new {
            kept.push(p);
        } else {
            nd::cover("duplicate");
        }
    }
    nd::check(m.all().len() == kept.len() && kept.iter().all(|p| m.all().iter().any(|q| same(p, q))), "all keys are kept as they are");
    let r = nd::u64("round");
    let live: Vec<&Participation> = kept.iter().filter(|p| p.first_valid.0 <= r && r <= p.last_valid.0).collect();
    let got = m.keys(Round(r));
    nd::check(got.len() == live.len() && live.iter().all(|p| got.iter().any(|q| same(p, q))), "exactly the keys valid for a round are found");
    let to = nd::u64("to");
    nd::assume(r <= to);
    nd::check(m.has_live_keys(Round(r), Round(to)) == kept.iter().any(|p| p.first_valid.0 <= to && r <= p.last_valid.0), "there are live keys exactly if some are valid for a round of the interval");
}
/// The manager deletes exactly the keys of rounds that agreement and compact certificates are done with.
pub fn manager_deletes() {
    let mut m = VerifAccountManager::default();
    let n = 1 + nd::choose(2, "keys");
    for i in 0..n {
        m.add_participation(Participation { voting: OTSSecrets::generate(0, 6), key_dilution: if i == 0 { 2 } else { 0 }, ..managed(i) });
    }
    let version = protocol::ConsensusVersion::Future;
    let every = CONSENSUS.0[&version].compact_cert_rounds;
    let round = nd::choose(6, "round") as u64;
    let mut h = BlockHeader { round: Round(round), ..Default::default() };
    h.upgrade_state.current_protocol = version;
    let mut next = None;
    if nd::flip("certificates") {
        let r = nd::choose(6, "certificate round") as u64;
        h.compact_certs.insert(protocol::CompactCertType::Basic, CompactCertState { compactcert_voters: Default::default(), compactcert_voters_total: MicroAlgos(0), compactcert_next_round: Round(r) });
        if r > 0 {
            next = Some(r);
        }
    }
    let mut sigs = HashMap::new();
    let signed = nd::choose(4, "signed") as u64 * 2;
    if nd::flip("signed") {
        sigs.insert(Address([1; 32]), Round(signed));
    }
    let signed_of = |p: &Participation| sigs.get(&p.parent).map_or(0, |r| r.0);
    let need: Vec<(Address, u64)> = m
        .all()
        .iter()
        .map(|p| {
            let cert = next.map(|r| if signed_of(p) > r { signed_of(p) + every + 1 } else { r + 1 });
            (p.parent, (round + 1).min(cert.unwrap_or(u64::MAX)))
        })
        .collect();
    m.delete_old_keys(h, sigs.clone(), ConsensusParams { default_key_dilution: 3, ..Default::default() });
    nd::check(m.all().len() == n, "no account is lost");
    let r = nd::choose(9, "voting round") as u64;
    for p in m.all() {
        let low = need.iter().find(|x| x.0 == p.parent).unwrap().1;
        let d = if p.key_dilution == 0 { 3 } else { p.key_dilution };
        nd::check(can_sign(p, r, d) == (r >= low), "exactly the rounds still needed can be voted in");
        nd::check(p.key_dilution == if p.parent.0[0] == 1 { 2 } else { 0 } && p.first_valid.0 == 10, "nothing else about the keys changes");
    }
    nd::cover(if need.iter().all(|x| r >= x.1) { "kept" } else { "deleted" });
}
/// An account whose keys cannot be stored does not keep the others from being deleted.
pub fn manager_errors() {
    let mut m = VerifAccountManager::default();
    for i in 0..2 {
        m.add_participation(Participation { voting: OTSSecrets::generate(0, 4), ..managed(i) });
    }
    let round = nd::choose(3, "round") as u64;
    let mut h = BlockHeader { round: Round(round), ..Default::default() };
    h.upgrade_state.current_protocol = protocol::ConsensusVersion::Future;
    model::fail_after(nd::choose(5, "fails after"));
    m.delete_old_keys(h, HashMap::new(), ConsensusParams::default());
    nd::cover(if model::struck() { "failed" } else { "stored" });
    nd::check(m.all().len() == 2, "no account is lost");
    let r = nd::choose(4, "voting round") as u64;
    for p in m.all() {
        nd::check(can_sign(p, r, 1) == (r > round), "what is not needed is deleted of every account");
    }
}
/// Keys made anew are not those made before.
pub fn keys_fresh() {
    let make = || Participation::fill_db_with_participation_keys(some_adr(2, "parent"), Round(0), Round(3), 2).unwrap();
    let (a, b) = (make(), make());
    nd::check(a.vrf != b.vrf && a.vrf.public() != b.vrf.public(), "every account has its own selection key");
    nd::check(a.voting.verifier != b.voting.verifier, "every account has its own voting key");
    let (x, y) = (a.voting.verif_held().0, b.voting.verif_held().0);
    nd::check(x.len() == 2 && y.len() == 2 && x[0].0 != x[1].0 && x.iter().all(|k| y.iter().all(|l| k.0 != l.0)), "and every batch of rounds its own");
    let (r, s) = (Root::generate().unwrap(), Root::generate().unwrap());
    nd::check(r.kp.secret.as_bytes() != s.kp.secret.as_bytes() && r.address() != s.address(), "every root key is new");
    nd::check(Root::restore().map_or(false, |k| k.address() == s.address()), "and stored");
}
