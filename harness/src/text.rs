//! What people read and type: mnemonics, addresses.
use crate::nd;
use algorsand::crypto::mnemonic::*;
use algorsand::data::basics::*;
use std::str::FromStr;

/// bit `i` of a byte string, lowest first
fn bit(b: &[u8], i: usize) -> bool {
    b[i / 8] >> (i % 8) & 1 == 1
}
fn bits11(b: &[u8], k: usize) -> u32 {
    (0..11).filter(|j| 11 * k + j < 8 * b.len()).map(|j| (bit(b, 11 * k + j) as u32) << j).sum()
}

/// The words' numbers are the key's bits, eleven at a time, and back.
pub fn base11() {
    let n = [0usize, 1, 2, 11, 31, 32, 33][nd::choose(7, "bytes")];
    let b = nd::vec(n, "key");
    let w = verif_to_base11(&b);
    nd::check(w.len() == (8 * n + 10) / 11, "as many words as it takes");
    for (k, x) in w.iter().enumerate() {
        nd::check(*x == bits11(&b, k), "each word is the next eleven bits");
    }
    let back = verif_to_base8(&w);
    nd::check(back.len() >= n && back[..n] == b[..] && back[n..].iter().all(|x| *x == 0), "and they give the bytes back, then only padding");
}
/// Any words' numbers come back from the bytes they stand for.
pub fn base8() {
    let n = [0usize, 1, 2, 8, 24][nd::choose(5, "words")];
    let w: Vec<u32> = (0..n).map(|_| nd::below(2048, "word") as u32).collect();
    let b = verif_to_base8(&w);
    nd::check(b.len() == (11 * n + 7) / 8, "as many bytes as it takes");
    for i in 0..11 * n {
        nd::check(bit(&b, i) == (w[i / 11] >> (i % 11) & 1 == 1), "each bit in its place");
    }
    for i in 11 * n..8 * b.len() {
        nd::check(!bit(&b, i), "padding is zero");
    }
}
/// The checksum is the first eleven bits of the hash.
pub fn word_checksum() {
    let b = nd::vec(32, "key");
    let h = algorsand::crypto::hash(&b);
    nd::check(verif_checksum(&b) == bits11(&h.0[..2], 0), "the first eleven bits of the hash");
}
fn a_key() -> [u8; 32] {
    match nd::choose(3, "kind of key") {
        0 => [0; 32],
        1 => [0xff; 32],
        _ => core::array::from_fn(|i| (i * 41 + 7) as u8),
    }
}
/// Every key (patterns, with any one byte set to several values) survives its mnemonic.
pub fn mnemonic_roundtrip() {
    let mut k = a_key();
    let i = nd::choose(32, "which");
    k[i] = if nd::thorough() { nd::concretize(nd::u8("byte") as u64) as u8 } else { [0x80, 0x7f][nd::choose(2, "byte")] };
    let m = key_to_mnemonic(k);
    nd::check(m.len() == 25, "25 words");
    for (i, w) in m.iter().enumerate() {
        let want = if i < 24 { bits11(&k, i) } else { verif_checksum(&k) };
        nd::check(*w == WORDS[want as usize], "the words of its numbers");
    }
    nd::check(mnemonic_to_key(&m) == Ok(k), "the words give the key back");
    nd::check(phrase_to_key(&m.join(" ")) == Ok(k), "and so does the phrase");
    nd::check(phrase_to_key(&format!("  {}\n", m.join(" \t "))) == Ok(k), "whatever space is between the words");
}
/// A changed mnemonic is refused, or is exactly the mnemonic of the key it gives.
pub fn mnemonic_damaged() {
    let k = a_key();
    let mut m = key_to_mnemonic(k);
    let old = m.clone();
    if nd::flip("swap") {
        let j = nd::choose(25, "where else");
        m.swap([0, 11, 23, 24][nd::choose(4, "where")], j);
    } else {
        let i = nd::choose(25, "where");
        m[i] = WORDS[[0usize, 7, 8, 1024, 2047][nd::choose(5, "word")]].clone();
    }
    let same = m == old;
    match mnemonic_to_key(&m) {
        Ok(x) => {
            nd::check(key_to_mnemonic(x) == m, "what is accepted is the mnemonic of what it gives");
            nd::cover(if same { "unchanged" } else { "another key" });
        }
        Err(e) => {
            nd::cover("refused");
            nd::check(e == MnemonicError::WrongChecksum, "for its checksum");
        }
    }
}
/// Mnemonics of a wrong length or with unknown words are refused.
pub fn mnemonic_refused() {
    let m = key_to_mnemonic(a_key());
    let n = nd::choose(28, "length");
    if n != 25 {
        let x: Vec<String> = m.iter().cycle().take(n).cloned().collect();
        nd::check(mnemonic_to_key(&x) == Err(MnemonicError::WrongMnemonicLen(n)), "25 words");
        nd::check(phrase_to_key(&x.join(" ")) == Err(MnemonicError::WrongMnemonicLen(n)), "25 words in a phrase");
        return;
    }
    let i = nd::choose(25, "where");
    let mut x = m;
    x[i] = match nd::choose(4, "word") {
        0 => String::new(),
        1 => x[i].to_uppercase(),
        2 => x[i][..x[i].len() - 1].to_string() + "~",
        _ => {
            let mut b = nd::bytes::<2>("word");
            b[0] &= 0x7f;
            b[1] &= 0x7f;
            String::from_utf8(b.to_vec()).unwrap()
        }
    };
    nd::check(mnemonic_to_key(&x) == Err(MnemonicError::InvalidWordInMnemonic(x[i].clone())), "unknown words");
}

/// The printed form of an address fixes it.
pub fn address_text() {
    let mut a = [nd::choose(2, "rest") as u8 * 0xa5; 32];
    let i = if nd::thorough() { nd::choose(32, "which") } else { [0usize, 4, 15, 31][nd::choose(4, "which")] };
    a[i] = nd::u8("byte");
    let s = Address(a).to_string();
    nd::check(s.len() == 58, "58 characters");
    nd::check(Address::from_str(&s) == Ok(Address(a)), "the printed form reads back");
}
/// Text is accepted exactly if it is the printed form of an address.
pub fn address_parse() {
    let a = Address([[0u8, 0xff, 0x5a][nd::choose(3, "address")]; 32]);
    let mut s = a.to_string().into_bytes();
    let i = [0usize, 1, 30, 50, 51, 52, 56, 57][nd::choose(8, "where")];
    let c = nd::u8("char");
    nd::assume(c < 128);
    let unchanged = c == s[i];
    s[i] = c;
    let s = String::from_utf8(s).unwrap();
    match Address::from_str(&s) {
        Ok(x) => {
            nd::cover("accepted");
            nd::check(x.to_string() == s, "only the printed form of an address is accepted");
            nd::check(!unchanged || x == a, "and gives that address");
        }
        Err(e) => {
            nd::cover("refused");
            let legal = c.is_ascii_uppercase() || (b'2'..=b'7').contains(&c);
            nd::check(e == AddressError::InvalidBase32 || legal, "for its characters only if they are wrong");
            nd::check(!unchanged, "the address itself is read");
        }
    }
}
/// Text of another length is refused for its length or for not being base32, never accepted.
pub fn address_length() {
    let s = Address([0x5a; 32]).to_string();
    let n = nd::choose(70, "length");
    let x: String = s.chars().cycle().take(n).collect();
    match Address::from_str(&x) {
        Ok(_) => nd::check(n == 58, "58 characters"),
        Err(e) => nd::check(n != 58 && (e == AddressError::WrongLength || e == AddressError::InvalidBase32), "wrong length"),
    }
}
/// An address survives encoding; encoded byte strings of other lengths are refused.
pub fn address_codec() {
    use algorsand::protocol;
    let a = Address(nd::bytes("address"));
    let e = protocol::encode(&a);
    nd::check(e.len() == 34 && e[..2] == [0xc4, 32] && e[2..] == a.0[..], "an address is a byte string of 32 bytes");
    let n = nd::choose(40, "length");
    let mut d = vec![0xc4, n as u8];
    d.extend_from_slice(&nd::vec(n, "other"));
    let r: Result<Address, _> = rmp_serde::from_slice(&d);
    nd::check(r.is_ok() == (n == 32) && r.map_or(true, |x| x.0[..] == d[2..]), "32 bytes and nothing else are an address");
    let r: Result<Address, _> = rmp_serde::from_slice(&e);
    nd::check(r.ok() == Some(a), "an address survives encoding");
    nd::check(a.is_zero() == a.0.iter().all(|x| *x == 0), "zero");
}
