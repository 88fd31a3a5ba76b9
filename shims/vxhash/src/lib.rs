//! The one hash primitive the crypto stand-ins are built on.
//! In the symbolic build it is the engine's ideal (collision-free) hash; natively it is the real
//! function, overridden by the table a counterexample comes with.
#[cfg(irsx)]
extern "C" {
    fn vx_hash(kind: u64, input: *const u8, len: u64, out: *mut u8);
}

/// Kind 0 and kinds from 8 on fill 32 bytes, the others 64.
#[cfg(irsx)]
pub fn hash(kind: u64, data: &[u8]) -> [u8; 64] {
    let mut out = [0u8; 64];
    unsafe { vx_hash(kind, data.as_ptr(), data.len() as u64, out.as_mut_ptr()) };
    out
}

#[cfg(not(irsx))]
#[path = "../../../engine/src/sha.rs"]
mod sha;

#[cfg(not(irsx))]
pub mod table {
    use std::collections::HashMap;
    use std::sync::Mutex;
    pub static TABLE: Mutex<Option<HashMap<(u64, Vec<u8>), Vec<u8>>>> = Mutex::new(None);
    pub fn add(kind: u64, input: Vec<u8>, out: Vec<u8>) {
        TABLE.lock().unwrap().get_or_insert_with(HashMap::new).insert((kind, input), out);
    }
}

#[cfg(not(irsx))]
pub fn hash(kind: u64, data: &[u8]) -> [u8; 64] {
    if let Some(t) = table::TABLE.lock().unwrap().as_ref() {
        if let Some(o) = t.get(&(kind, data.to_vec())) {
            let mut out = [0u8; 64];
            out[..o.len()].copy_from_slice(o);
            return out;
        }
    }
    sha::digest(kind, data)
}
