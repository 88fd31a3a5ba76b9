//! Stand-in for `sha2` 0.9: buffers the input and asks `vxhash` for the digest.
pub use digest::{self, Digest};
use digest::consts::{U28, U32, U48, U64, U128};
use digest::generic_array::GenericArray;

macro_rules! hasher {
    ($n:ident, $kind:expr, $out:ty, $block:ty, $len:expr) => {
        #[derive(Clone, Default, Debug)]
        pub struct $n(Vec<u8>);
        impl digest::BlockInput for $n {
            type BlockSize = $block;
        }
        impl digest::Update for $n {
            fn update(&mut self, data: impl AsRef<[u8]>) {
                self.0.extend_from_slice(data.as_ref());
            }
        }
        impl digest::FixedOutputDirty for $n {
            type OutputSize = $out;
            fn finalize_into_dirty(&mut self, out: &mut GenericArray<u8, $out>) {
                let h = vxhash::hash($kind, &self.0);
                out.copy_from_slice(&h[..$len]);
            }
        }
        impl digest::Reset for $n {
            fn reset(&mut self) {
                self.0.clear();
            }
        }
    };
}
hasher!(Sha512Trunc256, 0, U32, U128, 32);
hasher!(Sha512, 1, U64, U128, 64);
hasher!(Sha256, 10, U32, U64, 32);
hasher!(Sha384, 5, U48, U128, 48);
hasher!(Sha224, 6, U28, U64, 28);
hasher!(Sha512Trunc224, 7, U28, U128, 28);
