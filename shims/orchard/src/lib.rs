//! Stand-in for `orchard` (a git dependency that cannot be fetched here).
//!
//! Only the Merkle-tree side has behaviour: a 32-level node hash over valid
//! Pallas base-field encodings. The real hash is Sinsemilla; here it is
//! domain-separated BLAKE3 reduced into the field, which is collision resistant
//! as well, so everything grovedb-commitment-tree builds *around* the hash is
//! exercised unchanged. The root of the empty depth-32 tree is pinned to the
//! real Sinsemilla value because grovedb has it as a constant.
//! The zero-knowledge machinery (bundles, keys, proofs) is re-exported by
//! grovedb but never called by it: those items are empty types.

pub const NOTE_COMMITMENT_TREE_DEPTH: usize = 32;

pub use tree::Anchor;

pub mod tree {
    use incrementalmerkletree::{Hashable, Level};

    /// Little-endian encoding of the Pallas base field modulus.
    const P: [u8; 32] = [
        0x01, 0x00, 0x00, 0x00, 0xed, 0x30, 0x2d, 0x99, 0x1b, 0xf9, 0x4c, 0x09, 0xfc, 0x98, 0x46, 0x22, 0x00, 0x00,
        0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x40,
    ];
    /// `MerkleHashOrchard::empty_root(32)` of the real crate.
    const EMPTY_ROOT_32: [u8; 32] = [
        0xae, 0x29, 0x35, 0xf1, 0xdf, 0xd8, 0xa2, 0x4a, 0xed, 0x7c, 0x70, 0xdf, 0x7d, 0xe3, 0xa6, 0x68, 0xeb, 0x7a,
        0x49, 0xb1, 0x31, 0x98, 0x80, 0xdd, 0xe2, 0xbb, 0xd9, 0x03, 0x1a, 0xe5, 0xd8, 0x2f,
    ];

    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct MerkleHashOrchard([u8; 32]);

    impl std::fmt::Debug for MerkleHashOrchard {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "MerkleHashOrchard({:02x?})", self.0)
        }
    }

    impl MerkleHashOrchard {
        pub fn from_bytes(bytes: &[u8; 32]) -> Option<Self> {
            for i in (0..32).rev() {
                if bytes[i] != P[i] {
                    return (bytes[i] < P[i]).then_some(MerkleHashOrchard(*bytes));
                }
            }
            None
        }
        pub fn to_bytes(&self) -> [u8; 32] {
            self.0
        }
    }

    fn raw_combine(level: u8, a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
        let mut h = blake3::Hasher::new();
        h.update(b"orchard-shim");
        h.update(&[level]);
        h.update(a);
        h.update(b);
        let mut out = *h.finalize().as_bytes();
        out[31] &= 0x3f;
        out
    }

    fn empty31() -> [u8; 32] {
        use std::sync::OnceLock;
        static E: OnceLock<[u8; 32]> = OnceLock::new();
        *E.get_or_init(|| (0..31).fold(MerkleHashOrchard::empty_leaf().0, |v, l| raw_combine(l, &v, &v)))
    }

    impl Hashable for MerkleHashOrchard {
        fn empty_leaf() -> Self {
            let mut b = [0; 32];
            b[0] = 2;
            MerkleHashOrchard(b)
        }
        fn combine(level: Level, a: &Self, b: &Self) -> Self {
            let level = u8::from(level);
            if level == 31 && a == b && a.0 == empty31() {
                return MerkleHashOrchard(EMPTY_ROOT_32);
            }
            MerkleHashOrchard(raw_combine(level, &a.0, &b.0))
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct Anchor([u8; 32]);
    impl Anchor {
        pub fn empty_tree() -> Self {
            Anchor(EMPTY_ROOT_32)
        }
        pub fn from_bytes(bytes: [u8; 32]) -> Option<Self> {
            MerkleHashOrchard::from_bytes(&bytes).map(|h| Anchor(h.0))
        }
        pub fn to_bytes(self) -> [u8; 32] {
            self.0
        }
    }
    impl From<MerkleHashOrchard> for Anchor {
        fn from(h: MerkleHashOrchard) -> Self {
            Anchor(h.0)
        }
    }

    #[derive(Clone, Debug)]
    pub struct MerklePath {
        position: u32,
        auth_path: Vec<MerkleHashOrchard>,
    }
    impl From<incrementalmerkletree::MerklePath<MerkleHashOrchard, 32>> for MerklePath {
        fn from(p: incrementalmerkletree::MerklePath<MerkleHashOrchard, 32>) -> Self {
            MerklePath {
                position: u64::from(p.position()) as u32,
                auth_path: p.path_elems().to_vec(),
            }
        }
    }
    impl MerklePath {
        pub fn from_parts(position: u32, auth_path: [MerkleHashOrchard; 32]) -> Self {
            MerklePath { position, auth_path: auth_path.to_vec() }
        }
        /// The real method takes an `ExtractedNoteCommitment`.
        pub fn root(&self, cmx: crate::note::ExtractedNoteCommitment) -> Anchor {
            let mut node = MerkleHashOrchard(cmx.0);
            for (l, sib) in self.auth_path.iter().enumerate() {
                let level = Level::from(l as u8);
                node = if self.position >> l & 1 == 0 {
                    MerkleHashOrchard::combine(level, &node, sib)
                } else {
                    MerkleHashOrchard::combine(level, sib, &node)
                };
            }
            node.into()
        }
        pub fn position(&self) -> u32 {
            self.position
        }
        pub fn auth_path(&self) -> [MerkleHashOrchard; 32] {
            self.auth_path.clone().try_into().unwrap()
        }
    }
}

pub mod memo {
    use super::zcash_note_encryption::note_bytes::{NoteBytes, NoteBytesData};
    pub const COMPACT_NOTE_SIZE: usize = 52;
    pub trait MemoSize {
        type NoteCiphertextBytes: NoteBytes;
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct DashMemo;
    impl MemoSize for DashMemo {
        type NoteCiphertextBytes = NoteBytesData<104>;
    }
}

pub mod note {
    use super::memo::MemoSize;

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct ExtractedNoteCommitment(pub(crate) [u8; 32]);
    impl ExtractedNoteCommitment {
        pub fn from_bytes(b: &[u8; 32]) -> Option<Self> {
            super::tree::MerkleHashOrchard::from_bytes(b).map(|_| ExtractedNoteCommitment(*b))
        }
        pub fn to_bytes(self) -> [u8; 32] {
            self.0
        }
    }

    pub struct TransmittedNoteCiphertext<M: MemoSize> {
        pub epk_bytes: [u8; 32],
        pub enc_ciphertext: M::NoteCiphertextBytes,
        pub out_ciphertext: [u8; 80],
    }
    impl<M: MemoSize> TransmittedNoteCiphertext<M> {
        pub fn from_parts(
            epk_bytes: [u8; 32],
            enc_ciphertext: M::NoteCiphertextBytes,
            out_ciphertext: [u8; 80],
        ) -> Self {
            TransmittedNoteCiphertext { epk_bytes, enc_ciphertext, out_ciphertext }
        }
    }
    impl<M: MemoSize> Clone for TransmittedNoteCiphertext<M>
    where
        M::NoteCiphertextBytes: Clone,
    {
        fn clone(&self) -> Self {
            Self {
                epk_bytes: self.epk_bytes,
                enc_ciphertext: self.enc_ciphertext.clone(),
                out_ciphertext: self.out_ciphertext,
            }
        }
    }
    impl<M: MemoSize> std::fmt::Debug for TransmittedNoteCiphertext<M> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.debug_struct("TransmittedNoteCiphertext").finish_non_exhaustive()
        }
    }

    pub struct RandomSeed(());
    pub struct Nullifier(());
    pub struct Rho(());
}

pub mod zcash_note_encryption {
    pub mod note_bytes {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct NoteBytesData<const N: usize>(pub [u8; N]);
        impl<const N: usize> AsRef<[u8]> for NoteBytesData<N> {
            fn as_ref(&self) -> &[u8] {
                &self.0
            }
        }
        impl<const N: usize> AsMut<[u8]> for NoteBytesData<N> {
            fn as_mut(&mut self) -> &mut [u8] {
                &mut self.0
            }
        }
        pub trait NoteBytes: AsRef<[u8]> + AsMut<[u8]> + Clone + Copy {
            fn from_slice(bytes: &[u8]) -> Option<Self>
            where
                Self: Sized;
        }
        impl<const N: usize> NoteBytes for NoteBytesData<N> {
            fn from_slice(bytes: &[u8]) -> Option<Self> {
                bytes.try_into().ok().map(NoteBytesData)
            }
        }
    }
    pub trait Domain {}
    pub trait ShieldedOutput {}
    pub struct EphemeralKeyBytes(pub [u8; 32]);
    pub fn try_compact_note_decryption() {}
    pub fn try_note_decryption() {}
}

macro_rules! empty {
    ($($t:ident),* $(,)?) => { $(pub struct $t(());)* };
}
pub mod builder {
    empty!(Builder, BundleType);
}
pub mod bundle {
    empty!(BatchValidator, Authorized, Flags);
}
pub mod circuit {
    empty!(ProvingKey, VerifyingKey);
}
pub mod keys {
    empty!(
        FullViewingKey,
        IncomingViewingKey,
        OutgoingViewingKey,
        PreparedIncomingViewingKey,
        Scope,
        SpendAuthorizingKey,
        SpendValidatingKey,
        SpendingKey,
    );
}
pub mod note_encryption {
    empty!(CompactAction, OrchardDomain);
}
pub mod primitives {
    pub mod redpallas {}
}
pub mod value {
    empty!(NoteValue, ValueCommitment);
}
empty!(Action, Address, Bundle, Note, Proof);
