//! Offline stand-in for the merkletree-mintlayer crate: a binary merkle tree padded to a power of two leaves.
//! Checked against the root vectors of /repo/common/src/chain/block/block_body/merkle_tools.rs (driver `ledger`).

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum MerkleTreeFormError {
    TooSmall(usize),
    TooBig(usize),
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum MerkleTreeAccessError {
    IndexOutOfRange(u32, u32),
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum MerkleTreeProofExtractionError {
    LeafIndexOutOfRange(u32, u32),
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum MerkleProofVerificationError {
    LeavesContainerProvidedIsEmpty,
}
macro_rules! err {
    ($($t:ty),*) => {$(
        impl std::fmt::Display for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") }
        }
        impl std::error::Error for $t {}
    )*};
}
err!(MerkleTreeFormError, MerkleTreeAccessError, MerkleTreeProofExtractionError, MerkleProofVerificationError);

pub mod hasher {
    pub trait PairHasher: Clone {
        type NodeType: Clone + AsRef<[u8]>;
        fn hash_pair(left: &Self::NodeType, right: &Self::NodeType) -> Self::NodeType;
        fn hash_single(data: &Self::NodeType) -> Self::NodeType;
    }
}

pub mod pos {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct NodePosition {
        pub level: u32,
        pub index: u32,
    }
}

pub mod tree {
    use super::{hasher::PairHasher, pos::NodePosition, MerkleTreeFormError};
    use std::marker::PhantomData;
    use std::num::NonZeroU32;

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct MerkleTree<T, H> {
        levels: Vec<Vec<T>>,
        _h: PhantomData<H>,
    }
    pub struct Node<'a, T, H> {
        tree: &'a MerkleTree<T, H>,
        pos: NodePosition,
    }
    impl<'a, T, H> Node<'a, T, H> {
        pub fn hash(&self) -> &'a T {
            &self.tree.levels[self.pos.level as usize][self.pos.index as usize]
        }
        pub fn abs_position(&self) -> NodePosition {
            self.pos
        }
    }
    impl<T: Clone, H: PairHasher<NodeType = T>> MerkleTree<T, H> {
        pub fn from_leaves(leaves: impl IntoIterator<Item = T>) -> Result<Self, MerkleTreeFormError> {
            let mut leaves: Vec<T> = leaves.into_iter().collect();
            if leaves.is_empty() {
                return Err(MerkleTreeFormError::TooSmall(0));
            }
            let n = leaves.len().next_power_of_two();
            while leaves.len() < n {
                let last = H::hash_single(leaves.last().expect("non-empty"));
                leaves.push(last);
            }
            let mut levels = vec![leaves];
            while levels.last().expect("level").len() > 1 {
                let next = levels.last().expect("level").chunks(2).map(|c| H::hash_pair(&c[0], &c[1])).collect();
                levels.push(next);
            }
            Ok(Self { levels, _h: PhantomData })
        }
        pub fn root(&self) -> T {
            self.levels.last().expect("root")[0].clone()
        }
        pub fn leaf_count(&self) -> NonZeroU32 {
            NonZeroU32::new(self.levels[0].len() as u32).expect("nonzero")
        }
        pub fn level_count(&self) -> NonZeroU32 {
            NonZeroU32::new(self.levels.len() as u32).expect("nonzero")
        }
        pub fn total_node_count(&self) -> NonZeroU32 {
            NonZeroU32::new(self.levels.iter().map(|l| l.len() as u32).sum()).expect("nonzero")
        }
        pub fn node_from_bottom(&self, level: u32, index: u32) -> Option<Node<'_, T, H>> {
            self.levels.get(level as usize)?.get(index as usize)?;
            Some(Node { tree: self, pos: NodePosition { level, index } })
        }
    }
}

pub mod proof {
    pub mod single {
        use crate::{hasher::PairHasher, tree::MerkleTree, MerkleProofVerificationError, MerkleTreeProofExtractionError};
        use std::marker::PhantomData;

        pub struct SingleProofNodes<'a, T, H> {
            index: u32,
            branch: Vec<T>,
            _p: PhantomData<&'a H>,
        }
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct SingleProofHashes<T, H> {
            leaf_index_in_level: u32,
            branch: Vec<T>,
            _p: PhantomData<H>,
        }
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub enum ProofVerifyResult {
            PassedDecisively,
            PassedTrivially,
            Failed,
        }
        impl ProofVerifyResult {
            pub fn passed_decisively(&self) -> bool {
                *self == Self::PassedDecisively
            }
            pub fn failed(&self) -> bool {
                *self == Self::Failed
            }
        }
        impl<'a, T: Clone, H: PairHasher<NodeType = T>> SingleProofNodes<'a, T, H> {
            pub fn from_tree_leaf(tree: &'a MerkleTree<T, H>, index: u32) -> Result<Self, MerkleTreeProofExtractionError> {
                let n = tree.leaf_count().get();
                if index >= n {
                    return Err(MerkleTreeProofExtractionError::LeafIndexOutOfRange(index, n));
                }
                let branch = (0..tree.level_count().get() - 1)
                    .map(|l| tree.node_from_bottom(l, (index >> l) ^ 1).expect("sibling").hash().clone())
                    .collect();
                Ok(Self { index, branch, _p: PhantomData })
            }
            pub fn into_values(self) -> SingleProofHashes<T, H> {
                SingleProofHashes { leaf_index_in_level: self.index, branch: self.branch, _p: PhantomData }
            }
        }
        impl<T: Clone + PartialEq, H: PairHasher<NodeType = T>> SingleProofHashes<T, H> {
            pub fn branch(&self) -> &[T] {
                &self.branch
            }
            pub fn verify(&self, leaf: T, root: T) -> Result<ProofVerifyResult, MerkleProofVerificationError> {
                if self.branch.is_empty() {
                    return Ok(if leaf == root { ProofVerifyResult::PassedTrivially } else { ProofVerifyResult::Failed });
                }
                let mut h = leaf;
                for (l, s) in self.branch.iter().enumerate() {
                    h = if (self.leaf_index_in_level >> l) & 1 == 0 { H::hash_pair(&h, s) } else { H::hash_pair(s, &h) };
                }
                Ok(if h == root { ProofVerifyResult::PassedDecisively } else { ProofVerifyResult::Failed })
            }
        }
    }
}
