//! Stand-in for `merkletree-mintlayer` (not in the offline cargo cache): a perfect binary Merkle tree
//! whose leaf level is padded to a power of two by repeatedly hashing the last leaf on its own.
//! /repo's own fixed root vectors pin this behaviour (see tools/validate_shims.sh).

pub mod hasher {
    pub trait PairHasher: Clone {
        type NodeType;
        fn hash_pair(left: &Self::NodeType, right: &Self::NodeType) -> Self::NodeType;
        fn hash_single(data: &Self::NodeType) -> Self::NodeType;
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum MerkleTreeFormError {
    TooSmall(usize),
    TooLarge(usize),
}
impl std::fmt::Display for MerkleTreeFormError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for MerkleTreeFormError {}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum MerkleTreeProofExtractionError {
    NoLeavesToCreateProof,
    IndexOutOfRange(u32, u32),
}
impl std::fmt::Display for MerkleTreeProofExtractionError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for MerkleTreeProofExtractionError {}

pub mod tree {
    use super::{hasher::PairHasher, MerkleTreeFormError};
    use std::num::NonZeroU32;

    #[must_use]
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct MerkleTree<T, H> {
        /// levels[0] is the leaf level.
        pub(crate) levels: Vec<Vec<T>>,
        _h: std::marker::PhantomData<H>,
    }

    #[derive(Debug, Clone, Copy)]
    pub struct Node<'a, T>(&'a T);
    impl<'a, T> Node<'a, T> {
        pub fn hash(&self) -> &'a T {
            self.0
        }
    }

    impl<T: Clone, H: PairHasher<NodeType = T>> MerkleTree<T, H> {
        pub fn from_leaves(
            leaves: impl IntoIterator<Item = T>,
        ) -> Result<Self, MerkleTreeFormError> {
            let mut l: Vec<T> = leaves.into_iter().collect();
            if l.is_empty() {
                return Err(MerkleTreeFormError::TooSmall(0));
            }
            if l.len() > 1 << 31 {
                return Err(MerkleTreeFormError::TooLarge(l.len()));
            }
            let n = l.len().next_power_of_two();
            while l.len() < n {
                let next = H::hash_single(l.last().expect("non-empty"));
                l.push(next);
            }
            let mut levels = vec![l];
            while levels.last().expect("non-empty").len() > 1 {
                let next = levels
                    .last()
                    .expect("non-empty")
                    .chunks(2)
                    .map(|p| H::hash_pair(&p[0], &p[1]))
                    .collect();
                levels.push(next);
            }
            Ok(Self {
                levels,
                _h: std::marker::PhantomData,
            })
        }
        pub fn root(&self) -> T {
            self.levels.last().expect("non-empty")[0].clone()
        }
        pub fn leaf_count(&self) -> NonZeroU32 {
            NonZeroU32::new(self.levels[0].len() as u32).expect("non-empty")
        }
        pub fn level_count(&self) -> NonZeroU32 {
            NonZeroU32::new(self.levels.len() as u32).expect("non-empty")
        }
        pub fn total_node_count(&self) -> NonZeroU32 {
            NonZeroU32::new(self.levels.iter().map(|l| l.len() as u32).sum()).expect("non-empty")
        }
        pub fn node_from_bottom(&self, level: u32, index: u32) -> Option<Node<'_, T>> {
            self.levels.get(level as usize)?.get(index as usize).map(Node)
        }
    }
}

pub mod proof {
    pub mod verify_result {
        #[must_use]
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub enum ProofVerifyResult {
            PassedTrivially,
            PassedDecisively,
            Failed,
        }
        impl ProofVerifyResult {
            pub fn passed_trivially(&self) -> bool {
                *self == Self::PassedTrivially
            }
            pub fn passed_decisively(&self) -> bool {
                *self == Self::PassedDecisively
            }
            pub fn failed(&self) -> bool {
                *self == Self::Failed
            }
        }
    }
    pub mod single {
        use super::verify_result::ProofVerifyResult;
        use crate::{hasher::PairHasher, tree::MerkleTree, MerkleTreeProofExtractionError};

        #[must_use]
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct SingleProofNodes<'a, T, H> {
            tree: &'a MerkleTree<T, H>,
            index: u32,
        }
        impl<'a, T: Clone + Eq, H: PairHasher<NodeType = T>> SingleProofNodes<'a, T, H> {
            pub fn from_tree_leaf(
                tree: &'a MerkleTree<T, H>,
                index: u32,
            ) -> Result<Self, MerkleTreeProofExtractionError> {
                let n = tree.leaf_count().get();
                if index >= n {
                    return Err(MerkleTreeProofExtractionError::IndexOutOfRange(index, n));
                }
                Ok(Self { tree, index })
            }
            pub fn into_values(self) -> SingleProofHashes<T, H> {
                let branch = (0..self.tree.levels.len() - 1)
                    .map(|l| self.tree.levels[l][((self.index >> l) ^ 1) as usize].clone())
                    .collect();
                SingleProofHashes {
                    leaf_index_in_level: self.index,
                    branch,
                    _h: std::marker::PhantomData,
                }
            }
        }

        #[must_use]
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct SingleProofHashes<T, H> {
            leaf_index_in_level: u32,
            branch: Vec<T>,
            _h: std::marker::PhantomData<H>,
        }
        impl<T: Clone + Eq, H: PairHasher<NodeType = T>> SingleProofHashes<T, H> {
            pub fn leaf_index_in_level(&self) -> u32 {
                self.leaf_index_in_level
            }
            pub fn branch(&self) -> &[T] {
                &self.branch
            }
            pub fn into_hashes(self) -> Vec<T> {
                self.branch
            }
            pub fn verify(&self, leaf: T, root: T) -> ProofVerifyResult {
                if self.branch.is_empty() {
                    return if leaf == root {
                        ProofVerifyResult::PassedTrivially
                    } else {
                        ProofVerifyResult::Failed
                    };
                }
                let mut h = leaf;
                let mut i = self.leaf_index_in_level;
                for b in &self.branch {
                    h = if i % 2 == 0 {
                        H::hash_pair(&h, b)
                    } else {
                        H::hash_pair(b, &h)
                    };
                    i /= 2;
                }
                if h == root {
                    ProofVerifyResult::PassedDecisively
                } else {
                    ProofVerifyResult::Failed
                }
            }
        }
    }
}
