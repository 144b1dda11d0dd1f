//! Archives, their copies and what they own.
use crate::archives::*;
use flatdata::*;
use std::rc::Rc;

pub fn r_mem_dyn(s: Rc<MemoryResourceStorage>) -> Rc<ResourceStorage> {
    s
}
pub fn r_file_dyn(s: Rc<FileResourceStorage>) -> Rc<ResourceStorage> {
    s
}
pub fn r_mem_ref(s: &MemoryResourceStorage) -> &ResourceStorage {
    s
}
pub fn r_file_ref(s: &FileResourceStorage) -> &ResourceStorage {
    s
}
pub fn r_dyn_exists(s: &ResourceStorage, name: &str) -> bool {
    s.exists(name)
}
pub fn r_mem_twin(s: &Rc<MemoryResourceStorage>) -> Rc<ResourceStorage> {
    s.clone()
}
pub fn r_file_twin(s: &Rc<FileResourceStorage>) -> Rc<ResourceStorage> {
    s.clone()
}

macro_rules! keep {
    ($A:ident, $B:ident, $clone:ident, $drop:ident, $bclone:ident, $bdrop:ident) => {
        pub fn $clone(a: &$A) -> $A {
            a.clone()
        }
        pub fn $drop(a: $A) {
            drop(a)
        }
        pub fn $bclone(a: &$B) -> $B {
            a.clone()
        }
        pub fn $bdrop(a: $B) {
            drop(a)
        }
    };
}
keep!(Inner, InnerBuilder, r_inner_clone, r_inner_drop, r_innerb_clone, r_innerb_drop);
keep!(Plain, PlainBuilder, r_plain_clone, r_plain_drop, r_plainb_clone, r_plainb_drop);
keep!(Opt, OptBuilder, r_opt_clone, r_opt_drop, r_optb_clone, r_optb_drop);
keep!(Mixed, MixedBuilder, r_mixed_clone, r_mixed_drop, r_mixedb_clone, r_mixedb_drop);
keep!(Empty, EmptyBuilder, r_empty_clone, r_empty_drop, r_emptyb_clone, r_emptyb_drop);
