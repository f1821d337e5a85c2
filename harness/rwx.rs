// @attach server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
// @feature p12
// @native
//! P12: SDSS files over real files.
use super::*;
use crate::engine::storage::common::interface::fs::__vp_fsx as fsx;
pub fn create<S: FileSpecV1<EncodeArgs = ()>>(path: &str) -> RuntimeResult<SdssFile<S>> { let mut f = fsx::local_create(path)?; let md = S::write_metadata(&mut f, ())?; Ok(SdssFile::new(f, md)) }
pub fn open<S: FileSpecV1<DecodeArgs = ()>>(path: &str) -> RuntimeResult<SdssFile<S>> { let mut f = fsx::local_open(path)?; let md = S::read_metadata(&mut f, ())?; Ok(SdssFile::new(f, md)) }
