// @attach server/src/engine/core/model/alt.rs
// @feature p18
//! access to the private plan functions for harness/field.rs
use super::*;
pub fn ldeltas<'a>(current: &Field, layers: Vec<LayerSpec<'a>>, nullable: bool, nl: &mut bool, ok: &mut bool) -> QueryResult<(bool, Field)> { AlterPlan::ldeltas(current, layers, nullable, nl, ok) }
