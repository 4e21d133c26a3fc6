#![allow(unused_imports,dead_code,unused_variables,unused_mut,unused_parens,non_snake_case,unused_braces,unused_assignments,unreachable_code,unused_labels)]
use vstd::prelude::*;
verus! {
//@include prelude.vrs
