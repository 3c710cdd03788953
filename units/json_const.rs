#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/jv.rs
//@ include prelude/jsonlike.rs
//@ include prelude/keytext.rs
//@ include prelude/lookup.rs
//@ include prelude/map.rs MAP=HashMap MOD=m_hash KEEP=false
//@ include prelude/groupby.rs
//@ include prelude/groupby_stub.rs
//@ include prelude/textmap.rs MAP=IndexMap MOD=m_map
//@ include prelude/json_graphql.rs T=ConstValue OTHER=Binary
