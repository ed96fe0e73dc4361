//! User-registered functions for the four evaluating crates, over one neutral value type.
use crate::adapt::Cr;
use crate::entry::Envs;
use crate::model::{Sig, Ty};
use serde_json::Value;
use std::sync::Arc;

/// what a registered function received
#[derive(Clone, Debug, PartialEq)]
pub enum NArg {
    Nothing,
    Null,
    Bool(bool),
    Int(i128),
    Float(f64),
    Str(String),
    /// an array or object, and the address of the document node it is
    Json(Value, usize),
    /// addresses of the nodes
    Nodes(Vec<usize>),
}
/// what it answers
#[derive(Clone, Debug, PartialEq)]
pub enum NRet {
    Nothing,
    Null,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(String),
    /// the value given as argument k, unchanged
    Arg(usize),
    /// the nodes given as argument k: those at these positions, in this order
    Nodes(usize, Vec<usize>),
    NoNodes,
}
pub type Body = dyn Fn(&str, &[NArg]) -> NRet + Send + Sync;

macro_rules! functions {
    ($m:ident, $krate:ident, $res:path, $deref:expr) => {
        pub mod $m {
            use super::*;
            use $krate::function::{ExpressionType, FunctionExtension, FunctionSignature};
            use $res as R;
            pub struct F {
                pub name: String,
                pub sig: Sig,
                pub body: Arc<Body>,
            }
            impl std::fmt::Debug for F {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str(&self.name)
                }
            }
            fn ty(t: Ty) -> ExpressionType {
                match t {
                    Ty::Value => ExpressionType::Value,
                    Ty::Logical => ExpressionType::Logical,
                    Ty::Nodes => ExpressionType::Nodes,
                }
            }
            impl FunctionExtension for F {
                fn call<'a>(&self, args: Vec<R<'a>>) -> R<'a> {
                    let seen: Vec<NArg> = args
                        .iter()
                        .map(|a| match a {
                            R::Nothing => NArg::Nothing,
                            R::Null => NArg::Null,
                            R::Bool(b) => NArg::Bool(*b),
                            R::Int(i) => NArg::Int(*i as i128),
                            R::Float(f) => NArg::Float(*f),
                            R::String(s) => NArg::Str(s.to_string()),
                            R::Array(v) | R::Object(v) => NArg::Json((*v).clone(), *v as *const Value as usize),
                            R::Nodes(n) => NArg::Nodes(n.iter().map(|n| n.value as *const Value as usize).collect()),
                            #[allow(unreachable_patterns)]
                            _ => NArg::Str("argument of an unknown kind".into()),
                        })
                        .collect();
                    let ret = (self.body)(&self.name, &seen);
                    let mut args: Vec<Option<R<'a>>> = args.into_iter().map(Some).collect();
                    match ret {
                        NRet::Nothing => R::Nothing,
                        NRet::Null => R::Null,
                        NRet::Bool(b) => R::Bool(b),
                        NRet::Int(i) => R::Int(i),
                        NRet::Float(f) => R::Float(f),
                        NRet::Str(s) => R::String(s.into()),
                        NRet::Arg(k) => args.get_mut(k).and_then(|a| a.take()).unwrap_or(R::Nothing),
                        NRet::Nodes(k, keep) => match args.get_mut(k).and_then(|a| a.take()) {
                            Some(R::Nodes(n)) => {
                                let mut n: Vec<_> = n.into_iter().map(Some).collect();
                                R::Nodes(keep.into_iter().filter_map(|i| n.get_mut(i).and_then(|x| x.take())).collect())
                            }
                            _ => R::Nodes(Vec::new()),
                        },
                        NRet::NoNodes => R::Nodes(Vec::new()),
                    }
                }
                fn sig(&self) -> FunctionSignature {
                    FunctionSignature { param_types: self.sig.0.iter().map(|t| ty(*t)).collect(), return_type: ty(self.sig.1) }
                }
            }
            pub fn env(sigs: &[(String, Sig)], body: &Arc<Body>) -> &'static $krate::env::Environment {
                let mut e = $krate::env::Environment::new();
                for (n, s) in sigs {
                    e.function_register.insert(n.clone(), Box::new(F { name: n.clone(), sig: s.clone(), body: body.clone() }));
                }
                Box::leak(Box::new(e))
            }
        }
    };
}
functions!(serde, jsonpath_rfc9535_serde, jsonpath_rfc9535_serde::ast::FilterExpressionResult, ());
functions!(iter, jsonpath_rfc9535_iter, jsonpath_rfc9535_iter::filter::FilterExpressionResult, ());
functions!(loc, jsonpath_rfc9535_locations, jsonpath_rfc9535_locations::filter::FilterExpressionResult, ());
functions!(sing, jsonpath_rfc9535_singular, jsonpath_rfc9535_singular::filter::FilterExpressionResult, ());

/// environments with the standard functions and these (which replace standard ones of the same name)
pub fn envs(sigs: &[(String, Sig)], body: &dyn Fn(Cr) -> Arc<Body>) -> Envs {
    Envs {
        serde: serde::env(sigs, &body(Cr::Serde)),
        iter: iter::env(sigs, &body(Cr::Iter)),
        loc: loc::env(sigs, &body(Cr::Loc)),
        sing: sing::env(sigs, &body(Cr::Sing)),
    }
}
