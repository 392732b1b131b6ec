//! Driving the crate under test in process.

use proc_macro2::TokenStream;
use protospec_build::*;
use quote::quote;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// foreign things of the harness itself, and a map of importable files
#[derive(Clone, Default)]
pub struct Res {
    pub files: HashMap<String, String>,
}

struct X {
    f: &'static str,
}
impl ForeignTransform for X {
    fn decoding_gen(&self, input: TokenStream, args: Vec<TokenStream>, is_async: bool) -> TokenStream {
        let f = quote::format_ident!("{}", self.f);
        let k = args.into_iter().next().unwrap_or_else(|| quote! { 0u8 });
        if is_async {
            quote! { rt_async::xf::Rd::#f(#input, (#k) as u64) }
        } else {
            quote! { rt::xf::Rd::#f(#input, (#k) as u64) }
        }
    }
    fn encoding_gen(&self, input: TokenStream, args: Vec<TokenStream>, is_async: bool) -> TokenStream {
        let f = quote::format_ident!("{}", self.f);
        let k = args.into_iter().next().unwrap_or_else(|| quote! { 0u8 });
        if is_async {
            quote! { rt_async::xf::W::#f(#input, (#k) as u64) }
        } else {
            quote! { rt::xf::W::#f(#input, (#k) as u64) }
        }
    }
    fn arguments(&self) -> Vec<FFIArgument> {
        vec![FFIArgument {
            name: "key".to_string(),
            type_: Some(asg::Type::Scalar(ScalarType::U8.into())),
            optional: true,
        }]
    }
}

impl ImportResolver for Res {
    fn normalize_import(&self, import: &str) -> Result<String> {
        Ok(import.trim_start_matches("./").to_string())
    }
    fn resolve_import(&self, import: &str) -> Result<Option<String>> {
        Ok(self.files.get(import).cloned())
    }
    fn resolve_ffi_transform(&self, t: &str) -> Result<Option<ForeignTransformObj>> {
        Ok(match t {
            "xadd" => Some(Box::new(X { f: "add" })),
            "xmul" => Some(Box::new(X { f: "mul" })),
            _ => None,
        })
    }
    fn resolve_ffi_type(&self, _: &str) -> Result<Option<ForeignTypeObj>> {
        Ok(None)
    }
    fn resolve_ffi_function(&self, _: &str) -> Result<Option<ForeignFunctionObj>> {
        Ok(None)
    }
    fn prelude_ffi_functions(&self) -> Result<HashMap<String, ForeignFunctionObj>> {
        Ok(HashMap::new())
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stage {
    Parse(String),
    Sema(String),
    Panic(String),
}
impl std::fmt::Display for Stage {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Stage::Parse(s) => write!(f, "parse error: {}", s),
            Stage::Sema(s) => write!(f, "semantic error: {}", s),
            Stage::Panic(s) => write!(f, "the compiler panicked: {}", s),
        }
    }
}

pub fn quiet<T>(f: impl FnOnce() -> T) -> std::result::Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "?".into()
        }
    })
}

pub fn options() -> CompileOptions {
    CompileOptions::default()
}

pub fn analyse(text: &str, res: &Res) -> std::result::Result<asg::Program, Stage> {
    quiet(|| -> std::result::Result<asg::Program, Stage> {
        let p = parse(text).map_err(|e| Stage::Parse(e.to_string()))?;
        asg::Program::from_ast(&p, &PreludeImportResolver(res.clone())).map_err(|e| Stage::Sema(e.to_string()))
    })
    .unwrap_or_else(|p| Err(Stage::Panic(p)))
}

pub fn compile(text: &str, res: &Res, opts: &CompileOptions) -> std::result::Result<String, Stage> {
    let p = analyse(text, res)?;
    quiet(|| compile_program(&p, opts).to_string()).map_err(Stage::Panic)
}
