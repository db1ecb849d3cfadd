use protospec_build::asg::*;
use protospec_build::*;
use proc_macro2::TokenStream;
use quote::quote;
struct Add;
impl ForeignTransform for Add {
    fn decoding_gen(&self, s: TokenStream, a: Vec<TokenStream>, _: bool) -> TokenStream {
        let k = a.into_iter().next().unwrap_or_else(|| quote! { 1u8 });
        quote! { crate::AddR::new(#s, #k) }
    }
    fn encoding_gen(&self, s: TokenStream, a: Vec<TokenStream>, _: bool) -> TokenStream {
        let k = a.into_iter().next().unwrap_or_else(|| quote! { 1u8 });
        quote! { crate::AddW::new(#s.by_ref(), #k) }
    }
    fn arguments(&self) -> Vec<FFIArgument> {
        vec![FFIArgument { name: "k".to_string(), type_: Some(Type::Scalar(ScalarType::U8.into())), optional: true }]
    }
}
struct Res;
impl ImportResolver for Res {
    fn normalize_import(&self, import: &str) -> Result<String> { Ok(import.to_string()) }
    fn resolve_import(&self, _: &str) -> Result<Option<String>> { Ok(None) }
    fn resolve_ffi_transform(&self, name: &str) -> Result<Option<ForeignTransformObj>> {
        Ok(if name == "addk" { Some(Box::new(Add)) } else { None })
    }
    fn resolve_ffi_type(&self, _: &str) -> Result<Option<ForeignTypeObj>> { Ok(None) }
    fn resolve_ffi_function(&self, _: &str) -> Result<Option<ForeignFunctionObj>> { Ok(None) }
    fn prelude_ffi_functions(&self) -> Result<std::collections::HashMap<String, ForeignFunctionObj>> { Ok(Default::default()) }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let ast = match parse(&text) { Ok(x) => x, Err(e) => { println!("parse: {}", e); std::process::exit(1) } };
    let p = match asg::Program::from_ast(&ast, &PreludeImportResolver(Res)) { Ok(x) => x, Err(e) => { println!("semantics: {}", e); std::process::exit(1) } };
    let o = CompileOptions::default();
    std::fs::write(&a[2], compile_program(&p, &o).to_string()).unwrap();
}
