//! Harness FFI objects.  Their generated code calls into the `vrt` runtime crate.
use proc_macro2::TokenStream;
use protospec_build::asg::*;
use protospec_build::*;
use quote::quote;

fn u8t() -> Type { Type::Scalar(ScalarType::U8.into()) }
fn u64t() -> Type { Type::Scalar(ScalarType::U64.into()) }
fn arg(name: &str, t: Option<Type>, optional: bool) -> FFIArgument {
    FFIArgument { name: name.to_string(), type_: t, optional }
}

pub struct XAdd;
impl ForeignTransform for XAdd {
    fn decoding_gen(&self, s: TokenStream, a: Vec<TokenStream>, is_async: bool) -> TokenStream {
        let k = a.into_iter().next().unwrap_or_else(|| quote! { 1u8 });
        if is_async { quote! { vrt::a::MapR::new(#s, 0, #k) } } else { quote! { vrt::MapR::new(#s, 0, #k) } }
    }
    fn encoding_gen(&self, s: TokenStream, a: Vec<TokenStream>, is_async: bool) -> TokenStream {
        let k = a.into_iter().next().unwrap_or_else(|| quote! { 1u8 });
        // `#s` may be a `&mut W` binding or an owned stream: vrt_rb reborrows either
        if is_async { quote! { vrt::a::MapW::new({ use vrt::Rb as _; #s.vrt_rb() }, 0, #k) } } else { quote! { vrt::MapW::new({ use vrt::Rb as _; #s.vrt_rb() }, 0, #k) } }
    }
    fn arguments(&self) -> Vec<FFIArgument> { vec![arg("k", Some(u8t()), true)] }
}

pub struct XXor;
impl ForeignTransform for XXor {
    fn decoding_gen(&self, s: TokenStream, a: Vec<TokenStream>, is_async: bool) -> TokenStream {
        let k = a.into_iter().next().unwrap();
        if is_async { quote! { vrt::a::MapR::new(#s, 1, #k) } } else { quote! { vrt::MapR::new(#s, 1, #k) } }
    }
    fn encoding_gen(&self, s: TokenStream, a: Vec<TokenStream>, is_async: bool) -> TokenStream {
        let k = a.into_iter().next().unwrap();
        if is_async { quote! { vrt::a::MapW::new({ use vrt::Rb as _; #s.vrt_rb() }, 1, #k) } } else { quote! { vrt::MapW::new({ use vrt::Rb as _; #s.vrt_rb() }, 1, #k) } }
    }
    fn arguments(&self) -> Vec<FFIArgument> { vec![arg("k", Some(u8t()), false)] }
}

/// frame(tag, mask?): buffers until flush, then writes [tag, len, payload ^ mask]
pub struct Frame;
impl ForeignTransform for Frame {
    fn decoding_gen(&self, s: TokenStream, a: Vec<TokenStream>, is_async: bool) -> TokenStream {
        let mut a = a.into_iter();
        let t = a.next().unwrap();
        let m = a.next().unwrap_or_else(|| quote! { 0u8 });
        if is_async { quote! { vrt::a::frame_r(#s, #t, #m).await? } } else { quote! { vrt::frame_r(#s, #t, #m)? } }
    }
    fn encoding_gen(&self, s: TokenStream, a: Vec<TokenStream>, is_async: bool) -> TokenStream {
        let mut a = a.into_iter();
        let t = a.next().unwrap();
        let m = a.next().unwrap_or_else(|| quote! { 0u8 });
        if is_async { quote! { vrt::a::FrameW::new({ use vrt::Rb as _; #s.vrt_rb() }, #t, #m) } } else { quote! { vrt::FrameW::new({ use vrt::Rb as _; #s.vrt_rb() }, #t, #m) } }
    }
    fn arguments(&self) -> Vec<FFIArgument> {
        vec![arg("tag", Some(u8t()), false), arg("mask", Some(u8t()), true)]
    }
}

/// blob(len: u64, mask: u64 = 0): len raw bytes, each xored with the low byte of mask
pub struct Blob;
impl protospec_build::ffi::ForeignType for Blob {
    fn assignable_from(&self, _t: &Type) -> bool { false }
    fn assignable_to(&self, _t: &Type) -> bool { false }
    fn type_ref(&self) -> TokenStream { quote! { Vec<u8> } }
    fn decoding_gen(&self, source: TokenStream, out: TokenStream, a: Vec<TokenStream>, is_async: bool) -> TokenStream {
        let mut a = a.into_iter();
        let len = a.next().unwrap();
        let mask = a.next().unwrap_or_else(|| quote! { 0u64 });
        if is_async {
            quote! { let #out = { let mut t: Vec<u8> = vrt::blob_buf(#len); #source.read_exact(&mut t[..]).await?; vrt::blob_x(&mut t, #mask); t }; }
        } else {
            quote! { let #out = { let mut t: Vec<u8> = vrt::blob_buf(#len); #source.read_exact(&mut t[..])?; vrt::blob_x(&mut t, #mask); t }; }
        }
    }
    fn encoding_gen(&self, target: TokenStream, f: TokenStream, a: Vec<TokenStream>, is_async: bool) -> TokenStream {
        let mut a = a.into_iter();
        let _len = a.next().unwrap();
        let mask = a.next().unwrap_or_else(|| quote! { 0u64 });
        if is_async {
            quote! { { let mut t: Vec<u8> = #f.clone(); vrt::blob_x(&mut t, #mask); #target.write_all(&t[..]).await?; } }
        } else {
            quote! { { let mut t: Vec<u8> = #f.clone(); vrt::blob_x(&mut t, #mask); #target.write_all(&t[..])?; } }
        }
    }
    fn arguments(&self) -> Vec<TypeArgument> {
        vec![
            TypeArgument { name: "len".into(), type_: u64t(), default_value: None, can_resolve_auto: false },
            TypeArgument { name: "mask".into(), type_: u64t(), default_value: Some(0u64.into()), can_resolve_auto: false },
        ]
    }
    fn copyable(&self) -> bool { false }
}

/// odd8: one byte, an even byte is a decode error
pub struct Odd8;
impl protospec_build::ffi::ForeignType for Odd8 {
    fn assignable_from(&self, t: &Type) -> bool { u8t().assignable_from(t) }
    fn assignable_to(&self, t: &Type) -> bool { t.assignable_from(&u8t()) }
    fn type_ref(&self) -> TokenStream { quote! { u8 } }
    fn decoding_gen(&self, source: TokenStream, out: TokenStream, _a: Vec<TokenStream>, is_async: bool) -> TokenStream {
        if is_async {
            quote! { let #out = { let mut t = [0u8; 1]; #source.read_exact(&mut t[..]).await?; vrt::odd8(t[0])? }; }
        } else {
            quote! { let #out = { let mut t = [0u8; 1]; #source.read_exact(&mut t[..])?; vrt::odd8(t[0])? }; }
        }
    }
    fn encoding_gen(&self, target: TokenStream, f: TokenStream, _a: Vec<TokenStream>, is_async: bool) -> TokenStream {
        if is_async {
            quote! { #target.write_all(&[vrt::odd8(#f.clone())?]).await?; }
        } else {
            quote! { #target.write_all(&[vrt::odd8(#f.clone())?])?; }
        }
    }
    fn arguments(&self) -> Vec<TypeArgument> { vec![] }
    fn copyable(&self) -> bool { true }
}

/// fmix(a: u64, b: u64, c?: u64) -> u64 = (a ^ b) + (c or 5), wrapping
pub struct FMix;
impl ForeignFunction for FMix {
    fn arguments(&self) -> Vec<FFIArgument> {
        vec![arg("a", Some(u64t()), false), arg("b", Some(u64t()), false), arg("c", Some(u64t()), true)]
    }
    fn return_type(&self) -> Type { u64t() }
    fn call(&self, a: &[FFIArgumentValue]) -> TokenStream {
        let x = &a[0].value;
        let y = &a[1].value;
        if a[2].present {
            let z = &a[2].value;
            quote! { vrt::fmix(#x, #y, Some(#z)) }
        } else {
            quote! { vrt::fmix(#x, #y, None) }
        }
    }
}

pub struct IsEven;
impl ForeignFunction for IsEven {
    fn arguments(&self) -> Vec<FFIArgument> { vec![arg("a", Some(u64t()), false)] }
    fn return_type(&self) -> Type { Type::Bool }
    fn call(&self, a: &[FFIArgumentValue]) -> TokenStream {
        let x = &a[0].value;
        quote! { vrt::is_even(#x) }
    }
}
