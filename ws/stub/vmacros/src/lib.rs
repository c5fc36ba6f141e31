//! Offline stand-ins for the FRAME / SCALE procedural macros, so that the unmodified sources under
//! /repo compile against the `vstub` environment model. None of these macros looks at, changes or
//! drops executable code of the pallets: they only generate the glue FRAME would generate.
extern crate proc_macro;
use proc_macro::TokenStream;
use proc_macro2::{Span, TokenStream as TS};
use quote::{format_ident, quote, ToTokens};
use syn::{parse_quote, spanned::Spanned, *};

mod derives;
mod items;
mod pallet;
mod precompile;

#[proc_macro_attribute]
pub fn pallet(attr: TokenStream, item: TokenStream) -> TokenStream {
	pallet::expand(attr.into(), parse_macro_input!(item as ItemMod)).into()
}
#[proc_macro]
pub fn items(i: TokenStream) -> TokenStream {
	items::expand(parse_macro_input!(i as items::Args)).into()
}
/// `#[frame_support::transactional]`: roll back storage when the body returns Err.
#[proc_macro_attribute]
pub fn transactional(_attr: TokenStream, item: TokenStream) -> TokenStream {
	pallet::transactional(parse_macro_input!(item as ItemFn)).into()
}
#[proc_macro_attribute]
pub fn require_transactional(_attr: TokenStream, item: TokenStream) -> TokenStream {
	item
}
#[proc_macro_attribute]
pub fn storage_alias(_attr: TokenStream, item: TokenStream) -> TokenStream {
	pallet::storage_alias(parse_macro_input!(item as ItemType)).into()
}
#[proc_macro_derive(Encode, attributes(codec))]
pub fn encode(i: TokenStream) -> TokenStream {
	derives::encode(parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(Decode, attributes(codec))]
pub fn decode(i: TokenStream) -> TokenStream {
	derives::decode(parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(MaxEncodedLen, attributes(codec))]
pub fn mel(_i: TokenStream) -> TokenStream {
	TokenStream::new()
}
#[proc_macro_derive(TypeInfo, attributes(scale_info))]
pub fn type_info(_i: TokenStream) -> TokenStream {
	TokenStream::new()
}
#[proc_macro_derive(RuntimeDebug)]
pub fn runtime_debug(i: TokenStream) -> TokenStream {
	derives::debug(parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(RuntimeDebugNoBound)]
pub fn runtime_debug_nb(i: TokenStream) -> TokenStream {
	derives::debug(parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(DebugNoBound)]
pub fn debug_nb(i: TokenStream) -> TokenStream {
	derives::debug(parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(CloneNoBound)]
pub fn clone_nb(i: TokenStream) -> TokenStream {
	derives::clone(parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(PartialEqNoBound)]
pub fn partial_eq_nb(i: TokenStream) -> TokenStream {
	derives::partial_eq(parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(EqNoBound)]
pub fn eq_nb(i: TokenStream) -> TokenStream {
	let i = parse_macro_input!(i as DeriveInput);
	let (ig, tg, wc) = i.generics.split_for_impl();
	let n = &i.ident;
	quote!(impl #ig ::core::cmp::Eq for #n #tg #wc {}).into()
}
#[proc_macro_derive(DefaultNoBound, attributes(default))]
pub fn default_nb(i: TokenStream) -> TokenStream {
	derives::default(parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_attribute]
pub fn nop_attr(_attr: TokenStream, item: TokenStream) -> TokenStream {
	item
}
#[proc_macro]
pub fn paste(i: TokenStream) -> TokenStream {
	precompile::paste(i.into()).into()
}
#[proc_macro_attribute]
pub fn impl_for_tuples(attr: TokenStream, item: TokenStream) -> TokenStream {
	precompile::impl_for_tuples(attr.into(), item.into()).into()
}
#[proc_macro_derive(TryFromPrimitive, attributes(num_enum))]
pub fn try_from_primitive(i: TokenStream) -> TokenStream {
	precompile::try_from_primitive(parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(IntoPrimitive, attributes(num_enum))]
pub fn into_primitive(i: TokenStream) -> TokenStream {
	precompile::into_primitive(parse_macro_input!(i as DeriveInput)).into()
}

pub(crate) fn _unused(_: Span, _: TS) -> Ident {
	format_ident!("x")
}
#[allow(unused)]
fn _t(t: &dyn ToTokens, e: Expr) -> impl Spanned {
	let _: Type = parse_quote!(u8);
	let _ = t;
	e
}
