use crate::*;
use syn::visit_mut::VisitMut;

fn is_pallet_attr(a: &Attribute) -> bool {
	a.path().segments.first().map_or(false, |s| s.ident == "pallet") && a.path().segments.len() == 2
}
fn pallet_attr(a: &Attribute) -> Option<String> {
	if is_pallet_attr(a) {
		Some(a.path().segments[1].ident.to_string())
	} else {
		None
	}
}
fn attrs_of(i: &mut Item) -> Option<&mut Vec<Attribute>> {
	Some(match i {
		Item::Struct(x) => &mut x.attrs,
		Item::Enum(x) => &mut x.attrs,
		Item::Trait(x) => &mut x.attrs,
		Item::Type(x) => &mut x.attrs,
		Item::Impl(x) => &mut x.attrs,
		Item::Fn(x) => &mut x.attrs,
		Item::Const(x) => &mut x.attrs,
		Item::Mod(x) => &mut x.attrs,
		Item::Use(x) => &mut x.attrs,
		Item::Static(x) => &mut x.attrs,
		_ => return None,
	})
}
struct Strip;
impl VisitMut for Strip {
	fn visit_attributes_mut(&mut self, v: &mut Vec<Attribute>) {
		v.retain(|a| !is_pallet_attr(a));
	}
}
fn getter_name(a: &Attribute) -> Option<Ident> {
	if let Meta::List(l) = &a.meta {
		let t: Vec<_> = l.tokens.clone().into_iter().collect();
		return t.last().map(|x| format_ident!("{}", x.to_string()));
	}
	None
}
fn set_prefix(ty: &mut Type, prefix: Type) -> (String, Vec<Type>) {
	if let Type::Path(p) = ty {
		let seg = p.path.segments.last_mut().unwrap();
		let kind = seg.ident.to_string();
		if let PathArguments::AngleBracketed(ab) = &mut seg.arguments {
			let mut named = false;
			for a in ab.args.iter() {
				if matches!(a, GenericArgument::AssocType(_)) {
					named = true;
				}
			}
			if named {
				// StorageMap<Hasher = .., Key = .., Value = .., QueryKind = .., OnEmpty = ..>
				let get = |n: &str| {
					ab.args.iter().find_map(|a| match a {
						GenericArgument::AssocType(t) if t.ident == n => Some(t.ty.clone()),
						_ => None,
					})
				};
				let mut out: Vec<Type> = vec![prefix];
				for n in ["Hasher", "Hasher1", "Key1", "Hasher2", "Key2", "Key", "Value", "QueryKind", "OnEmpty", "MaxValues"] {
					if n == "Hasher" && kind == "StorageDoubleMap" {
						continue;
					}
					if let Some(t) = get(n) {
						out.push(t);
					}
				}
				ab.args = out.iter().map(|t| GenericArgument::Type(t.clone())).collect();
				return (kind, out);
			}
			if let Some(f) = ab.args.first_mut() {
				*f = GenericArgument::Type(prefix);
			}
			let tys = ab
				.args
				.iter()
				.filter_map(|a| if let GenericArgument::Type(t) = a { Some(t.clone()) } else { None })
				.collect();
			return (kind, tys);
		}
	}
	panic!("unsupported storage type")
}
fn prefix_def(pref: &Ident, g: &Generics, vis: &TS) -> TS {
	let params: Vec<Ident> = g.type_params().map(|p| p.ident.clone()).collect();
	let name = pref.to_string();
	let ph = if params.is_empty() { quote!(()) } else { quote!((#(#params,)*)) };
	let gen = if params.is_empty() { quote!() } else { quote!(<#(#params),*>) };
	quote! {
		#[doc(hidden)] #[allow(non_camel_case_types)]
		#vis struct #pref #gen (::core::marker::PhantomData<#ph>);
		impl #gen ::frame_support::traits::StorageInstance for #pref #gen {
			const STORAGE_PREFIX: &'static str = #name;
			fn slot() -> &'static mut ::frame_support::storage::Slot {
				static mut SLOT: ::frame_support::storage::Slot = ::frame_support::storage::Slot::NEW;
				unsafe { &mut *::core::ptr::addr_of_mut!(SLOT) }
			}
		}
	}
}
pub fn storage_alias(mut t: ItemType) -> TS {
	let pref = format_ident!("_GeneratedAliasPrefix{}", t.ident);
	let params: Vec<Ident> = t.generics.type_params().map(|p| p.ident.clone()).collect();
	let gen = if params.is_empty() { quote!() } else { quote!(<#(#params),*>) };
	set_prefix(&mut t.ty, parse_quote!(#pref #gen));
	let d = prefix_def(&pref, &t.generics, &quote!(pub));
	quote!(#d #[allow(type_alias_bounds)] #t)
}
pub fn transactional(mut f: ItemFn) -> TS {
	let out = match &f.sig.output {
		ReturnType::Default => quote!(()),
		ReturnType::Type(_, t) => quote!(#t),
	};
	let body = &f.block;
	f.block = parse_quote!({
		let __mark = ::frame_support::storage::begin();
		let __res: #out = (move || -> #out #body)();
		::frame_support::storage::end(__mark, __res.is_ok());
		__res
	});
	quote!(#f)
}

pub fn expand(attr: TS, mut m: ItemMod) -> TS {
	let _ = attr;
	let (_, items) = m.content.take().expect("inline module");
	let mut out: Vec<TS> = vec![];
	// where clause and generics of Config
	let mut cfg_where: Option<WhereClause> = None;
	for i in &items {
		if let Item::Trait(t) = i {
			if t.attrs.iter().any(|a| pallet_attr(a).as_deref() == Some("config")) {
				cfg_where = t.generics.where_clause.clone().map(|mut w| {
					for p in w.predicates.iter_mut() {
						*p = self_to_t(p);
					}
					w
				});
			}
		}
	}
	let wc = cfg_where.clone().map(|w| quote!(#w)).unwrap_or_default();
	let mut has_call = false;
	let mut deposit: Option<TS> = None;
	let mut event_generic = true;
	for mut it in items {
		let mut kinds: Vec<(String, Attribute)> = vec![];
		if let Some(a) = attrs_of(&mut it) {
			for x in a.iter() {
				if let Some(k) = pallet_attr(x) {
					kinds.push((k, x.clone()));
				}
			}
		}
		let has = |k: &str| kinds.iter().any(|x| x.0 == k);
		Strip.visit_item_mut(&mut it);
		if has("pallet") {
			if let Item::Struct(s) = &it {
				let n = &s.ident;
				let v = &s.vis;
				// the name a pallet bears in the runtime: pallet-fee-proxy -> FeeProxy
				let pkg = std::env::var("CARGO_PKG_NAME").unwrap_or_default();
				let name: String = pkg.trim_start_matches("pallet-").split('-').map(|w| w[..1].to_uppercase() + &w[1..]).collect();
				out.push(quote!(#v struct #n<T>(::core::marker::PhantomData<T>);
					impl<T> ::frame_support::traits::PalletInfoAccess for #n<T> {
						fn name() -> &'static str { #name }
					}
					impl<T: Config> ::frame_support::traits::GetStorageVersion for #n<T> #wc {
						fn current_storage_version() -> ::frame_support::traits::StorageVersion { ::frame_support::traits::StorageVersion::new(0) }
						fn on_chain_storage_version() -> ::frame_support::traits::StorageVersion { ::frame_support::traits::StorageVersion::get_raw() }
					}));
				continue;
			}
		}
		if has("storage") {
			if let Item::Type(mut t) = it {
				let pref = format_ident!("_GeneratedPrefixForStorage{}", t.ident);
				let params: Vec<Ident> = t.generics.type_params().map(|p| p.ident.clone()).collect();
				let gen = if params.is_empty() { quote!() } else { quote!(<#(#params),*>) };
				let (kind, _tys) = set_prefix(&mut t.ty, parse_quote!(#pref #gen));
				t.vis = parse_quote!(pub);
				out.push(prefix_def(&pref, &t.generics, &quote!(pub)));
				let name = &t.ident;
				let alias = quote!(#name #gen);
				let q = quote!(<#alias as ::frame_support::storage::StorageQuery>);
				if let Some(g) = kinds.iter().find(|x| x.0 == "getter").and_then(|x| getter_name(&x.1)) {
					let f = match kind.as_str() {
						"StorageValue" => quote!(pub fn #g() -> #q::Query { <#alias>::get() }),
						"StorageMap" | "CountedStorageMap" => quote!(
							pub fn #g<KA: ::codec::EncodeLike<#q::K1>>(k: KA) -> #q::Query { <#alias>::get(k) }),
						"StorageDoubleMap" => quote!(
							pub fn #g<KA: ::codec::EncodeLike<#q::K1>, KB: ::codec::EncodeLike<#q::K2>>(k1: KA, k2: KB) -> #q::Query { <#alias>::get(k1, k2) }),
						_ => quote!(
							pub fn #g<KA: ::codec::EncodeLike<#q::K1>>(k: KA) -> #q::Query { <#alias>::get(k) }),
					};
					out.push(quote!(impl<T: Config> Pallet<T> #wc { #f }));
				}
				// allow the bounds written in the alias
				out.push(quote!(#[allow(type_alias_bounds)] #t));
				continue;
			}
		}
		if has("type_value") {
			if let Item::Fn(f) = &it {
				let n = &f.sig.ident;
				let ret = match &f.sig.output {
					ReturnType::Type(_, t) => quote!(#t),
					_ => quote!(()),
				};
				let body = &f.block;
				let g = &f.sig.generics;
				if g.params.is_empty() {
					out.push(quote!(pub struct #n; impl ::frame_support::traits::Get<#ret> for #n { fn get() -> #ret #body }));
				} else {
					let (ig, tg, w) = g.split_for_impl();
					let ps: Vec<_> = g.type_params().map(|p| p.ident.clone()).collect();
					out.push(quote!(pub struct #n<#(#ps),*>(::core::marker::PhantomData<(#(#ps,)*)>);
						impl #ig ::frame_support::traits::Get<#ret> for #n #tg #w { fn get() -> #ret #body }));
				}
				continue;
			}
		}
		if has("event") {
			if let Item::Enum(mut e) = it {
				event_generic = e.generics.type_params().next().is_some();
				if event_generic {
					let ps: Vec<_> = e.generics.type_params().map(|p| p.ident.clone()).collect();
					e.variants.push(parse_quote!(#[doc(hidden)] __Ignore(::core::marker::PhantomData<(#(#ps,)*)>)));
				}
				if let Some((_, a)) = kinds.iter().find(|x| x.0 == "generate_deposit") {
					if let Meta::List(l) = &a.meta {
						deposit = Some(l.tokens.clone());
					}
				}
				let n = &e.ident;
				let (ig, tg, w) = e.generics.split_for_impl();
				out.push(quote!(#[derive(::frame_support::CloneNoBound, ::frame_support::PartialEqNoBound, ::frame_support::RuntimeDebugNoBound)] #[allow(dead_code)] #e
					impl #ig From<#n #tg> for () #w { fn from(_: #n #tg) {} }));
				continue;
			}
		}
		if has("error") {
			if let Item::Enum(mut e) = it {
				let n = e.ident.clone();
				let arms: Vec<TS> = e
					.variants
					.iter()
					.enumerate()
					.map(|(i, v)| {
						let vi = &v.ident;
						let s = vi.to_string();
						let i = i as u8;
						match v.fields {
							Fields::Unit => quote!(Error::#vi => (#i, #s)),
							Fields::Named(_) => quote!(Error::#vi{..} => (#i, #s)),
							_ => quote!(Error::#vi(..) => (#i, #s)),
						}
					})
					.collect();
				e.variants.push(parse_quote!(#[doc(hidden)] __Ignore(::core::marker::PhantomData<T>)));
				out.push(quote! {
					#e
					impl<T> Error<T> {
						#[doc(hidden)] pub fn __parts(&self) -> (u8, &'static str) { match self { #(#arms,)* Error::__Ignore(_) => (255, "") } }
					}
					impl<T> From<#n<T>> for ::sp_runtime::DispatchError {
						fn from(e: #n<T>) -> Self {
							let (ix, _msg) = e.__parts();
							::sp_runtime::DispatchError::Module(::sp_runtime::ModuleError { index: 0, error: [ix, 0, 0, 0], message: None })
						}
					}
					impl<T> From<#n<T>> for &'static str { fn from(e: #n<T>) -> Self { e.__parts().1 } }
					impl<T> PartialEq for #n<T> { fn eq(&self, o: &Self) -> bool { self.__parts().0 == o.__parts().0 } }
					impl<T> ::core::fmt::Debug for #n<T> { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(self.__parts().1) } }
				});
				continue;
			}
		}
		if has("call") {
			if let Item::Impl(mut im) = it {
				has_call = true;
				out.push(call_enum(&mut im, &wc));
				out.push(quote!(#im));
				continue;
			}
		}
		if has("genesis_config") {
			if let Item::Struct(mut s) = it {
				s.attrs.retain(|a| !a.path().is_ident("derive") || true);
				out.push(quote!(#s));
				continue;
			}
		}
		if has("config") {
			out.push(quote!(#it));
			continue;
		}
		// make inherent helper functions reachable from the harnesses
		if let Item::Impl(im) = &mut it {
			if im.trait_.is_none() {
				for x in im.items.iter_mut() {
					if let ImplItem::Fn(f) = x {
						f.vis = parse_quote!(pub);
					}
				}
			}
		}
		out.push(quote!(#it));
	}
	if let Some(d) = deposit {
		let toks: Vec<String> = d.clone().into_iter().map(|x| x.to_string()).collect();
		let name = format_ident!("{}", toks.last().unwrap());
		let ev = if event_generic { quote!(Event<T>) } else { quote!(Event) };
		out.push(quote!(impl<T: Config> Pallet<T> #wc { pub fn #name(event: impl Into<#ev>) { let _ = event.into(); } }));
	}
	if !has_call {
		out.push(quote!(
			#[derive(::frame_support::CloneNoBound, ::frame_support::PartialEqNoBound, ::frame_support::RuntimeDebugNoBound, ::codec::Encode, ::codec::Decode)]
			pub enum Call<T: Config> #wc { #[doc(hidden)] __Ignore(::core::marker::PhantomData<T>) }
		));
	}
	let vis = &m.vis;
	let id = &m.ident;
	let attrs = &m.attrs;
	quote! {
		#(#attrs)*
		#[allow(unused, dead_code, unused_imports, deprecated)]
		#vis mod #id {
			#(#out)*
		}
	}
}
fn self_to_t(p: &WherePredicate) -> WherePredicate {
	struct V;
	impl VisitMut for V {
		fn visit_ident_mut(&mut self, i: &mut Ident) {
			if i == "Self" {
				*i = format_ident!("T");
			}
		}
	}
	let mut p = p.clone();
	V.visit_where_predicate_mut(&mut p);
	p
}
fn call_enum(im: &mut ItemImpl, wc: &TS) -> TS {
	let mut vars = vec![];
	let mut arms = vec![];
	let mut ixs = vec![];
	let mut names = vec![];
	for (k, x) in im.items.iter_mut().enumerate() {
		if let ImplItem::Fn(f) = x {
			f.vis = parse_quote!(pub);
			let n = f.sig.ident.clone();
			let mut ns = vec![];
			let mut ts = vec![];
			for a in f.sig.inputs.iter_mut().skip(1) {
				if let FnArg::Typed(p) = a {
					p.attrs.retain(|a| !is_pallet_attr(a));
					let mut t = (*p.ty).clone();
					let mut id = match &*p.pat {
						Pat::Ident(i) => i.ident.clone(),
						_ => panic!("arg pattern"),
					};
					if id.to_string().starts_with('_') {
						id = format_ident!("{}", id.to_string().trim_start_matches('_'));
					}
					strip_mut(&mut t);
					ns.push(id);
					ts.push(t);
				}
			}
			let ix = k as u8;
			vars.push(quote!(#n { #(#ns: #ts),* }));
			arms.push(quote!(Call::#n { #(#ns),* } => Pallet::<T>::#n(origin, #(#ns),*).map(Into::into).map_err(Into::into)));
			ixs.push(quote!(Call::#n { .. } => #ix));
			let s = n.to_string();
			names.push(quote!(Call::#n { .. } => #s));
		}
	}
	let iw = im.generics.where_clause.clone().map(|w| quote!(#w)).unwrap_or_else(|| wc.clone());
	quote! {
		#[derive(::frame_support::CloneNoBound, ::frame_support::PartialEqNoBound, ::frame_support::RuntimeDebugNoBound, ::codec::Encode, ::codec::Decode)]
		#[allow(non_camel_case_types)]
		pub enum Call<T: Config> #wc { #(#vars,)* #[doc(hidden)] __Ignore(::core::marker::PhantomData<T>) }
		impl<T: Config> Call<T> #wc {
			pub fn __name(&self) -> &'static str { match self { #(#names,)* Call::__Ignore(_) => "" } }
		}
		impl<T: Config> ::frame_support::traits::UnfilteredDispatchable for Call<T> #iw {
			type RuntimeOrigin = <T as ::frame_system::Config>::RuntimeOrigin;
			fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
				let __mark = ::frame_support::storage::begin();
				let __res: ::frame_support::dispatch::DispatchResultWithPostInfo = match self { #(#arms,)* Call::__Ignore(_) => unreachable!() };
				::frame_support::storage::end(__mark, __res.is_ok());
				__res
			}
		}
		impl<T: Config> ::frame_support::dispatch::GetDispatchInfo for Call<T> #wc {
			fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo { ::frame_support::storage::any_dispatch_info() }
		}
	}
}
fn strip_mut(_t: &mut Type) {}
