use crate::*;

fn add_bounds(g: &Generics, path: TS, fields_ty: &[Type]) -> Generics {
	// bound every field type that mentions a type parameter (what the real derive does)
	let mut g = g.clone();
	let params: Vec<String> = g.type_params().map(|p| p.ident.to_string()).collect();
	if params.is_empty() {
		return g;
	}
	let wc = g.make_where_clause();
	for t in fields_ty {
		let s = t.to_token_stream().to_string();
		let mentions = s.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| params.iter().any(|p| p == w));
		if mentions && !s.contains("PhantomData") {
			wc.predicates.push(parse_quote!(#t: #path));
		}
	}
	g
}
fn field_types(d: &Data) -> Vec<Type> {
	match d {
		Data::Struct(s) => s.fields.iter().map(|f| f.ty.clone()).collect(),
		Data::Enum(e) => e.variants.iter().flat_map(|v| v.fields.iter().map(|f| f.ty.clone())).collect(),
		_ => vec![],
	}
}
fn codec_attr(attrs: &[Attribute], what: &str) -> Option<TS> {
	for a in attrs {
		if a.path().is_ident("codec") {
			if let Meta::List(l) = &a.meta {
				let s: Vec<_> = l.tokens.clone().into_iter().collect();
				if let Some(first) = s.first() {
					if first.to_string() == what {
						return Some(s.into_iter().skip(2).collect());
					}
				}
			}
		}
	}
	None
}
fn variant_index(v: &Variant, i: usize) -> TS {
	if let Some(ix) = codec_attr(&v.attrs, "index") {
		return quote!((#ix) as u8);
	}
	if let Some((_, e)) = &v.discriminant {
		return quote!((#e) as u8);
	}
	let i = i as u8;
	quote!(#i)
}
fn pat(fields: &Fields, prefix: &str) -> (TS, Vec<Ident>) {
	match fields {
		Fields::Named(n) => {
			let names: Vec<_> = n.named.iter().map(|f| f.ident.clone().unwrap()).collect();
			let binds: Vec<_> = names.iter().map(|x| format_ident!("{}{}", prefix, x)).collect();
			(quote!({ #(#names: #binds),* }), binds)
		},
		Fields::Unnamed(u) => {
			let binds: Vec<_> = (0..u.unnamed.len()).map(|i| format_ident!("{}{}", prefix, i)).collect();
			(quote!(( #(#binds),* )), binds)
		},
		Fields::Unit => (quote!(), vec![]),
	}
}

pub fn encode(i: DeriveInput) -> TS {
	let n = &i.ident;
	let g = add_bounds(&i.generics, quote!(::codec::Encode), &field_types(&i.data));
	let (ig, tg, wc) = g.split_for_impl();
	let cl = clone_body(&i, &quote!(::codec::Encode::sclone));
	let eq = eq_body(&i);
	let body = match &i.data {
		Data::Struct(s) => {
			let (p, b) = pat(&s.fields, "f_");
			quote!(let #n #p = self; #( ::codec::Encode::encode_to(#b, out); )*)
		},
		Data::Enum(e) => {
			let arms = e.variants.iter().enumerate().map(|(k, v)| {
				let (p, b) = pat(&v.fields, "f_");
				let vi = &v.ident;
				let ix = variant_index(v, k);
				quote!(#n::#vi #p => { ::codec::Output::push_byte(out, #ix); #( ::codec::Encode::encode_to(#b, out); )* })
			});
			if e.variants.is_empty() { quote!() } else { quote!(match self { #(#arms),* }) }
		},
		_ => quote!(),
	};
	quote! {
		#[allow(non_snake_case, unused)]
		const _: () = {
			impl #ig ::codec::Encode for #n #tg #wc {
				fn encode_to<O__: ::codec::Output + ?Sized>(&self, out: &mut O__) { #body }
				fn sclone(&self) -> Self { #cl }
				fn seq(&self, other: &Self) -> bool { #eq }
			}
		};
	}
}

pub fn decode(i: DeriveInput) -> TS {
	let n = &i.ident;
	let g = add_bounds(&i.generics, quote!(::codec::Decode), &field_types(&i.data));
	let (ig, tg, wc) = g.split_for_impl();
	let mk = |f: &Fields, path: TS| match f {
		Fields::Named(x) => {
			let names: Vec<_> = x.named.iter().map(|f| f.ident.clone().unwrap()).collect();
			quote!(#path { #( #names: ::codec::Decode::decode(inp)? ),* })
		},
		Fields::Unnamed(u) => {
			let d = u.unnamed.iter().map(|_| quote!(::codec::Decode::decode(inp)?));
			quote!(#path ( #(#d),* ))
		},
		Fields::Unit => quote!(#path),
	};
	let body = match &i.data {
		Data::Struct(s) => {
			let e = mk(&s.fields, quote!(#n));
			quote!(Ok(#e))
		},
		Data::Enum(e) => {
			let arms = e.variants.iter().enumerate().map(|(k, v)| {
				let vi = &v.ident;
				let ix = variant_index(v, k);
				let c = mk(&v.fields, quote!(#n::#vi));
				quote!(if b == #ix { return Ok(#c); })
			});
			quote!(let b: u8 = ::codec::Decode::decode(inp)?; #(#arms)* Err(::codec::Error))
		},
		_ => quote!(),
	};
	quote! {
		#[allow(non_snake_case, unused)]
		impl #ig ::codec::Decode for #n #tg #wc {
			fn decode<I__: ::codec::Input>(inp: &mut I__) -> ::core::result::Result<Self, ::codec::Error> { #body }
		}
	}
}

pub fn debug(i: DeriveInput) -> TS {
	let n = &i.ident;
	let (ig, tg, wc) = i.generics.split_for_impl();
	let s = n.to_string();
	quote!(impl #ig ::core::fmt::Debug for #n #tg #wc {
		fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(#s) }
	})
}
pub fn clone(i: DeriveInput) -> TS {
	let n = &i.ident;
	let (ig, tg, wc) = i.generics.split_for_impl();
	let body = clone_body(&i, &quote!(::core::clone::Clone::clone));
	quote!(#[allow(non_snake_case)] impl #ig ::core::clone::Clone for #n #tg #wc { fn clone(&self) -> Self { #body } })
}
fn clone_body(i: &DeriveInput, f: &TS) -> TS {
	let n = &i.ident;
	match &i.data {
		Data::Struct(s) => {
			let (p, b) = pat(&s.fields, "f_");
			let c = rebuild(&s.fields, quote!(#n), &b, f);
			quote!(let #n #p = self; #c)
		},
		Data::Enum(e) => {
			if e.variants.is_empty() {
				return quote!(unreachable!());
			}
			let arms = e.variants.iter().map(|v| {
				let (p, b) = pat(&v.fields, "f_");
				let vi = &v.ident;
				let c = rebuild(&v.fields, quote!(#n::#vi), &b, f);
				quote!(#n::#vi #p => #c)
			});
			quote!(match self { #(#arms),* })
		},
		_ => quote!(),
	}
}
fn rebuild(f: &Fields, path: TS, b: &[Ident], cl: &TS) -> TS {
	match f {
		Fields::Named(x) => {
			let names = x.named.iter().map(|f| f.ident.clone().unwrap());
			quote!(#path { #( #names: #cl(#b) ),* })
		},
		Fields::Unnamed(_) => quote!(#path ( #( #cl(#b) ),* )),
		Fields::Unit => quote!(#path),
	}
}
fn eq_body(i: &DeriveInput) -> TS {
	let n = &i.ident;
	match &i.data {
		Data::Struct(s) => {
			let (p, b) = pat(&s.fields, "f_");
			let (p2, b2) = pat(&s.fields, "g_");
			quote!(let #n #p = self; let #n #p2 = other; true #( && ::codec::Encode::seq(#b, #b2) )*)
		},
		Data::Enum(e) => {
			let arms = e.variants.iter().map(|v| {
				let (p, b) = pat(&v.fields, "f_");
				let (p2, b2) = pat(&v.fields, "g_");
				let vi = &v.ident;
				quote!((#n::#vi #p, #n::#vi #p2) => true #( && ::codec::Encode::seq(#b, #b2) )*)
			});
			quote!(match (self, other) { #(#arms,)* #[allow(unreachable_patterns)] _ => false })
		},
		_ => quote!(),
	}
}
pub fn partial_eq(i: DeriveInput) -> TS {
	let n = &i.ident;
	let (ig, tg, wc) = i.generics.split_for_impl();
	let body = match &i.data {
		Data::Struct(s) => {
			let (p, b) = pat(&s.fields, "f_");
			let (p2, b2) = pat(&s.fields, "g_");
			quote!(let #n #p = self; let #n #p2 = other; true #( && #b == #b2 )*)
		},
		Data::Enum(e) => {
			let arms = e.variants.iter().map(|v| {
				let (p, b) = pat(&v.fields, "f_");
				let (p2, b2) = pat(&v.fields, "g_");
				let vi = &v.ident;
				quote!((#n::#vi #p, #n::#vi #p2) => true #( && #b == #b2 )*)
			});
			quote!(match (self, other) { #(#arms,)* _ => false })
		},
		_ => quote!(),
	};
	quote!(#[allow(non_snake_case, unreachable_patterns)] impl #ig ::core::cmp::PartialEq for #n #tg #wc { fn eq(&self, other: &Self) -> bool { #body } })
}
pub fn default(i: DeriveInput) -> TS {
	let n = &i.ident;
	let (ig, tg, wc) = i.generics.split_for_impl();
	let mk = |f: &Fields, path: TS| match f {
		Fields::Named(x) => {
			let names = x.named.iter().map(|f| f.ident.clone().unwrap());
			quote!(#path { #( #names: ::core::default::Default::default() ),* })
		},
		Fields::Unnamed(u) => {
			let d = u.unnamed.iter().map(|_| quote!(::core::default::Default::default()));
			quote!(#path ( #(#d),* ))
		},
		Fields::Unit => quote!(#path),
	};
	let body = match &i.data {
		Data::Struct(s) => mk(&s.fields, quote!(#n)),
		Data::Enum(e) => {
			let v = e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))).unwrap();
			let vi = &v.ident;
			mk(&v.fields, quote!(#n::#vi))
		},
		_ => quote!(),
	};
	quote!(impl #ig ::core::default::Default for #n #tg #wc { fn default() -> Self { #body } })
}
