//! Stand-ins for `paste!` (only the `[<$x:camel>]` form is used), `impl_for_tuples` and the `num_enum` derives.
use proc_macro2::{Delimiter, Group, Ident, Literal, Span, TokenStream as TS, TokenTree as TT};
use quote::{format_ident, quote};
use syn::*;

fn camel(s: &str) -> String {
	s.split('_').map(|w| w[..1].to_uppercase() + &w[1..]).collect()
}
pub fn paste(t: TS) -> TS {
	let mut o = TS::new();
	for x in t {
		match x {
			TT::Group(g) => {
				let v: Vec<TT> = g.stream().into_iter().collect();
				// [ < ident : camel > ], possibly with invisible groups around the identifier
				let s: String = v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
				let w: Vec<&str> = s.split_whitespace().collect();
				if g.delimiter() == Delimiter::Bracket && w.first() == Some(&"<") && w.last() == Some(&">") && w.len() == 5 && w[3] == "camel" {
					o.extend([TT::Ident(Ident::new(&camel(w[1]), Span::call_site()))]);
				} else {
					let mut n = Group::new(g.delimiter(), paste(g.stream()));
					n.set_span(g.span());
					o.extend([TT::Group(n)]);
				}
			},
			x => o.extend([x]),
		}
	}
	o
}
/// `#( pattern ) sep *` with `Tuple` replaced: by the type, or by the index after a dot.
fn repeat(t: TS, n: usize) -> TS {
	let v: Vec<TT> = t.into_iter().collect();
	let mut o = TS::new();
	let mut i = 0;
	while i < v.len() {
		if let (TT::Punct(p), Some(TT::Group(g))) = (&v[i], v.get(i + 1)) {
			if p.as_char() == '#' {
				// everything up to the closing '*' is the separator
				let mut j = i + 2;
				while !matches!(&v[j], TT::Punct(p) if p.as_char() == '*') {
					j += 1;
				}
				let sep: TS = v[i + 2..j].iter().cloned().collect();
				for k in 0..n {
					if k > 0 {
						o.extend(sep.clone());
					}
					o.extend(subst(g.stream(), k));
				}
				// a one-tuple needs its comma
				if n == 1 && sep.to_string() == "," {
					o.extend(sep);
				}
				i = j + 1;
				continue;
			}
		}
		match &v[i] {
			TT::Group(g) => o.extend([TT::Group(Group::new(g.delimiter(), repeat(g.stream(), n)))]),
			x => o.extend([x.clone()]),
		}
		i += 1;
	}
	o
}
fn subst(t: TS, k: usize) -> TS {
	let mut o = TS::new();
	let mut dot = false;
	for x in t {
		let was = dot;
		dot = matches!(&x, TT::Punct(p) if p.as_char() == '.');
		match x {
			TT::Ident(i) if i == "Tuple" => o.extend([if was { TT::Literal(Literal::usize_unsuffixed(k)) } else { TT::Ident(format_ident!("T{}", k)) }]),
			TT::Group(g) => o.extend([TT::Group(Group::new(g.delimiter(), subst(g.stream(), k)))]),
			x => o.extend([x]),
		}
	}
	o
}
fn for_tuples(t: TS, n: usize) -> TS {
	let v: Vec<TT> = t.into_iter().collect();
	let mut o = TS::new();
	let mut i = 0;
	while i < v.len() {
		if let (TT::Ident(a), Some(TT::Punct(b)), Some(TT::Group(g))) = (&v[i], v.get(i + 1), v.get(i + 2)) {
			if a == "for_tuples" && b.as_char() == '!' {
				let r = repeat(g.stream(), n);
				// a sequence of statements stands where the macro stood; an expression keeps its place
				o.extend(r);
				i += 3;
				// `for_tuples!( #( stmt; )* );` leaves a lone `;` behind
				continue;
			}
		}
		match &v[i] {
			TT::Group(g) => o.extend([TT::Group(Group::new(g.delimiter(), for_tuples(g.stream(), n)))]),
			x => o.extend([x.clone()]),
		}
		i += 1;
	}
	o
}
pub fn impl_for_tuples(attr: TS, item: TS) -> TS {
	let b: Vec<usize> = attr.into_iter().filter_map(|x| x.to_string().parse().ok()).collect();
	let (lo, hi) = if b.len() == 2 { (b[0], b[1].min(20)) } else { (0, b[0].min(20)) };
	let i: ItemImpl = parse2(item).unwrap();
	let tr = &i.trait_.as_ref().unwrap().1;
	let body: TS = i.items.iter().map(|x| quote!(#x)).collect();
	let mut o = TS::new();
	for n in lo..=hi {
		let ts: Vec<Ident> = (0..n).map(|k| format_ident!("T{}", k)).collect();
		let body = for_tuples(body.clone(), n);
		o.extend(quote!(impl<#(#ts: #tr),*> #tr for (#(#ts,)*) { #body }));
	}
	o
}
fn discriminants(d: &DeriveInput) -> (Ident, TS, Vec<(Ident, Expr)>) {
	let Data::Enum(e) = &d.data else { panic!("enum") };
	let mut repr = quote!(u8);
	for a in &d.attrs {
		if a.path().is_ident("repr") {
			repr = a.parse_args().unwrap();
		}
	}
	let mut next: Expr = parse_quote!(0);
	let v = e
		.variants
		.iter()
		.map(|v| {
			let x = v.discriminant.as_ref().map(|d| d.1.clone()).unwrap_or(next.clone());
			next = parse_quote!(#x + 1);
			(v.ident.clone(), x)
		})
		.collect();
	(d.ident.clone(), repr, v)
}
pub fn try_from_primitive(d: DeriveInput) -> TS {
	let (n, r, v) = discriminants(&d);
	let (i, x): (Vec<_>, Vec<_>) = v.into_iter().unzip();
	quote! {
		impl ::num_enum::TryFromPrimitive for #n {
			type Primitive = #r;
			const NAME: &'static str = stringify!(#n);
			fn try_from_primitive(p: #r) -> ::core::result::Result<Self, ::num_enum::TryFromPrimitiveError<Self>> {
				#( if p == (#x) as #r { return Ok(#n::#i); } )*
				Err(::num_enum::TryFromPrimitiveError { number: p })
			}
		}
		impl ::core::convert::TryFrom<#r> for #n {
			type Error = ::num_enum::TryFromPrimitiveError<Self>;
			fn try_from(p: #r) -> ::core::result::Result<Self, Self::Error> { <Self as ::num_enum::TryFromPrimitive>::try_from_primitive(p) }
		}
	}
}
pub fn into_primitive(d: DeriveInput) -> TS {
	let (n, r, v) = discriminants(&d);
	let (i, x): (Vec<_>, Vec<_>) = v.into_iter().unzip();
	quote! { impl ::core::convert::From<#n> for #r { fn from(e: #n) -> #r { match e { #( #n::#i => (#x) as #r, )* } } } }
}
