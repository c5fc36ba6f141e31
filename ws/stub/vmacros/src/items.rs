//! `items!(path, Name, ...)`: the items of a source file under /repo, without its tests and without the
//! impls of the named traits or items.
use super::*;
pub struct Args {
	path: LitStr,
	/// `path; A, B`: only these items, with their impls
	only: bool,
	skip: Vec<Ident>,
}
impl parse::Parse for Args {
	fn parse(i: parse::ParseStream) -> Result<Self> {
		let path = i.parse()?;
		let mut skip = vec![];
		let only = i.parse::<Option<Token![;]>>()?.is_some();
		if only {
			skip.push(i.parse()?);
		}
		while i.parse::<Option<Token![,]>>()?.is_some() && !i.is_empty() {
			skip.push(i.parse()?);
		}
		Ok(Args { path, only, skip })
	}
}
pub fn expand(a: Args) -> TS {
	let p = a.path.value();
	let f = parse_file(&std::fs::read_to_string(&p).expect("readable source")).expect("Rust source");
	let mut names = a.skip.clone();
	if a.only {
		// and the functions and constants they use
		loop {
			let n = names.len();
			for i in &f.items {
				let own = match i {
					Item::Impl(m) => matches!(&*m.self_ty, Type::Path(t) if names.contains(&t.path.segments.last().unwrap().ident)),
					Item::Fn(m) => names.contains(&m.sig.ident),
					_ => false,
				};
				if own {
					let mut used = vec![];
					idents(i.to_token_stream(), &mut used);
					for j in &f.items {
						let id = match j {
							Item::Fn(m) => &m.sig.ident,
							Item::Const(m) => &m.ident,
							_ => continue,
						};
						if used.contains(id) && !names.contains(id) {
							names.push(id.clone());
						}
					}
				}
			}
			if names.len() == n {
				break;
			}
		}
	}
	let skip = |i: &Ident| names.contains(i);
	let keep = f.items.into_iter().filter(|i| {
		if a.only {
			return match i {
				Item::Impl(m) => matches!(&*m.self_ty, Type::Path(t) if skip(&t.path.segments.last().unwrap().ident)),
				Item::Enum(m) => skip(&m.ident),
				Item::Struct(m) => skip(&m.ident),
				Item::Fn(m) => skip(&m.sig.ident),
				Item::Type(m) => skip(&m.ident),
				Item::Const(m) => skip(&m.ident),
				_ => false,
			};
		}
		let attrs = match i {
			Item::Mod(m) => &m.attrs,
			Item::Impl(m) => &m.attrs,
			Item::Fn(m) => &m.attrs,
			Item::Use(m) => &m.attrs,
			_ => return true,
		};
		!attrs.iter().any(|x| x.path().is_ident("cfg") && x.to_token_stream().to_string().contains("test"))
			&& match i {
				Item::Impl(m) => {
					!m.trait_.as_ref().map_or(false, |t| skip(&t.1.segments.last().unwrap().ident))
						&& !matches!(&*m.self_ty, Type::Path(t) if skip(&t.path.segments.last().unwrap().ident))
				},
				_ => true,
			}
	});
	let keep: Vec<_> = keep.collect();
	let path = &a.path;
	quote!(
		#(#keep)*
		const _: &[u8] = include_bytes!(#path);
	)
}
fn idents(t: TS, out: &mut Vec<Ident>) {
	for x in t {
		match x {
			proc_macro2::TokenTree::Ident(i) => out.push(i),
			proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
			_ => {},
		}
	}
}
