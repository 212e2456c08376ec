//! Stand-in for `frame_support::pallet`: keeps every function body of the pallet as it is and expands
//! declarations (storage, errors, events, type values) to plain Rust.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as T2;
use quote::{format_ident, quote, ToTokens};
use syn::*;

/// attribute `#[pallet::name…]` -> name and the attribute
fn pallet_attr(attrs: &[Attribute], name: &str) -> Option<Attribute> {
	attrs.iter().find(|a| is_pallet(a) && a.path().segments[1].ident == name).cloned()
}
fn is_pallet(a: &Attribute) -> bool {
	a.path().segments.len() == 2 && a.path().segments[0].ident == "pallet"
}
fn strip(attrs: &mut Vec<Attribute>) {
	attrs.retain(|a| !is_pallet(a));
}
fn id_of(s: &str) -> u64 {
	s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

/// parameter names of generics, without bounds
fn names(g: &Generics) -> Vec<Ident> {
	g.params.iter().filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.clone()) } else { None }).collect()
}

#[proc_macro_attribute]
pub fn pallet(_args: TokenStream, input: TokenStream) -> TokenStream {
	let mut m = parse_macro_input!(input as ItemMod);
	let (brace, items) = m.content.take().expect("pallet module");
	let mut out: Vec<T2> = vec![];
	let mut deposits: Vec<T2> = vec![];
	// is the pallet instantiable: `struct Pallet<T, I = ()>`
	let inst = items.iter().any(|i| matches!(i, Item::Struct(s) if s.ident == "Pallet" && s.generics.params.len() == 2));
	let (tp, ta): (T2, T2) = if inst { (quote!(T: Config<I>, I: 'static), quote!(T, I)) } else { (quote!(T: Config), quote!(T)) };
	let pallet_name = m.ident.to_string();
	for item in items {
		match item {
			Item::Trait(mut t) if pallet_attr(&t.attrs, "config").is_some() => {
				strip(&mut t.attrs);
				for i in &mut t.items {
					if let TraitItem::Type(x) = i {
						strip(&mut x.attrs);
					}
					if let TraitItem::Const(x) = i {
						strip(&mut x.attrs);
					}
				}
				out.push(t.into_token_stream());
			}
			Item::Struct(mut s) if pallet_attr(&s.attrs, "pallet").is_some() => {
				strip(&mut s.attrs);
				let g = &s.generics;
				let n = names(g);
				let vis = &s.vis;
				let id = &s.ident;
				out.push(quote!(#vis struct #id #g (::core::marker::PhantomData<(#(#n,)*)>);));
			}
			Item::Struct(s) if pallet_attr(&s.attrs, "genesis_config").is_some() => {}
			Item::Impl(i) if pallet_attr(&i.attrs, "genesis_build").is_some() => {}
			Item::Impl(i) if i.trait_.as_ref().map_or(false, |t| t.1.segments.last().unwrap().ident == "Default") && matches!(&*i.self_ty, Type::Path(p) if p.path.segments.last().unwrap().ident == "GenesisConfig") => {}
			Item::Impl(i) if pallet_attr(&i.attrs, "validate_unsigned").is_some() => {}
			Item::Type(mut t) if pallet_attr(&t.attrs, "storage").is_some() => {
				let getter = pallet_attr(&t.attrs, "getter");
				strip(&mut t.attrs);
				t.vis = parse_quote!(pub); // harnesses set up states
				let prefix = format_ident!("_Prefix{}", t.ident);
				let id = id_of(&format!("{}::{}", pallet_name, t.ident));
				let Type::Path(p) = &mut *t.ty else { panic!("storage type") };
				let seg = p.path.segments.last_mut().unwrap();
				let kind = seg.ident.to_string();
				let PathArguments::AngleBracketed(ab) = &mut seg.arguments else { panic!("storage generics") };
				// named generics (Hasher = …, Key = …, Value = …) to positional ones
				let named: Vec<(String, Type)> = ab.args.iter().filter_map(|a| if let GenericArgument::AssocType(x) = a { Some((x.ident.to_string(), x.ty.clone())) } else { None }).collect();
				let mut pos: Vec<Type> = ab.args.iter().filter_map(|a| if let GenericArgument::Type(x) = a { Some(x.clone()) } else { None }).collect();
				if !named.is_empty() {
					let order: &[&str] = match kind.as_str() {
						"StorageValue" => &["Value", "QueryKind", "OnEmpty"],
						"StorageMap" | "CountedStorageMap" => &["Hasher", "Key", "Value", "QueryKind", "OnEmpty"],
						"StorageDoubleMap" => &["Hasher1", "Key1", "Hasher2", "Key2", "Value", "QueryKind", "OnEmpty"],
						_ => &["Key", "Value", "QueryKind", "OnEmpty"],
					};
					pos = vec![parse_quote!(_)];
					for o in order {
						if let Some((_, ty)) = named.iter().find(|n| n.0 == *o) {
							pos.push(ty.clone());
						}
					}
				}
				let gt = names(&t.generics);
				pos[0] = parse_quote!(#prefix<#(#gt),*>);
				let salt = if inst { quote!(^ ::frame_support::storage::salt::<I>()) } else { quote!() };
				let inst_bound = if inst { quote!(where I: 'static) } else { quote!() };
				out.push(quote!(pub struct #prefix<#(#gt),*>(::core::marker::PhantomData<(#(#gt,)*)>);));
				out.push(quote!(impl<#(#gt),*> ::frame_support::storage::StorageInstance for #prefix<#(#gt),*> #inst_bound { fn id() -> u64 { #id #salt } }));
				if let Some(g) = getter {
					let name: Ident = {
						let ts: T2 = g.meta.require_list().unwrap().tokens.clone();
						let last = ts.into_iter().last().unwrap();
						format_ident!("{}", last.to_string())
					};
					let opt_default = quote!(::frame_support::pallet_prelude::OptionQuery);
					let val_idx = match kind.as_str() {
						"StorageValue" => 1,
						"StorageMap" | "CountedStorageMap" => 3,
						"StorageDoubleMap" => 5,
						_ => 2,
					};
					let v = pos[val_idx].clone();
					let q = pos.get(val_idx + 1).map(|q| q.to_token_stream()).unwrap_or(opt_default);
					let query = quote!(<#q as ::frame_support::storage::QueryKind<#v>>::Query);
					let alias = &t.ident;
					let vis = &t.vis;
					let body = match kind.as_str() {
						"StorageValue" => quote!(#vis fn #name() -> #query { <#alias<#ta>>::get() }),
						"StorageMap" | "CountedStorageMap" => {
							let k = &pos[2];
							quote!(#vis fn #name<__K: ::frame_support::storage::Arg<#k>>(k: __K) -> #query { <#alias<#ta>>::get(k) })
						}
						"StorageDoubleMap" => {
							let (k1, k2) = (&pos[2], &pos[4]);
							quote!(#vis fn #name<__K1: ::frame_support::storage::Arg<#k1>, __K2: ::frame_support::storage::Arg<#k2>>(k1: __K1, k2: __K2) -> #query { <#alias<#ta>>::get(k1, k2) })
						}
						_ => {
							let k = &pos[1];
							quote!(#vis fn #name<__K: ::frame_support::storage::NArg<<#k as ::frame_support::storage::NKey>::Key>>(k: __K) -> #query { <#alias<#ta>>::get(k) })
						}
					};
					deposits.push(quote!(impl<#tp> Pallet<#ta> { #body }));
				}
				ab.args = pos.into_iter().map(GenericArgument::Type).collect();
				let (vis, ident, g, ty) = (&t.vis, &t.ident, &t.generics, &t.ty);
				out.push(quote!(#[allow(type_alias_bounds)] #vis type #ident #g = #ty;));
			}
			Item::Fn(f) if pallet_attr(&f.attrs, "type_value").is_some() => {
				let (vis, id, g, body, ret) = (&f.vis, &f.sig.ident, &f.sig.generics, &f.block, &f.sig.output);
				let n = names(g);
				let ReturnType::Type(_, ty) = ret else { panic!("type value") };
				let wc = &g.where_clause;
				if n.is_empty() {
					out.push(quote!(#vis struct #id; impl ::frame_support::traits::Get<#ty> for #id { fn get() -> #ty #body }));
				} else {
					out.push(quote!(#vis struct #id<#(#n),*>(::core::marker::PhantomData<(#(#n,)*)>); impl #g ::frame_support::traits::Get<#ty> for #id<#(#n),*> #wc { fn get() -> #ty #body }));
				}
			}
			Item::Enum(mut e) if pallet_attr(&e.attrs, "error").is_some() => {
				strip(&mut e.attrs);
				e.attrs.clear();
				let n = names(&e.generics);
				let id = &e.ident;
				let mut arms = vec![];
				for (i, v) in e.variants.iter_mut().enumerate() {
					v.attrs.clear();
					let vi = &v.ident;
					let i = i as u8;
					let pat = match &v.fields {
						Fields::Unit => quote!(#id::#vi),
						Fields::Unnamed(_) => quote!(#id::#vi(..)),
						Fields::Named(_) => quote!(#id::#vi { .. }),
					};
					arms.push(quote!(#pat => #i));
				}
				e.variants.push(parse_quote!(__Ignore(::core::marker::PhantomData<(#(#n,)*)>, ::frame_support::Never)));
				out.push(e.to_token_stream());
				out.push(quote!(
					impl<#(#n),*> #id<#(#n),*> {
						pub fn code(&self) -> u8 { match self { #(#arms,)* #id::__Ignore(..) => 255 } }
					}
					impl<#(#n),*> ::core::fmt::Debug for #id<#(#n),*> {
						fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str("error") }
					}
					impl<#(#n),*> ::core::cmp::PartialEq for #id<#(#n),*> {
						fn eq(&self, o: &Self) -> bool { self.code() == o.code() }
					}
					impl<#(#n),*> From<#id<#(#n),*>> for ::frame_support::sp_runtime::DispatchError {
						fn from(e: #id<#(#n),*>) -> Self { ::frame_support::sp_runtime::DispatchError::Module(::frame_support::sp_runtime::ModuleError { index: 0, error: [e.code(), 0, 0, 0], message: None }) }
					}
					impl<#(#n),*> From<#id<#(#n),*>> for &'static str {
						fn from(_e: #id<#(#n),*>) -> Self { "error" }
					}
					impl<#(#n),*> ::frame_support::traits::PalletError for #id<#(#n),*> {}
				));
			}
			Item::Enum(mut e) if pallet_attr(&e.attrs, "event").is_some() => {
				let dep = pallet_attr(&e.attrs, "generate_deposit");
				e.attrs.clear();
				let n = names(&e.generics);
				for v in e.variants.iter_mut() {
					v.attrs.clear();
				}
				let id = &e.ident;
				if !n.is_empty() {
					let g = &e.generics;
					let _ = g;
					e.variants.push(parse_quote!(#[allow(dead_code)] __Ignore(::core::marker::PhantomData<(#(#n,)*)>, ::frame_support::Never)));
				}
				let ev = if n.is_empty() { quote!(#id) } else { quote!(#id<#(#n),*>) };
				if let Some(d) = dep {
					let ts = d.meta.require_list().unwrap().tokens.to_string();
					let fname = format_ident!("{}", ts.split_whitespace().last().unwrap());
					deposits.push(quote!(impl<#tp> Pallet<#ta> { pub fn #fname(event: #ev) { let _ = event; } }));
				}
				out.push(e.into_token_stream());
			}
			Item::Enum(e) if pallet_attr(&e.attrs, "origin").is_some() => {
				let mut e = e;
				strip(&mut e.attrs);
				out.push(e.into_token_stream());
			}
			Item::Impl(mut i) => {
				strip(&mut i.attrs);
				for x in &mut i.items {
					if let ImplItem::Fn(f) = x {
						strip(&mut f.attrs);
						for a in &mut f.sig.inputs {
							if let FnArg::Typed(t) = a {
								strip(&mut t.attrs);
							}
						}
					}
				}
				out.push(i.into_token_stream());
			}
			Item::Const(mut c) => {
				strip(&mut c.attrs);
				out.push(c.into_token_stream());
			}
			Item::Struct(mut c) => {
				strip(&mut c.attrs);
				out.push(c.into_token_stream());
			}
			other => out.push(other.into_token_stream()),
		}
	}
	let _ = brace;
	deposits.push(quote!(impl<#tp> ::frame_support::traits::PalletInfoAccess for Pallet<#ta> {}));
	m.attrs.retain(|a| !is_pallet(a));
	let (attrs, vis, id) = (&m.attrs, &m.vis, &m.ident);
	quote!(#(#attrs)* #[allow(dead_code, unused_imports, type_alias_bounds)] #vis mod #id { #(#out)* #(#deposits)* }).into()
}

/// The storage of an earlier version of a pallet, kept apart from the current one.
#[proc_macro_attribute]
pub fn storage_alias(_a: TokenStream, input: TokenStream) -> TokenStream {
	let mut t = parse_macro_input!(input as ItemType);
	let prefix = format_ident!("_Prefix{}", t.ident);
	let id = id_of(&format!("alias::{}", t.ident));
	let gt = names(&t.generics);
	let vis = t.vis.clone();
	let Type::Path(p) = &mut *t.ty else { panic!("storage type") };
	let seg = p.path.segments.last_mut().unwrap();
	let kind = seg.ident.clone();
	let PathArguments::AngleBracketed(ab) = &mut seg.arguments else { panic!("storage generics") };
	let rest: Vec<GenericArgument> = ab.args.iter().skip(1).cloned().collect();
	let (name, generics) = (&t.ident, &t.generics);
	quote!(
		pub struct #prefix<#(#gt),*>(::core::marker::PhantomData<(#(#gt,)*)>);
		impl<#(#gt),*> ::frame_support::storage::StorageInstance for #prefix<#(#gt),*> { fn id() -> u64 { #id } }
		#vis type #name #generics = ::frame_support::pallet_prelude::#kind<#prefix<#(#gt),*>, #(#rest),*>;
	)
	.into()
}
/// Nested transactions: run the body in one layer, undone when it fails.
#[proc_macro_attribute]
pub fn transactional(_a: TokenStream, input: TokenStream) -> TokenStream {
	let mut f = parse_macro_input!(input as ImplItemFn);
	let body = &f.block;
	f.block = parse_quote!({ ::frame_support::storage::transactional(move || #body) });
	f.into_token_stream().into()
}
#[proc_macro_attribute]
pub fn require_transactional(_a: TokenStream, input: TokenStream) -> TokenStream {
	input
}

fn derived(input: TokenStream, f: impl Fn(&DeriveInput) -> (T2, T2)) -> TokenStream {
	let d = parse_macro_input!(input as DeriveInput);
	let (tr, body) = f(&d);
	let (i, t, w) = d.generics.split_for_impl();
	let id = &d.ident;
	quote!(#[automatically_derived] impl #i #tr for #id #t #w { #body }).into()
}
#[proc_macro_derive(RuntimeDebug)]
pub fn runtime_debug(input: TokenStream) -> TokenStream {
	derived(input, |d| {
		let n = d.ident.to_string();
		(quote!(::core::fmt::Debug), quote!(fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(#n) }))
	})
}
#[proc_macro_derive(DebugNoBound)]
pub fn debug_no_bound(input: TokenStream) -> TokenStream {
	runtime_debug(input)
}
#[proc_macro_derive(RuntimeDebugNoBound)]
pub fn runtime_debug_no_bound(input: TokenStream) -> TokenStream {
	runtime_debug(input)
}
/// (pattern with bindings prefixed, fields) for every variant
fn arms(d: &DeriveInput, p: &str) -> Vec<(T2, Vec<Ident>, T2)> {
	let one = |path: T2, fs: &Fields| {
		let ids: Vec<Ident> = (0..fs.len()).map(|i| format_ident!("{}{}", p, i)).collect();
		match fs {
			Fields::Named(n) => {
				let names: Vec<_> = n.named.iter().map(|f| f.ident.clone().unwrap()).collect();
				(quote!(#path { #(#names: #ids),* }), ids.clone(), quote!(#path { #(#names: #ids.clone()),* }))
			}
			Fields::Unnamed(_) => (quote!(#path(#(#ids),*)), ids.clone(), quote!(#path(#(#ids.clone()),*))),
			Fields::Unit => (quote!(#path), ids, quote!(#path)),
		}
	};
	let id = &d.ident;
	match &d.data {
		Data::Struct(s) => vec![one(quote!(#id), &s.fields)],
		Data::Enum(e) => e.variants.iter().map(|v| { let vi = &v.ident; one(quote!(#id::#vi), &v.fields) }).collect(),
		_ => panic!(),
	}
}
#[proc_macro_derive(CloneNoBound)]
pub fn clone_no_bound(input: TokenStream) -> TokenStream {
	derived(input, |d| {
		let a = arms(d, "f");
		let (p, c): (Vec<_>, Vec<_>) = a.into_iter().map(|x| (x.0, x.2)).unzip();
		(quote!(::core::clone::Clone), quote!(fn clone(&self) -> Self { match self { #(#p => #c,)* } }))
	})
}
#[proc_macro_derive(PartialEqNoBound)]
pub fn partial_eq_no_bound(input: TokenStream) -> TokenStream {
	derived(input, |d| {
		let a = arms(d, "a");
		let b = arms(d, "b");
		let m = a.iter().zip(b.iter()).map(|(x, y)| {
			let (px, ix, py, iy) = (&x.0, &x.1, &y.0, &y.1);
			quote!((#px, #py) => true #(&& #ix == #iy)*)
		});
		(quote!(::core::cmp::PartialEq), quote!(#[allow(unreachable_patterns)] fn eq(&self, o: &Self) -> bool { match (self, o) { #(#m,)* _ => false } }))
	})
}
#[proc_macro_derive(EqNoBound)]
pub fn eq_no_bound(input: TokenStream) -> TokenStream {
	derived(input, |_| (quote!(::core::cmp::Eq), quote!()))
}
#[proc_macro_derive(PalletError)]
pub fn pallet_error(_: TokenStream) -> TokenStream {
	TokenStream::new()
}
