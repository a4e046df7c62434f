//! `#[tokio::main]`: the program's `main` becomes a function the harness can call.
use proc_macro::{TokenStream, TokenTree};
#[proc_macro_attribute]
pub fn main(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut o: TokenStream = item.into_iter().filter(|t| !matches!(t, TokenTree::Ident(i) if i.to_string() == "pub")).collect();
    let extra: TokenStream =
        "#[doc(hidden)] #[export_name = \"http_proof_gen_main\"] pub extern \"Rust\" fn __verif_main() -> ::std::pin::Pin<::std::boxed::Box<dyn ::std::future::Future<Output = ()>>> { ::std::boxed::Box::pin(async { let _ = main().await; }) }"
            .parse()
            .unwrap();
    o.extend(extra);
    o
}
#[proc_macro_attribute]
pub fn test(_attr: TokenStream, _item: TokenStream) -> TokenStream {
    TokenStream::new()
}
