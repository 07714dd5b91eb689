//! Present in a build only to switch on syn's full parser for everyone.
use proc_macro::TokenStream;

#[proc_macro]
pub fn parse(input: TokenStream) -> TokenStream {
    match syn::parse::<syn::Expr>(input) {
        Ok(_) => TokenStream::new(),
        Err(e) => e.to_compile_error().into(),
    }
}
