//! Another crate's derive, whose attributes look like those of JsonEncode and JsonDecode.
extern crate proc_macro;
use proc_macro::TokenStream;

#[proc_macro_derive(Other, attributes(ignored, ignore_it, not_ignore, Ignore, IGNORE, ign, keys, Key, keyed, my_key, rename, skip, serde, other, to_json, json))]
pub fn other(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
