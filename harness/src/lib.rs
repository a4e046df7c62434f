pub mod api;
pub mod oracle;
pub mod alloc_lsx;
pub mod spec;
pub mod trust;
#[cfg(feature = "async")]
pub mod h_async;
#[cfg(feature = "http")]
pub mod h_http;
pub mod h_big;
pub mod h_e2e;
pub mod h_misc;
pub mod h_more;
pub mod h_net;
pub mod h_parse;
pub mod h_query;
pub mod h_val;
#[cfg(feature = "wasm")]
pub mod h_wasm;
pub mod h_wild;

macro_rules! harnesses {
    ($($(#[$a:meta])* $m:ident :: $f:ident),* $(,)?) => {
        pub const ALL: &[(&str, fn())] = &[$($(#[$a])* (stringify!($f), $m::$f as fn())),*];
        $($(#[$a])* const _: () = { #[export_name = concat!("h_", stringify!($f))] pub extern "C" fn w() { $m::$f() } };)*
    };
}
harnesses! {
    h_parse::parse_total,
    h_parse::parse_typed,
    h_parse::parse_lengths,
    h_parse::wire_name,
    h_parse::wire_name_long,
    h_parse::name_text,
    h_parse::bitmap_parse,
    h_parse::bitmap_types,
    h_parse::key_tags,
    h_parse::key_tags_long,
    h_parse::roundtrip,
    h_query::resp_header,
    h_query::resp_any,
    h_query::resp_names,
    h_query::resp_long_names,
    h_query::resp_typed,
    h_query::resp_records,
    h_query::builder_flow,
    h_query::builder_signer,
    h_query::builder_limit,
    h_query::builder_extra,
    h_query::query_format,
    h_query::querybuf,
    h_misc::resolve,
    h_misc::order_laws,
    h_misc::txt_order,
    h_misc::txt_order_long,
    h_misc::json,
    h_misc::anchors,
    h_misc::rsa_key,
    h_more::val_shapes,
    h_more::val_loops,
    h_more::val_kinds,
    h_net::client_sync,
    #[cfg(feature = "async")]
    h_async::client_async,
    #[cfg(feature = "http")]
    h_http::http_byte,
    #[cfg(feature = "http")]
    h_http::http_args,
    #[cfg(feature = "http")]
    h_http::http_long,
    #[cfg(feature = "http")]
    h_http::http_many,
    #[cfg(feature = "wasm")]
    h_wasm::wasm_builder,
    #[cfg(feature = "wasm")]
    h_wasm::wasm_name,
    #[cfg(feature = "wasm")]
    h_wasm::wasm_verify,
    #[cfg(feature = "wasm")]
    h_wasm::wasm_many,
    #[cfg(feature = "wasm")]
    h_wasm::wasm_bytes,
    h_val::val_root,
    h_val::val_two_keys,
    h_val::val_key_lengths,
    h_val::val_set,
    h_val::val_names,
    h_val::val_ds,
    h_val::val_sigs,
    h_val::val_zone_names,
    h_val::val_complete,
    h_wild::wild_nsec,
    h_wild::wild_nsec_chars,
    h_big::val_big,
    h_big::val_many,
    h_big::stream_many,
    h_big::wild_many,
    h_big::json_long,
    h_big::resolve_chain,
    h_big::resp_many,
    h_big::resp_hops,
    h_e2e::e2e,
    h_e2e::e2e_walk,
    h_big::val_long,
    h_val::err_val,
    h_val::err_keys,
    h_val::err_complete,
    h_more::val_tags,
    h_big::name_many,
    h_wild::wild_zones,
    h_wild::wild_nsec3,
    h_wild::wild_nsec3_exact,
    h_wild::wild_nsec3_two,
    h_wild::wild_nsec3_label,
    h_wild::wild_times,
    h_wild::wild_nsec3_iter,
    h_wild::wild_nsec3_params,
}
