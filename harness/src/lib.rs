#![allow(dead_code)]
pub mod nd;
#[cfg(feature = "native")]
pub mod native;

/// `name` is both the exported symbol run by the symbolic executor and the
/// name used by the native replay.
macro_rules! entries {
    ($($m:ident :: $n:ident),* $(,)?) => {
        $(#[no_mangle] pub extern "C" fn $n() { $m::$n() })*
        pub static ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
    };
}

mod msg;
mod spec;
mod split;
mod stream;
mod strings;
mod tf;

entries! {
    msg::h_parse_client,
    msg::h_parse_server,
    msg::h_client_roundtrip,
    msg::h_server_roundtrip,
    msg::h_parse_grammar,
    msg::h_parse_order,
    msg::h_tags_model,
    msg::h_tags_dup,
    msg::h_tags_session,
    msg::h_tags_many,
    msg::h_args_model,
    msg::h_source,
    msg::h_source_parse,
    msg::h_lengths,
    msg::h_display,
    msg::h_numeric,
    msg::h_borrow_laws,
    msg::h_ctcp,
    strings::h_str_ctor,
    strings::h_str_ctor_long,
    strings::h_str_conv,
    strings::h_str_userid,
    split::h_split_model,
    split::h_split_utf8,
    split::h_split_utf8_guard,
    tf::h_tf_policy,
    strings::h_string_laws,
    strings::h_string_text,
    strings::h_typed_laws,
    msg::h_source_long,
    split::h_builder_model,
    split::h_builder_utf8,
    tf::h_tf_casemap,
    tf::h_tf_casemap_long,
    tf::h_tf_typed,
    tf::h_tf_trim,
    tf::h_tag_escape,
    stream::h_stream_client,
    stream::h_stream_server,
    stream::h_stream_long,
}
