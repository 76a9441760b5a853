#![allow(dead_code)]
#[path = "../../harness/src/nd.rs"]
pub mod nd;
#[cfg(feature = "native")]
#[path = "../../harness/src/native.rs"]
pub mod native;
#[path = "../../harness/src/spec.rs"]
mod spec;
mod clock;
mod modes;
mod queue;
mod world;
mod dispatch;
mod nicks;
mod register;
mod sasl;
mod caps;
mod config;
mod handlers;
mod run;
mod names;
mod reset;
mod tcp;

macro_rules! entries {
    ($($m:ident :: $n:ident),* $(,)?) => {
        $(#[no_mangle] pub extern "C" fn $n() { $m::$n() })*
        pub static ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
    };
}

entries! {
    modes::h_mode,
    modes::h_modeset,
    modes::h_modeset_iter,
    modes::h_modetypes,
    modes::h_modetypes_sets,
    modes::h_modetypes_edit,
    modes::h_modetypes_text,
    modes::h_statusmodes,
    modes::h_chanmodes,
    queue::h_queue_bucket,
    queue::h_queue_window,
    queue::h_queue_extreme,
    queue::h_queue_edit,
    queue::h_queue_labels,
    queue::h_queue_labels_many,
    queue::h_queue_adjust,
    dispatch::h_dispatch,
    dispatch::h_adjust,
    dispatch::h_state,
    dispatch::h_yield_all,
    nicks::h_nick_rng,
    nicks::h_nick_seq,
    nicks::h_nick_chain,
    nicks::h_nick_invalid,
    nicks::h_nick_defaults,
    register::h_reg_burst,
    register::h_reg_caps,
    register::h_reg_auth,
    register::h_reg_nicks,
    sasl::h_sasl_plain,
    sasl::h_sasl_long,
    sasl::h_sasl_challenge,
    sasl::h_sasl_order,
    caps::h_cap_parse,
    caps::h_cap_combine,
    caps::h_cap_req,
    register::h_reg_info,
    register::h_reg_who,
    register::h_reg_redirect,
    handlers::h_autopong,
    handlers::h_ping,
    handlers::h_ctcp_version,
    handlers::h_track,
    handlers::h_source_len,
    register::h_reg_srclen,
    run::h_run_times,
    run::h_run_trickle,
    run::h_run_errors,
    config::h_server_addr,
    config::h_server_addr_text,
    config::h_reg_defaults_caps,
    config::h_reg_defaults,
    names::h_isupport,
    names::h_sasl_cap,
    names::h_namemap,
    names::h_typed,
    names::h_yield_parsed,
    names::h_yield_just,
    reset::h_client_reset,
    reset::h_client_move,
    reset::h_run_wrapped,
    tcp::h_tcp,
    tcp::h_tcp_badaddr,
    tcp::h_tcp_run,
}
