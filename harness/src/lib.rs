//! Symbolic harnesses over the public API of cloud-storage-signature.
#![allow(static_mut_refs)]
pub mod bound;
pub mod crypto;
pub mod env;
pub mod form;
pub mod keys;
pub mod oracle;
pub mod signed;
pub mod sym;

macro_rules! harnesses {
    ($($name:ident => $body:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $body })*
        pub static HARNESSES: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name as extern "C" fn())),*];
    };
}
use signed::P;
use form::F;
harnesses! {
    h_c01_object2 => signed::object(P::Authentic, "", 2, "");
    h_c01_bucket2 => signed::bucket(P::Authentic, "", 2, "");
    h_c01_param => signed::one_param(P::Authentic, 1, 1);
    h_c01_header => signed::header_value(P::Authentic, 3);
    h_c01_region => signed::region(P::Authentic, 2);
    h_c01_email => signed::email(P::Authentic, 2);
    h_c01_mixed => signed::mixed(P::Authentic);
    h_c01_mixed_times => signed::mixed_times(P::Authentic);
    h_c01_counts => signed::counts(P::Authentic, 31);
    h_c01_sized_object => signed::sized(P::Authentic, 0);
    h_c01_sized_value => signed::sized(P::Authentic, 3);
    h_c01_sized_header => signed::sized(P::Authentic, 5);
    h_c01_some_seconds => signed::all_seconds(P::Authentic, 100);
    h_c01_seconds => signed::all_seconds(P::Authentic, 1);
    h_c02_sized_object => signed::sized(P::Target, 0);
    h_c02_sized_bucket => signed::sized(P::Target, 1);
    h_c02_object2 => signed::object(P::Target, "", 2, "");
    h_c02_object3 => signed::object(P::Target, "", 3, "");
    h_c02_bucket2 => signed::bucket(P::Target, "", 2, "");
    h_c02_long => signed::long_object(P::Target, 64);
    h_c02_segments => signed::segments(P::Target, 4);
    h_c03_one => signed::one_param(P::Params, 1, 1);
    h_c03_two => signed::some_params(P::Params, &[(1, 1), (1, 1)], sym::ascii);
    h_c03_sized_name => signed::sized(P::Params, 2);
    h_c03_sized_value => signed::sized(P::Params, 3);
    h_c03_sized_email => signed::sized(P::Params, 7);
    h_c03_counts => signed::counts(P::Params, 31);
    h_c03_mixed => signed::mixed(P::Params);
    h_c03_pool2 => signed::pool_params(P::Params, 2);
    h_c03_pool => signed::pool_params(P::Params, 3);
    h_c04_value => signed::header_value(P::Headers, 3);
    h_c04_sized_name => signed::sized(P::Headers, 4);
    h_c04_sized_value => signed::sized(P::Headers, 5);
    h_c04_counts => signed::counts(P::Headers, 31);
    h_c04_mixed => signed::mixed(P::Headers);
    h_c04_pool2 => signed::pool_headers(P::Headers, 2, 2);
    h_c04_pool => signed::pool_headers(P::Headers, 3, 1);
    h_c04_value5 => signed::header_value(P::Headers, 5);
    h_c04_name => signed::header_name(P::Headers, 2);
    h_c05_seconds => signed::all_seconds(P::Window, 1);
    h_c05_some_seconds => signed::all_seconds(P::Window, 100);
    h_c05_lengths => signed::all_lengths(P::Window);
    h_c05_nanos => signed::nanos(P::Window);
    h_c05_clock => signed::from_clock(P::Window);
    h_c05_mixed => signed::mixed_times(P::Window);
    h_c05_bad_length => signed::bad_length("C05 a period that no URL may have is rejected");
    h_c05_bad_nanos => signed::bad_length_nanos("C05 a period that no URL may have is rejected");
    h_c05_bad_start => signed::bad_start("C05 a start that cannot be expressed is rejected");
    h_c06_seconds => signed::all_seconds(P::Scope, 1);
    h_c06_some_seconds => signed::all_seconds(P::Scope, 100);
    h_c06_sized_region => signed::sized(P::Scope, 6);
    h_c06_sized_email => signed::sized(P::Scope, 7);
    h_c06_mixed => signed::mixed(P::Scope);
    h_c06_mixed_times => signed::mixed_times(P::Scope);
    h_c06_region => signed::region(P::Scope, 2);
    h_c06_email => signed::email(P::Scope, 2);
    h_c07_short => signed::short_methods();
    h_c07_mixed => signed::mixed(P::Method);
    h_c07_method3 => signed::method(3);
    h_c07_method4 => signed::method(4);
    h_c07_method6 => signed::method(6);
    h_c08_subsets => form::subsets(F::Fidelity, 1, false, 2);
    h_c08_signed_subsets => form::subsets(F::Fidelity, 1, true, 1);
    h_c08_text => form::one_text(F::Fidelity, 2, false);
    h_c08_signed_text => form::one_text(F::Fidelity, 2, true);
    h_c08_lengths => form::lengths(F::Fidelity, false);
    h_c08_statuses => form::statuses(F::Fidelity, false);
    h_c08_metas => form::metas(F::Fidelity, 3, false);
    h_c09_subsets => form::subsets(F::Complete, 1, true, 1);
    h_c09_text => form::one_text(F::Complete, 1, true);
    h_c09_text2 => form::one_text(F::Complete, 2, true);
    h_c09_long => form::long_text(F::Complete, 3, 12);
    h_c09_lengths => form::lengths(F::Complete, true);
    h_c09_statuses => form::statuses(F::Complete, true);
    h_c09_metas => form::metas(F::Complete, 3, true);
    h_c09_signers => form::signers(F::Complete, 2);
    h_c10_subsets => form::subsets(F::Signed, 1, true, 1);
    h_c10_text => form::one_text(F::Signed, 2, true);
    h_c10_signers => form::signers(F::Signed, 2);
    h_c10_starts => form::all_starts(F::Signed, 100);
    h_c11_ends => form::all_ends(F::Period, 1);
    h_c11_some_ends => form::all_ends(F::Period, 100);
    h_c11_starts => form::all_starts(F::Period, 1);
    h_c11_some_starts => form::all_starts(F::Period, 100);
    h_c11_nanos => form::nanos(F::Period);
    h_c11_clock => form::from_clock(F::Period);
    h_c11_bad_order => form::bad_order("C11 an empty period is rejected");
    h_c11_bad_range => form::bad_range("C11 an instant that cannot be expressed is rejected");
    h_c12_validity => form::validity("C12 exactly the complete and supported forms build");
    h_c14_history2 => bound::history(2, 3, false, true, true);
    h_c14_history3 => bound::history(3, 2, false, false, false);
    h_c14_history3f => bound::history(3, 2, true, false, false);
    h_c14_two => bound::schedule(2, 8, false, 0, false);
    h_c14_two_time => bound::schedule(2, 5, false, 0, true);
    h_c14_two_fail => bound::schedule(2, 6, true, 0, false);
    h_c14_two_drop => bound::schedule(2, 8, false, 1, false);
    h_c14_two_drop_fail => bound::schedule(2, 6, true, 2, false);
    h_c14_three => bound::schedule(3, 5, false, 1, false);
    h_c14_history4 => bound::history(4, 2, false, false, false);
    h_c14_two_deep => bound::schedule(2, 11, false, 1, false);
    h_c14_three_deep => bound::schedule(3, 7, false, 1, false);
    h_c15_hosts => bound::hosts();
    h_c15_statuses => bound::statuses();
    h_c15_values => bound::values();
    h_c15_members => bound::members();
    h_c15_garbage => bound::garbage(3);
    h_c15_damaged => bound::damaged();
    h_c15_token_types => bound::token_types(6);
    h_c15_lifetimes => bound::lifetimes(5);
    h_c16_signature => bound::remote_signature(5, false);
    h_c16_signature6 => bound::remote_signature(6, true);
    h_c16_account => bound::remote_account(3, false);
    h_c16_form_account => bound::remote_account(3, true);
    h_c16_message => bound::remote_message(2);
    h_c16_statuses => bound::sign_statuses();
    h_c16_garbage => bound::sign_garbage(3);
    h_c16_blob4 => bound::sign_blob(4);
    h_c16_blob8 => bound::sign_blob(8);
    h_c16_members => bound::sign_members();
    h_c16_not_remote => bound::not_remote();
    h_c13_text2 => keys::any_text(2);
    h_c13_text3 => keys::any_text(3);
    h_c13_times => keys::any_times(false);
    h_c13_form_times => keys::any_times(true);
    h_c13_form2 => keys::any_form(2);
    h_c13_huge => keys::huge(&[65_400, 65_535, 70_000]);
    h_c13_huge2 => keys::huge(&[1_023, 1_024, 8_192, 32_767, 32_768, 65_534, 65_536, 131_072]);
    h_c13_many => keys::many(&[1_000, 4_000]);
    h_c13_many2 => keys::many(&[24_576, 32_768, 40_000]);
    h_c13_pem => keys::any_pem(2);
    h_c13_pem3 => keys::any_pem(3);
    h_c13_answer => keys::any_answer(2);
    h_c13_answer3 => keys::any_answer(3);
    h_c13_hosts => keys::odd_hosts();
    h_c13_path => keys::any_path(2);
    h_c13_json => keys::garbage(3);
    h_c17_proper => keys::proper(false);
    h_c17_proper_file => keys::proper(true);
    h_c17_members => keys::members(false);
    h_c17_members_file => keys::members(true);
    h_c17_email => keys::texts(1, true);
    h_c17_email2 => keys::texts(2, true);
    h_c17_key => keys::texts(1, false);
    h_c17_key2 => keys::texts(2, false);
    h_c17_unicode => keys::unicode();
    h_c17_damaged => keys::damaged("p");
    h_c17_damaged_pem => keys::damaged("-----BEGIN P-----\\nAAAA\\n-----END P-----");
    h_c17_around => keys::around();
    h_c17_garbage => keys::garbage(3);
    h_c17_garbage4 => keys::garbage(4);
    h_c17_file => keys::file(1);
    h_c17_file2 => keys::file(2);
    h_c17_no_file => keys::no_file();
    h_c18_hmac => keys::hmac(4);
    h_c18_private_keys => keys::private_keys(6);
    h_c18_tokens => keys::tokens(2);
}
