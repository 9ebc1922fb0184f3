"""What each check runs: harness entries, their bounds, and which tier they belong to."""
from dataclasses import dataclass, field


@dataclass
class H:
    entry: str
    bounds: str
    tier: str = "quick"      # "thorough": only there
    required: bool = True    # not required: reported as unexplored when it runs out of time
    z3_all: bool = True      # every branch decision and assertion also goes to Z3
    time: int = 400
    reach: tuple = ("checked",)
    max_steps: int = 0
    quick_only: bool = False


def Q(entry, bounds, **k):
    return H(entry, bounds, **k)


def T(entry, bounds, **k):
    k.setdefault("required", False)
    k.setdefault("time", 1500)
    return H(entry, bounds, tier="thorough", **k)


SIZES = "24 sizes from 1 to 1023 bytes (fixed letters, one arbitrary ASCII character at either end)"
SECONDS = "every second from 1970-01-01T00:00:00Z to 9999-12-31T23:59:59Z"
SOME = "every second of every 100th block of 256 days between 1970 and 9999"
MIXED = "all combinations of 5 methods, region given (1 arbitrary ASCII byte) or not, 2 keys and e-mails, 4 sets of parameters, 4 sets of headers, object (1 arbitrary ASCII byte) or not, with arbitrary bytes in them"
MIXED_TIMES = "6 starts from 1970 to 9999, arbitrary nanoseconds, given or from the clock, 2 methods, with and without parameters, headers, region"
COUNTS = "0 to 30 parameters or 0 to 30 headers, names in 4 orders, an arbitrary printable character in the values"

BUDGET = {"quick": 840, "thorough": 7200}
PLAN = {
    "C01": [
        Q("h_c01_object2", "object name: every UTF-8 string of 2 bytes"),
        Q("h_c01_bucket2", "bucket name: every UTF-8 string of 2 bytes"),
        Q("h_c01_param", "one query parameter: every name and value of 1 byte"),
        Q("h_c01_header", "one header: every value of 3 bytes (printable ASCII, space, tab)"),
        Q("h_c01_region", "region: every UTF-8 string of 2 bytes"),
        Q("h_c01_email", "signer e-mail: every UTF-8 string of 2 bytes"),
        Q("h_c01_mixed", MIXED),
        Q("h_c01_mixed_times", MIXED_TIMES),
        Q("h_c01_counts", COUNTS),
        Q("h_c01_sized_object", "object name: " + SIZES),
        Q("h_c01_sized_value", "parameter value: " + SIZES),
        Q("h_c01_sized_header", "header value: " + SIZES),
        Q("h_c01_some_seconds", "start: " + SOME, quick_only=True),
        T("h_c01_seconds", "start: " + SECONDS, z3_all=False),
    ],
    "C02": [
        Q("h_c02_object2", "object name: every UTF-8 string of 2 bytes"),
        Q("h_c02_object3", "object name: every UTF-8 string of 3 bytes"),
        Q("h_c02_bucket2", "bucket name: every UTF-8 string of 2 bytes"),
        Q("h_c02_segments", "object name: every sequence of 4 of 8 path segments (empty, ., .., %2e, backslash, %2F, ...)"),
        Q("h_c02_long", "object name of about 64 bytes: four quarters, each arbitrary unreserved, arbitrary reserved/control, letters with a slash, or non-ASCII"),
        Q("h_c02_sized_object", "object name: " + SIZES),
        Q("h_c02_sized_bucket", "bucket name: " + SIZES),
    ],
    "C03": [
        Q("h_c03_one", "one parameter: every UTF-8 name and value of 1 byte"),
        Q("h_c03_two", "two parameters: every ASCII name and value of 1 byte"),
        Q("h_c03_pool2", "two parameters out of 9 names and 3 values"),
        Q("h_c03_pool", "three parameters out of 9 names and 2 values (prefixes, case, names around the X-Goog- ones, repetitions)"),
        Q("h_c03_sized_name", "parameter name: " + SIZES),
        Q("h_c03_sized_value", "parameter value: " + SIZES),
        Q("h_c03_sized_email", "signer e-mail: " + SIZES),
        Q("h_c03_counts", COUNTS),
        Q("h_c03_mixed", MIXED),
    ],
    "C04": [
        Q("h_c04_value", "header value: every 3 bytes of printable ASCII, space, tab"),
        Q("h_c04_value5", "header value: every 5 bytes of printable ASCII, space, tab"),
        Q("h_c04_name", "header name: every token of 2 characters"),
        Q("h_c04_pool2", "two headers out of 6 names, values of 2 arbitrary characters"),
        Q("h_c04_pool", "three headers out of 6 names (case variants, repetitions, any order), values of 1 arbitrary character"),
        Q("h_c04_sized_name", "header name: " + SIZES),
        Q("h_c04_sized_value", "header value: " + SIZES),
        Q("h_c04_counts", COUNTS),
        Q("h_c04_mixed", MIXED),
    ],
    "C05": [
        Q("h_c05_some_seconds", "start: " + SOME, quick_only=True),
        T("h_c05_seconds", "start: " + SECONDS, z3_all=False, required=True),
        Q("h_c05_lengths", "length: every number of seconds from 0 to 604800"),
        Q("h_c05_nanos", "every pair of nanoseconds of start and end, 7 lengths"),
        Q("h_c05_clock", "start from the clock: every second of 256 days, every nanosecond"),
        Q("h_c05_mixed", MIXED_TIMES),
        Q("h_c05_bad_length", "every length in seconds (64 bits) outside 0..=604800"),
        Q("h_c05_bad_nanos", "every negative length of less than a second and every length of 604801 s and a fraction"),
        Q("h_c05_bad_start", "every start in seconds (64 bits) before 1970 or after 9999"),
    ],
    "C06": [
        Q("h_c06_region", "region: every UTF-8 string of 2 bytes"),
        Q("h_c06_email", "signer e-mail: every UTF-8 string of 2 bytes"),
        Q("h_c06_some_seconds", "start: " + SOME, quick_only=True),
        T("h_c06_seconds", "start: " + SECONDS, z3_all=False, required=True),
        Q("h_c06_sized_region", "region: " + SIZES),
        Q("h_c06_sized_email", "signer e-mail: " + SIZES),
        Q("h_c06_mixed", MIXED),
        Q("h_c06_mixed_times", MIXED_TIMES),
    ],
    "C07": [
        Q("h_c07_method3", "method: every UTF-8 string of 3 bytes", reach=("accepted", "rejected", "checked")),
        Q("h_c07_method4", "method: every UTF-8 string of 4 bytes", reach=("accepted", "rejected", "checked")),
        Q("h_c07_method6", "method: every UTF-8 string of 6 bytes", reach=("accepted", "rejected", "checked")),
        Q("h_c07_short", "method: every UTF-8 string of 0, 1, 2, 7 or 8 bytes"),
        Q("h_c07_mixed", MIXED),
    ],
    "C08": [
        Q("h_c08_subsets", "every subset of the fields without a policy, values of 1 arbitrary letter or digit, up to 2 metadata entries"),
        Q("h_c08_signed_subsets", "every subset of the fields with a policy, likewise, up to 1 metadata entry"),
        Q("h_c08_text", "each text field and metadata name: every UTF-8 string of 2 bytes"),
        Q("h_c08_signed_text", "the same with a policy"),
        Q("h_c08_lengths", "content length: every number of up to 19 digits and the 256 largest 64-bit numbers"),
        Q("h_c08_statuses", "status: every 16-bit number"),
        Q("h_c08_metas", "three metadata entries out of 6 names (repetitions, any order)"),
    ],
    "C09": [
        Q("h_c09_subsets", "every subset of the fields, values of 1 arbitrary letter or digit, up to 1 metadata entry"),
        Q("h_c09_text", "each text field and metadata name: every UTF-8 string of 1 byte"),
        Q("h_c09_text2", "each text field and metadata name: every UTF-8 string of 2 bytes"),
        Q("h_c09_long", "object name of three parts: 12 arbitrary printable, a control character, quotes and backslashes, or non-ASCII"),
        Q("h_c09_lengths", "content length: every number of up to 19 digits and the 256 largest 64-bit numbers"),
        Q("h_c09_statuses", "status: every 16-bit number"),
        Q("h_c09_metas", "three metadata entries out of 6 names (repetitions, any order)"),
        Q("h_c09_signers", "signer e-mail or region: every UTF-8 string of 2 bytes; both keys"),
    ],
    "C10": [
        Q("h_c10_subsets", "every subset of the fields, values of 1 arbitrary letter or digit, up to 1 metadata entry"),
        Q("h_c10_text", "each text field and metadata name: every UTF-8 string of 2 bytes"),
        Q("h_c10_signers", "signer e-mail or region: every UTF-8 string of 2 bytes; both keys"),
        Q("h_c10_starts", "start: " + SOME, z3_all=False),
    ],
    "C11": [
        Q("h_c11_some_ends", "end: " + SOME, z3_all=False, quick_only=True),
        Q("h_c11_some_starts", "start: " + SOME, z3_all=False, quick_only=True),
        T("h_c11_ends", "end: " + SECONDS, z3_all=False, required=True),
        T("h_c11_starts", "start: " + SECONDS, z3_all=False, required=True),
        Q("h_c11_nanos", "every pair of nanoseconds of start and end"),
        Q("h_c11_clock", "start from the clock: every second of 256 days, every nanosecond"),
        Q("h_c11_bad_order", "every end not after the start (seconds and nanoseconds), start given or from the clock"),
        Q("h_c11_bad_range", "every start or end in seconds (64 bits) before 1970 or after 9999"),
    ],
    "C12": [
        Q("h_c12_validity", "bucket, key given or not, up to 2 metadata names (empty or not), policy absent or with 5 kinds of signing key", reach=("valid", "invalid", "checked")),
    ],
    "C14": [
        Q("h_c14_history2", "two builds (URL or form) by clones of a key, at any nanosecond, any 0 to 2^32-1 s apart, every expires_in of 1 to 3 digits", reach=("checked", "fetched", "reused")),
        Q("h_c14_history3", "three builds, any 0 to 65535 s apart, every expires_in of 1 or 2 digits", reach=("checked", "fetched", "reused")),
        Q("h_c14_history3f", "three builds likewise, each fetch succeeding, or failing at either request", reach=("checked", "fetched", "reused", "failed")),
        Q("h_c14_two", "two concurrent builds, every schedule of 8 polls (then alternately), lifetimes 30, 45, 3600 s", reach=("checked", "reused at the end")),
        Q("h_c14_two_time", "two concurrent builds, every schedule of 5 polls, any 0 to 255 s between polls, every expires_in of 1 or 2 digits"),
        Q("h_c14_two_fail", "two concurrent builds, every schedule of 6 polls, each fetch succeeding, or failing at either request"),
        Q("h_c14_two_drop", "two concurrent builds, every schedule of 8 polls and at most one drop of a build at any point", reach=("checked", "dropped", "reused at the end")),
        Q("h_c14_two_drop_fail", "two concurrent builds, every schedule of 6 polls and drops, fetches succeeding or failing", reach=("checked", "dropped")),
        Q("h_c14_three", "three concurrent builds, every schedule of 5 polls and at most one drop", reach=("checked", "dropped")),
        T("h_c14_history4", "four builds, any 0 to 65535 s apart, every expires_in of 1 or 2 digits", z3_all=False),
        T("h_c14_two_deep", "two concurrent builds, every schedule of 11 polls and at most one drop", z3_all=False),
        T("h_c14_three_deep", "three concurrent builds, every schedule of 7 polls and at most one drop", z3_all=False),
    ],
    "C15": [
        Q("h_c15_hosts", "GCE_METADATA_HOST unset or one of 4 hosts (name, IP address, with port)"),
        Q("h_c15_statuses", "every status from 100 to 999 of either answer; connection or body failing", reach=("checked", "accepted", "rejected")),
        Q("h_c15_values", "e-mail with 3, token of 4 arbitrary characters"),
        Q("h_c15_members", "token answers with each member right, of wrong type or value (4 kinds), or missing; order, other members, white space", reach=("checked", "accepted", "rejected")),
        Q("h_c15_garbage", "token answer: every UTF-8 text of 3 bytes", reach=("checked", "rejected")),
        Q("h_c15_damaged", "a proper token answer with any one byte replaced by any ASCII character", reach=("checked", "accepted", "rejected")),
        Q("h_c15_token_types", "token type: every 6 ASCII characters", reach=("checked", "accepted", "rejected")),
        Q("h_c15_lifetimes", "expires_in: every number of 1 to 5 digits; every number in blocks of 10^6 around 2^63 - now and 2^63; numbers around and above 2^64", reach=("checked", "accepted", "rejected")),
    ],
    "C16": [
        Q("h_c16_signature", "returned signature: every 5 bytes (signed URL)"),
        Q("h_c16_signature6", "returned signature: every 6 bytes (form)"),
        Q("h_c16_account", "e-mail and token with 3 arbitrary characters each (signed URL)"),
        Q("h_c16_form_account", "e-mail and token with 3 arbitrary characters each (form)"),
        Q("h_c16_message", "object, region, header value, parameter name, or key and metadata of a form: every UTF-8 string of 2 bytes"),
        Q("h_c16_statuses", "every status from 100 to 999; connection or body failing", reach=("checked", "accepted", "rejected")),
        Q("h_c16_garbage", "answer: every UTF-8 text of 3 bytes", reach=("checked", "rejected")),
        Q("h_c16_blob4", "signedBlob: every 4 ASCII characters", reach=("checked", "accepted", "rejected")),
        T("h_c16_blob8", "signedBlob: every 8 ASCII characters", reach=("checked", "accepted", "rejected")),
        Q("h_c16_members", "answers with signedBlob right, of wrong type, or missing; order, other members, white space", reach=("checked", "accepted", "rejected")),
        Q("h_c16_not_remote", "bound-token key without remote signing; URL or form"),
    ],
    "C13": [
        Q("h_c13_text2", "any field of a signed URL: every UTF-8 string of 2 bytes; 6 signing keys, remote signing on or off", reach=("checked", "ok", "error")),
        Q("h_c13_times", "every pair of instants (64-bit seconds, nanoseconds) of which a signed URL cannot be made, start given or from the clock", reach=("checked", "error")),
        Q("h_c13_form_times", "likewise for a form", reach=("checked", "error")),
        Q("h_c13_form2", "any text field of a form: every UTF-8 string of 2 bytes; 6 signing keys, remote signing on or off", reach=("checked", "ok", "error")),
        Q("h_c13_huge", "any field: texts of 65400, 65535, 70000 bytes", reach=("checked", "ok", "error")),
        Q("h_c13_many", "1000 or 4000 headers, parameters or metadata entries", reach=("checked", "ok")),
        Q("h_c13_many2", "24576, 32768 or 40000 headers, parameters or metadata entries"),
        Q("h_c13_pem", "private key: every UTF-8 string of 2 bytes, whole or in 4 places of a PEM text", reach=("checked", "error")),
        Q("h_c13_answer", "answers of the metadata server and the signing service: every UTF-8 text of 2 bytes, whole or in 4 places", reach=("checked", "ok", "error")),
        Q("h_c13_hosts", "20 odd values of GCE_METADATA_HOST", reach=("checked", "error")),
        Q("h_c13_path", "path of a key file: every UTF-8 string of 2 bytes appended", reach=("checked", "error")),
        Q("h_c13_json", "service-account JSON: every UTF-8 text of 3 bytes"),
        T("h_c13_text3", "any field of a signed URL: every UTF-8 string of 3 bytes", reach=("checked", "ok", "error")),
        T("h_c13_huge2", "any field: texts of 8 sizes from 1023 to 131072 bytes", reach=("checked", "ok", "error")),
        T("h_c13_pem3", "private key: every UTF-8 string of 3 bytes, whole or in a PEM text", reach=("checked", "error")),
        T("h_c13_answer3", "answers of the remote services: every UTF-8 text of 3 bytes", reach=("checked", "ok", "error")),
    ],
    "C17": [
        Q("h_c17_proper", "2 keys with their e-mails; the URL made is verified"),
        Q("h_c17_proper_file", "the same read from a file"),
        Q("h_c17_members", "both members right, of 5 wrong types, or missing; order, other members, white space", reach=("checked", "accepted", "rejected")),
        Q("h_c17_members_file", "the same read from a file", reach=("checked", "accepted", "rejected")),
        Q("h_c17_email", "e-mail text in JSON: every UTF-8 text of 1 byte", reach=("checked", "accepted", "rejected")),
        Q("h_c17_email2", "e-mail text in JSON: every UTF-8 text of 2 bytes", reach=("checked", "accepted", "rejected")),
        Q("h_c17_key", "private key text in JSON: every UTF-8 text of 1 byte", reach=("checked", "accepted", "rejected")),
        Q("h_c17_key2", "private key text in JSON: every UTF-8 text of 2 bytes", reach=("checked", "accepted", "rejected")),
        Q("h_c17_unicode", "9 \\u escapes (surrogates alone and in pairs), any one digit replaced by any ASCII character", reach=("checked", "accepted", "rejected")),
        Q("h_c17_damaged", "a proper text with any one byte replaced by any ASCII character", reach=("checked", "accepted", "rejected")),
        Q("h_c17_damaged_pem", "likewise, the key framed as PEM", reach=("checked", "accepted", "rejected")),
        Q("h_c17_around", "any ASCII character before and any after the text", reach=("checked", "accepted", "rejected")),
        Q("h_c17_garbage", "every UTF-8 text of 3 bytes, and 7 other texts that are no object with the members"),
        Q("h_c17_file", "file: any byte inserted in 4 places", reach=("checked", "accepted", "rejected")),
        Q("h_c17_no_file", "file missing, unreadable, or empty"),
        T("h_c17_garbage4", "every UTF-8 text of 4 bytes"),
        T("h_c17_file2", "file: any 2 bytes inserted in 4 places", reach=("checked", "accepted", "rejected")),
    ],
    "C18": [
        Q("h_c18_hmac", "every pair of HMAC secrets of 4 ASCII characters; 12 situations (URL and form, right and wrong), remote signing on or off"),
        Q("h_c18_private_keys", "every pair of usable private keys of 6 bytes, given or in JSON (proper or damaged elsewhere); 12 situations"),
        Q("h_c18_tokens", "every pair of tokens of 2 characters; 12 situations, and 15 faults of the remote services"),
    ],
}
OUTSIDE = {}
ASSUMPTIONS = {}
NA = {}
