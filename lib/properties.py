"""Writes properties.jsonl (run by hand after editing)."""
import json, os
SU="src/signed_url.rs"; PS="src/private/signed_url.rs"; CR="src/private/canonical_request.rs"; SK="src/private/signing_key_inner.rs"; BT="src/private/bound_token.rs"; HF="src/html_form_data.rs"; PD="src/private/policy_document.rs"
def P(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    assert statement.count('. ')<3,id
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
            "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
L=[
P("C01","A signed URL carries a valid signature over exactly the request it makes",
 "For every supported method and all well-formed inputs, building a signed URL with a service-account key succeeds, and the signature in the URL is the lowercase hex RSA PKCS#1 v1.5 SHA-256 signature, made once with exactly the given private key, of the V4 string to sign (algorithm, date and scope as they appear in the URL, SHA-256 of the canonical request). The canonical request is the one a verifier reconstructs from the URL as it stands: method, path, query without the signature, the signed headers with their values, the list of signed headers and UNSIGNED-PAYLOAD. X-Goog-Signature is the last query parameter and occurs once.",
 ["inputs","configurations"],"all bucket names, object names, regions, methods, headers, query parameters, start times, periods, signer e-mails and keys",
 "The tests compare a handful of fixed URLs from the documentation; a signature that stops verifying for one character, length or combination of inputs is not among them.",
 [SU,PS,CR,"src/private/string_to_sign.rs",SK],[("build",SU+" build_signed_url"),("canonical request",CR),("string to sign","src/private/string_to_sign.rs"),("signing",SK+" sign")]),
P("C02","A signed URL addresses exactly the given bucket and object",
 "For every bucket name and object name, the URL's scheme is https, its host is storage.googleapis.com, and its path is a slash, the bucket and a slash followed by the object, each recoverable exactly by percent-decoding. No byte of a name is lost, added, reinterpreted as structure of the URL (query, fragment, dot segments) or changed by URL normalisation.",
 ["inputs"],"all bucket and object names (any UTF-8 text)",
 "The tests use names of plain letters; the names that break are those with reserved characters, dot segments, percent signs or non-ASCII text in particular positions.",
 [SU,PS],[("resource path",SU+" build_signed_url"),("URL text",PS)]),
P("C03","A signed URL carries exactly the given query parameters in canonical form",
 "For all query parameters given by the caller, the query of the URL consists of exactly those parameters plus X-Goog-Algorithm, X-Goog-Credential, X-Goog-Date, X-Goog-Expires and X-Goog-SignedHeaders (and the signature), each once per occurrence and recoverable exactly by percent-decoding. Every byte of a name or value outside A-Z a-z 0-9 - . _ ~ is percent-encoded in upper-case hex, and the parameters are ordered by encoded name, then encoded value.",
 ["inputs"],"all lists of query parameter names and values",
 "The tests pass at most one or two plain parameters; encoding and ordering faults depend on single characters, on prefixes and on repeated names.",
 [PS,CR,SU],[("canonical query string",CR),("query of the URL",PS)]),
P("C04","Every request header is listed and signed in canonical form",
 "For all headers given by the caller (other than Host), X-Goog-SignedHeaders lists exactly the lower-cased distinct names of those headers and host, sorted and separated by semicolons. The signed canonical request contains each of them once with its value, outer white space removed and inner runs of white space folded to one space, the values of a repeated name joined by commas in the order given.",
 ["inputs"],"all lists of header names (tokens) and values",
 "The tests use one or two ready-made headers; case variants, repetitions, order and white space combine without bound.",
 [CR,SU],[("canonical headers",CR),("signed headers",CR+" / "+SU)]),
P("C05","A signed URL is valid exactly in the requested period",
 "X-Goog-Date is the UTC second of the requested start (of the call's clock reading when none is requested), as YYYYMMDDTHHMMSSZ, and X-Goog-Expires is the number of whole seconds from the start to the requested end. A period that is negative or longer than 604800 whole seconds, and a start that the date cannot express (before 1970 or after year 9999), is an error and never a URL.",
 ["inputs"],"all starts and ends, whole seconds and nanoseconds, given or taken from the clock",
 "The tests sample a few instants; calendar arithmetic, leap days, rounding of fractions and the limits hold or fail at single seconds.",
 [SU,"src/private/active_datetime.rs","src/private/expiration.rs","src/private/utils/unix_timestamp.rs"],[("start","src/private/active_datetime.rs"),("period","src/private/expiration.rs"),("conversion","src/private/utils/unix_timestamp.rs")]),
P("C06","The credential names signer, day of the start, region and service",
 "X-Goog-Credential is the signer's e-mail, the date part of X-Goog-Date, the given region (auto when none is given), storage and goog4_request, joined by slashes, and the same scope is the one that is signed. X-Goog-Algorithm is GOOG4-RSA-SHA256.",
 ["inputs","configurations"],"all e-mails, regions and start times",
 "The tests use one e-mail and two regions at fixed instants; the date of the scope and of the request must agree at every second.",
 ["src/private/credential_scope.rs","src/private/date.rs","src/private/location.rs",SU],[("credential scope","src/private/credential_scope.rs"),("date","src/private/date.rs"),("region","src/private/location.rs")]),
P("C07","Exactly DELETE, GET, HEAD, POST and PUT are accepted, and signed as given",
 "Building a signed URL succeeds for the methods DELETE, GET, HEAD, POST and PUT and fails for every other text, including other case and surrounding white space. The method that is signed is the given one.",
 ["inputs"],"all method texts",
 "The tests try single methods; the set of rejected texts is infinite.",
 ["src/private/http_verb.rs",SU],[("method parsing","src/private/http_verb.rs")]),
P("C08","The form data has exactly the given fields and values, in the documented order",
 "For every combination of fields set on the builder (with key always, and with bucket when a policy is requested), the form data consists of exactly those fields under their documented names with exactly the given values, content length and status as decimal numbers, and one x-goog-meta-NAME entry per metadata entry in the order given. With a policy requested there are in addition exactly policy, x-goog-algorithm, x-goog-credential, x-goog-date and x-goog-signature. The order is: acl, bucket, Cache-Control, Content-Disposition, Content-Encoding, Content-Length, Content-Type, Expires, key, policy, success_action_redirect, success_action_status, x-goog-algorithm, x-goog-credential, x-goog-custom-time, x-goog-date, x-goog-signature, metadata.",
 ["inputs","configurations"],"all subsets of fields, all values, all numbers of metadata entries, with and without a policy",
 "The tests set all fields once or a single field; there are thousands of subsets and arbitrary values.",
 [HF],[("fields",HF+" build")]),
P("C09","The policy pins every field of the form to its value and nothing else",
 "When a policy is requested, the policy field is the standard base64 of a JSON object with exactly the members conditions and expiration. Its conditions are exactly one per form field other than policy and x-goog-signature: equality with the field's exact value (decoded from JSON), and for Content-Length a content-length-range whose two bounds equal it. No field of the form is left unconstrained and no condition contradicts or exceeds the form.",
 ["inputs","configurations"],"all subsets of fields and all values, including quotes, backslashes, control and non-ASCII characters",
 "The tests compare one or two policies verbatim; a dropped condition or mis-escaped character shows only for particular subsets or characters.",
 [HF,PD,"src/private/policy_document/condition.rs","src/private/policy_document/value.rs","src/private/policy_document/field.rs"],[("conditions",HF+" build"),("serialisation",PD)]),
P("C10","The form's signature is valid and over exactly the policy in the form",
 "When a policy is requested with a service-account key, x-goog-signature is the lowercase hex RSA PKCS#1 v1.5 SHA-256 signature, made with exactly the given key, of the policy field's text. x-goog-algorithm is GOOG4-RSA-SHA256, and x-goog-credential and x-goog-date name the signer, the day and second of the start, and the region (auto when none is given).",
 ["inputs","configurations"],"all forms, keys, e-mails, regions and starts",
 "The tests compare fixed signatures of fixed forms.",
 [HF,SK],[("policy signing",HF+" build"),("signing",SK+" sign")]),
P("C11","The policy expires exactly at the requested instant; impossible periods fail",
 "The expiration of the policy is the UTC second of the requested end as YYYY-MM-DDTHH:MM:SSZ, and x-goog-date the UTC second of the requested start (of the clock reading when none is requested) as YYYYMMDDTHHMMSSZ. An end that is not after the start, and a start or end before 1970 or after year 9999, is an error.",
 ["inputs"],"all starts and ends in seconds and nanoseconds",
 "The tests use fixed instants.",
 [HF,"src/private/policy_document/expiration.rs","src/private/active_datetime.rs"],[("expiration","src/private/policy_document/expiration.rs"),("start","src/private/active_datetime.rs")]),
P("C12","Form data builds exactly for complete and supported requests",
 "Building form data fails when the key is missing, when a policy is requested without a bucket, when a metadata name is empty, or when the signing key cannot sign (HMAC key, unusable private key, service-account key with remote signing requested). It succeeds otherwise; in particular neither bucket nor any other field is required without a policy.",
 ["configurations","inputs"],"all combinations of present and missing fields, metadata names and kinds of signing key",
 "The tests check single omissions.",
 [HF,SK],[("validation",HF+" build"),("kinds of key",SK)]),
P("C13","No input makes the library panic",
 "Building a signed URL, building form data and creating a signing key return a value or an error for every input: any text in any field, any instants the platform can represent, any kind and content of signing key, any number and size of headers and parameters, any answer of the metadata server or of the signing service. They never panic, overflow or hang.",
 ["inputs","configurations","fault_sequences"],"all inputs and all responses of the remote services",
 "The tests never pass hostile input; panics hide in unwraps, arithmetic and length limits that only particular values reach.",
 [SU,HF,SK,BT,CR,"src/private/utils/unix_timestamp.rs"],[("entry points",SU),("entry points",HF),("responses",BT)]),
P("C14","A bound token is fetched when needed, reused while fresh, and never used stale",
 "Over every history of builds with clones of one bound-token key, each use of the account (first to name the signer, then to sign) takes e-mail and token of the last successful fetch exactly when that token's lifetime (expires_in, counted from the fetch) still has more than 30 seconds to run; otherwise it makes one fetch (e-mail, then token), uses the result and remembers it for later. Concurrent builds share one fetch, and a failed fetch or one cut short by dropping the build leaves what is remembered unchanged and never blocks later builds.",
 ["histories","schedules","crash_points","fault_sequences"],"all sequences of calls, clock readings, lifetimes, failures, interleavings of concurrent calls and points at which a call is dropped",
 "The tests do not reach the metadata server at all; staleness shows only over several calls at particular clock readings and interleavings.",
 [BT,SK],[("cache",BT+" get_email_and_token"),("callers",SK)]),
P("C15","The metadata server is asked as documented and its answers are checked",
 "A fetch sends GET requests for the default service account's e-mail and then its token to the host named by GCE_METADATA_HOST (metadata.google.internal when unset) over http, each with Metadata-Flavor: Google and nothing secret. A failed connection, a status other than 2xx, an unreadable body, a malformed or incomplete token, a token type other than Bearer or an unrepresentable lifetime makes the call fail with an error; any other answer is used exactly as given.",
 ["fault_sequences","inputs","configurations"],"all statuses, bodies, token contents and host settings",
 "The tests never make the requests.",
 [BT],[("requests",BT)]),
P("C16","Remote signing sends exactly the message and uses exactly the returned signature",
 "With a bound-token key and remote signing requested, signing sends one POST to the signBlob method of the key's e-mail at iamcredentials.googleapis.com over https, authorised with the current token, whose JSON body has as payload the standard base64 of exactly the message to be signed; the signature in the result is the lowercase hex of the decoded signedBlob. A failed connection, a status other than 2xx or a malformed answer is an error, and a bound-token key without remote signing requested is an error without any request to the signing service.",
 ["inputs","fault_sequences"],"all messages, e-mails, tokens, answers and failures",
 "The tests never reach the signing service.",
 [BT,SK],[("signBlob",BT+" sign"),("choice",SK)]),
P("C17","A service-account key is read from JSON exactly, from text or file alike",
 "Creating a key from service-account JSON succeeds exactly when the text is a JSON object with text members client_email and private_key, in any order and among any other members, and the key then signs as that e-mail with that private key. Reading the same JSON from a file gives the same outcome, and a missing or unreadable file is an error.",
 ["inputs","fault_sequences"],"all JSON texts and files",
 "The tests read one fixture.",
 ["src/signing_key.rs",SK],[("parsing",SK),("file","src/signing_key.rs")]),
P("C18","Private keys, HMAC secrets and tokens never leak",
 "No URL, form field, error message or debug text of an error that the library returns depends on a usable private key, an HMAC secret or a granted access token other than through the signature. An access token is sent only in the Authorization header of requests to iamcredentials.googleapis.com over https.",
 ["inputs","configurations","fault_sequences"],"all secrets, all inputs, all outcomes including failures at every step",
 "A test can look for one secret in one output; the claim is about every error path and every secret.",
 [SK,BT,SU,HF,"src/signing_key.rs"],[("keys",SK),("requests",BT)]),
]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for p in L: f.write(json.dumps(p)+"\n")
