#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S="src/mechanisms/scram/"
p("C01","A SCRAM server only accepts a client that proved knowledge of the password",
  "A SCRAM server session (SHA-1/-256/-512, with and without -PLUS) issues its success verifier, calls the validation callback or yields a validation result only if the client's final message carries a proof computed from the key stored for the requested user over exactly this exchange (same client and server nonces, same GS2 header and channel binding data, same salt, iteration count and username). Any other final message - wrong password, other user, altered, truncated, extended, replayed or reordered - ends in an error or an `e=` failure message without the verifier and without validation. An unknown user and a stored credential whose keys have the wrong length can never be authenticated.",
  ["inputs","histories"],"for every stored credential, every client message sequence, every mutation of an honest message, every replay",
  "the unit tests run one fixed exchange per hash and no hostile final message; soundness quantifies over all attacker messages",
  [S+"server.rs",S+"parser.rs",S+"tools.rs"],
  [("stored_key == H(proof xor ClientSignature)",S+"server.rs WaitingClientFinal::handle_client_final"),("AuthMessage construction",S+"tools.rs compute_signatures"),("nonce prefix/suffix comparison",S+"server.rs")],
  ["bytes the server writes on its second step","number and content of validate() calls","Session::validation()"],
  [("WaitingClientFinal","nonces, GS2 header and keys the final message is checked against",S+"server.rs")])
p("C02","A SCRAM client only finishes with a server that proved it knows the keys",
  "A SCRAM client session reports a finished exchange only after it received a server-final message whose verifier equals the one computed from its own password-derived keys over exactly this exchange. A wrong, truncated, extended, empty or undecodable verifier, an `e=` error, any other message, or a missing final message ends in an error, and the callback that caches derived keys is never invoked. Likewise a server-first message whose nonce does not strictly extend the client's own nonce, or whose iteration count is zero or malformed, is refused before any proof is sent.",
  ["inputs","histories"],"for every server message sequence, every mutation of the honest server messages, every password / cached key / salted password",
  "tests run one honest exchange; mutual authentication quantifies over all impostor servers",
  [S+"client.rs",S+"parser.rs",S+"tools.rs"],
  [("verifier comparison",S+"client.rs WaitingServerFinal::handle_server_final"),("nonce strip_prefix and non-empty remainder",S+"client.rs handle_server_first")],
  ["State returned by the client's last step","bytes written by the client","ScramCachedPassword action callbacks"],
  [("WaitingServerFinal.verifier","the only server signature that may be accepted",S+"client.rs")])
p("C03","SCRAM interoperates with RFC 5802 for every credential, salt and iteration count",
  "For every username, authorization identity and password (in SASLprep form), salt, iteration count and hash variant, an honest client and server that hold matching credentials complete the exchange and every message on the wire is exactly what RFC 5802/7677 prescribes, so that either side also completes against an independent implementation. Logging in with the plain password, with the cached salted password and with cached client/server keys produces identical proofs. Credential derivation (salted password, client, server and stored key) equals the RFC definition for every password, salt and iteration count.",
  ["inputs","configurations"],"for every (user, authzid, password, salt, iterations, hash, channel binding) and both peer implementations",
  "the tests use the RFC example values (one user, one salt, one iteration count per hash)",
  [S+"client.rs",S+"server.rs",S+"parser.rs",S+"tools.rs"],
  [("message builders",S+"parser.rs as_ioslices"),("PBKDF2 / key derivation",S+"tools.rs hash_password, derive_keys")],
  ["all messages of both sides","rsasl::mechanisms::scram::tools outputs","final states and validation result"])
p("C04","Channel binding is enforced and cannot be downgraded",
  "A -PLUS exchange succeeds only if the client sent the `p=` flag with a binding type and both sides supplied identical channel binding data for that same type; a server running a -PLUS mechanism never accepts a client that did not bind. A server whose configuration offers the -PLUS variant rejects a client that claims the server lacks channel binding (`y`), and a channel-binding capable client says `y` exactly when the server did not offer the -PLUS variant, never `y` when it did. If binding data for the announced type is unavailable the step fails instead of proceeding unbound, and the data a protocol supplies takes precedence over the user callback.",
  ["inputs","configurations"],"for every combination of mechanism variant, offered list, enabled list, binding type, client data and server data, and every man-in-the-middle edit of the flag, type or data",
  "no existing test runs a -PLUS exchange end to end or any downgrade",
  [S+"client.rs",S+"server.rs",S+"mechinfo.rs",S+"parser.rs","src/session.rs","src/channel_bindings.rs"],
  [("gs2 flag check",S+"server.rs handle_client_first"),("ScramSelector* states",S+"mechinfo.rs"),("need_cb_data","src/session.rs")],
  ["GS2 header in the client-first message","server result and validation","get_cb_data / ChannelBindings callback log"])
p("C05","SCRAM nonces and salts are fresh, unpredictable and well-formed",
  "Every SCRAM session, on both sides, contributes at least 24 newly generated printable non-comma characters to the nonce; no two sessions - sequential, concurrent, sharing a configuration or in a process forked after earlier ones - ever contribute the same value, and each character position takes many different values across sessions. The server's nonce is the client's nonce unchanged followed by its own contribution. The decoy salt a server sends for an unknown user is at least 16 bytes, all of them varying from session to session, and fresh in every session.",
  ["histories","schedules"],"over every set of sessions created in one process or in processes forked from it, from one or many threads",
  "freshness is a property of a whole history of sessions; tests look at single sessions",
  [S+"tools.rs",S+"client.rs",S+"server.rs"],
  [("generate_nonce over thread_rng",S+"tools.rs"),("decoy salt",S+"server.rs handle_client_first")],
  ["r= attributes of all client-first and server-first messages of the run","s= of decoy server-first messages"])
p("C06","No peer message can make a session panic, hang or abort",
  "For every mechanism, on either side and in every state in which a step is allowed (not after an error or a finished exchange), any sequence of byte strings from the peer - empty, tiny, huge, non-UTF-8, truncated, spliced, bit-flipped - makes step and step64 return a state or an error; they never panic, overflow, loop or allocate out of proportion to the message and the data the application itself supplies (the iteration count of a SCRAM server, which the client's password callback can inspect and refuse, aside). The same holds for parsing a mechanism name and for encode/decode on a session without a security layer, and for GSSAPI tokens.",
  ["inputs","histories"],"for every mechanism x side x step x byte string",
  "the tests feed well-formed messages and a handful of malformed ones",
  [S+"parser.rs",S+"server.rs",S+"client.rs","src/mechanisms/plain/server.rs","src/mechanisms/xoauth2/server.rs","src/mechanisms/oauthbearer/parser.rs","src/mechname.rs","src/session.rs"],
  [("attribute splitting and prefix checks",S+"parser.rs"),("UTF-8 and separator checks","server modules of all mechanisms")],
  ["unwinding out of step/step64","CPU time of a single step","allocation volume of a single step"])
p("C07","The identity and secret the client supplies are exactly what the server sees",
  "For every mechanism, when a client and a server session of this library talk to each other, the authentication id, authorization id, password, token, trace string and key/value fields visible to the server's callbacks are exactly those the client's callback supplied (for PLAIN the id and password after SASLprep; an absent authorization id counts as empty). A value that cannot be represented in the mechanism's messages is refused by one of the sides with an error; it is never truncated, reinterpreted or turned into a different field or identity.",
  ["inputs"],"for every mechanism and every string value, including separators, escapes, NUL, SOH, '=' ',' and non-ASCII text",
  "tests use ordinary usernames; confusion only appears for values containing the mechanism's own separators or escapes",
  ["src/mechanisms/plain/client.rs","src/mechanisms/plain/server.rs","src/mechanisms/login/client.rs","src/mechanisms/login/server.rs",S+"client.rs",S+"server.rs",S+"parser.rs","src/mechanisms/oauthbearer/client.rs","src/mechanisms/oauthbearer/parser.rs","src/mechanisms/xoauth2/client.rs","src/mechanisms/external/client.rs","src/mechanisms/anonymous/client.rs"],
  [("SaslName::escape/unescape",S+"parser.rs"),("separator rejection","plain/oauthbearer/xoauth2 clients")],
  ["Context values in the server's callback() and validate()","errors returned by either side"])
p("C08","Servers read raw messages exactly as the mechanism's grammar defines them",
  "For arbitrary raw client messages, PLAIN, LOGIN, EXTERNAL, ANONYMOUS, XOAUTH2 and OAUTHBEARER servers hand to validation exactly the fields which the mechanism's message grammar assigns to those bytes, and reject with an error - without any validation - every message the grammar does not derive (wrong separator count, missing or foreign prefix, missing terminator, invalid UTF-8, empty required field, missing token). A mechanism name parses if and only if it is non-empty and consists only of A-Z, 0-9, '-' and '_', and then reads back unchanged.",
  ["inputs"],"for every byte string presented as a client message or as a mechanism name",
  "tests check a handful of valid and invalid messages; the accept/reject boundary is over all byte strings",
  ["src/mechanisms/plain/server.rs","src/mechanisms/login/server.rs","src/mechanisms/external/server.rs","src/mechanisms/anonymous/server.rs","src/mechanisms/xoauth2/server.rs","src/mechanisms/oauthbearer/parser.rs","src/mechanisms/oauthbearer/server.rs","src/mechname.rs"],
  [("message parsers","the listed server modules"),("Mechname::parse","src/mechname.rs")],
  ["return value of step","validate() calls and the Context they see"])
p("C09","Only enabled, offered and acceptable mechanisms are ever started",
  "A client session is started only with a mechanism that is both enabled in its configuration and offered by the server, and it is the one the preference callback chooses among all of these: a mechanism the callback rejects is never used, and if nothing acceptable remains (or nothing was offered) starting fails with no session. With the default preference the highest-ranked mechanism is always taken whatever the order of the offer, so a plaintext or anonymous mechanism is never used when a SCRAM mechanism is available; the credentials helper never enables mechanisms that cannot carry the authorization id it was given. A server starts only mechanisms enabled in its configuration and implemented for servers, and lists exactly those.",
  ["inputs","configurations"],"for every offered list (order, duplicates, unknown names), every enabled set, every preference callback",
  "tests try a few fixed lists and one preference function",
  ["src/registry.rs","src/config.rs","src/sasl.rs","src/callback.rs","src/mechanisms/*/mechinfo.rs"],
  [("Registry::select","src/registry.rs"),("Selector implementations",S+"mechinfo.rs, src/registry.rs"),("Registry::credentials","src/registry.rs")],
  ["Session::get_mechname","SASLError","sequence of prefer() calls","get_available()"])
p("C10","Output is delivered completely or the step fails",
  "If a step returns success, the bytes the writer accepted are exactly the complete message of that step, in order, no matter how the writer splits the writes (one byte at a time, vectored or not, interrupted calls). If the writer fails, stops accepting bytes or reports an error at any point, the step returns an error instead of success, so a truncated message is never reported as sent.",
  ["fault_sequences","inputs"],"for every mechanism, side and step, every writer behaviour, and a writer fault at every byte offset of the message",
  "tests write into an in-memory cursor that always accepts everything",
  ["src/vectored_io.rs","src/session.rs","src/mechanisms/*/client.rs","src/mechanisms/*/server.rs"],
  [("VectoredWriter::write_all_vectored","src/vectored_io.rs"),("write_all uses","all mechanisms")],
  ["bytes accepted by the writer","return value of step"])
p("C11","The base64 step is exactly the raw step inside standard base64",
  "For every session and input, the base64 variant of step behaves as decoding its input with padded standard base64, performing the raw step and encoding the complete output: same state, same callback effects, and output that decodes to the raw output. Input that is not canonical padded base64 is rejected with an error before the mechanism sees anything, and write failures surface as errors also here.",
  ["inputs","fault_sequences"],"for every mechanism, side, step, message length modulo 3, malformed base64 input and writer behaviour",
  "one mechanism is tested through the base64 path",
  ["src/session.rs"],[("step64","src/session.rs")],
  ["state, output and callback log of paired raw and base64 sessions"])
p("C12","Callback requests are answered exactly as the callback decided",
  "For every sequence of operations a callback performs on a request, the mechanism receives the first value supplied for the property it asked for and only that one: values for other properties are ignored, later values and their closures are ignored, and a callback that supplies nothing (or reports having no value) yields 'not provided' for an optional property and a missing-property error for a required one. An action request counts as handled exactly if the callback took its value, which it can take once. Every other error the callback returns aborts the step with that error - only the SCRAM client's optional offer of its derived keys for caching, made after the server is authenticated, has no influence on the exchange - and the values the context exposes are exactly those the mechanism provided.",
  ["programs","histories"],"for every program of satisfy / satisfy_with / get_action / is calls, return values, property kinds and provider stacks",
  "the tests exercise single satisfy calls with matching types",
  ["src/callback.rs","src/session.rs","src/context.rs","src/typed.rs"],
  [("ClosureCR","src/callback.rs"),("Tagged/Erased downcasts","src/typed.rs"),("MechanismData::callback/action/need_with","src/session.rs")],
  ["values seen by a probe mechanism","callback operation results","step result"])
p("C13","Validation results are delivered exactly once and only for completed exchanges",
  "On a server, every exchange whose client data is complete and (for SCRAM and GSSAPI) proven calls the validation callback exactly once (OAuth mechanisms: in the step that judges the token, whatever the judgement), with the session's own mechanism and the client's data; an exchange that ends in an error before that point or with a failed proof never calls it, and a client session never calls it. The protocol obtains the first value the callback set for the protocol's own validation type - values of other types and later values are ignored - exactly once, and obtains nothing if none was set. If the validation callback fails, the step fails.",
  ["inputs","histories","programs"],"for every mechanism, every outcome of the exchange and every sequence of finalize / with calls of matching and foreign types",
  "tests check one validation per mechanism",
  ["src/validate.rs","src/session.rs","src/sasl.rs","src/mechanisms/*/server.rs"],
  [("Validate::finalize/with","src/validate.rs"),("session.validate calls","server modules"),("Session::validation take()","src/session.rs")],
  ["validate() call log","Session::validation() results","step result"])
p("C14","A failure signalled by the server is never success for the client",
  "If an OAuth server (XOAUTH2, OAUTHBEARER) rejects a token, the error the server's callback chose reaches the client's callback unchanged and the server keeps the exchange open until the client answered; if the client's callback does not take the error, the client's step fails. A server error that cannot be parsed is an error for the client. A token the server's callback neither accepted nor rejected fails the exchange, and so does a rejection that can not be told apart from acceptance on the wire.",
  ["inputs","histories"],"for every token, every error status/scope/configuration text (including quotes, escapes and non-ASCII) and every callback decision",
  "tests use one error document without characters that need escaping",
  ["src/mechanisms/xoauth2/client.rs","src/mechanisms/xoauth2/server.rs","src/mechanisms/oauthbearer/client.rs","src/mechanisms/oauthbearer/server.rs","src/mechanisms/oauthbearer/properties.rs"],
  [("need_with validate properties","xoauth2/oauthbearer servers"),("action on error properties","xoauth2/oauthbearer clients")],
  ["error value seen by client callback","states of both sides"])
p("C15","A step without peer data never advances an exchange that needs it",
  "When a step that needs the peer's message is called without one (every server step and every client step that answers a message, except that EXTERNAL and ANONYMOUS servers read a missing message as the empty one, LOGIN clients ignore prompts, OAuth clients read it as success without a message, an OAuth server that rejected the token needs no answer, and a GSSAPI server offers its layers unprompted), it reports the missing input, writes nothing and calls no callback that depends on the message or validates the exchange; it never reports success. The session stays usable: supplying the message afterwards gives the same result as if it had been supplied in the first place.",
  ["histories"],"for every mechanism, side and step that consumes peer data, with any number of calls without data before the real one",
  "tests never call step without data where data is required",
  [S+"client.rs",S+"server.rs","src/mechanisms/plain/server.rs","src/mechanisms/login/server.rs","src/mechanisms/xoauth2/server.rs","src/mechanisms/oauthbearer/server.rs","src/error.rs"],
  [("InputDataRequired","step implementations")],
  ["step results","bytes written","callback log","outcome of the continued exchange"])
p("C16","Sessions sharing a configuration are isolated from each other",
  "Any number of client and server sessions may be created from one shared configuration and stepped concurrently from different threads in any interleaving, including moving a session between threads between steps: each exchange produces the same result as if it ran alone, callbacks see only their own session's data, and no validation result, identity or nonce leaks from one session to another. This includes sessions that are started, stepped, dropped or waited for from within a callback or writer of another session, and sessions whose application code panics there: the others neither block nor fail for it. There are no data races.",
  ["schedules"],"for every interleaving of steps of many sessions over one shared configuration",
  "tests are single-threaded and single-session",
  ["src/config.rs","src/sasl.rs","src/session.rs","src/registry.rs",S+"client.rs",S+"server.rs"],
  [("Arc<SASLConfig> with Send+Sync callbacks","src/config.rs"),("per-session state in Session","src/session.rs")],
  ["per-exchange transcript and callback log with unique ids","race detector reports"])
p("C17","No use of the safe API causes undefined behaviour",
  "Driving the library through its safe public API (`Mechname::const_new_unchecked` with valid names only) - configuration, selection, every mechanism on both sides with honest and hostile messages, callbacks with every request/validation/context operation, dropping sessions at any step - never performs an out-of-bounds or dangling access, an invalid cast or transmute, an invalid UTF-8 string, an aliasing violation, a data race or an uninitialised read, and leaks no memory.",
  ["programs","inputs","schedules"],"for every program over the safe API",
  "the tests run natively without any checker and would not notice undefined behaviour",
  ["src/typed.rs","src/callback.rs","src/context.rs","src/validate.rs","src/config.rs","src/mechname.rs",S+"parser.rs"],
  [("unsafe casts Erased -> Tagged","src/typed.rs"),("repr(transparent) wrapper casts","src/callback.rs, src/context.rs, src/validate.rs, src/config.rs"),("from_utf8_unchecked",S+"parser.rs"),("transmute [u8] -> Mechname","src/mechname.rs")],
  ["Miri and AddressSanitizer reports"])
p("C18","Security layers are negotiated and applied faithfully",
  "encode and decode work only when the session reports an installed security layer, and otherwise fail without touching the writer; a mechanism's own layer is passed through unchanged. With GSSAPI, client and server end up with exactly the layer that both permit (never one a side excluded, never a confidentiality layer where only integrity was selected), data encoded by one side decodes to the same bytes on the other, altered, replayed or reflected messages are refused, and a negotiation offering no common layer fails.",
  ["inputs","configurations","histories"],"for every pair of permitted-layer sets, every payload, every altered token, and every mechanism without layers",
  "GSSAPI has no test at all",
  ["src/mechanisms/gssapi/client.rs","src/mechanisms/gssapi/server.rs","src/session.rs","src/mechanism.rs"],
  [("layer intersection","src/mechanisms/gssapi/client.rs, server.rs"),("default encode/decode","src/mechanism.rs")],
  ["has_security_layer","encode/decode results","wrap/unwrap calls seen by a stand-in GSS-API library"])
p("C19","SCRAM exchanges and diagnostics never disclose the secret",
  "Nothing a SCRAM session of either side writes to the peer, and no error message or debug rendering of the library's public objects, contains the password, the salted password, the client key, the stored key or the server key - raw, hex or base64 encoded; a server learns or is sent nothing but the RFC 5802 proof. The credentials given to the configuration helper do not appear in its debug output, and a mechanism asks the callback for the password only when it is going to use it (never when cached keys were supplied, never on a SCRAM server).",
  ["inputs","histories"],"for every password and credential, every honest and failing exchange",
  "no test inspects what is disclosed",
  [S+"client.rs",S+"server.rs","src/config.rs","src/error.rs","src/session.rs"],
  [("proof computation",S+"client.rs"),("manual Debug implementations","src/config.rs, src/session.rs")],
  ["all bytes written","Display/Debug text of errors and objects","property requests issued to callbacks"])
p("C20","Every honest exchange terminates with consistent turn order on both sides",
  "For every mechanism exactly one side reports that it goes first, and starting with that side, exchanging each step's message in turn, both sides finish within the number of messages the mechanism prescribes. A step that reports no message sent has written nothing, a running step expects a reply, and neither side finishes while the other still waits for a message it has not been sent (apart from the optional final empty server message of the OAuth mechanisms).",
  ["inputs","configurations"],"for every mechanism, credential and configuration with matching credentials",
  "tests drive one side with canned messages",
  ["src/session.rs","src/mechanisms/*/mechinfo.rs","src/mechanisms/*/client.rs","src/mechanisms/*/server.rs"],
  [("Mechanism.first / are_we_first","src/session.rs, mechinfo modules"),("State and MessageSent","src/session.rs")],
  ["are_we_first on both sides","sequence of (State, bytes written) per exchange"])
p("C21","A failed step names its cause",
  "If exactly one thing prevents a step from succeeding, the error it returns is the one for that thing: a required property the callback has no value for is reported as missing callback value naming that property (optional properties never fail a step), missing channel binding data as such with the binding type's name, an error of the application's callback or validation unchanged, a failing writer as an I/O error with the writer's error kind (a writer that accepts nothing more: WriteZero), a missing message as InputDataRequired, input that is no base64 as a Base64 error, encode/decode without a layer as NoSecurityLayer, and a malformed or unacceptable peer message, as well as a value no message can carry, as a mechanism error - of kind Outcome exactly if the server said that the authentication failed. What a SCRAM server says is the cause (unknown-user, invalid-proof for a wrong password, channel-bindings-dont-match for other binding data), and the client's error names the cause the server said, whichever of those RFC 5802 defines it is. A SCRAM server verifier that does not verify, and nothing else, is MutualAuthenticationFailed. The predicates, text and source chain of the error agree with its variant.",
  ["inputs","fault_sequences"],"for every mechanism, side and step, every single local fault (each callback request, validation, writer, input) and every hostile peer message",
  "tests assert the error of two or three chosen failures only; protocol code decides between aborting, retrying and alarming the user by the error's variant",
  ["src/error.rs","src/session.rs","src/mechanisms/*/client.rs","src/mechanisms/*/server.rs"],
  [("SessionError and its From impls","src/error.rs"),("need_with / need_cb_data / action","src/session.rs"),("MechanismError::kind","all mechanisms")],
  ["SessionError variant, fields, kind(), predicates, Display and source of every failing step"])
p("C22","Cargo features only add or remove mechanisms",
  "rsasl and programs using it compile with every combination of its cargo features (with std). With the parts an application needs (provider, config_builder) a default configuration makes every mechanism of the enabled features available (channel-binding -PLUS forms and GSSAPI at least through a registry of the application's own) and none of a feature that is not enabled, which can then neither be selected nor started on either side; with_credentials limits and orders the mechanisms as documented among those that are enabled. Which other features are enabled - other mechanisms, registry_static, provider_base64, testutils, unstable_custom_mechanism - changes neither the messages, results, callback requests and validations of a mechanism's exchanges, nor its reactions to hostile messages, nor the order in which mechanisms are preferred.",
  ["inputs","configurations"],"for every set of cargo features",
  "the tests run with one or two feature sets; a wrong cfg only shows in a build without, or with, another feature",
  ["Cargo.toml","src/registry.rs","src/mechanisms/mod.rs","src/lib.rs","src/config.rs","src/mechanisms/*/mechinfo.rs"],
  [("registry_default / static registry entries","src/registry.rs"),("feature-gated modules and imports","src/mechanisms/mod.rs, src/lib.rs"),("credentials helper","src/config.rs")],
  ["success of the build for the feature set","available and selectable mechanisms","messages, states, errors, requests and validations of the probe's exchanges"])
p("C23","SCRAM messages are read exactly as RFC 5802's grammar defines them",
  "For arbitrary bytes presented as a SCRAM message, a server goes on after a client-first message only if RFC 5802's grammar derives it: gs2 flag `n`, `y` or `p=` with a name of letters, digits, '.' and '-'; an optional non-empty `a=` saslname; no `m=`; a non-empty `n=` saslname, in both of which `=2C` and `=3D` are the only escapes; a non-empty nonce of printable characters without comma. It then looks up exactly the user the message names, for exactly the named authorization identity and channel binding. A client-final message succeeds only if it consists of `c=`, `r=`, extensions other than `m=` and then the proof as its last attribute. A client answers a server-first message only if it is `r=` (its own nonce continued with printable characters), `s=` (canonical base64) and `i=` (a positive decimal number below 2^32) in this order, and uses exactly these values. What a client sends first is derivable and names exactly the identities its application gave; for names no message can carry (empty or containing NUL) it fails without output. Every message the grammar derives, including well-formed optional extensions of client messages, is accepted; every other client-first or server-first message is refused without asking for a credential and without output, every other client-final message without a validation and without a verifier (malformed optional extensions, extensions of a server-first message, an empty salt and leading zeros of the count may go either way, without changing what the fields mean).",
  ["inputs"],"for every byte string presented as a client-first, client-final or server-first message, and every identity given to a client",
  "tests parse a handful of valid messages; the accept/reject boundary is over all byte strings",
  [S+"parser.rs",S+"server.rs",S+"client.rs"],
  [("SaslName, GS2CBindFlag, ClientFirstMessage, ClientFinal, ServerFirst",S+"parser.rs"),("WaitingClientFirst, WaitingClientFinal",S+"server.rs"),("WaitingServerFirst",S+"client.rs")],
  ["step results and bytes written","property requests and the context they carry","validations"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
