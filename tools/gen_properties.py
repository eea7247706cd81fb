#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

AZ = "server/services/authorization/service.go"
TK = "server/services/token/"
DV = "server/services/device/service.go"
IM = "server/storage/inmemory/"

p("C01", "Only well-formed, client-permitted authorization requests get a code or URI",
  "An authorization request (direct or pushed) succeeds exactly when state (>=32 bytes), nonce (>=8 bytes), scope, audience, client_id, a syntactically valid redirect_uri, a 43-byte S256 code challenge and a supported response_type/response_mode are all present and the registered client exists, has the authorization_code grant and allows that response_type, that response_mode when one is given ('jwt' standing for the type's default JWT mode) and, by exact string comparison, that redirect_uri; an authorization which names its client must be that client's. "
  "When an openid request does not ask for consent, no occurrence of offline_access survives in the request that is recorded; every other scope value, and every other field, is recorded as sent, and the answer names the response mode to use. "
  "A refused request yields no code or request_uri, records nothing, and reports a protocol error that carries the request's state whenever that state was acceptable.",
  ["inputs", "configurations"], "all authorization requests and all client registrations",
  "The table tests mutate one field at a time against mocks; the accept set is a conjunction over ten fields and a client record, and only sampling the product reaches the boundaries, duplicates and case variants.",
  [AZ, "sdk/types/string_array.go"], [("validate", AZ), ("validateClientCapabilities", AZ), ("StringArray.Contains/Remove", "sdk/types/string_array.go")],
  "services.Authorization Authorize/Register responses and what reaches storage")

p("C02", "A pushed request_uri is bound to its issuer and usable once before it expires",
  "A request_uri returned by a pushed authorization request can be used for exactly one authorization, at the issuer it was pushed to and before its advertised lifetime elapses; that authorization runs on the pushed parameters, whatever else the front-channel request says. "
  "Unknown, malformed, expired, already used or foreign-issuer request_uri values, and those pushed by another client than the one named, are refused with invalid_request, and using one request_uri never affects another. "
  "A client can push only requests for its own client_id, and a pushed request may not itself refer to a request_uri.",
  ["histories", "inputs"], "all interleavings of pushes, uses, replays and clock advances over several issuers and clients",
  "Unit tests call Authorize once with a mocked storage, so no test pushes then uses, replays, or lets a request expire; the built-in generator and validator are never run together.",
  [AZ, IM + "authorization_request.go", "sdk/generator/request_uri.go"], [("Authorize burn-after-read", AZ), ("Register", AZ), ("request_uri generator", "sdk/generator/request_uri.go")])

p("C03", "An authorization code works once, only for its client, PKCE verifier and URI",
  "An authorization code yields tokens only when it is presented before its advertised lifetime elapses, at the issuer that issued it, by the client it was issued to (having the authorization_code grant), with exactly the redirect_uri of the authorization request and a 43-128 byte code_verifier whose SHA-256 equals the recorded challenge. "
  "The first redemption attempt that reaches the code consumes it whether or not it succeeds, so no code ever yields tokens twice. "
  "Attempts on one code never affect any other code.",
  ["histories", "inputs"], "all sequences of authorizations and redemption attempts (right and wrong client, verifier, redirect URI, issuer, time)",
  "Grant tests run one mocked call; none redeems a code twice, from another client, after expiry, or against the real session store.",
  [TK + "grant_authorization_code.go", IM + "authorization_code_session.go"], [("authorizationCode", TK + "grant_authorization_code.go"), ("session storage", IM + "authorization_code_session.go")])

p("C04", "Issued tokens carry exactly the granted subject, audience, scope and lifetime",
  "Tokens issued for an authorization code carry the issuer, the authenticated subject, the client and exactly the audience and scope recorded at authorization, are bound to the key confirmation presented at redemption, are active, and live one hour (access) or seven days (refresh) from issue time. "
  "A refresh token is issued exactly when the recorded scope contains both openid and offline_access, that is, only after consent, and the refresh token is never the access token. "
  "Every issued token has an id and value distinct from all others and is retrievable under its issuer with the same content.",
  ["inputs", "histories", "configurations"], "all authorization requests, subjects, confirmations and client configurations",
  "Grant tests compare against one literal token per case; subject/audience/scope fidelity over arbitrary values and the link between consent and refresh tokens across the two services is never exercised.",
  [TK + "generator.go", TK + "grant_authorization_code.go", AZ], [("generateAccessToken/generateRefreshToken", TK + "generator.go"), ("authorizationCode", TK + "grant_authorization_code.go")])

p("C05", "Device codes yield tokens only after approval, to the initiating client",
  "Polling with a device code gives authorization_pending until a user approves the matching user code, then tokens for the approving subject with the originally requested scope and audience, and only to the client that started the flow, at the same issuer, before the session's advertised lifetime elapses. "
  "A user code can be approved at most once; approving an unknown, expired, foreign-issuer or already used user code is refused and changes nothing. "
  "A refresh token accompanies the access token exactly when offline_access was requested.",
  ["histories", "inputs"], "all interleavings of device authorizations, approvals, polls and clock advances over several clients and issuers",
  "Device service and device grant are tested separately against mocks with hand-made sessions; the session is never produced, approved and redeemed through the real services and store.",
  [DV, TK + "grant_device_code.go", IM + "device_code_session.go"], [("Authorize/Validate", DV), ("deviceCode", TK + "grant_device_code.go"), ("device session storage", IM + "device_code_session.go")])

p("C06", "Refresh tokens renew only for their owner and never widen the grant",
  "A refresh_token grant succeeds exactly when the presented value is an active, unexpired refresh token stored under the request's issuer and owned by the requesting client, which must have the refresh_token grant; access tokens, revoked, expired, foreign or unknown tokens are refused. "
  "The new access token has the refresh token's issuer, subject, audience, scope and key confirmation. "
  "When the new access token would outlive the refresh token a replacement refresh token with the same grant is returned and the old one is revoked, otherwise the refresh token stays valid and no new one is returned.",
  ["histories", "inputs"], "all sequences of issue, refresh, revoke and clock advances",
  "Unit tests check single mocked refreshes at a frozen clock; chains of refreshes, rotation, reuse after rotation and expiry boundaries over a real store are not tested.",
  [TK + "grant_refresh_token.go", TK + "generator.go", IM + "token.go"], [("refreshToken", TK + "grant_refresh_token.go")])

p("C07", "client_credentials tokens go only to confidential clients and carry no user",
  "A client_credentials request succeeds exactly when the registered client is confidential or credentialed and has that grant; public and unspecified clients are always refused. "
  "The access token names that client, no subject, exactly the requested scope and audience and the presented key confirmation, and no refresh token is ever returned. "
  "The client record in storage decides, not the client object carried by the request.",
  ["inputs", "configurations"], "all client records and token requests",
  "Tests use a handful of literal clients; client type, grant list and request fields are never varied together.",
  [TK + "grant_client_credentials.go", TK + "service.go"], [("clientCredentials", TK + "grant_client_credentials.go"), ("Token dispatch", TK + "service.go")])

p("C08", "Token exchange never amplifies privileges",
  "A token exchange succeeds only for a client with that grant presenting, as an access_token subject token, an active and unexpired access token of the same issuer; its result has the same subject and key confirmation, the exchanging client as client, a lifetime of at most one minute and a scope that is a subset of the subject token's scope. "
  "A requested audience must name a registered resource, which becomes the token's audience, and anything else is refused with an error. "
  "The answer names the issuer, the type of the issued token and, when it differs, its scope; the subject token itself is left unchanged and usable.",
  ["histories", "inputs"], "all subject tokens, requested scopes, audiences and exchange chains",
  "There is no test file for the token-exchange grant at all.",
  [TK + "grant_token_exchange.go"], [("tokenExchange", TK + "grant_token_exchange.go")])

p("C09", "Revocation is permanent, precise and limited to the token's owner",
  "Once a client has revoked one of its tokens, no later introspection reports that token as active and it can no longer be refreshed or exchanged, permanently; every other token is unaffected. "
  "A client cannot revoke a token that was issued to another client. "
  "Introspecting any string returns the stored state of exactly that token at that issuer (its metadata, confirmation, id, type and status) or status unknown without metadata when the issuer never issued it.",
  ["histories", "inputs"], "all histories of issue, revoke, introspect, refresh and exchange over several clients",
  "Unit tests check one mocked Revoke call; no test introspects after revoking or checks ownership.",
  [TK + "revoke.go", TK + "introspection.go", IM + "token.go"], [("Revoke", TK + "revoke.go"), ("Introspect", TK + "introspection.go"), ("token storage", IM + "token.go")])

p("C10", "Nothing created under one issuer is usable or destructible under another",
  "For any two different issuer identifiers, an authorization code, request_uri, device code, user code or token created under one is not found, redeemed, approved, introspected as known, revoked or deleted through the other, even when one issuer string is a prefix of the other or identifiers are crafted so that issuer and identifier concatenate to the same text. "
  "The same identifier registered under two issuers denotes two independent entries.",
  ["inputs", "histories"], "all pairs of issuers and all identifiers, including adversarially split ones",
  "Every unit test uses a single issuer, and the in-memory stores have no tests.",
  [IM + "authorization_request.go", IM + "authorization_code_session.go", IM + "device_code_session.go", IM + "token.go"],
  [("deriveKey", IM + "authorization_code_session.go"), ("deriveKey", IM + "authorization_request.go"), ("deriveUserCode/deriveDeviceCode", IM + "device_code_session.go"), ("deriveValue", IM + "token.go")])

p("C11", "In-memory stores behave like maps with fixed lifetimes",
  "Each in-memory store returns what was last registered under a key until it is deleted or its lifetime elapses (60 s for authorization requests, codes and DPoP proofs, 120 s for device sessions; tokens and clients do not expire), and reports not-found otherwise. "
  "Deleting or revoking one entry leaves all others as they were; a revoked token stays stored with revoked status and is found by id and by value alike. "
  "An absent device session or token is refused. Changing an object after storing it, or changing what a lookup returned, does not change the stored entry, and a stored token never exposes its clear value.",
  ["histories", "inputs"], "all sequences of store operations and clock advances",
  "The inmemory package has no test files.",
  [IM + "token.go", IM + "client.go", IM + "proof.go", IM + "resource.go", IM + "authorization_request.go", IM + "authorization_code_session.go", IM + "device_code_session.go"],
  [("Tokens", IM + "token.go"), ("Clients", IM + "client.go"), ("AuthorizationRequests", IM + "authorization_request.go"), ("DeviceCodeSessions", IM + "device_code_session.go"), ("DPoPProofs", IM + "proof.go")])

p("C12", "Single-use credentials stay single-use under concurrent requests",
  "When any number of requests present the same authorization code, request_uri or DPoP proof, or approve the same user code, concurrently against the built-in storage, at most one of them succeeds, on every schedule. "
  "Concurrent use of the built-in stores and services is free of data races and loses no registered entry.",
  ["schedules"], "all interleavings of concurrent redemptions and store operations",
  "No existing test starts a goroutine against the services or the stores.",
  [TK + "grant_authorization_code.go", AZ, "sdk/dpop/verifier.go", IM + "client.go", IM + "token.go"],
  [("Get then Delete of sessions", TK + "grant_authorization_code.go"), ("burn after read", AZ), ("checkProofCache", "sdk/dpop/verifier.go"), ("client map", IM + "client.go")])

p("C13", "A DPoP proof is accepted only for its key, method, URL, time and access token",
  "A DPoP proof is accepted exactly when it is a dpop+jwt whose signature verifies, under an allowed algorithm, with its embedded public key, its method and URL equal the request's, it was issued within 15 seconds of now, it has not been used, and, when an access token is presented, its token hash and (if given) the confirmation thumbprint match. "
  "On acceptance the returned confirmation is the RFC 7638 SHA-256 thumbprint of the embedded key; on refusal it is empty. "
  "Any proof built by the prover is accepted for the URL without query and fragment, and every alteration of a signed part is refused.",
  ["inputs"], "all proofs, keys, requests and access tokens, including forged and mutated ones",
  "The verifier tests mock the parsed token, so no real signature, thumbprint or header is ever checked.",
  ["sdk/dpop/verifier.go", "sdk/dpop/prover.go", "sdk/dpop/url.go", "sdk/token/jwt/token_adapter.go"],
  [("Verify", "sdk/dpop/verifier.go"), ("Prove", "sdk/dpop/prover.go"), ("CleanURL", "sdk/dpop/url.go")])

p("C14", "A DPoP proof is never accepted twice",
  "Over any history of verifications, replays and clock advances with the built-in proof cache, each proof is accepted at most once, no two proofs with one identifier are accepted within 30 seconds, and a proof is never accepted more than 15 seconds before or after its issue time. "
  "A proof that is used for the wrong method or URL is refused without preventing its legitimate first use, and other proofs are unaffected by replays.",
  ["histories"], "all sequences of proofs, replays and clock advances",
  "The cache lifetime and the acceptance window live in different packages and are never run together over time.",
  ["sdk/dpop/verifier.go", IM + "proof.go"], [("checkProofCache", "sdk/dpop/verifier.go"), ("DPoPProofs", IM + "proof.go")])

p("C15", "private_key_jwt authenticates only holders of a registered client key",
  "Authentication with a JWT bearer assertion succeeds exactly when the assertion is signed under an allowed algorithm by a signature key registered for the client named, identically, as issuer and subject, is unexpired and past any not-before time it states, and has non-empty audience and identifier; the result is then that registered client. "
  "Unknown clients, clients without usable keys, foreign, altered, unsigned or expired assertions and wrong assertion types never authenticate, and every refusal carries a protocol error.",
  ["inputs", "configurations"], "all assertions, key sets and client registrations",
  "Tests use one fixed key pair and a few literal tokens; multi-key sets, key-use flags, algorithm confusion and mutated tokens are not sampled.",
  ["server/clientauthentication/private_key_jwt.go", "sdk/jwk/signature.go"], [("Authenticate", "server/clientauthentication/private_key_jwt.go"), ("ValidateSignature", "sdk/jwk/signature.go")])

p("C16", "Client attestation authenticates only the attested key for the attested client",
  "Attestation-based authentication succeeds only when an unexpired attestation, past any not-before time, signed by a registered attester's key, names the client as subject and confirms a key, and an unexpired, begun proof-of-possession signed with exactly that key names the same client as issuer; the result is then that registered client. "
  "An attestation for one client never authenticates another, and every refusal carries a protocol error and no client, without crashing on any request.",
  ["inputs"], "all attestation and proof pairs, including mismatched, altered and partial ones",
  "There is no test for the client attestation method.",
  ["server/clientauthentication/client_attestation.go"], [("Authenticate", "server/clientauthentication/client_attestation.go"), ("validateClientAttestation", "server/clientauthentication/client_attestation.go")])

p("C17", "JWT verification accepts only untouched tokens signed by a trusted key",
  "A token serialized by any built-in JWT signer verifies, with equal claims, under a key set containing the signing key, and carries the key id and the documented typ of its kind. "
  "A token yields claims from a verifier only if its signature was made over its exact bytes by a signature key of the key set (of the named key id, when it names one) with an allowed algorithm; altered, unsigned, wrong-key, encryption-only-key, disallowed-algorithm and MAC-with-public-key tokens are rejected with an error, never a crash. "
  "The embedded-key verifier accepts only tokens whose embedded public key verifies them.",
  ["inputs", "configurations"], "all claims, keys, algorithms, key sets and token mutations",
  "The verifier tests use literal tokens; no test mutates tokens, mixes keys or attempts algorithm confusion.",
  ["sdk/token/jwt/signer.go", "sdk/token/jwt/builders.go", "sdk/token/jwt/verifier.go", "sdk/token/jwt/embedded_verifier.go", "sdk/jwk/signature.go"],
  [("Serialize", "sdk/token/jwt/signer.go"), ("Claims", "sdk/token/jwt/verifier.go"), ("embedded Claims", "sdk/token/jwt/embedded_verifier.go"), ("ValidateToken", "sdk/jwk/signature.go")])

p("C18", "CWT tokens verify under the signing key and preserve their claims",
  "Every token serialized by a CWT signer is a COSE signature message that verifies with the signing key and not with another key, whose payload decodes to the given claims and whose protected typ is the kind's documented type. "
  "Nil claims and missing, anonymous or public-only keys are refused with an error and no token.",
  ["inputs"], "all claims, keys and COSE algorithms",
  "The cwt package has no tests.",
  ["sdk/token/cwt/signer.go", "sdk/token/cwt/builders.go"], [("Serialize", "sdk/token/cwt/signer.go")])

p("C19", "Token generators sign exactly the token's metadata or refuse it",
  "Access-token, refresh-token and client-assertion generators serialize exactly the token's id, issuer, subject, audience, client, scope, time bounds and (access tokens) key confirmation, and refuse a token whose mandatory fields are missing, which was issued in the future, whose validity is not ordered, or which outlives two hours (fourteen days for refresh tokens); a client assertion must have issuer equal to subject. "
  "An introspection assertion is active, and only then discloses metadata, exactly when the token status is active and now lies within its validity bounds.",
  ["inputs"], "all token specifications and clock positions",
  "Tests cover listed cases with mocked serializers; the claims actually signed are never compared with the metadata over generated tokens.",
  ["sdk/token/access_token.go", "sdk/token/refresh_token.go", "sdk/token/client_assertion.go", "sdk/token/introspection.go", "sdk/token/helpers.go"],
  [("AccessToken.Generate", "sdk/token/access_token.go"), ("RefreshToken.Generate", "sdk/token/refresh_token.go"), ("ClientAssertion.Generate", "sdk/token/client_assertion.go"), ("Introspection.Generate", "sdk/token/introspection.go"), ("IsUsable", "sdk/token/helpers.go")])

p("C20", "Verifiable tokens authenticate their id and prefix and reject everything else",
  "Every generated verifiable token verifies under the same secret, extracts to the source identifier, keeps its normalized prefix and differs from every other generated token, and token kinds get distinct prefixes. "
  "No string obtained by altering the identifier, nonce, signature or prefix, or generated under another secret, verifies, and verification of any string whatsoever returns an error rather than crashing. "
  "Prefixes outside lowercase letters, digits and dashes are refused.",
  ["inputs"], "all identifiers, secrets, prefixes and candidate strings",
  "Tests use fixed vectors; overflow encodings and systematic mutations are not covered.",
  ["sdk/token/verifiable/uuid.go", "sdk/token/verifiable/helpers.go", "sdk/token/verifiable/verifiable.go", "sdk/token/verifiable/options.go"],
  [("Generate/Extract", "sdk/token/verifiable/uuid.go"), ("parsePaddedBase62", "sdk/token/verifiable/helpers.go")])

p("C21", "Pairwise identifiers are stable per sector and unlinkable across sectors",
  "The pairwise identifier is a deterministic 43-character base64url function of salt, sector and whitespace-trimmed subject. "
  "Two different (sector, subject) pairs, or two different salts, never give the same identifier. "
  "Blank subjects and salts shorter than 16 bytes are refused.",
  ["inputs"], "all salts, sectors and subjects",
  "Tests pin a few vectors; injectivity over pairs is not testable by examples.",
  ["sdk/pairwise/hash.go"], [("Encode", "sdk/pairwise/hash.go")])

p("C22", "PKCE validation accepts exactly the verifier behind the challenge",
  "Every generated PKCE pair has a verifier of 43-128 unreserved characters and a 43-character S256 challenge, pairs never repeat, and validation accepts the pair. "
  "Validation accepts a challenge and verifier exactly when the challenge is the base64url SHA-256 of the verifier text; in particular a challenge presented as its own verifier is refused. "
  "Empty and malformed values are refused with an error, and the library's answer agrees with the token endpoint's.",
  ["inputs"], "all challenges and verifiers",
  "The pkce package has no tests.",
  ["sdk/pkce/verifier.go", TK + "grant_authorization_code.go"], [("CodeVerifier/Validate", "sdk/pkce/verifier.go")])

p("C23", "Generated codes have the documented format, validate and never repeat",
  "Authorization codes and device codes are 32 and client ids 16 alphanumeric characters, request URIs are urn:solid: followed by 32 alphanumerics, user codes are XXXX-XXXX over the 20-consonant alphabet or NNN-NNN-NNN digits, opaque tokens are 3 and 28 alphanumerics joined by a dot. "
  "Every generated value is accepted by its own validator, all values drawn in a run are distinct up to the birthday bound, and every character of the alphabet occurs at every position. "
  "Validators refuse values of another length or, for request URIs, any other format.",
  ["inputs"], "all draws and all candidate strings",
  "Tests generate one value each; request URIs and client ids have no tests.",
  ["sdk/generator/authorization_code.go", "sdk/generator/device_code.go", "sdk/generator/device_user_code.go", "sdk/generator/request_uri.go", "sdk/generator/client.go", "sdk/token/token.go"],
  [("Generate/Validate", "sdk/generator/request_uri.go")])

p("C24", "JARM responses round-trip and verify only for issuer, audience and lifetime",
  "Encoding a successful authorization response and decoding it with the same keys, issuer and client gives back code, state and issuer until the response's lifetime elapses, and errors round-trip with their error code, description and state and without a code. "
  "A response that is altered, expired, of another type, signed by another key, or meant for another issuer or audience is rejected and yields no code. "
  "Responses lacking code, state, client or a positive lifetime are not encoded.",
  ["inputs"], "all responses, keys, issuers, audiences and decode times",
  "Encoder and decoder are tested separately against mocks, so their real interoperation is untested.",
  ["sdk/jarm/encoder.go", "sdk/jarm/decoder.go"], [("Encode", "sdk/jarm/encoder.go"), ("Decode", "sdk/jarm/decoder.go")])

p("C25", "Signed authorization requests round-trip field for field",
  "Encoding any authorization request and decoding it with the matching key set gives back an equal request, with every optional field keeping its presence and value. "
  "A signed request that is altered, signed by an unknown key, or carries unknown or ill-typed parameters is rejected with an error and no request.",
  ["inputs"], "all authorization requests and token mutations",
  "Encoder and decoder are tested separately with mocked serializers.",
  ["sdk/jwsreq/encoder.go", "sdk/jwsreq/decoder.go"], [("Encode", "sdk/jwsreq/encoder.go"), ("Decode", "sdk/jwsreq/decoder.go")])

p("C26", "Every refusal is a protocol error without credentials, and nothing crashes",
  "For every input, including absent requests, clients, grants and fields, the authorization, token, device, introspection, revocation and client-authentication operations return without crashing, and either succeed or return an error together with a non-nil response carrying a registered protocol error code and no credential. "
  "Conversely a successful token response always contains an access token and never an error.",
  ["inputs"], "all requests, including partially populated ones, in any storage state",
  "Unit tests enumerate the nil cases their authors thought of.",
  [TK + "service.go", TK + "revoke.go", TK + "introspection.go", DV, AZ, "server/clientauthentication/client_attestation.go", "sdk/rfcerrors/errors.go"],
  [("Token", TK + "service.go"), ("Revoke", TK + "revoke.go"), ("Authenticate", "server/clientauthentication/client_attestation.go")])

p("C27", "A storage or generator failure never yields credentials or revives consumed ones",
  "When any single storage, code-generator or token-generator call made by an operation fails (or a generator yields an empty value), that operation reports an error with a protocol error (server_error, unless the failure is an absence or concerns the client's own record) and returns no token, code or request_uri. "
  "A credential whose consumption could not be recorded yields nothing, and after a failed operation an already consumed code or request_uri stays unusable.",
  ["fault_sequences"], "all operations crossed with every failing call position",
  "Tests inject a failure into some of the mocked calls of each grant, not systematically into every call position of every flow over a real store.",
  [AZ, TK + "grant_authorization_code.go", TK + "grant_refresh_token.go", TK + "grant_token_exchange.go", TK + "grant_device_code.go", DV],
  [("error paths", TK + "grant_authorization_code.go"), ("error paths", TK + "grant_token_exchange.go")])

p("C28", "Optimised and JSON codecs agree with the reference protobuf encoding",
  "For every API message value, the generated fast codec and the reference protobuf codec interoperate in both directions: size equals encoded length, decoding either encoding gives an equal message including unknown fields, and the JSON form round-trips. "
  "On arbitrary bytes the fast decoder never crashes and, invalid UTF-8 and malformed framing (overlong varints, tags out of range, unpaired groups, wrongly typed map entries) aside, accepts only what the reference decoder accepts, with an equal result.",
  ["inputs"], "all messages of all API types, and all byte strings",
  "The generated API packages have no tests.",
  ["api/oidc/flow/v1/flow_vtproto.pb.go", "api/oidc/token/v1/token_vtproto.pb.go", "api/oidc/client/v1/client_vtproto.pb.go", "api/oidc/discovery/v1/server_vtproto.pb.go", "api/oidc/session/v1/session_vtproto.pb.go", "api/oidc/core/v1/error_vtproto.pb.go", "api/oidc/token/v1/token.pb.json.go"],
  [("MarshalVT/UnmarshalVT/SizeVT", "api/oidc/token/v1/token_vtproto.pb.go")])

p("C29", "String-set and comparison helpers obey their set laws",
  "Membership is case-insensitive; adding makes an item a member without duplicating it or disturbing others; removing leaves no member equal to the item and keeps all other items in order; has-one-of and has-all agree with membership of the listed items. "
  "Secure comparison agrees with plain equality for all byte strings and strings, and nil detection reports exactly absent values and nil pointers.",
  ["inputs"], "all string lists and items, all byte strings",
  "Tests list a few small arrays without duplicates or case variants.",
  ["sdk/types/string_array.go", "sdk/types/compare.go", "sdk/types/null.go", "sdk/types/pointers.go"], [("StringArray", "sdk/types/string_array.go"), ("SecureCompare", "sdk/types/compare.go")])

p("C30", "The locked random source is reproducible from its seed and safe to share",
  "For every seed and call sequence, the locked generator returns exactly what the standard generator with that seed returns, re-seeding restarts the sequence, bounded draws stay in bounds, and permutations and shuffles keep their elements. "
  "Concurrent use is free of data races and hands out each draw once, and crypto seeds and global generators differ between instances.",
  ["inputs", "histories", "schedules"], "all seeds, call sequences and concurrent uses",
  "Existing tests call each function once.",
  ["sdk/randomness/locked_rand.go", "sdk/randomness/global.go", "sdk/randomness/source.go"], [("LockedRand", "sdk/randomness/locked_rand.go")])

p("C31", "The HTTP client reports the server's answer faithfully and survives any answer",
  "For every server answer, the client returns either an error or exactly what the server sent: metadata, keys, token or introspection result, with activity, metadata and key confirmation preserved and the queried token as value. "
  "Error statuses, malformed bodies, absent keys and expired key sets give an error, never a crash, and cached keys are reused only until their stated expiration. "
  "The client's assertion authenticates it at the issuer's private_key_jwt endpoint.",
  ["inputs", "histories"], "all server responses and key-set lifetimes",
  "The client package has no tests.",
  ["client/http.go", "client/claims.go"], [("HTTP", "client/http.go"), ("Introspect", "client/http.go"), ("PublicKeys", "client/http.go"), ("Assertion", "client/http.go")])

p("C32", "The strict profile admits only documented client types and safe methods",
  "The strict server profile knows exactly the web, native, device and service application types and refuses every other name, however similar. "
  "No profile admits implicit or password grants or any endpoint authentication other than private_key_jwt, interactive types use only the code response type, and only native and device types may refresh. "
  "Answers are the same on every query.",
  ["inputs", "histories"], "all application type names and query sequences",
  "The profile package has no tests.",
  ["server/profile/profile_strict.go", "server/profile/server.go", "server/profile/client.go"], [("Strict", "server/profile/profile_strict.go")])

p("C33", "The complete flows interoperate with the built-in components only",
  "With the built-in generators, stores, signers and verifiers wired together as documented, a client following the protocol (signed request pushed with a DPoP proof, authorization, JARM response, code redemption with PKCE, introspection, refresh, exchange, revocation) succeeds at every step with consistent subject, scope, audience and key binding, for every compliant client configuration, key and signature algorithm. "
  "Replacing one protocol element at a step (client assertion, used proof, signing key, request object, request_uri, response, code, verifier, redirect URI, token) with that of another session makes that step fail, or the client reject its outcome, and leaves the other session unharmed unless the replacement spent its own single-use element.",
  ["histories", "inputs", "configurations"], "all compliant configurations and sessions, and all single substitutions",
  "No existing test composes two components; each is tested with mocks of its neighbours.",
  [AZ, TK + "service.go", "sdk/jarm/decoder.go", "sdk/dpop/verifier.go", "sdk/jwsreq/decoder.go", "sdk/token/verifiable/verifiable.go"],
  [("service composition", "examples/authorizationserver/main.go")])

p("C34", "No history of mixed operations yields a credential beyond its origin grant",
  "Over every history of authorizations, pushed requests, device flows, client credentials grants, redemptions, refreshes, exchanges, revocations and passing time by several clients at several issuers, every token derives from exactly one grant made at its issuer: it carries that grant's subject, the grant's client or the client that exchanged it, a scope within the grant's and its parent's, no audience but the grant's or registered resources, and keeps the key binding the grant had. "
  "A credential of one kind (code, request_uri, device or user code, access or refresh token) is never accepted in the place of another, at another issuer or from a client it was not made for, single-use ones work at most once, and introspection agrees with what was issued.",
  ["histories", "inputs", "configurations"], "all interleaved histories of all operations over several clients and issuers",
  "Tests run one operation on mocks; none carries a credential from one grant into another operation.",
  [AZ, TK + "service.go", TK + "grant_authorization_code.go", TK + "grant_refresh_token.go", TK + "grant_token_exchange.go", TK + "grant_device_code.go", TK + "grant_client_credentials.go"],
  [("service composition", "examples/authorizationserver/main.go")])

p("C35", "Every RPC reaches its own handler and returns its answer unchanged",
  "For each documented gRPC method (Authorize and Token of oidc.flow.v1.AuthorizationService, Introspect and Revoke of oidc.token.v1, Authenticate and Register of oidc.client.v1), every request, answer, error status, context value and call option: the generated client calls exactly that method of that service once, the server hands the request as sent to the one matching handler, and the caller gets the handler's own answer or error, never another's under concurrency. "
  "Interceptors on both sides see the documented full method name, the request and the server, and decide; methods and services that are not implemented answer Unimplemented; service descriptors agree with the protobuf declarations.",
  ["inputs", "histories", "schedules", "configurations"], "all messages, methods, statuses, interceptors and interleavings of calls",
  "No existing test makes an RPC.",
  ["api/oidc/flow/v1/flow_api_grpc.pb.go", "api/oidc/token/v1/introspection_api_grpc.pb.go", "api/oidc/token/v1/revocation_api_grpc.pb.go", "api/oidc/client/v1/client_api_grpc.pb.go"],
  [("AuthorizationService", "proto/oidc/flow/v1/flow_api.proto"), ("IntrospectionService", "proto/oidc/token/v1/introspection_api.proto"), ("ClientRegistrationService", "proto/oidc/client/v1/client_api.proto")])

p("C36", "Protocol errors carry their registered code and are independent of each other",
  "Each error constructor yields its registered protocol code with a non-empty standard description of the permitted characters, the same on every build. "
  "Over every history of builders, the state is present exactly when a non-empty one was set last, the last description given replaces the standard one, the code never changes, and each built error stays as built whatever is later done with its builder, with other builders or with other built errors, also under concurrency.",
  ["inputs", "histories", "schedules"], "all error kinds, states, descriptions and histories of builders",
  "The package has no tests.",
  ["sdk/rfcerrors/builder.go", "sdk/rfcerrors/errors.go"], [("ErrorBuilder", "sdk/rfcerrors/builder.go"), ("errors", "sdk/rfcerrors/errors.go")])

p("C37", "A request context carries exactly the client last injected into it",
  "Over every tree of derived contexts, FromContext returns the very client that was injected nearest above that context, with its later changes, and reports none when none was injected. "
  "Injection leaves the parent context, its siblings, its other values, its cancellation and the client itself alone, hides an outer client (also by a nil one), is not affected by values under look-alike keys, and concurrent requests read their own client.",
  ["histories", "inputs", "schedules"], "all trees of contexts and injected clients",
  "One test injects an empty client and reads it back.",
  ["server/clientauthentication/context.go"], [("Inject", "server/clientauthentication/context.go"), ("FromContext", "server/clientauthentication/context.go")])

p("C38", "PASETO tokens are signed as given and encrypted tokens never leave in clear",
  "For every claims object, key and token type, the PASETO serializer produces a v4.public token that verifies with the key the provider gave for that call and with no other, whose payload is exactly the given claims and whose footer names that key id and the token type; nil or unserializable claims and absent, anonymous, public or non-Ed25519 keys or a failing provider yield an error and no token. "
  "An encrypting serializer hands the encrypter exactly the token its inner serializer signed for these claims, with that serializer's content type and the sign-and-encrypt context, and returns exactly the encrypter's answer; when either fails or is missing there is an error and no token, never the clear one.",
  ["inputs", "configurations", "fault_sequences"], "all claims, keys, providers, token types, serializers and encrypters, and failures of each",
  "Tests sign one map with one key; the encrypting serializer has no test.",
  ["sdk/token/paseto/signer.go", "sdk/token/encrypted.go"], [("DefaultSigner", "sdk/token/paseto/signer.go"), ("Encryption", "sdk/token/encrypted.go")])

p("C39", "The reference HTTP server passes on just what requests carry and services say",
  "For every history of HTTP requests to the handlers and middleware of the reference authorization server: a handler calls its service only for a request with the method, the client authentication, the user credentials and the DPoP proof (verified for this method and URL) which its endpoint demands, as the client so authenticated and with the parameters and confirmation the request carries; every other request, and every refusal of a service, is answered by a 4xx with an error code, without redirection or credential, and leaves no stored effect. "
  "What a service grants is rendered as it is: the authorization response goes to exactly the redirect URI of the request, its own query kept, in the response mode the service named, with the state, the issuer and, when signed, readable for that client alone; token, device and introspection answers name the token type, lifetime, scope, owner and confirmation of what was stored, and the server metadata are what their signature says.",
  ["histories", "inputs"], "all histories of requests by several clients and a user to the endpoints of the reference server, over time",
  "The handlers and the middleware have no test: what services guarantee is lost when the HTTP layer feeds or renders them wrongly.",
  ["examples/authorizationserver/handlers", "examples/authorizationserver/middleware", "examples/authorizationserver/respond"], [("Token", "examples/authorizationserver/handlers/token.go"), ("Authorization", "examples/authorizationserver/handlers/authorization.go"), ("PushedAuthorizationRequest", "examples/authorizationserver/handlers/par.go"), ("ClientAuthentication", "examples/authorizationserver/middleware/client_auth.go")])

p("C40", "Concurrent clients of one server each get their own answers",
  "For every set of clients (or instances of one client) running authorizations, redemptions, refreshes, introspections, revocations and device flows at once against one server, under every schedule and without a data race: each gets exactly what it would get alone: answers with its own state, codes and tokens with its own client, subject, scope, audience and binding; no two credentials are equal; simultaneous redemptions of one code give tokens to exactly one of them; and the signed server metadata served meanwhile verify and say what the document around them says.",
  ["schedules", "histories"], "all schedules of concurrent flows of several clients against one server",
  "Every existing test runs one request at a time.",
  ["server/services", "server/storage/inmemory", "sdk/token/jwt", "sdk/dpop", "sdk/jarm", "sdk/jwsreq", "examples/authorizationserver/handlers/metadata.go"], [("Token", "server/services/token/service.go"), ("Authorize", "server/services/authorization/service.go"), ("Metadata", "examples/authorizationserver/handlers/metadata.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), max(len(x["title"]) for x in P))
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
