#!/usr/bin/env python3
"""Writes levels.json: the deciding method and its bounds, per property."""
import json, os
SM = "stateful property-based testing (rapid histories) against a reference model"
IN = "property-based testing (rapid) of generated inputs against an independent oracle"
RT = "property-based round-trip and metamorphic testing (rapid)"
CR = "property-based testing (rapid) with hand-forged credentials and an exact accept/refuse oracle"
T = {
"C01": (IN, "Requests differ from a valid one in zero to several drawn ways; an independent predicate of the documented rules decides acceptance."),
"C02": (SM, "Histories of push, use, replay and clock advance over several issuers and clients on a fake clock; model is a map of live request_uris."),
"C03": (SM, "Histories of issue and redeem with drawn deviations, on a fake clock, against a model of live codes."),
"C04": (SM, "Complete grants of every kind; every issued token compared with the grant that produced it."),
"C05": (SM, "Device histories (authorize, poll, validate, expire) on a fake clock against a model of the device state machine."),
"C06": (SM, "Refresh histories on a fake clock against a model of live refresh tokens and rotation."),
"C07": (IN, "Drawn client records and requests; an exact predicate decides success."),
"C08": (SM, "Exchange chains with drawn subject tokens, scopes and audiences; exact accept/refuse oracle."),
"C09": (SM, "Issue, revoke, introspect, refresh and exchange histories against a model of token states."),
"C10": (SM, "Same-named entries at several issuers, in every store and service; a model per issuer."),
"C11": (SM, "Store histories with mutation of every returned and given object; a deep-copied model."),
"C12": ("property-based testing of generated concurrent histories under the race detector, with linearization oracles and drawn yield points", "Schedules are those the Go scheduler and drawn perturbations produce; they are not enumerated."),
"C13": (CR, "Every proof is hand-signed with drawn deviations; accepted exactly when there is none."),
"C14": (SM, "Replay histories with clock advances against a model of accepted identifiers."),
"C15": (CR, "Assertions for a drawn population of clients, with drawn deviations."),
"C16": (CR, "Attestation and PoP pairs with drawn deviations in either part, or crossed between clients."),
"C17": (CR, "Tokens of the library and hand-made forgeries, all algorithms and key sets."),
"C18": (RT, "CWT output decoded and verified without the library."),
"C19": (IN, "Drawn token metadata; claims compared field by field with what was given, or refused by an exact predicate."),
"C20": (RT, "Verifiable tokens, their mutations and re-encodings; every string but the generated one must be refused."),
"C21": (RT, "Pairwise subjects over drawn sectors, subjects and salts; recomputation and collision search."),
"C22": (RT, "PKCE pairs and near misses against an independent computation; concurrent generation under the race detector."),
"C23": (IN, "Format, uniqueness and entropy-width statistics of every generator over large samples."),
"C24": (RT, "JARM round trips and refusals on a fake clock."),
"C25": (RT, "JAR round trips for drawn requests with every algorithm, and forgeries."),
"C26": (IN, "Every documented failure class of every service operation against the documented protocol error code."),
"C27": ("property-based fault injection: every storage, client and generator call of generated operations fails before, after or with an empty value", "Fault points are drawn over the calls an operation makes; single and sticky faults."),
"C28": (RT, "Reflection-driven generation of every message; vtproto against the reference protobuf implementation; structure-aware mutation of wire bytes."),
"C29": (SM, "List operations against a plain-list model; constant-time comparison against equality."),
"C30": ("property-based testing of concurrent histories under the race detector, with a differential oracle per drawn sequence", "Schedules are those the Go scheduler produces."),
"C31": ("property-based testing (rapid) of the client against a generated in-process server with well-formed, altered and failing answers", "Answers are drawn by structure and then spoilt; nothing malformed may become a success."),
"C32": (SM, "Queries and caller edits against the documented table; near-miss names."),
"C34": (SM, "One global history over all grants, kinds of credential, clients and issuers, against a provenance model of every credential handed out."),
"C35": ("property-based testing (rapid) of generated calls over in-memory gRPC connections and recorded stubs, with a reflection-driven message generator", "The transport is in memory."),
"C36": (SM, "Histories of error builders against a model of every built error; concurrent builds under the race detector."),
"C37": (SM, "Trees of contexts against a model of the nearest injected client; concurrent requests under the race detector."),
"C38": (RT, "PASETO output read by an independent implementation of the published format; encryption observed by a recording encrypter. The PASETO library is not installed, a stand-in takes its place."),
"C40": ("concurrent property-based testing: drawn flows run at once under the race detector, each compared with its sequential outcome", "Schedules are those of the Go scheduler, varied by drawn pauses; they are not enumerated."),
"C39": (SM, "The whole stack, from HTTP request to storage, against a model of clients, users, requests, codes and tokens; requests are driven into the mux without a network."),
"C33": ("stateful property-based testing of complete two-session flows, with single-element substitution", "The HTTP layer is that of the harness."),
}
out = {k: {"technique": a, "note": b + " Generated-input search: it never establishes absence."} for k, (a, b) in T.items()}
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "levels.json"), "w"), indent=1)
