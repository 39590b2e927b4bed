#!/usr/bin/env python3
# Generates properties.jsonl (kept in one place so that wording stays reviewable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
L="lnwire/"
p("C01","Merkle root is the BOLT 12 tree over non-signature records",
 "The root computed for a set of records is that of the BOLT 12 tree: records in ascending type order, each record's \"LnLeaf\" leaf paired with a \"LnAll\"+all-records nonce leaf, siblings hashed under \"LnBranch\" with the smaller hash first, combined level by level with an odd node carried up unchanged. Records with types 240 to 1000 inclusive never influence the root and every other record does. An empty set of non-signature records is an error, never a root.",
 ["inputs"],"every list of records, of any length, in any order, with any types and values",
 "tests use one spec vector of three records and hand-made trees of two and three branches; tree shape errors only appear from five leaves on, and boundary types 240/1000 are not exercised end to end",
 [L+"bolt12_merkle.go"],[("tree construction","MerkleRoot, CreateTLVLeaves, CreateTLVBranches, CalculateRoot in lnwire/bolt12_merkle.go"),("signature range","isSignatureTLV")])
p("C02","Decoded BOLT 12 objects commit to the records as sent",
 "The merkle root attached to a decoded offer, invoice request or invoice is the root of exactly the records in the serialized stream, byte for byte as the sender wrote them. This includes records of unknown type, records with an empty value and records this implementation would itself have encoded differently or omitted. Decoding the same bytes always gives the same root.",
 ["inputs","schedules"],"every canonical stream of records, every number of unknown records, every map iteration order",
 "tests decode streams produced by the package itself, which contain no unknown, empty or non-minimal records; map iteration order is random",
 [L+"bolt12_shared.go",L+"bolt12_merkle.go",L+"bolt12_offer.go",L+"bolt12_invoice.go",L+"bolt12_invoice_request.go"],
 [("root of raw records","decodeMerkleRoot in lnwire/bolt12_shared.go"),("raw records","unknownRecordsFromParsed in lnwire/bolt12_merkle.go")])
p("C03","BOLT 12 validation accepts exactly the well-formed objects",
 "Validation accepts an offer exactly when it has a node id, a description, no minimum quantity above a (set) maximum and no bad signature; an invoice exactly when amount, payment hash, creation time, node id and description are present and it has no bad signature; an invoice request exactly when offer id, payer key and a good signature are present. Each rejection reports the specific error for the first rule that fails.",
 ["inputs"],"every combination of field values, present or absent, including the full range of 64-bit quantities",
 "tests toggle one field at a time from one base object",
 [L+"bolt12_offer.go",L+"bolt12_invoice.go",L+"bolt12_invoice_request.go"],
 [("offer rules","Offer.Validate"),("invoice rules","Invoice.Validate"),("request rules","InvoiceRequest.Validate")])
p("C04","Signatures are checked over the right digest with the right key",
 "A signature on an offer, invoice or invoice request is accepted only if it is a valid BIP 340 signature over the tagged hash of that object's own merkle root, under the tag \"lightning\" followed by \"offer\", \"invoice\" or \"invoice_request\" followed by \"signature\". It is verified with the node id for offers and invoices and with the payer key for invoice requests, and the digest handed out for signing an invoice request is the same one that validation checks. A signature that cannot be parsed is rejected.",
 ["inputs"],"every root, key and 64-byte signature",
 "tests sign with the package's own digest function, so a digest that is wrong but consistent passes, and cannot cover all keys and signatures",
 [L+"bolt12_signature.go",L+"bolt12_offer.go",L+"bolt12_invoice.go",L+"bolt12_invoice_request.go"],
 [("digest","signatureDigest"),("verification","validateSignature"),("request digest","InvoiceRequest.SignatureDigest")])
p("C05","Offer strings: joining, character set and bit conversion",
 "An offer string is split on \"+\", each part is stripped of surrounding whitespace and must be non-empty and printable ASCII; the joined text must be single-case, at least 8 characters long, have the prefix \"lno\" before its last \"1\" with at least six characters after it, and only bech32 characters after it. The data decoded is exactly the 5-to-8 bit regrouping of those characters (no checksum, no added padding) and depends on nothing else. Every other string is rejected with an error, never a panic.",
 ["inputs"],"every string, of any length and byte content",
 "tests use five rejected vectors and never decode a joined string successfully",
 ["offers/bech32.go","offers/encoding.go"],
 [("joins","stripOffer"),("bech32 without checksum","decodeBech32, checkASCII, toBytes"),("entry point","DecodeOfferStr")])
p("C06","A decoded offer string always yields a validated offer",
 "Decoding an offer string returns an offer only if the string is well formed, carries the offer prefix, its data is a decodable offer and that offer passes validation; in every other case it returns an error and no offer. The same holds for the offer decoding API, which additionally rejects an empty string as an invalid argument.",
 ["inputs"],"every string and every outcome of each decoding stage",
 "tests cover a handful of strings, one failure at a time",
 ["offers/encoding.go","rpcserver/impl_decodeoffer.go"],
 [("decode pipeline","DecodeOfferStr"),("API","Server.DecodeOffer, parseDecodeOfferRequest")])
p("C07","BOLT 12 objects survive encode and decode unchanged",
 "Encoding an offer, invoice request or invoice writes exactly one record for each populated field, with the field's assigned type and encoding and in ascending type order, and nothing for unpopulated ones. Decoding sets each field from the record of its assigned type and leaves the rest unset, so that decoding an encoded object gives back every field.",
 ["inputs"],"every combination of populated fields and every value of each of them",
 "tests round-trip objects one field at a time with one value; a pair of fields with swapped types or lossy encodings round-trips in such tests",
 [L+"bolt12_offer.go",L+"bolt12_invoice.go",L+"bolt12_invoice_request.go",L+"bolt12_shared.go",L+"tu64.go"],
 [("record production","records() of Offer, InvoiceRequest, Invoice"),("encode","EncodeOffer, EncodeInvoiceRequest, EncodeInvoice"),("decode","DecodeOffer, DecodeInvoiceRequest, DecodeInvoice"),("features","encodeFetauresRecord, decodeFeaturesRecord"),("truncated integers","encodeTU64, decodeTU64")])
p("C08","Invoice requests are only created within an offer's terms",
 "An invoice request is created exactly when the amount is at least the offer's minimum and the quantity is within the offer's inclusive range if it sets a minimum or maximum, or zero if it sets neither; each violation gives its specific error. The request carries the offer's chain and features, the offer's merkle root as offer id, the given amount, quantity, payer key and note, and the root of its own records.",
 ["inputs"],"all 64-bit amounts, quantities and ranges, including one-sided ranges",
 "tests use one two-sided range and one offer without quantities",
 [L+"bolt12_invoice_request.go"],[("creation","NewInvoiceRequest")])
p("C09","Onion payloads keep every final-hop record, exactly once and in order",
 "Encoding an onion payload writes its reply path, its encrypted data if non-empty and all of its final-hop records in ascending type order, and fails if a final-hop record has a type below 64. Decoding returns the reply path if and only if one was present, the encrypted data, and every record of type 64 or above exactly once, including ones with an empty value, with its value unchanged and in ascending type order. The result does not depend on the order in which records were supplied or visited.",
 ["inputs","schedules"],"every set of records and every map iteration order",
 "tests use at most a few final payloads with non-empty values",
 [L+"onion_msg_payload.go"],[("encode","EncodeOnionMessagePayload"),("decode","DecodeOnionMessagePayload"),("type range","ValidateFinalPayload")])
p("C10","Reply path encoding is exact, bounded and reversible",
 "The encoding of a reply path has exactly its declared size and consists of the introduction key, the blinding key, a one-byte hop count and each hop's key, two-byte length and data; paths with no hops, more hops than the count can express or data longer than its length prefix are errors, never truncated. Decoding accepts exactly such encodings, never reads beyond the declared length nor leaves part of it unread, and gives back the path that was encoded.",
 ["inputs"],"every path and every byte string with every declared length",
 "tests round-trip paths of up to three hops with the correct length",
 [L+"onion_msg_payload.go"],[("reply path","encodeReplyPath, decodeReplyPath, ReplyPath.size"),("hops","encodeBlindedHop, decodeBlindedHop, BlindedHop.size")])
p("C11","Onion messages on the wire are exact and reversible",
 "The wire form of an onion message is its 33-byte blinding key, a two-byte length and the onion blob, sent with message type 513 to the intended peer; a blob too long for its length prefix is an error. Decoding gives back the same blinding key and blob, and fails on short input.",
 ["inputs"],"every blob length and content, every byte string",
 "the test round-trips one message",
 [L+"onion_message.go","onionmsg/onion.go"],[("codec","OnionMessage.Encode, OnionMessage.Decode"),("envelope","customOnionMessage")])
p("C12","Blinded route data round-trips with absent fields absent",
 "Route data encrypted for a hop contains a next-node record (type 4) and a key-override record (type 8) exactly when the corresponding field is set, and decoding it gives back exactly those fields. Hops we blind ourselves always name a next node. Forwarding data is only ever recovered from a non-empty encrypted blob, with the blinding key it arrived with; anything else is an error.",
 ["inputs"],"all field combinations and byte strings",
 "tests round-trip three combinations",
 [L+"route_blinding.go","routes/blinded.go","onionmsg/onion.go"],[("codec","EncodeBlindedRouteData, DecodeBlindedRouteData"),("mandatory next node","encodeBlindedData"),("recovery","decryptBlobFunc")])
p("C13","Decoding untrusted bytes never panics",
 "Decoding any byte string as an offer, invoice request, invoice, onion payload, onion message or blinded route data, and any text as an offer string, returns either a value or an error. It never panics, indexes out of range or dereferences a missing value, and an error never comes with a partial result.",
 ["inputs"],"every byte string and every text",
 "no test feeds malformed input to the decoders beyond a few strings",
 [L+"bolt12_offer.go",L+"bolt12_invoice.go",L+"bolt12_invoice_request.go",L+"onion_msg_payload.go",L+"onion_message.go",L+"route_blinding.go","offers/bech32.go"],
 [("decoders","Decode* in lnwire and offers")])
p("C14","Each blinded hop points to the next node, the last to the destination path",
 "For every unblinded path, hop i of the route to be blinded carries node i's key and a payload naming node i+1. The last hop carries no payload, unless the route continues into a recipient's blinded path, in which case its payload names that path's introduction node and carries that path's blinding key as override; no other hop carries an override. A failure to encode any payload fails the whole route.",
 ["inputs"],"paths of every length, with and without a blinded destination",
 "tests use paths of one to three nodes",
 ["routes/blinded.go"],[("chaining","createPathToBlind")])
p("C15","Only the last hop of an onion gets the final payloads and reply path",
 "The onion's hops are the blinded hops of our route in order followed by the hops of the recipient's blinded path in order, each with its own blinded key and encrypted data. The final payloads and the reply path go to the last of these hops and to no other, also when the recipient's introduction node is our direct peer. A route with more hops than an onion can hold is an error.",
 ["inputs"],"every number of own and extra hops, every set of payloads",
 "tests use one to three hops",
 ["routes/blinded.go"],[("assembly","blindedToSphinx, createSphinxHop"),("direct case","directToBlinded")])
p("C16","Onion message routes are validated and sent to their first node",
 "A route is only created if it has at least one hop, both keys and, for a blinded destination, ends at that destination's introduction node; otherwise the specific error is returned. The message is addressed to the first node of the unblinded path and carries the public blinding key, the introduction node is dropped from the part of the route that we blind, and if nothing is left the message is addressed to the introduction node with the destination path's own blinding key. Any failing step yields an error and no message.",
 ["inputs"],"every path, destination and outcome of each step",
 "tests use fixed short routes and mocks",
 ["routes/blinded.go"],[("creation","CreateBlindedRoute, directToBlinded"),("validation","BlindedRouteRequest.validate")])
p("C17","Reply routes only use active peers that can relay to us",
 "The nodes considered for relaying to us are exactly the peers of our active channels that are in the graph, have at least one public channel and set every required feature asked for; peers missing from the graph are skipped and any other lookup failure is an error. The route generated is through an eligible peer with the most channels and ends at our node, with that peer told to forward to us; no channels, or no eligible peers, is an error.",
 ["inputs","fault_sequences"],"every set of channels, node infos, features and lookup failures",
 "tests use up to three peers and single failures",
 ["routes/blinded.go"],[("selection","getRelayingPeers, createRelayCheck"),("route","buildBlindedRoute, BlindedRouteGenerator.ReplyPath")])
p("C18","Incoming onion messages reach exactly the right handlers",
 "A message for our node is delivered, in order of its final-hop records, exactly once to the handler registered for each record's type, with the message's reply path, encrypted data and that record's value; records without a handler are skipped and the first handler error ends processing. A message to be forwarded is never delivered to handlers, and is forwarded exactly once if it has a next onion, no final-hop records and decryptable data, and otherwise fails. A message that fails to process or decode reaches neither.",
 ["inputs","fault_sequences"],"every message, set of handlers and outcome of each step",
 "tests use messages with at most two payloads and single failures",
 ["onionmsg/messenger.go"],[("dispatch","handleOnionMessage"),("unwrap","Messenger.processOnion")])
p("C19","Forwarded messages go to the named node with the right blinding key",
 "A forwarded message is sent to the node named in its decrypted data, as one onion message of type 513 holding the peeled onion and the next blinding key. The next blinding key is the override if the data has one and otherwise the key derived from the incoming blinding key and our node key. Without a next node, or on any failure, nothing is sent and an error is returned.",
 ["inputs","fault_sequences"],"all route data, keys and outcomes of each step",
 "tests cover a few combinations with a mock",
 ["onionmsg/messenger.go"],[("forward","Messenger.forwardMessage")])
p("C20","At most one handler per payload type, managed consistently",
 "Registering a handler succeeds exactly when the type is 64 or above, the messenger has started and no handler is registered for the type; deregistering exactly when one is registered. Each request changes the entry of its own type and no other, failed requests change nothing, and the requester receives exactly one answer, which is the outcome, unless the messenger is shutting down.",
 ["histories","schedules"],"every sequence of registration requests interleaved with messages and shutdown",
 "tests run short fixed sequences",
 ["onionmsg/messenger.go"],[("registry","Messenger.registerHandler"),("handoff","Messenger.handleRegistration, RegisterHandler, DeregisterHandler"),("event loop","Messenger.manageOnionMessages")])
p("C21","No message from a peer can stop message processing",
 "Once subscribed, message processing ends only because a subscription stream ended or failed or the messenger is shutting down; every onion message is processed once, whatever its processing returns, and messages of other types are ignored. When it ends for any reason other than shutdown, a graceful shutdown is requested with that reason exactly once, and not otherwise.",
 ["histories","fault_sequences","schedules"],"every sequence of messages, registrations, stream failures and shutdown",
 "tests send single messages with single errors",
 ["onionmsg/messenger.go"],[("event loop","Messenger.manageOnionMessages"),("shutdown request","Messenger.Start")])
p("C22","We never connect to a peer unless asked to",
 "Sending without the direct-connect option uses the path found through the channel graph, every hop of it, and fails with a no-path error if there is none; it never opens a connection. With the option, an existing connection is used, otherwise one permanent connection is made to the target's first advertised address and the message is only sent once the peer is seen as connected within the configured number of checks. The target is the peer or the introduction node of the blinded destination, and at most one message is sent per request.",
 ["inputs","fault_sequences","schedules"],"every request, path, peer list, and outcome or cancellation at each step",
 "tests script single outcomes",
 ["onionmsg/messenger.go"],[("send","Messenger.SendMessage"),("connect","Messenger.lookupAndConnect, findPeer"),("path","multiHopPath, queryRoutesRequest"),("target","SendMessageRequest.targetPeer")])
p("C23","API requests are parsed faithfully or rejected as invalid",
 "A send request is accepted exactly when it names either a parseable public key or a parseable blinded path with at least one hop, its reply path (if any) parses and all final payload types are 64 or above; the resulting request carries exactly those keys, hops, payloads and options. Feature bits above 65535 and subscriptions to types below 64 are rejected, everything else is passed on unchanged. Every rejection carries the invalid-argument status.",
 ["inputs"],"every request",
 "tests cover one failing field at a time",
 ["rpcserver/common.go","rpcserver/impl_sendonionmessage.go","rpcserver/impl_generate_blinded_route.go","rpcserver/impl_subscribe_onion_payload.go","onionmsg/messenger.go"],
 [("send","parseSendOnionMessageRequest"),("paths","parseReplyPath"),("features","parseGenerateBlindedRouteRequest"),("subscription type","parseSubscribeOnionPayloadRequest"),("destination rules","SendMessageRequest.Validate")])
p("C24","API responses report exactly what was decoded or generated",
 "The offer returned for an offer string has the decoded offer's amount, description, features, expiry, issuer, quantity range, node id and signature, with unset fields unset. A blinded path returned by the API has the generated route's introduction key, blinding key and every hop's key and data in order, and parsing it again gives back the same path. Send failures are reported as not-found only when no path exists, and as internal otherwise.",
 ["inputs"],"every offer, path and send outcome",
 "tests compare single examples",
 ["rpcserver/common.go","rpcserver/impl_decodeoffer.go","rpcserver/impl_generate_blinded_route.go","rpcserver/impl_sendonionmessage.go"],
 [("offers","composeDecodeOfferResponse"),("paths","composeReplyPath, composeBlindedRoute"),("send outcome","Server.SendOnionMessage"),("route","Server.GenerateBlindedRoute")])
p("C25","API calls touch nothing before the server is ready",
 "Until the server has fully started, every API call waits and does nothing else; if the caller gives up first it gets an unavailable error and no messenger, route generator or decoder has been used. The server only becomes ready after its messenger has started, and never if a startup step fails.",
 ["schedules","histories"],"every interleaving of calls, startup, its failures and caller cancellation",
 "tests call already-started servers",
 ["rpcserver/server.go","rpcserver/impl_decodeoffer.go","rpcserver/impl_generate_blinded_route.go","rpcserver/impl_sendonionmessage.go","rpcserver/impl_subscribe_onion_payload.go"],
 [("gate","Server.waitForReady"),("startup","Server.Start")])
p("C26","Subscriptions deliver every payload and always clean up",
 "A subscription registers one handler for its type, sends each payload received to the client once and in order with its reply path, and when it ends for any reason deregisters that handler exactly once, after first releasing a handler that is still delivering. It ends only on client cancellation, server shutdown or a failed send, with the matching error; if registration fails nothing is sent or deregistered and an unavailable error is returned. A handler hands its payload over exactly once or returns an error because the subscription or server ended.",
 ["histories","schedules","fault_sequences"],"every sequence of payloads, cancellation, shutdown and send failures",
 "tests run fixed two-message scripts",
 ["rpcserver/impl_subscribe_onion_payload.go"],[("subscription","handleSubscribeOnionPayload")])
p("C27","Startup and shutdown run at most once, with bounded retries",
 "Across any interleaving of calls, the startup and shutdown actions of the daemon, the API server and the messenger are each performed at most once and every further call fails. Startup attempts to connect to lnd up to one more time than the configured number of retries, for every configurable value, waiting in between, and proceeds exactly if an attempt succeeded. Shutdown stops the API server and, if connected, closes the connection to lnd; the messenger waits for its tasks before stopping its onion router.",
 ["schedules","configurations","fault_sequences"],"every interleaving of start and stop calls, every retry count, every sequence of connection outcomes",
 "no test starts the daemon; the messenger tests start and stop once",
 ["boltnd.go","rpcserver/server.go","onionmsg/messenger.go"],[("daemon","Boltnd.Start, Boltnd.Stop, Boltnd.requestShutdown"),("server","Server.Start, Server.Stop"),("messenger","Messenger.Start, Messenger.Stop")],
 state=[{"name":"started","meaning":"set once by an atomic swap by the single caller that performs startup","where":"boltnd.go Boltnd, rpcserver/server.go Server, onionmsg/messenger.go Messenger"},{"name":"stopped","meaning":"set once by an atomic swap by the single caller that performs shutdown","where":"same types as started"}])
p("C28","Only usable configurations are accepted",
 "A daemon is only created if every configuration option applies and the result has an lnd client configuration, a required lnd version at least as strict as the minimum and a non-negative wait. Configuration taken from lnd uses its first RPC listener, admin macaroon, certificate and network, and is rejected without a listener or on an unsupported network. Each option changes only the settings it is for.",
 ["configurations"],"every configuration and order of options",
 "no test constructs a configuration",
 ["config.go","boltnd.go"],[("validation","Config.Validate"),("lnd config","OptionLNDConfig"),("options","NewBoltnd and Option*")])
p("C29","Node-key operations always use lnd's node identity key",
 "Every shared secret computed for onion processing is derived by lnd from the given public key with the node's identity key (family 6, index 0), and its result or error is returned unchanged. The node's public key is the identity key reported by lnd, fetched once, and creation fails if it cannot be fetched or parsed.",
 ["inputs","fault_sequences"],"every key and every outcome of the lnd calls",
 "the test checks one key",
 ["onionmsg/node_ecdh.go"],[("ECDH","NodeECDH.ECDH"),("creation","NewNodeECDH")])
p("C30","Every API method has a macaroon permission",
 "Every method of the served API, streaming or not, has an entry with at least one permission in the table handed to lnd: writing to peers for sending messages and reading offchain data for all others. The table has no other entries and nothing changes it at run time.",
 ["programs"],"every method of the service",
 "no test compares the table with the service definition",
 ["rpcserver/macaroons.go","boltnd.go","offersrpc/offersrpc_grpc.pb.go"],[("table","RPCServerPermissions"),("exposure","Boltnd.Permissions")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
