P("W01", "Offers survive encoding and decoding unchanged",
  """Encoding an offer yields exactly the records its format defines, in ascending order, with every set field carried in full and every
  unset field left out. Decoding those records restores every field's value and leaves fields without a record unset. Bytes that are
  truncated, carry trailing garbage or hold a field of the wrong length are refused rather than decoded.""",
  "inputs", "every combination of present fields with arbitrary values of arbitrary length, and every malformed length of each record",
  "The round trip tests fix one value per field and a handful of combinations; the guarantee quantifies over all values and combinations.",
  "lnwire/bolt12_offer.go lnwire/bolt12_shared.go lnwire/tu64.go",
  [("offer record tables", "lnwire/bolt12_offer.go EncodeOffer, DecodeOffer"), ("truncated integers", "lnwire/tu64.go")])
P("W02", "Invoices survive encoding and decoding unchanged",
  """Encoding an invoice yields exactly the records its format defines, in ascending order, with every set field carried in full and every
  unset field left out. Decoding those records restores every field's value and leaves fields without a record unset. Bytes that are
  truncated, hold a field of the wrong length or an expiry no duration can express are refused rather than decoded.""",
  "inputs", "every combination of present fields with arbitrary values of arbitrary length, and every malformed length of each record",
  "The round trip tests fix one value per field and a handful of combinations; the guarantee quantifies over all values and combinations.",
  "lnwire/bolt12_invoice.go lnwire/bolt12_shared.go lnwire/tu64.go",
  [("invoice record tables", "lnwire/bolt12_invoice.go EncodeInvoice, DecodeInvoice")])
P("W03", "Invoice requests survive encoding and decoding unchanged",
  """Encoding an invoice request yields exactly the records its format defines, in ascending order, with every set field carried in full
  and every unset field left out. Decoding those records restores every field's value and leaves fields without a record unset. Bytes
  that are truncated or hold a field of the wrong length are refused rather than decoded.""",
  "inputs", "every combination of present fields with arbitrary values of arbitrary length, and every malformed length of each record",
  "The round trip tests fix one value per field and a handful of combinations; the guarantee quantifies over all values and combinations.",
  "lnwire/bolt12_invoice_request.go lnwire/bolt12_shared.go lnwire/tu64.go",
  [("invoice request record tables", "lnwire/bolt12_invoice_request.go EncodeInvoiceRequest, DecodeInvoiceRequest")])
P("W04", "Onion message payloads survive encoding and decoding unchanged",
  """Encoding an onion message payload yields the reply path, the encrypted data and every payload for the final hop under their own
  types, in ascending order, and nothing else. Decoding restores each part, delivers final hop payloads of type 64 and above in ascending
  order with their exact bytes (empty ones included), and never mistakes another record for one.""",
  "inputs", "every combination of parts, any number, order and content of final hop payloads",
  "The tests decode what the encoder wrote for a few fixed payloads; they do not cover arbitrary types, orders, empty values or foreign bytes.",
  "lnwire/onion_msg_payload.go", [("payload records", "lnwire/onion_msg_payload.go EncodeOnionMessagePayload, DecodeOnionMessagePayload")])
P("W05", "Reply paths survive encoding and decoding, malformed ones are refused",
  """Encoding a reply path yields the first node, the blinding point, the number of hops and each hop's key and length-prefixed data in
  order, and decoding restores exactly these. A path whose parts do not fit their length prefixes is refused when encoding. A record that
  is truncated, over-long or inconsistent with its own length fields is refused when decoding, whatever follows it.""",
  "inputs", "every number of hops, arbitrary hop data, every inconsistency between a length field and the bytes that are present",
  "The tests round trip one or two hops; a length that lies about its content never occurs in them.",
  "lnwire/onion_msg_payload.go", [("reply path records", "lnwire/onion_msg_payload.go encodeReplyPath, decodeReplyPath")])
P("W06", "Blinded route data survives encoding and decoding unchanged",
  """Encoding the data a hop of a blinded route is given yields the next node's id and the next blinding override under their own types,
  each only if it is set. Decoding restores exactly those two values, and data with a malformed key or length is refused.""",
  "inputs", "every combination of the optional fields with arbitrary keys, and malformed records",
  "The tests round trip fixed keys in a few combinations.",
  "lnwire/route_blinding.go", [("route data records", "lnwire/route_blinding.go")])
P("W07", "Onion messages survive the peer-to-peer wire unchanged",
  """An onion message on the wire is its blinding point followed by the two byte length and the bytes of its onion, under message type
  513. Decoding such bytes restores the same blinding point and onion, and bytes that end early or hold no valid key are refused.""",
  "inputs", "every blinding point and onion of every length, and every truncation",
  "The tests round trip one message.",
  "lnwire/onion_message.go", [("message encoding", "lnwire/onion_message.go")])
P("W08", "Bolt 12 messages are valid exactly when the specification's conditions hold",
  """An offer, invoice request or invoice passes validation if and only if every mandatory field is set, an offer's minimum quantity does
  not exceed its maximum, and its signature (mandatory for invoice requests, optional otherwise) verifies over the message's own tagged
  merkle root with the signer's key. The first condition that fails is reported with its own error and validation changes nothing.
  The digest an invoice request is to be signed over is the one its validation verifies.""",
  "inputs", "every message, valid or not",
  "The tests break one field at a time of a valid message; acceptance has to imply every condition for arbitrary messages, and a signature over another message, field, tag or key must never verify.",
  "lnwire/bolt12_offer.go lnwire/bolt12_invoice.go lnwire/bolt12_invoice_request.go lnwire/bolt12_signature.go",
  [("validation", "lnwire/bolt12_*.go Validate"), ("signature digest", "lnwire/bolt12_signature.go")])
P("W09", "Invoice requests are only made within an offer's limits",
  """An invoice request is made for an offer only within the offer's limits: the amount is not below the minimum amount, a quantity is
  given exactly if the offer has a quantity range, and it lies inside of that range; anything else is refused with the error naming the
  limit. The request carries the offer's chain and features, the requested amount, quantity, payer key and note, identifies the offer by
  its merkle root, and holds the merkle root of its own records.""",
  "inputs", "every offer, amount, quantity, feature vector and payer key",
  "The tests try a dozen combinations of small numbers; limits are arithmetic facts over all amounts and quantities.",
  "lnwire/bolt12_invoice_request.go", [("constructor", "lnwire/bolt12_invoice_request.go NewInvoiceRequest")])
P("W10", "Merkle roots follow the specification's construction",
  """The merkle root of a set of records is the one the specification defines: a leaf and a nonce hash per record that is no signature,
  each tagged and ordered by value, combined level by level in order of type, with an odd node moving up unchanged. The order in which
  records are given, and signature records, do not change the root, and a set without any other record has none.""",
  "inputs", "every number of records up to the bound, of any type, content and order, and every outcome of the hash comparisons",
  "Test vectors fix a few trees; sibling order depends on hash values, so a wrong comparison or tag shows on some inputs only.",
  "lnwire/bolt12_merkle.go", [("merkle tree", "lnwire/bolt12_merkle.go MerkleRoot")],
  note="Bounds: up to 8 records (quick), 17 (thorough).")
P("W11", "Decoded messages carry the merkle root of the bytes that were signed",
  """The merkle root of a decoded offer, invoice request or invoice is the root over all records of the original bytes except
  signatures, including records of unknown types, with each record's exact value. Two byte strings that differ in any such record do not
  share a root merely because the decoder ignores the record.""",
  "inputs", "every combination of known and unknown records with arbitrary content, empty ones included",
  "The tests decode messages with known records only, or one unknown record.",
  "lnwire/bolt12_merkle.go lnwire/bolt12_offer.go lnwire/bolt12_invoice.go lnwire/bolt12_invoice_request.go",
  [("root of decoded records", "lnwire/bolt12_merkle.go decodeMerkleRoot")])
P("R01", "Onion messages are built for exactly the requested route and recipient",
  """The onion built for a route visits the requested hops in order, each blinded with the session key and told only the next node, with the
  switch to a blinded destination's own path announced at its introduction node together with its blinding point. Only the last hop is
  given the final payloads and the reply path, exactly as requested, and every blinded hop keeps the encrypted data its recipient made.
  The message's blinding point is the one the first hop needs.""",
  "inputs", "every number of clear hops and blinded hops up to the bound, with and without reply path and final payloads",
  "The tests compare a few routes of fixed shape; a payload attached to the wrong hop or a key taken from the wrong place needs a particular shape to show.",
  "routes/blinded.go", [("route construction", "routes/blinded.go CreateBlindedRoute, encodeBlindedPayloads, directToBlinded")],
  note="Bounds: up to 3 clear and 3 blinded hops (quick), more in thorough.")
P("R02", "Routes that can not be served are refused",
  """A route request without hops or keys, or whose path to a blinded destination does not end at that destination's introduction node, is
  refused with an error that names the reason. A route with more hops than an onion can carry is refused rather than built.""",
  "inputs", "every incomplete or inconsistent request and every number of hops",
  "The tests try each refusal once, and no route near an onion's capacity.",
  "routes/blinded.go", [("request validation", "routes/blinded.go validate"), ("capacity", "routes/blinded.go")])
P("R03", "Reply routes start at the best connected suitable peer and end here",
  """A reply route's introduction node is, among the peers of our active channels (public or private) that the graph knows with at least
  one channel and all the required features, the one with the most channels, and the route leads from it to this node only. Peers
  unknown to the graph are skipped, any other lookup failure is reported, and without channels or a suitable peer an error says so.
  Every route is blinded with a fresh random key.""",
  "inputs fault_sequences", "every set of channels and peers up to the bound, every graph state of each peer and every failing lookup",
  "The tests use one or two peers with fixed answers.",
  "routes/blinded.go", [("selection", "routes/blinded.go getRelayingPeers, buildRoute")],
  note="Bounds: every combination of up to three channels and their peers' graph states.")
P("M01", "Onion messages for this node reach exactly the registered handlers",
  """A message whose final hop is this node is delivered once: for each of its final payloads, in order, the handler registered for that
  payload's type at that moment gets the payload's value, the sender's reply path and the encrypted data as it came;
  payloads without handler are skipped and a handler that fails keeps nothing from the others. Nothing else is ever delivered: no handler runs for a message in transit, for one that can not
  be decoded or verified, or for an onion that was seen before. Delivery sends nothing.""",
  "inputs histories", "every set of final payloads and registered handlers up to the bound, after any history of registrations, with or without reply path and encrypted data",
  "The tests deliver one or two payloads to one handler; a value attached to the wrong handler, or delivered after a failed step, needs a particular combination.",
  "onionmsg/messenger.go onionmsg/onion.go", [("delivery", "onionmsg handleOnionMessage, the messenger's event loop")],
  note="Bounds: up to three final payloads and handlers; registration histories of up to three operations.")
P("M02", "Messages in transit are forwarded to the node their route data names",
  """A message for another hop is forwarded exactly once, to the node named in the route data that this node's key and the message's blinding
  point decrypt, as an onion message with the processed onion and the next blinding point: the one the route data overrides it with,
  otherwise the one derived from this node's key. A message without usable route data, whose onion was seen before, or for which any step fails, is not forwarded.""",
  "inputs fault_sequences", "every message in transit, every shape of its route data and every failing step",
  "The tests forward one message with mocked steps; each wrongly derived key or peer looks fine to mocks that return constants.",
  "onionmsg/onion.go", [("forwarding", "onionmsg/onion.go")])
P("M03", "No message can stop the messenger",
  """Whatever a peer sends, the messenger keeps going: a message that can not be decoded, processed, delivered or forwarded has no other
  effect, and what follows it is handled as if it had not been there. No input makes it panic, ask for a shutdown or wait forever, and
  custom messages of other types have no effect at all.""",
  "inputs histories", "every bad message and every failing step, at every point of a history of good messages and registrations",
  "The tests check that one bad message returns an error, not that the loop survives it and handles what follows unchanged.",
  "onionmsg/messenger.go onionmsg/onion.go", [("event loop", "onionmsg/messenger.go")],
  note="Bounds: histories of up to three operations.")
P("M04", "Handler registrations take effect in order and always return",
  """At most one handler is registered per payload type: a second one is refused with the registered error and replaces nothing, a removal of
  an unknown one is refused with the not-found error, and a removed type is free again. A type outside of the range for final payloads, or
  a messenger that does not run, is refused without effect. Once a registration returns success it is in effect for every later message,
  and every registration returns, whether the messenger runs, stops or has stopped.""",
  "histories schedules", "every history of registrations, removals and messages up to the bound, every type, and every point at which the messenger stops",
  "The tests register a few handlers in sequence; a call racing a stop blocks or panics on some schedules only.",
  "onionmsg/messenger.go", [("registration", "onionmsg/messenger.go RegisterHandler, DeregisterHandler and the event loop")],
  note="Bounds: histories of up to three operations over two types.")
P("M05", "The messenger starts and stops once, in order, and never ends silently",
  """The event loop runs only after the onion router has been started; a second start or stop is refused without effect, and a failed start
  leaves no goroutine. A stop tells the event loop to end, waits until it has, then stops the router. Whenever lnd's streams fail or end
  while the messenger runs, exactly one shutdown is requested, with an error; however the loop ends, its message subscription is released
  and its end is accounted for.""",
  "schedules fault_sequences", "every way in which the event loop, lnd's streams, a start and a stop can end",
  "The tests stop a messenger once; the ways in which lnd's streams end are never played against a running loop.",
  "onionmsg/messenger.go", [("life cycle", "onionmsg/messenger.go Start, Stop, receiveOnionMessages")])
P("M06", "Messages are sent along lnd's route to the requested destination",
  """A message to a peer or to a blinded destination's introduction node is built for exactly the hops of the route lnd finds to it, with two
  fresh keys, the requested final payloads, reply path and destination, and sent once, as an onion message, to the first node of that
  route; no connection is made for it, and what is asked of lnd ends when the caller gives up. Without a route the missing path error is reported and nothing is sent;
  any other failing step is reported as a failure and not as a missing path.""",
  "inputs fault_sequences", "every kind of destination, payload and reply path, every length of lnd's route and every failing step",
  "The tests mock one route and compare few fields of what is sent.",
  "onionmsg/messenger.go onionmsg/onion.go routes/blinded.go", [("sending", "onionmsg SendMessage, multiHopPath")],
  note="Bounds: routes of up to 3 hops (quick), 7 (thorough).")
P("M07", "Direct sends connect to the destination first and never send unconnected",
  """A direct send goes to the destination alone and no other node. An existing connection is used as it is; otherwise one lasting connection
  is made, to an address the graph lists for that very node, and the message is sent only once lnd lists the node as a peer. It fails
  without sending if the node has no address, does not get connected within a bounded number of polls, the caller gives up, or any step
  fails.""",
  "inputs schedules fault_sequences", "every number of addresses and other peers up to the bound, every poll at which the peer gets connected, and every failing or cancelled step",
  "The tests use a peer that is connected at once or never.",
  "onionmsg/messenger.go onionmsg/onion.go", [("direct connection", "onionmsg SendMessage, lookupAndConnect")],
  note="Bounds: up to two addresses and two other peers.")
P("M08", "The node key's secrets stay in lnd and are used for the right key",
  """The key used to process onions is lnd's node identity key: its public half is the one lnd reports, and every shared secret is derived by
  lnd from that key's locator and the given public key and returned unchanged. A failing derivation is reported, and no call to lnd can
  wait without a deadline.""",
  "inputs fault_sequences", "every public key and every answer of lnd",
  "The tests replace the key by a local one; no test covers the remote one.",
  "onionmsg/node_ecdh.go", [("node key", "onionmsg/node_ecdh.go")])
P("S01", "RPCs run only on a fully started server",
  """Every rpc waits until the server has been started, and fails with code unavailable and without any effect if its client gives up first.
  The server announces itself ready only once the node key, the route generator and the messenger are in place and the messenger has been
  started; a failed start reports the failure and never announces. A second start or stop is refused without effect, and a stop ends every
  subscription, then stops the messenger, whether or not the start succeeded.""",
  "schedules fault_sequences", "every rpc at every point before, during and after the start, and every failing step of start and stop",
  "The tests wait for a ready server, or for one that is never ready; orderings within the start are invisible to them.",
  "rpcserver/server.go rpcserver/impl_decodeoffer.go rpcserver/impl_sendonionmessage.go rpcserver/impl_generate_blinded_route.go rpcserver/impl_subscribe_onion_payload.go",
  [("life cycle", "rpcserver/server.go Start, Stop, waitForReady")])
P("S02", "The send rpc sends what was asked for or says why not",
  """The send rpc hands the messenger exactly one request: the key or blinded path given as destination, the reply path, every final payload
  under its own type and the direct connect flag, unchanged. A request with no destination or with two, with a malformed key anywhere,
  with a payload type outside of the range for final payloads, or that the messenger's own validation refuses, fails as an invalid
  argument and nothing is sent. Success is reported only if the messenger succeeded, a missing path as not found, and any other failure
  as internal.""".replace(" Success", ";  success").replace("argument and nothing is sent.;", "argument and nothing is sent;"),
  "inputs fault_sequences", "every shape of request with arbitrary values, and every answer of the messenger",
  "The tests compare a few fixed requests; a field that gets lost or swapped for some shape of request goes unnoticed.",
  "rpcserver/impl_sendonionmessage.go rpcserver/common.go", [("request conversion", "rpcserver/impl_sendonionmessage.go, parseReplyPath")],
  note="Bounds: up to two payloads and three hops per path.")
P("S03", "Subscriptions deliver every message in order and end with a cause",
  """A subscription registers exactly one handler, for the type asked for, and takes it back exactly once however it ends; a type outside of the
  range for final payloads and a refused registration fail with their own code without having subscribed. While it lasts, every message
  handed to it reaches the client exactly once, in order, with its own value and reply path. It ends with code canceled if the client
  gives up, with the shutdown error if the server stops, and with the stream's error if sending fails.""",
  "inputs schedules histories fault_sequences", "every type, and every history of messages, cancellations, stops and failures up to the bound",
  "The tests deliver one message and end the subscription in one way at a time.",
  "rpcserver/impl_subscribe_onion_payload.go rpcserver/common.go", [("subscription", "rpcserver/impl_subscribe_onion_payload.go")],
  note="Bounds: histories of up to three events.")
P("S04", "A subscription can not block the messenger",
  """The handler of a subscription returns for every message it is given, at every point of the subscription's life: while the subscription
  waits, while it is sending to a client that is slow, while it is being removed, and after it has ended. A subscription's end never
  waits for a handler that waits for the subscription.""",
  "schedules", "every point of a subscription's life at which a message can arrive, with nobody taking its messages",
  "Whether the handler blocks depends on an interleaving of the client, the server's stop and the messenger that tests do not control.",
  "rpcserver/impl_subscribe_onion_payload.go", [("handler", "rpcserver/impl_subscribe_onion_payload.go handleSubscribeOnionPayload")])
P("S05", "The offer decoding rpc reports exactly what the offer says",
  """For an offer string that decodes, the response carries each of the offer's fields under its own name with the decoded value (the amount,
  description, features, expiry in unix seconds, issuer, quantity bounds, node id and signature in hex), and leaves absent ones empty. An
  empty or undecodable string fails as an invalid argument, and no failure is reported as an offer.""",
  "inputs", "every combination of present fields with arbitrary values, and every failing step",
  "The tests compare one or two offers; a field that is dropped or swapped in other combinations goes unnoticed.",
  "rpcserver/impl_decodeoffer.go", [("response", "rpcserver/impl_decodeoffer.go composeDecodeOfferResponse")])
P("S06", "The route rpc returns the generated route for the features asked for",
  """The route rpc asks for a route with exactly the feature bits of the request, in order, and answers with that route's introduction node,
  blinding point and hops, each hop's key with its own data, in order. A feature that does not fit its type fails as an invalid argument
  without a route being generated, and a failing generator as internal.""",
  "inputs fault_sequences", "every list of features up to the bound with arbitrary values, every number of hops up to the bound",
  "The tests use two feature lists and one route; a truncated feature or a mismatched hop goes unnoticed.",
  "rpcserver/impl_generate_blinded_route.go rpcserver/common.go", [("route response", "rpcserver/impl_generate_blinded_route.go, composeBlindedRoute")],
  note="Bounds: up to three features and three hops.")
P("S07", "Every RPC demands a macaroon with its own permissions",
  """Every method of the offers service, and nothing else, has an entry in the permission table: sending demands write access to peers, and
  every other method read access to offchain data. The table handed to lnd is this one. A call is let through only after its macaroon has been
  checked against the permissions demanded.""",
  "inputs", "every method of the service, every macaroon",
  "No test covers permissions; an rpc without an entry or without a check is reachable all the same.",
  "rpcserver/macaroons.go boltnd.go offersrpc/offers_grpc.pb.go", [("permission table", "rpcserver/macaroons.go"), ("validation", "boltnd.go Permissions, ValidateMacaroon")])
P("B01", "A node is only built from a complete and valid configuration",
  """The options given are applied once each, in order, to the default configuration, and the first that fails fails the construction. A node
  is built only from a configuration that has an lnd config which demands at least the minimum version and build tags, and no negative
  wait. Each option sets what it says and nothing else: taking over lnd's config connects to its first listener, with its certificate and
  admin macaroon, on its own network, and is refused without a listener or for another network.""",
  "inputs fault_sequences", "every list of options up to the bound, every combination of the validation's conditions, every lnd config",
  "The tests cover one or two valid and invalid configurations.",
  "boltnd.go config.go", [("options", "config.go"), ("constructor", "boltnd.go NewBoltnd")],
  note="Bounds: up to three options.")
P("B02", "Start retries lnd within its limit, stop undoes what start did",
  """Start tries to connect to lnd at most once more than the configured number of retries, waits the configured time after each failure (each the documented default unless configured), stops
  at the first success, and starts the rpc server only with a connection, otherwise it reports the last failure. Stop stops the rpc server,
  then closes the connection if there is one, even if the server fails to stop. A second start or stop is refused without effect, and the shutdown closure is called, if
  there is one, whenever the messenger asks for a shutdown.""",
  "inputs fault_sequences", "every number of retries up to the type's maximum, and every sequence of failing attempts up to the bound",
  "Start is not covered by unit tests, and a limit that only goes wrong at the type's maximum is out of reach of the integration tests.",
  "boltnd.go", [("life cycle", "boltnd.go Start, Stop, requestShutdown")],
  note="Bounds: loops of up to five attempts, and the retry counts at the bounds of the type.")
P("B03", "Every subsystem's logger is set up",
  """With a logger setup configured, every package that owns a logger is registered exactly once, under its own subsystem and with its own
  setter, before anything starts; without one, nothing is set up and construction succeeds.""",
  "inputs", "every package that owns a logger",
  "No test covers logging; a package that is not registered stays silent.",
  "boltnd.go log.go rpcserver/log.go onionmsg/log.go offers/log.go routes/log.go", [("loggers", "boltnd.go setupLoggers")])
P("B04", "lnd serves the offers service with the server that boltnd runs",
  """When lnd hands over its grpc server, exactly the offers service is registered with it, once, and never before. The implementation that is
  registered is the very server that start starts and stop stops, so that an rpc is answered by a server that runs.""",
  "histories", "every configuration, and a registration followed by start and stop in which every step may fail",
  "No test registers the service on a grpc server; one that serves another instance compiles and passes, and every rpc waits forever.",
  "boltnd.go rpcserver/server.go", [("registration", "boltnd.go RegisterGrpcSubserver, NewBoltnd"), ("life cycle", "boltnd.go Start, Stop")])
P("O01", "Offer strings are decoded as bolt 12 encodes them",
  """An offer string is decoded exactly when it is the prefix lno, a 1 and bech32 characters in one case, whole or in parts that are joined
  by a plus and optional whitespace: then the bytes that are decoded and validated are those of all of its characters in order, without the
  joins. Anything else is refused, a misplaced join and a wrong prefix with their own errors, without a panic and whatever its
  characters or encoding; and no failing step is reported as an offer.""",
  "inputs fault_sequences", "every string with a given number of characters up to the bound, each any byte or any of its class, with joins, whitespace and foreign characters at every position",
  "The tests decode a dozen strings; a join at an odd place, a foreign character whose lower case is in the alphabet, or an empty part is not among them.",
  "offers/encoding.go offers/bech32.go", [("decoding", "offers/encoding.go DecodeOfferStr"), ("joins", "offers/encoding.go, offers/bech32.go")],
  note="Bounds: strings of up to 15 characters, of which one to three range over every byte and the others over their class. The bit conversion is a trusted step; what decodes the bytes is W01's subject.")
P("C01", "Concurrent use is free of data races",
  """RPCs served at the same time, subscriptions' handlers, handler registrations, sends, the messenger's event loop, and the start and stop of server
  and messenger never access the same memory without something that orders the accesses, unless all of them only read. This holds for the
  fields of the server, the messenger, the route generator and the node key, for package variables, and for memory shared with a goroutine
  or a handler. No channel is closed while another thread may send on or close it.""",
  "schedules", "every pair of accesses, by any two of these threads, and every order in which they can happen",
  "The race detector only sees the accesses of the schedules that a test runs; the tests run few threads, and none that overlap with start or stop.",
  "onionmsg/messenger.go onionmsg/node_ecdh.go rpcserver/server.go rpcserver/impl_subscribe_onion_payload.go rpcserver/impl_sendonionmessage.go routes/blinded.go lnwire/tu64.go offers/bech32.go",
  [("event loop and registrations", "onionmsg/messenger.go Start, manageOnionMessages, RegisterHandler, DeregisterHandler, Stop"),
   ("rpcs beside start and stop", "rpcserver/server.go Start, Stop, waitForReady"),
   ("subscription handlers", "rpcserver/impl_subscribe_onion_payload.go")],
  technique="static data race analysis: locksets and happens-before over the accesses recorded by abstract interpretation of every thread",
  note="Threads are compared in pairs, on the memory both reach; start and stop of one object are not run beside each other.")
P("P01", "No input makes the node panic",
  """Whatever bytes a peer sends, whatever an rpc asks, whatever lnd answers or fails with and in whatever order these happen, no part of boltnd
  panics: no nil pointer, interface, function or map is used as if it were set, no index or bound lies outside its slice or string, no conversion
  fails, and no channel is closed twice or sent on after it is closed. A value that is absent, empty or too short is refused with an error or
  handled, because a panic would take lnd down with it.""",
  "inputs histories fault_sequences", "every path of every codec, validation, rpc, route computation, event loop and life cycle function, with every input they can get",
  "A test shows that one input does not panic; the guarantee is about the others, such as the peer that leaves out a field.",
  "lnwire/bolt12_offer.go lnwire/bolt12_invoice.go lnwire/bolt12_invoice_request.go lnwire/onion_msg_payload.go lnwire/onion_message.go lnwire/route_blinding.go lnwire/bolt12_merkle.go lnwire/tu64.go onionmsg/messenger.go onionmsg/onion.go routes/blinded.go rpcserver/server.go rpcserver/common.go rpcserver/impl_sendonionmessage.go offers/encoding.go boltnd.go",
  [("every instruction that can panic", "all packages but generated code and test helpers")],
  technique="abstract interpretation: reachability of panicking outcomes over every analysed entry point, with an account of the instructions that can panic",
  note="The obligations are the instructions that can panic on the analysed paths; those that lie on none are listed in the evidence. Bounds with a length that is not constant are assumed to hold where the length is unconstrained.")
P("K01", "Private keys and shared secrets stay inside",
  """The private keys that are made for a message or a reply path, and the secrets that are shared with the node key, are never logged, put into an
  error, printed, or handed to lnd or a caller in readable form, neither as they are nor encoded or as a part of something else. Only what is
  derived from them by a one way operation (a public key, a blinded key, an encrypted blob) leaves.""",
  "inputs fault_sequences", "every path of the sending, forwarding, reply path and key code, and every value that is logged, formatted into an error or sent on it",
  "Tests do not look at what is logged or what errors say.",
  "onionmsg/messenger.go onionmsg/node_ecdh.go onionmsg/onion.go routes/blinded.go",
  [("ephemeral keys", "onionmsg/messenger.go SendMessage, routes/blinded.go ReplyPath, CreateBlindedRoute"), ("shared secrets", "onionmsg/node_ecdh.go ECDH")],
  technique="taint analysis over the values that abstract interpretation computes: key material against log, error, print and rpc sinks")
P("L01", "What a call takes it gives back",
  """On every path of every call, rpc and goroutine (success, refusal, any failing step, a caller that gives up, a stop) each lock it took is released,
  each context it derived is cancelled and each ticker it started is stopped by the time it ends, unless it keeps the means to do so for a later
  call. So no failure leaves a lock that the next call waits for, and none leaves work or a stream at lnd that nobody will end.""",
  "fault_sequences schedules histories", "every path of every entry point and goroutine, every failing step, and everything that is taken on it",
  "Tests take the successful path and a failure or two, and do not look at what a call leaves behind.",
  "onionmsg/messenger.go onionmsg/node_ecdh.go rpcserver/server.go rpcserver/impl_subscribe_onion_payload.go rpcserver/impl_sendonionmessage.go routes/blinded.go boltnd.go",
  [("contexts", "onionmsg/node_ecdh.go NewNodeECDH, ECDH; onionmsg/messenger.go manageOnionMessages; rpcserver/impl_subscribe_onion_payload.go"),
   ("locks and tickers", "all packages but generated code and test helpers")],
  technique="typestate over abstract interpretation: acquisitions that are open at the end of a path, with an escape analysis of the means to release them")
