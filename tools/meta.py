TRUST = "Bounded: holds for every value within the bounds written in the evidence file, nothing beyond them. Trusts the SSA translator (x/tools), the executor's models of unsafe/reflect/library intrinsics and z3; a violation is only reported after it was replayed against the compiled code."
PROPS = [
 dict(id="C01", title="Built-in values survive the binary encoding unchanged",
  statement="Encoding any value of a built-in OPC UA type and decoding the bytes yields the same value and consumes exactly the bytes written. The bytes are those the OPC UA binary encoding prescribes, so other stacks read the same value.",
  over=["inputs"], q="every value of every built-in type (numbers, strings, guid, date-time, node ids, names, diagnostic info, data values), including edge values, nulls and out-of-range instants",
  why="the tests encode a handful of sample values per type; the layout choices (compact forms, flag bits, null markers, clamping) depend on value ranges they do not sample",
  files=["ua/binary_encoder.go","ua/binary_decoder.go","ua/nodeid.go","ua/expanded_nodeid.go","ua/data_value.go","ua/diagnostic_info.go"],
  mech=[("BinaryEncoder.Write*","ua/binary_encoder.go"),("BinaryDecoder.Read*","ua/binary_decoder.go")], note=TRUST),
 dict(id="C02", title="Variants keep type, shape and contents through the wire",
  statement="A variant holding any scalar, array or matrix of any built-in type decodes to a value of the same type, the same dimensions and the same elements in the same order. Nothing of the stream after the variant is consumed.",
  over=["inputs"], q="every built-in type, rank 0..3, every element value, every array length and dimension within the bounds, nested variants, data values and structures",
  why="type x rank x length is a product the tests sample at a few points; a swapped dimension or a wrong element type only shows for particular shapes",
  files=["ua/binary_encoder.go","ua/binary_decoder.go"],
  mech=[("WriteVariant / ReadVariant","ua/binary_encoder.go, ua/binary_decoder.go")], note=TRUST),
 dict(id="C03", title="Every message and structure encodes as the OPC UA schema says",
  statement="Every request, response and structured data type of the standard encodes its fields in the order, with the types and under the identifiers of the OPC Foundation schema, and decodes to an equal value.",
  over=["inputs"], q="all 284 structured types of the schema, every scalar field value, array lengths within the bounds",
  why="tests encode a few messages; a field swapped with a neighbour of the same type still round-trips between the library's own client and server",
  files=["ua/structs.generated.go","ua/binary_encoder.go","ua/binary_decoder.go","ua/extension_object.go","ua/encoding_context.go"],
  mech=[("reflection driven struct codec","ua/binary_encoder.go getEncoder, ua/binary_decoder.go getDecoder"),("type registration","ua/structs.generated.go")], note=TRUST),
 dict(id="C04", title="Decoding arbitrary bytes never crashes",
  statement="Decoding any byte sequence as any built-in type, variant or message either yields a value or returns an error; it never panics and never loops forever.",
  over=["inputs"], q="every byte sequence up to the length bound, for every decoder",
  why="the bytes come from the network peer before any authentication; the tests decode only well-formed messages",
  files=["ua/binary_decoder.go"],
  mech=[("BinaryDecoder.Read*","ua/binary_decoder.go")], note=TRUST),
 dict(id="C05", title="A truncated message is rejected, never silently completed",
  statement="Decoding a strict prefix of a valid encoding reports an error instead of returning a value made up for the missing part.",
  over=["inputs","fault_sequences"], q="every cut point of the encoding of every built-in, variant and message within the bounds",
  why="no test cuts a message; a decoder that ignores one read error accepts the prefix only for particular cut points",
  files=["ua/binary_decoder.go"],
  mech=[("error propagation of every Read*","ua/binary_decoder.go")], note=TRUST),
 dict(id="C06", title="Text forms of identifiers parse back to the same identifier",
  statement="The textual form of a node id, expanded node id, qualified name or browse path parses back to the same value, and parsing any text either succeeds or returns the null identifier or an error without crashing. Translating namespace indexes and uris through a namespace table is consistent in both directions.",
  over=["inputs"], q="every identifier value and every input text within the length bounds",
  why="the tests parse a few literal strings; identifiers may contain any characters, including the separators of the text form",
  files=["ua/nodeid.go","ua/expanded_nodeid.go","ua/qualified_name.go"],
  mech=[("String / Parse functions","ua/nodeid.go, ua/expanded_nodeid.go, ua/qualified_name.go")], note=TRUST),
 dict(id="C07", title="A status code is exactly one of good, uncertain or bad",
  statement="For every 32-bit status code the severity tests agree with the two top bits: exactly one of good, uncertain and bad holds, whatever the information bits are.",
  over=["inputs"], q="all 2^32 codes",
  why="tests use a few named codes; the info bits combine freely with every severity",
  files=["ua/status_code.go"],
  mech=[("IsGood / IsBad / IsUncertain and info bits","ua/status_code.go")], note=TRUST),
 dict(id="C09", title="Sent messages are cut into well-formed chunks within the negotiated limits",
  statement="Whatever a client or server sends over a secure channel, and whatever buffer sizes were negotiated, every chunk has a correct header, fits the negotiated buffer, carries consecutive sequence numbers, a correct signature and padding, only the last chunk is marked final, and the chunk bodies concatenate to exactly the encoded message. A message beyond the peer's message size or chunk count limit is refused with an error before any byte of it is sent.",
  over=["inputs","configurations"], q="every message content and length, every negotiated buffer size and limit, every security mode, every starting sequence number",
  why="the tests send messages that fit one or two chunks at the default sizes; padding and cut positions depend on the exact remainder",
  files=["server/server_secure_channel.go","client/client_secure_channel.go"],
  mech=[("sendResponse / sendRequest chunk loop","server/server_secure_channel.go, client/client_secure_channel.go")], note=TRUST),
 dict(id="C10", title="Any valid chunking of a message is received as the same message",
  statement="However a peer cuts a message into chunks, pads it and however the transport splits the bytes, the receiver (client or server) delivers exactly the message that was sent, with its request id, and then is ready for the next.",
  over=["inputs","schedules"], q="every content, every cut into chunks, every padding, every partial read, every token and sequence number",
  why="the tests only exchange messages between this client and this server, which always chunk the same way",
  files=["server/server_secure_channel.go","client/client_secure_channel.go"],
  mech=[("readRequest / readResponse","server/server_secure_channel.go, client/client_secure_channel.go")], note=TRUST),
 dict(id="C11", title="Only authentic, fresh messages of the channel are accepted",
  statement="On a channel that signs, a receiver accepts a message only if it was produced by the peer with the channel's current or previous keys, with the channel id and token of this channel, unmodified, not replayed and not reordered. Anything else ends the channel without delivering a message.",
  over=["inputs","histories"], q="every byte sequence an attacker can insert in place of a genuine chunk, every replay or reordering",
  why="no test tampers with the wire; a check that is skipped for one field or one mode is invisible to two honest peers",
  files=["server/server_secure_channel.go","client/client_secure_channel.go"],
  mech=[("signature, channel id, token and sequence checks","server/server_secure_channel.go, client/client_secure_channel.go")], note=TRUST),
 dict(id="C12", title="A hostile peer cannot crash an endpoint or open a channel nobody offers",
  statement="Whatever bytes arrive on a connection, before or after the channel is opened, the endpoint either handles them or closes the connection with an error; it never crashes or loops. A channel is opened only with a security policy and mode that an endpoint of the server offers, renewal keeps them, and token ids and lifetimes are as agreed.",
  over=["inputs"], q="every byte sequence within the length bounds in every security mode, every Hello and OpenSecureChannel request",
  why="the tests speak the protocol correctly; one malformed message from an unauthenticated peer is enough to bring a server down",
  files=["server/server_secure_channel.go","client/client_secure_channel.go"],
  mech=[("readRequest, onHello, onOpenChannel","server/server_secure_channel.go"),("readResponse, Open","client/client_secure_channel.go")], note=TRUST),
 dict(id="C15", title="A user can do exactly what their roles permit",
  statement="For every user, node and permission configuration: reading, writing, calling, browsing, translating paths, monitoring and reading history succeed exactly when the roles of the session's user grant the permission on the nodes involved and the access level allows it; nothing of a node's content is disclosed to anyone else, and a node the user may not browse looks absent.",
  over=["inputs","configurations"], q="every set of roles, every permission list of a node or the server default, every access level, every node class and attribute",
  why="the tests run as one or two users with the default permissions; one service or node class that forgets one check is invisible to them",
  files=["server/server_service_set.go","server/variable_node.go","server/method_node.go","server/object_node.go","server/roles_provider.go"],
  mech=[("permission checks of the service handlers","server/server_service_set.go readValue, writeValue, handleBrowse, handleCall, handleCreateMonitoredItems, handleHistoryRead"),("UserRolePermissions, UserAccessLevel, UserExecutable","server/*_node.go")], note=TRUST),
 dict(id="C16", title="A user has exactly the roles whose mapping rules match",
  statement="The roles of a user are exactly those of the identity mapping rules whose identity criteria match the user and whose application and endpoint lists admit the connection; a user without any role is refused.",
  over=["inputs","configurations"], q="every identity, every list of rules within the bounds",
  why="the default rules use neither applications nor endpoints nor user names, so the tests never evaluate those criteria",
  files=["server/roles_provider.go"],
  mech=[("RulesBasedRolesProvider.GetRoles","server/roles_provider.go")], note=TRUST),
 dict(id="C17", title="An index range addresses exactly the elements it names",
  statement="Reading with an index range returns exactly the addressed elements of the array, string or byte string, writing one replaces exactly those and leaves all others; an invalid or unsatisfiable range, or a value of another type or size, is refused without changing anything or crashing.",
  over=["inputs"], q="every range text and every value within the bounds, for every array type",
  why="the tests use two or three ranges on one array type; bounds are parsed from text a client chooses freely",
  files=["server/server_service_set.go"],
  mech=[("readRange, writeRange, parseBounds","server/server_service_set.go")], note=TRUST),
 dict(id="C18", title="A write is accepted exactly if it suits the variable, and then reads back",
  statement="A value is accepted exactly when its type and number of dimensions suit the declared data type and value rank of the variable and its size is within the server's limits; an accepted value with its status is what the next read returns, a refused one changes nothing.",
  over=["inputs"], q="every pair of written and declared type and rank, every length around the limits",
  why="the type check is a switch of 50 hand-written cases of which the tests write three",
  files=["server/server_service_set.go","server/namespace_manager.go","server/variable_node.go"],
  mech=[("writeValue","server/server_service_set.go"),("FindVariantType","server/namespace_manager.go")], note=TRUST),
 dict(id="C19", title="A subscription gets the parameters it was promised, within the server's limits",
  statement="Whatever a client asks for, the publishing interval, keep-alive count and lifetime granted lie within the limits of the server and hang together (a keep-alive at least every longest interval, a lifetime of at least three keep-alives); what lies within the limits is granted as asked, and the subscription runs with exactly the parameters the client was told. There are never more subscriptions than allowed, ids are unique, and publishing is switched for exactly the subscriptions named.",
  over=["inputs","histories"], q="every requested interval, every pair of counts with nine intervals, every sequence of creating, deleting and switching within the bounds",
  why="tests ask for ordinary parameters; the roundings and clamps matter at the edges, at NaN, infinity and overflow",
  files=["server/subscription.go","server/subscription_manager.go","server/server_service_set.go"],
  mech=[("setPublishingInterval, setMaxKeepAliveCount, setLifetimeCount","server/subscription.go"),("SubscriptionManager.Add","server/subscription_manager.go")], note=TRUST),
 dict(id="C20", title="Every value reported is delivered once, in order, and nothing sent is lost before it is acknowledged",
  statement="While a subscription lives, every value its items report while publishing is enabled is delivered in exactly one notification message, oldest first; a publish response answers the oldest waiting publish request; messages carry consecutive sequence numbers from 1 (wrapping past 0), a keep-alive carries the number of the next message; a message stays available for republishing until acknowledged and the available numbers are listed truthfully; each acknowledgement gets its result exactly once. A message or keep-alive is sent at least every keep-alive count of intervals if a request waits, and the subscription ends, telling the client, exactly when no request came for its lifetime.",
  over=["histories"], q="every history of values, publish, acknowledge, republish and switching events within the bounds, every number of notifications and limit per message, every sequence number around the wrap",
  why="the tests run one quiet subscription with a client that always has a request waiting and acknowledges at once; late requests, retransmission and the wrap depend on the history",
  files=["server/subscription.go","server/subscription_manager.go","server/session.go","server/server_service_set.go"],
  mech=[("publish, acknowledge, handleLatePublishRequest","server/subscription.go"),("handlePublish, handleRepublish","server/server_service_set.go")], note=TRUST),
 dict(id="C21", title="A monitored item's queue keeps what its size and discard policy say, in order",
  statement="A data item queues the changes of its value in order; when more come than the queue holds, exactly the oldest (or, if so asked, the newest queued) are dropped and the overflow is marked on the right value; disabling drops the queue, sampling without reporting keeps it, resizing keeps the values that fit. The queue size and sampling interval granted are the ones asked for limited to the server's range, sampling happens at that interval, and reported values carry exactly the timestamps asked for.",
  over=["inputs","histories"], q="every queue size, discard policy, monitoring mode, sampling interval and history of values, messages, mode changes and resizes within the bounds",
  why="tests use a queue of one item and no overflow; which value is lost depends on the size, the policy and the order of events",
  files=["server/datachange_monitored_item.go","server/subscription.go","server/server_service_set.go"],
  mech=[("enqueue, notifications, Modify, SetMonitoringMode","server/datachange_monitored_item.go")], note=TRUST),
 dict(id="C22", title="A data change is reported exactly when the item's filter says so",
  statement="A sampled value is reported exactly if it differs from the last one in what the trigger names (status; status or value; status, value or source timestamp), where numbers, and the elements of arrays, within the absolute deadband of the last reported value do not differ; arrays of different length and values of different type always differ. A filter that does not suit the node is refused.",
  over=["inputs"], q="every pair of consecutive values of each numeric type, statuses, timestamps, triggers and deadbands within the bounds",
  why="the tests sample one float; unsigned differences, large integers and arrays behave differently from small positive scalars",
  files=["server/datachange_monitored_item.go","server/server_service_set.go"],
  mech=[("isDataChange, isDeadbandExceeded","server/datachange_monitored_item.go")], note=TRUST),
 dict(id="C31", title="Publish requests wait in order, within their number and time, and serve the most important subscription",
  statement="A publish request that waits longer than its timeout hint is answered with BadTimeout and never used (without a hint none times out); no more than the limit wait, the oldest making room with BadTooManyPublishRequests; a request of a session without subscriptions is answered with BadNoSubscription. When several late subscriptions wait for a request, the one with the highest priority gets it, and a subscription that gets none keeps its notifications.",
  over=["histories"], q="every timeout hint, number of requests around the limit, pair of priorities and history of two subscriptions within the bounds",
  why="tests have one subscription and few requests; the priority and the limits matter only when requests are scarce or plenty",
  files=["server/session.go","server/subscription.go","server/server_service_set.go"],
  mech=[("addPublishRequest, removePublishRequest","server/session.go"),("handlePublish","server/server_service_set.go")], note=TRUST),
 dict(id="C23", title="An event reaches exactly the items whose filter it passes, with the fields they selected",
  statement="An event raised at an object is reported by the items monitoring that object and every notifier above it, once each and in order, exactly if the event passes the item's filter (Equals over literals, fields and other elements; OfType including subtypes), and carries the selected fields in the order selected, null where the event has no such field. No filter and no graph of notifiers stops or crashes the server. An event is rebuilt from its selected fields.",
  over=["inputs","configurations"], q="every filter of up to three elements, every selection of fields, every event type and severity, every notifier graph within the bounds",
  why="the tests use one well-formed filter; malformed and cyclic filters come from clients, and a wrong verdict only shows for particular events",
  files=["server/event_monitored_item.go","server/namespace_manager.go","server/object_node.go","ua/content_filter.go","ua/base_event.go","ua/condition.go","ua/acknowledgeable_condition.go","ua/alarm_condition.go"],
  mech=[("whereClause, selectFields","server/event_monitored_item.go"),("OnEvent","server/namespace_manager.go"),("GetAttribute, UnmarshalFields","ua/base_event.go")], note=TRUST),
 dict(id="C33", title="A triggered item reports exactly when its trigger does",
  statement="An item that is only sampled reports all it sampled when an item linked to it as trigger has a new value or event, and nothing otherwise; items that report do so triggered or not, disabled ones never. Links can be added and removed, each with its own result, take effect at once, survive nothing of a removed link, and may form any graph (an item triggering itself included) without blocking the server.",
  over=["inputs","histories"], q="every graph of links and modes, every history of values, link changes, mode changes and deletions within the bounds",
  why="the tests never trigger; links added twice, cycles and removed items need particular sequences",
  files=["server/datachange_monitored_item.go","server/event_monitored_item.go","server/server_service_set.go","server/subscription.go"],
  mech=[("AddTriggeredItem, RemoveTriggeredItem, SetTriggered, notificationsAvailable","server/datachange_monitored_item.go"),("handleSetTriggering","server/server_service_set.go")], note=TRUST),
 dict(id="C24", title="Browsing returns exactly the references asked for, in pages that add up",
  statement="A browse returns exactly the references that match the asked direction, reference type (with subtypes if asked) and node classes, with exactly the asked fields; the pages obtained with continuation points concatenate to the full result, a continuation point works once and only for its session, made up ones are refused, and the limit on open continuation points is kept.",
  over=["inputs","histories"], q="every filter combination, every page size and sequence of continuation calls within the bounds",
  why="the tests browse with one filter and one page size; filters multiply and pages depend on the remainder",
  files=["server/server_service_set.go","server/session.go","server/namespace_manager.go"],
  mech=[("handleBrowse, handleBrowseNext","server/server_service_set.go"),("continuation points","server/session.go")], note=TRUST),
 dict(id="C26", title="A browse path leads to exactly the nodes it describes",
  statement="Translating a browse path returns exactly the nodes reached by following every reference that matches each element's direction, type (with subtypes if asked) and target name, through all matches, and the proper error if the start is unknown, the path is empty or malformed, or nothing matches.",
  over=["inputs","configurations"], q="every graph of references and every path within the bounds",
  why="tests translate paths in a tree where every step has one match; branching, cycles and dangling references need other graphs",
  files=["server/server_service_set.go"],
  mech=[("handleTranslateBrowsePathsToNodeIDs, follow, target","server/server_service_set.go")], note=TRUST),
 dict(id="C29", title="A session is activated only for a proven identity, on a channel of the application that created it",
  statement="CreateSession on a secured channel succeeds only for the certificate that opened the channel and an application URI it contains, and answers with a valid server signature. ActivateSession succeeds exactly if the client's signature over the server certificate and the session's last nonce verifies with the channel's certificate, the token type and policy id are offered, the user certificate's signature verifies or the password decrypts together with the session's current nonce, and the authenticator accepts; the authenticator and the session then see exactly the proven identity and the nonce changes. Otherwise the session is unchanged.",
  over=["inputs","configurations"], q="every signature, certificate, nonce, token, encryption scheme and authenticator verdict within the bounds",
  why="tests only log in correctly; forged or replayed signatures, wrong schemes, short secrets and foreign channels are never tried",
  files=["server/server_service_set.go","server/session.go","server/server_secure_channel.go"],
  mech=[("handleCreateSession, handleActivateSession","server/server_service_set.go"),("clientCertificate","server/server_secure_channel.go")], note=TRUST+" RSA and the hash functions' collision resistance are ideal; x509 parsing is executed."),
 dict(id="C13", title="A service is performed only for an activated session on its own channel, on its own subscriptions",
  statement="A request of a session service is performed exactly if its authentication token names a live session that is activated on the channel the request arrived on; otherwise it gets the fault that says why (BadSessionIdInvalid, BadSessionNotActivated, BadSecureChannelIdInvalid) and has no effect; a channel opened for discovery performs none. A session cannot use, change or acknowledge another session's subscription.",
  over=["inputs","configurations"], q="every service, token and pair of channel ids",
  why="tests use one session on one channel, so a service that forgets one of the checks passes them",
  files=["server/server_service_set.go","server/session_manager.go"],
  mech=[("handlers of all session services","server/server_service_set.go"),("SessionManager.Get","server/session_manager.go")], note=TRUST),
 dict(id="C14", title="Sessions live as long as promised and their number is limited",
  statement="The granted session timeout is the requested one limited to the server's range; a session is dropped exactly when it was idle for longer than its timeout, and using it starts the time anew; there are never more sessions than the limit, every session below it can be created, ids and tokens are unique, closed or expired sessions free their place and their tokens stop working; closing deletes the session's subscriptions exactly if asked to.",
  over=["inputs","schedules"], q="every requested timeout, idle time and order of creating, closing and expiring sessions within the bounds",
  why="tests neither wait for timeouts nor reach the limits",
  files=["server/session_manager.go","server/session.go","server/server_service_set.go"],
  mech=[("SessionManager.Get, Add, Delete, checkForExpiredSessions","server/session_manager.go"),("Session.IsExpired","server/session.go")], note=TRUST),
 dict(id="C25", title="The address space stays consistent as nodes come and go",
  statement="However nodes are joined, cycles among them included: after nodes are added or deleted, every reference (other than HasTypeDefinition and HasModellingRule) to a node that is there has its inverse exactly once at that node, and no reference leads to a deleted node. Deleting removes exactly the nodes named, with everything below them if asked to, returns, tells the right number, never deletes a node of namespace 0 by its id, and a deleted node is unknown until it is added again. The subtypes of a type are exactly those below it.",
  over=["inputs","histories"], q="every graph of nodes and references, operation and node deleted within the bounds",
  why="tests delete from small trees; a node with several parents, a cycle or a reference of another type is not among them",
  files=["server/namespace_manager.go"],
  mech=[("addNodes, deleteNodeandInverseReferences, DeleteNodes, DeleteNodeByID, DeleteNodeByIDRecursive, GetChildren, GetSubTypes, IsSubtype","server/namespace_manager.go")], note=TRUST),
 dict(id="C27", title="Every operation of a request has its own result, in order, within the operation limits",
  statement="A service that takes a list answers one result per operation, in the order of the request, and the result of each is what the operation alone would get, whatever stands beside it and whichever worker finishes first. An empty list is refused with BadNothingToDo and a list longer than the server's operation limit with BadTooManyOperations, and neither has any effect.",
  over=["inputs","schedules"], q="every list of operations, on things that exist or do not, and every operation limit within the bounds",
  why="tests send one operation per request, never an empty list nor one over the limit",
  files=["server/server_service_set.go"],
  mech=[("handlers of the services that take lists","server/server_service_set.go")], note=TRUST),
 dict(id="C28", title="No request a client can encode crashes or hangs the server",
  statement="A request of an activated session that decodes, with fields that are missing, of the wrong kind, out of range or not a number, however deep, is answered exactly once with its request id, and the server goes on to serve the next request.",
  over=["inputs"], q="every combination of two (thorough: three) unusual field values in a request of each service",
  why="tests send well-formed requests only, and a panic in a worker ends the whole server",
  files=["server/server_service_set.go","server/subscription_manager.go","server/datachange_monitored_item.go","server/event_monitored_item.go"],
  mech=[("handlers of all services","server/server_service_set.go")], note=TRUST),
]
NA = [
]
