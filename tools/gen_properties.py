#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that the JSON stays valid).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

R='src/rest_api/'; T=R+'types/'; Q=R+'requests/'; D='src/drivers/server/'
INBOX=D+'messages_inbox/stored_queue.rs'; ROUTER=D+'router/global_table.rs'

prop('C01','A message is read back exactly as written, under every encoding',
 "For every payload (empty, tiny, large, compressible or not), every supported combination of text encoding, encryption and compression, and every compression level, a message created by a sender for a receiver can be created, sent as JSON and read by that receiver with the sender's public key, and yields exactly the sender's bytes. The stored content is the protocol's form: compressed, then encrypted under the key both parties derive, then text-encoded, so that any independent implementation of the protocol reads it too. When an encryption is selected, neither the content nor the signature field contains the plaintext form.",
 ['inputs','configurations'],'all 9 encodings x 3 levels x payload lengths 0..bound and all byte strings up to a small length x key pairs',
 'The tests use one 13-byte payload with one pair of keys; the claim quantifies over all payloads, levels and keys.',
 [T+'message.rs',T+'message_encoding.rs','src/crypto/compression/mod.rs','src/crypto/encryption/mod.rs','src/crypto/asymmetric/secret_key.rs'],
 [('Message::create / Message::read',T+'message.rs'),('MessageEncoding::forward / backward',T+'message_encoding.rs'),('create_shared_secret','src/crypto/asymmetric/secret_key.rs')],
 observe=['Message::read result','Message.content and Message.sign'])

prop('C02','A tampered or misattributed message is never accepted as genuine',
 "If a message's content, signature or encoding label is altered in any way, swapped with parts of another message, or read with a sender key other than the real sender's, then reading it fails; it never yields bytes the claimed sender did not sign for it. An encrypted message cannot be read with any secret key other than the sender's or the receiver's. Reading never panics, whatever the message contains.",
 ['inputs','fault_sequences'],'every single-character substitution, deletion, insertion and truncation of both fields, every label change, every splice of two messages, every pair of wrong keys, under all encodings',
 'No test reads a damaged or forged message at all.',
 [T+'message.rs',T+'message_encoding.rs','src/crypto/encryption/aes256_gcm.rs','src/crypto/encryption/chacha20_poly1305.rs','src/crypto/asymmetric/public_key.rs'],
 [('signature verification in Message::read',T+'message.rs'),('AEAD tags','src/crypto/encryption/mod.rs')],
 observe=['Message::read result'])

prop('C03','Encodings, compressions and encryptions invert, reject and name correctly',
 "Every public text encoding, compression and encryption primitive inverts itself exactly on every input, key and level; an encrypted value that was altered anywhere, or opened under another key, is refused. The textual name of every algorithm and of every message encoding parses back to the same value, documented aliases included, and every other name is refused. Decoding, decompressing or decrypting arbitrary bytes returns a result or an error and never panics.",
 ['inputs'],'all byte strings up to a small length plus structured long inputs, every single-byte change of ciphertexts, all names up to a bounded edit of the valid ones',
 'Each test inverts one fixed 13-byte string and checks the valid names only.',
 ['src/crypto/encoding/mod.rs','src/crypto/encoding/base64.rs','src/crypto/compression/mod.rs','src/crypto/compression/deflate.rs','src/crypto/compression/brotli.rs','src/crypto/encryption/mod.rs','src/crypto/encryption/aes256_gcm.rs','src/crypto/encryption/chacha20_poly1305.rs',T+'message_encoding.rs'],
 [('Encoding / Compression / Encryption enums','src/crypto/mod.rs'),('FromStr / Display pairs',T+'message_encoding.rs')],
 observe=['return values of the public crypto functions'])

prop('C04','Keys survive storage, agree on secrets, and signatures bind key and message',
 "Every secret and public key survives being written as bytes, base64 text or any serde format and read back, and bytes that are not a key are refused. Two parties derive the same shared secret from each other's public keys (with or without a salt, and different pairs or salts give different secrets). A signature, plain or encapsulated, verifies exactly for the signing key and the signed message; an encapsulated signature returns the original message, and malformed signature material is refused without panicking.",
 ['inputs'],'a grid of keys including boundary scalars, all ordered key pairs, salts, messages of every small length, every single-byte change and every truncation of signature material',
 'Tests use one random key per run, one message, never a wrong key, never damaged material, and never serde for secret keys.',
 ['src/crypto/asymmetric/public_key.rs','src/crypto/asymmetric/secret_key.rs'],
 [('to_bytes/from_bytes, to_base64/from_base64, serialize/deserialize, serde impls','src/crypto/asymmetric/'),('create_signature / verify_signature','src/crypto/asymmetric/'),('create_encapsulated_signature / decode_encapsulated_signature','src/crypto/asymmetric/')],
 observe=['return values of SecretKey and PublicKey methods'])

prop('C05','Every protocol value survives its wire form, which is the fixed standard one',
 "Every request, response and record of the REST API, written as JSON text and parsed back, equals the original in every field, for every combination of optional parts, enum variants and extreme values; the same holds for the serde form of each serialisable type. The JSON produced has exactly the standard's field names, nesting, status codes and encodings, so that peers built from this version interoperate in both directions. A value whose protocol version is not supported is refused on writing and on reading.",
 ['inputs','configurations'],'the full cross product of variants and optional parts of each wire type, with boundary integers and awkward strings, against an independent encoder',
 'Each type has one round-trip test on one value; a field renamed on both sides, or lost for another variant, passes them all.',
 [R+'mod.rs',R+'request.rs',R+'response.rs',R+'status.rs',T,Q],
 [('AsJson implementations',R),('ResponseStatus::to_code / from_code',R+'status.rs')],
 observe=['to_json / from_json results'])

prop('C06','Malformed wire data is refused with an error, never accepted and never a crash',
 "Parsing any JSON value as any REST API type returns either a value or an error, and never panics, whatever the JSON contains. A document in which a required field is missing, has the wrong JSON type, or holds an unknown protocol version, status code, enum name, or undecodable key, token, signature or base64 text is refused. The same totality holds for parsing connection tokens, keys, encapsulated signatures and addresses from arbitrary bytes or text.",
 ['inputs','fault_sequences'],'for each valid document: every removal, and every replacement of every node by each of a menu of wrong values; all short byte strings for the binary parsers',
 'No test feeds a malformed document to any type.',
 [R+'mod.rs',R+'request.rs',R+'response.rs',T,Q,'src/crypto/asymmetric/public_key.rs','src/address.rs'],
 [('from_json field checks',R),('ConnectionToken::from_bytes',T+'connection_token.rs'),('PublicKey::decode_encapsulated_signature','src/crypto/asymmetric/public_key.rs')],
 observe=['from_json / from_bytes results'])

prop('C07','Proofs and certificates are accepted exactly when genuinely signed',
 "A request, a server info answer and a successful response are valid exactly when the proof seed is at least 2^63 and the proof is the stated key's signature of that very seed (error responses are always valid). A connection certificate is valid exactly when it names the given server and is signed by the given client over its date and server key; connect requests, and announcements of clients, additionally require such a certificate for the requesting (or announced) client and the right server. Everything the library itself constructs is valid, whatever random numbers it draws.",
 ['inputs','configurations'],'the full product of keys, seeds (including 2^63-1, 2^63, 2^64-1), signatures over each seed by each key, malformed signatures, and certificates for each client/server/date',
 'Tests try one right proof and two wrong ones for requests; responses, info, certificates, connect and announce are never tried with a wrong signer.',
 [R+'request.rs',R+'response.rs',Q+'info/response.rs',Q+'connect/mod.rs',Q+'announce/mod.rs',T+'connection_certificate.rs',T+'connection_token.rs','src/crypto/utils.rs'],
 [('validate() on Request, Response, InfoResponse, ConnectionCertificate, ConnectRequest, AnnounceRequest',R),('safe_random_u64_long','src/crypto/utils.rs')],
 observe=['validate() results'])

prop('C08','The server acts only on proven requests and proves every successful answer',
 "A request to any server endpoint whose proof, seed or certificate is not valid is answered with an error and changes nothing the server stores: no registration, no removal, no message stored or taken. A valid request is answered with success, carrying the server's own key and its signature of that request's seed. Validity is judged for the request's own key, endpoint body and this server, in every state the server can be in.",
 ['inputs','histories'],'every endpoint x every way of invalidating the request x every server state reachable by short histories',
 'The server middleware has no tests at all.',
 [R+'middleware/server.rs',Q],
 [('validate-before-act in each endpoint handler',R+'middleware/server.rs')],
 state=[('storage folders','routing records and inboxes','file system')],
 observe=['endpoint responses','server storage before and after'])

prop('C09','Lookup answers the latest registration of the requested client',
 "After any sequence of connects, disconnects, announcements and server restarts, a lookup for a client key (optionally restricted to a client type) answers with that key's current registration: the record of its latest valid connect to this server as local, else the latest announced record and its server as remote, else a hint listing exactly the currently known servers. A registration that was disconnected or that does not match the requested type is not returned, and one client's operations never change another client's answers. The clients and servers listings show exactly the currently connected clients and known servers. A server on another router answers what that router says, including availability, and reports its failures as errors.",
 ['histories'],'all operation sequences up to a bounded depth over several clients, types, servers and restarts, each followed by every possible lookup and listing',
 'One test indexes 32 copies of the same records and looks them up by key; it never looks up through the server, never disconnects, replaces, restarts, or asks for someone else.',
 [R+'middleware/server.rs',D+'router/mod.rs',ROUTER],
 [('connect/disconnect/announce/lookup/clients/servers handlers',R+'middleware/server.rs'),('Router default lookups',D+'router/mod.rs'),('GlobalTableRouter',ROUTER)],
 state=[('local/, remote/, servers/','one JSON record per key',ROUTER)],
 observe=['lookup, clients and servers responses'])

prop('C10','The inbox delivers every message once, in order, to its receiver and channel',
 "After any sequence of sends, polls and server restarts, a poll by a client on a channel returns exactly the messages addressed to that client on that channel and not returned before, oldest first, at most as many as the limit (all of them without a limit, none with limit zero), together with the exact number still waiting. Each returned message carries the sender description, channel, body and receipt time it was accepted with, unchanged. Polling or sending for one client or channel never affects another. A server on another inbox hands its requests to that inbox unchanged, passes on its answers and reports its failures.",
 ['histories'],'all operation sequences up to a bounded depth over receivers, channels, limits and restarts; long queues; against a reference queue',
 'One test sends five messages to one channel and polls with three limits; it does not interleave sends and polls, receivers, restarts, or check senders and times.',
 [R+'middleware/server.rs',INBOX],
 [('send and poll handlers',R+'middleware/server.rs'),('add_message / poll_messages',INBOX)],
 state=[('index file','ordered ids of waiting messages',INBOX)],
 observe=['poll responses'])

prop('C11','No channel or receiver name can reach outside its own inbox',
 "Whatever string a sender or poller uses as channel name (path separators, parent references, absolute paths, empty, control or non-ASCII characters, names of the inbox's own files), the server touches nothing outside its inbox storage, and two different receiver/channel pairs never share, shadow, corrupt or reveal each other's messages. A channel whose name the server accepts for a send behaves like any other channel; a name it cannot store is answered with an error and has no effect.",
 ['inputs','histories'],'all ordered pairs from a set of hostile and ordinary channel names, for the same and for different receivers, with send/poll histories over each pair, and every file-system path touched',
 'Tests use two ordinary channel names.',
 [INBOX,R+'middleware/server.rs'],
 [('mapping of receiver and channel to a folder',INBOX)],
 state=[('storage folder','root of all inboxes',INBOX)],
 observe=['paths of all file-system operations','poll results'])

prop('C12','Concurrent sends and polls on a server behave as if executed one by one',
 "When several sends and polls run at the same time on one server, for the same or different inboxes and through one handle of the inbox or clones of it, the results they report and the messages left afterwards equal those of some sequential order of these operations. In particular no acknowledged message is lost, duplicated or reordered against one acknowledged before it was sent, no operation fails because of another, and none blocks forever.",
 ['schedules'],'all interleavings, at file-system-call granularity up to a preemption bound, of 2-3 concurrent operations from every small initial inbox, on the real implementation',
 'The tests run one operation at a time.',
 [INBOX,R+'middleware/server.rs'],
 [('serialisation of index updates',INBOX)],
 state=[('index file','read, modified and written by both operations',INBOX)],
 observe=['operation results','final drain of the inbox'])

prop('C13','An acknowledged message survives a server crash at any point',
 "If the server process dies at any instant during any operation on the inbox (also in the middle of writing a file, and with several operations under way), then after a restart every message acknowledged earlier and not returned by a completed poll is still delivered once, complete and in order, and no message already returned by a completed poll is delivered again. The interrupted operation took effect as a whole or not at all, and the inbox keeps working. The same holds when an operation is abandoned midway because its client went away while the server lives on.",
 ['crash_points','histories'],'every file-system mutation, and every torn length class of every write, of every short history of sends and polls, followed by restart, drain and further use; every suspension point for abandonment',
 'No test interrupts anything.',
 [INBOX],
 [('order and atomicity of message-file and index writes',INBOX)],
 state=[('index and message files','persistent queue',INBOX)],
 observe=['results after reopening the same storage folder'])

prop('C14','Storage errors in the inbox are reported and lose nothing',
 "If any single file-system call made by a send or poll fails, is interrupted, or transfers fewer bytes than asked, or the disk is full from some call on, also after an earlier failure and while other operations run, then the operation either succeeds with the correct result or reports an error. A send that reports success is delivered; a poll that reports an error has removed nothing, and messages waiting before the fault are all delivered afterwards, once and in order. A storage error is never presented as an empty inbox.",
 ['fault_sequences','histories'],'every file-system call of every short history x every error kind, short transfer and interruption, then continued use; pairs of faults in successive operations; faults in one of two concurrent operations under every schedule within a bound',
 'No test injects an error.',
 [INBOX],
 [('error handling of reads, index updates and removals',INBOX)],
 observe=['operation results','final drain'])

prop('C15','Routing-table reads stay correct while records are changed concurrently',
 "While registrations, replacements, disconnects, lookups and listings run at the same time, every lookup and listing succeeds, returns every record that was registered and untouched throughout, and for a record being changed returns one of the values it legitimately had during the read, never a partial one. When all operations are done the table holds the result of some order of the changes to each key. No operation fails or blocks because of another.",
 ['schedules'],'all interleavings, at file-system-call granularity up to a preemption bound, of 2-3 concurrent router operations on the same and different keys, on the real implementation',
 'The test runs one operation at a time.',
 [ROUTER,D+'router/mod.rs'],
 [('whole-record replacement and directory scan',ROUTER)],
 state=[('local/, remote/, servers/','record files',ROUTER)],
 observe=['operation results','final listings'])

prop('C16','A crash or storage error never damages the routing table',
 "If the server process dies at any instant while records are registered, replaced or removed, also at the same time, then after a restart that record is either the old or the new one (or absent if removed or new), every other record is intact, and all lookups and listings work. If a single file-system call fails, or the disk is full from some call on, the operation either has its effect and reports success or reports an error, other records are unaffected, and a failed registration leaves the previous record in place.",
 ['crash_points','fault_sequences','histories'],'every file-system mutation and torn write of every short history of router operations, and every call x every error kind, followed by restart and full inspection',
 'No test interrupts anything or injects an error.',
 [ROUTER],
 [('atomic record replacement, error propagation',ROUTER)],
 observe=['listings and lookups after reopening'])

prop('C17','A client believes only answers proven by the server it talks to',
 "Whatever a server, an impostor or the network answers, a client operation reports success only if the answer is a well-formed success whose proof is a valid signature of this very request's seed; for connecting to a server with an expected key, and for polling from and disconnecting from the connected server, that signature must be by that server's key. Error answers are reported as errors with their status and reason, and malformed answers and transport failures as errors, without panicking. Every request a client sends is itself correctly proven, addressed to the right URL and accepted by an honest server.",
 ['inputs','fault_sequences'],'every client operation x every answer from a menu of honest, forged, replayed, cross-signed, error and malformed answers (all pairs for two-step operations)',
 'The client middleware has no tests.',
 [R+'middleware/client.rs','src/http/client.rs'],
 [('response.validate and status checks in each client method',R+'middleware/client.rs')],
 observe=['results of client methods','requests seen by the transport'])

prop('C18','Client lookup always terminates and finds any client its servers can lead to',
 "For every network of servers, whatever they know, hint at (including cycles, duplicates and themselves), or fail to answer, a lookup terminates, asks each server address at most once, and asks only the connected server and servers hinted to it. It returns the client's record and server exactly when some server reachable through valid hints knows the client with the requested type, and otherwise reports that it was not found; a hinted server that is down, errs or cannot prove itself is skipped. Asking is done for the requested key and type only.",
 ['configurations','fault_sequences'],'all networks of up to 3-4 servers with every hint relation and every behaviour of each server',
 'No test performs a lookup through a client.',
 [R+'middleware/client.rs'],
 [('queue and set of used servers in lookup',R+'middleware/client.rs')],
 observe=['lookup result','sequence of requests'])

prop('C19','Network traversal terminates and records exactly the reachable servers',
 "Updating a server's network map terminates for every network, including ones in which servers know each other or themselves, and asks each server at most once. Afterwards the server knows exactly the servers it knew before plus every server listed, directly or transitively, by servers that answered; unreachable servers and malformed answers do not stop it or corrupt what is known.",
 ['configurations','fault_sequences'],'all networks of up to 3-4 servers: every initial knowledge, every list each server returns, every subset of failing servers',
 'Traversal has no tests.',
 [D+'traversal/bfs_recursion.rs',R+'middleware/client.rs'],
 [('breadth-first queue',D+'traversal/bfs_recursion.rs')],
 observe=['servers known afterwards','requests made'])

prop('C20','Addresses parse to what they denote and requests go to the right place',
 "Every documented URI form parses to the client key and client type, or HTTP(S) address, it denotes, for every key and address; a client URI without a decodable key is refused, and anything else is kept as a raw address. Resolving an address yields the URL of that HTTP(S) server, or of the server the looked-up client is connected to, restricted to the client type in the URI, and fails when that client cannot be found. Sends and announcements to an address are delivered to exactly that server.",
 ['inputs'],'all documented prefixes x keys x types x address strings, all single-character edits of them, resolution in networks where the client is local, remote or absent',
 'One test parses each form once; resolution is never tested.',
 ['src/address.rs',R+'middleware/client.rs'],
 [('Address::from_str','src/address.rs'),('Address::resolve','src/address.rs')],
 observe=['parse results','URLs requested'])

prop('C21','Port forwarding tracks every mapping it made until it is really removed',
 "After any sequence of opening and closing ports for TCP, UDP or both, with gateway failures at any point, a successful open means every requested mapping exists on the gateway with the requested port, protocol and lease, and a successful close means every mapping of that port and protocol made by this forwarder is gone. Discarding attempts to remove every mapping still held even if some removals fail; mappings whose removal failed stay tracked, so that a later successful discard removes them all. The forwarder never removes a mapping it did not make.",
 ['histories','fault_sequences'],'all operation sequences up to a bounded depth over two ports and three protocol choices with every pattern of gateway failures, against a simulated gateway',
 'The port forwarder has no tests.',
 ['src/port_forward/upnp.rs','src/port_forward/mod.rs'],
 [('table of forwarded ports','src/port_forward/upnp.rs')],
 state=[('forwarded','mappings made and not yet removed','src/port_forward/upnp.rs')],
 observe=['results','set of mappings on the gateway'])

prop('C22','The bundled HTTP server and client carry the API faithfully',
 "Served over HTTP with the bundled server and reached with the bundled client, every endpoint is available under its standard path and method, receives the posted request once and unchanged, and its answer reaches the caller unchanged. A request with an unknown path, wrong method, or a body that is not the endpoint's JSON is answered with an HTTP error without invoking the endpoint, and the server keeps serving every later request correctly. Each registered route calls its own handler.",
 ['inputs','histories'],'all sequences of up to two-three requests from a menu of every valid and malformed request kind over loopback, plus all request kinds against both bundled adapters',
 'Neither adapter has tests.',
 ['src/http/server.rs','src/http/client.rs',R+'middleware/server.rs'],
 [('AxumHttpServer routes','src/http/server.rs'),('ReqwestHttpClient','src/http/client.rs')],
 observe=['HTTP responses on a loopback socket'])

prop('C23','Clients of different servers can find, message and answer each other',
 "In a network of servers, after any sequence of connects, announcements, disconnects, sends, polls and restarts, a connected client that looks up a peer reachable through its server gets a record that names the peer's key, its current server and a certificate by which the peer proves its connection to that server. A message sent there is polled by the peer, and only by the peer, can be read by it with the sender key carried in the message, and that sender information suffices to send an answer back which arrives. Nothing sent over the network or stored by servers contains a secret key or the plaintext of an encrypted message.",
 ['histories','configurations'],'all operation sequences up to a bounded depth for 2-3 clients on 2 servers through the real client and server middleware over an in-memory network',
 'Nothing tests client and server middleware together.',
 [R+'middleware/client.rs',R+'middleware/server.rs',D,'src/address.rs'],
 [('client and server middleware',R+'middleware/'),('storage drivers',D)],
 observe=['results of client operations','all network traffic and stored bytes'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
