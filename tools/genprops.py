#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

T='transport/'
prop('C01','Messages arrive intact, exactly once and in order, whatever the byte stream does',
 'Every message whose send succeeded on a connection that stays up is delivered to the peer exactly once with the identical body and the identical headers (ids, actor, action, flags, error code, retry count and every custom header set or appended), with or without TLS and with any combination of frame checksums both sides agree on. This holds for any number of goroutines sending concurrently, including heartbeats, and for any way the network splits, delays or back-pressures the bytes; messages one goroutine sends one after another appear on the wire in that order, and a client hands arriving messages to its callback in wire order. If the connection breaks, what was delivered is a subset of what was sent, never a damaged, merged, invented or repeated message, and a message that cannot be represented on the wire is refused with an error instead of being sent damaged.',
 ['schedules','inputs','fault_sequences','configurations'],
 'every interleaving of concurrent senders with each other and the receive loop, every segmentation and delay of the stream, every break point, every header/body shape and checksum/TLS configuration',
 'tests send one message at a time over an idle loopback TCP connection; interleaved writers, arbitrary segmentation and breaks in mid-frame are not reached',
 [T+'conn.go',T+'frame.go',T+'message.go',T+'messageheaders.go'],
 [('frame written to the stream',T+'frame.go: writeFrame'),('frame read from the stream',T+'frame.go: nextFrame'),('header encoding',T+'messageheaders.go: writeTo / parseFabricMessageHeaders'),('receive loop',T+'conn.go: Wait')],
 ['callback arguments on either side','bytes on the simulated wire decoded by an independent codec','error returned by SendOneWay'])
prop('C02','A reply reaches exactly the request it answers, and message ids never repeat',
 'RequestReply returns only a message that relates to the id of that very request, and no received message is returned by two calls or both returned by a call and given to the callback. A received message that relates to no outstanding request is given to the callback exactly once, and transport-internal messages never are. Ids generated on a connection, a federation node or by an id generator are never reused, however many goroutines draw them.',
 ['schedules','histories','fault_sequences'],
 'every interleaving of any number of concurrent requests, replies in any order, duplicated replies, unsolicited messages, cancellations and timeouts racing with replies',
 'tests issue one request at a time; crossed, duplicated and late replies under concurrency are not reached',
 [T+'requesttable.go',T+'conn.go',T+'message.go'],
 [('pending request table',T+'requesttable.go: Put / Feed'),('id factory',T+'message.go: messageFactory.Next')],
 ['result of RequestReply','callback arguments','ids on the wire'])
prop('C03','A request always ends, and an abandoned one never stalls the connection',
 'RequestReply returns with the reply once the reply has arrived, with an error as soon as its context is done while it waits for the reply, and with an error when the connection goes down; it never waits for ever. Cancelled or timed-out requests, and replies that come late, twice or for nobody, never stop or delay the delivery of other replies and messages on that connection.',
 ['schedules','histories','fault_sequences'],
 'every point at which a context can end relative to the reply being read, every late or duplicate reply, every close',
 'tests never cancel a request while its reply is being received',
 [T+'requesttable.go',T+'conn.go'],
 [('waiting for a reply',T+'requesttable.go: PendingRequest.Wait'),('handing a reply over',T+'requesttable.go: RequestTable.Feed'),('receive loop',T+'conn.go: Wait')],
 ['result and simulated time of return of RequestReply','delivery of unrelated messages after the cancellation'])
prop('C04','Ping measures a live peer and one bad ping never spoils the next',
 'Ping succeeds once the peer has answered that ping, and the duration it returns is at least the time the peer took to answer, never negative, and never more than the time the call took, whatever the wall clock does meanwhile. It fails when its context is done or the connection goes down, a peer that does not answer makes it wait until one of those happens, and after failed, cancelled, concurrent, late-answered or doubly-answered pings the next answered ping succeeds. A heartbeat request from the peer is answered with the same payload while the connection is up, whatever requests, pings or server callbacks are in progress.',
 ['schedules','histories','fault_sequences'],
 'every interleaving of concurrent pings, cancellation, late or duplicated heartbeat responses, wall-clock jumps and close',
 'the tests ping an idle peer that answers at once',
 [T+'conn.go'],
 [('ping',T+'conn.go: Ping'),('heartbeat handling',T+'conn.go: handleTransportMessage')],
 ['result of Ping','heartbeat frames on the simulated wire'])
prop('C05','Closing at any moment frees every caller and leaks nothing',
 'Close, a close or reset by the peer, or an I/O error at any moment - in the middle of a send, a request, a ping, a callback, a handshake, and several at once - never panics, makes every blocked call on that connection return an error promptly, makes later requests and pings fail, and closes the underlying connection. Once a connection has been closed and its receive loop has returned, nothing of it is still running. A connection attempt that fails leaves neither an open network connection nor a goroutine behind.',
 ['schedules','crash_points','fault_sequences'],
 'every interleaving of close with all operations, every byte position at which the connection can break, every step of connection set-up that can fail',
 'tests close idle connections',
 [T+'conn.go',T+'client.go',T+'server.go',T+'requesttable.go',T+'tls.go'],
 [('close',T+'conn.go: Close'),('cancelling pending requests',T+'requesttable.go: RequestTable.Close'),('connection set-up',T+'conn.go: tapClientConn / tapAcceptedConn')],
 ['panics','results of blocked calls','number of simulated goroutines left','close state of the simulated sockets'])
prop('C06','Corrupted or truncated frames are never delivered',
 'With header and body checksums generated and checked, a message whose bytes were altered in transit or cut short is never given to a callback or returned as a reply: the connection ends with an error and is closed, and everything delivered before was sent exactly as delivered. With only the default header checksum, an altered frame length, security mask or header length is never acted on. With checking switched off, frames without checksums are accepted.',
 ['inputs','fault_sequences','configurations'],
 'every single corrupted byte or short burst and every truncation point in the stream, in both directions, for all checksum settings, with concurrent traffic',
 'tests check no corrupted stream',
 [T+'frame.go',T+'conn.go'],
 [('checksum generation',T+'frame.go: writeFrame'),('checksum verification',T+'frame.go: nextFrame'),('configuration',T+'conn.go: newConnection / setTls')],
 ['callback arguments','result of Wait','close state of the simulated socket'])
prop('C07','No peer can crash a node or make it allocate without bound',
 'Whatever bytes a peer sends - malformed, truncated, with extreme lengths, wrong field types, or valid frames with hostile bodies - a process using a transport client or server, a piper, a federation node or a naming client never panics, never hangs other connections, and never allocates more than a constant plus a small multiple of the bytes it has received for it. At worst that one connection ends with an error or that one call fails.',
 ['inputs','histories','fault_sequences'],
 'every byte sequence a peer can send before, during and after connection set-up, mixed with valid traffic',
 'tests only feed well-formed captures',
 [T+'frame.go',T+'message.go',T+'messageheaders.go',T+'piper.go','serialization/unmarshal.go','naming/naming.go','federation/sitenode.go'],
 [('frame bounds',T+'frame.go: nextFrame'),('header bounds',T+'message.go: nextMessageHeaderAndBodyFromFrame'),('decoder','serialization/unmarshal.go')],
 ['panics in the simulated process','size of single allocations and heap growth','health of other connections'])
prop('C08','One client can never stop the server from serving the others',
 'While its listener is open a server accepts and serves every connection independently: clients that stall during set-up, never read, send garbage, reset, or whose callbacks block for ever, and temporary accept errors, never delay or break another client beyond that. Serve returns an error when the listener is closed or fails for good, and not before.',
 ['schedules','histories','fault_sequences'],
 'every mix of stalled, hostile, resetting and healthy clients, temporary and permanent accept failures, and close at any moment',
 'tests run one well-behaved client per server',
 [T+'server.go',T+'conn.go'],
 [('accept loop',T+'server.go: Serve'),('per-connection handling',T+'server.go: handle / onMessage')],
 ['requests of healthy clients being answered in bounded simulated time','return of Serve'])
prop('C09','With TLS configured nothing travels in clear and no unverified peer is heard',
 'With TLS configured no message content ever appears in clear on the wire in either direction, and no message is delivered to or accepted for a peer that has not completed the handshake with a certificate the configuration accepts. The handshake succeeds against a correct peer however the network splits and delays its bytes and for every TLS version and session-ticket setting both sides allow. A handshake that fails - bad certificate, plain-text peer, garbage, reset or write error at any byte - ends in an error, never in an unprotected or half-open connection.',
 ['schedules','configurations','fault_sequences','inputs'],
 'every segmentation, delay, reset position and write error during the framed handshake, TLS 1.2 and 1.3, with and without client certificates and session caches, with wrong certificates and non-TLS peers',
 'tests run one handshake over loopback',
 [T+'tls.go',T+'conn.go'],
 [('framed handshake',T+'tls.go: fabricSecureConn'),('set-up order',T+'conn.go: tapClientConn / tapAcceptedConn')],
 ['bytes on the simulated wire','result of Connect','callback arguments'])
prop('C10','A rejected connection says why and refuses all further use',
 'When the peer rejects a connection with an authentication failure, the connection is closed, everything waiting on it fails, and every later send, request or ping fails with an error that carries the error code and message of the rejection, never with success. An authentication answer with the success code, or a rejection-like message from any other actor, does not disturb the connection.',
 ['schedules','histories','inputs'],
 'every interleaving of the rejection with requests, sends, pings and close, every error code, malformed rejection bodies',
 'the test receives one rejection on an idle connection',
 [T+'conn.go'],
 [('rejection handling',T+'conn.go: Wait'),('refusing use',T+'conn.go: SendOneWay')],
 ['errors returned by operations','close state of the simulated socket'])
prop('C11','The piper forwards everything unchanged, in order, and ties both ends together',
 'Between a client and the upstream chosen for it the piper forwards every message in both directions exactly once, in order, with identical headers and body, unless the filter drops or replaces it, and then exactly what the filter returned is forwarded; the upstream is chosen from the headers of the first message. Each pair of connections is independent of all others, and when either end closes, breaks or misbehaves, or the upstream cannot be reached, both ends of that pair - and only those - are closed, while the piper keeps accepting. This holds for plain and TLS on either side and for every frame checksum configuration. A frame that fails a check its side is configured for is not acted on.',
 ['schedules','histories','fault_sequences','configurations'],
 'every interleaving of the two directions, any number of pairs, every segmentation, breaks at every byte, upstream failures at every step, filters that pass, drop or replace',
 'there is no test of the piper',
 [T+'piper.go',T+'conn.go'],
 [('pair set-up',T+'piper.go: handle'),('forwarding',T+'piper.go: pipe / copy')],
 ['messages received by stub upstreams and clients','close state of the simulated sockets'])
F='federation/'
prop('C12','A node\'s view of its partners only moves forward and is passed on complete',
 'For every node id the partner view holds the newest information heard of so far - that of the highest instance number, and of that the latest phase -, whatever the order, duplication and concurrency with which it arrives; a later restart of a node replaces the earlier one and never the other way round. A configured seed node is always known. Every message a federation node sends carries its own current instance, address, lease address and phase and, as far as it fits into a message, the information it holds about its other partners that have an instance number.',
 ['schedules','histories'],
 'every interleaving of partner information arriving on many connections at once, reordered, duplicated and delayed across node restarts',
 'there is no federation test',
 [F+'sitenode_parteners.go',F+'sitenode.go',F+'sitenode_sender.go'],
 [('partner table',F+'sitenode_parteners.go: updatePartnerNode'),('partner headers',F+'sitenode_sender.go: appendPartnerInfo')],
 ['KnownPartnerNodes','partner headers in messages received by stub nodes'])
prop('C13','Bootstrap finishes once a routing node is heard of, and only then',
 'Bootstrap keeps sending vote pings to the seed nodes, at least once a minute each unless an attempt to reach that seed is still under way, until a node in the routing phase has been heard of, and then returns success promptly, even if that information arrives before, during or between any of its steps or updates information already held about that node. Once the network lets a routing seed node answer, Bootstrap succeeds within a bounded time whatever failed before, and it never succeeds before a routing node has been heard of. When its context ends first it returns the context\'s error promptly.',
 ['schedules','histories','fault_sequences'],
 'every interleaving of vote ping answers with the bootstrap loop, any phase history of the seeds, dial failures, lost answers, partitions that heal',
 'there is no federation test',
 [F+'sitenode_boot.go',F+'sitenode.go',F+'sitenode_parteners.go'],
 [('bootstrap loop',F+'sitenode_boot.go: Bootstrap'),('phase change',F+'sitenode.go: changePhase / onPartnerChanged')],
 ['result and simulated time of Bootstrap','vote pings received by stub nodes'])
prop('C14','A routed message goes to the right node and its reply comes back to the caller',
 'A message sent to a node goes to exactly that node and fails if the node is not known; a routed message goes to the known node with that id, or else to the known node that follows the id most closely on the ring, and never to the sender itself. The message carries who sent it and to whom, Route returns the reply that relates to it and no other, whichever connection the reply comes back on, reports a reply that carries an error code as an error, and ends with an error when its context is done while it connects or waits for the reply. Joining routes a neighborhood query to the node\'s own id in this way and ends when the reply to it has come, or its context is done. Concurrent routes to any nodes do not disturb each other.',
 ['schedules','histories','inputs'],
 'every partner set and target id, every interleaving of concurrent routes, replies in any order and over any connection, cancellation, error replies',
 'there is no federation test',
 [F+'sitenode_sender.go',F+'sitenode_parteners.go',T+'requesttable.go'],
 [('choice of node',F+'sitenode_parteners.go: closestPartnerNode'),('route',F+'sitenode_sender.go: Route'),('reply matching',F+'sitenode.go: onMessage')],
 ['which stub node receives the message','its headers','result of Route'])
prop('C15','A node reuses one connection per partner and recovers when it breaks',
 'A federation node reuses an established connection to a partner instead of opening another for every message. After a dial failure, or after a connection has been closed, reset or rejected by the partner and that has been noticed, the next message to that partner dials again, so that once the partner is reachable messages get through; a failed dial is reported as an error, never a panic. Closing the node closes its listener, its lease agent and every connection it opened (one being dialled once the dial ends), ends the routed calls that wait for a reply, and makes its serve loop return.',
 ['schedules','crash_points','fault_sequences'],
 'every interleaving of concurrent sends to the same partner with dial failures, breaks, restarts of the partner and close of the node',
 'there is no federation test',
 [F+'sitenode_sender.go',F+'sitenode.go'],
 [('connection pool',F+'sitenode_sender.go: getConn / cachedConn'),('close',F+'sitenode.go: Close')],
 ['dials seen by the simulated dialer','connections open on the simulated network','results of SendOneWay'])
prop('C16','Discover finds every node that reachable nodes tell of, in bounded time',
 'Discover returns the seed nodes and every other node that it can learn of by pinging seed nodes and the nodes discovered so far while the network works, each with the newest information received, and each node once. Every discovered node is pinged in every round unless the previous attempt to reach it is still under way, unreachable nodes do not prevent the others from being found, and it returns within a bounded time once nothing new turns up. When its context ends it returns the context\'s error promptly.',
 ['schedules','histories','fault_sequences'],
 'every topology of who knows whom, unreachable and restarting nodes, slow answers, cancellation at any moment',
 'there is no federation test',
 [F+'sitenode_boot.go'],
 [('discovery rounds',F+'sitenode_boot.go: Discover')],
 ['result and simulated time of Discover','vote pings received by stub nodes'])
L='lease/'
prop('C17','A lease ping succeeds exactly when the peer answers it',
 'Ping on a lease session writes one well-formed ping request carrying the agent\'s listen endpoint and the session\'s instance, and returns success only if a ping response from that session\'s endpoint arrived after the call began, which also moves the last-pong time. A response that arrives at any moment after the request was written completes the call; otherwise it returns an error when its context is done, the session or the agent is closed, or the write fails. Any number of concurrent pings leave whole frames on the wire, and the ping loop keeps pinging through failures until its context ends and then returns that context\'s error.',
 ['schedules','histories','fault_sequences'],
 'every interleaving of concurrent pings with responses, cancellation, close and write errors at every byte, with and without TLS',
 'there is no lease test',
 [L+'agent.go',L+'frame.go',L+'serialize.go'],
 [('ping',L+'agent.go: leaseSession.Ping'),('waking waiters',L+'agent.go: boardcastPong'),('framing',L+'frame.go: writeDataWithFrame')],
 ['result of Ping and LastPongTime','frames on the simulated wire'])
prop('C18','Lease responses reach their own session and identifiers are unique',
 'A lease message received on any inbound connection affects exactly the open session whose endpoint it names: it never wakes pings or moves the last-pong time of another session, and messages for unknown endpoints or of other types change nothing and leave the connection usable; the agent greets every inbound connection with one connect frame and sends nothing else on it. A session established again to the same endpoint, before or after the old one is closed, receives the responses from then on. Message identifiers and session instances of an agent never repeat, however coarse the clock is and however it jumps.',
 ['schedules','histories','fault_sequences'],
 'every interleaving of establish, close, responses and pings over several sessions, endpoints and inbound connections; stalled and backward clocks',
 'there is no lease test',
 [L+'agent.go',L+'serialize.go'],
 [('session table',L+'agent.go: Establish / leaseSession.Close / handleIncoming'),('identifiers',L+'agent.go: uniqId')],
 ['results of Ping','LastPongTime','identifiers on the simulated wire'])
prop('C19','A lease agent survives any peer and stops when closed',
 'Whatever bytes a peer sends to a lease agent\'s listener - malformed headers, extreme sizes, any number of connect frames, truncation or resets at any byte - the agent never panics or allocates without bound, ends at most that inbound connection, and keeps serving the others, also through temporary accept errors. After Close its wait loop returns, its listener, its sessions\' connections and their waiting pings end, establishing fails, and nothing spins or keeps running.',
 ['inputs','schedules','crash_points','fault_sequences'],
 'every byte sequence on every inbound connection, close at any moment and more than once, racing with accept, establish and ping',
 'there is no lease test',
 [L+'agent.go',L+'frame.go',L+'serialize.go'],
 [('accept loop',L+'agent.go: Wait'),('inbound handling',L+'agent.go: handleIncoming'),('decoding',L+'frame.go: nextLtFrame, '+L+'serialize.go: unmarshal')],
 ['panics','allocation size','return of Wait','simulated goroutines and sockets left'])
N='naming/'
prop('C20','Every service notification is acknowledged and delivered exactly once, intact',
 'For every well-formed service notification a naming client receives it sends exactly one success acknowledgement that relates to it and hands exactly one notification with the content that was sent to the registered handler, however many arrive at once and however slow the handler is. A notification that cannot be decoded or has no content is neither acknowledged as a success nor delivered, and does not disturb the ones after it. Without a handler notifications are still acknowledged.',
 ['schedules','inputs','histories'],
 'every interleaving of notifications with each other, slow handlers, requests and malformed notifications',
 'there is no naming test',
 [N+'naming.go'],
 [('notification handling',N+'naming.go: NamingClient.onMessage')],
 ['acknowledgements received by the stub gateway','handler arguments'])
prop('C21','Naming calls return the gateway\'s answer or an error, on time',
 'Every naming client call returns the content of the gateway\'s reply to that call, or an error if the gateway reports a failure, answers with something unusable or empty, or the connection goes down, and never panics. It returns an error promptly when the caller\'s context is done. Filter ids handed out by a client are distinct and are the ones registered, with the name and flags asked for, with the gateway under the client\'s own id, and concurrent calls get their own answers.',
 ['schedules','inputs','histories','fault_sequences'],
 'every interleaving of concurrent calls with answers, failures, malformed answers, cancellation and connection loss',
 'there is no naming test',
 [N+'naming.go',T+'requesttable.go'],
 [('calls',N+'naming.go: requestReply / Ping / RegisterFilter / GetApplicationList')],
 ['results of the calls','requests received by the stub gateway'])
# pure functions: listed, not claimed
prop('C22','Serialization round-trips every value and is stable',
 'Marshalling any supported value and unmarshalling the bytes yields an equal value, marshalling is a pure function of the value up to map order, and unknown trailing or nested fields are skipped.',
 ['inputs'],'every supported Go value and nesting','tests sample a few values',
 ['serialization/marshal.go','serialization/unmarshal.go','serialization/bytecompress.go'],
 [('codec','serialization/')],['serialization.Marshal / Unmarshal'])
prop('C23','Node ids are computed as Service Fabric computes them',
 'The node id derived from a hex string, an MD5 hash or a V4 role name equals the one Service Fabric derives, for every name of the documented shape.',
 ['inputs'],'every name','no test covers the generators',
 [F+'nodeid_generator.go'],[('generators',F+'nodeid_generator.go')],['NodeIDFromHex / NodeIDFromMD5 / NodeIDFromV4Generator'])
prop('C24','Node id ranges contain exactly the ids between their ends on the ring',
 'A node id range contains an id exactly if the id lies between begin and end inclusive walking up the ring, also when the range wraps around zero.',
 ['inputs'],'every range and id','no test covers ranges',
 [F+'nodeid_range.go'],[('containment',F+'nodeid_range.go: Contains')],['NodeIdRange.Contains'])
prop('C25','GUIDs and time spans convert without loss',
 'Formatting and parsing a GUID in the Windows layout round-trips, and a time span converts to a duration and back without loss for whole 100 ns ticks.',
 ['inputs'],'every GUID and time span','tests sample a few values',
 ['serialization/guid.go','common/time.go'],[('conversion','serialization/guid.go, common/time.go')],['GUID, TimeSpan conversions'])
prop('C26','Concurrent use is free of data races',
 'Connections, request tables, servers, pipers, lease agents, site nodes and naming clients may be used from many goroutines at once as their documentation and examples do: whatever the schedule, the network and the peers do, no two goroutines of the library touch the same memory, one of them writing, unless a lock, channel or atomic operation orders the two accesses. Shared state (waiting requests and pings, callbacks, the partner view and phase, the connection pool, lease sessions, message ids) is never read or written unordered.',
 ['schedules','inputs','fault_sequences'],'every schedule of concurrent calls, incoming messages and faults','the tests use few goroutines and one schedule of the machine, and run without the race detector',
 ['transport/','federation/','lease/','naming/'],
 [('locks',T+'conn.go: pinglock, fatalLock, callbackLock; federation/sitenode.go: phaseLock, partenersRWLock, connLock; lease/agent.go: sessions')],['concurrent calls on transport.Client, transport.Server, Piper, lease.Agent, federation.SiteNode, naming.NamingClient'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False)+'\n')
print(len(P))
