import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
ENC='bencode/encode.go'; DEC='bencode/decode.go'; RAW='bencode/raw_message.go'
MI='api/metainfo/metainfo.go'; TR='api/tracker/tracker.go'; PE='api/peer/peer.go'
ST='storage/storage.go'; TO='storage/torrent.go'; LF='storage/lazy_file_reader.go'; FU='future/future.go'
SV='p2p/server.go'; PP='p2p/peer.go'; MT='p2p/multitracker.go'; PX='pex/http.go'; BF='bitfield/bitfield.go'

p('B01','Bencode output is canonical',
 "Encoding a supported Go value writes exactly one well-formed bencode value denoting it: integers in minimal decimal, strings (and byte slices) with their exact byte length, lists in order, dictionaries with unique keys in ascending raw-byte order, and nil values or empty fields marked omitempty left out together with their keys. The bytes are a function of the value alone: the same for every call, for Marshal and for a stream Encoder, and for equal maps however they were built; they belong to the caller, and no later call changes them.",
 ['inputs'],'all supported static types and values, including arbitrary byte strings, boundary integers and deep nesting',
 'Tests encode about 40 hand-written values; map order, key order over raw bytes, integer boundaries and type combinations are an unbounded space.',
 [ENC,RAW],[('Encoder.encode and its per-kind encoders','bencode/encode.go'),('key sorting in encodeMap and getFieldsForStruct','bencode/encode.go')])
p('B02','Bencode values survive a round trip',
 "Decoding the encoding of any supported value into a fresh variable of the same type gives back an equal value and consumes all of the bytes, for every integer width, byte strings, slices, arrays, string-keyed maps, structs (nested, embedded, tagged), pointers and custom marshalers. Decoding any canonical bencode text into an untyped variable and encoding it again gives back the same bytes. What was decoded shares nothing with the text it came from, nor with what other calls decode.",
 ['inputs'],'all supported static types and all their values; all canonical bencode texts whose integers fit',
 'Tests pair encoders and decoders on a handful of values, never against each other over generated types.',
 [ENC,DEC],[('symmetry of encode and decode per kind','bencode/encode.go, bencode/decode.go'),('field cache shared by both','bencode/encode.go')])
p('B03','The bencode decoder accepts exactly well-formed bencode',
 "Decoding into an untyped variable succeeds exactly when the input starts with a well-formed bencode value (integers of minimal decimal form that fit the machine integer, unsigned string lengths covered by the input, dictionary keys strictly ascending), and then yields exactly the value denoted. Decoding into a typed destination yields the denoted value or an error, never a truncated, wrapped or otherwise different value.",
 ['inputs'],'all byte strings and all destination types',
 'Tests sample some malformed inputs per production; acceptance is a statement about all byte strings.',
 [DEC],[('decode*, parseLength, leadingZero, key-order checks','bencode/decode.go')])
p('B04','Hostile bencode cannot crash or exhaust the process',
 "For every input and destination type, decoding ends with a value or an error: it never panics, never exhausts the stack, never reads on without end, and allocates memory in proportion to the bytes actually received rather than to lengths the input claims. Encoding never panics either, and reports unsupported, cyclic or overly deep values as errors.",
 ['inputs','fault_sequences'],'all byte strings (including truncations, huge claimed lengths, deep nesting), all read errors, all destination types',
 'Tests contain no hostile sizes or depths, and cannot sample the space of truncations and mutations.',
 [DEC,ENC],[('depth limit in enter','bencode/decode.go'),('gradual allocation in readFull','bencode/decode.go'),('ptrDepthLimit','bencode/encode.go')])
p('B05','Raw capture is byte-exact and unknown keys are skipped whole',
 "A raw message, or a custom unmarshaler, receives exactly the bytes of the value at its position, and a captured raw message encodes as those same bytes. A struct ignores dictionary entries it has no field for, whatever well-formed value they hold, without disturbing the values of the other fields or the position in the stream.",
 ['inputs'],'all well-formed values in all positions of lists, dictionaries and structs, integers of any size included',
 'Tests capture a few fixed values; exactness over all values decides the info hash of every torrent.',
 [DEC,RAW],[('consume* capturing into a buffer','bencode/decode.go')])
p('B06','Bencode streams do not depend on how bytes arrive or leave',
 "A stream of concatenated values decodes to the same sequence of values and errors however the reader splits its bytes, each Decode consuming exactly one value and reading no further than that from a reader that is buffered already, and an error of the underlying reader before the end of a value is reported rather than hidden. Encoding a sequence of values to one stream writes the concatenation of their encodings, and a failing writer is reported.",
 ['inputs','schedules','fault_sequences'],'all value sequences, all splits of the stream into reads, all positions of a read or write error',
 'Tests use complete in-memory inputs; fragmentation and mid-value errors are never exercised.',
 [DEC,ENC],[('bufio.Reader wrapping and io.ReadFull','bencode/decode.go'),('errors of each write returned','bencode/encode.go')])
p('B07','The bencode codec is safe for concurrent use',
 "Any number of goroutines may encode and decode values of any mix of types at once, including the first uses of a type: there is no data race, and each call gives what it gives alone.",
 ['schedules'],'all interleavings of concurrent encodes and decodes, first use of a type included',
 'No test is concurrent; the per-type field cache is shared mutable state.',
 [ENC],[('fieldCacheMu guarding fieldCache','bencode/encode.go')],[('fieldCache','struct layout per type','bencode/encode.go')])
p('B08','Struct fields map to dictionary keys by fixed rules',
 "For every struct type, encoding and decoding use the same key for each exported field: its tag name or else its field name, lower-cased; fields tagged - and unexported fields take no part. Embedded structs contribute their fields as if declared outside, the shallowest field winning and, at equal depth, a tagged one over an untagged one; fields that still conflict are ignored by both sides.",
 ['inputs','programs'],'all struct types (tags, embedding by value or pointer, name conflicts at any depth)',
 'Tests fix a dozen struct types; the rules quantify over all of them.',
 [ENC,DEC],[('getFieldsForStruct','bencode/encode.go')])

p('M01','The info hash identifies the exact info dictionary',
 "For every metainfo file that decodes, the info hash is the SHA-1 of exactly the bytes of the info dictionary as they appear in the file, including unknown keys and values no field represents. It does not depend on the rest of the file.",
 ['inputs'],'all metainfo files, with arbitrary extra keys inside and outside of info',
 'Tests check one or two fixed files.',
 [MI,DEC],[('Info.UnmarshalBencoding hashing its raw bytes','api/metainfo/metainfo.go')])
p('M02','Metainfo fields are faithful and pieces tile the content',
 "Decoding a metainfo file gives every field the value the file holds (single- and multi-file, announce lists, dates, piece hashes in order), refuses a pieces string that is not a whole number of hashes, and encoding it back preserves the fields. The total length is the sum of the file lengths (or the single length), every piece but the last has the piece length, and the piece lengths add up to the total.",
 ['inputs'],'all metainfo values with consistent lengths',
 'Tests check two files and no piece geometry beyond single cases.',
 [MI],[('Metainfo, Info, File codecs','api/metainfo/metainfo.go'),('GetLength and GetPieceLength','api/metainfo/metainfo.go')])
p('T01','Tracker requests and responses are carried faithfully',
 "Decoding the encoding of any tracker request gives back the same request, and of any response the same response, in the compact and in the dictionary peer format, including binary hashes and the limits of ports and addresses. Malformed queries, peer lists and responses are refused with an error, and a peer that the compact format cannot represent is refused rather than altered.",
 ['inputs'],'all requests and responses; all malformed queries and responses',
 'Tests cover a few requests and lists; the escaping of arbitrary binary ids and malformed inputs are not sampled.',
 [TR],[('Request.Encode/Decode','api/tracker/tracker.go'),('Peers marshaling','api/tracker/tracker.go')])
p('W01','Peer messages and handshakes are carried faithfully',
 "Every handshake and every message of the peer protocol is written in the exact wire format of BEP 3 and decodes back to the same type, index, begin, length, bitfield and block, for all values of 32-bit fields and all payloads. A stream of them decodes in order however the bytes are split, each read consuming exactly one message.",
 ['inputs','schedules'],'all messages, all sequences of messages, all splits of the stream',
 'Tests encode one or two messages per type, from complete buffers.',
 [PE],[('Message and Handshake Encode/Decode','api/peer/peer.go')])
p('W02','Hostile peer bytes cannot crash the decoder',
 "For every byte stream, reading a handshake or a message ends with a result or an error: no panic, no acceptance of a message shorter than its type requires or of a wrong protocol string, no memory beyond proportion to the bytes received, and a stream cut or failing at any byte gives an error rather than a message. Unknown message types are consumed whole, so that the next message is read correctly.",
 ['inputs','fault_sequences'],'all byte streams, all cut and error positions',
 'Tests hold a few bad handshakes and no hostile messages.',
 [PE],[('length and minimum payload checks','api/peer/peer.go'),('gradual allocation','api/peer/peer.go')])
p('F01','Bitfields behave as sets of piece indices',
 "A bitfield behaves as a set of indices: adding, membership (false outside of the field), enumeration in ascending order and difference agree with set arithmetic for every size and every pair of fields, even of different lengths, without changing the operands. Its bytes are those of the peer protocol, the first piece being the high bit of the first byte.",
 ['inputs','histories'],'all sizes, all sets, all operation sequences',
 'Tests use fields of one to three bytes with chosen bits.',
 [BF],[('New, Has, Add, Items, Difference','bitfield/bitfield.go')])
p('G01','Magnet links are parsed faithfully',
 "Parsing a magnet link yields exactly the percent-decoded topic, name, length, web seed and all trackers and peers in order, whatever the order of parameters, and an error for a link that is no URL or a length that is not a decimal integer.",
 ['inputs'],'all links built from arbitrary parameter values and orders',
 'The tests parse one link.',
 [ 'api/magnet/magnet.go'],[('ParseMagnetURL','api/magnet/magnet.go')])

S=['histories','inputs']
p('S01','Only hash-verified data is ever readable or advertised',
 "At every moment, every block that storage returns, every piece in its bitfield, and every file it puts in the target directory consist only of bytes whose piece matched its SHA-1, whatever blocks were put (corrupt, duplicate, in any order, then retried after a reset). A piece whose blocks do not match fails with a checksum error, is not readable, and can be reset and filled again.",
 S,'all sequences of puts, resets and reads over all torrents, good and corrupt data mixed',
 'Tests put only correct data; no test has a checksum mismatch.',
 [ST,TO],[('coalesceBlocks compares the SHA-1 before the piece is completed','storage/storage.go')],
 [('Piece.coalesced','piece verified and on disk','storage/torrent.go'),('Torrent.Bitfield','verified pieces','storage/torrent.go')])
p('S02','A finished torrent is exactly the content, and ranges read back exactly',
 "Once all pieces are stored, the target directory holds the torrent under its name with exactly the described files, paths, lengths and contents, for any cut of the content into files (empty ones included) and any order of arrival, and the work files are gone. Before and after that point, reading any range within a complete piece gives exactly the bytes of the content at that offset, across file boundaries.",
 S,'all file layouts, piece lengths, arrival orders and read ranges',
 'Tests use one single-file and one multi-file layout with a few ranges.',
 [ST,LF],[('coalescePieces*','storage/storage.go'),('getBlockFrom*','storage/storage.go')])
p('S03','Only exact, first-time blocks within a piece are admitted',
 "A put is admitted only for an existing piece, at a block boundary inside it, with exactly the block's length; anything else, and a block already held or belonging to a complete piece, is refused with an error and changes nothing. A read outside of a piece or of an incomplete piece is refused with an error; no index, offset or length of a put or a read causes a panic.",
 ['inputs','histories'],'all indices, offsets and lengths (negative and huge included) in all states',
 'The one test of block sizes checks five cases, none out of range.',
 [ST],[('checkBlockSize, checkPieceIndex','storage/storage.go'),('putBlock','storage/torrent.go')])
p('S04','Concurrent storage operations are linearizable and free of races',
 "Concurrent puts, reads, resets and waits have no data race, and their results are those of some order of the operations one at a time: of two puts of a block one succeeds, a piece becomes readable exactly when its last block is admitted, and stays so.",
 ['schedules','histories'],'all interleavings of operations by many goroutines',
 'One test runs eight goroutines on disjoint pieces, without the race detector and without hostile interleavings.',
 [ST,TO],[('Torrent.mu and Piece.mu','storage/torrent.go')])
p('S05','Storage operations never deadlock',
 "Whatever mix of operations runs concurrently (puts that complete pieces or the torrent, reads of the same and other pieces, resets, waits), every operation other than a wait for missing data returns. Progress never depends on one goroutine arriving before another.",
 ['schedules'],'all interleavings of concurrent operations at all lock acquisitions and file operations',
 'A lock-order deadlock needs an exact interleaving that a test run does not produce, and a test that hangs decides nothing.',
 [ST,TO],[('lock order piece then torrent','storage/storage.go')])
p('S06','A crash at any point loses no completed piece and corrupts nothing',
 "If the process dies at any file-system operation, then opening the same directories again succeeds and finds every piece whose completion had been reported, with the right bytes; nothing partial is readable, advertised or present under the target name; and the download can be finished to the exact content from there.",
 ['crash_points','histories'],'every file-system operation as a crash point, including partial writes, and repeated crashes',
 'Tests reload only after clean returns; no test stops between two file operations.',
 [ST],[('temporary file then rename for pieces and for the torrent','storage/storage.go'),('Load','storage/storage.go')])
p('S07','I/O errors are reported and never corrupt the store',
 "If any file-system operation fails, the storage operation that needed it returns an error or still has its full effect, without a panic; no unverified or partial data becomes readable, advertised or present under the target name, and pieces completed before stay readable. Once the failure is gone, resetting the piece and putting it again, or loading again, completes the torrent with the exact content.",
 ['fault_sequences','histories'],'every file-system operation failing once or from then on, with each kind of error, short writes included',
 'No test injects an I/O error.',
 [ST,LF],[('errors of each file operation returned','storage/storage.go')])
p('S08','Every waiter is told the outcome of its piece or torrent',
 "A goroutine waiting for a piece returns without error once that piece is verified and stored, and with an error once its data fails verification, cannot be stored or is reset; a goroutine waiting for the torrent returns once the whole content is in place, and never before. Waiters that come late get the same answer at once, no waiter is left behind, and none is ever answered twice or with a panic.",
 ['schedules','histories'],'all numbers of waiters, all histories of puts, failures, resets and loads, all interleavings',
 'No test waits for anything.',
 [TO,FU],[('one future per piece attempt and per torrent','storage/torrent.go, future/future.go')])
p('S09','The downloaded count equals the verified bytes held',
 "The number of bytes that storage reports as downloaded is always the total length of the pieces it holds complete: it grows by a piece's length when, and only when, the piece is verified and stored, is not changed by rejected or corrupt data, and after a load equals the bytes found complete on disk.",
 S,'all histories of good and corrupt puts, resets, loads and completions, single- and multi-file',
 'No test reads the count.',
 [ST],[('downloaded counter','storage/storage.go')])
p('S10','A torrent never touches files outside its directories',
 "Whatever names, paths and lengths a metainfo contains (parent references, absolute paths, separators, empty or duplicate names), storage reads, creates, replaces and removes files only inside its work directory and under the torrent's own name in the target directory. Metainfo that would lead elsewhere, or whose lengths do not add up, is refused when loading.",
 ['inputs'],'all names, path lists and lengths in a metainfo',
 'No test has a hostile name.',
 [ST],[('checkInfo on load and before assembling files','storage/storage.go')])
p('S11','Loading trusts nothing it finds on disk without verification',
 "Whatever the work directory contains (files that are truncated, corrupt, oversized, misnamed, out of range or foreign, and foreign directories), loading neither panics nor advertises or serves a piece whose bytes do not match its hash, keeps exactly the intact pieces, and the download can be finished to the exact content. A target whose files are missing, of the wrong size or of the wrong content is reported as an error rather than served or overwritten, and loading again is harmless.",
 ['inputs','histories'],'all contents of the work and target directories',
 'Tests reload only directories that storage itself has just written.',
 [ST],[('Load, verifyPiece, verifyTorrent','storage/storage.go')])

p('S12','Storage leaves no files open and no temporary files behind',
 "When no storage operation is under way, storage holds no file open, and the work directory contains the completed pieces of unfinished torrents and no other files, whatever has been put, read, reset and loaded, and whichever operations failed for whatever reason (other than a failure to remove a file).",
 ['histories','fault_sequences'],'all histories, and every file operation failing at each point of them',
 'Tests end their process soon after; a leak shows only in a process that goes on.',
 [ST,LF],[('files closed and temporary files removed by defer','storage/storage.go'),('lazyFileReader closing at the end','storage/lazy_file_reader.go')])

p('S13','Torrents that share directories do not disturb each other',
 "Any number of torrents with distinct info hashes and distinct names may use the same target and work directories, at the same time or one after another, whatever their content has in common: each stores, loads, serves, finishes and reports exactly as if it were alone there, and none reads, replaces or removes what belongs to another.",
 ['histories','schedules'],'all histories of several torrents in one pair of directories, one after another and concurrent',
 'Tests use one torrent per directory; a name shared by the temporary files of two torrents shows only when both write at once.',
 [ST],[('temporary files with unique names, work directory named by the info hash','storage/storage.go')])

p('X01','The tracker hands out exactly the current peers',
 "For each torrent it serves, a valid announce is answered with exactly the other addresses that announced to that torrent within the last minute and whose latest event is not stopped, each once, with their latest peer id, never the announcer itself nor peers of another torrent (a compact answer holds the IPv4 ones), and is told an interval shorter than that minute. An unknown info hash, bad address, port or query is answered with a failure and registers nothing.",
 ['histories','inputs'],'all histories of announces by any clients, over any time, in both formats',
 'The tracker has no tests; membership depends on the whole history and on time.',
 [PX,TR],[('Torrent.Peers with UpdatedAt and LastEvent','pex/http.go'),('expiry ticker','pex/http.go')])
p('X02','The tracker is safe under concurrent announces',
 "Concurrent announces and expiry have no data race and never panic or block one another for good, and every answer is one that some order of the announces gives: an announce that returned earlier is reflected in every later one.",
 ['schedules'],'all interleavings of concurrent announces, and of announces with expiry',
 'The tracker has no tests.',
 [PX],[('Torrent.mu','pex/http.go')])

p('X03','The tracker forgets the peers that are gone',
 "However many announces the tracker has answered or refused, the memory it holds is in proportion to the peers that announced within about the last two minutes: peers that stopped or fell silent, ids that were replaced and announces that were refused leave nothing behind.",
 ['histories'],'all histories of announces, of any length',
 'The tracker has no tests; growth shows only over long histories.',
 [PX],[('expiry ticker removing peers','pex/http.go')])

p('P01','No peer can crash or stall the server',
 "Whatever bytes a remote peer sends, and however it stalls, cuts or reuses its connection, the server neither panics nor deadlocks nor stops serving its other peers: a well-behaved peer connected meanwhile is handshaken, answered and told of new pieces within a bounded time. A peer that violates the protocol loses only its own connection.",
 ['inputs','schedules','histories'],'all peer behaviours: malformed, out-of-range, out-of-order messages, silence, never reading, abrupt close, at any moment',
 'The peer-to-peer package has no tests.',
 [SV,PP,PE],[('per-peer serve loop and error handling','p2p/peer.go'),('index checks and deadlines','p2p/peer.go')])
p('P02','A download completes with exact content when an honest source exists',
 "As long as a connected honest peer has each missing piece and answers, the download completes in bounded time with exactly the described content, whatever other peers do: send corrupt or unrequested blocks, choke and unchoke, announce pieces they do not deliver, stay silent or disconnect at any point. An honest peer is one that answers each request within ten seconds or keeps delivering blocks.",
 ['schedules','histories','fault_sequences'],'all mixes of honest and hostile peers, all orders and delays of their messages',
 'The peer-to-peer package has no tests.',
 [SV,PP,ST],[('download queue and inflight pieces','p2p/server.go'),('requestPiece','p2p/peer.go')])
p('P03','Uploads are exactly the requested bytes',
 "Every request for a range of a complete piece by an unchoked peer is answered with one block of exactly the requested position and bytes, in request order, repeated and cancelled ones included. No block is sent that was not requested, none to a choked peer, and a request for data not held or out of range never yields data.",
 ['inputs','histories'],'all request sequences, ranges and interleaved messages',
 'The peer-to-peer package has no tests.',
 [PP,ST],[('HandleRequest','p2p/peer.go'),('GetBlock','storage/storage.go')])
p('P04','Piece announcements are truthful and complete',
 "To every connected peer the server announces, by the bitfield sent first and by later have messages, only pieces it can serve verified at that moment; and every piece completed while a peer is connected is announced to it in bounded time, even if other peers fail or do not read.",
 ['schedules','histories'],'all timings of connections, completions and failures of other peers',
 'The peer-to-peer package has no tests.',
 [SV,PP],[('bitfield sent on connect, have broadcast after each piece','p2p/server.go')])
p('P05','Connections are bounded, unique and always released',
 "At no moment does the server keep more than 50 connections, nor two registered ones to the same peer id and address, nor one to itself. Every connection that is refused, fails or ends, including one that never completes its handshake or whose peer has silently vanished, is closed in bounded time and frees its place, so that new peers are accepted or dialed again.",
 ['histories','schedules'],'all histories of inbound and outbound connections, refusals and failures',
 'The peer-to-peer package has no tests.',
 [SV,PP],[('peerSemaphore, activePeers, knownIDIPs','p2p/server.go')])
p('P06','Stopping ends everything in bounded time',
 "Stopping the server at any moment, however often and from however many goroutines, returns in bounded time, closes the listener and all connections, tells the tracker once, makes Start return, and leaves no goroutine of the server running; this holds while peers are stalled, pieces are in flight or a tracker does not answer. After a stop has begun, nothing but the stop is announced.",
 ['schedules','histories'],'all moments of a run, all states of peers and trackers',
 'The peer-to-peer package has no tests.',
 [SV],[('Stop and context cancellation','p2p/server.go')])
p('P07','Tracker announces are correct and survive tracker failures',
 "Announces carry the torrent's info hash, the peer id, port and true counters (left is total minus verified bytes), with started first and stopped at the end, keeping any query of the announce URL, and repeat at the interval that the first answer asked for (30 minutes if it asked for none that is usable). Trackers are tried tier by tier in order, a tier's order being random at first, until one answers, the one that answered going to the front of its tier, and a tracker that fails, hangs or answers nonsense neither panics nor stops a running server, nor holds up its peers.",
 ['fault_sequences','histories','configurations'],'all tier layouts and all patterns of tracker failures and responses',
 'The peer-to-peer package has no tests.',
 [MT,SV],[('Multitracker.get, Tracker.get','p2p/multitracker.go')])
p('P08','Peers are admitted only after a matching handshake',
 "On every connection the server sends its own handshake first, and serves, counts or believes a peer only after receiving a well-formed handshake with the same info hash, a peer id that is not its own and that equals the one the tracker named, if it named one. Otherwise, or if the handshake takes longer than its time limit, the connection is closed and nothing but the handshake was sent.",
 ['inputs','schedules'],'all handshake bytes, delays and cuts, inbound and outbound',
 'The peer-to-peer package has no tests.',
 [PP,SV],[('Peer.Handshake','p2p/peer.go')])
p('P09','Requests are disciplined',
 "The server requests only blocks of pieces it lacks and the peer announced, at exact block boundaries and lengths, only after telling its interest, never while choked by that peer; it asks only one peer for a piece at a time, never has a block requested twice at a time, keeps at most 16 requests open per peer, and picks a piece held by the fewest connected peers among those available. Blocks that were not asked of a peer do not enter the storage, and a peer that delivers a corrupt piece is disconnected and not dialed again.",
 ['histories','schedules'],'all peer announcements, choke patterns and timings',
 'The peer-to-peer package has no tests.',
 [SV,PP],[('requestPieceFromPeer','p2p/server.go'),('requestBlock, inflightRequests','p2p/peer.go')])
p('P10','The server is free of data races',
 "Running the server with many peers that connect, exchange pieces, choke, cancel and disconnect, while it announces, unchokes and is stopped, causes no data race and no concurrent map access.",
 ['schedules'],'all interleavings of peer, tracker, timer and shutdown goroutines',
 'The peer-to-peer package has no tests, and none runs under the race detector.',
 [SV,PP,MT,ST],[('Server.mu, Peer.mu, atomics','p2p/server.go, p2p/peer.go')])
p('P11','A swarm of servers with the tracker ends with everyone complete',
 "Servers that know each other only through this repository's tracker, and whose pieces together cover the content, all end with the exact content in bounded time, whether they reach each other directly or only through others of them, whatever each one starts with, whenever each one is started, stopped and started again on its directories, and even among hostile peers. Each one counts at least the bytes it lacked as downloaded, and together they count no more as received from each other than as sent.",
 ['histories','schedules','configurations'],'all distributions of the pieces, all times of starts and restarts, all numbers of servers, all network delays',
 'No test runs two servers, or a server with the tracker.',
 [SV,PP,MT,PX,ST],[('Start, DialPeers, Announce','p2p/server.go'),('ServeHTTP','pex/http.go')])
p('P12','Peers that have gone leave nothing behind in the server',
 "However many peers have connected, been dialed, failed or gone, once they are gone the server runs no more goroutines than before, refers to none of their connections, and holds no more memory than before, so that a server may run for any length of time. Only peers that delivered corrupt pieces are remembered.",
 ['histories','schedules'],'all histories of connections of any length, inbound and outbound, refused, failed, ended by either side at any moment',
 'The peer-to-peer package has no tests, and no test runs long enough for what is left behind to add up.',
 [SV,PP],[('disconnect, knownAddrs, knownIDIPs, indexToPeers, queuedPeers','p2p/server.go'),('Peer.Close, serve','p2p/peer.go')])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        f.write(json.dumps(x)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch)
    assert len(x['title'])<=80
print(len(P))
