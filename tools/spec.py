NOTES = ('All checks are static: astx (clang tooling) dumps the resolved, instantiated syntax trees of every translation unit of '
         '/repo; engine/flow.py walks the paths of the functions a rule names, with callees expanded. No hooks in /repo.')

ENGINE = ('Decides over all paths of the analysed functions (loops by a general iteration with the changed state forgotten); '
          'trusts clang\'s resolution of names, templates and virtual calls, the models of the standard containers and of the '
          'external C libraries, and that distinct objects of the program do not alias except where the engine tracks it.')

PROPS = [
 dict(id='P01', title='Nothing received is read beyond what was received; no write leaves its buffer',
      statement='Whatever bytes arrive (FLV, AVC/AAC headers, RTP, RTCP, MPEG-TS, RTMP handshake, ICY, HTTP), every read of a message takes only bytes that were checked to have arrived, and every write stays inside the buffer it goes to. '
                'A length, count or offset that comes from the message is compared with what is left before it is used; what does not fit is an error, not a read. '
                'The byte, bit and character buffers keep their own contracts: what is granted exists, and reading or writing moves by exactly the amount taken.',
      over=['inputs'],
      quant='every sequence of received bytes, for every parser and every buffer primitive',
      why='the tests parse a few well formed samples; a truncated or lying message is one of very many, and an over-read usually goes unnoticed when it happens',
      files=['src/io/sps_io_bytes.cpp', 'src/io/sps_io_bits.cpp', 'src/io/sps_io_memory.hpp', 'src/avformat/sps_avformat_flvdec.cpp', 'src/avformat/sps_avformat_rtpdec.cpp', 'src/avformat/sps_avformat_mpegts.cpp'],
      state=[('position and end', 'what is left of a message', 'src/io/sps_io_bytes.cpp')],
      mech=[('acquire before read', 'BytesReader, BitContext and their users'), ('length checks', 'the parsers')],
      observe=['the memory around a buffer', 'the error code of a truncated message'],
      technique='path-wise dataflow: obligations at every unchecked read, write, index and copy discharged by the acquires and comparisons on the path (linear facts), opened into callers where the check is theirs; contracts of the primitives decided on their own bodies',
      note=ENGINE + ' Copies whose extent the program does not name (a pointer from outside with no length in reach) are counted as undecided in the evidence. Configuration text and the in-memory IO of the tests are outside.'),
 dict(id='P02', title='A step that fails is never reported as success',
      statement='Whenever an operation answers with an error - a read that ended or came short, a failed write, connect, bind, decode, parse, configuration or start-up step - '
                'the code that asked for it acts on that answer: it fails itself, retries, or takes a deliberate alternative. '
                'No operation answers success (or hands out a usable object) on a path on which a step it depends on failed, and no error answer is lost by being overwritten or never looked at.',
      over=['inputs', 'fault_sequences'],
      quant='every call of a function that answers with an error code, and of a C library function with a failure convention, on every path of its caller',
      why='the tests run a handful of succeeding calls; almost none of the several hundred failure answers is ever produced by them',
      files=['src/sps_error.hpp', 'src/sys/st/io/sps_sys_st_io_tcp.cpp', 'src/module/sps_module.cpp', 'src/avformat/sps_avformat_rtpdec_rtcp.cpp', 'src/io/url/sps_io_url_http.cpp'],
      mech=[('error_t answers', 'every module'), ('if ((ret = ...) != SUCCESS) return ret', 'every module')],
      observe=['the answer of the caller'],
      technique='path-wise dataflow of error answers (tested / propagated / overwritten) at every call site, with a join on open answers; infallible callees computed from their bodies',
      note='Decides every call site over all abstract paths (general loop iteration). Trusts clang\'s resolution, the failure conventions listed for the C libraries, and that allocation does not fail; '
           'a named handful of callees whose failure deliberately ends something else is exempt (listed in the evidence).'),
 dict(id='P03', title='A full read or a write transfers everything, once and in order, or fails',
      statement='Whatever pieces the network delivers or takes, a full read that succeeds has filled the whole buffer with consecutive bytes, and a write that succeeds has sent all of the data, each byte once and in order. '
                'A short read that succeeds reports exactly the number of bytes it delivered, at least one on a stream, and its callers use that number. '
                'Between socket and TLS nothing that was encrypted or received is lost, repeated or passed on in part.',
      over=['inputs', 'schedules', 'histories'],
      quant='every sequence of piece sizes in which the layer below delivers or accepts bytes, for every reader and writer (TCP, UDP, TLS, SRT, file, HTTP body)',
      why='on a loopback connection small messages arrive in one piece; partial reads, full socket buffers and messages of several TLS records do not occur in the tests',
      files=['src/io/sps_io_socket.cpp', 'src/sys/st/io/sps_sys_st_io_tcp.cpp', 'src/sys/st/io/sps_sys_st_io_ssl.cpp', 'src/sys/st/io/sps_sys_st_io_srt.cpp', 'src/sys/st/io/sps_sys_st_io_udp.cpp', 'src/io/url/sps_io_url_file.cpp'],
      state=[('rbio and wbio', 'what lies between the socket and TLS', 'src/sys/st/io/sps_sys_st_io_ssl.cpp')],
      mech=[('read_fully, read and write', 'every implementation of IReader and IWriter')],
      observe=['the bytes in the buffer and at the peer', 'the reported count'],
      technique='path-wise dataflow with inductive loop cursors: the transferred ranges of every path and loop iteration tile the buffer; typestate of the TLS memory BIOs; use of the reported count at every caller',
      note=ENGINE + ' Sizes are below 2 GiB. Trusts the state threads library (st_write sends all or fails), OpenSSL and the file streams. The in-memory IO of the tests is outside.'),
 dict(id='P04', title='One live source per stream name, only where the host admits it',
      statement='At any moment a stream name has at most one live source: a second publisher or pull of a name that is live is refused '
                'and the first source and its viewers are undisturbed. A remote publisher is admitted only on a host configured as a '
                'source, and a viewer-triggered pull only in a media format that host admits; a refused publisher or pull registers nothing.',
      over=['schedules', 'inputs', 'histories', 'configurations'],
      quant='every interleaving of publishers, pulls and viewers of the same or different names, on every host configuration, over every protocol entry (RTMP, SRT, HTTP-triggered edge pull)',
      why='the tests never start a server: no publisher or pull is ever created, so no interleaving of two of them is reached',
      files=['src/module/stream/sps_stream_cache.cpp', 'src/module/rtmp/sps_rtmp_stream_handler.cpp', 'src/module/srt/sps_srt_stream_handler.cpp', 'src/module/stream/sps_stream_edge.cpp', 'src/module/stream/sps_stream_handler.cpp'],
      state=[('live stream registry', 'name -> live stream', 'src/module/stream/sps_stream_cache.hpp')],
      mech=[('lookup-then-insert with no coroutine switch', 'publish handlers and the edge'), ('role and format tests before registration', 'publish handlers, edge start')],
      observe=['registry entries', 'reply to the publisher'],
      technique='path-wise dataflow over resolved ASTs: lookup-before-insert typestate with yield-free interval, guard dominance',
      note=ENGINE),
 dict(id='P05', title='A live source that ends gives back its name, exactly once, and only its own',
      statement='Whenever a source stops being live - its input ends, a read or decode fails, it is stopped, or it fails after registering - '
                'the name it registered becomes free again on every path, so the next publisher or pull is admitted. '
                'A source never removes a name that it did not register itself, and after giving the name back it cannot take away a later source\'s registration.',
      over=['schedules', 'fault_sequences', 'histories'],
      quant='every exit path (normal end, every failure after registration, stop by the supervisor, destruction) of every kind of source',
      why='no test ever registers a live stream, so no exit path after a registration is ever run',
      files=['src/module/stream/sps_stream_cache.cpp', 'src/module/rtmp/sps_rtmp_stream_handler.cpp', 'src/module/srt/sps_srt_stream_handler.cpp', 'src/module/stream/sps_stream_edge.cpp'],
      state=[('live stream registry', 'name -> live stream', 'src/module/stream/sps_stream_cache.hpp')],
      mech=[('erase on every path after put', 'publish handlers and the edge'), ('the edge forgets its stream when released', 'src/module/stream/sps_stream_edge.cpp')],
      observe=['registry entries after the source ended'],
      technique='path-wise dataflow: acquire/release typestate of registry entries over every exit path and destructor',
      note=ENGINE),
 dict(id='P06', title='A viewer that leaves is unsubscribed from the stream it joined',
      statement='Every viewer that was attached to a live stream is detached again, from that same stream, on every path on which its '
                'playing ends - normal end, failing write, failing read, failing setup after attaching. '
                'So the set of subscribers of a stream never contains a viewer whose connection is gone beyond its next packet.',
      over=['schedules', 'fault_sequences', 'histories'],
      quant='every way a viewer can end, on every protocol, at every point after it was attached',
      why='no test ever attaches a viewer to a stream',
      files=['src/module/stream/sps_stream_handler.cpp', 'src/module/srt/sps_srt_stream_handler.cpp', 'src/module/rtmp/sps_rtmp_stream_handler.cpp', 'src/cache/sps_cache.cpp'],
      state=[('subscribers', 'weak references of a stream\'s viewers', 'src/cache/sps_cache.hpp')],
      mech=[('unsubscribe after the play loop', 'play handlers')], observe=['subscriber list of the stream'],
      technique='path-wise dataflow: subscribe/unsubscribe typestate with object identity',
      note=ENGINE),
 dict(id='P07', title='The relay cache holds the newest headers and the current picture group, complete',
      statement='A stream\'s cache keeps the newest metadata, audio header and video header (the newest program tables when a transport stream is relayed raw) '
                'and every packet since the last key frame (payload start) in arrival order, and nothing older; a key frame starts it over. '
                'A viewer that joins is given the kept headers first and then the whole current picture group in order, and taking the snapshot does not change the cache. '
                'Every packet that enters the cache is handed on to the subscribers exactly once.',
      over=['inputs', 'histories'],
      quant='every sequence of packets of every class, and a viewer joining after any prefix of it',
      why='no test puts packets into a cache; the order and mix of packet classes is unbounded',
      files=['src/avformat/sps_avformat_cache.cpp', 'src/avformat/sps_avformat_packet.cpp', 'src/avformat/sps_avformat_tsdec.cpp', 'src/cache/sps_cache.cpp'],
      state=[('picture list', 'packets since the last key frame', 'src/avformat/sps_avformat_cache.hpp'), ('header members', 'newest header of each class', 'src/avformat/sps_avformat_cache.hpp')],
      mech=[('put', 'the cache classes'), ('dump', 'the cache classes'), ('packet class predicates', 'src/avformat/sps_avformat_packet.cpp')],
      observe=['what a joining viewer is sent'],
      technique='abstract interpretation of put/dump on symbolic packet classes; inductive step over the list value, class predicates evaluated over the whole tag domain',
      note=ENGINE),
 dict(id='P08', title='Every packet reaches every attached viewer once, in order, without a gap',
      statement='A viewer receives the snapshot taken when it joined followed by every packet its stream\'s source delivered after that, each exactly once and in order, '
                'until its own connection fails or no packet arrives within its time limit. '
                'A packet that arrives wakes every waiting viewer; neither another viewer\'s leaving or failing, nor packets published while a viewer is busy sending, nor its joining between two packets, makes a viewer miss or repeat one. '
                'Every packet a source reads successfully is delivered, until a read fails or the source is stopped.',
      over=['schedules', 'histories', 'fault_sequences'],
      quant='every interleaving of the source with any number of viewers joining, sending, waiting, failing and leaving',
      why='the tests call put and dump on two caches from one thread of control; no viewer loop, no waiting and no concurrent leaving is reached',
      files=['src/sys/sps_sys_sync.hpp', 'src/sys/st/sps_sys_st_sync.hpp', 'src/cache/sps_cache.hpp', 'src/avformat/sps_avformat_cache.cpp', 'src/module/stream/sps_stream.cpp', 'src/module/stream/sps_stream_cache.hpp', 'src/module/srt/sps_srt_stream_handler.cpp'],
      state=[('subscriber set', 'weak references to the viewers\' queues', 'src/sys/sps_sys_sync.hpp'), ('viewer queue', 'packets not yet sent', 'src/cache/sps_cache.hpp')],
      mech=[('publish walk', 'src/sys/sps_sys_sync.hpp'), ('take-all then send', 'src/module/stream/sps_stream.cpp'), ('subscribe and snapshot with no switch in between', 'src/module/stream/sps_stream_cache.hpp')],
      observe=['packets written to each viewer'],
      technique='path-wise dataflow per loop iteration: coverage of the subscriber/queue walks, yield-free intervals, exactly-once send and put',
      note=ENGINE + ' Element counts are taken to stay below 2^31.'),
 dict(id='P09', title='A request is served by the host block the configuration names for its host',
      statement='The host block that serves a request is the one whose configured name equals the request\'s host; failing that, the one whose wildcard is the longest suffix of it; failing that, the default host of that port. '
                'Every host block of every server block of a port takes part, and none is lost or replaced by merging, by another port, or by earlier requests; the same choice is made for the certificate of a TLS connection and for every request of a connection. '
                'A request is handed to the handler of the kind its host block is configured for, on a connection it opens upstream for that host block only.',
      over=['configurations', 'inputs', 'histories'],
      quant='every configuration of server and host blocks and every request host, on every protocol',
      why='the tests build no router and start no server; the tree has no test for host names at all',
      files=['src/module/host/sps_host_module.cpp', 'src/module/server/sps_server_module.cpp', 'src/module/http/sps_http_server.cpp', 'src/module/host/sps_host_phase_handler.cpp'],
      state=[('routers', 'the host blocks of a port by name, wildcard and default', 'src/module/host/sps_host_module.hpp')],
      mech=[('register, find and merge', 'the router'), ('routing phase', 'every protocol\'s server')],
      observe=['the host block chosen for a request'],
      technique='path-wise dataflow: reaching definitions of the chosen host block, lookup order and key derivation along every path',
      note=ENGINE),
 dict(id='P10', title='An HTTP message is read up to its end: not further, not short',
      statement='The header of a request or response is read exactly up to its empty line, and only one that was read and parsed completely is used; its length and framing are those it names, whatever the case of the names. '
                'A body is read exactly as framed: never a byte more than its length or chunk, every byte passed on once and in order, chunk lengths and chunk ends verified. '
                'The end of a body is reported only when it was reached; whatever is malformed or cut short is an error, and what follows on the connection is left untouched.',
      over=['inputs', 'schedules'],
      quant='every header and body text, every way it is cut into reads, every buffer size the caller reads with',
      why='the tests parse one complete header and never read a body; they cannot cover the positions at which a read may cut a message',
      files=['src/module/http/sps_http_parser.cpp', 'src/module/http/sps_http_socket.cpp', 'src/io/url/sps_io_url_http.cpp', 'src/io/url/sps_io_url.cpp'],
      state=[('progress of the body', 'bytes read / bytes left of the chunk / end reached', 'src/module/http/sps_http_socket.hpp')],
      mech=[('reads that depend on the last four bytes', 'HttpParser::parse_header'), ('read, read_chunked_*', 'HttpRequestSocket and HttpUrlProtocol')],
      observe=['bytes passed on', 'the next byte read from the connection', 'the answer at the end'],
      technique='path-wise symbolic dataflow of the readers with linear facts: case analysis of all 81 endings of the header per loop iteration, byte accounting and end-of-body typestate on every path of read',
      note=ENGINE + ' The external http_parser is trusted for the text of the header; its number of consumed bytes and its error answer are not ignored. Chunk extensions and trailers are outside.'),
 dict(id='P11', title='Every HTTP message sent is framed once, complete and ends recognisably',
      statement='Every response and forwarded request that is sent has one header that ends with its only empty line, names exactly one framing of its body and is sent before it; copied headers never add a second one. '
                'A body is forwarded piece by piece, each once, with its own length and in its own chunk; the proxy answers success only after the end of the body. '
                'A connection stays open only after one response whose end the client can tell, handlers run in order until one has served the request, and the unread rest of one request is never taken for the next.',
      over=['inputs', 'histories', 'fault_sequences'],
      quant='every response, every list of headers, every sequence of pieces and failures, every sequence of requests on a connection',
      why='no test sends an HTTP response or forwards a body; no test sends two requests on one connection',
      files=['src/module/http/sps_http_socket.cpp', 'src/io/url/sps_io_url_http.cpp', 'src/module/http/sps_http_proxy_phase_handler.cpp', 'src/module/http/sps_http_stream_phase_handler.cpp', 'src/module/http/sps_http_phase_handler.cpp', 'src/module/server/sps_server_handler.cpp'],
      mech=[('write_header and write', 'HttpResponseSocket'), ('the copying loop', 'HttpProxyPhaseHandler'), ('phases', 'ServerPhaseHandler')],
      observe=['the bytes sent to the client and to the upstream', 'whether the connection is kept'],
      technique='path-wise dataflow: text reconstruction of string streams on every path, order typestate of header/size/data/end, read-write pairing of the relay loop, answer analysis of the handlers',
      note=ENGINE + ' The text that a form other than streams, string concatenation or literals produces is not reconstructed (its order and length still are).'),
 dict(id='P12', title='Wire headers are read at the positions and widths of their standards',
      statement='Every field of an MPEG-TS packet, adaptation field, section, program map, PES header, ADTS header, RTP header and payload header, '
                'and RTCP packet is taken from exactly the bits its standard gives it, for every combination of optional parts and every count and length: '
                'no optional part is missed or read when it is absent, and no value is cut by what it is kept in. '
                'Repeated parts are read as often as their count or length says.',
      over=['inputs'],
      quant='every path through a header decoder that has enough input: every combination of flags, counts and lengths',
      why='the tests decode a few recordings, in which most optional parts never occur and the times stay small',
      files=['src/avformat/sps_avformat_ts.cpp', 'src/avformat/sps_avformat_ts.hpp', 'src/avformat/sps_avformat_rtp.cpp',
             'src/avformat/sps_avformat_rtpdec_rtcp.cpp', 'src/avformat/sps_avformat_rtpdec_h264_hevc.cpp', 'src/avformat/sps_avformat_rtpdec_aac.cpp',
             'src/avcodec/sps_avcodec_aac_parser.cpp'],
      state=[('bit reader', 'the position in the header', 'src/io/sps_io_bits.cpp')],
      mech=[('decode', 'src/avformat/sps_avformat_ts.cpp'), ('psi_decode', 'src/avformat/sps_avformat_ts.cpp'), ('RtpPayloadHeader', 'src/avformat/sps_avformat_rtp.cpp')],
      observe=['the decoded members', 'where the payload begins'],
      technique='path-wise dataflow to the level of single bits (which bit of which read each stored value consists of), matched against the layout '
                'tables of the standards, with branch facts deciding the optional parts and loop induction deciding the repeated ones',
      note=ENGINE + ' The tables are transcribed by hand. In the PES header at most a few optional parts are looked at together once the paths '
                    'become too many (they are independent of each other). SDES chunks are decided for their first item only; HEVC and what is inside '
                    'the elementary streams are outside.'),
 dict(id='P13', title='An answer that may be absent is never used as if it were there',
      statement='Wherever a search, a factory, an accept, a library call or a weak reference may answer that there is nothing (an unknown '
                'program, codec, protocol, host or stream, an upstream without a response, a failed accept or name look-up), the program '
                'finds that out before it follows the answer, computes with it, keeps it for a method that follows it, or hands it to '
                'something that does. So no such absence, which remote input or a concurrent disappearance can bring about, ends the process.',
      over=['inputs', 'schedules', 'histories'],
      quant='every path of every function, and every answer that some implementation may give as null',
      why='the absent answers come from unusual input (unknown pids, reserved payload types, names without host block), from exhausted '
          'descriptors and from streams that end between two look-ups; the tests only look up what is there',
      files=['src/avformat/sps_avformat_ts.cpp', 'src/module/stream/sps_stream_handler.cpp', 'src/module/stream/sps_stream_edge.cpp',
             'src/module/server/sps_server.cpp', 'src/module/http/sps_http_proxy_phase_handler.cpp', 'src/module/host/sps_host_module.cpp',
             'src/sys/st/io/sps_sys_st_io_tcp.cpp', 'src/avformat/sps_avformat_rtpdec_h264_hevc.cpp'],
      state=[('answers', 'the results of searches and factories', 'src/module/stream/sps_stream_cache.hpp')],
      mech=[('nullness', 'which functions may answer null, which parameters are followed')],
      observe=['the process goes on and the caller gets an error'],
      technique='nullness dataflow: fixpoint of the functions that may answer null and of the parameters and members that are followed; '
                'every dereference, pointer computation and hand-over needs a non-null fact on each path, with the functions involved '
                'expanded where a local view is not enough',
      note=ENGINE + ' Members that are set late by protocol (a connection context before its handlers, the FFmpeg contexts) and out '
                    'parameters are outside, as is exhausted memory. The host search is taken to answer null by its role.'),
 dict(id='P14', title='Remote input never reaches a format string, and every report fits its buffer',
      statement='The format of every log line and formatted message is a text of the program, never text from a request, a stream or the configuration. '
                'Its conversions agree in number and type with the arguments that are passed, and texts passed to it are terminated. '
                'A formatted write never exceeds the buffer it goes to, however long the arguments are.',
      over=['inputs'],
      quant='every call of a formatting function, for every value of its arguments',
      why='the tests log a few short fixed lines; no test logs a text with a percent sign or one longer than the log buffer',
      files=['src/log/sps_log.cpp', 'src/log/sps_log.hpp', 'src/sys/st/io/sps_sys_st_io_tcp.cpp', 'src/avformat/sps_avformat_rtpdec_rtcp.cpp'],
      mech=[('level macros', 'src/log/sps_log.hpp'), ('the line buffer', 'src/log/sps_log.cpp')],
      observe=['memory behind the buffer', 'the log'],
      technique='query over every resolved formatting call: literal formats through wrappers, conversion/argument agreement, size of destination against size argument',
      note='Decides every call of the C formatting functions and of the wrappers found by following formats upwards. Trusts clang\'s types and the list of functions that answer terminated texts.'),
 dict(id='P15', title='Every configured value reaches its setting; malformed text is refused',
      statement='Every option a block of the configuration offers writes, whole and in its own type, the one member of that block\'s settings that bears its name, and an option that is left out has its declared default. '
                'Every line is read as what it is: an item sets its option with its own text, a nested block is created by its name, read and handed to its parent once, a closing brace ends exactly one nested block. '
                'A malformed line, a value or default that cannot be set, an unknown or failing nested block, and a file that ends inside a block make the start fail; none of them is silently accepted.',
      over=['configurations', 'inputs'],
      quant='every configuration text, every option of every option table',
      why='the tests read one small configuration and look at a few of its values; most options, types and all malformed inputs are never read',
      files=['src/module/sps_module.cpp', 'src/module/sps_module_opt.cpp', 'src/module/server/sps_server_module.hpp', 'src/module/host/sps_host_module.hpp', 'src/module/upstream/sps_upstream_module.hpp'],
      state=[('settings', 'the configuration object of a block', 'src/module/sps_module.hpp')],
      mech=[('option tables', 'the module headers'), ('init_conf', 'src/module/sps_module.cpp'), ('opt_set', 'src/module/sps_module_opt.cpp')],
      observe=['the settings after reading', 'the answer of init_conf'],
      technique='query over the resolved option tables against record layouts; path-wise dataflow of init_conf, set_default, opt_set and parse per general loop iteration',
      note=ENGINE + ' How the words of a line are split is the stream extraction of the C++ library and is not modelled further.'),
 dict(id='P16', title='Nothing that arrives from outside ends the process',
      statement='No request, stream, packet or peer behaviour makes the server exit, abort or throw. '
                'Text that came from outside is cut only at positions known to lie inside it, elements are taken only from containers known to hold some, '
                'iterators are followed only when they are known not to be at the end and not after an erase, and no number that may be 0 divides.',
      over=['inputs', 'schedules', 'histories'],
      quant='every path of every function that a connection handler can reach',
      why='the tests hand in well-formed names, URLs and stream ids, and one coroutine at a time takes from a queue',
      files=['src/io/url/sps_io_url.cpp', 'src/module/srt/sps_srt_server_handler.cpp', 'src/module/host/sps_host_module.cpp',
             'src/sys/st/io/sps_sys_st_io_ssl.cpp', 'src/sys/st/io/sps_sys_st_io_udp.cpp', 'src/avformat/sps_avformat_ffmpeg_enc.cpp'],
      state=[('queues', 'connections and packets waiting to be taken', 'src/sys/st/io/sps_sys_st_io_udp.cpp')],
      mech=[('handlers', 'the roots of what a connection can reach'), ('parse_url', 'src/io/url/sps_io_url.cpp')],
      observe=['the process goes on'],
      technique='reachability over the resolved call graph from every handler; path-wise dataflow of the facts each cut, take, iterator use and '
                'division needs, with loop positions by induction and, where a function relies on its callers, every caller',
      note=ENGINE + ' Takes http_parser\'s promise that the parts of a URL it reports lie inside the text. Null pointers are P13, sizes P01; '
                    'signals, recursion depth and exhausted memory are outside.'),
 dict(id='P17', title='An FLV tag states the sizes, times and kind of what it carries',
      statement='Every FLV tag that is sent states exactly the number of bytes that follow its head, the size of the tag before it, all 32 bits of the '
                'time, the distance of the two times, and the type of its packet; command frames are one byte of head. '
                'Every tag that is read becomes a packet of the same kind, times, flags and data, and exactly the stated size is consumed, '
                'so that the next tag begins where this one ends.',
      over=['inputs', 'histories'],
      quant='every path that sends or reads a tag: every kind of packet, size, time and flags, after any tags before',
      why='the tests copy one recording, whose times fit into 24 bits and which has no command frames',
      files=['src/avformat/sps_avformat_flvenc.cpp', 'src/avformat/sps_avformat_flvdec.cpp'],
      state=[('previous_size', 'the size of the tag sent last', 'src/avformat/sps_avformat_flvenc.hpp')],
      mech=[('write_packet', 'src/avformat/sps_avformat_flvenc.cpp'), ('read_packet', 'src/avformat/sps_avformat_flvdec.cpp')],
      observe=['the bytes a viewer receives', 'the packets an upstream FLV becomes'],
      technique='path-wise dataflow: the head is reconstructed byte by byte as bits of the values it is computed from (back-patched size included) and '
                'compared with the format; the reader likewise',
      note=ENGINE + ' The FLV file header and what is inside the packets are not looked at. The sign of the 24 bit distance is decided by evaluating '
                    'the expression of the source at its corner values, modulo 2^32.'),
 dict(id='P18', title='A peer that stalls is given up within the configured time',
      statement='A connection whose peer neither sends nor takes anything is closed when the time configured for it has passed, and no connection that makes progress in time is closed.',
      over=['schedules', 'faults'],
      quant='every connection, every pause of its peer, every load of the server',
      why='the tests never let a peer stall',
      files=['src/module/server/sps_server.cpp', 'src/sys/st/io/sps_sys_st_io_tcp.cpp'],
      state=[('deadline', 'the timeouts of a socket', 'src/module/server/sps_server.cpp')],
      mech=[('set_recv_timeout', 'src/module/server/sps_server.cpp')],
      observe=['when the connection is closed'],
      na='quantifies over real time: the deadline is kept by the state-threads library (its scheduler and clock are outside the tree), and whether a peer '
         'makes progress is a runtime quantity; the source only shows that a number is handed on, which P15 decides for the setting'),
 dict(id='P19', title='A slow viewer does not hold up the others',
      statement='The delay between a packet of a publisher and its delivery to one viewer does not depend on how slowly any other viewer takes its packets.',
      over=['schedules', 'histories'],
      quant='every number of viewers and every speed of each',
      why='the tests attach one viewer',
      files=['src/module/stream/sps_stream_edge.cpp', 'src/module/stream/sps_stream.cpp'],
      state=[('queues', 'packets waiting for a viewer', 'src/module/stream/sps_stream_edge.cpp')],
      mech=[('StreamEdge', 'src/module/stream/sps_stream_edge.cpp')],
      observe=['arrival times at the viewers'],
      na='a bound on delays: it depends on how long coroutines run between waits and on the scheduler of the state-threads library, neither of which a '
         'sound static argument in reach bounds; that no packet is lost or reordered meanwhile is P08'),
 dict(id='P20', title='Pictures and sound survive a change of container unchanged',
      statement='The elementary streams taken out of a transport stream or RTP session and sent on as FLV decode to the same pictures and sound, in the same order and at the same times.',
      over=['inputs', 'histories'],
      quant='every valid stream of every supported codec',
      why='the tests copy a few recordings within one container',
      files=['src/avformat/sps_avformat_tsdec.cpp', 'src/avcodec/sps_avcodec_h264_parser.cpp', 'src/avcodec/sps_avcodec_aac_parser.cpp'],
      state=[('parsers', 'parameter sets and pending units', 'src/avcodec/sps_avcodec_h264_parser.cpp')],
      mech=[('encode_avc', 'src/avcodec/sps_avcodec_h264_parser.cpp')],
      observe=['the decoded pictures'],
      na='equality of what decoders make of unbounded byte sequences before and after reassembly: needs the contents of buffers across any number of '
         'packets, which the abstractions used here forget; the headers on both sides are P12 and P17, bounds P01'),
]
