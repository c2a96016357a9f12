NOTEST = 'The existing tests only cover a key map, URL/port/MD5 helpers, multiport naming and 16 fixed configuration lookups; '
p('R01', 'The way a peer splits its RTMP bytes does not change what is received',
  'Whatever legal chunk sizes, chunk header forms, interleavings across chunk streams, size changes in mid-stream, aborts and TCP '
  'segmentation a publisher uses, the messages the server relays to a player are the messages published: same types, timestamps and payload '
  'bytes, in order, once each. A publisher that keeps to the protocol is never disconnected for the way it splits its bytes.',
  ['inputs', 'histories'], 'every message sequence, chunk-size sequence, header compression choice, interleaving and segmentation',
  NOTEST + 'no RTMP byte is ever parsed by a test', [R + 'ngx_rtmp_handler.c', R + 'ngx_rtmp_receive.c'],
  [('chunk reassembly', R + 'ngx_rtmp_handler.c'), ('control messages', R + 'ngx_rtmp_receive.c')], check='r01_chunk_in.py')
p('R02', 'Every RTMP player gets exactly the live stream from its starting point on',
  'Each player of a live stream receives the audio and video published after it joined, byte for byte, in order, without loss, '
  'duplication or foreign frames and with the publisher\'s timestamps, starting with the codec headers in force and, when the server is '
  'configured to wait for key frames, with a key frame. Other players joining, leaving or not reading do not change that.',
  ['histories', 'configurations', 'schedules'], 'every publish history, set of players joining/leaving/stalling at any point, and live configuration',
  NOTEST + 'no test publishes or plays a stream', [R + 'ngx_rtmp_live_module.c', R + 'ngx_rtmp_gop_module.c', R + 'ngx_rtmp_codec_module.c', R + 'ngx_rtmp_send.c', R + 'ngx_rtmp_handler.c', R + 'ngx_rtmp_shared_module.c'],
  [('fan-out', R + 'ngx_rtmp_live_module.c'), ('chunk encoding', R + 'ngx_rtmp_handler.c'), ('shared frames', R + 'ngx_rtmp_shared_module.c')],
  check='r02_fanout.py')
p('R03', 'RTMP handshake and session commands are answered as the protocol says',
  'A client using the plain or either digest handshake gets a valid reply bound to its own bytes, and connect, createStream, publish, play, '
  'pause, deleteStream and ping are answered with the right reply, transaction id and stream, in any legal order and repetition. '
  'A handshake that is not valid is refused without harm to other sessions.',
  ['inputs', 'histories'], 'every handshake content and segmentation, every order of session commands', NOTEST + 'no handshake is tested',
  [R + 'ngx_rtmp_handshake.c', R + 'ngx_rtmp_cmd_module.c', R + 'ngx_rtmp_receive.c', R + 'ngx_rtmp_send.c'],
  [('digest', R + 'ngx_rtmp_handshake.c'), ('command dispatch', R + 'ngx_rtmp_cmd_module.c')], check='r03_session.py')
p('R04', 'One publisher per stream: the second is refused and the first is not disturbed',
  'While a stream is being published a second publisher of the same application and name is refused, and the stream continues undisturbed; '
  'streams differing in application, server or name never mix, and once the publisher leaves the name can be published again with players '
  'that stayed getting the new stream. No order of publishing, playing, closing and reconnecting crashes the server or leaves state behind.',
  ['histories', 'schedules'], 'every history of sessions publishing, playing and leaving', NOTEST + 'no session life cycle is tested',
  [R + 'ngx_live.c', R + 'ngx_rtmp_live_module.c', R + 'ngx_rtmp_cmd_module.c', R + 'ngx_rtmp_init.c'],
  [('stream table', R + 'ngx_live.c'), ('publish/play/close', R + 'ngx_rtmp_cmd_module.c')], check='r04_publish.py')
p('R05', 'A late joiner starts from the cached GOPs, complete and in order',
  'With GOP caching on, a player that joins a running stream first receives the codec headers in force and the cached tail of the stream '
  'starting at a key frame, then the live stream, with no gap, repetition or reordering between them. The cache never serves data of an '
  'earlier publication or of another stream.', ['histories', 'configurations'], 'every publish history, join point and cache configuration',
  NOTEST + 'no stream is played', [R + 'ngx_rtmp_gop_module.c', R + 'ngx_rtmp_live_module.c'],
  [('GOP cache', R + 'ngx_rtmp_gop_module.c')], check='r05_gop.py')
p('R06', 'Stream metadata reaches players as published, rebuilt or not, as configured',
  'Depending on the configuration a player gets the publisher\'s metadata unchanged, rebuilt from the announced values, or none; a late '
  'joiner gets the latest metadata before any media.', ['inputs', 'histories', 'configurations'], 'every metadata content, order and meta setting',
  NOTEST + 'no metadata is sent', [R + 'ngx_rtmp_codec_module.c', R + 'ngx_rtmp_live_module.c'], [('metadata', R + 'ngx_rtmp_codec_module.c')], check='r06_meta.py')
p('R07', 'HTTP-FLV delivers a well-formed FLV of the live stream',
  'A client that fetches a live stream over HTTP-FLV gets a well-formed FLV file - header, tags with correct sizes, back pointers and '
  'timestamps, chunked or not - whose tags are the published audio and video from its starting point on, with the codec headers in force first.',
  ['histories', 'configurations', 'inputs'], 'every publish history and join point', NOTEST + 'no FLV byte is produced by a test',
  [R + 'http/ngx_http_flv_live_module.c', R + 'ngx_rtmp_live_module.c', R + 'ngx_rtmp_gop_module.c'], [('tag writer', R + 'http/ngx_http_flv_live_module.c')], check='r07_flv.py')
p('R08', 'No bytes a client sends can crash the server or disturb another session',
  'Whatever bytes a client sends on an RTMP connection - malformed handshakes, chunks, commands, metadata or codec data - the server neither crashes '
  'nor touches memory it does not own, and other sessions keep being served correctly.',
  ['inputs', 'histories', 'fault_sequences'], 'every byte sequence sent by a client, cut at any point', NOTEST + 'no malformed input is sent',
  [R + 'ngx_rtmp_handler.c', R + 'ngx_rtmp_receive.c', R + 'ngx_rtmp_amf.c', R + 'ngx_rtmp_codec_module.c', R + 'ngx_rtmp_cmd_module.c'],
  [('parsing', R + 'ngx_rtmp_handler.c'), ('AMF', R + 'ngx_rtmp_amf.c'), ('codec headers', R + 'ngx_rtmp_codec_module.c')], check='r08_hostile.py')
p('R09', 'A player on any worker process gets the stream published on any other',
  'When the server runs several worker processes, a player sees the same stream - same frames, order and content - whichever worker accepted it and '
  'whichever worker the publisher is connected to; the relay between workers ends when nobody needs it.',
  ['histories', 'schedules', 'configurations'], 'every placement of publishers and players on workers and join/leave order', NOTEST + 'no multi-worker stream is tested',
  [R + 'ngx_live_relay_inner.c', R + 'ngx_live_relay.c', R + 'ngx_live_relay_rtmp.c', M + 'ngx_event_multiport_module.c', M + 'ngx_stream_zone_module.c'],
  [('owner lookup', M + 'ngx_stream_zone_module.c'), ('inner relay', R + 'ngx_live_relay_inner.c')])
p('R10', 'Configured push and pull relays carry the stream unchanged',
  'A push relay forwards a published stream, and a pull relay fetches a requested one, to and from the configured server under the configured application and name, '
  'with the media unchanged and in order, reconnecting after the peer fails and stopping when the stream ends.',
  ['histories', 'configurations', 'fault_sequences'], 'every publish history, relay configuration and peer failure', NOTEST + 'no relay is tested',
  [R + 'ngx_live_relay_static.c', R + 'ngx_live_relay_rtmp.c', R + 'ngx_live_relay.c', R + 'ngx_live_relay_simple.c'], [('relay', R + 'ngx_live_relay_static.c')], check='r10_relay.py')
p('R11', 'Recordings are well-formed FLV files that hold exactly what was published',
  'A recorded stream yields well-formed FLV files whose tags are the published audio, video or key frames selected by the configuration, byte for byte, in order, with '
  'timestamps relative to the start of each file, respecting the configured size and frame limits.', ['histories', 'configurations', 'fault_sequences'],
  'every publish history and record configuration', NOTEST + 'nothing is recorded by a test', [R + 'ngx_rtmp_record_module.c'], [('record', R + 'ngx_rtmp_record_module.c')], check='r11_record.py')
p('R12', 'HLS playlists and segments carry the published stream',
  'With HLS on, every playlist is well formed and lists existing segments in order with correct durations and sequence numbers, and the segments demultiplex as valid MPEG-TS '
  'into exactly the published audio and video access units with their timestamps, in order, split at key frames.', ['histories', 'configurations', 'crash_points'],
  'every publish history and HLS configuration', NOTEST + 'no segment is produced by a test', [R + 'hls/ngx_rtmp_hls_module.c', R + 'hls/ngx_rtmp_mpegts.c'],
  [('segmenter', R + 'hls/ngx_rtmp_hls_module.c'), ('TS muxer', R + 'hls/ngx_rtmp_mpegts.c')], check='r12_hls.py')
p('R13', 'HTTP-TS players get the live stream as valid MPEG-TS',
  'A client that fetches a live stream as MPEG-TS over HTTP gets a program map followed by valid transport stream packets (continuity counters, adaptation fields, PES lengths) that demultiplex into the '
  'published H.264 or HEVC and AAC access units: each once, in order, with its presentation and decoding time (negative composition times included) and the parameter sets and ADTS headers of the '
  'configuration in force. A player that joins late starts at the cached pictures and misses nothing sent after it joined, including audio still buffered when the publisher ends; frames of refused '
  'or finished publishers never reach it, and it lives through later publications of the name.', ['histories', 'configurations'], 'every publish history and join point',
  NOTEST + 'no TS byte is produced by a test', [R + 'mpegts/ngx_mpegts_live_module.c', R + 'mpegts/ngx_mpegts_http_module.c', R + 'mpegts/ngx_mpegts_gop_module.c',
  R + 'hls/ngx_rtmp_mpegts.c'], [('TS muxer', R + 'mpegts/ngx_mpegts_live_module.c')], check='r13_ts.py')
p('R14', 'DASH manifests and fragments carry the published stream',
  'With DASH on, the manifest is well formed and its timeline describes existing fragments, and the init and media fragments are well-formed MP4 whose samples are exactly the published '
  'audio and video frames with their timestamps.', ['histories', 'configurations'], 'every publish history and DASH configuration', NOTEST + 'no fragment is produced by a test',
  [R + 'dash/ngx_rtmp_dash_module.c', R + 'dash/ngx_rtmp_mp4.c'], [('fragmenter', R + 'dash/ngx_rtmp_dash_module.c')])
p('R20', 'HLS served from memory lists and delivers the live stream',
  'An HLS session of a live stream (through the master playlist, which names a session of its own, or with a given session name; waiting requests included) gets a playlist once the configured number of '
  'segments is complete: a window of the configured size, its media sequence number, durations that match the timestamps and do not exceed the target duration, a discontinuity mark only at the first '
  'segment, addresses that can be fetched whatever the stream is called. Each listed segment is complete, valid MPEG-TS that begins with a key frame when it was cut at one, and the segments of a session in order '
  'hold the published access units, each once, from a key frame on and including all sent after the session began. A segment that is incomplete or out of the window is not served; answers to HEAD have no '
  'body; slow downloads, closed sessions, odd requests and the end of the publisher do no harm.', ['histories', 'configurations'], 'every publish history, session and request order',
  NOTEST + 'no HLS request is made by a test', [R + 'mpegts/ngx_hls_live_module.c', R + 'mpegts/ngx_hls_http_module.c', R + 'mpegts/ngx_mpegts_gop_module.c'],
  [('HLS segmenter', R + 'mpegts/ngx_hls_live_module.c'), ('HLS requests', R + 'mpegts/ngx_hls_http_module.c')], check='r20_hls2.py')
p('R15', 'Notification hooks are called once per event and their answer is obeyed',
  'With notification URLs configured, every publish, play, stream and codec-metadata event calls its URL exactly once per configured stage (start, periodic update while it lasts, done), '
  'with the session\'s own values escaped as one query argument each; a publisher or player gets no stream and is given none before the answer, a 2xx answer lets it go on, and anything else, '
  'a lost answer or a timeout refuses it (unless invalid answers are ignored).', ['histories', 'configurations', 'fault_sequences'],
  'every order of session events and answers of the hook server', NOTEST + 'no hook is called', [R + 'ngx_rtmp_notify_module.c', R + 'ngx_netcall.c', C + 'ngx_http_client.c'],
  [('notify', R + 'ngx_rtmp_notify_module.c')], check='r15_notify.py')
p('R16', 'Access rules and limits admit exactly the sessions they allow',
  'A session may publish or play exactly when the first matching allow/deny rule for its address and action allows it, and no more sessions are served at once than the configured maximum.',
  ['configurations', 'inputs', 'histories'], 'every rule list, address and action, every connection history', NOTEST + 'no rule is evaluated',
  [R + 'ngx_rtmp_access_module.c', R + 'ngx_rtmp_limit_module.c'], [('rules', R + 'ngx_rtmp_access_module.c'), ('limit', R + 'ngx_rtmp_limit_module.c')], check='r16_access.py')
p('R17', 'Control requests act on exactly the sessions and recordings they name',
  'A control request to drop a publisher, subscribers or clients, or to start or stop recording, acts on every session matching its server, application, stream, address and client filters and on no other, '
  'and reports the number it acted on.', ['histories', 'inputs'], 'every set of sessions and control request', NOTEST + 'no control request is sent',
  [R + 'ngx_rtmp_control_module.c'], [('walk', R + 'ngx_rtmp_control_module.c')], check='r17_control.py')
p('R18', 'The statistics page is well formed and tells the truth about the sessions',
  'The statistics page is well-formed XML whatever names clients use, and lists exactly the streams, publishers and players that exist, with their counters and codec parameters.',
  ['histories', 'inputs'], 'every set of sessions and names', NOTEST + 'the page is never fetched', [R + 'ngx_rtmp_stat_module.c'], [('stat', R + 'ngx_rtmp_stat_module.c')], check='r18_stat.py')
p('R19', 'Codec parameters read from sequence headers are right',
  'The width, height, frame rate, profile, level, sample rate and channel count the server derives from H.264, H.265 and AAC sequence headers are those the headers encode.',
  ['inputs'], 'every valid sequence header', NOTEST + 'no header is parsed', [R + 'ngx_rtmp_codec_module.c', R + 'ngx_rtmp_bitop.c'], [('header parsing', R + 'ngx_rtmp_codec_module.c')], check='r19_codec.py')
p('C01', 'The ordered key map behaves as a map', 'After any sequence of insertions, deletions and look-ups the map holds exactly the live keys, finds each one, counts them and iterates over them once each in order.',
  ['histories'], 'every operation sequence and key distribution', 'The existing test inserts 11 fixed nodes once; it cannot cover histories, collisions or iteration during change',
  [T + 'ngx_map.c'], [('map', T + 'ngx_map.c')], check='c01_map.py')
p('C02', 'Reference-counted buffers and pooled memory are never shared or lost',
  'A buffer handed out is exclusively its owner\'s until it is given back, has the requested capacity, is recycled when given back, and no operation sequence corrupts or loses it.',
  ['histories'], 'every sequence of get/put/link operations', NOTEST + 'buffers are not tested', [T + 'ngx_rbuf.c', T + 'ngx_poold.c'], [('rbuf', T + 'ngx_rbuf.c')], check='c02_rbuf.py')
p('C03', 'Timers fire once each, when due and in order', 'Every timer that was added and not deleted fires exactly once, not before its time, in due order, and a deleted timer never fires.',
  ['histories', 'schedules'], 'every sequence of timer additions, deletions and clock steps', NOTEST + 'timers are not tested', [T + 'ngx_timerd.c', T + 'ngx_event_timer_module.c'], [('timerd', T + 'ngx_timerd.c')], check='c03_timer.py')
p('C04', 'URLs, addresses and ports are split into their parts correctly',
  'Parsing a URL or request line yields exactly its scheme, user, host, port, path, arguments and fragment as RFC 3986 places the boundaries, rejects what is not one, and address and port helpers agree with the text they are given.',
  ['inputs'], 'every string', 'The existing tests try 26 fixed strings and no string outside them', [T + 'ngx_toolkit_misc.c', M + 'ngx_multiport_misc.c'], [('parser', T + 'ngx_toolkit_misc.c')], check='c04_misc.py')
p('C05', 'AMF0 values survive encoding and decoding', 'Decoding an AMF0 encoding yields the value that was encoded for every type the server supports, whatever unknown fields surround it and however the bytes are split over buffers; malformed input is rejected without reading outside it.',
  ['inputs'], 'every value tree, target description and buffer split', NOTEST + 'AMF is not tested', [R + 'ngx_rtmp_amf.c'], [('codec', R + 'ngx_rtmp_amf.c')], check='c05_amf.py')
p('C06', 'Per-host dynamic configuration answers with the best match after every reload',
  'A look-up of a host in the dynamic configuration returns the values of the entry that matches it best, falls back to the default otherwise, and after the file changes answers from the new file, keeping the old one when the new one is broken.',
  ['inputs', 'histories'], 'every configuration file, host and reload sequence', '16 look-ups on one fixed file are tested', [T + 'ngx_dynamic_conf.c', T + 'ngx_http_dynamic.c', R + 'ngx_rtmp_dynamic.c'], [('look-up', T + 'ngx_dynamic_conf.c')], check='c06_dynconf.py')
p('C07', 'The dynamic resolver answers with current addresses', 'A configured name resolves to the addresses the DNS last gave for it, selected as configured, and its users keep working across changes and failures of the DNS server.',
  ['histories', 'fault_sequences'], 'every DNS answer history', NOTEST + 'resolution is not tested', [T + 'ngx_dynamic_resolver.c', T + 'ngx_event_resolver.c'], [('resolver', T + 'ngx_dynamic_resolver.c')])
p('C08', 'The HTTP client reads any valid response and no invalid one', 'A response is delivered to its caller with the right status, headers and body however it is framed and split; an invalid response is reported as an error and harms nothing.',
  ['inputs', 'fault_sequences'], 'every response byte sequence and segmentation', NOTEST + 'the client is not tested', [C + 'ngx_http_client.c', C + 'ngx_client.c'], [('client', C + 'ngx_http_client.c')], check='c08_httpclient.py')
p('C09', 'JSON text survives parsing and printing', 'Printing a parsed JSON text and parsing it again yields the same value, valid texts are accepted and invalid ones rejected without reading outside them.',
  ['inputs'], 'every text', NOTEST + 'the JSON code is not tested', [R + 'json/cJSON.c'], [('JSON', R + 'json/cJSON.c')], check='c09_json.py')
p('C10', 'Per-worker ports and broadcasts reach exactly the worker they name', 'With per-worker ports each worker listens on its own port or socket path and answers there itself, and a broadcast request is answered once by each worker.',
  ['configurations', 'inputs'], 'every worker count and port form', 'Only the port-name arithmetic has tests, on 14 fixed strings', [M + 'ngx_event_multiport_module.c', M + 'ngx_http_broadcast_module.c', M + 'ngx_http_inner_proxy_module.c', M + 'ngx_process_slot_module.c', M + 'ngx_multiport_misc.c'], [('ports', M + 'ngx_event_multiport_module.c')], check='c10_multiport.py')
p('C11', 'PROXY protocol headers give the session its real address', 'With the PROXY protocol on, a session\'s address is the one in the header, and the bytes that follow the header are the RTMP stream however they are segmented; a malformed header is refused.',
  ['inputs'], 'every header text, every segmentation of the bytes after it', NOTEST + 'no PROXY header is sent', [R + 'ngx_rtmp_proxy_protocol.c'], [('PROXY', R + 'ngx_rtmp_proxy_protocol.c')], check='c11_proxy.py')
p('T01', 'TS ingest over HTTP produces HLS and DASH of the ingested stream', 'A transport stream posted to the server, whatever its packetisation, yields HLS segments and DASH fragments that carry the posted audio and video in order with their timestamps.',
  ['inputs', 'configurations'], 'every valid transport stream', NOTEST + 'no TS is ingested', [S + 'ngx_ts_stream.c', S + 'ngx_ts_hls.c', S + 'ngx_ts_dash.c', S + 'ngx_ts_dash_mp4.c', S + 'ngx_http_ts_module.c'], [('TS parser', S + 'ngx_ts_stream.c')])
