"""The properties, as Python; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
S = 'src/siotls/'
H, I, C, P, F = 'histories', 'inputs', 'configurations', 'programs', 'fault_sequences'
T = ('The tests drive a few complete handshakes and captured vectors: {}.')

P_ = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P_.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': [S + f for f in files],
            'mechanism': [{'name': n, 'where': S + w} for n, w in mech],
            'state': [{'name': n, 'meaning': m, 'where': S + w} for n, m, w in state],
            'observe_at': list(observe), 'hook_needed': None}})


prop('P01', 'A connection is established only after the peer\'s Finished was verified',
     'A connection becomes connected only upon receiving a Finished message whose verify_data '
     'equals the MAC, under the peer\'s finished key, of the complete handshake exchanged so far. '
     'A wrong verify_data fails the connection with decrypt_error. No other message and no public '
     'call ever makes a connection connected.',
     [H, I], 'every sequence of messages and public calls, on both sides',
     'Tests play one honest flight per side; nothing sends messages out of order, forged or '
     'truncated in every state.',
     ['states/client/wait_finished.py', 'states/server/wait_finished.py', 'crypto/ciphers.py',
      'connection.py'],
     [('verify_finish before moving to Connected', 'states/*/wait_finished.py'),
      ('constant time comparison', 'crypto/ciphers.py')],
     [('_state', 'the typestate of the connection', 'connection.py')],
     ['is_connected()', 'is_post_handshake()'])

prop('P02', 'The server proves possession of its key before a client goes on',
     'A client only proceeds past the server\'s CertificateVerify when the signature it carries '
     'verifies, under the public key of the server\'s own certificate (or raw public key) and a '
     'signature scheme the client offered, over the RFC 8446 4.4.3 context string and the hash of '
     'the handshake up to the certificate. Any other outcome of that verification fails the '
     'connection with decrypt_error or illegal_parameter. A server signs the corresponding content '
     'with the private key it is configured with.',
     [H, I], 'every path from Certificate to CertificateVerify, every message',
     'Signatures are checked in tests on one or two key types only and only with honest peers.',
     ['states/client/wait_certificate_verify.py', 'states/server/wait_client_hello.py',
      'crypto/signatures.py'],
     [('signature verification', 'states/client/wait_certificate_verify.py'),
      ('signature production', 'states/server/wait_client_hello.py')])

prop('P03', 'An unauthenticated peer is never accepted when authentication is required',
     'When the configuration has a trust store or trusted public keys, a connection is only '
     'established after the peer\'s X.509 chain was verified against the trust store (for the '
     'requested server name when there is one, the CRL and the OCSP statuses), or its raw public '
     'key was found among the trusted ones, and the certificate is of a type that was negotiated. '
     'This holds on both sides: a server that requires client certificates never '
     'gets connected without one.',
     [H, C, I], 'every configuration with authentication, every certificate message and every '
     'shorter path',
     'Tests never skip or reorder certificate messages and use one valid chain.',
     ['states/client/wait_certificate.py', 'states/client/wait_cert_cr.py',
      'states/server/wait_client_hello.py', 'configuration.py'],
     [('chain, CRL and OCSP verification', 'states/client/wait_certificate.py'),
      ('client authentication request', 'states/server/wait_client_hello.py')])

prop('P04', 'Application data is only exchanged encrypted, on an established connection',
     'Application data is only delivered to the user out of records received while the '
     'connection is established, and only sent while it is established and the sending side open: '
     'in any other state it is refused without emitting a byte. Every record emitted once keys are '
     'established is encrypted, with application keys for application data, and an encrypted '
     'record is only accepted through the AEAD.',
     [H, I], 'every state, message and public call, on both sides',
     'Tests only send application data after an honest handshake.',
     ['connection.py', 'states/connected.py', 'states/closed.py', 'crypto/ciphers.py'],
     [('can_send_application_data', 'states'), ('must_encrypt / must_decrypt', 'crypto/ciphers.py'),
      ('_send_content / _read_next_record', 'connection.py')],
     [('must_encrypt', 'records are encrypted from now on', 'crypto/ciphers.py')])

prop('P05', 'Closed directions stay closed and a failed connection stays failed',
     'Once its sending side is closed a connection never emits anything again but still delivers '
     'what it receives; once its receiving side is closed it accepts nothing more but can still '
     'send; neither is ever re-opened. A failed connection never emits anything again, never '
     'delivers data and never leaves that state. Closing during the handshake never establishes '
     'the connection.',
     [H], 'every sequence of messages and public calls after a close or a failure',
     'Half-closed connections are exercised by one test in one order.',
     ['connection.py', 'states/closed.py', 'states/failed.py', 'states/__init__.py'],
     [('close_receiving_end / close_sending_end / _fail', 'connection.py'),
      ('can_receive / can_send', 'states')],
     [('can_receive, can_send', 'which directions are open', 'states/closed.py')])

prop('P06', 'Any error while processing input fails the connection with a matching alert',
     'Whenever processing received bytes raises, the connection is failed before the exception '
     'reaches the caller: a fatal alert raised by the engine is sent as such, any other '
     'error is sent as internal_error, at most once, and no further input is '
     'processed. A fatal alert from the peer fails the connection without any answer.',
     [I, F], 'every exception raised at any point of the processing of any input',
     'Tests provoke a handful of errors; the rule is about every raise on every path.',
     ['connection.py', 'contents/alerts.py', 'states/__init__.py'],
     [('receive_data exception handlers', 'connection.py'), ('_fail', 'connection.py')],
     (), ['receive_data()', 'data_to_send()'])

prop('P07', 'Malformed input is refused with a TLS alert, never another error',
     'Parsing any sequence of bytes as any TLS content either yields a value or raises a TLS '
     'fatal alert (a decoding error is decode_error): no ValueError, KeyError, IndexError or other '
     'Python error, and no internal_error, can be provoked while reading and parsing the bytes '
     'of a message. '
     'Every enumerated field accepts values unknown to the library where RFC 8446 requires it.',
     [I], 'every byte string given to every parser of records, handshakes, extensions and alerts',
     'Parsers are tested on captured valid messages; the set of byte strings is infinite.',
     ['contents', 'serial.py', 'utils.py', 'connection.py'],
     [('parsers', 'contents'), ('bounded reads', 'serial.py')])

prop('P08', 'Negotiated parameters belong to both offers',
     'Every parameter a connection settles on (cipher suite, key exchange group, signature scheme, '
     'application protocol, certificate types, fragment length, heartbeat mode) is one its own '
     'configuration allows and that the peer\'s message offered or echoed. A server that finds no '
     'common value refuses with the alert RFC 8446 prescribes; a client refuses any value it did '
     'not offer with illegal_parameter. When the peer leaves out an extension the protocol\'s '
     'default applies (X.509 certificates, 2^14 bytes, no application protocol, no heartbeat).',
     [I, C], 'every pair of configuration and peer message',
     'The tests enumerate a few suites and groups between two honest peers.',
     ['states/server/wait_client_hello.py', 'states/client/wait_server_hello.py',
      'states/client/wait_encrypted_extensions.py', 'states/client/start.py'],
     [('negotiation', 'states/server/wait_client_hello.py'),
      ('echo checks', 'states/client')])

prop('P09', 'Only TLS 1.3 is ever negotiated',
     'A server only answers a ClientHello whose supported_versions lists TLS 1.3, and otherwise '
     'fails with protocol_version; a client only accepts a ServerHello or HelloRetryRequest that '
     'selects TLS 1.3 through supported_versions and echoes its session id. Emitted hellos always announce TLS 1.3 and no lower version.',
     [I], 'every ClientHello, ServerHello and HelloRetryRequest',
     'Tests never talk to a peer of another version.',
     ['states/server/wait_client_hello.py', 'states/client/wait_server_hello.py',
      'states/client/start.py', 'contents/handshakes/client_hello.py',
      'contents/handshakes/server_hello.py'],
     [('_negociate_supported_versions', 'states/server/wait_client_hello.py'),
      ('version checks', 'states/client/wait_server_hello.py')])

prop('P10', 'At most one HelloRetryRequest, with unchanged parameters',
     'A connection sends or accepts at most one HelloRetryRequest; a second one, or one that asks '
     'for no change or for a group that was not offered, is refused. What was '
     'selected in the HelloRetryRequest (cipher suite, group, version) binds the rest of the '
     'handshake: a second hello that departs from it is refused.',
     [H, I], 'every sequence of hellos on both sides',
     'One captured retry handshake is replayed on the server side only.',
     ['states/server/wait_client_hello.py', 'states/client/wait_server_hello.py',
      'states/client/start.py'],
     [('retry bookkeeping', 'states/server/wait_client_hello.py'),
      ('_process_hello_retry_request', 'states/client/wait_server_hello.py')])

prop('P11', 'No AEAD nonce is ever reused under a key',
     'The nonce of the n-th record protected (or unprotected) under a key is the static iv '
     'xored with the 64-bit record number n, which starts at zero with each key, advances by '
     'exactly one per record in each direction and never wraps. No key is used beyond the '
     'limits of RFC 8446 5.5 for its algorithm without asking for a key update.',
     [H], 'every sequence of encryptions and decryptions, all suites, both sides',
     'Tests encrypt a handful of records per key.',
     ['crypto/ciphers.py'],
     [('nonce construction and counters', 'crypto/ciphers.py'), ('usage_limit', 'crypto/ciphers.py')],
     [('record counters', 'number of records under the current key', 'crypto/ciphers.py')])

prop('P12', 'Every secret and key is the one RFC 8446 section 7 derives',
     'For every cipher suite, both sides and every PSK mode, each traffic secret, AEAD key, iv, '
     'finished key, binder key, exporter and resumption secret is exactly the HKDF expression of '
     'RFC 8446 section 7 over the right label, transcript hash and input secret. The Finished of a '
     'peer is compared in constant time with the expected one. Secrets can only be derived in the '
     'order of the key schedule.',
     [C, I], 'every suite, side, PSK mode, shared key and transcript',
     'Two RFC 8448 vectors cover one suite; a swapped label or side in another suite goes unseen '
     'when both ends share the mistake.',
     ['crypto/ciphers.py'], [('key schedule', 'crypto/ciphers.py')])

prop('P13', 'Secrets only leave the engine through the key log, and only when asked',
     'No traffic secret, key, private key or shared secret is ever written to a log, put in an '
     'error message or returned by a public call, except the NSS key log lines, which are '
     'written only when the configuration asks for it. Each line carries the label, the client '
     'random and the secret that SSLKEYLOGFILE defines.',
     [C, H], 'every configuration, suite and path that derives a secret',
     'Absence of leaks on all paths is not something a test run can show.',
     ['crypto/ciphers.py', 'connection.py', '__init__.py'],
     [('key_logger', 'crypto/ciphers.py'), ('log_keys', 'configuration.py')])

prop('P14', 'Messages are serialized and parsed exactly as RFC 8446 lays them out',
     'Every message and extension the engine emits is laid out as its RFC structure, field by '
     'field, with the right length prefixes; every parser reads exactly the same structure and '
     'consumes its input entirely, so what one side serializes the other parses back to '
     'the same fields.',
     [I], 'every value of every message, extension and certificate entry',
     'Captured messages exercise a fraction of the structures, optional parts least.',
     ['contents', 'serial.py'], [('parse / serialize pairs', 'contents'),
                                 ('variable length vectors', 'serial.py')])

prop('P15', 'Extensions are bound to their messages and code points, unknown ones ignored',
     'Each extension is only recognised in the handshake messages where RFC 8446 4.2 allows it, '
     'its class has the code point of the registry, and a known extension found in any other '
     'message is refused. Unknown extensions are skipped without consequence. '
     'Two extensions of one type in a same message are refused.',
     [I], 'every (extension, message) pair',
     'Tests use the usual extension in the usual message.',
     ['contents/handshakes/extensions', 'contents/handshakes'],
     [('_extension_registry', 'contents/handshakes/extensions/__init__.py')])

prop('P16', 'Every protocol constant has its IANA value',
     'Every code point of the library (content types, handshake types, alerts, suites, groups, '
     'signature schemes, extensions, certificate types, fragment lengths, versions) has the value '
     'IANA assigns to its name, and each message, extension and alert class carries the code '
     'point of its own name.',
     [I, P], 'every member of every registry enumeration and every class tagged with one',
     'Both ends of a test share the same table, so a wrong value interoperates with itself.',
     ['iana.py', 'contents'], [('enumerations', 'iana.py')])

prop('P17', 'Key exchange yields the shared secret of its group and refuses bad shares',
     'For every supported group, the share sent is the encoding RFC 8446 4.2.8 '
     'defines of a fresh public key, and the secret is computed between the '
     'local private key and the peer\'s share in the format 7.4 defines. Shares of the wrong '
     'length, off the curve or outside 1<Y<p-1 are refused as illegal_parameter.',
     [I], 'every group and every peer share',
     'Tests exchange honest shares.',
     ['crypto/key_exchanges.py'], [('init / resume of each group', 'crypto/key_exchanges.py')])

prop('P18', 'Records never exceed their limits and fragments reassemble exactly',
     'Every emitted record fits the negotiated fragment size, padding, tag and content type '
     'included, and together the records carry exactly the message in order. A received '
     'record over the limit, encrypted or not, is refused with record_overflow; a handshake '
     'split over records is reassembled to its announced length whatever the chunks the '
     'bytes arrive in, nothing else may be interleaved with its fragments, and none of it may '
     'be left over when the key that protects the next records changes.',
     [I, C], 'every message size, fragment size and chunking of the input',
     'Tests use a few sizes; limits live at the boundaries.',
     ['connection.py'], [('_send_content, _encrypt', 'connection.py'),
                         ('_read_next_record, _read_next_content', 'connection.py')],
     [('_input_data, _input_handshake', 'bytes not yet processed', 'connection.py')])

prop('P19', 'Every cipher suite and signature scheme is bound to its algorithms',
     'Each cipher suite code point uses the AEAD, key length, tag length, hash and usage limit '
     'its RFC gives, and each signature scheme the key type, curve independent padding, salt length '
     'and hash of its name; signing and verification of a scheme agree. A scheme is '
     'only selected for a key of its type and RSASSA-PKCS1-v1_5 never signs a handshake.',
     [C], 'every suite, scheme and key type',
     'Two ends of one library agree on a wrong binding; only two vectors come from elsewhere.',
     ['crypto/ciphers.py', 'crypto/signatures.py'],
     [('suite classes', 'crypto/ciphers.py'), ('signature suites', 'crypto/signatures.py')])

prop('P20', 'The transcript covers every handshake message once, in order',
     'Every handshake message sent or received, its exact bytes, enters the transcript hash '
     'once and in order, with the synthetic message_hash of RFC 8446 4.4.1 after a '
     'HelloRetryRequest; other contents never do. Each secret, signature and '
     'Finished is computed over the transcript up to the message RFC 8446 names. A handshake '
     'message out of order is refused with unexpected_message.',
     [H], 'every order of messages on both sides',
     'Only complete honest handshakes are hashed in tests.',
     ['transcript.py', 'connection.py', 'states'],
     [('Transcript.update', 'transcript.py'), ('uses of digest()', 'states')],
     [('_order_i', 'position in the handshake', 'transcript.py')])

prop('P21', 'An OCSP response is only believed, stapled or cached once validated',
     'An OCSP response counts as good only when it is successful, answers the request made (same '
     'issuer and serial number), is signed by the issuer of the certificate, says good, and is within '
     'its validity window (in UTC); anything else is refused with a ValueError. Responses obtained '
     'from the OCSP service are validated for the request that was made, only valid ones are cached, '
     'until their next update at most, and only valid ones about the certificate of the server are '
     'stapled; a response that fails is dropped from the cache and '
     'fails the verification of the certificate (bad_certificate).',
     [I, F], 'every response content and every failure of a validation step',
     'The tests have a few canned responses.',
     ['crypto/ocsp.py', 'states/client/wait_certificate.py', 'states/server/wait_client_hello.py',
      'examples'],
     [('validate_ocsp', 'crypto/ocsp.py'), ('cache', 'states')])

prop('P22', 'The socket wrapper always flushes what the engine wants to send',
     'Every operation of the wrapped socket sends everything the engine produced before it waits '
     'for the peer or returns, also when the engine raised, so that alerts reach the peer; '
     'it hands over only decrypted application data, and all of it, and end of file on '
     'the transport closes the receiving side of the engine.',
     [H, F], 'every path through every operation, exceptions included',
     'The wrapper is tested over a single honest exchange.',
     ['wrapper.py'], [('WrappedSocket', 'wrapper.py')])

prop('P23', 'Configurations are validated and connections cannot change them',
     'A configuration that lacks a mandatory setting for its side, or carries one meant for the '
     'other side, is refused on creation; once made its settings cannot be assigned, '
     'and no connection that shares it modifies it or the lists it holds.',
     [C], 'every combination of settings and every path that touches a configuration',
     'Tests build valid configurations.',
     ['configuration.py', 'states', 'connection.py'], [('__post_init__', 'configuration.py')])

prop('P24', 'Connections are isolated: no peer input changes process-wide state',
     'Nothing a peer sends, and no call on one connection, modifies state shared with another '
     'connection (module and class attributes, registries, mutable defaults) apart from the OCSP '
     'cache it was given; two connections never share a mutable buffer.',
     [H, I], 'every function reachable from a connection',
     'Tests look at one connection at a time.',
     ['contents', 'connection.py', 'states', 'crypto'],
     [('per connection state', 'connection.py'), ('registries filled at import', 'contents')])

prop('P26', 'The bundled OCSP client reads and keeps a bounded amount',
     'The bundled OCSP service never reads more than a fixed bound from the network (the body of '
     'redirections included), refuses an HTTP answer that is a failure, a redirection or announced '
     'as another media type than that of OCSP responses, gives every connection a timeout, keeps a '
     'bounded number of responses, and never returns a cached response past the limit it was '
     'cached with.',
     [I, F], 'every HTTP answer and cache content',
     'No test talks to a hostile responder.',
     ['ocsp_over_http.py'], [('OCSP service', 'ocsp_over_http.py')])

prop('P27', 'The engine performs no input or output of its own',
     'Outside the socket wrapper, the bundled OCSP client, the loader of the system trust store '
     'and the command line, no code of the library opens files or sockets, sleeps, starts '
     'threads or processes, or reads the environment: the only effects are logging and the data handed to and taken from the engine.',
     [P], 'every function of the engine and what it calls',
     'The absence of an effect on all paths cannot be sampled.',
     ['connection.py', 'states', 'contents', 'crypto', 'transcript.py'],
     [('Sans-IO design', 'connection.py')])

prop('P28', 'Every random value comes from the system CSPRNG and is fresh per connection',
     'Hello randoms, session ids, key shares and any other value that must be unpredictable come '
     'from the operating system\'s CSPRNG or from the cryptography library\'s key generation, '
     'with the length the protocol requires, generated anew for each connection; no other '
     'source of randomness is used.',
     [H], 'every random value used by every connection',
     'A test cannot tell a weak generator from a strong one.',
     ['connection.py', 'states', 'crypto/key_exchanges.py'],
     [('secrets.token_bytes', 'connection.py'), ('key generation', 'crypto/key_exchanges.py')])
