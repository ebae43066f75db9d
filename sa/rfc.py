"""What the standards say, typed in from RFC 8446, 6066, 6520, 6962, 7250, 7301, 7685, 7919, 8448
and the IANA TLS registries (independent of the code under analysis)."""

ALERTS = {   # RFC 8446 section 6 / B.2
    'close_notify': 0, 'unexpected_message': 10, 'bad_record_mac': 20, 'record_overflow': 22,
    'handshake_failure': 40, 'bad_certificate': 42, 'unsupported_certificate': 43,
    'certificate_revoked': 44, 'certificate_expired': 45, 'certificate_unknown': 46,
    'illegal_parameter': 47, 'unknown_ca': 48, 'access_denied': 49, 'decode_error': 50,
    'decrypt_error': 51, 'protocol_version': 70, 'insufficient_security': 71,
    'internal_error': 80, 'inappropriate_fallback': 86, 'user_canceled': 90,
    'missing_extension': 109, 'unsupported_extension': 110, 'unrecognized_name': 112,
    'bad_certificate_status_response': 113, 'unknown_psk_identity': 115,
    'certificate_required': 116, 'no_application_protocol': 120,
}
ENUMS = {
    'AlertDescription': ALERTS,
    'AlertLevel': {'warning': 1, 'fatal': 2},
    'ContentType': {'invalid': 0, 'change_cipher_spec': 20, 'alert': 21, 'handshake': 22,
                    'application_data': 23, 'heartbeat': 24},
    'HandshakeType': {'client_hello': 1, 'server_hello': 2, 'new_session_ticket': 4,
                      'end_of_early_data': 5, 'encrypted_extensions': 8, 'certificate': 11,
                      'certificate_request': 13, 'certificate_verify': 15, 'finished': 20,
                      'key_update': 24, 'message_hash': 254},
    'ExtensionType': {'server_name': 0, 'max_fragment_length': 1, 'status_request': 5,
                      'supported_groups': 10, 'signature_algorithms': 13, 'use_srtp': 14,
                      'heartbeat': 15, 'application_layer_protocol_negotiation': 16,
                      'signed_certificate_timestamp': 18, 'client_certificate_type': 19,
                      'server_certificate_type': 20, 'padding': 21, 'pre_shared_key': 41,
                      'early_data': 42, 'supported_versions': 43, 'cookie': 44,
                      'psk_key_exchange_modes': 45, 'certificate_authorities': 47,
                      'oid_filters': 48, 'post_handshake_auth': 49,
                      'signature_algorithms_cert': 50, 'key_share': 51},
    'CipherSuites': {'tls_aes_128_gcm_sha256': 0x1301, 'tls_aes_256_gcm_sha384': 0x1302,
                     'tls_chacha20_poly1305_sha256': 0x1303, 'tls_aes_128_ccm_sha256': 0x1304,
                     'tls_aes_128_ccm_8_sha256': 0x1305},
    'NamedGroup': {'secp256r1': 0x17, 'secp384r1': 0x18, 'secp521r1': 0x19, 'x25519': 0x1d,
                   'x448': 0x1e, 'ffdhe2048': 0x100, 'ffdhe3072': 0x101, 'ffdhe4096': 0x102,
                   'ffdhe6144': 0x103, 'ffdhe8192': 0x104},
    'SignatureScheme': {'rsa_pkcs1_sha256': 0x401, 'rsa_pkcs1_sha384': 0x501,
                        'rsa_pkcs1_sha512': 0x601, 'ecdsa_secp256r1_sha256': 0x403,
                        'ecdsa_secp384r1_sha384': 0x503, 'ecdsa_secp521r1_sha512': 0x603,
                        'rsa_pss_rsae_sha256': 0x804, 'rsa_pss_rsae_sha384': 0x805,
                        'rsa_pss_rsae_sha512': 0x806, 'ed25519': 0x807, 'ed448': 0x808,
                        'rsa_pss_pss_sha256': 0x809, 'rsa_pss_pss_sha384': 0x80a,
                        'rsa_pss_pss_sha512': 0x80b, 'rsa_pkcs1_sha1': 0x201,
                        'ecdsa_sha1': 0x203},
    'TLSVersion': {'tls_1_0': 0x301, 'tls_1_1': 0x302, 'tls_1_2': 0x303, 'tls_1_3': 0x304},
    'CertificateType': {'x509': 0, 'openpgp': 1, 'raw_public_key': 2, 'ct_1609dot2': 3},
    'CertificateStatusType': {'ocsp': 1},
    'HeartbeatMode': {'peer_allowed_to_send': 1, 'peer_not_allowed_to_send': 2},
    'HeartbeatMessageType': {'heartbeat_request': 1, 'heartbeat_response': 2},
    'MaxFragmentLengthCode': {'max_512': 1, 'max_1024': 2, 'max_2048': 3, 'max_4096': 4},
    'MaxFragmentLengthOctets': {'max_512': 512, 'max_1024': 1024, 'max_2048': 2048,
                                'max_4096': 4096, 'max_16384': 16384},
    'NameType': {'host_name': 0},
    'PskKeyExchangeMode': {'psk_ke': 0, 'psk_dhe_ke': 1},
    'ALPNProtocol': {
        'http_0_9': 'http/0.9', 'http_1_0': 'http/1.0', 'http_1_1': 'http/1.1',
        'spdy_1': 'spdy/1', 'spdy_2': 'spdy/2', 'spdy_3': 'spdy/3', 'turn': 'stun.turn',
        'stun': 'stun.nat-discovery', 'http_2': 'h2', 'http_2_tcp': 'h2c', 'webrtc': 'webrtc',
        'cwebrtc': 'c-webrtc', 'ftp': 'ftp', 'imap': 'imap', 'pop3': 'pop3',
        'managesieve': 'managesieve', 'coap': 'coap', 'xmpp_client': 'xmpp-client',
        'xmpp_server': 'xmpp-server', 'acme_tls_1': 'acme-tls/1', 'mqtt': 'mqtt',
        'dns_over_tls': 'dot', 'ntske_1': 'ntske/1', 'sunrpc': 'sunrpc', 'http_3': 'h3',
        'smb2': 'smb', 'irc': 'irc', 'nntp_reading': 'nntp', 'nntp_transit': 'nnsp',
        'doq': 'doq', 'sip': 'sip/2', 'tds_8_0': 'tds/8.0', 'dicom': 'dicom'},
}

# RFC 8446 section 4.2 (extension -> messages it may appear in)
CH, SH, EE, CT, CR, NST, HRR = (
    'CLIENT_HELLO', 'SERVER_HELLO', 'ENCRYPTED_EXTENSIONS', 'CERTIFICATE',
    'CERTIFICATE_REQUEST', 'NEW_SESSION_TICKET', 'HELLO_RETRY_REQUEST')
EXT_TABLE = {
    'SERVER_NAME': {CH, EE}, 'MAX_FRAGMENT_LENGTH': {CH, EE}, 'STATUS_REQUEST': {CH, CR, CT},
    'SUPPORTED_GROUPS': {CH, EE}, 'SIGNATURE_ALGORITHMS': {CH, CR}, 'USE_SRTP': {CH, EE},
    'HEARTBEAT': {CH, EE}, 'APPLICATION_LAYER_PROTOCOL_NEGOTIATION': {CH, EE},
    'SIGNED_CERTIFICATE_TIMESTAMP': {CH, CR, CT}, 'CLIENT_CERTIFICATE_TYPE': {CH, EE},
    'SERVER_CERTIFICATE_TYPE': {CH, EE}, 'PADDING': {CH}, 'KEY_SHARE': {CH, SH, HRR},
    'PRE_SHARED_KEY': {CH, SH}, 'PSK_KEY_EXCHANGE_MODES': {CH}, 'EARLY_DATA': {CH, EE, NST},
    'COOKIE': {CH, HRR}, 'SUPPORTED_VERSIONS': {CH, SH, HRR},
    'CERTIFICATE_AUTHORITIES': {CH, CR}, 'OID_FILTERS': {CR}, 'POST_HANDSHAKE_AUTH': {CH},
    'SIGNATURE_ALGORITHMS_CERT': {CH, CR},
}

# fatal level expected of each alert class: everything but the two closure alerts
WARNING_ALERTS = {'close_notify', 'user_canceled'}

# RFC 8446 B.4 + RFC 5116/7539: hash, AEAD class, key, nonce, tag lengths
CIPHERS = {
    'TLS_AES_128_GCM_SHA256': ('sha256', 'AESGCM', 16, 12, 16),
    'TLS_AES_256_GCM_SHA384': ('sha384', 'AESGCM', 32, 12, 16),
    'TLS_CHACHA20_POLY1305_SHA256': ('sha256', 'ChaCha20Poly1305', 32, 12, 16),
    'TLS_AES_128_CCM_SHA256': ('sha256', 'AESCCM', 16, 12, 16),
    'TLS_AES_128_CCM_8_SHA256': ('sha256', 'AESCCM', 16, 12, 8),
}
# most records one key may protect (RFC 8446 5.5, RFC 9001 6.6/B.1, RFC 8439)
USAGE_MAX = {'AESGCM': 2 ** 24.5, 'AESCCM': 2 ** 23, 'ChaCha20Poly1305': 2 ** 64}
DIGEST_SIZE = {'sha256': 32, 'sha384': 48, 'sha512': 64, 'sha1': 20}

# RFC 8446 section 4.2.3: scheme -> (family, hash)
SIGNATURES = {
    'rsa_pkcs1_sha256': ('pkcs1', 'SHA256'), 'rsa_pkcs1_sha384': ('pkcs1', 'SHA384'),
    'rsa_pkcs1_sha512': ('pkcs1', 'SHA512'),
    'ecdsa_secp256r1_sha256': ('ecdsa', 'SHA256'), 'ecdsa_secp384r1_sha384': ('ecdsa', 'SHA384'),
    'ecdsa_secp521r1_sha512': ('ecdsa', 'SHA512'),
    'rsa_pss_rsae_sha256': ('pss', 'SHA256'), 'rsa_pss_rsae_sha384': ('pss', 'SHA384'),
    'rsa_pss_rsae_sha512': ('pss', 'SHA512'),
    'rsa_pss_pss_sha256': ('pss', 'SHA256'), 'rsa_pss_pss_sha384': ('pss', 'SHA384'),
    'rsa_pss_pss_sha512': ('pss', 'SHA512'),
    'ed25519': ('eddsa', None), 'ed448': ('eddsa', None),
}
SIG_OID = {   # key type of each scheme
    'rsa_pkcs1': 'RSAES_PKCS1_v1_5', 'rsa_pss_rsae': 'RSAES_PKCS1_v1_5',
    'rsa_pss_pss': 'RSASSA_PSS', 'ecdsa': 'EC_PUBLIC_KEY', 'ed25519': 'ED25519',
    'ed448': 'ED448',
}
SIGN_OID = {
    'rsa_pkcs1_sha256': 'RSA_WITH_SHA256', 'rsa_pkcs1_sha384': 'RSA_WITH_SHA384',
    'rsa_pkcs1_sha512': 'RSA_WITH_SHA512', 'ecdsa_secp256r1_sha256': 'ECDSA_WITH_SHA256',
    'ecdsa_secp384r1_sha384': 'ECDSA_WITH_SHA384', 'ecdsa_secp521r1_sha512': 'ECDSA_WITH_SHA512',
    'ed25519': 'ED25519', 'ed448': 'ED448',
}

# RFC 7919: p = 2^b - 2^(b-64) + (floor(2^(b-130) e) + X) 2^64 - 1
FFDHE_X = {2048: 560316, 3072: 2625351, 4096: 5736041, 6144: 15705020, 8192: 10965728}
FFDHE_EXP = {2048: 225, 3072: 275, 4096: 325, 6144: 375, 8192: 400}


def ffdhe_p(bits):
    # e = sum 1/k!, with enough guard bits
    guard = 128
    one = 1 << (bits + guard)
    e, term, k = 0, one, 0
    while term:
        e += term
        k += 1
        term //= k
    fl = (e >> (bits + guard - (bits - 130)))
    return 2 ** bits - 2 ** (bits - 64) + (fl + FFDHE_X[bits]) * 2 ** 64 - 1


# RFC 8446 section 7.1 / 7.3 / 4.4.4
FINISHED_LABEL = b'finished'
CV_SERVER = b' ' * 64 + b'TLS 1.3, server CertificateVerify' + b'\x00'
CV_CLIENT = b' ' * 64 + b'TLS 1.3, client CertificateVerify' + b'\x00'
HRR_RANDOM = bytes.fromhex(
    'CF21AD74E59A6111BE1D8C021E65B891C2A211167ABB8C5E079E09E2C8A8339C')
# order of a full handshake (side, message, optional)
FULL_ORDER = [
    ('client', 'CLIENT_HELLO', False), ('server', 'SERVER_HELLO', False),
    ('server', 'ENCRYPTED_EXTENSIONS', False), ('server', 'CERTIFICATE_REQUEST', True),
    ('server', 'CERTIFICATE', False), ('server', 'CERTIFICATE_VERIFY', False),
    ('server', 'FINISHED', False), ('client', 'END_OF_EARLY_DATA', True),
    ('client', 'CERTIFICATE', True), ('client', 'CERTIFICATE_VERIFY', True),
    ('client', 'FINISHED', False),
]
