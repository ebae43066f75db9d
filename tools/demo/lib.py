"""helpers of the demonstrations: two ends in memory"""
import datetime
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
import logging  # noqa: E402,F401

from cryptography import x509  # noqa: E402
from cryptography.hazmat.primitives import hashes  # noqa: E402
from cryptography.hazmat.primitives.asymmetric import ec, ed25519, rsa  # noqa: E402,F401
from cryptography.x509.verification import Store  # noqa: E402

from siotls import TLSConfiguration, TLSConnection, TLSError  # noqa: E402,F401
from siotls.contents import alerts  # noqa: E402,F401
from siotls.iana import *  # noqa: E402,F403


def mkcert(cn, k, issuer, ik, ca, bad_time=False):
    n = x509.Name([x509.NameAttribute(x509.NameOID.COMMON_NAME, cn)])
    i = x509.Name([x509.NameAttribute(x509.NameOID.COMMON_NAME, issuer)])
    b = x509.CertificateBuilder().subject_name(n).issuer_name(i).public_key(k.public_key())
    b = b.serial_number(x509.random_serial_number()).not_valid_before(
        datetime.datetime(2020, 1, 1)).not_valid_after(
        datetime.datetime.now() + datetime.timedelta(-90 if bad_time else 90))
    b = b.add_extension(x509.BasicConstraints(ca, None), True)
    b = b.add_extension(x509.SubjectKeyIdentifier.from_public_key(k.public_key()), False)
    b = b.add_extension(
        x509.AuthorityKeyIdentifier.from_issuer_public_key(ik.public_key()), False)
    if ca:
        b = b.add_extension(x509.KeyUsage(True, False, False, False, False, True, True, False,
                                          False), True)
    else:
        b = b.add_extension(x509.SubjectAlternativeName([x509.DNSName(cn)]), False)
        b = b.add_extension(x509.ExtendedKeyUsage([x509.ExtendedKeyUsageOID.SERVER_AUTH]), False)
    return b.sign(ik, hashes.SHA256())


RK = ec.generate_private_key(ec.SECP256R1())
LK = ec.generate_private_key(ec.SECP256R1())
ROOT = mkcert('root.test', RK, 'root.test', RK, True)
LEAF = mkcert('leaf.test', LK, 'root.test', RK, False)


def server(**kw):
    kw = {'private_key': LK, 'certificate_chain': [LEAF, ROOT], **kw}
    return TLSConnection(TLSConfiguration('server', **kw))


def client(hostname='leaf.test', ocsp_service=None, **kw):
    kw = {'trust_store': Store([ROOT]), **kw}
    return TLSConnection(TLSConfiguration('client', **kw), server_hostname=hostname,
                         ocsp_service=ocsp_service)


def start(S, C):
    S.initiate_connection()
    C.initiate_connection()


def shuttle(S, C, n=8):
    for _ in range(n):
        if d := C.data_to_send():
            S.receive_data(d)
        if d := S.data_to_send():
            C.receive_data(d)


def handshake(S, C):
    start(S, C)
    shuttle(S, C)
    assert C.is_connected() and S.is_connected(), (C._state, S._state)
    return S, C
