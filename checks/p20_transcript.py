"""P20: what the transcript covers, and what is computed over which part of it"""
import re

from sa import handshake as hs
from sa.drive import HANDSHAKE, LABEL
from sa.interp import AnalysisError, show_exc
from sa.receive import Receive
from sa.terms import const, mk, show, walk

SPEC = {
    'id': 'P20', 'level': 'other',
    'technique': 'typestate exploration with an exact message log per hash object: the log of every '
                 'reachable connection state, and the log behind every HMAC and signature input, is '
                 'matched against the grammar of RFC 8446 section 4.4.1; dataflow of the bytes from '
                 'the wire to the hash in the receiving and sending functions',
    'explanation': 'every reachable (state, log) pair, every derivation label, Finished and '
                   'signature reached while exploring, every content class sent and every content '
                   'class received in each state is one obligation',
    'assumptions': ['hash objects hash what they are fed, in order'],
}

# what follows the ServerHello
TOKENS = [
    'server:EncryptedExtensions', 'server:CertificateRequest?', 'server:Certificate',
    'server:CertificateVerify', 'server:Finished', 'client:Certificate?',
    'client:CertificateVerify?', 'client:Finished']

CONTEXTS = {
    'c hs traffic': hs.SERVER_HELLO, 's hs traffic': hs.SERVER_HELLO,
    'c ap traffic': hs.SFIN, 's ap traffic': hs.SFIN, 'exp master': hs.SFIN,
    'res master': hs.CFIN,
    'c e traffic': r'client:ClientHello', 'e exp master': r'client:ClientHello',
}


def run(ctx):
    d = ctx.driver
    seen, signed = {}, []

    def monitor(I, st, ev):
        if ev.kind == 'call' and ev.name == 'hmac.digest' and len(ev.args) == 3:
            c = st.heap.get(d.config_v)
            side = c.attrs['side'].a[1] if c is not None else None
            seen.setdefault((side, ev.args, ev.loc), ev)
        if ev.kind in ('op', 'meth') and ev.name.rpartition('.')[2] in ('sign', 'verify') and any(
                x.k == 'const' and isinstance(x.a[1], bytes) and b'CertificateVerify' in x.a[1]
                for a in ev.args for x in parts(a)):
            signed.append((st.heap[d.config_v].attrs['side'].a[1], ev))
    d.I.monitors.append(monitor)
    runs = ctx.runs
    prefixes(ctx, d)
    macs(ctx, d, seen)
    signatures(ctx, signed)
    order(ctx, d, runs)
    sending(ctx, d)
    receiving(ctx, d)


# ------------------------------------------------------------------ the log of each state
def nexts():
    """regex of all prefixes of a handshake"""
    r = ''
    for t in reversed(TOKENS):
        opt = t.endswith('?')
        w = t.rstrip('?')
        if opt:
            r = f'(?: {w})?{r}'
        else:
            r = f'(?: {w}{r})?'
    hrr = r'fe0000 L H\(client:ClientHello\) server:HelloRetryRequest'
    sh = f'(?: server:ServerHello{r})?'
    return re.compile(f'|client:ClientHello{sh}|{hrr}(?: client:ClientHello{sh})?')


def prefixes(ctx, d):
    rx = nexts()
    for side, st, conn in d.entries.values():
        if d.state_of(st, conn) in d.SETTLED:
            continue
        w = f'{side} {d.state_of(st, conn)}'
        log = hs.log_text(d.log_of(st, conn), side)
        ctx.check(rx.fullmatch(log), 'log-in-order', f'{w}: {log or "(nothing)"}',
                  'the transcript does not cover the handshake as it took place')
    ctx.need('log-in-order', 10)


# ------------------------------------------------------------------ what is derived from it
def macs(ctx, d, seen):
    for (side, (key, data, _), loc), _ev in seen.items():
        txt = b''.join(x.a[1] for x in (data.a if data.k == 'concat' else (data,))
                       if x.k == 'const' and isinstance(x.a[1], bytes))
        m = LABEL.search(txt)
        name = m[1].decode().strip() if m else None
        if name in CONTEXTS:
            hashes = [x for x in data.a if hs.digest_text(x, side) is not None]
            got = hs.digest_text(hashes[0], side) if len(hashes) == 1 else None
            ctx.check(got is not None and re.fullmatch(CONTEXTS[name], got), 'secret-context',
                      f'{side}: {name}', f'derived over: {got}', loc)
        elif hs.digest_text(data, side) is not None:
            got = hs.digest_text(data, side)
            who = finished_key(key)
            want = {'s': hs.CV, 'c': hs.SFIN_CLIENT}.get(who)
            ctx.check(want and re.fullmatch(want, got), 'finished-context',
                      f'{side}: Finished of {who}', f'computed over: {got}', loc)
    ctx.need('secret-context', 10)
    ctx.need('finished-context', 4)


def finished_key(key):
    s = show(key)
    m = re.search(r'finished<([cs]) hs traffic', s)
    if m:
        return m[1]
    labels = [y for x in walk(key) if x.k == 'const' and isinstance(x.a[1], bytes)
              for y in re.findall(rb'tls13 ([cs]) hs traffic', x.a[1])]
    return labels[0].decode() if len(set(labels)) == 1 else None


def signatures(ctx, signed):
    done = set()
    for side, ev in signed:
        args = [*ev.args, *dict(ev.x or ()).values()]
        texts = [hs.digest_text(x, side) for a in args for x in parts(a)]
        texts = [t for t in texts if t is not None]
        key = (side, ev.loc, tuple(texts))
        if key in done:
            continue
        done.add(key)
        ctx.check(len(texts) == 1 and re.fullmatch(hs.CERT, texts[0]),
                  'signature-context', f'{side} {ev.name.rpartition(".")[2]}',
                  f'over: {texts}', ev.loc)
    ctx.need('signature-context', 2)


def parts(v):
    return v.a if v.k == 'concat' else (v,)


# ------------------------------------------------------------------ order
NEXT = {   # what each state waits for
    'ClientWaitServerHello': {'ServerHello', 'HelloRetryRequest'},
    'ClientWaitEncryptedExtensions': {'EncryptedExtensions'},
    'ClientWaitCertCr': {'CertificateRequest', 'Certificate'},
    'ClientWaitCertificate': {'Certificate'},
    'ClientWaitCertificateVerify': {'CertificateVerify'},
    'ClientWaitFinished': {'Finished'},
    'ServerWaitClientHello': {'ClientHello'},
    'ServerWaitFlight2': set(),
    'ServerWaitCertificate': {'Certificate'},
    'ServerWaitCertificateVerify': {'CertificateVerify'},
    'ServerWaitEndOfEarlyData': {'EndOfEarlyData'},
    'ServerWaitFinished': {'Finished'},
}


def order(ctx, d, runs):
    """a handshake that the log so far does not call for is refused"""
    hsn = {c.name for c in d.content_classes()[0]}
    rx = nexts()
    for r in runs:
        if r.content not in hsn or r.state in d.SETTLED:
            continue
        log = hs.log_text(d.log_of(r.entry, d.conn_v), r.side)
        other = 'server' if r.side == 'client' else 'client'
        new = f'{log} {other}:{r.content}'.strip()
        if r.content == 'HelloRetryRequest':
            new = log == 'client:ClientHello' and r.side == 'client' and 'client:ClientHello'
        legal = new and rx.fullmatch(new)
        if r.side == 'server' and r.content.startswith('Certificate') and \
                'server:CertificateRequest' not in log:
            legal = None    # not asked for
        if r.content == 'Finished' and legal and r.state not in ('ClientWaitFinished',
                                                                 'ServerWaitFinished'):
            legal = None
        w = f'{r.side} {r.state} after [{log}] receives {r.content}'
        if legal:
            ctx.check(any(o.kind == 'return' for o in r.outs) or not all(
                o.kind == 'raise' and show_exc(o.val, o.st) == 'UnexpectedMessage'
                for o in r.outs), 'expected-accepted', w, 'a message in order is refused')
            continue
        for o in r.outs:
            ctx.check(o.kind == 'raise' and show_exc(o.val, o.st) == 'UnexpectedMessage',
                      'out-of-order-refused', w,
                      'accepted' if o.kind == 'return' else f'fails with {show_exc(o.val, o.st)}')
    ctx.need('out-of-order-refused', 100)
    ctx.need('expected-accepted', 10)


# ------------------------------------------------------------------ bytes to the hash
def sending(ctx, d):
    p = ctx.p
    S = Sending(p)
    ctx.extra.append(S)

    def one(sample):
        side, st, conn = sample
        name = S.state_of(st, conn)
        if name == 'Failed':
            return
        classes = [c for group in d.content_classes() for c in group]
        if name not in ('Connected', 'Closed'):
            classes = [c for c in classes if c.name in SOME]
        for ci in classes:
            hsk = HANDSHAKE in p.mro_names(ci)
            mt = p.find(ci, 'msg_type') if hsk else None
            sent = 0
            for o in S.send(st, conn, ci):
                logs = [e for e in o.st.events() if e.kind == 'log']
                if o.kind != 'return':
                    continue
                sent += 1
                w = f'{side} {name} sends {ci.name}'
                loc = logs[0].loc if logs else None
                if not hsk:
                    ctx.check(not logs, 'only-handshakes-hashed', w,
                              'a content that is no handshake enters the transcript', loc)
                    continue
                ctx.check(len(logs) == 1, 'sent-hashed-once', w,
                          f'hashed {len(logs)} times', loc)
                for e in logs:
                    ctx.check(e.args == (mk('ser', ci.name), const(side), mt), 'sent-hashed-as', w,
                              f'hashed as {[show(a) for a in e.args]}', loc)
    ctx.each(one, S.samples(d))
    ctx.need('sent-hashed-once', 20)
    ctx.need('only-handshakes-hashed', 20)


SOME = {'ClientHello', 'ServerHello', 'HelloRetryRequest', 'EncryptedExtensions', 'Certificate',
        'CertificateX509', 'CertificateVerify', 'Finished', 'CertificateRequest',
        'ApplicationData', 'ChangeCipherSpec', 'Heartbeat', 'CloseNotify', 'InternalError'}


class Sending(Receive):
    """_send_content() with everything but the hashing modelled"""
    KEEP = {'log'}

    def __init__(self, p):
        super().__init__(p)
        self.I.models.pop('siotls.connection.TLSConnection._send_content')
        self.I.models['*.serialize'] = lambda I, st, fi, args, kws, n: [
            (st, mk('ser', self.clsname(st, args[0])))]

    def send(self, st, conn, ci):
        st, c = self.content(st, ci)
        I = self.I
        return I.run(st, lambda s: [y for s2, f in I.getattr(s, conn, '_send_content', None)
                                    for y in I.call(s2, f, [c], {}, None)])


def receiving(ctx, d):
    p = ctx.p
    R = Receive(p)
    handshakes = {c.name for c in p.classes.values() if HANDSHAKE in p.mro_names(c)}
    seen = []

    def monitor(I, st, ev):
        if ev.kind in ('log', 'process'):
            seen.append((ev, [e for e in st.events() if e is not ev]))
    R.I.monitors.append(monitor)
    ctx.extra.append(R)

    def one(sample):
        side, st, conn = sample
        if R.state_of(st, conn) in ('Closed', 'Failed'):
            return
        del seen[:]
        R.receive(st, conn)
        other = 'server' if side == 'client' else 'client'
        if not seen:
            raise AnalysisError(f'nothing is ever received in {R.state_of(st, conn)}')
        for ev, before in seen:
            parsed = [e for e in before if e.kind == 'parse']
            logs = [e for e in before if e.kind == 'log']
            cls = parsed[-1].name if parsed else None
            w = f'{side} {R.state_of(st, conn)} receives {cls}'
            if ev.kind == 'log':
                ctx.check(cls in handshakes and not logs and not any(
                    e.kind == 'process' for e in before), 'received-hashed-once', w,
                    'hashed twice, after it was processed, or no handshake at all', ev.loc)
                data, who, mt = ev.args[:3]
                ctx.check(parsed and data is parsed[-1].args[0], 'received-hashed-as-is', w,
                          f'hashed: {show(data)[:200]}', ev.loc)
                ctx.check(who is const(other), 'received-hashed-as-peer', w, show(who), ev.loc)
                ctx.check(mt.k == 'fld' and mt.a[1] == 'msg_type' or mt.k == 'enum',
                          'received-hashed-type', w, show(mt), ev.loc)
            elif cls in handshakes:
                ctx.check(len(logs) == 1, 'received-hashed-before-processing', w,
                          f'processed after {len(logs)} updates of the transcript', ev.loc)
            else:
                ctx.check(not logs, 'only-handshakes-hashed', w,
                          'a content that is no handshake enters the transcript', ev.loc)
    ctx.each(one, R.samples(d))
    ctx.need('received-hashed-once', 8)
    ctx.need('received-hashed-before-processing', 8)

