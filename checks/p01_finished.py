"""P01: nobody is connected before the peer's Finished was verified"""
import re

from sa import handshake as hs
from sa.interp import show_exc
from sa.terms import show

SPEC = {
    'id': 'P01', 'level': 'other',
    'technique': 'typestate exploration: every (connection state, received message class) pair is '
                 'interpreted abstractly from the source and every path that enters the connected '
                 'state must carry the dominating fact that the MAC comparison over the whole '
                 'handshake succeeded',
    'explanation': 'all connection states reachable from the constructor are crossed with all '
                   'message classes and all public calls; each path is one obligation: it enters '
                   'Connected only out of a Finished whose verify_data equals the HMAC, keyed with '
                   'the peer\'s finished key, of the hash of the handshake so far',
    'assumptions': ['the peer\'s finished key is the one of RFC 8446 section 4.4.4 (decided by P12)',
                    'hmac.digest and hmac.compare_digest do what they are named after'],
}


def run(ctx):
    d, runs = ctx.driver, ctx.runs
    for r, o, before, after in hs.transitions(runs, d):
        w = f'{r.side} {before} --{r.content}--> {after}'
        loc = None
        if before in d.SETTLED or after not in ('Connected', '?'):
            ctx.check(after != '?', 'state-known', w, 'the next state cannot be told', loc)
            continue
        if after == 'Connected':
            ctx.check(r.content == 'Finished', 'entered-by-finished', w,
                      'connected without a Finished', loc)
            ctx.check(verified(ctx, r, o), 'finished-verified', w,
                      'no successful comparison of the MAC of the whole handshake with the '
                      'received verify_data on this path', loc)
            log = hs.log_text(d.log_of(r.entry, d.conn_v), r.side)
            ctx.check(re.fullmatch(hs.CV if r.side == 'client' else hs.SFIN_CLIENT, log),
                      'handshake-complete', w, f'the handshake so far is: {log}', loc)
    for r in runs:
        if r.content == 'Finished' and r.state.endswith('WaitFinished'):
            bad = [o for o in r.outs if mac_failed(r, o)]
            ctx.check(bad, 'mismatch-detected', f'{r.side} {r.state}', 'no path handles a wrong MAC')
            for o in bad:
                e = show_exc(o.val, o.st) if o.kind == 'raise' else 'returns'
                ctx.check(e == 'DecryptError', 'mismatch-is-fatal', f'{r.side} {r.state}', e)
    api(ctx)
    ctx.need('finished-verified', 2)
    ctx.need('mismatch-detected', 2)
    sides = {r.side for r in runs for x in ctx.rules['finished-verified'] if x}
    ctx.check(len(sides) == 2, 'both-sides', 'client and server')


def peer_mac(r, args):
    """the comparison is between the peer's MAC over the handshake so far and its verify_data"""
    if len(args) != 2:
        return False
    peer = 's' if r.side == 'client' else 'c'
    for a, b in (args, args[::-1]):
        if hs.from_peer(b) and a.k == 'call' and a.a[0] == 'hmac.digest' and len(a.a[1]) == 3:
            key, data, _ = a.a[1]
            if show(key) == f'$secret:finished<{peer} hs traffic' and hs.covers(
                    data, r.side, hs.CV if r.side == 'client' else hs.SFIN_CLIENT):
                return True
    return False


def verified(ctx, r, o):
    return any(b and peer_mac(r, args) for args, b in hs.mac_checks(o.st.facts))


def mac_failed(r, o):
    return any(not b and peer_mac(r, args) for args, b in hs.mac_checks(o.st.facts))


def api(ctx):
    """the public calls do not complete a handshake either"""
    d = ctx.driver
    for r in d.api:
        for o in r.outs:
            if o.kind != 'return':
                continue
            for after in hs.states_after(o.st, d):
                w = f'{r.side} {r.state} --{r.content}--> {after}'
                ctx.check(r.state in d.SETTLED or after != 'Connected', 'no-call-connects', w,
                          'connected by a call')
    ctx.need('no-call-connects', 100)
