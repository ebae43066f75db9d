"""P05: closed directions stay closed, a failed connection stays failed"""
from sa.interp import AnalysisError, show_exc
from sa.receive import Receive

from .p04_application_data import app_buffer, emitted, out_buffer

SPEC = {
    'id': 'P05', 'level': 'other',
    'technique': 'typestate analysis: the automaton of open directions and settled states is '
                 'extracted by abstract interpretation of the source (every message class and '
                 'every public call from every reachable connection) and each of its transitions '
                 'is checked',
    'explanation': 'one obligation per transition (state and open directions, message or call, '
                   'outcome) of the extracted automaton',
    'assumptions': [],
}
SETTLED = ('Connected', 'Closed', 'Failed')


def run(ctx):
    d = ctx.driver
    runs = [*ctx.runs, *d.api]
    seen = set()
    for r in runs:
        if r.content == 'initiate_connection':
            continue
        old = flags(d, r.entry)
        transition(ctx, d, r, old)
        seen.add((r.side, r.state, old))
    for side in ('client', 'server'):
        for state, fl in (('Connected', (True, True)), ('Closed', (True, False)),
                          ('Closed', (False, True)), ('Closed', (False, False))):
            # (can send, can receive)
            if (side, state, fl) not in seen:
                raise AnalysisError(f'no {side} connection {state} {fl} is reachable')
        if not any(x[:2] == (side, 'Failed') for x in seen):
            raise AnalysisError('no failed connection is reachable')
    input_(ctx, d)
    ctx.need('closed-never-sends', 100)
    ctx.need('sending-stays-closed', 100)
    ctx.need('receiving-stays-closed', 10)
    ctx.need('failed-stays-failed', 100)
    ctx.need('closing-sends-close-notify', 4)
    ctx.need('close-notify-closes-receiving', 4)
    ctx.need('unfinished-handshake-fails', 20)
    ctx.need('closed-refuses-input', 4)
    ctx.need('failed-stays-silent', 4)


def flags(d, st):
    """(can send, can receive) of a connection; None when the analysis cannot tell"""
    I = d.I
    state = st.heap[d.conn_v].attrs['_state']
    out = []
    for name in ('can_send', 'can_receive'):
        vals = {o.val for o in I.run(st, lambda s, n=name: I.getattr(s, state, n, None))
                if o.kind == 'return'}
        v = next(iter(vals)) if len(vals) == 1 else None
        out.append(v.a[1] if v is not None and v.k == 'const' else None)
    return tuple(out)


def word(fl):
    return ' '.join(f'{"" if b else "not " if b is False else "maybe "}{w}' for b, w in
                    zip(fl, ('sending', 'receiving'), strict=True))


def transition(ctx, d, r, old):
    buf = out_buffer(d, r.entry, d.conn_v)
    app = app_buffer(d, r.entry, d.conn_v)
    api = r.content.endswith('()')
    alert = r.content == 'CloseNotify'
    for o in r.outs:
        evs = o.st.events()
        sent = [e for e in evs if e.kind == 'send']
        loc = sent[0].loc if sent else None
        out = r.content != 'data_to_send()' and emitted(d, r.entry, d.conn_v, o, buf)
        new = flags(d, o.st)
        after = d.state_of(o.st, d.conn_v)
        res = 'returns' if o.kind == 'return' else f'raises {show_exc(o.val, o.st)}'
        w = f'{r.side} {r.state} ({word(old)}) {r.content} {res}'
        if r.state in SETTLED:
            if old[0] is False and not (r.state == 'Failed'):
                written = [e for e in sent if e.x is not None] or out
                ctx.check(not written, 'closed-never-sends', w, 'something is sent', loc)
                ctx.check(after == 'Failed' or after == 'Closed' and new[0] is False,
                          'sending-stays-closed', w, f'becomes {after} ({word(new)})')
            if old[1] is False and r.state != 'Failed' and api:
                ctx.check(after == 'Failed' or after == 'Closed' and new[1] is False,
                          'receiving-stays-closed', w, f'becomes {after} ({word(new)})')
            if r.state == 'Failed':
                ctx.check(after == 'Failed', 'failed-stays-failed', w,
                          f'becomes {after} ({word(new)})')
                ctx.check(not out and not [e for e in sent if e.x is not None],
                          'failed-never-sends', w, 'something is sent', loc)
                if r.content != 'data_to_read()':
                    ctx.check(not emitted(d, r.entry, d.conn_v, o, app), 'failed-never-delivers',
                              w, 'data is delivered')
            if r.state == 'Closed':
                ctx.check(after in ('Closed', 'Failed'), 'closed-is-final', w, f'becomes {after}')
        if r.content in ('close_sending_end()', 'close_receiving_end()') or alert:
            closing(ctx, d, r, o, old, new, after, out, sent, w)


def closing(ctx, d, r, o, old, new, after, out, sent, w):
    if r.state not in SETTLED:
        refused = o.kind == 'raise' and r.content == 'close_sending_end()' and not out
        ctx.check(after == 'Failed' or refused and after == r.state,
                  'unfinished-handshake-fails', w, f'becomes {after}')
        return
    if r.state == 'Failed':
        return
    if r.content == 'close_sending_end()':
        if o.kind == 'raise':
            # sending failed
            ctx.check(not out and after in ('Closed', r.state) and new[1] == old[1],
                      'closes-the-sending-side-only', w, f'becomes {after} ({word(new)})')
            return
        ctx.check(after == 'Closed' and new == (False, old[1]),
                  'closes-the-sending-side-only', w, f'becomes {after} ({word(new)})')
        if old[0]:
            ctx.check([e.name for e in sent] == ['CloseNotify'] and len(out) == 1,
                      'closing-sends-close-notify', w,
                      f'sends {[e.name for e in sent] or "nothing"}')
        return
    rule = 'close-notify-closes-receiving' if r.content == 'CloseNotify' else \
        'closes-the-receiving-side-only'
    if r.content == 'CloseNotify' and old[1] is False:
        return      # is never processed (see closed-refuses-input)
    ctx.check(o.kind == 'return' and after == 'Closed' and new == (old[0], False), rule, w,
              f'becomes {after} ({word(new)})')
    ctx.check(not [e for e in sent if e.x is not None] and not out, 'closing-receiving-is-silent',
              w, 'something is sent')


def input_(ctx, d):
    R = Receive(ctx.p)
    ctx.extra.append(R)

    def one(sample):
        side, st, conn = sample
        state = R.state_of(st, conn)
        fl = flags(R, st)
        w = f'{side} {state} ({word(fl)}) receive_data()'
        if state in ('Closed', 'Connected') and fl[1] is False:
            for o in R.receive(st, conn):
                if st.heap[conn].key() == o.st.heap[conn].key() and o.kind == 'raise' and show_exc(
                        o.val, o.st) == 'ValueError':
                    continue    # empty input
                ctx.check(o.kind == 'raise' and show_exc(o.val, o.st) == 'UnexpectedMessage'
                          and not any(e.kind in ('parse', 'process', 'opened', 'sent')
                                      for e in o.st.events()),
                          'closed-refuses-input', w,
                          'input is accepted' if o.kind == 'return' else
                          f'raises {show_exc(o.val, o.st)}')
                ctx.check(R.state_of(o.st, conn) == state and flags(R, o.st) == fl,
                          'receiving-stays-closed', w, f'becomes {word(flags(R, o.st))}')
        elif state == 'Closed':
            ok = any('process' in (e.kind for e in o.st.events()) for o in R.receive(st, conn)) or \
                processes(R, st, conn)
            ctx.check(ok, 'half-closed-still-receives', w, 'nothing is processed any more')
        elif state == 'Failed':
            for o in R.receive(st, conn):
                ctx.check(R.state_of(o.st, conn) == 'Failed', 'failed-stays-failed', w,
                          f'becomes {R.state_of(o.st, conn)}')
                ctx.check(not any(e.kind == 'sent' for e in o.st.events()), 'failed-stays-silent',
                          w, 'something is sent')
    ctx.each(one, R.samples(d))
    ctx.need('half-closed-still-receives', 2)


def processes(R, st, conn):
    got = []

    def monitor(I, s, ev):
        if ev.kind == 'process':
            got.append(ev)
    R.I.monitors.append(monitor)
    R.receive(st, conn)
    R.I.monitors.remove(monitor)
    return bool(got)

