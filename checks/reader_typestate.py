"""Typestate of the block cache of the reader (C09): a block is only valid when it was read completely."""
from sa.terms import *
from sa.interp import Interp, Unsupported
from sa.run import ok, bad, und

WHERE = 'dedop/data/input/netcdf_reader.py:NetCDFReader._load_chunk'


def block_validity(ctx):
    """while (and after) a block read fails, the reader does not take the cache for a loaded block"""
    f, cls = ctx.find(WHERE)
    it = Interp(ctx.repo, inline_new=[])
    me = sym('self')
    seen = []

    def on_read(it, base, ix):
        # a read of file data: a subscript with a slice (or of several elements) of something below self._doc
        if not any(x is mk('attr', me, '_doc') for x in chain(base)) or base.op == 'attr':
            return
        if base.op == 'select' or any(a.op == 'slice' for a in ix.args):
            st = it.st
            seen.append((it.deref(it.loc_get(st, ('heap', (me, 'chunk_index')))),
                         it.deref(it.loc_get(st, ('heap', (me, 'cache'))))))
    it.on_read = on_read
    it.run(f, args={}, selfcls=cls)
    if not seen:
        yield und('block-validity', WHERE, 'no read of file data found')
        return
    c0, k0 = mk('attr', me, 'chunk_index'), mk('attr', me, 'cache')
    worst = None
    for i, c in seen:
        r = verdict(i, c, c0, k0)
        if r == 'bad':
            worst = (i, c, r)
        elif r == 'und' and worst is None:
            worst = (i, c, r)
    if worst is None:
        yield ok('block-validity', WHERE, n=1)
    elif worst[2] == 'bad':
        yield bad('block-validity', WHERE, 'while data are read, chunk_index is %s: a failed read leaves the block '
                  'marked as loaded' % show(worst[0], 4)[:120])
    else:
        yield und('block-validity', WHERE, 'chunk_index %s' % show(worst[0], 4)[:120])


def chain(t):
    out = []
    while True:
        out.append(t)
        if t.op in ('attr', 'select', 'ite') and t.args:
            t = t.args[1] if t.op == 'ite' else t.args[0]
        else:
            return out


def verdict(i, c, c0, k0):
    """ok: marked invalid, or nothing was replaced yet"""
    if i is NONE:
        return 'ok'
    if i.op == 'ite':
        r = {verdict(x, c, c0, k0) for x in i.args[1:]}
        return 'bad' if 'bad' in r else 'und' if 'und' in r else 'ok'
    if i is c0:
        if c is k0:
            return 'ok'
        return 'bad'
    if i.op in ('sym', 'num', 'poly'):
        return 'bad'
    return 'und'


RULES = {'C09': [block_validity]}
