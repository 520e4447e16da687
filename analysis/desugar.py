"""Iterator consumers taking a closure, written out as the loops they stand for.

for_each, any, all, fold, position, find, count and sum of any iterator become
    loop { match iter.next() { Some(x) => closure(x), None => break } }
in the extracted control-flow graph, so a loop is seen the same way however it is spelled."""

CONSUMERS = {'for_each': 2, 'any': 2, 'all': 2, 'fold': 3, 'position': 2, 'find': 2, 'count': 1, 'sum': 1}


def rewrite(P):
    n = 0
    for f in list(P.fns.values()):
        for i in range(len(f.get('blocks') or ())):
            t = f['blocks'][i]['t']
            if t[0] == 'call' and t[1].get('o') == 'const' and str(t[1].get('fn', '')).startswith('std::iter::Iterator::'):
                name = t[1]['fn'].split('::')[-1]
                if CONSUMERS.get(name) == len(t[2]):
                    n += _expand(P, f, i, name)
    return n


def _type(P, f, o):
    return o['pl']['t'] if 'pl' in o else o['t']


def _expand(P, f, i, name):
    _, fop, args, dest, target, line, unwind = f['blocks'][i]['t'][:7]
    if target is None or target < 0:
        return 0
    T = P.types
    it = _type(P, f, args[0])
    clo = _type(P, f, args[-1]) if len(args) > 1 else None
    item = None
    by_ref = name in ('any', 'all', 'position', 'find')     # these take &mut self
    if by_ref:
        it = P.pointee(it)
        if it is None:
            return 0
    if clo is not None:
        d = T[clo]
        if d['k'] == 'closure' and d.get('u') in P.fns:
            ls = P.fns[d['u']]['locals']
            k = 3 if name == 'fold' else 2
            if len(ls) <= k:
                return 0
            item = ls[k][0]
            if name == 'find':
                item = P.pointee(item)
    if item is None:
        item = dest['t'] if name in ('sum', 'fold') else P.intern({'s': '?', 'k': 'prim'}) if name == 'count' else None
    if item is None:
        return 0
    prim = lambda s: P.intern({'s': s, 'k': 'prim'})
    ref = lambda t: P.intern({'s': '&mut ' + T[t]['s'], 'k': 'ref', 't': t, 'm': True})
    opt = P.intern({'s': 'std::option::Option<%s>' % T[item]['s'], 'k': 'adt', 'p': 'std::option::Option', 'a': [item]})
    unit = P.intern({'s': '()', 'k': 'tuple', 'a': []})

    def local(t):
        f['locals'].append([t, None])
        return {'l': len(f['locals']) - 1, 'p': [], 't': t}
    use = lambda o: {'k': 'use', 'a': o}
    cp = lambda pl: {'o': 'copy', 'pl': pl}
    mv = lambda pl: {'o': 'move', 'pl': pl}
    lit = lambda t, v: {'o': 'const', 't': t, 'v': v}
    B = f['blocks']

    def block(s, t):
        B.append({'s': s, 't': t, 'c': False})
        return len(B) - 1
    pi, po, pd, px = local(it), local(opt), local(prim('isize')), local(item)
    pr = local(ref(it))
    pre = []
    if by_ref:
        pre.append(['=', pr, use(args[0]), line])
        step = []
        deref = {'l': pr['l'], 'p': [['*']], 't': it}
    else:
        pre.append(['=', pi, use(args[0]), line])
        step = []
        deref = pi
    pn = local(ref(it))
    step.append(['=', pn, {'k': 'ref', 'bk': 'mut', 'pl': deref}, line])
    pc = None
    if clo is not None:
        pc = local(clo)
        pre.append(['=', pc, use(args[-1]), line])
    acc = None
    if name == 'fold':
        acc = local(dest['t'])
        pre.append(['=', acc, use(args[1]), line])
    elif name in ('position', 'count'):
        acc = local(prim('usize'))
        pre.append(['=', acc, use(lit(acc['t'], 0)), line])
    elif name == 'sum':
        acc = local(dest['t'])
        pre.append(['=', acc, use(lit(acc['t'], 0)), line])
    some = lambda o: {'k': 'agg', 'ak': 'adt', 'p': 'std::option::Option', 'vi': 1, 'vn': 'Some', 'fn': ['0'], 'enum': True, 'ops': [o]}
    none = {'k': 'agg', 'ak': 'adt', 'p': 'std::option::Option', 'vi': 0, 'vn': 'None', 'fn': [], 'enum': True, 'ops': []}
    bt = prim('bool')
    end = {'for_each': use({'o': 'const', 't': unit, 'd': '()'}), 'any': use(lit(bt, False)), 'all': use(lit(bt, True)), 'position': none, 'find': none}
    over = block([['=', dest, end[name] if name in end else use(mv(acc)), line]], ['goto', target])
    dead = block([], ['unreachable'])
    head = block(step, None)
    nextop = {'o': 'const', 't': unit, 'fn': 'std::iter::Iterator::next', 'fnuid': 'core::iter::traits::iterator::Iterator::next', 'ga': [it], 'trait': 'std::iter::Iterator',
              'r': 'std::iter::Iterator::next', 'ruid': None, 'rga': [it], 'rk': 'item', 'local': False}
    got = [['=', px, use(cp({'l': po['l'], 'p': [['d', 'Some', 1], ['f', '0', 'std::option::Option', 0]], 't': item})), line]]
    bump = lambda d: ['=', acc, {'k': 'bin', 'op': 'Add', 'a': cp(acc), 'b': d}, line]
    if name in ('count', 'sum'):
        body = block(got + [bump(lit(acc['t'], 1) if name == 'count' else cp(px))], ['goto', head])
    else:
        rt = {'for_each': unit, 'fold': dest['t']}.get(name, bt)
        res = local(rt)
        ops, tys = [cp(px)], [item]
        if name == 'fold':
            ops, tys = [cp(acc), cp(px)], [dest['t'], item]
        if name == 'find':
            q = local(P.intern({'s': '&' + T[item]['s'], 'k': 'ref', 't': item, 'm': False}))
            got.append(['=', q, {'k': 'ref', 'bk': 'shared', 'pl': px}, line])
            ops, tys = [cp(q)], [q['t']]
        tt = P.intern({'s': '(%s,)' % ', '.join(T[x]['s'] for x in tys), 'k': 'tuple', 'a': tys})
        tup = local(tt)
        cr = local(ref(clo))
        got += [['=', tup, {'k': 'agg', 'ak': 'tuple', 'ops': ops}, line], ['=', cr, {'k': 'ref', 'bk': 'mut', 'pl': pc}, line]]
        if name == 'for_each':
            after = block([], ['goto', head])
        elif name == 'fold':
            after = block([['=', acc, use(mv(res)), line]], ['goto', head])
        else:
            hit = {'any': use(lit(bt, True)), 'all': use(lit(bt, False)), 'position': some(cp(acc)) if acc else None, 'find': some(cp(px))}[name]
            yes = block([['=', dest, hit, line]], ['goto', target])
            no = block([bump(lit(acc['t'], 1))], ['goto', head]) if name == 'position' else head
            a, b = (no, yes) if name != 'all' else (yes, no)
            after = block([], ['switch', mv(res), [[0, a]], b, bt, line])
        callop = {'o': 'const', 't': unit, 'fn': 'std::ops::FnMut::call_mut', 'fnuid': 'core::ops::function::FnMut::call_mut', 'ga': [clo, tt], 'trait': 'std::ops::FnMut',
                  'r': 'std::ops::FnMut::call_mut', 'ruid': None, 'rga': [clo, tt], 'rk': 'item', 'local': False}
        if T[clo]['k'] == 'closure' and T[clo].get('u') in P.fns:
            callop.update(r=P.fns[T[clo]['u']]['path'], ruid=T[clo]['u'], local=True)
        body = block(got, ['call', callop, [mv(cr), mv(tup)], res, after, line, -1])
    test = block([['=', pd, {'k': 'discr', 'pl': po}, line]], ['switch', mv(pd), [[0, over], [1, body]], dead, pd['t'], line])
    B[head]['t'] = ['call', nextop, [mv(pn)], po, test, line, -1]
    B[i] = dict(B[i], s=B[i]['s'] + pre, t=['goto', head])
    return 1
