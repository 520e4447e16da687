"""A locked world refuses structural changes without touching anything."""
from ..spec import *
from .worldlib import *

W = 'b2_world::B2world::<D>::'
BP = 'b2_broad_phase::B2broadPhase::<UserDataType>::'
JS = 'b2_joint::B2jointTraitDyn::shift_origin'
WL = ('m_world', 'm_locked')
MUTATORS = [
    (W + 'create_body', ['world', 'def'], ('world', 'm_locked')), (W + 'destroy_body', ['world', 'b'], ('world', 'm_locked')),
    (W + 'create_joint', ['world', 'def'], ('world', 'm_locked')), (W + 'destroy_joint', ['world', 'j'], ('world', 'm_locked')),
    (W + 'shift_origin', ['world', 'o'], ('world', 'm_locked')),
    (BDM + 'create_fixture', ['self', 'def'], ('self',) + WL), (BDM + 'create_fixture_by_shape', ['self', 'shape', 'density'], ('self',) + WL),
    (BDM + 'destroy_fixture', ['self', 'f'], ('self',) + WL), (BDM + 'set_type', ['self', 't'], ('self',) + WL),
    (BDM + 'set_enabled', ['self', 'flag'], ('self',) + WL), (BDM + 'set_transform', ['self', 'p', 'a'], ('self',) + WL), (BDM + 'set_mass_data', ['self', 'm'], ('self',) + WL)]
SINKS = (DL + 'push_front', DL + 'remove', DL + 'clear', SL + 'push_front', SL + 'remove', SL + 'clear', SL + 'remove_all', BP + 'create_proxy', BP + 'destroy_proxy', BP + 'shift_origin')
FACES = ('b2_world::B2world::', 'b2_body::B2body::', 'b2_fixture::B2fixture::', 'b2_joint::', 'b2_contact::', '<b2_', 'joints::', '<joints::')


def check(c):
    P = c.P
    c.rule('refuse', 'every operation that changes the structure of the world fails in a locked world before its first effect')
    done = set()
    for path, names, lk in MUTATORS:
        short = path.split('::')[-1]
        hooks = {k: v for k, v in PARTS.items() if k != path and not (k.endswith('::destroy_joint') and short == 'destroy_joint')}
        hooks.update({JS: record('joint'), BP + 'shift_origin': record('broad phase')})
        hooks.update({'b2_joint::create': record('new joint', lambda e, a, n: sym('made%d' % n).ptr())})
        r = summarise(c, P, path, names=names, hooks=hooks)
        locked = sym(lk[0]).bool(*lk[1:]).n
        bad = first_effect(r.effects, locked)
        c.ob('refuse', short + ' has no effect before refusing', bad is None, 'in a locked world: %s' % str(bad)[:200])
        left = E.AND(locked, E.NOT(panics(r).n))
        if short == 'set_enabled':
            # asking for the state the body already has changes nothing either way
            left = E.AND(left, E.NOT(same_state(sym('self'), sym('flag').bool())))
        c.ob('refuse', short + ' fails in a locked world', left == FALSE, 'succeeds when ' + E.show(left, 4)[:200])
        f = find_fn(P, path)
        done.add(f['uid'] if 'uid' in f else path)
    c.floor('operations', len(done), 12)

    c.rule('lock', 'only a step locks or unlocks the world')
    uid = {f.get('path'): u for u, f in P.fns.items()}
    writers = [f['path'] for u, f in P.fns.items() if ('b2_world::B2world', 'm_locked') in P.direct_mods(f)]
    c.counts['writers_of_lock'] = len(writers)
    stepset = P.reachable([uid[W + 'step']])
    for u, f in P.fns.items():
        if not f.get('pub') or not f['path'].startswith(FACES) or f['path'] == W + 'step':
            continue
        if f['path'].startswith(W + 'solve'):
            continue
        c.ob('lock', f['path'], ('b2_world::B2world', 'm_locked') not in P.mods(u), 'can change the lock')
    for p in writers:
        c.ob('lock', 'writer ' + p, uid[p] in stepset, 'writes the lock outside a step')

    c.rule('guarded', 'no public operation of worlds, bodies, fixtures and joints reaches the lists or the broad-phase except through a refusing operation or a step')
    stop = {uid[p] for p, _, _ in MUTATORS} | {uid[W + 'step']}
    sinks = {uid[p] for p in SINKS if p in uid}
    c.floor('sinks', len(sinks), 6)
    n = 0
    for u, f in sorted(P.fns.items(), key=lambda z: z[1]['path']):
        if not f.get('pub') or not f.get('reach', True) or not f['path'].startswith(('b2_world::B2world::', 'b2_body::B2body::', 'b2_fixture::B2fixture::')) or u in stop:
            continue
        n += 1
        hit = P.reachable([u], stop=stop) & sinks
        c.ob('guarded', f['path'], not hit, 'reaches ' + ', '.join(P.fns[h]['path'] for h in hit))
    c.floor('public operations', n, 80)


def same_state(b, flag):
    from .bodylib import ENABLED
    on = b.flag(ENABLED, 'm_flags')
    return ((on & flag) | (~on & ~flag)).n


def first_effect(effects, locked):
    """the first effect that can happen in a locked world before a failure has stopped the operation."""
    open_ = locked
    for x in effects:
        if x.kind == 'panic':
            open_ = E.AND(open_, E.NOT(x.guard))
        elif x.kind == 'write' and outside(x) and E.AND(x.guard, open_) != FALSE:
            return x
        elif x.kind == 'call' and x.info.get('rec') and E.AND(x.guard, open_) != FALSE:
            return x
        elif x.kind == 'loop' and E.AND(x.guard, open_) != FALSE:
            y = first_effect(x.sub, E.AND(open_, x.guard))
            if y is not None:
                return y
    return None
