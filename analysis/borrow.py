"""Dynamic-borrow discipline, decided statically.

Every object of the library lives in a reference-counted cell whose borrow rules are enforced at run time by panicking.
The analysis computes, per function, the set of cell contents (by type, generics instantiated at each call) it may borrow,
directly or in any callee, and follows every borrow guard from the borrow to its drop. A call made while a guard on a type is
held must not borrow that type again unless both are shared. A reference parameter to a cell-held type counts as a guard for
the whole function."""
from collections import defaultdict
from .program import canon_path

BORROW = {'std::cell::RefCell::<T>::borrow': 's', 'std::cell::RefCell::<T>::borrow_mut': 'm', 'std::cell::RefCell::<T>::try_borrow': 's', 'std::cell::RefCell::<T>::try_borrow_mut': 'm',
          'std::cell::RefCell::<T>::replace': 'm', 'std::cell::RefCell::<T>::take': 'm'}


class Borrows:
    def __init__(self, P):
        self.P = P
        self.sites = 0
        self.own, self.calls = {}, {}
        self.held = set()        # types that live in cells
        for u, f in P.fns.items():
            e, cs = set(), []
            for op in self.ops(f):
                b = self.borrow(op)
                if b:
                    self.sites += 1
                    e.add(b)
                    if not b[2]:
                        self.held.add(b[0])
                else:
                    cs += self.edges(op)
            for _, k, v in P.callee_uids(f):
                if k == 'closure' and v in P.fns:
                    cs.append((v, {}))
            self.own[u], self.calls[u] = e, cs
        self.eff = {u: set(e) for u, e in self.own.items()}
        users = defaultdict(set)
        for u, cs in self.calls.items():
            for v, _ in cs:
                users[v].add(u)
        work = set(self.eff)
        while work:
            u = work.pop()
            n = set(self.own[u])
            for v, m in self.calls[u]:
                n |= self.inst(self.eff[v], m)
            if n != self.eff[u]:
                self.eff[u] |= n
                work |= users[u]

    def ops(self, f):
        for b in f['blocks']:
            if not b['c'] and b['t'][0] == 'call' and 'fn' in b['t'][1]:
                yield b['t'][1]

    def key(self, t):
        d = self.P.types[t]
        return d.get('p') or d.get('n') or d.get('s')

    def borrow(self, op):
        r = canon_path(op.get('r') or op.get('fn', ''))
        if r not in BORROW:
            return None
        t = (op.get('rga') or op['ga'])[0]
        return self.key(t), BORROW[r], self.P.types[t]['k'] == 'param'

    def edges(self, op):
        out = []
        for k, v in self.P.callees_of_op(op):
            if v in self.P.fns:
                g, ga = self.P.fns[v]['generics'], op.get('rga') if k == 'direct' else None
                out.append((v, dict(zip(g, ga)) if ga and len(ga) == len(g) else {}))
        return out

    def inst(self, eff, m):
        out = set()
        for t, mode, par in eff:
            if par and t in m:
                out.add((self.key(m[t]), mode, self.P.types[m[t]]['k'] == 'param'))
            else:
                out.add((t, mode, par))
        return out

    def effects_of(self, op):
        b = self.borrow(op)
        if b:
            return {b}, 'borrow'
        es, name = set(), None
        for v, m in self.edges(op):
            es |= self.inst(self.eff[v], m)
            name = name or self.P.fns[v]['path']
        return es, name

    def guards(self, f, visit=None):
        """conflicts (held type, held mode, borrowed mode, callee path or 'borrow', line) inside one function."""
        cfg = self.P.cfg(f)
        out = set()
        root = self.roots(f)
        done, st = set(), [(0, frozenset())]
        n = 0
        while st:
            i, live = st.pop()
            if (i, live) in done:
                continue
            done.add((i, live))
            b = f['blocks'][i]
            if b['c']:
                continue
            live = set(live)
            for s in b['s']:
                if s[0] == 'dead':
                    live = {x for x in live if x[0] != s[1]}
                elif s[0] == '=' and s[2].get('k') == 'use':
                    o = s[2].get('o') if isinstance(s[2].get('o'), dict) else s[2].get('op')
                    if isinstance(o, dict) and o.get('o') == 'move' and not o['pl']['p'] and not s[1]['p']:
                        live = {((s[1]['l'],) + x[1:] if x[0] == o['pl']['l'] else x) for x in live}
            t = b['t']
            if t[0] == 'drop' and not t[1]['p']:
                live = {x for x in live if x[0] != t[1]['l']}
            elif t[0] == 'call':
                op = t[1]
                moved = {a['pl']['l'] for a in t[2] if a.get('o') == 'move' and not a['pl']['p']}
                live = {x for x in live if x[0] not in moved}
                if 'fn' in op:
                    if visit:
                        visit(op, live, t[5] if len(t) > 5 else 0)
                    es, name = self.effects_of(op)
                    x = self.borrow(op)
                    rt = root(t[2][0]) if x else None
                    for l, ty, mode, r in live:
                        for t2, m2, _ in es:
                            if t2 == ty and 'm' in (mode, m2):
                                out.add((ty, mode, m2, name, bool(x) and r is not None and rt is not None and r != rt, t[5] if len(t) > 5 else 0))
                    if x:
                        n += 1
                        live.add((t[3]['l'], x[0], x[1], rt))
            for j in cfg.succ[i]:
                st.append((j, frozenset(live)))
        return out, n

    def roots(self, f):
        """operand -> the variable or argument the cell reference was derived from (None if not a single one)."""
        defs = defaultdict(list)
        for b in f['blocks']:
            for s in b['s']:
                if s[0] == '=' and not s[1]['p']:
                    defs[s[1]['l']].append(('s', s[2]))
            if b['t'][0] == 'call' and not b['t'][3]['p']:
                defs[b['t'][3]['l']].append(('c', b['t']))

        def place(pl, depth):
            fields = tuple(str(x) for x in pl['p'] if x[0] not in ('*',))
            r = go(pl['l'], depth)
            return None if r is None else (r[0], r[1] + fields)

        def operand(o, depth=0):
            return place(o['pl'], depth) if 'pl' in o else None

        def go(l, depth):
            if depth > 12 or f['locals'][l][1] is not None or l <= f['argc'] or len(defs[l]) != 1:
                return (l, ())
            k, d = defs[l][0]
            if k == 's':
                if d.get('k') in ('ref', 'addr') and 'pl' in d:
                    return place(d['pl'], depth + 1)
                o = d.get('o') if isinstance(d.get('o'), dict) else d.get('op')
                return operand(o, depth + 1) if isinstance(o, dict) else (l, ())
            nm = canon_path(d[1].get('r') or d[1].get('fn', ''))
            if nm.endswith('::deref') or nm.endswith('::clone') or nm.endswith('::as_ref') or nm.endswith('::unwrap'):
                return operand(d[2][0], depth + 1)
            return (l, ())
        return operand

    def received(self, f):
        """cell-held objects a function receives by reference."""
        out = set()
        for i in range(1, f['argc'] + 1):
            d = self.P.types[f['locals'][i][0]]
            if d['k'] == 'ref':
                k = self.key(d['t'])
                k = BASE.get(k, k)
                if k in self.held:
                    out.add((k, 'm' if d.get('m') else 's'))
        return out

    def params(self, f):
        """conflicts between reference parameters to cell-held objects and what the function borrows."""
        out = set()
        for i in range(1, f['argc'] + 1):
            d = self.P.types[f['locals'][i][0]]
            if d['k'] != 'ref':
                continue
            k = self.key(d['t'])
            k = BASE.get(k, k)
            if k not in self.held:
                continue
            for t, m, _ in self.eff[f['uid']]:
                if t == k and (d.get('m') or m == 'm'):
                    out.add((k, 'm' if d.get('m') else 's', m))
        return out


def contexts(B):
    """(per function the cell-held types that may be held by it or any caller when it is entered, calls made with what is held there)."""
    P = B.P
    into, sites, most = defaultdict(set), [], {}
    for u, f in P.fns.items():
        ever = set()

        def visit(op, live, line, u=u, ever=ever):
            held = frozenset((x[1], x[2]) for x in live)
            ever |= held
            if P.fns.get(op.get('ruid'), {}).get('kind') != 'closure':      # the library's own closures are no callbacks
                sites.append((u, canon_path(op.get('fn', '')), held, line))
            for v, _ in B.edges(op):
                into[v].add((u, held))
        B.guards(f, visit)
        most[u] = frozenset(ever)
    for u, f in P.fns.items():
        for _, k, v in P.callee_uids(f):
            if k == 'closure' and v in P.fns:
                into[v].add((u, most[u]))
    ctx = {u: B.received(f) for u, f in P.fns.items()}
    work = set(P.fns)
    out = defaultdict(set)
    for v, ss in into.items():
        for u, _ in ss:
            out[u].add(v)
    while work:
        v = work.pop()
        n = set(ctx[v])
        for u, h in into[v]:
            n |= ctx[u] | h
        if n != ctx[v]:
            ctx[v] = n
            work |= out[v]
    return ctx, sites


# objects held through a trait object: the base struct is inside the same cell
BASE = {'b2_contact::B2contact': 'b2_contact::B2contactDynTrait', 'b2_joint::B2joint': 'b2_joint::B2jointTraitDyn'}
