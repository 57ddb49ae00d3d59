"""What the functions of the storage have to do, as constraints over the outcomes of executing them symbolically.

Run under python3-vt: mirspec.py <mir file> <mode> <budget s> <prop> ... -> JSON on stdout.
"""
import json, os, sys, time
import z3
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mirsym import *

def up(x, a):
    return (x + (a - 1)) & ~(a - 1)
def aligned(x, a):
    return (x & (a - 1)) == 0
def ext(a):
    return z3.ZeroExt(64, a)

CONF = [z3.BitVec(n, W) for n in ('SA', 'MVA', 'VA', 'MAX')]
SA, MVA, VA, MAX = CONF
TS, TA = z3.BitVec('T_size', W), z3.BitVec('T_align', W)
PTR, CAP, POS = z3.BitVec('ptr', W), z3.BitVec('cap', W), z3.BitVec('pos', W)
N, SRC = z3.BitVec('n', W), z3.BitVec('src', W)
TOP = bv(2**63)
PRODUCTS = Products([SA, MVA, VA, TA])
mul128 = PRODUCTS.get

VALID = z3.And(is_pow2(SA), z3.ULE(SA, bv(2**62)), is_pow2(MVA), z3.ULE(MVA, SA), is_pow2(VA), z3.ULE(VA, MVA),
               MAX != 0, z3.ULE(MAX, TOP - SA), aligned(MAX, MVA))
TYPE = z3.And(is_pow2(TA), z3.ULE(TA, bv(2**29)), aligned(TS, TA), z3.ULT(TS, TOP))
def inv(ptr, cap, pos):
    return [('capacity is a multiple of the maximum value alignment', aligned(cap, MVA)),
            ('capacity does not exceed the limit', z3.ULE(cap, MAX)),
            ('position does not exceed capacity', z3.ULE(pos, cap)),
            ('position is a multiple of the value alignment', aligned(pos, VA)),
            ('buffer is aligned', z3.And(aligned(ptr, SA), ptr != 0))]
STATE = z3.And(*[c for _, c in inv(PTR, CAP, POS)], z3.ULE(PTR, TOP), z3.Implies(CAP == 0, PTR == SA))
STATE_ANY_POS = z3.And(aligned(CAP, MVA), z3.ULE(CAP, MAX), z3.ULE(POS, CAP), aligned(PTR, SA), PTR != 0, z3.ULE(PTR, TOP))

class Case:
    """One function: its arguments, what may be assumed, and what has to follow"""
    def __init__(self, fn, props, pre=(), args=(), self_=True, post=None, panics=None, label=None, kind='method', subst=None):
        self.subst = subst
        self.fn, self.props, self.pre, self.args, self.self_, self.post, self.panics = fn, props, list(pre), list(args), self_, post, panics
        self.label, self.kind = label or fn, kind

def unchanged(o, ptr=True):
    return [('buffer stays', o.ptr == PTR), ('capacity stays', o.cap == CAP)]

class Obs:
    """State after an outcome"""
    def __init__(self, v, ret):
        self.ptr, self.cap, self.pos, self.ret = v[0], v[1], v[2], ret

NEED = ext(POS) + ext(N)
def npot_or_max(req):
    n, over = next_pow2(req)
    n = z3.If(z3.ULT(n, MVA), MVA, n)
    return z3.If(z3.Or(over, z3.UGT(n, MAX)), MAX, n)

def post_reserve(o):
    enough = z3.ULE(N, CAP - POS)
    grown = npot_or_max(POS + N)
    return [('C08', 'position stays', o.pos == POS),
            ('C08', 'nothing changes if there is enough room', z3.Implies(enough, z3.And(o.cap == CAP, o.ptr == PTR))),
            ('C08', 'room for what was asked for', z3.And(z3.ULE(POS, o.cap), z3.ULE(N, o.cap - POS))),
            ('C08', 'grows to next power of two or the maximum', z3.Implies(z3.Not(enough), o.cap == grown))]

START = up(POS, TA)
BYTES = mul128(TS, N)
END = ext(START) + BYTES
FITS = z3.And(z3.ULE(START, MAX), z3.ULE(END, ext(MAX)))
EMPTY = z3.Or(TS == 0, N == 0)

def post_push_empty(o):
    return [('C15', 'aligned', aligned(o.ret, TA)),
            ('C15', 'full size up to new position', z3.And(z3.ULE(o.ret, o.pos), z3.ULE(BYTES, ext(o.pos - o.ret)))),
            ('C15', 'at or after the old position', z3.Implies(z3.Not(EMPTY), z3.ULE(POS, o.ret))),
            ('C15', 'position does not go back', z3.ULE(POS, o.pos)),
            ('C06', 'lowest suitable position', z3.Implies(z3.Not(EMPTY), o.ret == START)),
            ('C06', 'no more padding than needed', z3.Implies(z3.Not(EMPTY), ext(o.pos) == (END + ext(VA - 1)) & ~ext(VA - 1))),
            ('C20', 'no space beyond alignment', z3.Implies(EMPTY, z3.ULE(o.pos, up(START, VA)))),
            ('C20', 'legal position', z3.Implies(EMPTY, z3.And(aligned(o.ret, TA), z3.ULE(o.ret, o.cap)))),
            ('C20', 'position does not go back', z3.Implies(EMPTY, z3.ULE(POS, o.pos)))]

def post_push(o):
    c = [e for e in o.events if e[0] == 'copy']
    res = [('C06', 'aligned for the type', aligned(o.ret, TA)),
           ('C06', 'lowest suitable position', z3.Implies(z3.Not(EMPTY), o.ret == START)),
           ('C06', 'no more padding than needed', z3.Implies(z3.Not(EMPTY), ext(o.pos) == (END + ext(VA - 1)) & ~ext(VA - 1))),
           ('C20', 'no space beyond alignment', z3.Implies(EMPTY, z3.ULE(o.pos, up(START, VA)))),
           ('C20', 'legal position', z3.Implies(EMPTY, z3.And(aligned(o.ret, TA), z3.ULE(o.ret, o.cap)))),
           ('C20', 'position does not go back', z3.Implies(EMPTY, z3.ULE(POS, o.pos)))]
    if len(c) > 1:
        raise Unsupported('several copies')
    if c:
        _, src, dst, cnt, size, align = c[0]
        res.append(('C07', 'copied to its position', z3.Implies(z3.Not(EMPTY), z3.And(dst == o.ptr + o.ret, src == SRC, mul128(cnt, size) == BYTES))))
        res.append(('C07', 'nothing copied if empty', z3.Implies(EMPTY, mul128(cnt, size) == 0)))
    else:
        res.append(('C07', 'copied', EMPTY))
    return res

def post_write(o):
    c = [e for e in o.events if e[0] == 'copy']
    res = [('C19', 'storage keeps its state', z3.And(o.ptr == PTR, o.cap == CAP, o.pos == POS))]
    if len(c) > 1:
        raise Unsupported('several copies')
    if c:
        _, src, dst, cnt, size, align = c[0]
        res.append(('C19', 'copied to its position', z3.Implies(z3.Not(EMPTY), z3.And(dst == PTR + AT, src == SRC, mul128(cnt, size) == BYTES))))
        res.append(('C19', 'nothing copied if empty', z3.Implies(EMPTY, mul128(cnt, size) == 0)))
    else:
        res.append(('C19', 'copied', EMPTY))
    return res

AT = z3.BitVec('at', W)
A = z3.BitVec('a', W)
T_OK = [TYPE, z3.ULE(TA, MVA)]
ONE = z3.BoolVal(True)

def pairs(m):
    ts, n = bv(m['TS']) if 'TS' in m else TS, bv(m['N']) if 'N' in m else N
    return [(x, bv(m[k])) for k, x in (('N', N), ('TS', TS), ('TA', TA)) if k in m] + ([(BYTES, mul128(ts, n))] if 'N' in m or 'TS' in m else [])
def fix(c, m):
    return z3.substitute(c, *pairs(m)) if m else c
def sub(post, **m):
    return lambda o: [(p, l, fix(c, m)) for p, l, c in post(o)]

SAME = lambda o: [('C06', 'capacity and buffer stay', z3.And(o.ptr == PTR, o.cap == CAP))]
def moved(target):
    return lambda o: [('C06', 'new position', o.pos == target), ('C06', 'capacity and buffer stay', z3.And(o.ptr == PTR, o.cap == CAP))]

def cases():
    n = [N]
    sl = [Slice(SRC, N)]
    slice_ok = [z3.ULT(BYTES, ext(TOP)), SRC != 0, aligned(SRC, TA)]
    fits1 = fix(FITS, dict(N=1))
    yield Case('new', 'C06 C08 C09', self_=False, panics=z3.BoolVal(False),
               post=lambda o: [('C08', 'empty', z3.And(o.cap == 0, o.pos == 0))])
    yield Case('with_capacity', 'C06 C08 C09', args=n, self_=False, panics=z3.UGT(N, MAX),
               post=lambda o: [('C08', 'capacity as asked for, rounded up', o.cap == up(N, MVA)), ('C08', 'empty', o.pos == 0)])
    yield Case('with_capacity_unchecked', 'C06 C08 C09', args=n, pre=[N != 0, z3.ULE(N, MAX), aligned(N, MVA)], self_=False, panics=z3.BoolVal(False),
               post=lambda o: [('C08', 'capacity as asked for', o.cap == N), ('C08', 'empty', o.pos == 0)])
    yield Case('reserve', 'C06 C08 C09', args=n, panics=z3.UGT(NEED, ext(MAX)), post=post_reserve)
    yield Case('shrink_to_fit', 'C06 C08 C09', panics=z3.BoolVal(False),
               post=lambda o: [('C06', 'position stays', o.pos == POS), ('C06', 'capacity is the least possible', o.cap == up(POS, MVA))])
    yield Case('clear', 'C06 C10', panics=z3.BoolVal(False), post=lambda o: moved(bv(0))(o) + [('C10', 'capacity stays', o.cap == CAP), ('C10', 'empty', o.pos == 0)])
    yield Case('set_pos', 'C06', args=[AT], pre=[z3.ULE(AT, CAP), aligned(AT, VA)], panics=z3.BoolVal(False), post=moved(AT))
    yield Case('align', 'C06', args=[A], pre=[is_pow2(A), z3.ULE(VA, A), z3.ULE(A, MVA)], panics=z3.BoolVal(False), post=moved(up(POS, A)))
    yield Case('align_for', 'C06', pre=T_OK, panics=z3.BoolVal(False), post=moved(z3.If(z3.UGT(TA, VA), START, POS)))
    yield Case('align_after', 'C06', pre=T_OK + [z3.Implies(aligned(TS, VA), aligned(POS, VA))], kind='anypos', panics=z3.BoolVal(False), post=moved(up(POS, VA)))
    yield Case('align_after_any', 'C06', kind='anypos', panics=z3.BoolVal(False), post=moved(up(POS, VA)))
    yield Case('push_empty_slice', 'C06 C09 C15 C20', args=n, pre=T_OK, panics=z3.Not(FITS), post=post_push_empty)
    yield Case('push_empty', 'C06 C09 C15 C20', pre=T_OK, panics=z3.Not(fits1), post=sub(post_push_empty, N=1))
    yield Case('push_slice', 'C06 C07 C09 C20', args=sl, pre=T_OK + slice_ok, panics=z3.Not(FITS), post=post_push)
    yield Case('push', 'C06 C07 C09 C20', args=[SRC], pre=T_OK + [SRC != 0, aligned(SRC, TA)], panics=z3.Not(fits1), post=sub(post_push, N=1))
    yield Case('push_bytes', 'C06 C07 C09 C20', args=sl, pre=[z3.ULT(N, TOP), SRC != 0], panics=fix(z3.Not(FITS), dict(TS=1, TA=1)),
               post=sub(post_push, TS=1, TA=1), subst=dict(TS=1, TA=1))
    yield Case('write_slice', 'C19', args=[AT] + sl, pre=T_OK + slice_ok + [aligned(AT, TA), z3.ULE(ext(AT) + BYTES, ext(CAP))],
               panics=z3.BoolVal(False), post=post_write)
    yield Case('write', 'C19', args=[AT, SRC], pre=T_OK + [SRC != 0, aligned(SRC, TA), aligned(AT, TA), z3.ULE(ext(AT) + ext(TS), ext(CAP))],
               panics=z3.BoolVal(False), post=sub(post_write, N=1))
    for f in ('read', 'read_mut'):
        yield Case(f, 'C19', args=[AT], pre=T_OK + [aligned(AT, TA), z3.ULE(ext(AT) + ext(TS), ext(POS)), CAP != 0], panics=z3.BoolVal(False),
                   post=lambda o: [('C19', 'address', o.ret == PTR + AT), ('C19', 'state', z3.And(o.ptr == PTR, o.cap == CAP, o.pos == POS))])
    for f in ('ptr', 'mut_ptr'):
        yield Case(f, 'C19', args=[AT], pre=[z3.ULE(AT, CAP), CAP != 0], panics=z3.BoolVal(False),
                   post=lambda o: [('C19', 'address', o.ret == PTR + AT), ('C19', 'state', z3.And(o.ptr == PTR, o.cap == CAP, o.pos == POS))])
    for f in ('as_ptr', 'as_mut_ptr'):
        yield Case(f, 'C19', panics=z3.BoolVal(False),
                   post=lambda o: [('C19', 'address', o.ret == PTR), ('C19', 'state', z3.And(o.ptr == PTR, o.cap == CAP, o.pos == POS))])
    yield Case('capacity', 'C06', panics=z3.BoolVal(False), post=lambda o: [('C06', 'reports capacity', o.ret == CAP)])
    yield Case('pos', 'C06', panics=z3.BoolVal(False), post=lambda o: [('C06', 'reports position', o.ret == POS)])
    yield Case('drop', 'C09', panics=z3.BoolVal(False), kind='drop', post=lambda o: [])

def ledger(events, cap, ptr, pos, final):
    """Allocator's requirements on the events of a path. final: (ptr, cap) the storage has afterwards, or None after drop"""
    held_p, held_s = ptr, cap
    res = []
    for e in events:
        if e[0] == 'alloc':
            res += [('C09', 'no block is held when one is allocated', held_s == 0), ('C09', 'size not zero', e[1] != 0),
                    ('C09', 'storage alignment', e[2] == SA), ('C09', 'size allowed', z3.ULE(e[1], TOP - SA))]
            held_p, held_s = e[3], e[1]
        elif e[0] == 'realloc':
            res += [('C09', 'resizes the block it has', z3.And(held_s != 0, e[1] == held_p, e[2] == held_s, e[3] == SA)),
                    ('C09', 'size not zero', e[4] != 0), ('C09', 'size allowed', z3.ULE(e[4], TOP - SA)),
                    ('C07', 'resize keeps contents', z3.ULE(pos, e[4]))]
            held_p, held_s = e[5], e[4]
        elif e[0] == 'dealloc':
            res += [('C09', 'releases the block it has', z3.And(held_s != 0, e[1] == held_p, e[2] == held_s, e[3] == SA))]
            if final is not None:
                res += [('C07', 'release keeps contents', pos == 0)]
            held_s = bv(0)
    if final is None:
        res += [('C09', 'block is released', held_s == 0)]
    else:
        res += [('C09', 'block size is the capacity', held_s == final[1]),
                ('C09', 'buffer is the block', z3.Implies(final[1] != 0, held_p == final[0]))]
    return res

VARS = dict(SA=SA, MVA=MVA, VA=VA, MAX=MAX, T_size=TS, T_align=TA, cap=CAP, pos=POS, n=N, at=AT, a=A, src=SRC)

def small_models():
    """Preferences for counterexamples, strongest first"""
    for k in (12, 20, 30, 40):
        b = bv(1 << k)
        yield [z3.ULE(SA, bv(min(1 << k, 4096))), z3.ULE(CAP, b), z3.ULE(TS, bv(min(1 << k, 1 << 16))), z3.ULE(TA, bv(64)), z3.ULE(N, b)]
        yield [z3.ULE(SA, bv(min(1 << k, 4096))), z3.ULE(CAP, b), z3.ULE(TS, bv(min(1 << k, 1 << 16))), z3.ULE(TA, bv(64))]
    yield []

class Spec:
    def __init__(self, prog, budget):
        self.prog, self.deadline = prog, time.time() + budget
        self.stats = dict(queries=0, solver_s=0.0, max_query_s=0.0, paths=0)
        self.functions = set()
        self.candidates, self.undecided, self.decided = [], [], []

    def violates(self, eng, path, claim, name, label, mode):
        """Is path and not claim satisfiable?"""
        c = z3.simplify(claim)
        if z3.is_true(c):
            self.stats['trivial'] = self.stats.get('trivial', 0) + 1
            return False
        ok, _ = eng.check(path + [z3.Not(claim)])
        if ok is False:
            return False
        if ok is None:
            self.undecided.append('%s: %s: solver gave up' % (name, label))
            return None
        for pref in small_models():
            ok, m = eng.check(path + [z3.Not(claim)] + pref, 5000 if pref else 20000, exact=True)
            if ok or (ok is False and not pref):
                break
        if ok is False:
            return False
        if not ok:
            self.undecided.append('%s: %s: no model' % (name, label))
            return None
        self.candidates.append(dict(fn=name, label=label, values={k: m.eval(v, model_completion=True).as_long() for k, v in VARS.items()}))
        return True

    def run_case(self, c, props):
        pre = [VALID] + c.pre
        if c.self_:
            pre.append(STATE_ANY_POS if c.kind == 'anypos' else STATE)
        eng = Engine(self.prog, CONF, (TS, TA), self.stats, self.deadline, base=[z3.And(*pre)], products=PRODUCTS)
        name = c.label
        try:
            ok, _ = eng.check([], 20000)
            if ok is not True:
                raise Unsupported('no state satisfies the preconditions')
            st = State()
            args = list(c.args)
            if c.self_:
                st.cells['self'] = struct('AlignedVec', [PTR, CAP, POS])
                args = [Ref('self')] + args
            f = self.prog.method(c.fn)
            outs = eng.run(f, args, st)
            n = 0
            returned = False
            for o in outs:
                path = o.state.path
                if o.kind == 'abort':
                    continue
                if o.kind in ('ub', 'reject'):
                    self.violates(eng, path, z3.BoolVal(False), name, o.kind + ': ' + o.why, c)
                    continue
                cell = o.state.cells.get('self')
                if o.kind == 'panic':
                    claims = [('C08 C15 C06', 'panics without need', c.panics)]
                    if cell is not None:
                        ob = Obs(cell, None)
                        claims += [('C08 C15', 'usable after panic: ' + l, x) for l, x in inv(ob.ptr, ob.cap, ob.pos)]
                        claims += ledger(o.state.events, CAP, PTR, POS, (ob.ptr, ob.cap))
                        claims.append(('C08 C15', 'position after panic', z3.And(z3.ULE(POS, ob.pos), fix(z3.ULE(ob.pos, up(up(POS, TA), VA)), c.subst) if c.fn != 'reserve' else ob.pos == POS)))
                    else:
                        claims += ledger(o.state.events, bv(0), PTR, bv(0), (PTR, bv(0)))
                else:
                    returned = True
                    if not c.self_:
                        ob = Obs(o.value, None)
                    else:
                        ob = Obs(cell, o.value)
                    ob.events = o.state.events
                    claims = [('C08 C15 C06', 'does not panic', z3.Not(c.panics))] + list(c.post(ob))
                    if c.kind == 'drop':
                        claims += ledger(o.state.events, CAP, PTR, POS, None)
                    else:
                        claims += [('C06', l, x) for l, x in inv(ob.ptr, ob.cap, ob.pos)]
                        if c.self_:
                            claims += ledger(o.state.events, CAP, PTR, POS, (ob.ptr, ob.cap))
                        else:
                            claims += ledger(o.state.events, bv(0), PTR, bv(0), (ob.ptr, ob.cap))
                for p, l, x in claims:
                    if not set(p.split()) & props:
                        continue
                    n += 1
                    if self.violates(eng, path, x, name, l, c):
                        break
            if not returned:
                self.undecided.append(name + ': never returns')
            self.decided.append('%s: %d paths, %d claims' % (name, len(outs), n))
        except Unsupported as e:
            self.undecided.append('%s: %s' % (name, e))
        except (KeyError, IndexError, TypeError, AttributeError, z3.Z3Exception, AssertionError, ValueError) as e:
            self.undecided.append('%s: not understood: %r' % (name, e))
        self.functions |= eng.used

    # C24

    def run_failing(self, c):
        """Where the allocator fails this is reported, with the layout asked for, and storage is as it was"""
        pre = [VALID] + c.pre
        if c.self_:
            pre.append(STATE_ANY_POS if c.kind == 'anypos' else STATE)
        eng = Engine(self.prog, CONF, (TS, TA), self.stats, self.deadline, base=[z3.And(*pre)], products=PRODUCTS, may_fail=True)
        name = 'oom-' + c.label
        try:
            st = State()
            args = list(c.args)
            if c.self_:
                st.cells['self'] = struct('AlignedVec', [PTR, CAP, POS])
                args = [Ref('self')] + args
            outs = eng.run(self.prog.method(c.fn), args, st)
            n = 0
            for o in outs:
                path, events = o.state.path, o.state.events
                got = {'alloc': 3, 'realloc': 5}
                asks = [(k, e[got[e[0]]] == 0) for k, e in enumerate(events) if e[0] in got]
                if o.kind != 'abort':
                    if asks:
                        n += 1
                        self.violates(eng, path, z3.Not(z3.Or([f for _, f in asks])), name, 'goes on without memory', c)
                    continue
                if not asks or events[-1][0] != 'report':
                    self.undecided.append(name + ': report without request')
                    continue
                k, failed = asks[-1]
                e, rep = events[k], events[-1]
                size, align = (e[1], e[2]) if e[0] == 'alloc' else (e[4], e[3])
                claims = [('only failures are reported', failed), ('report names what was asked for', z3.And(rep[1] == size, rep[2] == align))]
                if len(asks) > 1:
                    claims.append(('earlier failure is reported', z3.Not(z3.Or([f for _, f in asks[:-1]]))))
                cell = o.state.cells.get('self')
                before = events[:k] + events[k + 1:-1]
                if cell is not None:
                    ob = Obs(cell, None)
                    claims += [('afterwards ' + l, x) for l, x in inv(ob.ptr, ob.cap, ob.pos)]
                    claims += [('afterwards ' + l, x) for _, l, x in ledger(before, CAP, PTR, POS, (ob.ptr, ob.cap))]
                    if c.fn in ('reserve', 'shrink_to_fit'):
                        claims.append(('position stays', ob.pos == POS))
                    else:
                        claims.append(('position stays but for alignment', z3.And(z3.ULE(POS, ob.pos), fix(z3.ULE(ob.pos, up(up(POS, TA), VA)), c.subst))))
                else:
                    claims += [(l, x) for _, l, x in ledger(before, bv(0), PTR, bv(0), (PTR, bv(0)))]
                for l, x in claims:
                    n += 1
                    if self.violates(eng, path, x, name, l, c):
                        break
            self.decided.append('%s: %d paths, %d claims' % (name, len(outs), n))
        except Unsupported as e:
            self.undecided.append('%s: %s' % (name, e))
        except (KeyError, IndexError, TypeError, AttributeError, z3.Z3Exception, AssertionError, ValueError) as e:
            self.undecided.append('%s: not understood: %r' % (name, e))
        self.functions |= eng.used

    # C21

    def run_validity(self):
        eng = Engine(self.prog, CONF, (TS, TA), self.stats, self.deadline, products=PRODUCTS)
        try:
            f = self.prog.const('ASSERT_ALIGNMENTS_VALID')
            if f is None:
                raise Unsupported('no such constant')
            outs = eng.run(f, [], State())
            for o in outs:
                if o.kind == 'return':
                    self.violates(eng, o.state.path, VALID, 'validity', 'invalid configuration is accepted', None)
                elif o.kind in ('reject', 'panic'):
                    self.violates(eng, o.state.path, z3.Not(VALID), 'validity', 'valid configuration is rejected', None)
                else:
                    raise Unsupported(o.kind)
            self.decided.append('ASSERT_ALIGNMENTS_VALID: %d paths' % len(outs))
        except Unsupported as e:
            self.undecided.append('validity: %s' % e)
        except (KeyError, IndexError, TypeError, AttributeError, z3.Z3Exception, AssertionError, ValueError) as e:
            self.undecided.append('validity: not understood: %r' % e)
        self.functions |= eng.used

    def run_constructor(self, label, find, args):
        """No constructor returns in an invalid configuration"""
        eng = Engine(self.prog, CONF, (TS, TA), self.stats, self.deadline, base=[z3.Not(VALID)], products=PRODUCTS)
        try:
            f = find()
            if f is None:
                raise Unsupported('not found')
            outs = eng.run(f, args, State())
            for o in outs:
                if o.kind != 'reject':
                    self.violates(eng, o.state.path, z3.BoolVal(False), label, 'invalid configuration is not rejected', None)
            self.decided.append('%s: %d paths' % (label, len(outs)))
        except Unsupported as e:
            self.undecided.append('%s: %s' % (label, e))
        except (KeyError, IndexError, TypeError, AttributeError, z3.Z3Exception, AssertionError, ValueError) as e:
            self.undecided.append('%s: not understood: %r' % (label, e))
        self.functions |= eng.used

    def run_types(self, name, args):
        """Types of greater alignment than the configuration allows are rejected"""
        eng = Engine(self.prog, CONF, (TS, TA), self.stats, self.deadline, base=[z3.And(VALID, STATE, TYPE, TS != 0, z3.UGT(TA, MVA))], products=PRODUCTS)
        label = 'type::' + name
        try:
            st = State()
            st.cells['self'] = struct('AlignedVec', [PTR, CAP, POS])
            outs = eng.run(self.prog.method(name), [Ref('self')] + args, st)
            for o in outs:
                if o.kind != 'reject':
                    self.violates(eng, o.state.path, z3.BoolVal(False), label, 'type with too great alignment is not rejected', None)
            self.decided.append('%s: %d paths' % (label, len(outs)))
        except Unsupported as e:
            self.undecided.append('%s: %s' % (label, e))
        except (KeyError, IndexError, TypeError, AttributeError, z3.Z3Exception, AssertionError, ValueError) as e:
            self.undecided.append('%s: not understood: %r' % (label, e))
        self.functions |= eng.used

SERIALIZERS = ('PureCopySerializer', 'PtrOffsetSerializer', 'CompleteSerializer')

def special(sp, only):
    p = sp.prog
    if only == '%validity':
        sp.run_validity()
    if only == '%constructors':
        for name, args in (('new', []), ('with_capacity', [N]), ('with_capacity_unchecked', [N])):
            sp.run_constructor('AlignedVec::' + name, lambda: p.method(name), args)
        for ser in SERIALIZERS:
            for name, args in (('new', []), ('with_capacity', [N])):
                sp.run_constructor('%s::%s' % (ser, name), lambda: p.find('%s::%s' % (ser, name)), args)
    if only.startswith('%oom-'):
        for c in cases():
            if c.label == only[5:]:
                sp.run_failing(c)
    if only == '%types':
        for name, args in (('push', [SRC]), ('push_slice', [Slice(SRC, N)]), ('push_empty', []), ('push_empty_slice', [N]), ('align_for', [])):
            sp.run_types(name, args)

ALLOCATING = ('with_capacity', 'with_capacity_unchecked', 'reserve', 'shrink_to_fit', 'push_empty_slice', 'push_empty', 'push_slice', 'push', 'push_bytes')
SPECIAL = {'C21': ['%validity', '%constructors'], 'C23': ['%types'], 'C24': ['%oom-' + f for f in ALLOCATING]}

def main():
    if sys.argv[1] == '--list':
        prop = sys.argv[2]
        json.dump(SPECIAL.get(prop, []) + [c.label for c in cases() if prop in c.props.split()], sys.stdout)
        return
    path, budget, props = sys.argv[1], float(sys.argv[2]), set(sys.argv[3:])
    only = os.environ.get('MIR_ONLY')
    sp = Spec(Program(open(path).read()), budget)
    if only and only.startswith('%'):
        special(sp, only)
    for c in cases():
        if only == c.label or not only and set(c.props.split()) & props:
            sp.run_case(c, props)
    json.dump(dict(stats=sp.stats, functions=sorted(sp.functions), candidates=sp.candidates, undecided=sp.undecided, decided=sp.decided,
                   z3=z3.get_version_string()), sys.stdout, indent=1)

if __name__ == '__main__':
    main()
