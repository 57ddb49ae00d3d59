"""Symbolic executor for MIR (as printed by rustc), over z3 bit vectors.

Executes functions path by path. Integers are bit vectors, structs tuples,
references either point to a cell of the state or are plain addresses (for
memory which the code only passes on). Anything not understood raises
Unsupported: then the engine decides nothing, and says so.
"""
import re, itertools, time
import z3

class Unsupported(Exception):
    pass

W = 64
def bv(n, w=W):
    return z3.BitVecVal(n, w)

class Ref:
    """Reference to a place in the state"""
    def __init__(self, cell, proj=()):
        self.cell, self.proj = cell, proj
class Opt:
    def __init__(self, some, val):
        self.some, self.val = some, val
class Res:
    """Result or ControlFlow: the first variant, with its value, or the second one, with its own"""
    def __init__(self, ok, val, err=None):
        self.ok, self.val, self.err = ok, val, err
class ByRef:
    """Argument for a closure which takes a reference"""
    def __init__(self, val):
        self.val = val
class Slice:
    def __init__(self, ptr, len):
        self.ptr, self.len = ptr, len
class Opaque:
    def __init__(self, what):
        self.what = what
    def __repr__(self):
        return 'Opaque(%s)' % self.what
class Struct(tuple):
    """Named struct: tuple of fields, with name"""
    name = ''
    def set(self, i, v):
        s = Struct(self[:i] + (v,) + self[i + 1:])
        s.name = self.name
        return s
def struct(name, fields):
    s = Struct(fields)
    s.name = name
    return s
class Layout:
    def __init__(self, size, align):
        self.size, self.align = size, align

INT = {'usize': (64, 0), 'isize': (64, 1), 'u64': (64, 0), 'i64': (64, 1), 'u32': (32, 0), 'i32': (32, 1), 'u16': (16, 0),
       'i16': (16, 1), 'u8': (8, 0), 'i8': (8, 1), 'u128': (128, 0), 'i128': (128, 1)}

# -- parsing -------------------------------------------------------------------

class Fn:
    def __init__(self, kind, name, header):
        self.kind, self.name, self.header = kind, name, header
        self.blocks, self.types, self.value = {}, {}, None
        self.args = []

def split_top(s, sep=','):
    out, depth, cur, i = [], 0, '', 0
    while i < len(s):
        c = s[i]
        if c in '([{<':
            depth += 1
        elif c in ')]}' or (c == '>' and s[i - 1] not in '-='):
            depth -= 1
        if c == sep and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out

def strip_strings(line):
    """Replace string literals (and comments) so that they cannot confuse the parser."""
    line = re.sub(r'b?"(?:[^"\\]|\\.)*"', '@STR', line)
    return re.sub(r'\s*//.*$', '', line)

def parse(text):
    fns, cur, block = [], None, None
    for raw in text.split('\n'):
        line = strip_strings(raw.rstrip())
        if not line.strip():
            continue
        if cur is None:
            m = re.match(r'^(?:pub )?fn (.*?)(\(_1: .*|\(\)) -> (.*) \{$', line)
            if m:
                cur = Fn('fn', m.group(1), line)
                a = m.group(2)
                cur.ret = m.group(3)
                for part in split_top(a[1:].rstrip(')') if a != '()' else ''):
                    mm = re.match(r'_(\d+): (.*)', part)
                    if mm:
                        cur.args.append(int(mm.group(1)))
                        cur.types[int(mm.group(1))] = mm.group(2)
                fns.append(cur)
                continue
            m = re.match(r'^(?:const|static(?: mut)?) (.*): (\S.*?) = (\{|const .*;)$', line)
            if m:
                f = Fn('const', m.group(1), line)
                f.ret = m.group(2)
                fns.append(f)
                if m.group(3) == '{':
                    cur = f
                else:
                    f.value = m.group(3)[:-1]
                continue
            m = re.match(r'^(\S+::\{constant#\d+\}): (\S.*?) = (\{|const .*;)$', line)
            if m:
                f = Fn('const', m.group(1), line)
                f.ret = m.group(2)
                if m.group(3) == '{':
                    cur = f
                else:
                    f.value = m.group(3)[:-1]
                fns.append(f)
                continue
            if line.endswith('{'):
                cur = Fn('other', '?', line)
            continue
        if line == '}':
            cur, block = None, None
            continue
        s = line.strip()
        m = re.match(r'let (?:mut )?_(\d+): (.*);$', s)
        if m:
            cur.types[int(m.group(1))] = m.group(2)
            continue
        m = re.match(r'bb(\d+)(?: \(cleanup\))?: \{$', s)
        if m:
            block = cur.blocks[int(m.group(1))] = []
            continue
        if block is not None:
            if s == '}':
                block = None
            elif not re.match(r'(StorageLive|StorageDead|ConstEvalCounter|nop|FakeRead|PlaceMention|AscribeUserType|Retag|Coverage|debug )', s):
                block.append(s)
    return [f for f in fns if f.kind != 'other']

# -- program ---------------------------------------------------------------------

class Program:
    """config: symbolic values of the four configuration constants, in order of the parameters of AlignedVec"""
    PARAMS = ('STORAGE_ALIGNMENT', 'MAX_VALUE_ALIGNMENT', 'VALUE_ALIGNMENT', 'MAX_CAPACITY')

    def __init__(self, text):
        self.fns = parse(text)
        self.by_last = {}
        for f in self.fns:
            last = re.sub(r'::<[^<>]*>$', '', f.name).split('::')[-1]
            self.by_last.setdefault(last, []).append(f)
        # Which impl blocks are of `AlignedVec`
        groups = {}
        for f in self.fns:
            m = re.search(r'<impl at ([^>]*)>', f.name)
            f.span = m.group(1) if m else None
            if f.span:
                groups.setdefault(f.span, []).append(f)
        self.self_type = {}
        for span, fs in groups.items():
            for f in fs:
                m = re.search(r'_1: &(?:mut )?([A-Z]\w*)<', f.header) or re.search(r'_1: ([A-Z]\w*)<', f.header) or re.search(r'-> ([A-Z]\w*)<', f.header)
                if m and m.group(1) not in ('NonNull', 'Option', 'Result'):
                    self.self_type[span] = m.group(1)
        for f in self.fns:
            f.self_type = self.self_type.get(f.span)
            m = re.search(r'\b(?:AlignedVec|[A-Z]\w*Serializer)<([A-Z]\w*), ([A-Z]\w*), ([A-Z]\w*), ([A-Z]\w*)[,>]', f.header + ' '.join(f.types.values()))
            if m:
                f.params = dict(zip(m.groups(), range(4)))
            else:
                # E.g. `alloc(usize)`: take names from another member of the impl
                f.params = {n: i for i, n in enumerate(self.PARAMS)}
                for g in groups.get(f.span, []):
                    m = re.search(r'\bAlignedVec<([A-Z]\w*), ([A-Z]\w*), ([A-Z]\w*), ([A-Z]\w*)[,>]', g.header)
                    if m:
                        f.params = dict(zip(m.groups(), range(4)))
                        break

        # Constants which a function mentions anywhere are evaluated for every instance of it
        for f in self.fns:
            if f.kind == 'fn' and f.blocks:
                req = []
                for b in f.blocks.values():
                    for line in b:
                        for c in Engine.consts_in(line):
                            if re.search(r'(^|::)[A-Z][A-Z0-9_]*$', c) and c not in req and c not in f.params:
                                req.append(c)
                f.blocks[0] = ['REQ const %s;' % c for c in req] + f.blocks[0]

    def find(self, callee, frame_fn=None):
        """Function for a callee expression, or None"""
        c = callee.strip()
        m = re.match(r'^<(.*) as ([^<>]*?)(<.*>)?>::(\w+)(::<.*>)?$', c)
        if m:
            ty, trait, meth = m.group(1), m.group(2).split('::')[-1], m.group(4)
            base = re.sub(r'<.*', '', ty).split('::')[-1]
            if base in ('Self', 'S'):
                base = 'AlignedVec'
            cands = [f for f in self.by_last.get(meth, []) if f.span and f.self_type == base]
            if not cands:
                cands = [f for f in self.by_last.get(meth, []) if not f.span and f.name.split('::')[-2:-1] == [trait]]
            return self.pick(cands)
        plain = c
        while True:
            n = re.sub(r'::<[^<>]*>', '', plain)
            n = re.sub(r'(?<!:)<[^<>]*>', '', n)
            if n == plain:
                break
            plain = n
        parts = plain.split('::')
        meth = parts[-1]
        cands = self.by_last.get(meth, [])
        if len(parts) == 1:
            return self.pick([f for f in cands if not f.span and f.kind == 'fn'])
        ty = parts[-2]
        if ty == 'Self':
            ty = 'AlignedVec'
        got = [f for f in cands if f.span and f.self_type == ty]
        if not got:
            got = [f for f in cands if not f.span and f.name.split('::')[-2:] == parts[-2:]]
        if not got:
            got = [f for f in cands if not f.span and (f.name == meth and ty[:1].islower())]
        return self.pick(got)

    @staticmethod
    def pick(cands):
        if not cands:
            return None
        # `const fn`s appear twice, once for compile time evaluation
        heads = {f.header for f in cands}
        if len(heads) > 1:
            raise Unsupported('ambiguous callee: ' + ' | '.join(sorted(heads))[:300])
        return cands[0]

    def method(self, name):
        """Method of AlignedVec: from its impls, or default of a trait"""
        got = [f for f in self.by_last.get(name, []) if f.kind == 'fn' and f.span and f.self_type == 'AlignedVec']
        if not got:
            got = [f for f in self.by_last.get(name, []) if f.kind == 'fn' and not f.span and
                   f.name.split('::')[-2:-1] and f.name.split('::')[-2] in ('Storage', 'RandomAccessStorage', 'ContiguousStorage')]
        f = self.pick(got)
        if f is None:
            raise Unsupported('no method ' + name)
        return f

    def const(self, name):
        got = [f for f in self.by_last.get(name, []) if f.kind == 'const']
        return self.pick(got)

# -- execution -------------------------------------------------------------------

class Frame:
    __slots__ = ('fn', 'bb', 'id', 'dest', 'ret', 'unwind', 'ty', 'reject', 'idx', 'wrap')
    def copy(self):
        f = Frame()
        for k in self.__slots__:
            setattr(f, k, getattr(self, k))
        return f

class State:
    def __init__(self):
        self.cells, self.frames, self.path, self.events = {}, [], [], []
        self.steps = 0
        self.consts = {}
    def fork(self):
        s = State()
        s.cells = dict(self.cells)
        s.frames = [f.copy() for f in self.frames]
        s.path = list(self.path)
        s.events = list(self.events)
        s.steps = self.steps
        s.consts = dict(self.consts)
        return s

class Outcome:
    def __init__(self, kind, state, value=None, why=''):
        self.kind, self.state, self.value, self.why = kind, state, value, why

def smear(x):
    for k in (1, 2, 4, 8, 16, 32):
        x = x | z3.LShR(x, k)
    return x

def is_pow2(x):
    return z3.And(x != 0, (x & (x - 1)) == 0)

def next_pow2(x):
    """(result, overflows)"""
    n = smear(x - 1) + 1
    return z3.If(z3.ULE(x, 1), bv(1), n), z3.UGT(x, bv(1 << 63))

class Products:
    """Products of two unknowns are symbols of their own, of which only some facts are known. What holds whatever their
    values are holds for the products. Counterexamples are sought with the definitions added."""
    def __init__(self, alignments):
        self.table, self.facts, self.defs, self.alignments = {}, [], [], alignments

    def get(self, a, b):
        """128 bit product"""
        a, b = z3.simplify(a), z3.simplify(b)
        for x, y in ((a, b), (b, a)):
            if z3.is_bv_value(x):
                return z3.simplify(z3.ZeroExt(64, x) * z3.ZeroExt(64, y))
        key = tuple(sorted((a.get_id(), b.get_id())))
        if key not in self.table:
            p = z3.BitVec('product%d' % len(self.table), 128)
            ea, eb = z3.ZeroExt(64, a), z3.ZeroExt(64, b)
            self.table[key] = (p, a, b)
            self.facts += [z3.ULE(p, z3.BitVecVal((2**64 - 1)**2, 128)), (p == 0) == z3.Or(a == 0, b == 0), z3.Implies(b != 0, z3.ULE(ea, p)), z3.Implies(a != 0, z3.ULE(eb, p)),
                           z3.Implies(b == 1, p == ea), z3.Implies(a == 1, p == eb)]
            for al in self.alignments:
                for x in (a, b):
                    self.facts.append(z3.Implies(x & (al - 1) == 0, z3.Extract(63, 0, p) & (al - 1) == 0))
            self.defs.append(p == ea * eb)
        return self.table[key][0]

class Engine:
    MAX_STEPS = 3000
    MAX_PATHS = 400

    def __init__(self, prog, config, ty, stats, deadline, timeout_ms=20000, base=(), products=None, may_fail=False):
        self.may_fail = may_fail    # allocator may return null
        self.products = products
        self.p, self.config, self.ty, self.stats = prog, config, ty, stats
        self.deadline, self.timeout_ms = deadline, timeout_ms
        self.base = list(base)
        self.ids = itertools.count()
        self.used = set()
        self.fresh = itertools.count()
        self.prims = {}

    # solver
    def check(self, constraints, timeout_ms=None, exact=False):
        s = z3.SolverFor('QF_BV')
        s.set('timeout', timeout_ms or self.timeout_ms)
        s.add(*self.base)
        s.add(*self.products.facts)
        if exact:
            s.add(*self.products.defs)
        s.add(*constraints)
        t = time.time()
        r = s.check()
        dt = time.time() - t
        self.stats['queries'] += 1
        self.stats['solver_s'] += dt
        self.stats['max_query_s'] = max(self.stats['max_query_s'], dt)
        if r == z3.sat:
            return True, s.model()
        if r == z3.unsat:
            return False, None
        return None, None

    def feasible(self, path):
        ok, _ = self.check(path, 5000)
        return ok is not False

    # cells
    def read_proj(self, v, proj):
        for p in proj:
            if isinstance(v, Opt):
                if p == ('some',):
                    v = (v.val,)
                    continue
                raise Unsupported('projection of option')
            if isinstance(v, Res):
                if p == ('some',):
                    v = (v.val,)
                    continue
                if p == ('err',):
                    v = (v.err,)
                    continue
                raise Unsupported('projection of result')
            if isinstance(p, int) and isinstance(v, tuple):
                v = v[p]
            elif p == 0 and isinstance(v, z3.ExprRef):
                continue        # transparent wrapper
            else:
                raise Unsupported('projection %r of %r' % (p, v))
        return v

    def write_proj(self, v, proj, new):
        if not proj:
            return new
        p = proj[0]
        if isinstance(p, int) and isinstance(v, tuple):
            n = self.write_proj(v[p], proj[1:], new)
            return v.set(p, n) if isinstance(v, Struct) else v[:p] + (n,) + v[p + 1:]
        raise Unsupported('write to projection')

    def place(self, st, fr, s):
        """-> ('cell', id, proj) or ('raw', value)"""
        s = s.strip()
        m = re.match(r'^_(\d+)$', s)
        if m:
            return ('cell', (fr.id, int(m.group(1))), ())
        if s.startswith('(*') and s.endswith(')') and self.balanced(s[1:-1]):
            v = self.load(st, self.place(st, fr, s[2:-1]))
            if isinstance(v, Ref):
                return ('cell', v.cell, v.proj)
            return ('raw', v)
        m = re.match(r'^\((.*) as (\w+)\)$', s)
        if m and self.balanced(m.group(1)):
            b = self.place(st, fr, m.group(1))
            if m.group(2) in ('Some', 'Ok', 'Continue') and b[0] == 'cell':
                return ('cell', b[1], b[2] + (('some',),))
            if m.group(2) in ('Err', 'Break') and b[0] == 'cell':
                return ('cell', b[1], b[2] + (('err',),))
            raise Unsupported('downcast ' + s)
        if s.startswith('(') and s.endswith(')'):
            inner = s[1:-1]
            # `P.k: Ty`
            depth = 0
            for i, c in enumerate(inner):
                if c == '(':
                    depth += 1
                elif c == ')':
                    depth -= 1
                elif c == '.' and depth == 0:
                    mm = re.match(r'(\d+): ', inner[i + 1:])
                    if mm:
                        b = self.place(st, fr, inner[:i])
                        if b[0] != 'cell':
                            raise Unsupported('field of memory: ' + s)
                        return ('cell', b[1], b[2] + (int(mm.group(1)),))
        raise Unsupported('place ' + s)

    @staticmethod
    def balanced(s):
        d = 0
        for c in s:
            if c == '(':
                d += 1
            elif c == ')':
                d -= 1
                if d < 0:
                    return False
        return d == 0

    def load(self, st, pl):
        if pl[0] == 'raw':
            raise Unsupported('reads memory behind a pointer')
        if pl[1] not in st.cells:
            raise Unsupported('read of uninitialized local')
        return self.read_proj(st.cells[pl[1]], pl[2])

    def store(self, st, pl, v):
        if pl[0] == 'raw':
            raise Unsupported('writes memory behind a pointer')
        if not pl[2]:
            st.cells[pl[1]] = v
        else:
            st.cells[pl[1]] = self.write_proj(st.cells.get(pl[1]), pl[2], v)

    # constants
    def type_of(self, name, fr):
        name = name.strip()
        prim = {'u8': (1, 1), 'i8': (1, 1), 'bool': (1, 1), 'u16': (2, 2), 'i16': (2, 2), 'u32': (4, 4), 'i32': (4, 4), 'u64': (8, 8),
                'i64': (8, 8), 'usize': (8, 8), 'isize': (8, 8), 'u128': (16, 16), 'i128': (16, 16), '()': (0, 1), 'char': (4, 4)}
        if name in prim:
            if name not in self.prims:
                self.prims[name] = (bv(prim[name][0]), bv(prim[name][1]))
            return self.prims[name]
        if re.match(r'^[A-Z]\w?$', name) or name == 'Self':
            return fr.ty
        raise Unsupported('type ' + name)

    def const(self, st, fr, s):
        """Value, or ('eval', const fn)"""
        s = s.strip()
        if s == '()':
            return ()
        if s == 'true':
            return z3.BoolVal(True)
        if s == 'false':
            return z3.BoolVal(False)
        if s.startswith('@STR'):
            return Opaque('str')
        if re.match(r'^\{closure@[^{}]*\}$', s):
            return struct(s, [])
        m = re.match(r'^(-?\d+)_(\w+)$', s)
        if m and m.group(2) in INT:
            return bv(int(m.group(1)), INT[m.group(2)][0])
        m = re.match(r'^(?:core::num::<impl (\w+)>|(?:std::|core::)?(\w+))::(MAX|MIN|BITS)$', s)
        if m:
            t = m.group(1) or m.group(2)
            if t in INT:
                w, signed = INT[t]
                if m.group(3) == 'BITS':
                    return bv(w, 32)
                return bv({'MAX': (1 << (w - signed)) - 1, 'MIN': -(1 << (w - 1)) if signed else 0}[m.group(3)], w)
        if s in fr.fn.params:
            return self.config[fr.fn.params[s]]
        m = re.match(r'^<(.*) as (?:core|std)::mem::SizedTypeProperties>::(\w+)$', s)
        if m:
            size, align = self.type_of(m.group(1), fr)
            if m.group(2) == 'IS_ZST':
                return size == 0
            if m.group(2) in ('SIZE', 'ALIGN'):
                return size if m.group(2) == 'SIZE' else align
        if s.startswith('alloc') or s.startswith('{alloc') or s.startswith('{0x'):
            return Opaque(s)
        f = None
        m = re.match(r'^<(.*) as ([^<>]*)(?:<.*>)?>::(\w+)$', s)
        if m:
            last, base = m.group(3), re.sub(r'<.*', '', m.group(1)).split('::')[-1]
            base = 'AlignedVec' if base in ('Self', 'S', 'BorrowedStorage') else base
            c = [f for f in self.p.by_last.get(last, []) if f.kind == 'const']
            g = [f for f in c if f.span and (f.self_type == base)]
            if not g and base == 'AlignedVec':
                # consts have no header which mentions the type
                g = [f for f in c if f.span and self.p.self_type.get(f.span) == base]
            if not g:
                g = [f for f in c if not f.span]
            f = self.p.pick(g)
        else:
            last = s.split('::')[-1]
            last = re.sub(r'<.*', '', last)
            c = [f for f in self.p.by_last.get(last, []) if f.kind == 'const']
            exact = [f for f in c if f.name == s or f.name.endswith('::' + '::'.join(s.split('::')[-2:]))]
            f = self.p.pick(exact or c)
        if f is None:
            raise Unsupported('constant ' + s)
        if f.value is not None:
            return self.const(st, fr, f.value.replace('const ', '', 1))
        return ('eval', f)

    # -- run
    def push_frame(self, st, fn, args, dest, ret, unwind, ty, reject=False, wrap=None):
        fr = Frame()
        fr.wrap = wrap      # what becomes of the value returned
        fr.fn, fr.bb, fr.id, fr.dest, fr.ret, fr.unwind, fr.ty, fr.reject, fr.idx = fn, 0, next(self.ids), dest, ret, unwind, ty, reject, 0
        if len(st.frames) > 40:
            raise Unsupported('recursion')
        if len(args) != len(fn.args):
            raise Unsupported('argument count of ' + fn.name)
        for i, v in zip(fn.args, args):
            st.cells[(fr.id, i)] = v
        st.frames.append(fr)
        self.used.add(fn.name)
        return fr

    def run(self, fn, args, state, ty=None):
        """All outcomes of calling `fn`"""
        st = state
        self.push_frame(st, fn, args, None, None, None, ty or self.ty, reject=(fn.kind == 'const'))
        work, out = [st], []
        while work:
            if time.time() > self.deadline:
                raise Unsupported('out of time')
            st = work.pop()
            r = self.step_block(st)
            for o in r:
                if isinstance(o, Outcome):
                    out.append(o)
                    self.stats['paths'] += 1
                else:
                    work.append(o)
            if len(out) + len(work) > self.MAX_PATHS:
                raise Unsupported('too many paths')
        return out

    def branch(self, st, options):
        """options: list of (cond, setter). Fork into the feasible ones"""
        res = []
        live = []
        for cond, go in options:
            c = z3.simplify(cond)
            if z3.is_false(c):
                continue
            live.append((c, go))
        if len(live) == 1 and z3.is_true(live[0][0]):
            live[0][1](st)
            return [st]
        for c, go in live:
            if z3.is_true(c) or self.feasible(st.path + [c]):
                n = st.fork()
                if not z3.is_true(c):
                    n.path.append(c)
                go(n)
                res.append(n)
        return res

    def jump(self, st, bb):
        st.frames[-1].bb, st.frames[-1].idx = bb, 0

    def panic(self, st, why):
        """Unwind. -> list of states / outcomes"""
        while st.frames:
            fr = st.frames[-1]
            if fr.reject:
                return [Outcome('reject', st, why=why)]
            st.frames.pop()
            if not st.frames:
                return [Outcome('panic', st, why=why)]
            m = re.match(r'bb(\d+)', fr.unwind or '')
            if m:
                self.jump(st, int(m.group(1)))
                st.events.append(('unwinding', why))
                return [st]
        return [Outcome('panic', st, why=why)]

    def own_panic(self, st, unwind, why):
        """Panic raised in current frame, by an assertion or an intrinsic, with its own unwind action"""
        fr = st.frames[-1]
        m = re.match(r'(?:unwind: ?)?bb(\d+)', unwind or '')
        if m and not fr.reject:
            self.jump(st, int(m.group(1)))
            st.events.append(('unwinding', why))
            return [st]
        return self.panic(st, why)

    def step_block(self, st):
        fr = st.frames[-1]
        stmts = fr.fn.blocks[fr.bb]
        st.steps += 1
        if st.steps > self.MAX_STEPS:
            raise Unsupported('too many steps')
        while True:
            s = stmts[fr.idx]
            st.steps += 1
            # Constants which have to be evaluated first
            pend = self.pending_const(st, fr, s)
            if pend is not None:
                key, fn = pend
                f2 = self.push_frame(st, fn, [], ('const', key), None, None, fr.ty, reject=True)
                return [st]
            if fr.idx == len(stmts) - 1:
                return self.terminator(st, fr, s)
            self.statement(st, fr, s)
            fr.idx += 1

    def pending_const(self, st, fr, s):
        for c in self.consts_in(s):
            try:
                v = self.const_lookup(st, fr, c)
            except Unsupported:
                if s.startswith('REQ '):
                    continue
                raise
            if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] == 'eval':
                if s.startswith('REQ ') and v[1].ret != '()':
                    continue
                return ((fr.fn.name, c, id(fr.ty)), v[1])
        return None

    @staticmethod
    def consts_in(s):
        out = []
        for m in re.finditer(r'(?<![*])\bconst ', s):
            rest = s[m.end():]
            d, i = 0, 0
            while i < len(rest):
                c = rest[i]
                if c in '<([{':
                    d += 1
                elif c in ')]}' or (c == '>' and rest[i - 1] != '-'):
                    d -= 1
                    if d < 0:
                        break
                elif d == 0 and (c in ',;' or rest[i:i + 4] == ' as '):
                    break
                i += 1
            out.append(rest[:i].strip())
        return out

    def const_lookup(self, st, fr, c):
        key = (fr.fn.name, c, id(fr.ty))
        if key in st.consts:
            return st.consts[key]
        return self.const(st, fr, c)

    def operand(self, st, fr, s):
        s = s.strip()
        if s.startswith('no_retag '):
            s = s[9:]
        if s.startswith('copy ') or s.startswith('move '):
            return self.load(st, self.place(st, fr, s[5:]))
        if s.startswith('const '):
            return self.const_lookup(st, fr, s[6:])
        if re.match(r'^[(_]', s):
            return self.load(st, self.place(st, fr, s))
        raise Unsupported('operand ' + s)

    def signed(self, fr, s):
        s = s.strip()
        m = re.match(r'^(?:copy|move) _(\d+)$', s)
        if m:
            return INT.get(fr.fn.types.get(int(m.group(1)), ''), (0, 0))[1]
        m = re.search(r'_(i\w+)$', s) or re.search(r'<impl (i\w+)>', s)
        return 1 if m else 0

    def binop(self, st, fr, op, a, b, signed):
        if z3.is_bool(a) and z3.is_bool(b):
            t = {'BitAnd': z3.And, 'BitOr': z3.Or, 'BitXor': z3.Xor, 'Eq': lambda x, y: x == y, 'Ne': lambda x, y: x != y}
            if op in t:
                return t[op](a, b)
            raise Unsupported('bool ' + op)
        if not (z3.is_bv(a) and z3.is_bv(b)):
            raise Unsupported('operands of ' + op)
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            w = a.size()
            b = z3.ZeroExt(w - b.size(), b) if b.size() < w else z3.Extract(w - 1, 0, b)
            b = b & bv(w - 1, w)
            return a << b if op.startswith('Shl') else (a >> b if signed else z3.LShR(a, b))
        if a.size() != b.size():
            raise Unsupported('widths')
        w = a.size()
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            if signed:
                raise Unsupported('signed overflow check')
            if op[0] == 'A':
                r = a + b
                return (r, z3.ULT(r, a))
            if op[0] == 'S':
                return (a - b, z3.ULT(a, b))
            return (self.mul(a, b), self.mul_overflows(a, b))
        if op == 'Rem' or op == 'Div':
            if signed:
                raise Unsupported('signed division')
            b = z3.simplify(b)
            if z3.is_bv_value(b):
                return z3.URem(a, b) if op == 'Rem' else z3.UDiv(a, b)
            if op == 'Rem' and self.check(st.path + [z3.Not(is_pow2(b))])[0] is False:
                return a & (b - 1)
            return z3.URem(a, b) if op == 'Rem' else z3.UDiv(a, b)
        f = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: self.mul(a, b), 'AddUnchecked': lambda: a + b,
             'SubUnchecked': lambda: a - b, 'MulUnchecked': lambda: self.mul(a, b), 'Offset': None,
             'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b, 'Eq': lambda: a == b, 'Ne': lambda: a != b,
             'Lt': lambda: a < b if signed else z3.ULT(a, b), 'Le': lambda: a <= b if signed else z3.ULE(a, b),
             'Gt': lambda: a > b if signed else z3.UGT(a, b), 'Ge': lambda: a >= b if signed else z3.UGE(a, b)}.get(op)
        if f is None:
            raise Unsupported('operation ' + op)
        return f()

    def mul(self, a, b):
        if a.size() != W:
            return a * b
        return z3.simplify(z3.Extract(W - 1, 0, self.products.get(a, b)))

    def mul_overflows(self, a, b):
        if a.size() != W:
            return z3.Not(z3.BVMulNoOverflow(a, b, False))
        return z3.simplify(z3.Extract(2 * W - 1, W, self.products.get(a, b)) != 0)

    def rvalue(self, st, fr, s):
        s = s.strip()
        if s.startswith('no_retag '):
            s = s[9:]
        m = re.match(r'^(\w+)\((.*)\)$', s)
        if m:
            op, args = m.group(1), split_top(m.group(2))
            if op in ('Not', 'Neg') and len(args) == 1:
                v = self.operand(st, fr, args[0])
                if op == 'Not':
                    return z3.Not(v) if z3.is_bool(v) else ~v
                return -v
            if op in ('PtrMetadata', 'Len'):
                v = self.operand(st, fr, args[0])
                if isinstance(v, Slice):
                    return v.len
                raise Unsupported(s)
            if op == 'discriminant':
                v = self.load(st, self.place(st, fr, args[0]))
                if isinstance(v, Opt):
                    return z3.If(v.some, bv(1), bv(0))
                if isinstance(v, Res):
                    return z3.If(v.ok, bv(0), bv(1))
                raise Unsupported(s)
            if op == 'CopyForDeref':
                return self.load(st, self.place(st, fr, args[0]))
            if len(args) == 2 and op[0].isupper():
                a, b = self.operand(st, fr, args[0]), self.operand(st, fr, args[1])
                if op == 'Cmp':
                    raise Unsupported(s)
                return self.binop(st, fr, op, a, b, self.signed(fr, args[0]))
        m = re.match(r'^(?:&raw (?:const|mut) |&mut |&)(.*)$', s)
        if m:
            pl = self.place(st, fr, m.group(1))
            return pl[1] if pl[0] == 'raw' else Ref(pl[1], pl[2])
        m = re.match(r'^(.*) as (.*) \((\w+)(?:\(.*\))?\)$', s)
        if m and re.match(r'^(copy|move|const) ', s):
            v = self.operand(st, fr, m.group(1))
            kind, ty = m.group(3), m.group(2)
            if kind == 'IntToInt':
                if z3.is_bool(v):
                    return z3.If(v, bv(1, INT[ty][0]), bv(0, INT[ty][0]))
                w = INT[ty][0]
                if v.size() == w:
                    return v
                if v.size() > w:
                    return z3.Extract(w - 1, 0, v)
                return (z3.SignExt if self.signed(fr, m.group(1)) else z3.ZeroExt)(w - v.size(), v)
            if kind in ('PtrToPtr', 'Transmute', 'PointerWithExposedProvenance', 'PointerExposeProvenance'):
                if isinstance(v, Slice) and not ty.endswith(']'):
                    return v.ptr
                if z3.is_bv(v) or isinstance(v, (Slice, Ref)):
                    return v
            raise Unsupported('cast ' + s)
        if re.match(r'^(copy|move|const) ', s):
            return self.operand(st, fr, s)
        m = re.match(r'^(?:std::result::)?Result::<.*>::(Ok|Err)\((.*)\)$', s)
        if m:
            v = self.operand(st, fr, m.group(2))
            return Res(z3.BoolVal(m.group(1) == 'Ok'), v, v)
        if re.match(r'^\{closure@[^{}]*\}$', s):
            return struct(s, [])
        m = re.match(r'^(\{closure@[^{}]*\}) \{ (.*) \}$', s)
        if m:
            return struct(m.group(1), [self.operand(st, fr, x.split(': ', 1)[1]) for x in split_top(m.group(2))])
        if s.startswith('(') and s.endswith(')'):
            return tuple(self.operand(st, fr, x) for x in split_top(s[1:-1]))
        m = re.match(r'^(?:std::option::)?Option::<.*>::(Some|None)(?:\((.*)\))?$', s)
        if m:
            if m.group(1) == 'None':
                return Opt(z3.BoolVal(False), bv(0))
            return Opt(z3.BoolVal(True), self.operand(st, fr, m.group(2)))
        m = re.match(r'^([A-Z]\w*)(?:::<.*>)? \{ (.*) \}$', s)
        if m:
            vals = [self.operand(st, fr, x.split(': ', 1)[1]) for x in split_top(m.group(2))]
            return struct(m.group(1), vals)
        m = re.match(r'^([A-Z]\w*)(?:::<.*>)?\((.*)\)$', s)
        if m:
            return struct(m.group(1), [self.operand(st, fr, x) for x in split_top(m.group(2))])
        if re.match(r'^[\w:]*::\w+$', s):
            return Opaque(s)
        raise Unsupported('rvalue ' + s)

    def statement(self, st, fr, s):
        if s.startswith('REQ '):
            return
        m = re.match(r'^(.*?) = (.*);$', s)
        if not m:
            if s.startswith('assume('):
                v = self.operand(st, fr, s[7:].rstrip(');'))
                st.path.append(v)
                return
            if s.startswith('copy_nonoverlapping('):
                d = dict(x.strip().split(' = ', 1) for x in split_top(s[len('copy_nonoverlapping('):].rstrip(');')))
                raise Unsupported(s)
            raise Unsupported('statement ' + s)
        v = self.rvalue(st, fr, m.group(2))
        self.store(st, self.place(st, fr, m.group(1)), v)

    def terminator(self, st, fr, s):
        s = s.rstrip(';')
        m = re.match(r'^goto -> bb(\d+)$', s)
        if m:
            self.jump(st, int(m.group(1)))
            return [st]
        if s == 'return':
            v = st.cells.get((fr.id, 0), ())
            st.frames.pop()
            if fr.wrap:
                v = fr.wrap(v)
            if isinstance(fr.dest, tuple) and fr.dest and fr.dest[0] == 'const':
                st.consts[fr.dest[1]] = v
                return [st]
            if not st.frames:
                return [Outcome('return', st, v)]
            caller = st.frames[-1]
            if fr.dest is not None:
                self.store(st, self.place(st, caller, fr.dest), v)
            self.jump(st, fr.ret)
            return [st]
        if s.startswith('resume'):
            why = [e[1] for e in st.events if e[0] == 'unwinding'][-1:] or ['']
            return self.panic(st, why[0])
        if s.startswith('unreachable'):
            return [Outcome('ub', st, why='unreachable code reached')]
        m = re.match(r'^switchInt\((.*)\) -> \[(.*)\]$', s)
        if m:
            v = self.operand(st, fr, m.group(1))
            opts, neg = [], []
            for part in split_top(m.group(2)):
                k, bb = part.split(': bb')
                bb = int(bb)
                if k == 'otherwise':
                    cond = z3.And(*neg) if neg else z3.BoolVal(True)
                else:
                    if z3.is_bool(v):
                        cond = v if int(k) else z3.Not(v)
                    elif z3.is_bv(v):
                        cond = v == bv(int(k), v.size())
                    else:
                        raise Unsupported('switch on %r' % v)
                    neg.append(z3.Not(cond))
                opts.append((cond, lambda n, bb=bb: self.jump(n, bb)))
            return self.branch(st, opts)
        m = re.match(r'^assert\((!?)(copy|move|const) (.*?), @STR.*\) -> \[success: bb(\d+), (.*)\]$', s)
        if m:
            v = self.operand(st, fr, m.group(2) + ' ' + m.group(3))
            if m.group(1):
                v = z3.Not(v)
            bb, unwind = int(m.group(4)), m.group(5)
            return self.fork_panic(st, z3.Not(v), 'arithmetic check', unwind, lambda n: self.jump(n, bb))
        m = re.match(r'^drop\((.*)\) -> \[return: bb(\d+)(?:, (.*))?\]$', s)
        if m:
            bb = int(m.group(2))
            pl = self.place(st, fr, m.group(1))
            v = self.load(st, pl) if pl[0] == 'cell' and pl[1] in st.cells else None
            if isinstance(v, Struct) and v.name == 'AlignedVec':
                f = self.p.method('drop')
                self.push_frame(st, f, [Ref(pl[1], pl[2])], None, bb, m.group(3), fr.ty)
                return [st]
            self.jump(st, bb)
            return [st]
        m = re.match(r'^(.*?) = (.*) -> (?:\[return: bb(\d+), (.*)\]|(unwind.*))$', s)
        if m:
            return self.call(st, fr, m.group(1), m.group(2), int(m.group(3)) if m.group(3) else None,
                             (m.group(4) or m.group(5)).replace('unwind ', '').replace('unwind: ', ''))
        raise Unsupported('terminator ' + s)

    def fork_panic(self, st, cond, why, unwind, go):
        """Panic if cond, otherwise go on"""
        c = z3.simplify(cond)
        res = []
        if not z3.is_false(c) and self.feasible(st.path + [c]):
            n = st.fork()
            n.path.append(c)
            res += self.own_panic(n, unwind, why)
        if not z3.is_true(c):
            nc = z3.Not(c)
            if z3.is_false(c) or self.feasible(st.path + [nc]):
                if not z3.is_false(c):
                    st.path.append(nc)
                go(st)
                res.append(st)
        return res

    def call(self, st, fr, dest, expr, ret, unwind):
        # split `callee(args)` at the last top-level parenthesis group
        assert expr.endswith(')')
        d = 0
        for i in range(len(expr) - 1, -1, -1):
            if expr[i] == ')':
                d += 1
            elif expr[i] == '(':
                d -= 1
                if d == 0:
                    break
        callee, args = expr[:i], split_top(expr[i + 1:-1])
        vals = [self.operand(st, fr, a) for a in args]
        generics = re.findall(r'::<([^<>]*)>$', callee)
        r = self.intrinsic(st, fr, callee, vals, generics, unwind)
        if r is not None:
            kind = r[0]
            def go(n, v=None):
                self.store(n, self.place(n, n.frames[-1], dest), v)
                self.jump(n, ret)
            if kind == 'value':
                go(st, r[1])
                return [st]
            if kind == 'panic':
                return self.own_panic(st, unwind, r[1])
            if kind == 'abort':
                return [Outcome('abort', st, why=r[1])]
            if kind == 'maybe':         # panics under condition
                return self.fork_panic(st, r[1], r[3], unwind, lambda n: go(n, r[2]))
            if kind == 'closures':      # condition, value or (closure, arguments, what becomes of its result)
                def enter(n, how):
                    if not isinstance(how, tuple):
                        return go(n, how)
                    v, args, wrap = how
                    body = self.closure(v)
                    if body.types[body.args[0]].startswith('&'):
                        cell = ('closure', next(self.ids))
                        n.cells[cell] = v
                        v = Ref(cell)
                    args = list(args)
                    for i, a in enumerate(args):
                        if isinstance(a, ByRef):
                            cell = ('closure', next(self.ids))
                            n.cells[cell] = a.val
                            args[i] = Ref(cell)
                    # Arguments of closures are spread in the body
                    self.push_frame(n, body, [v] + args, dest, ret, unwind, fr.ty, wrap=wrap)
                return self.branch(st, [(c, lambda n, how=how: enter(n, how)) for c, how in r[1]])
            if kind == 'cases':
                return self.branch(st, [(c, lambda n, v=v: go(n, v)) for c, v in r[1]])
        fn = self.p.find(callee, fr.fn)
        if fn is None or ret is None:
            raise Unsupported('call of ' + callee)
        ty = fr.ty
        if generics and not re.match(r'^[A-Z_]+(, [A-Z_]+)+$', generics[0]):
            first = split_top(generics[0])[0]
            try:
                ty = self.type_of(first, fr)
            except Unsupported:
                pass
        self.push_frame(st, fn, vals, dest, ret, unwind, ty)
        return [st]

    def closure(self, v):
        """Body of a closure"""
        if isinstance(v, Struct) and v.name.startswith('{closure@'):
            for f in self.p.fns:
                if f.kind == 'fn' and f.args and f.types[f.args[0]].lstrip('&').replace('mut ', '') == v.name:
                    return f
        raise Unsupported('closure')

    def intrinsic(self, st, fr, callee, v, generics, unwind):
        c = re.sub(r'::<(?!impl )[^<>]*>', '', callee)
        c = re.sub(r'^(std|core|alloc)::', '', c)
        last = c.split('::')[-1]
        m = re.match(r'^num::<impl (\w+)>::(\w+)$', c)
        if m and m.group(1) in ('usize', 'u64'):
            x = v[0]
            y = v[1] if len(v) > 1 else None
            n = m.group(2)
            if n == 'is_power_of_two':
                return ('value', is_pow2(x))
            if n in ('next_power_of_two', 'checked_next_power_of_two'):
                r, o = next_pow2(x)
                if n[0] == 'c':
                    return ('value', Opt(z3.Not(o), r))
                return ('maybe', o, r, 'next_power_of_two overflow')
            if n in ('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'unchecked_add', 'unchecked_sub', 'unchecked_mul'):
                return ('value', x + y if n.endswith('add') else x - y if n.endswith('sub') else self.mul(x, y))
            if n in ('checked_add', 'overflowing_add', 'saturating_add'):
                r = x + y
                o = z3.ULT(r, x)
                return ('value', Opt(z3.Not(o), r) if n[0] == 'c' else (r, o) if n[0] == 'o' else z3.If(o, bv(2**W - 1), r))
            if n in ('checked_sub', 'overflowing_sub', 'saturating_sub'):
                o = z3.ULT(x, y)
                return ('value', Opt(z3.Not(o), x - y) if n[0] == 'c' else (x - y, o) if n[0] == 'o' else z3.If(o, bv(0), x - y))
            if n in ('checked_mul', 'overflowing_mul', 'saturating_mul'):
                o = self.mul_overflows(x, y)
                return ('value', Opt(z3.Not(o), self.mul(x, y)) if n[0] == 'c' else (self.mul(x, y), o) if n[0] == 'o' else z3.If(o, bv(2**W - 1), self.mul(x, y)))
            if n == 'wrapping_neg':
                return ('value', -x)
            if n in ('min', 'max'):
                pass
            if n == 'next_multiple_of' or n == 'checked_next_multiple_of':
                if self.check(st.path + [z3.Not(is_pow2(y))])[0] is not False:
                    raise Unsupported(n)
                r = (x + (y - 1)) & ~(y - 1)
                o = z3.ULT(x + (y - 1), x)
                if n[0] == 'c':
                    return ('value', Opt(z3.Not(o), r))
                return ('maybe', o, r, 'overflow')
            if n == 'abs_diff':
                return ('value', z3.If(z3.ULT(x, y), y - x, x - y))
            if n in ('trailing_zeros', 'leading_zeros', 'ilog2', 'count_ones'):
                raise Unsupported(n)
        if last in ('max', 'min') and len(v) == 2 and z3.is_bv(v[0]) and ('cmp' in c or 'Ord' in c):
            x, y = v
            return ('value', z3.If(z3.ULT(x, y), y, x) if last == 'max' else z3.If(z3.ULT(y, x), y, x))
        if re.match(r'^(option::)?Option::', c):
            o = v[0]
            if last in ('expect', 'unwrap', 'unwrap_or_else', 'unwrap_or', 'unwrap_unchecked', 'is_some', 'is_none'):
                if not isinstance(o, Opt):
                    if isinstance(o, Ref) and last[:2] == 'is':
                        o = self.read_proj(st.cells[o.cell], o.proj)
                    if not isinstance(o, Opt):
                        raise Unsupported(callee)
                if last in ('expect', 'unwrap'):
                    return ('maybe', z3.Not(o.some), o.val, 'expect on None')
                if last == 'unwrap_or' and z3.is_bv(v[1]):
                    return ('value', z3.If(o.some, o.val, v[1]))
                if last == 'is_some':
                    return ('value', o.some)
                if last == 'is_none':
                    return ('value', z3.Not(o.some))
            if isinstance(o, Opt):
                none = Opt(z3.BoolVal(False), bv(0))
                some, no = o.some, z3.Not(o.some)
                wrap = lambda x: Opt(z3.BoolVal(True), x)
                if last == 'unwrap_or_else':
                    return ('closures', [(some, o.val), (no, (v[1], [], None))])
                if last == 'map':
                    return ('closures', [(some, (v[1], [o.val], wrap)), (no, none)])
                if last == 'and_then':
                    return ('closures', [(some, (v[1], [o.val], None)), (no, none)])
                if last == 'filter':
                    return ('closures', [(some, (v[1], [ByRef(o.val)], lambda b: Opt(b, o.val))), (no, none)])
                if last == 'is_some_and':
                    return ('closures', [(some, (v[1], [o.val], None)), (no, z3.BoolVal(False))])
                if last == 'map_or':
                    return ('closures', [(some, (v[2], [o.val], None)), (no, v[1])])
                if last == 'map_or_else':
                    return ('closures', [(some, (v[2], [o.val], None)), (no, (v[1], [], None))])
                if last == 'or_else':
                    return ('closures', [(some, o), (no, (v[1], [], None))])
                if last == 'ok_or':
                    return ('value', Res(some, o.val, v[1]))
            raise Unsupported(callee)
        if re.match(r'^(result::)?Result::', c):
            o = v[0]
            if isinstance(o, Ref) and last[:2] == 'is':
                o = self.read_proj(st.cells[o.cell], o.proj)
            if isinstance(o, Res):
                if last in ('expect', 'unwrap'):
                    return ('maybe', z3.Not(o.ok), o.val, 'unwrap of an error')
                if last == 'ok':
                    return ('value', Opt(o.ok, o.val))
                if last in ('is_ok', 'is_err'):
                    return ('value', o.ok if last == 'is_ok' else z3.Not(o.ok))
                if last == 'unwrap_or_else':
                    return ('closures', [(o.ok, o.val), (z3.Not(o.ok), (v[1], [o.err], None))])
            raise Unsupported(callee)
        if re.match(r'^bool::<impl bool>::then(_some)?$', c):
            none = Opt(z3.BoolVal(False), bv(0))
            if last == 'then':
                return ('closures', [(v[0], (v[1], [], lambda x: Opt(z3.BoolVal(True), x))), (z3.Not(v[0]), none)])
            return ('value', Opt(v[0], v[1]))
        if re.match(r'^<.* as (ops::)?Try>::branch$', c):
            o = v[0]
            if isinstance(o, Opt):
                return ('value', Res(o.some, o.val, Opt(z3.BoolVal(False), bv(0))))
            if isinstance(o, Res):
                return ('value', Res(o.ok, o.val, Res(z3.BoolVal(False), o.err, o.err)))
            raise Unsupported(callee)
        if re.match(r'^<.* as (ops::)?FromResidual<.*>>::from_residual$', c) and isinstance(v[0], (Opt, Res)):
            return ('value', v[0])
        if last in ('size_of', 'align_of', 'needs_drop') and c.startswith('mem::') and generics:
            if last == 'needs_drop':
                raise Unsupported(callee)
            size, align = self.type_of(generics[0], fr)
            return ('value', size if last == 'size_of' else align)
        if last in ('size_of_val',) and isinstance(v[0], Slice):
            size, align = self.type_of(generics[0].strip('[]') if generics else 'T', fr)
            return ('value', self.mul(size, v[0].len))
        if re.match(r'^(ptr::)?NonNull::', c):
            if last in ('new_unchecked',):
                st.events.append(('nonnull', v[0]))
                return ('value', v[0])
            if last in ('as_ptr', 'cast'):
                return ('value', v[0])
            if last == 'new':
                return ('value', Opt(v[0] != 0, v[0]))
            raise Unsupported(callee)
        if re.match(r'^ptr::(mut|const)_ptr::<impl', c):
            if last in ('cast', 'cast_mut', 'cast_const', 'addr', 'expose_provenance'):
                return ('value', v[0])
            if last == 'is_null':
                return ('value', v[0] == 0)
            if last in ('add', 'wrapping_add', 'byte_add', 'sub', 'wrapping_sub'):
                m = re.search(r'<impl \*(?:mut|const) (\w+)>', c)
                size, _ = self.type_of('u8' if last == 'byte_add' else m.group(1), fr)
                off = self.mul(size, v[1])
                if last == 'add':
                    st.events.append(('ptr_add', v[0], off))
                return ('value', v[0] - off if 'sub' in last else v[0] + off)
            raise Unsupported(callee)
        if c == 'ptr::copy_nonoverlapping' or c == 'ptr::copy' or c == 'intrinsics::copy_nonoverlapping':
            size, align = self.type_of(generics[0], fr)
            st.events.append(('copy', v[0], v[1], v[2], size, align))
            return ('value', ())
        if re.match(r'^(alloc::)?Layout::', c):
            if last == 'from_size_align_unchecked':
                return ('value', Layout(v[0], v[1]))
            if last == 'from_size_align':
                ok = z3.And(is_pow2(v[1]), z3.ULE(v[1], bv(2**63)), z3.ULE(v[0], bv(2**63) - v[1]))
                return ('value', Res(ok, Layout(v[0], v[1]), Opaque('LayoutError')))
            if last in ('size', 'align'):
                l = v[0]
                if isinstance(l, Ref):
                    l = self.read_proj(st.cells[l.cell], l.proj)
                if isinstance(l, Layout):
                    return ('value', l.size if last == 'size' else l.align)
            raise Unsupported(callee)
        if c in ('alloc', 'alloc::alloc', 'alloc::alloc_zeroed'):
            if len(v) == 1 and isinstance(v[0], Layout):
                l = v[0]
                p = z3.BitVec('addr%d' % next(self.fresh), W)
                st.events.append(('alloc', l.size, l.align, p))
                st.path.append(z3.And(p & (l.align - 1) == 0, z3.ULE(p, bv(2**63)), z3.ULE(l.size, bv(2**63))))
                if not self.may_fail:
                    st.path.append(p != 0)
                return ('value', p)
        if c in ('realloc', 'alloc::realloc') and len(v) == 3 and isinstance(v[1], Layout):
            p = z3.BitVec('addr%d' % next(self.fresh), W)
            st.events.append(('realloc', v[0], v[1].size, v[1].align, v[2], p))
            st.path.append(z3.And(p & (v[1].align - 1) == 0, z3.ULE(p, bv(2**63))))
            if not self.may_fail:
                st.path.append(p != 0)
            return ('value', p)
        if c in ('dealloc', 'alloc::dealloc') and len(v) == 2 and isinstance(v[1], Layout):
            st.events.append(('dealloc', v[0], v[1].size, v[1].align))
            return ('value', ())
        if last == 'handle_alloc_error':
            if len(v) == 1 and isinstance(v[0], Layout):
                st.events.append(('report', v[0].size, v[0].align))
            return ('abort', 'allocation failed')
        if last in ('panic_fmt', 'panic', 'assert_failed', 'panic_nounwind', 'begin_panic', 'panic_display', 'panic_str_2015', 'panic_explicit',
                    'unreachable_display', 'panic_const_add_overflow') and ('panic' in c or 'rt' in c):
            return ('panic', c)
        if last in ('expect_failed', 'unwrap_failed'):
            return ('panic', c)
        if 'Arguments' in c:
            return ('value', Opaque('fmt'))
        if last in ('new_display', 'new_debug', 'new_lower_hex') and 'Argument' in c:
            return ('value', Opaque('fmt'))
        if c == 'slice::from_ref':
            return ('value', Slice(self.addr(v[0]), bv(1)))
        if re.match(r'^slice::<impl \[\w+\]>::(len|as_ptr|is_empty)$', c) and isinstance(v[0], Slice):
            return ('value', {'len': v[0].len, 'as_ptr': v[0].ptr, 'is_empty': v[0].len == 0}[last])
        if c in ('slice::from_raw_parts',):
            return ('value', Slice(v[0], v[1]))
        if re.match(r'^(vec::)?Vec::new$', c) or re.match(r'^(string::)?String::new$', c):
            return ('value', Opaque('empty collection'))
        if last == 'unreachable_unchecked' or last == 'assert_unchecked':
            raise Unsupported(callee)
        if re.match(r'^<.* as (ops::)?Drop>::drop$', c):
            raise Unsupported(callee)
        if last == 'drop_in_place':
            raise Unsupported(callee)
        return None

    @staticmethod
    def addr(x):
        if z3.is_bv(x):
            return x
        raise Unsupported('address of a local')
