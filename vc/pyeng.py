"""The engines: Symbolic (path enumeration + verification conditions) and Native (concrete runs of the same contract),
and the loader that gives the real source of /repo its symbolic meaning."""
import ast, sys, os, builtins, types, random, time, json, math, importlib, struct as real_struct, binascii as real_binascii
import z3
from . import pyvc as V
from .pyvc import (Sym, SymBool, SymInt, SymFloat, SymBytes, SymStr, EncText, SplitView, SplitTail, SplitLen, Opaque, FDict,
                   SymMap, Unsupported, PathEnd, Skip, Failure, And, Or, Not, Implies, mkbool, mkint, mkfl, mkbytes, zstr, rv, iv, Q,
                   piece, piece_eq, fdict, isnum, unwrap_bool)

REPO = V.REPO
PY = os.path.join(REPO, 'horusdemodlib')


# ---------------------------------------------------------------- loader
CALLS = {'int', 'float', 'str', 'len', 'abs', 'round', 'bytes', 'bytearray', 'hex', 'min', 'max', 'sum', 'range', 'format', 'type',
         'isinstance', 'dict', 'sorted', 'divmod', 'repr', 'bool', 'ord', 'chr', 'any', 'all', 'print', 'open', 'super', 'list', 'tuple', 'zip', 'float', 'set',
         'enumerate', 'map', 'filter', 'reversed', 'pow', 'callable', 'hasattr', 'getattr', 'setattr'}


class Tr(ast.NodeTransformer):
    def __init__(self):
        self.fn = []
        self.loops = {}

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([self.visit(v.value), spec, ast.Constant(chr(v.conversion) if v.conversion and v.conversion > 0 else None)], ast.Load()))
        return call('_vc_fstr', parts)

    def visit_Dict(self, n):
        self.generic_visit(n)
        if any(k is None for k in n.keys):
            return n
        return call('_vc_dict', [ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)], ast.Load())])

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return call('_vc_dict', [ast.ListComp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)])

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Name) and f.id in CALLS and f.id != 'super':
            n.func = ast.Call(ast.Name('_vc_bi', ast.Load()), [ast.Constant(f.id), f], [])
        elif isinstance(f, ast.Attribute) and f.attr in ('join', 'format', 'get', 'index', 'count', 'from_bytes', 'fromhex', 'startswith', 'endswith', 'extend'):
            n.func = call('_vc_meth', [f.value, ast.Constant(f.attr)])
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            return call('_vc_in', [n.left, n.comparators[0], ast.Constant(isinstance(n.ops[0], ast.NotIn))])
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return call('_vc_mod', [n.left, n.right])
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = ast.Name('Exception', ast.Load())
        n.body.insert(0, ast.Expr(call('_vc_exc_check', [])))
        return n

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        self.loops['.'.join(self.fn)] = 0
        self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_ClassDef(self, n):
        if n.name.endswith('Tests') or n.name.endswith('Test') or any(getattr(b, 'attr', '') == 'TestCase' for b in n.bases):
            return ast.Pass()
        self.fn.append(n.name)
        self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_While(self, n):
        if not self.fn or self.fn[-1][:1].isupper() or n.orelse:
            self.generic_visit(n)
            return n
        q = '.'.join(self.fn)
        k = self.loops.get(q, 0)
        self.loops[q] = k + 1
        names = sorted({x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        self.generic_visit(n)
        lv = '_vc_L%d' % k
        head = [ast.Assign([ast.Name('_vc_r', ast.Store())], call2(ast.Attribute(ast.Name(lv, ast.Load()), 'head', ast.Load()), [call('locals', [])]))]
        for v in names:
            head.append(ast.If(ast.Compare(ast.Constant(v), [ast.In()], [ast.Name('_vc_r', ast.Load())]),
                               [ast.Assign([ast.Name(v, ast.Store())], ast.Subscript(ast.Name('_vc_r', ast.Load()), ast.Constant(v), ast.Load()))], []))
        head.append(ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], []))
        return [ast.Assign([ast.Name(lv, ast.Store())], call('_vc_loop', [ast.Constant(q), ast.Constant(k), ast.Constant(','.join(names))])),
                ast.While(ast.Constant(True), head + n.body, [])]

    def visit_If(self, n):
        if isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and n.test.left.id == '__name__':
            return ast.Pass()
        names = assigned(n)
        aug = augmented(n)
        self.generic_visit(n)
        if names and self.fn:
            return self.merge(n, sorted(names), aug)
        return n

    def merge(self, n, names, aug):
        self.nmerge = getattr(self, 'nmerge', 0) + 1
        c = '_vc_c%d' % self.nmerge
        ld = lambda v: ast.Name(v, ast.Load())
        st = lambda v: ast.Name(v, ast.Store())
        body = list(n.orelse)
        # values of the branches
        import copy as cp
        pre = [ast.Assign([st('_vc_o_%s_%d' % (v, self.nmerge))], ld(v)) for v in names]
        k = self.nmerge
        seq = pre + n.orelse
        seq += [ast.Assign([st('_vc_e_%s_%d' % (v, k))], ld(v)) for v in names]
        seq += [ast.Assign([st(v)], ld('_vc_o_%s_%d' % (v, k))) for v in names]
        seq += cp.deepcopy(n.body)
        seq += [ast.Assign([st(v)], call('_vc_ite', [ld(c), ld(v), ld('_vc_e_%s_%d' % (v, k))])) for v in names]
        return [ast.Assign([st(c)], n.test),
                ast.If(call('_vc_mergeable', [ld(c), ast.List([ast.Constant(v) for v in names], ast.Load()), call('locals', []),
                                             ast.List([ast.Tuple([ast.Constant(v), k], ast.Load()) for v, k in aug], ast.Load())]),
                       seq, [ast.If(ld(c), n.body, cp.deepcopy(n.orelse))])]


def assigned(n):
    """the names an if statement assigns when all it does is to assign constants or names; else None"""
    out = set()
    for b in (n.body, n.orelse):
        for x in b:
            if isinstance(x, ast.If):
                if not pure(x.test):
                    return None
                r = assigned(x)
                if r is None:
                    return None
                out |= r
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and pure(x.value):
                out.add(x.targets[0].id)
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant):
                out.add(x.target.id)
            elif isinstance(x, ast.Pass):
                pass
            else:
                return None
    return out


def augmented(n):
    return [(x.target.id, x.value) for x in ast.walk(n) if isinstance(x, ast.AugAssign)]


def pure(e):
    if isinstance(e, (ast.Constant, ast.Name)):
        return True
    if isinstance(e, ast.UnaryOp):
        return pure(e.operand)
    if isinstance(e, ast.Compare):
        return pure(e.left) and all(pure(x) for x in e.comparators) and all(isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE, ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) for o in e.ops)
    return False


def h_mergeable(c, names, loc, aug):
    if not isinstance(c, SymBool) or any(v not in loc for v in names):
        return False
    for v, k in aug:
        x = loc[v]
        if not (isinstance(x, (int, float, SymInt, SymFloat)) and isinstance(k, (int, float)) or isinstance(x, bytes) and isinstance(k, bytes)
                or isinstance(x, SymBytes) and isinstance(k, bytes) or isinstance(x, (str, SymStr)) and isinstance(k, str)):
            return False
    e = z3.simplify(c.e)
    return not (z3.is_true(e) or z3.is_false(e) or e.get_id() in V.E.decided)


def h_ite(c, a, b):
    if a is b:
        return a
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.If(c.e, unwrap_bool(a), unwrap_bool(b)))
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)) and not isinstance(a, bool) and not isinstance(b, bool):
        return mkint(z3.If(c.e, iv(SymInt.of(a)), iv(SymInt.of(b))))
    if isinstance(a, (float, SymFloat)) and isinstance(b, (float, SymFloat)):
        x, y = mkfl(a), mkfl(b)
        return SymFloat(z3.simplify(z3.If(c.e, x.e, y.e)), z3.simplify(z3.If(c.e, x.nan, y.nan)))
    if isinstance(a, (bytes, SymBytes)) and isinstance(b, (bytes, SymBytes)) and len(a) == len(b):
        x, y = SymBytes.of(a), SymBytes.of(b)
        return mkbytes([p if p is q else h_ite(c, p, q) for p, q in zip(x.v, y.v)], [p if p is q else None for p, q in zip(x.prov, y.prov)])
    return a if c else b


def call(name, args):
    return ast.Call(ast.Name(name, ast.Load()), args, [])


def call2(f, args):
    return ast.Call(f, args, [])


_code = {}


def compiled(path):
    if path not in _code:
        src = open(path, encoding='utf8').read()
        t = ast.parse(src, path)
        t = Tr().visit(t)
        ast.fix_missing_locations(t)
        _code[path] = compile(t, path, 'exec')
    return _code[path]


# ---------------------------------------------------------------- library functions on symbolic values
def h_fstr(*parts):
    out = []
    sym = False
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, spec, conv = p
        if isinstance(spec, Sym):
            raise Unsupported('symbolic format')
        if isinstance(v, Sym):
            sym = True
            out.append(piece(v, spec, conv))
        elif V.E.symbolic and has_sym(v):
            sym = True
            out.append(('fmt', v, spec))
        else:
            if conv == 'r':
                v = repr(v)
            elif conv == 's':
                v = str(v)
            out.append(format(v, spec))
    if not sym:
        return ''.join(out)
    return SymStr(out)


def has_sym(v, d=0):
    if isinstance(v, Sym):
        return True
    if d > 6:
        return False
    if isinstance(v, dict):
        return any(has_sym(k, d + 1) or has_sym(x, d + 1) for k, x in (dict.items(v) if not isinstance(v, FDict) else v.items()))
    if isinstance(v, (list, tuple, set)):
        return any(has_sym(x, d + 1) for x in v)
    return False


def h_dict(pairs):
    if isinstance(pairs, list):
        r = FDict()
        for k, v in pairs:
            r[k] = v
        return r
    return pairs


def h_in(a, b, neg):
    if isinstance(b, str) and isinstance(a, SymStr):
        r = bool(mkbool(z3.Contains(z3.StringVal(b), a.z())))
    elif isinstance(b, dict) and not isinstance(b, FDict) and isinstance(a, Sym):
        r = fdict(b)._find(a) is not None
    elif isinstance(b, (set, frozenset)) and isinstance(a, Sym):
        r = a in list(b)
    elif isinstance(b, range) and isinstance(a, SymInt):
        if b.step != 1:
            raise Unsupported('in range')
        r = bool(And(a >= b.start, a < b.stop))
    else:
        r = a in b
    return (not r) if neg else r


def h_mod(a, b):
    if isinstance(a, SymStr):
        raise Unsupported('% of symbolic text')
    if isinstance(a, str) and has_sym(b):
        import re
        args = list(b) if isinstance(b, tuple) else [b]
        out = []
        pos = 0
        for m in re.finditer(r'%(?:%|([-0-9.#+ ]*)([a-zA-Z]))', a):
            out.append(a[pos:m.start()])
            pos = m.end()
            if m.group(0) == '%%':
                out.append('%')
                continue
            v = args.pop(0)
            fl, ty = m.group(1), m.group(2)
            if ty == 's':
                out.append(h_fstr((v, fl, None)))
            elif ty in 'dxXfeg':
                if ty == 'd' and isinstance(v, SymFloat):
                    v = v.trunc()
                out.append(h_fstr((v, fl + ty, None)))
            else:
                raise Unsupported('%' + ty)
        out.append(a[pos:])
        return SymStr(out)
    return a % b


def h_join(sep, xs):
    xs = list(xs)
    if any(isinstance(x, Sym) for x in xs) or isinstance(sep, Sym):
        if isinstance(sep, (bytes, SymBytes)):
            r = b''
            for i, x in enumerate(xs):
                r = r + (sep if i else b'') + x
            return r
        out = []
        for i, x in enumerate(xs):
            if not isinstance(x, (str, SymStr)):
                raise TypeError('sequence item %d: expected str instance' % i)
            if i:
                out.append(sep)
            out.append(x)
        return SymStr(out)
    return sep.join(xs)


V.vjoin = h_join


def h_meth(o, name):
    if name == 'join' and isinstance(o, (str, bytes, Sym)):
        return lambda xs: h_join(o, xs)
    if name == 'format' and isinstance(o, str):
        def fmt(*a, **k):
            if not has_sym(list(a) + list(k.values())):
                return o.format(*a, **k)
            import string
            out = []
            auto = 0
            for lit, fld, spec, conv in string.Formatter().parse(o):
                out.append(lit)
                if fld is None:
                    continue
                if fld == '':
                    fld, auto = str(auto), auto + 1
                if fld.isdigit():
                    v = a[int(fld)]
                elif fld.isidentifier():
                    v = k[fld]
                else:
                    raise Unsupported('format field')
                out.append((v, spec, conv))
            return h_fstr(*out)
        return fmt
    if name in ('startswith', 'endswith') and isinstance(o, str):
        def sw(x, *a):
            if isinstance(x, SymStr):
                return mkbool((z3.PrefixOf if name == 'startswith' else z3.SuffixOf)(x.z(), z3.StringVal(o)))
            return getattr(o, name)(x, *a)
        return sw
    if name == 'get' and type(o) is dict:
        return lambda k, d=None: (fdict(o).get(k, d) if isinstance(k, Sym) else o.get(k, d))
    if name == 'from_bytes' and o is int:
        def fb(b, byteorder='big', signed=False):
            if not isinstance(b, SymBytes):
                return int.from_bytes(b, byteorder, signed=signed)
            return from_bytes(b.v, byteorder == 'little', signed)
        return fb
    if name == 'fromhex' and o in (bytes, bytearray):
        def fh(s):
            if isinstance(s, SymStr):
                return V.E.unhex(s)
            return o.fromhex(s)
        return fh
    return getattr(o, name)


def from_bytes(items, little, signed):
    v = 0
    for i, x in enumerate(items if little else items[::-1]):
        v = v + x * (1 << (8 * i))
    if signed:
        n = 8 * len(items)
        if isinstance(v, int):
            return v - (1 << n) if v >> (n - 1) else v
        return mkint(z3.If(v.e >= (1 << (n - 1)), v.e - (1 << n), v.e))
    return v


def h_exc_check():
    t, e, tb = sys.exc_info()
    check_exc(e)


def check_exc(e):
    if isinstance(e, (TypeError, AttributeError)) and ('Sym' in str(e) or 'EncText' in str(e) or 'SplitView' in str(e) or 'Opaque' in str(e) or 'FDict' in str(e)):
        raise Unsupported('%s: %s' % (type(e).__name__, e))
    if isinstance(e, (z3.Z3Exception,)):
        raise Unsupported('z3: %s' % e)


def b_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, EncText):
            return bytes
        if isinstance(x, Sym):
            if x.pytype is None:
                raise Unsupported('type of %r' % x)
            return x.pytype
        if isinstance(x, FDict):
            return dict
        if hasattr(x, '__pytype__'):
            return x.__pytype__
    return type(*a)


def b_isinstance(x, t):
    if isinstance(x, (Sym, FDict)) or hasattr(x, '__pytype__'):
        ts = t if isinstance(t, tuple) else (t,)
        return any(isinstance(k, type) and issubclass(b_type(x), k) for k in ts)
    return isinstance(x, t)


def b_int(*a, **k):
    if a and isinstance(a[0], Sym):
        x = a[0]
        if len(a) > 1:
            if isinstance(x, SymStr):
                return V.E.parse_num(x, 'int%d' % a[1])
            raise Unsupported('int')
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return x._i()
        if isinstance(x, SymFloat):
            return x.trunc()
        if isinstance(x, SymStr):
            return V.E.parse_num(x, 'int')
        raise Unsupported('int')
    return int(*a, **k)


def b_float(*a):
    if a and isinstance(a[0], Sym):
        x = a[0]
        if isinstance(x, (SymInt, SymBool)):
            return mkfl(x)
        if isinstance(x, SymFloat):
            return x
        if isinstance(x, SymStr):
            return V.E.parse_num(x, 'float')
        raise Unsupported('float')
    return float(*a)


def b_str(*a):
    if a and V.E.symbolic and has_sym(a[0]):
        if len(a) > 1:
            return a[0].decode(*a[1:])
        return h_fstr((a[0], '', None))
    return str(*a)


def b_repr(x):
    return h_fstr((x, '', 'r')) if has_sym(x) else repr(x)


def b_len(x):
    if isinstance(x, (SymStr, SplitView)):
        return x.len()
    if isinstance(x, SplitTail):
        raise Unsupported('len')
    if hasattr(x, 'symlen'):
        return x.symlen()
    if isinstance(x, EncText):
        if all(isinstance(p, str) or p[0] == 'str' for p in x.t.p):
            return x.t.len()
        n = V.E.fresh_int('len')
        V.E.assume(n >= (1 if any(not isinstance(p, str) and p[0] == 'json' for p in x.t.p) else 0))
        return SymInt(n)
    return len(x)


def b_round(x, n=None):
    if isinstance(x, Sym):
        return x.__round__(n) if n is not None else x.__round__()
    return round(x, n) if n is not None else round(x)


def b_bytes(*a):
    if a and isinstance(a[0], (SymBytes,)):
        return a[0]
    if a and hasattr(a[0], 'to_symbytes'):
        return a[0].to_symbytes()
    if a and isinstance(a[0], (list, tuple)) and has_sym(a[0]):
        for x in a[0]:
            if isinstance(x, SymInt) and not And(x >= 0, x < 256):
                raise ValueError('bytes must be in range(0, 256)')
        return mkbytes(list(a[0]))
    if a and isinstance(a[0], SymStr):
        return a[0].encode(*a[1:])
    if a and isinstance(a[0], SymInt):
        return bytes(a[0].__index__())
    return bytes(*a)


def b_bytearray(*a):
    if a and isinstance(a[0], Sym):
        raise Unsupported('bytearray of symbolic')
    if V.E.symbolic:
        return V.E.bytearray(*a)
    return bytearray(*a)


class HexInt(SymStr):
    """hex(x) of a symbolic integer that is known to be >= 0: '0x' + digits"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v
        SymStr.__init__(self, ['0x', ('fmt', v, 'x')])

    def __getitem__(self, i):
        if isinstance(i, slice) and i.start == 2 and i.stop is None and i.step in (None, 1):
            return SymStr([('fmt', self.v, 'x')])
        return SymStr.__getitem__(self, i)


def b_hex(x):
    if isinstance(x, SymInt):
        if not V.E.valid(x.e >= 0):
            raise Unsupported('hex of a possibly negative value')
        return HexInt(x)
    return hex(x)


def b_min(*a, **k):
    return _mm(a, k, min, lambda x, y: y < x)


def b_max(*a, **k):
    return _mm(a, k, max, lambda x, y: y > x)


def _mm(a, k, f, lt):
    if k and 'key' in k:
        if has_sym(list(a)):
            raise Unsupported('min/max key')
        return f(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not any(isinstance(x, Sym) for x in xs):
        return f(xs, **k) if len(a) == 1 else f(*xs)
    r = xs[0]
    for x in xs[1:]:
        c = lt(r, x)
        if isinstance(c, SymBool):
            if isinstance(r, (int, SymInt)) and isinstance(x, (int, SymInt)):
                r = mkint(z3.If(c.e, iv(SymInt.of(x)), iv(SymInt.of(r))))
            else:
                p, q = mkfl(x), mkfl(r)
                if isinstance(r, (float, SymFloat)) and isinstance(x, (float, SymFloat)):
                    r = SymFloat(z3.simplify(z3.If(c.e, p.e, q.e)), z3.simplify(z3.If(c.e, p.nan, q.nan)))
                else:
                    r = x if c else r
        elif c:
            r = x
    return r


def b_sum(xs, start=0):
    if hasattr(xs, 'symsum'):
        return xs.symsum(start)
    r = start
    for x in xs:
        r = r + x
    return r


def b_range(*a):
    return range(*[x.__index__() for x in a])


def b_sorted(xs, **k):
    xs = list(xs)
    if any(isinstance(x, Sym) for x in xs):
        raise Unsupported('sorted')
    return sorted(xs, **k)


def b_format(v, spec=''):
    return h_fstr((v, spec, None))


def b_bool(*a):
    return bool(*a)


def b_any(xs):
    for x in xs:
        if x:
            return True
    return False


def b_all(xs):
    for x in xs:
        if not x:
            return False
    return True


def b_ord(x):
    if isinstance(x, SymStr):
        return mkint(z3.StrToCode(x.z()))
    return ord(x)


def b_chr(x):
    if isinstance(x, SymInt):
        return zstr(z3.StrFromCode(x.e))
    return chr(x)


def b_divmod(a, b):
    return (a // b, h_mod(a, b))


def b_dict(*a, **k):
    r = FDict()
    r.update(*a, **k)
    return r


def b_list(*a):
    if a and isinstance(a[0], Sym) and not isinstance(a[0], SymBytes):
        return a[0]
    return list(*a)


def b_print(*a, **k):
    return None


def b_open(*a, **k):
    return V.E.open(*a, **k)


def b_zip(*a, **k):
    if any(hasattr(x, 'symzip') for x in a):
        return [x for x in a if hasattr(x, 'symzip')][0].symzip()
    return zip(*a, **k)


BI = {k[2:]: v for k, v in list(globals().items()) if k.startswith('b_')}


def h_bi(name, orig):
    if orig is getattr(builtins, name, None) and name in BI:
        return BI[name]
    return orig


class NoLoop:
    def head(self, l):
        return ()


class Loop:
    """Verification of a loop by its invariant: proved on entry, arbitrary state that satisfies it, one iteration,
    proved again.  Local variables that the body assigns: an inferred invariant says that they keep their value;
    where one iteration refutes that, the variable is arbitrary (the engine restarts with that)."""
    def __init__(self, eng, q, k, names, spec):
        self.eng, self.q, self.k, self.names, self.spec = eng, q, k, names.split(',') if names else [], spec
        self.n = 0

    def head(self, loc):
        eng = self.eng
        self.n += 1
        st = eng.loopstate.setdefault((self.q, self.k), {})
        if self.n == 1:
            self.spec.check('invariant of the loop in %s holds on entry' % self.q)
            self.spec.havoc()
            r = {}
            self.entry = {}
            for v in self.names:
                if v in loc:
                    if st.get(v) == 'any':
                        r[v] = eng.havoc_like(loc[v], v)
                    self.entry[v] = r.get(v, loc[v])
                elif st.get(v) == 'any':
                    r[v] = Poison(v)
            # candidate invariants "v or c": kept only if they hold on entry and are preserved
            self.cands = {}
            for key, v, c in self.candidates(loc):
                if st.get(key) != 'no' and not eng.valid(mkz(c)):
                    st[key] = 'no'
                    eng.restart = True
            if eng.restart:
                raise PathEnd()
            self.spec.assume()
            loc2 = dict(loc)
            loc2.update(r)
            for key, v, c in self.candidates(loc2):
                if st.get(key) != 'no':
                    eng.assume(mkz(c))
                    self.cands[key] = True
            return r
        for v in self.names:
            if v in loc and st.get(v) != 'any':
                if v not in self.entry or not same_value(self.entry[v], loc[v]):
                    st[v] = 'any'
                    eng.restart = True
        for key, v, c in self.candidates(loc):
            if key in self.cands and not eng.valid(mkz(c)):
                st[key] = 'no'
                eng.restart = True
        if eng.restart:
            raise PathEnd()
        self.spec.check('invariant of the loop in %s is preserved' % self.q)
        raise PathEnd()

    def candidates(self, loc):
        f = getattr(self.spec, 'facts', None)
        if f is None:
            return
        for name, c in f().items():
            for v in self.names:
                x = loc.get(v)
                if isinstance(x, (bool, SymBool)):
                    yield (v, name, True), v, Or(x, c)
                    yield (v, name, False), v, Or(Not(x), c)


def mkz(c):
    return c.e if isinstance(c, SymBool) else z3.BoolVal(bool(c))


class Poison(Sym):
    """a variable with an arbitrary value of unknown type"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def _u(self, *a):
        raise Unsupported('use of %s, which is arbitrary at the loop head' % self.name)
    __bool__ = __eq__ = __ne__ = __lt__ = __add__ = __len__ = __iter__ = __getitem__ = __call__ = _u
    __hash__ = Sym.__hash__

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        self._u()


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, (int, str, bool, float, type(None))) and type(a) is type(b):
        return a == b
    if isinstance(a, Sym) and type(a) is type(b) and hasattr(a, 'e') and hasattr(b, 'e'):
        return z3.eq(a.e, b.e)
    return False


# ---------------------------------------------------------------- symbolic engine
BYTEMEMO = {}


class Symbolic:
    symbolic = True

    def __init__(self, contract, prefix=(), limit=20000, deadline=None, timeout_ms=20000):
        self.contract = contract
        self.stack = [list(prefix)]
        self.base = len(prefix)
        self.limit = limit
        self.deadline = deadline or time.time() + 600
        self.timeout_ms = timeout_ms
        self.paths = 0
        self.obls = []
        self.failed = []
        self.labels = {}
        self.solver_time = 0.0
        self.queries = 0
        self.bytevars = {}
        self.abstract = False
        self.loopstate = {}
        self.restart = False
        self.assumed = set()

    # ---- exploration
    def run(self):
        V.E = self
        again = True
        while again:
            again = False
            stack = [list(p) for p in self.stack]
            self.obls, self.failed, self.labels, self.paths = [], [], {}, 0
            work = list(stack)
            while work:
                if time.time() > self.deadline:
                    raise Unsupported('out of time after %d paths' % self.paths)
                self.prefix = work.pop()
                self.newalts = []
                self.start()
                try:
                    self.contract(self)
                except PathEnd:
                    pass
                if self.restart:
                    self.restart = False
                    again = True
                    break
                self.paths += 1
                if self.paths > self.limit:
                    raise Unsupported('more than %d paths' % self.limit)
                work.extend(self.newalts)
                if len(self.failed) >= 4:
                    return

    def start(self):
        self.s = z3.Solver()
        self.s.set('timeout', self.timeout_ms)
        self.pos = 0
        self.decided = {}
        self.trace = []
        self.memo = {}
        self.keep = []
        self.n = 0
        self.inputs = {}
        self.input_order = []
        self.f32map = {}
        self.hash_ok = False
        self.mods = {}
        self.shims = {}
        self.loops = {}
        self.approx = False
        self.crcs = {}
        self.pc = []
        self.log = []
        self.finals = []
        self.rounded = {}

    def check(self, *extra):
        t = time.time()
        self.queries += 1
        r = self.s.check(*extra)
        self.solver_time += time.time() - t
        return r

    def assume(self, e):
        if isinstance(e, SymBool):
            e = e.e
        if e is True:
            return
        if e is False:
            raise PathEnd()
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise PathEnd()
        self.s.add(e)

    def decide(self, n):
        """a nondeterministic choice 0..n-1"""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                self.newalts.append(self.trace + [k])
        self.pos += 1
        self.trace = self.trace + [d]
        return d

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = e.get_id()
        if k in self.decided:
            return self.decided[k]
        self.keep.append(e)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos] == 0
            self.pos += 1
            self.trace = self.trace + [0 if d else 1]
            self.s.add(e if d else z3.Not(e))
        else:
            ct = self.check(e)
            cf = self.check(z3.Not(e))
            if ct == z3.unsat and cf == z3.unsat:
                raise PathEnd()
            if cf == z3.unsat:
                d = True
            elif ct == z3.unsat:
                d = False
            else:
                self.pos += 1
                self.newalts.append(self.trace + [1])
                self.trace = self.trace + [0]
                self.s.add(e)
                d = True
                self.decided[k] = d
                self._neg(e, d)
                return d
            # implied: not a decision
            self.decided[k] = d
            self._neg(e, d)
            self._implied(k)
            return d
        self.decided[k] = d
        self._neg(e, d)
        return d

    def _implied(self, k):
        self.trace = self.trace + [0 if self.decided[k] else 1]
        self.pos += 1

    def _neg(self, e, d):
        ne = z3.simplify(z3.Not(e))
        self.keep.append(ne)
        self.decided[ne.get_id()] = not d

    def valid(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return self.check(z3.Not(e)) == z3.unsat

    def concretize(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            if isinstance(v, tuple):
                self.pos += 1
                self.trace = self.trace + [v]
                if v[0] == 'eq':
                    self.s.add(e == v[1])
                    return v[1]
                self.s.add(*[e != x for x in v[1]])
                tried = list(v[1])
            else:
                raise Unsupported('nondeterministic execution')
        else:
            tried = []
        if len(tried) > 300:
            raise Unsupported('a symbolic value has too many values here')
        r = self.check()
        if r == z3.unsat:
            raise PathEnd()
        if r != z3.sat:
            raise Unsupported('solver gave up')
        v = self.s.model().eval(e, model_completion=True).as_long()
        if tried:
            # replace the marker just taken
            base = self.trace[:-1]
        else:
            base = self.trace
            self.pos += 1
        if self.check(e != v) != z3.unsat:
            self.newalts.append(base + [('ne', tuple(tried + [v]))])
        self.trace = base + [('eq', v)]
        self.s.add(e == v)
        return v

    # ---- values
    def name(self, base):
        self.n += 1
        return '%s!%d' % (base, self.n)

    def fresh_int(self, base='i'):
        return z3.Int(self.name(base))

    def round64(self, e):
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            n, d = e.numerator_as_long(), e.denominator_as_long()
            q = Q(n, d)
            if abs(q) >= V.BIG:
                return z3.RealVal(V.INF if q > 0 else -V.INF)
            return rv(float(q))
        key = ('r64', e.get_id())
        if key not in self.memo:
            r = z3.Real(self.name('rnd'))
            ab = z3.If(e >= 0, e, -e)
            err = ab * z3.Q(1, 2 ** 53) + z3.Q(1, 2 ** 1074)
            self.s.add(r - e <= err, e - r <= err, z3.Implies(e >= 0, r >= 0), z3.Implies(e <= 0, r <= 0))
            # integers of at most 53 bits are exact
            if self._intval(e):
                self.s.add(z3.Implies(ab <= 2 ** 53, r == e))
            self.memo[key] = (r, e)
            self.rounded[r.get_id()] = e
            self.approx = True
        return self.memo[key][0]

    def monotone(self, r, c):
        """rounding is monotone: it does not cross a double"""
        if z3.is_app_of(r, z3.Z3_OP_ITE):
            self.monotone(r.arg(1), c)
            self.monotone(r.arg(2), c)
            return
        if r.get_id() in self.rounded:
            c = z3.simplify(c)
            if z3.is_rational_value(c) and ('mono', r.get_id(), c.get_id()) not in self.memo:
                q = Q(c.numerator_as_long(), c.denominator_as_long())
                if abs(q) < V.BIG and Q(float(q)) == q:
                    e = self.rounded[r.get_id()]
                    self.memo[('mono', r.get_id(), c.get_id())] = c
                    self.s.add(z3.Implies(e <= c, r <= c), z3.Implies(e >= c, r >= c))

    def _intval(self, e):
        return z3.is_to_real(e)

    def ascii(self, z):
        f = z3.Function('is_ascii', z3.StringSort(), z3.BoolSort())
        return f(z)

    def strip_axioms(self, s, r):
        if not self.abstract:
            self.s.add(z3.Contains(s, r), z3.Length(r) <= z3.Length(s))
        self.approx = True

    def text_z(self, t):
        from . import pyshim
        return pyshim.text_z(self, t)

    lib_int = staticmethod(b_int)
    lib_float = staticmethod(b_float)

    def lib(self, name):
        from . import pyshim
        return pyshim.get(self, name)

    def strfun(self, name, *args):
        f = z3.Function(name, *[a.sort() for a in args], z3.StringSort())
        return f(*args)

    def parse_num(self, s, kind):
        """int(text)/float(text): the value is a function of the text, as is whether it is defined"""
        if not s.plain():
            if len(s.p) == 1 and s.p[0][0] == 'fmt' and isinstance(s.p[0][1], SymInt) and s.p[0][2] in ('d', '02d') and kind == 'int':
                return s.p[0][1]
            raise Unsupported('number from formatted text')
        z = s.z()
        k = 'float' if kind == 'float' else 'int'
        ok = z3.Function('%s_ok' % kind, z3.StringSort(), z3.BoolSort())
        if not self.branch(ok(z)):
            raise ValueError('could not convert string to %s' % k)
        if kind == 'float':
            r = z3.Function('float_val', z3.StringSort(), z3.RealSort())(z)
            nan = z3.Function('float_nan', z3.StringSort(), z3.BoolSort())(z)
            return SymFloat(r, nan)
        return SymInt(z3.Function('%s_val' % kind, z3.StringSort(), z3.IntSort())(z))

    def unhex(self, s):
        if len(s.p) == 1 and not isinstance(s.p[0], str) and s.p[0][0] == 'hex':
            return s.p[0][1]
        raise Unsupported('bytes from symbolic text')

    def havoc_like(self, v, name):
        if isinstance(v, (bool, SymBool)):
            return SymBool(z3.Bool(self.name(name)))
        if isinstance(v, (int, SymInt)):
            return SymInt(z3.Int(self.name(name)))
        if isinstance(v, (float, SymFloat)):
            return SymFloat(z3.Real(self.name(name)), z3.Bool(self.name(name + 'nan')))
        return Poison(name)

    # ---- contract interface
    def choose(self, n, name=None):
        d = self.decide(n)
        if name:
            self.inputs[name] = ('const', d)
        return d

    def flag(self, name):
        d = self.decide(2) == 0
        self.inputs[name] = ('const', d)
        return d

    def pick(self, name, options):
        d = self.decide(len(options))
        self.inputs[name] = ('const', d)
        return options[d]

    def int(self, name, lo=None, hi=None):
        e = z3.Int(name)
        if lo is not None:
            self.s.add(e >= lo)
        if hi is not None:
            self.s.add(e <= hi)
        self.inputs[name] = ('int', e)
        return SymInt(e)

    def bool(self, name):
        e = z3.Bool(name)
        self.inputs[name] = ('bool', e)
        return SymBool(e)

    def float(self, name, lo=None, hi=None, nan=False, inf=False):
        e = z3.Real(name)
        n = z3.Bool(name + '.nan') if nan else z3.BoolVal(False)
        if lo is not None:
            self.s.add(e >= rv(lo))
        if hi is not None:
            self.s.add(e <= rv(hi))
        if not inf:
            self.s.add(e < V.BIG, e > -V.BIG)
        self.inputs[name] = ('float', e, n)
        return SymFloat(e, n)

    def bytes(self, name, n, gen=None):
        v = [z3.Int('%s[%d]' % (name, i)) for i in range(n)]
        for x in v:
            self.s.add(x >= 0, x <= 255)
            self.bytevars[x.get_id()] = x
        self.inputs[name] = ('bytes', v)
        return SymBytes([SymInt(x) for x in v])

    def str(self, name, gen=None):
        e = z3.String(name)
        self.inputs[name] = ('str', e)
        return SymStr([('str', e, '')])

    def opaque(self, name, t=None):
        """an arbitrary value that is only passed on"""
        return Opaque(name, t)

    def ensure(self, c, label):
        self.labels[label] = self.labels.get(label, 0) + 1
        if isinstance(c, V.Definite):
            c = c.c
        if c is True:
            self.obls.append((label, 'simplified', 'SUCCESS'))
            return
        e = z3.BoolVal(False) if c is False else unwrap_bool(c)
        if self.by_byte(e):
            self.obls.append((label, 'z3', 'SUCCESS'))
            return
        r = self.check(z3.Not(e))
        if r == z3.unsat:
            self.obls.append((label, 'z3', 'SUCCESS'))
            self.s.add(e)
            return
        if r == z3.unknown:
            r2 = self.retry(e)
            if r2 == z3.unsat:
                self.obls.append((label, 'z3', 'SUCCESS'))
                self.s.add(e)
                return
            self.obls.append((label, 'z3', 'UNKNOWN'))
            raise Unsupported('the solver gave up on "%s"' % label)
        self.obls.append((label, 'z3', 'FAILURE'))
        self.s.add(z3.Not(e))
        self.failed.append({'label': label, 'inputs': self.extract(), 'approx': self.approx})
        raise PathEnd()

    def holds(self, c):
        """c is true for every input of this path"""
        return c if isinstance(c, bool) else self.valid(unwrap_bool(c))

    def by_byte(self, e):
        """e speaks of one input byte only: prove it once for an arbitrary byte (fewer hypotheses than there are)"""
        e = z3.simplify(e)
        vs, todo, seen = {}, [e], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if len(seen) > 60:
                return False
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                vs[x.get_id()] = x
            elif z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    return False
                todo += x.children()
            else:
                return False
        if len(vs) != 1 or next(iter(vs)) not in self.bytevars:
            return False
        b = z3.Int('a_byte')
        g = z3.simplify(z3.substitute(e, (next(iter(vs.values())), b)))
        k = g.sexpr()
        if k not in BYTEMEMO:
            s = z3.Solver()
            s.set('timeout', self.timeout_ms)
            s.add(b >= 0, b <= 255, z3.Not(g))
            t = time.time()
            BYTEMEMO[k] = s.check() == z3.unsat
            self.queries += 1
            self.solver_time += time.time() - t
        return BYTEMEMO[k]

    def retry(self, e):
        s = z3.Solver()
        s.set('timeout', 4 * self.timeout_ms)
        s.set('random_seed', 7)
        s.add(self.s.assertions())
        s.add(z3.Not(e))
        return s.check()

    def fail(self, label, note=''):
        self.ensure(False, label)

    def extract(self):
        """concrete inputs from the model"""
        out = {}
        try:
            if self.check() != z3.sat:
                return None
            m = self.s.model()
            patch = {}
            for key, (bs, r, nan) in self.f32map.items():
                if all(isinstance(b, SymInt) for b in bs):
                    isnan = z3.is_true(m.eval(nan, model_completion=True))
                    q = real(m.eval(r, model_completion=True))
                    try:
                        raw = real_struct.pack('<f', float('nan') if isnan else float(max(min(q, Q(10) ** 38), -Q(10) ** 38)) if abs(q) < V.BIG else float('inf') * (1 if q > 0 else -1))
                    except OverflowError:
                        raw = real_struct.pack('<f', 3e38)
                    for b, x in zip(bs, raw):
                        patch[b.e.get_id()] = x
            for n, v in self.inputs.items():
                if v[0] == 'const':
                    out[n] = v[1]
                elif v[0] == 'int':
                    out[n] = m.eval(v[1], model_completion=True).as_long()
                elif v[0] == 'bool':
                    out[n] = z3.is_true(m.eval(v[1], model_completion=True))
                elif v[0] == 'float':
                    if z3.is_true(m.eval(v[2], model_completion=True)):
                        out[n] = {'f': 'nan'}
                    else:
                        q = real(m.eval(v[1], model_completion=True))
                        out[n] = {'f': (float(q).hex() if abs(q) < V.BIG else ('inf' if q > 0 else '-inf'))}
                elif v[0] == 'bytes':
                    out[n] = {'b': bytes(patch.get(x.get_id(), m.eval(x, model_completion=True).as_long()) for x in v[1]).hex()}
                elif v[0] == 'str':
                    s = m.eval(v[1], model_completion=True).as_string()
                    out[n] = {'s': s}
        except Exception as e:
            out['_note'] = 'extraction: %s' % e
        return out

    # ---- calling the code
    def module(self, name, **shims):
        self.shims.update(shims)
        return self.load(name)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name == 'horusdemodlib':
            m = types.ModuleType(name)
            m.__path__ = [PY]
            m.__version__ = '0'
            self.mods[name] = m
            src = open(os.path.join(PY, '__init__.py')).read()
            exec(compile(src, '__init__', 'exec'), m.__dict__)
            return m
        pkg = self.load('horusdemodlib')
        path = os.path.join(REPO, *name.split('.')) + '.py'
        code = compiled(path)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = 'horusdemodlib'
        self.mods[name] = m
        b = dict(builtins.__dict__)
        b['__import__'] = self.imp
        m.__dict__.update(__builtins__=b, _vc_fstr=h_fstr, _vc_dict=h_dict, _vc_bi=h_bi, _vc_meth=h_meth, _vc_in=h_in, _vc_mod=h_mod,
                          _vc_exc_check=h_exc_check, _vc_loop=self.loop, _vc_ite=h_ite, _vc_mergeable=h_mergeable)
        setattr(pkg, name.split('.')[-1], m)
        exec(code, m.__dict__)
        return m

    def loop(self, q, k, names):
        spec = self.loops.get((q, k)) or self.loops.get((q.split('.')[-1], k))
        if spec is None:
            return NoLoop()
        return Loop(self, q, k, names, spec)

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            name = 'horusdemodlib' + ('.' + name if name else '')
        if name.split('.')[0] == 'horusdemodlib':
            self.load(name)
            if fromlist:
                r = self.mods[name]
                for f in fromlist:
                    if f != '*' and not hasattr(r, f) and os.path.exists(os.path.join(PY, f + '.py')):
                        self.load(name + '.' + f)
                return r
            return self.mods['horusdemodlib']
        from . import pyshim
        m = pyshim.get(self, name)
        if m is not None:
            if '.' in name and not fromlist:
                return pyshim.get(self, name.split('.')[0])
            return m
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def stub(self, modname, **attrs):
        from . import pyshim
        m = pyshim.get(self, modname, create=True)
        for k, v in attrs.items():
            setattr(m, k, v)

    def call(self, f, *a, **k):
        a = [fdict(x) for x in a]
        k = {n: fdict(x) for n, x in k.items()}
        try:
            return Result('ok', f(*a, **k), None)
        except Exception as e:
            check_exc(e)
            if os.environ.get('VC_DEBUG'):
                import traceback
                traceback.print_exc()
            return Result('exc', None, e)

    def crc16(self, data, init=0xffff):
        from . import pyshim
        return pyshim.crc_hqx(self, data, init)

    def le16(self, v):
        return mkbytes([v % 256, v // 256 % 256]) if isinstance(v, SymInt) else bytes([v & 255, v >> 8])

    def f32(self, b):
        from . import pyshim
        return pyshim.f32(self, b)

    def cat(self, *a):
        return h_join('', [h_fstr((x, '', None)) if not isinstance(x, (str, SymStr)) else x for x in a])

    def fmt(self, v, spec=''):
        return h_fstr((v, spec, None))

    def hexup(self, b):
        return SymStr([('hex', b, 'X')]) if isinstance(b, SymBytes) else b.hex().upper()

    def same(self, a, b):
        return same(a, b)

    def open(self, *a, **k):
        raise Unsupported('open')

    def bytearray(self, *a):
        if not a:
            return self.mkbytearray(b'')
        return self.mkbytearray(*a)

    def mkbytearray(self, *a):
        return bytearray(*a)

    def only_symbolic(self):
        return True


def real(v):
    if z3.is_int_value(v):
        return Q(v.as_long())
    if z3.is_rational_value(v):
        return Q(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        return real(v.approx(60))
    return Q(0)


class Result:
    def __init__(self, kind, value, exc):
        self.kind, self.value, self.exc = kind, value, exc
        self.ok = kind == 'ok'

    def __repr__(self):
        return 'Result(%s %r %r)' % (self.kind, self.value, self.exc)


def same(a, b):
    """a condition that implies that both values are equal (and of the same kind)"""
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return a is b
        if isinstance(a, SymFloat) or isinstance(b, SymFloat):
            if not (isinstance(a, (float, SymFloat)) and isinstance(b, (float, SymFloat))):
                return False
            x, y = mkfl(a), mkfl(b)
            return mkbool(z3.Or(z3.And(x.nan, y.nan), z3.And(z3.Not(x.nan), z3.Not(y.nan), x.e == y.e)))
        if isinstance(a, (SymInt, int)) and isinstance(b, (SymInt, int)):
            return a == b
        if isinstance(a, (SymStr, str)) and isinstance(b, (SymStr, str)):
            x, y = SymStr.of(a), SymStr.of(b)
            if x.plain() and y.plain():
                return mkbool(x.z() == y.z())
            if len(x.p) != len(y.p):
                V.E.approx = True
                return False
            c = []
            for p, q in zip(x.p, y.p):
                e = piece_eq(p, q)
                if e is None:
                    V.E.approx = True
                    return False
                c.append(e)
            V.E.approx = True
            return And(*c)
        if isinstance(a, (SymBytes, bytes, bytearray)) and isinstance(b, (SymBytes, bytes, bytearray)):
            return a == b
        if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
            return mkbool(unwrap_bool(a) == unwrap_bool(b))
        return False
    if isinstance(a, dict) and isinstance(b, dict):
        a, b = fdict(a), fdict(b)
        if len(a) != len(b):
            return False
        r = []
        for k in a:
            if k not in b:
                return False
            r.append(same(a[k], b[k]))
        return And(*r)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and And(*[same(x, y) for x, y in zip(a, b)])
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return type(a) == type(b) and a == b


# ---------------------------------------------------------------- native engine
class Native:
    symbolic = False
    hash_ok = True

    def __init__(self, contract, rng=None, given=None):
        self.contract, self.rng, self.given = contract, rng, given
        self.inputs = {}
        self.patches = []
        self.labels = {}
        self.assumed = set()
        self.loops = {}
        self.approx = False
        self.abstract = False

    def run(self):
        """None: fine; otherwise the label of the violated clause"""
        V.E = self
        try:
            self.contract(self)
            return None
        except Skip:
            return 'SKIP'
        except Failure as e:
            return str(e)
        finally:
            for (o, k, v) in reversed(self.patches):
                setattr(o, k, v)

    def _in(self, name, gen, dec=lambda x: x, enc=lambda x: x):
        if self.given is not None:
            if name not in self.given:
                # an input the symbolic run did not reach
                v = gen(self.rng or random.Random(1))
            else:
                v = dec(self.given[name])
        else:
            v = gen(self.rng)
        self.inputs[name] = enc(v)
        return v

    def choose(self, n, name=None):
        return self._in(name or 'choice%d' % len(self.inputs), lambda r: r.randrange(n))

    def flag(self, name):
        return self._in(name, lambda r: r.random() < 0.5)

    def pick(self, name, options):
        return options[self._in(name, lambda r: r.randrange(len(options)))]

    def int(self, name, lo=None, hi=None):
        def g(r):
            a = lo if lo is not None else -2 ** 40
            b = hi if hi is not None else 2 ** 40
            c = r.random()
            if c < 0.35:
                return r.choice([a, b, min(a + 1, b), max(b - 1, a), min(max(0, a), b), (a + b) // 2])
            if c < 0.5:
                return min(max(r.choice([-32769, -32768, -129, -128, -1, 0, 1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536]), a), b)
            if c < 0.7 and b - a > 1000:
                return min(max(r.randint(-300, 300), a), b)
            if c < 0.8 and b - a > 200000:
                return min(max(r.randint(-70000, 70000), a), b)
            return r.randint(a, b)
        return self._in(name, g)

    def bool(self, name):
        return self._in(name, lambda r: r.random() < 0.5)

    def float(self, name, lo=None, hi=None, nan=False, inf=False):
        def g(r):
            c = r.random()
            a = lo if lo is not None else -1e6
            b = hi if hi is not None else 1e6
            if nan and c < 0.08:
                return float('nan')
            if inf and c < 0.12:
                return r.choice([float('inf'), float('-inf')])
            if c < 0.3:
                return float(min(max(r.choice([0.0, -0.0, 1.0, -1.0, 0.5, 180.0, -180.0, 90.0, 1e-9, -32768.0, 32767.0, 65535.0, 127.0, -128.0, 255.0, 5.0, -273.15, -100.0, 180.0001, 1e5, 327.68, -327.68, -327.69, 6553.5, 3276.8]), a), b)) if not (lo is None and c < 0.12) else r.choice([1e300, -1e300, 1e20, -1e20])
            if c < 0.4:
                return float(r.choice([a, b]))
            if c < 0.7:
                return float(min(max(round(r.uniform(-400, 400), r.choice([0, 1, 2, 5])), a), b))
            return r.uniform(a, b)
        return self._in(name, g, lambda x: float(x['f']) if x['f'] in ('nan', 'inf', '-inf') else float.fromhex(x['f']),
                        lambda v: {'f': v.hex() if v == v and abs(v) != float('inf') else str(v)})

    def bytes(self, name, n, gen=None):
        def g(r):
            if gen is not None and r.random() < 0.7:
                return gen(r)
            c = r.random()
            if c < 0.1:
                return bytes(n)
            if c < 0.2:
                return b'\xff' * n
            if c < 0.4:
                return bytes(r.choice([0, 0, 1, 59, 23, 60, 24, 127, 128, 255]) for _ in range(n))
            return bytes(r.randrange(256) for _ in range(n))
        return self._in(name, g, lambda x: bytes.fromhex(x['b']), lambda v: {'b': v.hex()})

    def str(self, name, gen=None):
        def g(r):
            return gen(r) if gen else ''.join(r.choice('abcXYZ019 ,.*$:-') for _ in range(r.randrange(12)))
        return self._in(name, g, lambda x: x['s'], lambda v: {'s': v})

    def opaque(self, name, t=None):
        return NativeToken(name) if t is None else {float: 12.5, int: 7, str: 'txt_' + name}.get(t, NativeToken(name))

    def assume(self, c):
        if not c:
            raise Skip()

    def ensure(self, c, label):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not c:
            raise Failure(label)

    def holds(self, c):
        return bool(c)

    lib_int, lib_float = builtins.int, builtins.float

    def lib(self, name):
        return importlib.import_module(name)

    def fail(self, label, note=''):
        raise Failure(label)

    def module(self, name, **shims):
        return importlib.import_module(name)

    def stub(self, modname, **attrs):
        m = importlib.import_module(modname)
        for k, v in attrs.items():
            if hasattr(m, k):
                old = getattr(m, k)
                self.patches.append((m, k, old))
                setattr(m, k, v)
                for mod in list(sys.modules.values()):
                    if getattr(mod, '__name__', '').startswith('horusdemodlib'):
                        for g in list(vars(mod)):
                            if vars(mod)[g] is old and callable(old):
                                self.patches.append((mod, g, old))
                                setattr(mod, g, v)

    def call(self, f, *a, **k):
        try:
            return Result('ok', f(*a, **k), None)
        except Exception as e:
            if os.environ.get('VC_DEBUG'):
                import traceback
                traceback.print_exc()
            return Result('exc', None, e)

    def crc16(self, data, init=0xffff):
        crc = init
        for b in data:
            crc ^= b << 8
            for _ in range(8):
                crc = ((crc << 1) ^ 0x1021) & 0xffff if crc & 0x8000 else (crc << 1) & 0xffff
        return crc

    def le16(self, v):
        return bytes([v & 255, v >> 8])

    def f32(self, b):
        return real_struct.unpack('<f', bytes(b))[0]

    def cat(self, *a):
        return ''.join(str(x) for x in a)

    def fmt(self, v, spec=''):
        return format(v, spec)

    def hexup(self, b):
        return b.hex().upper()

    def same(self, a, b):
        return same(a, b)

    def only_symbolic(self):
        raise Skip()


class NativeToken:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'token_' + self.n

    def __deepcopy__(self, memo):
        return self
