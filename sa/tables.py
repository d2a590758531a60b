"""Declaration tables read from class bodies: constructor calls assigned to class attributes, enumerations,
decorators.  Everything is read from the syntax tree; names are resolved through the repository's imports."""
import ast

UNKNOWN = '<?>'


class Name(str):
    """a resolved class, function or type"""


CANON = {'numpy.float64': 'float', 'numpy.float_': 'float', 'numpy.double': 'float', 'numpy.radians': 'math.radians',
         'numpy.deg2rad': 'math.radians', 'scipy.radians': 'math.radians', 'numpy.int_': 'int'}


def value(repo, mod, e, depth=0):
    """python value of a constant expression, Name(...) for a reference, UNKNOWN otherwise"""
    if depth > 8:
        return UNKNOWN
    if e is None:
        return None
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, (ast.Tuple, ast.List)):
        return tuple(value(repo, mod, x, depth + 1) for x in e.elts)
    if isinstance(e, ast.Dict):
        if any(k is None for k in e.keys):
            return UNKNOWN
        return {value(repo, mod, k, depth + 1): value(repo, mod, v, depth + 1) for k, v in zip(e.keys, e.values)}
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd, ast.Not)):
        v = value(repo, mod, e.operand, depth + 1)
        if isinstance(v, (int, float)) and not isinstance(e.op, ast.Not):
            return -v if isinstance(e.op, ast.USub) else v
        return UNKNOWN
    if isinstance(e, ast.BinOp):
        a, b = value(repo, mod, e.left, depth + 1), value(repo, mod, e.right, depth + 1)
        num = (int, float)
        if isinstance(a, num) and isinstance(b, num):
            try:
                if isinstance(e.op, ast.Add):
                    return a + b
                if isinstance(e.op, ast.Sub):
                    return a - b
                if isinstance(e.op, ast.Mult):
                    return a * b
                if isinstance(e.op, ast.Div):
                    return a / b
                if isinstance(e.op, ast.Pow) and abs(b) < 400:
                    return a ** b
                if isinstance(e.op, ast.LShift) and 0 <= b < 100:
                    return a << b
            except (ArithmeticError, TypeError):
                pass
        if isinstance(e.op, ast.Add) and type(a) is str and type(b) is str and UNKNOWN not in (a, b):
            return a + b
        return UNKNOWN
    if isinstance(e, ast.JoinedStr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                return UNKNOWN
        return ''.join(parts)
    if isinstance(e, (ast.Name, ast.Attribute)):
        r = repo.resolve_dotted(mod, e)
        if r is None:
            if isinstance(e, ast.Name) and e.id in ('float', 'int', 'bool', 'str', 'list', 'dict', 'tuple', 'object'):
                return Name(e.id)
            return enum_member(repo, mod, e)
        if r[0] == 'class':
            return Name(r[1].name)
        if r[0] == 'func':
            return Name(r[1].name)
        if r[0] == 'const':
            return value(repo, r[2], r[1], depth + 1)
        if r[0] in ('ext', 'mod'):
            n = str(r[1]).replace('scipy.', 'numpy.', 1)
            return Name(CANON.get(n, n))
        return enum_member(repo, mod, e)
    return UNKNOWN


def enum_member(repo, mod, e):
    if isinstance(e, ast.Attribute):
        c = repo.resolve_expr_class(mod, e.value)
        if c is not None:
            return Name(c.name + '.' + e.attr)
    return UNKNOWN


def class_assigns(cls):
    """attribute -> value expression (last assignment at class level)"""
    out = {}
    for n in cls.node.body:
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    out[t.id] = n.value
                elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                    for a, b in zip(t.elts, n.value.elts):
                        if isinstance(a, ast.Name):
                            out[a.id] = b
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            out[n.target.id] = n.value
    return out


def plain_body(cls):
    """True if the class body only contains declarations this reader understands"""
    return all(isinstance(n, (ast.Assign, ast.AnnAssign, ast.FunctionDef, ast.Expr, ast.Pass, ast.ClassDef))
               for n in cls.node.body)


def call_args(repo, mod, call, init):
    """parameter name -> expression of a constructor call, or None"""
    a = init.node.args
    names = [p.arg for p in a.posonlyargs + a.args][1:]
    out = {}
    if len(call.args) > len(names):
        return None
    for n, x in zip(names, call.args):
        if isinstance(x, ast.Starred):
            return None
        out[n] = x
    for k in call.keywords:
        if k.arg is None:
            return None
        out[k.arg] = k.value
    for p, d in zip(names[len(names) - len(a.defaults):], a.defaults):
        out.setdefault(p, d)
    return out


def enum_values(repo, cls):
    return {k: value(repo, cls.module, v) for k, v in class_assigns(cls).items() if not k.startswith('_')}
