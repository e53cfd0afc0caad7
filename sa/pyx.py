"""Cython sources as Python syntax trees: Cython's own parser, then a purely syntactic translation.

Typed declarations become `__cdecl__` / `__coerce__` calls, addresses become `__ref__` / `__elem__` calls and calls
that receive addresses of scalars become assignments of the values the callee leaves there.
"""
import ast, io, re

def parse(path):
    from Cython.Compiler import Errors, Parsing
    from Cython.Compiler.TreeFragment import StringParseContext
    from Cython.Compiler.Scanning import PyrexScanner, StringSourceDescriptor
    src = open(path, encoding="utf-8").read()
    ctx = StringParseContext("m", cpp=False)
    sd = StringSourceDescriptor(path, src)
    scope = ctx.find_module("m", need_pxd=False)
    Errors.init_thread()
    m = re.search(r"#\s*cython:.*language_level\s*=\s*(\d)", src)
    ctx.set_language_level(int(m.group(1)) if m else 3)
    sc = PyrexScanner(io.StringIO(src), sd, source_encoding="UTF-8", scope=scope, context=ctx, initial_pos=(sd, 1, 0))
    return Parsing.p_module(sc, 0, "m"), src

class Tr:
    def __init__(s, directives): s.fn = None; s.types = {}; s.ctypes = {}; s.dirs = directives
    def L(s, node, n):
        p = getattr(n, "pos", None)
        if p:
            for x in ast.walk(node):
                if not hasattr(x, "lineno"):
                    x.lineno = p[1]; x.col_offset = p[2]; x.end_lineno = p[1]; x.end_col_offset = p[2]
        return node
    # ------------------------------------------------------------ types
    def ty(s, bt, decl=None):
        k = type(bt).__name__
        if k == "MemoryViewSliceTypeNode":
            axes = [1 if type(a.step).__name__ == "IntNode" else 0 for a in bt.axes]
            order = "F" if len(axes) > 1 and axes[0] else "C"
            return ("mv", s.ty(bt.base_type_node)[1], len(axes), order)
        if k == "CSimpleBaseTypeNode":
            nm = bt.name
            if nm is None or (decl is not None and nm is None): nm = "object"
            if nm in ("int", "long", "short", "Py_ssize_t", "size_t", "bint", "char"): return ("c", "int", nm)
            if nm == "double": return ("c", "double", nm)
            if nm in ("float", "float32_t"): return ("c", "float", nm)
            if nm.startswith("float64") or nm == "double_t": return ("c", "double", nm)
            return ("o", nm, nm)
        if k == "TemplatedTypeNode": return ("o", "object", "object")
        if k == "CNestedBaseTypeNode" or k == "CQualifiedTypeNode" or k == "CConstOrVolatileTypeNode":
            b = getattr(bt, "base_type", None)
            nm = getattr(bt, "name", "")
            if nm and ("int" in nm or nm.endswith("_t") and "float" not in nm): return ("c", "int", nm)
            if nm and "float" in nm: return ("c", "double", nm)
            return s.ty(b) if b is not None else ("o", "object", "object")
        return ("o", "object", "object")
    def dname(s, d):
        k = type(d).__name__
        if k == "CNameDeclaratorNode": return d.name
        return s.dname(d.base)
    # ------------------------------------------------------------ expressions
    def name(s, n): return ast.Name(n, ast.Load())
    def call(s, f, *args): return ast.Call(s.name(f), list(args), [])
    def ex(s, n):
        m = getattr(s, "x_" + type(n).__name__, None)
        if m is None: return s.L(s.call("__unsupported__", ast.Constant(type(n).__name__)), n)
        return s.L(m(n), n)
    def x_NameNode(s, n): return s.name(n.name)
    def x_IdentifierStringNode(s, n): return ast.Constant(n.value)
    def x_IntNode(s, n):
        v = n.value.rstrip("uUlL")
        return ast.Constant(int(v, 0))
    def x_FloatNode(s, n): return ast.Constant(float(n.value))
    def x_UnicodeNode(s, n): return ast.Constant(str(n.value))
    x_StringNode = x_UnicodeNode
    def x_BytesNode(s, n): return ast.Constant(str(n.value))
    def x_CharNode(s, n): return ast.Constant(str(n.value))
    def x_BoolNode(s, n): return ast.Constant(bool(n.value))
    def x_NoneNode(s, n): return ast.Constant(None)
    def x_NullNode(s, n): return ast.Constant(None)
    def x_AttributeNode(s, n): return ast.Attribute(s.ex(n.obj), n.attribute, ast.Load())
    def x_TupleNode(s, n): return ast.Tuple([s.ex(x) for x in n.args], ast.Load())
    def x_ListNode(s, n): return ast.List([s.ex(x) for x in n.args], ast.Load())
    def x_DictNode(s, n):
        return ast.Dict([s.ex(i.key) for i in n.key_value_pairs], [s.ex(i.value) for i in n.key_value_pairs])
    def x_SliceNode(s, n):
        f = lambda x: None if x is None or type(x).__name__ == "NoneNode" else s.ex(x)
        return ast.Slice(f(n.start), f(n.stop), f(n.step))
    def x_SliceIndexNode(s, n):
        f = lambda x: None if x is None or type(x).__name__ == "NoneNode" else s.ex(x)
        sl = s.L(ast.Slice(f(n.start), f(n.stop), None), n)
        return ast.Subscript(s.ex(n.base), sl, ast.Load())
    def x_IndexNode(s, n): return ast.Subscript(s.ex(n.base), s.ex(n.index), ast.Load())
    BIN = dict(AddNode=ast.Add, SubNode=ast.Sub, MulNode=ast.Mult, DivNode=ast.Div, ModNode=ast.Mod, PowNode=ast.Pow)
    def binop(s, n):
        k = type(n).__name__
        op = s.BIN.get(k)
        if n.operator == "//": op = ast.FloorDiv
        if n.operator == "@": op = ast.MatMult
        if op is None:
            op = {"|": ast.BitOr, "&": ast.BitAnd, "^": ast.BitXor, "<<": ast.LShift, ">>": ast.RShift}[n.operator]
        return ast.BinOp(s.ex(n.operand1), op(), s.ex(n.operand2))
    x_AddNode = x_SubNode = x_MulNode = x_DivNode = x_ModNode = x_PowNode = x_IntBinopNode = x_BitwiseOrNode = x_NumBinopNode = x_MatMultNode = binop
    def x_UnaryMinusNode(s, n):
        o = s.ex(n.operand)
        return ast.UnaryOp(ast.USub(), o)
    def x_UnaryPlusNode(s, n): return ast.UnaryOp(ast.UAdd(), s.ex(n.operand))
    def x_TildeNode(s, n): return ast.UnaryOp(ast.Invert(), s.ex(n.operand))
    def x_NotNode(s, n): return ast.UnaryOp(ast.Not(), s.ex(n.operand))
    def x_BoolBinopNode(s, n): return ast.BoolOp(ast.And() if n.operator == "and" else ast.Or(), [s.ex(n.operand1), s.ex(n.operand2)])
    def x_CondExprNode(s, n): return ast.IfExp(s.ex(n.test if hasattr(n, "test") else n.condition), s.ex(n.true_val), s.ex(n.false_val))
    CMP = {"<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, "==": ast.Eq, "!=": ast.NotEq, "in": ast.In, "not_in": ast.NotIn, "is": ast.Is, "is_not": ast.IsNot}
    def x_PrimaryCmpNode(s, n):
        ops = [s.CMP[n.operator]()]; cs = [s.ex(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(s.CMP[c.operator]()); cs.append(s.ex(c.operand2)); c = c.cascade
        return ast.Compare(s.ex(n.operand1), ops, cs)
    def x_TypecastNode(s, n):
        t = s.ty(n.base_type)
        o = s.ex(n.operand)
        return s.call("__ccast__", ast.Constant(t[1]), o) if t[0] == "c" else o
    def x_AmpersandNode(s, n):
        o = n.operand
        k = type(o).__name__
        if k == "NameNode":
            if s.fn is not None and o.name in s.ctypes and s.ctypes[o.name][0] == "c": return s.call("__ref__", s.name(o.name))
            return s.name(o.name)                      # address of a function
        if k == "IndexNode":
            base = s.ex(o.base)
            order = "C"
            if type(o.base).__name__ == "NameNode": order = s.ctypes.get(o.base.name, ("", "", 1, "C"))[-1]
            ix = o.index
            args = [s.ex(x) for x in ix.args] if type(ix).__name__ == "TupleNode" else [s.ex(ix)]
            return s.call("__elem__", base, ast.Constant(order if order in ("C", "F") else "C"), *args)
        return s.call("__unsupported__", ast.Constant("&" + k))
    def x_SimpleCallNode(s, n):
        return ast.Call(s.ex(n.function), [s.ex(a) for a in n.args], [])
    def x_GeneralCallNode(s, n):
        kw = []
        if n.keyword_args is not None:
            for i in n.keyword_args.key_value_pairs: kw.append(ast.keyword(i.key.value, s.ex(i.value)))
        return ast.Call(s.ex(n.function), [s.ex(a) for a in n.positional_args.args], kw)
    # ------------------------------------------------------------ statements
    def store(s, e):
        e = s.ex(e)
        for x in ast.walk(e):
            pass
        def setctx(x):
            x.ctx = ast.Store()
            if isinstance(x, (ast.Tuple, ast.List)):
                for y in x.elts: setctx(y)
        setctx(e)
        return e
    def block(s, n):
        if n is None: return []
        out = []
        for x in (n.stats if type(n).__name__ == "StatListNode" else [n]):
            r = s.st(x)
            for y in (r if isinstance(r, list) else [r]):
                if y is not None: out.append(s.L(y, x))
        return out
    def body(s, n, node):
        return s.block(n) or [s.L(ast.Pass(), node)]
    def st(s, n):
        k = type(n).__name__
        m = getattr(s, "s_" + k, None)
        if m is None: return ast.Expr(s.call("__unsupported__", ast.Constant(k)))
        return m(n)
    def s_StatListNode(s, n): return s.block(n)
    def s_PassStatNode(s, n): return ast.Pass()
    def s_ContinueStatNode(s, n): return ast.Continue()
    def s_BreakStatNode(s, n): return ast.Break()
    def s_CImportStatNode(s, n): return None
    def s_FromCImportStatNode(s, n):
        lvl = n.relative_level or 0
        mod = str(n.module_name)
        if lvl == 0 and (mod.startswith("scipy.linalg.cython") or mod.startswith("libc") or mod.startswith("cython") or mod.startswith("cpython") or mod == "numpy"):
            out = []
            for x in n.imported_names:
                nm, asn = str(x[1]), x[2] or x[1]
                out.append(ast.Assign([ast.Name(str(asn), ast.Store())], s.call("__clib__", ast.Constant(mod + "." + nm))))
            return out or None
        return ast.ImportFrom(mod, [ast.alias(str(x[1]), str(x[2]) if x[2] else None) for x in n.imported_names], lvl)
    def s_FromImportStatNode(s, n):
        mod = n.module
        names = [ast.alias(str(nm), None if tgt.name == str(nm) else tgt.name) for nm, tgt in n.items]
        return ast.ImportFrom(str(mod.module_name.value) or None, names, max(getattr(mod, "level", 0) or 0, 0))
    def s_SingleAssignmentNode(s, n):
        if type(n.rhs).__name__ == "ImportNode":
            nm = str(n.rhs.module_name.value)
            asn = n.lhs.name
            return ast.Import([ast.alias(nm, asn if asn != nm.split(".")[0] else None)])
        v = s.ex(n.rhs)
        if type(n.lhs).__name__ == "NameNode" and s.fn is not None and n.lhs.name in s.ctypes: v = s.coerce(s.ctypes[n.lhs.name], v)
        return ast.Assign([s.store(n.lhs)], v)
    def s_CascadedAssignmentNode(s, n):
        return ast.Assign([s.store(x) for x in n.lhs_list], s.ex(n.rhs))
    def s_ParallelAssignmentNode(s, n): return s.block(type("X", (), dict(stats=n.stats))()) if False else [y for x in n.stats for y in ([s.st(x)] if not isinstance(s.st(x), list) else s.st(x))]
    def coerce(s, t, v):
        if t[0] == "mv": return s.call("__mview__", v, ast.Constant(t[1]), ast.Constant(t[2]), ast.Constant(t[3]))
        if t[0] == "c": return s.call("__ccast__", ast.Constant(t[1]), v)
        return v
    def s_CVarDefNode(s, n):
        t = s.ty(n.base_type)
        out = []
        for d in n.declarators:
            nm = s.dname(d)
            if type(d).__name__ == "CPtrDeclaratorNode": tt = ("p", t[1], "ptr")
            elif type(d).__name__ == "CArrayDeclaratorNode":
                tt = ("mv", t[1], 1, "C")
                dim = s.ex(d.dimension)
                s.ctypes[nm] = tt
                out.append(ast.Assign([ast.Name(nm, ast.Store())], s.call("__carray__", dim, ast.Constant(t[1]))))
                continue
            else: tt = t
            s.ctypes[nm] = tt
            dv = getattr(d, "default", None)
            if dv is not None: out.append(ast.Assign([ast.Name(nm, ast.Store())], s.coerce(tt, s.ex(dv))))
            elif tt[0] == "c": out.append(ast.Assign([ast.Name(nm, ast.Store())], s.call("__uninit__", ast.Constant(nm), ast.Constant(tt[1]))))
        return out
    def s_CTypeDefNode(s, n): return None
    def s_CDefExternNode(s, n): return None
    def fdef(s, n, nm, args, body):
        old = s.fn, s.ctypes
        s.fn = nm; s.ctypes = {}
        al, pre, defaults = [], [], []
        for a in args:
            t = s.ty(a.base_type, a.declarator)
            an = s.dname(a.declarator)
            if not an and type(a.base_type).__name__ == "CSimpleBaseTypeNode": an, t = a.base_type.name, ("o", "object", "object")
            s.ctypes[an] = t
            al.append(ast.arg(an))
            if t[0] in ("mv", "c"): pre.append(s.L(ast.Assign([ast.Name(an, ast.Store())], s.coerce(t, s.name(an))), n))
            if getattr(a, "default", None) is not None: defaults.append(s.ex(a.default))
        f = ast.FunctionDef(nm, ast.arguments([], al, None, [], [], None, defaults), pre + s.body(body, n), [], None, None)
        f.type_params = []
        f._lang = "pyx"; f._ctypes = dict(s.ctypes); f._dirs = s.dirs
        s.fn, s.ctypes = old
        return f
    def s_CFuncDefNode(s, n):
        d = n.declarator
        while type(d).__name__ != "CFuncDeclaratorNode": d = d.base
        return s.fdef(n, s.dname(d.base), d.args, n.body)
    def s_DefNode(s, n): return s.fdef(n, n.name, n.args, n.body)
    def s_GILStatNode(s, n): return s.block(n.body)
    def s_IfStatNode(s, n):
        orelse = s.block(n.else_clause)
        for c in reversed(n.if_clauses):
            orelse = [s.L(ast.If(s.ex(c.condition), s.body(c.body, c), orelse), c)]
        return orelse
    def s_ForInStatNode(s, n):
        seq = n.iterator.sequence
        return ast.For(s.store(n.target), s.ex(seq), s.body(n.body, n), s.block(n.else_clause), None)
    def s_ForFromStatNode(s, n):
        lo, hi = s.ex(n.bound1), s.ex(n.bound2)
        if n.relation1 == "<": lo = ast.BinOp(lo, ast.Add(), ast.Constant(1))
        if n.relation2 == "<=": hi = ast.BinOp(hi, ast.Add(), ast.Constant(1))
        return ast.For(s.store(n.target), s.call("range", lo, hi), s.body(n.body, n), [], None)
    def s_WhileStatNode(s, n): return ast.While(s.ex(n.condition), s.body(n.body, n), s.block(n.else_clause))
    def s_InPlaceAssignmentNode(s, n):
        op = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "//": ast.FloorDiv, "**": ast.Pow, "%": ast.Mod}[n.operator]
        return ast.AugAssign(s.store(n.lhs), op(), s.ex(n.rhs))
    def s_ReturnStatNode(s, n): return ast.Return(s.ex(n.value) if n.value is not None else None)
    def s_RaiseStatNode(s, n): return ast.Raise(s.ex(n.exc_type) if n.exc_type is not None else None, None)
    def s_AssertStatNode(s, n): return ast.Assert(s.ex(n.condition), None)
    def s_ExprStatNode(s, n):
        e = n.expr
        if type(e).__name__ == "SimpleCallNode":
            refs = []
            for a in e.args:
                if type(a).__name__ == "AmpersandNode" and type(a.operand).__name__ == "NameNode" and s.ctypes.get(a.operand.name, ("",))[0] == "c":
                    refs.append(a.operand.name)
            if refs:
                tgt = ast.Tuple([ast.Name(r, ast.Store()) for r in refs], ast.Store())
                return ast.Assign([tgt], s.ex(e))
        return ast.Expr(s.ex(e))
    def s_TryExceptStatNode(s, n):
        hs = []
        for c in n.except_clauses:
            t = None
            if c.pattern: t = s.ex(c.pattern[0]) if len(c.pattern) == 1 else ast.Tuple([s.ex(x) for x in c.pattern], ast.Load())
            hs.append(ast.ExceptHandler(t, c.target.name if c.target is not None else None, s.body(c.body, n)))
        return ast.Try(s.body(n.body, n), hs, s.block(n.else_clause), [])

def directives(src):
    d = {}
    for m in re.finditer(r"^#\s*cython:\s*(.*)$", src, re.M):
        for kv in m.group(1).split(","):
            if "=" in kv:
                k, v = kv.split("=", 1); d[k.strip()] = v.strip()
    return d

def load(path):
    tree, src = parse(path)
    t = Tr(directives(src))
    body = t.block(tree.body)
    mod = ast.Module(body, [])
    ast.fix_missing_locations(mod)
    return mod
