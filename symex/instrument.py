"""AST instrumentation of ordinary Python sources: routes operations through symex.rt"""
import ast

_SKIP = ('super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', '__import__', 'compile')


class Rewriter(ast.NodeTransformer):

    def _name(self, attr, node):
        return ast.copy_location(
            ast.Attribute(value=ast.Name(id='__rt__', ctx=ast.Load()), attr=attr, ctx=ast.Load()), node)

    def _call(self, attr, args, node):
        return ast.copy_location(ast.Call(func=self._name(attr, node), args=args, keywords=[]), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in _SKIP:
            return node
        return ast.copy_location(
            ast.Call(func=self._name('call', node), args=[node.func] + node.args, keywords=node.keywords), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self._call('getitem', [node.value, self._index(node.slice)], node)
        return node

    def _index(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(value=None)
            return ast.copy_location(
                ast.Call(func=ast.Name(id='slice', ctx=ast.Load()),
                         args=[s.lower or none, s.upper or none, s.step or none], keywords=[]), s)
        if isinstance(s, ast.Tuple):
            return ast.copy_location(ast.Tuple(elts=[self._index(e) for e in s.elts], ctx=ast.Load()), s)
        return s

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            o, i, v = self.visit(t.value), self._index_v(t.slice), self.visit(node.value)
            # Python evaluates the value first
            return ast.copy_location(ast.Expr(value=self._call('setitem_v', [v, o, i], node)), node)
        self.generic_visit(node)
        return node

    def _index_v(self, s):
        return self._index(self.generic_visit(s) if isinstance(s, ast.Slice) else self.visit(s))

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Subscript):
            t = node.target
            tmp = '__aug%d' % id(node)
            tmpi = '__augi%d' % id(node)
            a1 = ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=self.visit(t.value))
            a2 = ast.Assign(targets=[ast.Name(id=tmpi, ctx=ast.Store())], value=self._index_v(t.slice))
            load = self._call('getitem', [ast.Name(id=tmp, ctx=ast.Load()), ast.Name(id=tmpi, ctx=ast.Load())], node)
            val = ast.BinOp(left=load, op=node.op, right=self.visit(node.value))
            st = ast.Expr(value=self._call('setitem_v', [val, ast.Name(id=tmp, ctx=ast.Load()),
                                                         ast.Name(id=tmpi, ctx=ast.Load())], node))
            return [ast.copy_location(x, node) for x in (a1, a2, st)]
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign(
                targets=[node.target],
                value=self._call('mod', [ast.Name(id=node.target.id, ctx=ast.Load()), node.value], node)), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call('mod', [node.left, node.right], node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = self._call('contains', [node.left, node.comparators[0]], node)
            if isinstance(node.ops[0], ast.NotIn):
                return ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=c), node)
            return c
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value='')
                parts.append(self._call('fmt', [self.visit(v.value), ast.Constant(value=v.conversion), spec], node))
            else:
                parts.append(v)
        return self._call('joinstr', parts, node)

    # do not touch decorators' names etc. beyond calls; annotations are dropped
    def visit_AnnAssign(self, node):
        if node.value is None:
            return ast.copy_location(ast.Pass(), node)
        return self.visit_Assign(ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node))


def instrument(src, filename):
    tree = ast.parse(src, filename)
    tree = Rewriter().visit(tree)
    # keep a docstring / __future__ imports first
    imp = ast.parse('from symex import rt as __rt__').body[0]
    pos = 0
    for i, st in enumerate(tree.body):
        if isinstance(st, ast.ImportFrom) and st.module == '__future__':
            pos = i + 1
        elif i == 0 and isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) and isinstance(st.value.value, str):
            pos = 1
    tree.body.insert(pos, imp)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)
