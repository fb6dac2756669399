"""Proof rule for loops over an array of unknown length.

    for i in range(n): body

is verified by executing the body once for an arbitrary index i, provided the
iterations are independent ("map loop").  Independence is checked, not
assumed:
 - no local variable is read in the body before it is assigned there
   (definite assignment on the syntax tree), so no value is carried from one
   iteration to the next;
 - arrays that exist before the loop are written only at index i, and read
   only at index i (any other access raises Unsupported);
 - no break, return or yield in the body, and no call that grows or changes a
   list, dict or set made before the loop;
 - variables assigned in the body are unusable afterwards.
Loops that do not satisfy the syntactic part keep Python's own range (and are
then refused when their bound is symbolic)."""
import ast


MUT = {'append', 'pop', 'extend', 'insert', 'remove', 'update', 'setdefault',
       'add', 'discard', 'clear', 'sort', 'reverse', 'popitem', 'fill',
       'appendleft', 'popleft'}


class _Names(ast.NodeVisitor):
    """names possibly read before they are assigned in a statement list"""

    def __init__(self, index):
        self.index = index
        self.early = set()
        self.assigned = set()
        self.bad = False

    # returns set of definitely assigned names
    def block(self, stmts, done):
        done = set(done)
        for s in stmts:
            done = self.stmt(s, done)
            if done is None:
                return None
        return done

    def reads(self, e, done):
        if e is None:
            return
        for n in ast.walk(e):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                self.bad = True
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
                    n.id not in done:
                self.early.add(n.id)
            if isinstance(n, (ast.NamedExpr, ast.Lambda)):
                self.bad = True
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr in MUT and not (
                    isinstance(n.func.value, ast.Name) and
                    n.func.value.id in done):
                self.bad = True

    def target(self, tg, done):
        if isinstance(tg, ast.Name):
            self.assigned.add(tg.id)
            return done | {tg.id}
        if isinstance(tg, (ast.Tuple, ast.List)):
            for e in tg.elts:
                done = self.target(e, done)
            return done
        if isinstance(tg, ast.Starred):
            return self.target(tg.value, done)
        if isinstance(tg, ast.Subscript):
            self.reads(tg.value, done)
            self.reads(tg.slice, done)
            if not any(isinstance(q, ast.Name) and q.id == self.index
                       for q in ast.walk(tg.slice)) and not (
                    isinstance(tg.value, ast.Name) and tg.value.id in done):
                self.bad = True
            return done
        self.bad = True
        return done

    def stmt(self, s, done):
        if isinstance(s, ast.Assign):
            self.reads(s.value, done)
            for tg in s.targets:
                done = self.target(tg, done)
            return done
        if isinstance(s, ast.AugAssign):
            self.reads(s.value, done)
            if isinstance(s.target, ast.Name):
                if s.target.id not in done:
                    self.early.add(s.target.id)
                self.assigned.add(s.target.id)
            else:
                self.target(s.target, done)
            return done
        if isinstance(s, ast.Expr):
            self.reads(s.value, done)
            return done
        if isinstance(s, ast.If):
            self.reads(s.test, done)
            a = self.block(s.body, done)
            b = self.block(s.orelse, done)
            if a is None:
                return b
            if b is None:
                return a
            return a & b
        if isinstance(s, ast.For):
            self.reads(s.iter, done)
            d2 = self.target(s.target, done)
            self.block(s.body, d2)
            self.block(s.orelse, done)
            return done
        if isinstance(s, ast.While):
            self.reads(s.test, done)
            self.block(s.body, done)
            return done
        if isinstance(s, ast.With):
            for it in s.items:
                self.reads(it.context_expr, done)
                if it.optional_vars is not None:
                    done = self.target(it.optional_vars, done)
            return self.block(s.body, done)
        if isinstance(s, ast.Pass):
            return done
        if isinstance(s, ast.Continue):
            return None
        if isinstance(s, ast.Raise):
            self.reads(s.exc, done)
            return None
        self.bad = True
        return done


def independent(loop):
    v = _Names(loop.target.id)
    v.block(loop.body, {loop.target.id})
    return not v.bad and not (v.early & v.assigned) and \
        loop.target.id not in v.assigned, sorted(v.assigned)


class Tr(ast.NodeTransformer):
    n = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if not (isinstance(n.target, ast.Name) and not n.orelse and
                isinstance(n.iter, ast.Call) and
                isinstance(n.iter.func, ast.Name) and
                n.iter.func.id == 'range' and not n.iter.keywords):
            return n
        ok, names = independent(n)
        if not ok:
            return n
        Tr.n += 1
        r = f'_pvc_range{Tr.n}'
        n.iter.func.id = '_pvc_maprange'
        out = [ast.Assign([ast.Name(r, ast.Store())], n.iter), n]
        n.iter = ast.Name(r, ast.Load())
        tg = [ast.Name(q, ast.Store()) for q in [n.target.id] + names]
        out.append(ast.If(
            ast.Attribute(ast.Name(r, ast.Load()), 'generic', ast.Load()),
            [ast.Expr(ast.Call(ast.Attribute(ast.Name(r, ast.Load()), 'end',
                                             ast.Load()), [], [])),
             ast.Assign(tg, ast.Name('_pvc_poison', ast.Load()))], []))
        for o in out:
            ast.copy_location(o, n)
        return out


def transform(tree):
    return Tr().visit(tree)
