"""Mutation testing of the checks: mutate.py OUTDIR [SEED COUNT JOBS].

Makes small changes to kernelmethods in scratch copies, keeps those that pass the repository's tests, runs the checks of the
properties that concern the changed function and reports the changes no check noticed (to be looked at by hand: equivalent
mutants, unspecified behaviour, or gaps)."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
SRC = os.environ.get('KMV_SRC', '/repo')            # (a snapshot, when /repo may change meanwhile)
FILES = ['base', 'numeric_kernels', 'categorical', 'operations', 'sampling', 'ranking', 'algorithms', 'utils']
RELEVANT = [
    ('base', 'KernelMatrix\\.__str__', ['C26']), ('base', 'KernelMatrix\\.', ['C01', 'C02', 'C05', 'C04', 'C06', 'C25', 'C07', 'C03', 'C24']),
    ('base', 'KernelMatrixPre', ['C23', 'C26']), ('base', 'ConstantK', ['C23', 'C06', 'C26']), ('base', 'KernelSet', ['C14', 'C15', 'C26', 'C16', 'C23']),
    ('base', 'Composite|SumK|ProductK|Average|WeightedA', ['C16', 'C26', 'C24']), ('base', 'BaseKernelF|KernelFromC', ['C09', 'C26', 'C13', 'C22']),
    ('base', '', ['C01', 'C14', 'C16', 'C23', 'C26']), ('numeric', '', ['C08', 'C09', 'C26', 'C24']), ('categ', '', ['C10', 'C26', 'C24']),
    ('operations', 'is_pos', ['C13']), ('operations', 'center|frob|align', ['C12', 'C02', 'C18']), ('operations', 'norm', ['C11', 'C25', 'C02', 'C05']),
    ('operations', '', ['C16', 'C11', 'C12', 'C13']), ('sampling', 'Bucket|make', ['C17', 'C21', 'C18']), ('sampling', '', ['C19', 'C17']),
    ('ranking', '', ['C18', 'C20', 'C21']), ('algorithms', '', ['C20', 'C22', 'C21', 'C28', 'C27', 'C30']),
    ('utils', '', ['C09', 'C08', 'C10', 'C18', 'C23', 'C25', 'C16', 'C04', 'C17', 'C28'])]


class Collect(ast.NodeTransformer):
    """Enumerates mutation points; applies the one with number self.pick."""

    def __init__(self, pick=None):
        self.pick, self.n, self.where, self.stack, self.points = pick, 0, None, [], []

    def hit(self, node, what):
        i = self.n
        self.n += 1
        self.points.append(('.'.join(self.stack), getattr(node, 'lineno', 0), what))
        return i == self.pick

    def _scope(self, node):
        self.stack.append(node.name)
        body = node.body
        doc = body[:1] if body and isinstance(body[0], ast.Expr) and isinstance(getattr(body[0], 'value', None), ast.Constant) else []
        new = []
        for st in body[len(doc):]:
            r = self.stmt(st)
            new.extend(r if isinstance(r, list) else [r])
        node.body = doc + (new or [ast.Pass()])
        if isinstance(node, ast.FunctionDef):
            node.args.defaults = [self.visit(d) for d in node.args.defaults]
        self.stack.pop()
        return node

    visit_FunctionDef = visit_ClassDef = _scope

    def stmt(self, st):
        if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) and self.stack:
            if self.hit(st, 'delete ' + ast.unparse(st)[:70]):
                return [ast.Pass()]
        return self.visit(st)

    def visit_If(self, node):
        if self.hit(node, 'if -> if not: ' + ast.unparse(node.test)[:60]):
            node.test = ast.UnaryOp(ast.Not(), node.test)
            return node
        if self.hit(node, 'if -> False: ' + ast.unparse(node.test)[:60]):
            node.test = ast.Constant(False)
            return node
        if self.hit(node, 'if -> True: ' + ast.unparse(node.test)[:60]):
            node.test = ast.Constant(True)
            return node
        node.test = self.visit(node.test)
        for f in ('body', 'orelse'):
            new = []
            for st in getattr(node, f):
                r = self.stmt(st)
                new.extend(r if isinstance(r, list) else [r])
            setattr(node, f, new or ([ast.Pass()] if f == 'body' else []))
        return node

    def _block(self, node):
        for f in ('body', 'orelse', 'finalbody'):
            if hasattr(node, f):
                new = []
                for st in getattr(node, f):
                    r = self.stmt(st)
                    new.extend(r if isinstance(r, list) else [r])
                setattr(node, f, new or ([ast.Pass()] if f == 'body' else []))
        return node

    def visit_For(self, node):
        node.iter = self.visit(node.iter)
        return self._block(node)

    def visit_Try(self, node):
        for h in node.handlers:
            self._block(h)
        return self._block(node)

    def visit_With(self, node):
        return self._block(node)

    SWAP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
            ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            for new in self.SWAP.get(type(node.ops[0]), []):
                if self.hit(node, '%s: %s' % (new.__name__, ast.unparse(node)[:60])):
                    node.ops = [new()]
                    return node
        return self.generic_visit(node)

    def visit_BoolOp(self, node):
        if self.hit(node, 'and<->or: ' + ast.unparse(node)[:60]):
            node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            return node
        for k in range(len(node.values)):
            if self.hit(node, 'drop operand %d: %s' % (k, ast.unparse(node)[:60])):
                rest = node.values[:k] + node.values[k + 1:]
                return rest[0] if len(rest) == 1 else ast.BoolOp(node.op, rest)
        return self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, (ast.Not, ast.USub)) and self.hit(node, 'drop ' + ast.unparse(node)[:60]):
            return node.operand
        return self.generic_visit(node)

    BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.MatMult: []}

    def visit_BinOp(self, node):
        if not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
            for new in self.BIN.get(type(node.op), []):
                if self.hit(node, '%s: %s' % (new.__name__, ast.unparse(node)[:60])):
                    node.op = new()
                    return node
        return self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        if isinstance(v, bool):
            if self.hit(node, 'not %r' % v):
                return ast.Constant(not v)
        elif isinstance(v, (int, float)) and not isinstance(v, bool):
            for w in (v + 1, v - 1 if isinstance(v, int) else v / 2):
                if self.hit(node, '%r -> %r' % (v, w)):
                    return ast.Constant(w)
        elif v is None:
            pass
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_Call(self, node):
        for k in range(len(node.keywords)):
            if node.keywords[k].arg and self.hit(node, 'drop keyword %s: %s' % (node.keywords[k].arg, ast.unparse(node)[:60])):
                node.keywords = node.keywords[:k] + node.keywords[k + 1:]
                return node
        if len(node.args) == 2 and not isinstance(node.func, ast.Name) or (len(node.args) == 2 and getattr(node.func, 'id', '') not in ('isinstance', 'hasattr', 'setattr')):
            if self.hit(node, 'swap arguments: ' + ast.unparse(node)[:60]):
                node.args = node.args[::-1]
                return node
        if len(node.args) == 1 and isinstance(node.func, ast.Name) and node.func.id in ('sorted', 'set', 'list', 'copy', 'deepcopy', 'abs', 'float'):
            if self.hit(node, 'drop call: ' + ast.unparse(node)[:60]):
                return node.args[0]
        return self.generic_visit(node)

    def visit_Return(self, node):
        if node.value is not None:
            if self.hit(node, 'return None: ' + ast.unparse(node)[:60]):
                node.value = ast.Constant(None)
                return node
        return self.generic_visit(node)

    def visit_IfExp(self, node):
        if self.hit(node, 'swap branches: ' + ast.unparse(node)[:60]):
            node.body, node.orelse = node.orelse, node.body
            return node
        return self.generic_visit(node)

    def visit_Raise(self, node):
        return node                                        # messages do not matter

    def visit_Assert(self, node):
        return node


def mutants():
    res = []
    for f in FILES:
        src = open(SRC + '/kernelmethods/%s.py' % f).read()
        c = Collect()
        c.visit(ast.parse(src))
        for i, (where, line, what) in enumerate(c.points):
            if 'warn(' in what or 'print(' in what or 'verbose' in what or what.startswith('delete raise NotImpl'):
                pass
            res.append({'file': f, 'pick': i, 'where': where, 'line': line, 'what': what})
    return res


def checks_for(m):
    for f, pat, cs in RELEVANT:
        if m['file'].startswith(f) and re.match(pat, m['where']):
            return cs
    return []


def one(m, out):
    import plant
    copy = '/tmp/mut-%s-%d' % (m['file'], m['pick'])
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree(SRC, copy, symlinks=True)
    try:
        p = '%s/kernelmethods/%s.py' % (copy, m['file'])
        src = open(p).read()
        c = Collect(m['pick'])
        t = ast.fix_missing_locations(c.visit(ast.parse(src)))
        open(p, 'w').write(ast.unparse(t) + '\n')
        try:
            ok, _ = plant.tests_pass(copy)
        except Exception as e:
            ok = False
        m['tests'] = ok
        m['caught'] = None
        if ok:
            cs = checks_for(m)
            for ck in cs + [x for x in ('C30', 'C29') if x not in cs]:
                try:
                    r = subprocess.run(['bash', 'check.sh', ck], cwd=ROOT, env=dict(os.environ, KMV_REPO=copy, KMV_EVIDENCE=copy + '/.ev'),
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                    rc, txt = r.returncode, r.stdout.decode()
                except subprocess.TimeoutExpired:
                    rc, txt = 'timeout', ''
                if rc == 1:
                    m['caught'], m['msg'] = ck, txt[:160]
                    break
                if rc != 0:
                    m.setdefault('odd', []).append([ck, rc, txt[-300:]])
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree('/tmp/pl-hyp-' + os.path.basename(copy), ignore_errors=True)
    with open(out, 'a') as f:
        f.write(json.dumps(m) + '\n')


if __name__ == '__main__':
    os.makedirs(sys.argv[1], exist_ok=True)
    ms = mutants()
    print(len(ms), 'mutation points')
    if len(sys.argv) > 2:
        random.Random(int(sys.argv[2])).shuffle(ms)
        ms = ms[:int(sys.argv[3])]
        out = os.path.join(sys.argv[1], 'results.jsonl')
        seen = {(m['file'], m['pick']) for m in map(json.loads, open(out))} if os.path.exists(out) else set()
        with ThreadPoolExecutor(int(sys.argv[4])) as ex:
            list(ex.map(lambda m: one(m, out), [m for m in ms if (m['file'], m['pick']) not in seen]))
