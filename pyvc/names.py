"""Names of locals, for invariants written over them.

A harness names a local by the name it had in the tree the harness was written for (names.json).  When the function under
proof no longer has that name, the locals that disappeared are matched in order of first assignment with those that appeared.
A wrong match can only make a candidate invariant fail: candidates are proved, never assumed.
"""
import ast
import json
import os
import sys

PINNED = None
_cache = {}


def functions(tree, pre=''):
    for s in ast.iter_child_nodes(tree):
        if isinstance(s, ast.ClassDef):
            for x in functions(s, pre + s.name + '.'):
                yield x
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield pre + s.name, s


def order(fn):
    """the locals in order of first assignment (parameters left out)"""
    out = []
    own = {a.arg for a in fn.args.args + fn.args.kwonlyargs}

    def visit(n):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out and n.id not in own:
            out.append(n.id)
        for c in ast.iter_child_nodes(n):
            visit(c)
    for s in fn.body:
        visit(s)
    return out


def current(filename):
    if filename not in _cache:
        try:
            with open(filename) as f:
                _cache[filename] = {q: order(fn) for q, fn in functions(ast.parse(f.read()))}
        except (OSError, SyntaxError):
            _cache[filename] = {}
    return _cache[filename]


def renamed(code, name):
    """what the local once called name is called now (or None)"""
    global PINNED
    if PINNED is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'names.json')) as f:
            PINNED = json.load(f)
    i = code.co_filename.rfind('chainerrl' + os.sep)
    if i < 0:
        return None
    old = PINNED.get(code.co_filename[i:] + ':' + code.co_qualname)
    if old is None or name not in old:
        return None
    new = current(code.co_filename).get(code.co_qualname, [])
    gone = [x for x in old if x not in new]
    came = [x for x in new if x not in old]
    if name not in gone or gone.index(name) >= len(came):
        return None
    return came[gone.index(name)]


if __name__ == '__main__':
    top = os.environ.get('PYVC_REPO', '/repo')
    want = [('chainerrl/misc/random.py', 'sample_n_k'), ('chainerrl/misc/prioritized.py', 'SumTreeQueue.uniform_sample'),
            ('chainerrl/misc/prioritized.py', 'SumTreeQueue.prioritized_sample'),
            ('chainerrl/misc/prioritized.py', 'PrioritizedBuffer._sample_indices_and_probabilities'),
            ('chainerrl/experiments/train_agent.py', 'train_agent'), ('chainerrl/experiments/train_agent_batch.py', 'train_agent_batch'),
            ('chainerrl/experiments/train_agent_async.py', 'train_loop')]
    out = {f + ':' + q: current(os.path.join(top, f))[q] for f, q in want}
    json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'names.json'), 'w'), indent=1, sort_keys=True)
