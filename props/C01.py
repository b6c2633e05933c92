"""C01 RandomAccessQueue is a bounded FIFO with list indexing."""
from props.lib import *
LEVEL = 'proof'
LEVEL_NOTE = 'every public method of the real RandomAccessQueue against the abstract sequence, arbitrary contents and split; sample() against the sample_n_k contract (proved in C08)'
TRUSTED = ['contract of chainerrl.misc.random.sample_n_k (discharged under C08)']

W = world('base')


def any_queue():
    s = sym_seq('q')
    if choose(2) == 0:
        m = None
    else:
        m = fresh_int('maxlen', 0)
        assume(s.n <= m)
    q = make_raq(W, s, m)
    root('q', q)
    return q, s, m


def p_constructor():
    xs = sym_seq('init')
    m = fresh_int('maxlen', 0)
    case = choose(5)
    Q = raq_class(W)
    if case == 0:
        q, want = Q(), Seq(())
    elif case == 1:
        q, want = Q(PList(seq=xs)), xs
    elif case == 2:
        q, want = Q(maxlen=m), Seq(())
    elif case == 3:
        q, want = Q(PList(seq=xs), maxlen=m), trim(xs, m)
    else:
        q, want = Q(PList(seq=xs), maxlen=None), xs
    cover('constructed')
    check(seq_same(raq_view(q), want), 'constructor holds the last maxlen initial values')
    check(same(q.maxlen, m if case in (2, 3) else None), 'maxlen is recorded')


def p_append():
    q, s, m = any_queue()
    x = fresh_obj('x')
    r = q.append(x)
    check(seq_same(raq_view(q), trim(s.concat(Seq([x])), m)), 'append adds at the right end and drops from the left')
    check(r is None, 'append returns None')
    check(same(q.maxlen, m), 'append keeps maxlen')


def p_extend():
    q, s, m = any_queue()
    xs = sym_seq('xs')
    q.extend(PList(seq=xs))
    cover('extended')
    check(seq_same(raq_view(q), trim(s.concat(xs), m)), 'extend adds all values in order and keeps the last maxlen')
    check(same(q.maxlen, m), 'extend keeps maxlen')


def p_popleft():
    q, s, m = any_queue()
    r, v = raises(IndexError, q.popleft)
    check(Iff(r, s.n == 0), 'popleft raises IndexError exactly when empty')
    if r:
        check(seq_same(raq_view(q), s), 'failing popleft changes nothing')
    else:
        cover('popped')
        check(same(v, s.at(0)), 'popleft returns the oldest value')
        check(seq_same(raq_view(q), s.slice(1, s.n)), 'popleft removes exactly the oldest value')


def p_getitem():
    q, s, m = any_queue()
    i = fresh_int('i')
    r, v = raises(IndexError, lambda: q[i])
    check(Iff(r, Or(i >= s.n, i < -s.n)), 'indexing raises IndexError exactly out of range')
    if not r:
        cover('read')
        check(same(v, s.at(ite(i < 0, i + s.n, i))), 'indexing reads the addressed element')
    check(seq_same(raq_view(q), s), 'indexing changes nothing')


def p_setitem():
    q, s, m = any_queue()
    i = fresh_int('i')
    x = fresh_obj('x')

    def f():
        q[i] = x
    r, _ = raises(IndexError, f)
    check(Iff(r, Or(i >= s.n, i < -s.n)), 'assignment raises IndexError exactly out of range')
    if r:
        check(seq_same(raq_view(q), s), 'failing assignment changes nothing')
    else:
        cover('assigned')
        check(seq_same(raq_view(q), s.update(ite(i < 0, i + s.n, i), x)), 'assignment changes exactly one element')


def p_len_iter():
    q, s, m = any_queue()
    check(same(heap.pv_len(q), s.n), 'len is the number of values')
    check(seq_same(to_seq(heap.pv_list(q)), s), 'iteration yields the sequence in order')
    check(seq_same(raq_view(q), s), 'len and iteration change nothing')


def p_sample():
    q, s, m = any_queue()
    log = []
    patch(W.load(COLL), 'sample_n_k', sample_n_k_contract(log))
    k = fresh_int('k')
    r, v = raises(ValueError, lambda: q.sample(k))
    check(Iff(r, Or(k < 0, k > s.n)), 'sample raises ValueError exactly for impossible sizes')
    if not r:
        v = to_seq(v)
        check(same(v.n, k), 'sample returns k elements')
        check(len(log) == 1, 'sample draws one set of positions')
        n, kk, d = log[0]
        check(And(same(n, s.n), same(kk, k)), 'positions are drawn over the whole queue')
        j = fresh_int('j', 0)
        if j < k:
            cover('sampled')
            check(same(v.at(j), s.at(d.at(j))), 'each sampled element sits at its drawn position')
    check(seq_same(raq_view(q), s), 'sample changes nothing')


PROOFS = [p_constructor, p_append, p_extend, p_popleft, p_getitem, p_setitem, p_len_iter, p_sample]


# ---- bounded companion: histories on the real class against a plain list
def gen_history(rng):
    maxlen = rng.choice([None, None, 0, 1, 2, 3, 5, 8])
    init = [rng.randrange(100) for _ in range(rng.choice([0, 0, 1, 3, 7]))]
    ops = []
    for _ in range(rng.randrange(1, 40)):
        o = rng.choice(['append', 'append', 'append', 'extend', 'popleft', 'popleft', 'get', 'set', 'sample', 'neg'])
        if o == 'append':
            ops.append([o, rng.randrange(1000)])
        elif o == 'extend':
            ops.append([o, [rng.randrange(1000) for _ in range(rng.randrange(0, 6))]])
        elif o == 'popleft':
            ops.append([o])
        elif o in ('get', 'neg'):
            ops.append(['get', rng.randrange(-12, 12)])
        elif o == 'set':
            ops.append([o, rng.randrange(-12, 12), rng.randrange(1000)])
        else:
            ops.append([o, rng.randrange(-1, 8)])
    return dict(maxlen=maxlen, init=init, use_init=rng.random() < 0.7, ops=ops)


def run_history(c):
    from chainerrl.misc.collections import RandomAccessQueue
    m = c['maxlen']
    kw = {} if m is None else dict(maxlen=m)
    if c['use_init']:
        q, ref = RandomAccessQueue(list(c['init']), **kw), list(c['init'])
    else:
        q, ref = RandomAccessQueue(**kw), []

    def cut():
        if m is not None and len(ref) > m:
            del ref[:len(ref) - m]
    cut()

    def state():
        if len(q) != len(ref):
            return 'len: %r, expected %r' % (len(q), len(ref))
        if list(q) != ref:
            return 'iteration: %r, expected %r' % (list(q), ref)
        for i in range(-len(ref), len(ref)):
            if q[i] != ref[i]:
                return 'index %d: %r, expected %r' % (i, q[i], ref[i])
        for i in (len(ref), len(ref) + 1, -len(ref) - 1, -len(ref) - 2):
            try:
                q[i]
                return 'index %d did not raise on length %d' % (i, len(ref))
            except IndexError:
                pass
    s = state()
    if s:
        return 'initial: ' + s
    for n, op in enumerate(c['ops']):
        got = want = None
        try:
            if op[0] == 'append':
                got = q.append(op[1])
            elif op[0] == 'extend':
                q.extend(iter(op[1]) if n % 2 else op[1])
            elif op[0] == 'popleft':
                got = q.popleft()
            elif op[0] == 'get':
                got = q[op[1]]
            elif op[0] == 'set':
                q[op[1]] = op[2]
            elif op[0] == 'sample':
                got = q.sample(op[1])
        except (IndexError, ValueError) as e:
            got = type(e).__name__
        try:
            if op[0] == 'append':
                ref.append(op[1])
                cut()
            elif op[0] == 'extend':
                ref.extend(op[1])
                cut()
            elif op[0] == 'popleft':
                want = ref.pop(0)
            elif op[0] == 'get':
                want = ref[op[1]]
            elif op[0] == 'set':
                ref[op[1]] = op[2]
            elif op[0] == 'sample':
                if not 0 <= op[1] <= len(ref):
                    raise ValueError
                if isinstance(got, str) or len(got) != op[1]:
                    return 'op %d %r: sample gave %r from %r' % (n, op, got, ref)
                left = list(ref)
                for x in got:
                    if x not in left:
                        return 'op %d %r: sample %r has a repeated position in %r' % (n, op, got, ref)
                    left.remove(x)
                want = got
        except (IndexError, ValueError) as e:
            want = type(e).__name__
        if got != want:
            return 'op %d %r: got %r, expected %r' % (n, op, got, want)
        s = state()
        if s:
            return 'after op %d %r: %s' % (n, op, s)


CASES = [('history', gen_history, run_history)]
