"""The pending changes are exactly the modifications made since the last commit."""
import pdfsyntax as p
from props.common import *
from props.pdffile import *
from props.session import *
from props.c13 import container

OPS = ['update', 'delete', 'add', 'commit']


class Pending:
    """What was live at the last commit, and what has been touched since."""

    def __init__(self, session):
        self.s = session
        self.live = {}
        for n, v in session.model[-1].items():
            self.live[n] = v != DELETED
        self.touched = set()
        self.now = dict(self.live)

    def expected(self):
        res = []
        for n in sorted(self.touched):
            if self.now[n]:
                res.append((n, 'a' if n not in self.live else 'u' if self.live[n] else 'ua'))
            elif self.live.get(n, True):
                res.append((n, 'd'))
        return res

    def step(self, ops):
        s = self.s
        before = {n: v for n, v in s.model[-1].items()}
        pending = self.expected()
        op = s.do(ops)
        if op == 'commit':
            if pending:
                self.live = dict(self.now)
                self.touched = set()
            return op
        if op == 'rotate':
            self.touched.add(3)
            return op
        for n, v in s.model[-1].items():
            if n not in before or before[n] is not v:
                self.touched.add(n)
                self.now[n] = v != DELETED
            elif op == 'delete' and v == DELETED and self.live.get(n):
                self.touched.add(n)
        return op


def generations(s, doc, i=-1):
    return {int(r.imag): int(r.real) for r in p.in_use(doc, i)} if s.kind in ('deep', 'manytable', 'manystream') else None


def listed(c, got, expected, label, gens=None):
    c.same([int(r.imag) for r, _ in got], [n for n, _ in expected], label + ': objects')
    for (r, a), (n, e) in zip(got, expected):
        c.check(a in e, f'{label}: kind of change of {n}: {a}, not {e}')
        c.check(len(a) == 1, f'{label}: one kind of change')
        if gens is None or n in gens:
            c.same(int(r.real), gens[n] if gens else 0, label + ': generation')


def compare(c, pend, doc, label):
    listed(c, p.changes(doc), pend.expected(), label, generations(pend.s, doc))
    used = [int(r.imag) for r in p.in_use(doc) if int(r.imag) in pend.now or not container(doc, r, [pend.now])]
    c.same(used, sorted(n for n, live in pend.now.items() if live), label + ': objects in use')


def history(c, kind, steps, ops=OPS, first=()):
    """Any sequence of operations: the changes are right after each."""
    s = Session(c, kind)
    pend = Pending(s)
    compare(c, pend, s.doc, 'at the start')
    for i in range(steps):
        was, pending, revs = s.doc, pend.expected(), len(s.doc.index)
        op = pend.step([first[i]] if i < len(first) else ops)
        compare(c, pend, s.doc, f'after {op}')
        if op == 'commit':
            c.same(p.changes(s.doc), [], 'nothing is pending after a commit')
            if pending:
                c.same(len(s.doc.index), revs + 1, 'a commit closes the revision')
                listed(c, p.changes(s.doc, -2), pending, 'what the commit closed', generations(s, s.doc))
            else:
                c.same(len(s.doc.index), revs, 'an empty commit adds no revision')
                c.same(len(s.doc.cache), len(was.cache), 'an empty commit adds no object')
                c.check(p.in_use(s.doc) == p.in_use(was), 'an empty commit changes no object')
    final = p.commit(s.doc)
    c.same(p.changes(final), [], 'nothing is pending after the last commit')
    again = p.commit(final)
    c.same(len(again.index), len(final.index), 'committing again does nothing')


def forced(c, kind, placeholder):
    """Asking for a cross-reference stream is not a change of an object; its own number is not one either."""
    s = Session(c, kind)
    pend = Pending(s)
    s.doc = p.force_xref_stream(s.doc, placeholder)
    own = s.doc.index[-1][0].get('xref_stream_num', -1)
    listed(c, p.changes(s.doc), pend.expected(), 'forced')
    pend.step(['update', 'add'])
    compare_forced(c, pend, s.doc, 'forced and changed')
    pend.step(['commit'])
    c.same(p.changes(s.doc), [], 'committed')
    pend.step(['update', 'add', 'delete'])
    compare_forced(c, pend, s.doc, 'next revision')
    pend.step(['commit'])
    c.same(p.changes(s.doc), [], 'committed again')


def compare_forced(c, pend, doc, label):
    listed(c, p.changes(doc), pend.expected(), label, generations(pend.s, doc))


def loaded(c, kind):
    """A loaded document has no pending change, and each of its revisions has the changes it made."""
    s = Session(c, kind)
    c.same(p.changes(s.doc), [], 'nothing is pending in a loaded document')
    n = len(s.model) - 1
    c.same(len(s.doc.index), n + 1, 'revisions')
    for i in range(n):
        a, b = (s.model[i - 1] if i else {}), s.model[i]
        exp = []
        for k in sorted(b):
            if b[k] is None:
                continue
            if k not in a:
                exp.append((k, 'a'))
            elif b[k] is not a[k]:
                exp.append((k, 'd' if b[k] == DELETED else 'u'))
        got = [x for x in p.changes(s.doc, i) if b.get(int(x[0].imag), 0) is not None]
        listed(c, got, exp, f'revision {i}', generations(s, s.doc, i))
        c.same([int(r.imag) for r in p.in_use(s.doc, i) if b.get(int(r.imag), 0) is not None], sorted(k for k, v in b.items() if v is not None and v != DELETED), f'objects in use in revision {i}')


K = ['table', 'table2', 'gap', 'stream', 'stream2', 'embedded', 'mixed']
CASES = [
    ('loaded', loaded, [dict(kind=k) for k in K + ['deep', 'deepstream', 'manytable', 'manystream'] + list(FOREIGN)], 'every kind of file'),
    ('forced', forced, [dict(kind=k, placeholder=f) for k in ['table', 'table2', 'stream'] for f in (False, True)], 'an update, addition, commit, then any change'),
    ('history', history,
     {'quick': [dict(kind=k, steps=3) for k in K + ['blank']] + [dict(kind=k, steps=4) for k in ['table2', 'mixed']] + [dict(kind=k, steps=3) for k in ['deep', 'deepstream']] + [dict(kind=k, steps=2) for k in FOREIGN] + [dict(kind=k, steps=2) for k in ['manytable', 'manystream']] + [dict(kind=k, steps=12, first=['update', 'add', 'commit', 'delete', 'add', 'add', 'commit', 'touch', 'touch', 'delete', 'commit'], ops=['delete', 'update']) for k in K + ['manytable']] + [dict(kind='blank', steps=2, ops=OPS + ['rotate', 'add stream', 'replace'])],
      'thorough': [dict(kind=k, steps=4, ops=OPS + ['rotate', 'add stream', 'replace']) for k in K + ['blank']] + [dict(kind=k, steps=5) for k in ['table2', 'mixed', 'blank', 'embedded']]},
     'every sequence of 3–5 operations, symbolic values'),
]
