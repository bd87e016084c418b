"""P01: segmented particle storage (Python) is an ordered sequence, for every history."""

PROPERTY = dict(
    title='Particle storage is an ordered sequence under every history of use',
    files=['SegmentedArrayPair_Module.py'],
    functions=['SegmentedArrayPair_C.' + n for n in (
        '__init__', 'push_back', 'get_segment_and_offset', 'get_item', '__getitem__', '__setitem__', 'add_segment', 'init_out_loop',
        'init_inout_loop', 'get_next_segment', 'get_next_out_segment', 'get_current_out_segment', 'get_number_of_items',
        'set_number_of_items', 'get_capacity', 'get_number_of_segments', 'get_full_index', 'get_full_indices')],
    explanation='Bounded symbolic execution of SegmentedArrayPair_Module.py from source: item contents are symbolic reals, the '
                'sequence of operations and the set of items dropped by each pass are symbolic choices; after every operation z3 '
                'decides that contents, order, count, lookup, loops and reported indices equal those of a plain list.',
    bounds=dict(
        quick='segment length 1..3; 0..2L+1 initial items; histories of 3 further operations drawn from {append a tuple, append a '
              '1-element array, read loop, partial read loop, overwrite one item, pass that keeps an arbitrary subset}; two stores used alternately, one read within loops over the other',
        thorough='segment length 1..4; 0..3L+1 initial items; histories of 4 further operations from the same set, and 2 passes '
                 'each with an arbitrary subset'),
    outside=['longer histories, longer segments', 'interleaving an append into an unfinished pass of the same species'],
    assumptions=['numeric item fields are mathematical reals/integers (no rounding, no overflow)',
                 'passes follow the protocol of the movers: read "in", write "out", advance the "out" segment when full, set the count once at the end'],
    reach=['append crosses a segment boundary', 'append after a read loop on a full segment', 'pass drops every item',
           'pass keeps exactly a full segment', 'append after a pass that dropped everything', 'three segments in use', 'two stores'],
)


def dtype_of(k):
    np = k.np
    return np.dtype({'names': ['x', 'w', 'id'], 'formats': [np.float64, np.float64, np.int32]})


class Model:
    def __init__(self, k, L, sap=None):
        self.k, self.L = k, L
        if sap is None:
            sap = k.repo('SegmentedArrayPair_Module').SegmentedArrayPair_C(L, dtype_of(k))
        self.sap = sap
        self.items = []          # the reference: a plain list of (x, w, id)
        self.n = 0
        self.last_read_full = False
        self.emptied = False
        self.inside = None       # done at each segment of a loop over this store

    def fresh(self):
        i = self.n
        self.n += 1
        return (self.k.real('x%d' % i), self.k.real('w%d' % i), 10 + i)

    def append(self, as_array):
        k, np = self.k, self.k.np
        it = self.fresh()
        before = len(self.items)
        if as_array:
            arr = np.empty(1, dtype=dtype_of(k))
            arr[0] = it
            off, full = self.sap.push_back(arr)
        else:
            off, full = self.sap.push_back(it)
        self.items.append(it)
        self.appended(before, off, full)

    def appended(self, before, off, full):
        k, it = self.k, self.items[-1]
        k.check(k.eq(full, before), 'append returns the position of the new item')
        k.check(k.eq(off, before % self.L), 'append returns the offset of the new item in its segment')
        if before and before % self.L == 0:
            k.reach('append crosses a segment boundary')
            if self.last_read_full:
                k.reach('append after a read loop on a full segment')
        if self.emptied:
            k.reach('append after a pass that dropped everything')
            self.emptied = False
        self.last_read_full = False
        # the record just added can be read through the segment that holds it
        seg = self.sap.get_current_out_segment()
        self.same(seg[off], it, 'the current segment holds the item just appended')

    def same(self, rec, it, msg):
        k = self.k
        k.check(k.all([k.eq(rec['x'], it[0]), k.eq(rec['w'], it[1]), k.eq(rec['id'], it[2])]), msg)

    def read_loop(self, stop_after=None):
        k = self.k
        got = []
        n, seg = self.sap.init_out_loop()
        c = 0
        while isinstance(seg, k.np.ndarray):
            k.check(k.true(len(seg) >= n and n > 0), 'a read loop hands out non-empty segments')
            if self.inside:
                self.inside()
            for i in range(n):
                got.append(seg[i])
            c += 1
            if stop_after is not None and c >= stop_after:
                break
            n, seg = self.sap.get_next_segment('out')
            if c > 50:
                k.fail('a read loop does not end')
        want = self.items if stop_after is None else self.items[:stop_after * self.L]
        if len(got) != len(want):
            k.fail('a read loop visits %d of %d items' % (len(got), len(want)))
        for g, w in zip(got, want):
            self.same(g, w, 'a read loop visits the items in order')
        if self.items and len(self.items) % self.L == 0:
            self.last_read_full = True

    def overwrite(self, tag):
        if not self.items:
            return
        i = self.k.choice('ow' + tag, len(self.items))
        it = self.fresh()
        self.sap[i] = it
        self.items[i] = it

    def one_pass(self, tag):
        """A mover-like pass: every item is kept (and marked) or dropped."""
        k, sap, L = self.k, self.sap, self.L
        if not self.items:
            # the movers skip empty species; starting a pass on an empty store must stay empty
            n, a, b = sap.init_inout_loop()
            k.check(k.true(n == 0 and a is None), 'a pass over an empty store yields nothing')
            return
        n, sin, sout = sap.init_inout_loop()
        out, count, new, pos, c = 0, 0, [], 0, 0
        while isinstance(sin, k.np.ndarray):
            if self.inside:
                self.inside()
            for i in range(n):
                if pos >= len(self.items):
                    k.fail('a pass reads more items than are stored')
                if out == L:
                    sout = self.next_out()
                    out = 0
                sout[out] = sin[i]
                self.same(sin[i], self.items[pos], 'a pass reads the items in order')
                k.check(k.eq(sap.get_full_index(i, 'in'), pos), 'the position of an item being read is reported')
                fi, fo = sap.get_full_indices(i, out)
                k.check(k.all([k.eq(fi, pos), k.eq(fo, count)]), 'old and new positions of an item are reported')
                if k.choice('keep%s_%d' % (tag, pos), 2):
                    new.append(self.items[pos])
                    out += 1
                    count += 1
                pos += 1
            n, sin = sap.get_next_segment('in')
            c += 1
            if c > 50:
                k.fail('a pass does not end')
        if pos != len(self.items):
            k.fail('a pass reads %d of %d items' % (pos, len(self.items)))
        sap.set_number_of_items('out', count)
        self.items = new
        self.last_read_full = False
        if not new:
            k.reach('pass drops every item')
            self.emptied = True
        elif count % L == 0:
            k.reach('pass keeps exactly a full segment')

    def next_out(self):
        return self.sap.get_next_out_segment()

    def lookup(self, i, it):
        self.same(self.sap[i], it, 'indexing returns the item at that position')
        self.same(self.sap.get_item(i), it, 'get_item returns the item at that position')
        seg, off = self.sap.get_segment_and_offset(i)
        self.same(seg[off], it, 'segment and offset lead to the item at that position')

    def verify(self):
        k, sap = self.k, self.sap
        n = sap.get_number_of_items()
        k.check(k.eq(n, len(self.items)), 'the reported count is the number of stored items')
        for i, it in enumerate(self.items):
            self.lookup(i, it)
        cin, cout = sap.get_capacity()
        nin, nout = sap.get_number_of_segments()
        k.check(k.all([k.eq(cout, nout * self.L), k.eq(cin, nin * self.L), k.ge(cout, len(self.items))]),
                'capacity covers the stored items')
        if len(self.items) > 2 * self.L:
            k.reach('three segments in use')

    OPS = [('append', False), ('append', True), ('read_loop', None), ('read_loop', 1), ('overwrite', ''), ('one_pass', '')]

    def run(self, op, tag):
        f, a = self.OPS[op]
        if f == 'append':
            self.append(a)
        elif f == 'read_loop':
            self.read_loop(a)
        else:
            getattr(self, f)(tag)


def play(k, m, n0, ops, how):
    for _ in range(n0):
        m.append(how)
    m.verify()
    for j in range(ops):
        m.run(k.choice('op%d' % j, len(m.OPS)), str(j))
        m.verify()
    m.read_loop()
    m.verify()


def play_passes(k, m, n0, n1, how):
    """pass, appends, pass, read loop, append: the shape of a time step with sources."""
    for _ in range(n0):
        m.append(how)
    m.one_pass('a')
    m.verify()
    for _ in range(n1):
        m.append(how)
    m.verify()
    m.one_pass('b')
    m.verify()
    m.read_loop()
    m.append(how)
    m.verify()
    m.read_loop()


def play_two(k, a, b, na, nb, how):
    """Two stores in use at the same time: what is done with one does not change the other."""
    b.n = 50
    for i in range(max(na, nb)):
        for m, n in ((a, na), (b, nb)):
            if i < n:
                m.append(how)
    a.verify()
    b.verify()
    for j, (m, o) in enumerate(((a, b), (b, a))):
        m.inside = o.read_loop
        m.run(k.choice('op%d' % j, len(m.OPS)), str(j))
        m.inside = None
        o.verify()
        m.verify()
    b.append(how)
    a.read_loop()
    b.read_loop()
    a.append(how)
    b.verify()
    a.verify()
    k.reach('two stores')


def two(k, La, Lb, na, nb):
    play_two(k, Model(k, La), Model(k, Lb), na, nb, False)


def history(k, L, n0, ops):
    play(k, Model(k, L), n0, ops, False)


def passes(k, L, n0, n1):
    play_passes(k, Model(k, L), n0, n1, True)


def jobs(tier):
    out = []
    Ls = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)
    for L in Ls:
        top = 2 * L + 1 if tier == 'quick' else 3 * L + 1
        for n0 in range(top + 1):
            nops = 3 if tier == 'quick' else 4
            if n0 > 4:
                nops = 2 if tier == 'quick' else 3
            out.append(dict(name='history L=%d n0=%d ops=%d' % (L, n0, nops), fn='history', cfg=dict(L=L, n0=n0, ops=nops), weight=3 ** min(n0, 5)))
            n1 = 2 if tier == 'quick' else 3
            if n0 <= 5 or tier != 'quick':
                out.append(dict(name='passes L=%d n0=%d n1=%d' % (L, n0, n1), fn='passes', cfg=dict(L=L, n0=n0, n1=n1), weight=3 ** min(n0, 5)))
    for La, Lb in ((1, 2), (2, 1), (2, 2)):
        for na, nb in ((0, 1), (1, 2), (2, 3), (3, 1), (4, 2)) if tier == 'quick' else [(a, b) for a in range(6) for b in range(4)]:
            out.append(dict(name='two L=%d,%d n=%d,%d' % (La, Lb, na, nb), fn='two', cfg=dict(La=La, Lb=Lb, na=na, nb=nb), weight=20))
    return out
