"""P02: the C++ particle storage is an ordered sequence, for every history."""
from . import storage_py
from .storage_py import Model

CPP = ['numpy_types_solib', 'segmented_array_pair_solib']

PROPERTY = dict(
    title='C++ particle storage is an ordered sequence under every history of use',
    files=['cpp/SegmentedArrayPair.h', 'cpp/Pstruct.h', 'cpp/segmented_array_pair_solib.cpp', 'cpp/numpy_types_solib.cpp'],
    functions=['dnt::SegmentedArrayPair<PT>::' + n for n in (
        'SegmentedArrayPair', 'push_back (3 overloads)', 'get_segment_and_offset', 'get_item', 'get_as_tuple', 'get_as_list', 'add_segment',
        'init_out_loop', 'init_inout_loop', 'get_next_segment', 'get_next_out_segment', 'get_current_out_segment', 'get_number_of_items',
        'set_number_of_items', 'get_capacity', 'get_number_of_segments', 'get_full_index', 'get_full_indices')] +
              ['dnt::Pstruct<PT>::' + n for n in ('set_from_list_or_tuple', 'set_from_tuple', 'as_tuple', 'as_list', 'as_dict')],
    explanation='The C++ sources are compiled with `double` replaced by a symbolic real and executed symbolically through their '
                'Python interface: item contents are symbolic, the sequence of operations and the items dropped by each pass are '
                'symbolic choices; after every operation z3 decides that contents, order, count, lookup, loops and reported '
                'indices equal those of a plain list.',
    bounds=dict(
        quick='record types x, xy, xyz, spherical r; segment length 1..3; 0..2L+1 initial items; histories of 2-3 further operations drawn from {append a '
              'tuple, a list, a 1-element array, read loop, partial read loop, overwrite one item, pass that keeps an arbitrary subset}; two stores used alternately, one read within loops over the other',
        thorough='segment length 1..4; 0..3L+1 initial items; histories of 3-4 further operations from the same set, and 2 passes '
                 'each with an arbitrary subset'),
    outside=['longer histories, longer segments', 'interleaving an append into an unfinished pass of the same species',
             'the raw pointers handed to the C++ movers (decided with the movers)'],
    assumptions=['real item fields are mathematical reals (no rounding)',
                 'passes follow the protocol of the movers: read "in", write "out", advance the "out" segment when full, set the count once at the end'],
    reach=['append crosses a segment boundary', 'append after a read loop on a full segment', 'pass drops every item',
           'pass keeps exactly a full segment', 'append after a pass that dropped everything', 'three segments in use', 'two stores'],
)

REALS = {'cartesian_x': ['x', 'x0', 'ux', 'weight'], 'cartesian_xy': ['x', 'y', 'x0', 'y0', 'ux', 'uy', 'weight'],
         'cartesian_xyz': ['x', 'y', 'z', 'x0', 'y0', 'z0', 'ux', 'uy', 'uz', 'weight'], 'spherical_r': ['r', 'r0', 'ur', 'weight']}
INTS = ['bitflags', 'cell_index', 'unique_ID', 'crossings']


class CppModel(Model):
    def __init__(self, k, L, ptype):
        k.cpp('numpy_types_solib')
        sap = getattr(k.cpp('segmented_array_pair_solib'), 'SegmentedArrayPair_' + ptype)(L)
        super().__init__(k, L, sap)
        self.names = REALS[ptype] + INTS
        self.ptype = ptype

    def fresh(self):
        i = self.n
        self.n += 1
        return tuple([self.k.real('%s_%d' % (n, i)) for n in REALS[self.ptype]] + [i % 4, 3 + i, 10 + i, 20 + i])

    def append(self, how):
        k, np = self.k, self.k.np
        it = self.fresh()
        before = len(self.items)
        if how == 'array':
            arr = np.empty(1, dtype=np.dtype({'names': self.names, 'formats': [np.float64] * len(REALS[self.ptype]) + [np.int32] * 4}))
            arr[0] = it
            off, full = self.sap.push_back(arr)
        else:
            off, full = self.sap.push_back(list(it) if how == 'list' else it)
        self.items.append(it)
        self.appended(before, off, full)

    def same(self, rec, it, msg):
        k = self.k
        k.check(k.all([k.eq(rec[n], v) for n, v in zip(self.names, it)]), msg)

    def overwrite(self, tag):
        if not self.items:
            return
        i = self.k.choice('ow' + tag, len(self.items))
        it = self.fresh()
        seg, off = self.sap.get_segment_and_offset(i)
        for n, v in zip(self.names, it):
            seg[off][n] = v
        self.items[i] = it

    def next_out(self):
        return self.sap.get_next_out_segment()[0]

    def lookup(self, i, it):
        k, sap = self.k, self.sap
        self.same(sap.get_item(i), it, 'get_item returns the item at that position')
        t, l = sap.get_as_tuple(i), sap.get_as_list(i)
        k.check(k.all([k.true(len(t) == len(it) == len(l))] + [k.eq(a, b) for a, b in zip(t, it)] + [k.eq(a, b) for a, b in zip(l, it)]),
                'get_as_tuple and get_as_list return the item at that position')
        seg, off = sap.get_segment_and_offset(i)
        self.same(seg[off], it, 'segment and offset lead to the item at that position')

    OPS = [('append', 'tuple'), ('append', 'list'), ('append', 'array'), ('read_loop', None), ('read_loop', 1), ('overwrite', ''), ('one_pass', '')]

    def run(self, op, tag):
        f, a = self.OPS[op]
        if f == 'append':
            self.append(a)
        elif f == 'read_loop':
            self.read_loop(a)
        else:
            getattr(self, f)(tag)


def history(k, ptype, L, n0, ops):
    m = CppModel(k, L, ptype)
    storage_py.play(k, m, n0, ops, 'tuple')


def passes(k, ptype, L, n0, n1):
    m = CppModel(k, L, ptype)
    storage_py.play_passes(k, m, n0, n1, 'array')


def two(k, ptypes, Ls, na, nb):
    a, b = (CppModel(k, L, pt) for L, pt in zip(Ls, ptypes))
    storage_py.play_two(k, a, b, na, nb, 'tuple')


def jobs(tier):
    out = []
    Ls = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)
    types = list(REALS)
    for ti, pt in enumerate(types):
        for L in Ls:
            top = 2 * L + 1 if tier == 'quick' else 3 * L + 1
            for n0 in range(top + 1):
                nops = 3 if tier == 'quick' else 4
                if n0 > 4:
                    nops -= 1
                if pt != 'cartesian_x' and (tier == 'quick' or L == 4):
                    # the storage is one template: the other record types get shorter histories
                    if n0 > 3:
                        continue
                    nops = 2
                out.append(dict(name='history %s L=%d n0=%d ops=%d' % (pt, L, n0, nops), fn='history', cfg=dict(ptype=pt, L=L, n0=n0, ops=nops),
                                weight=3 ** min(n0, 5) * 4 ** nops, cpp=CPP))
                n1 = 2 if tier == 'quick' else 3
                if pt == 'cartesian_x' and (n0 <= 5 or tier != 'quick'):
                    out.append(dict(name='passes %s L=%d n0=%d n1=%d' % (pt, L, n0, n1), fn='passes', cfg=dict(ptype=pt, L=L, n0=n0, n1=n1),
                                    weight=3 ** min(n0, 5), cpp=CPP))
    for pts in (('cartesian_x', 'cartesian_x'), ('cartesian_xy', 'cartesian_xy'), ('cartesian_x', 'cartesian_xyz')):
        for Ls, na, nb in (((2, 1), 1, 2), ((1, 2), 3, 1), ((2, 2), 3, 2)) if tier == 'quick' else [((a, b), i, j) for a in (1, 2) for b in (1, 2) for i in range(5) for j in range(4)]:
            out.append(dict(name='two %s,%s L=%d,%d n=%d,%d' % (*pts, *Ls, na, nb), fn='two', cfg=dict(ptypes=pts, Ls=Ls, na=na, nb=nb), weight=100, cpp=CPP))
    return out
