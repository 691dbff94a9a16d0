"""Which monitors decide which property (see DESIGN.md)."""

TOL = ('Agreement is judged with a tolerance derived from the precision of double arithmetic on the case at hand '
       '(relative 1e-9 plus 1e-13 times the ratio of coordinate magnitude to cell size), far above the round-off observed '
       'and far below any defect of interest.')
TRUST = 'The reference geometry (long double clipping, hull, bilinear maps) of the monitors is trusted; LAPACK/BLAS and the C++ runtime are trusted.'


# how many times the nominal number of cases the quick tier runs (about 15-25 s on 8 cores)
QUICK = dict(C01=3, C02=8, C03=8, C04=8, C05=1.3, C06=2, C07=2, C08=20, C09=20, C10=3, C11=12, C12=4, C13=20, C14=20, C15=20, C16=2, C17=10, C18=10, C19=8, C20=10, C21=20, C22=20, C23=20, C24=10, C31=4, C32=6, C33=6, C34=3)


def fast(harness, prop):
    return lambda tier: [dict(harness=harness, prop=prop, flavour='fast', scale=QUICK.get(prop, 1.0) if tier == 'quick' else 1.0)]


def chk(harness, prop, rule, **kw):
    d = dict(jobs=fast(harness, prop), rule=rule, assumptions=[TRUST])
    d.update(kw)
    return d


GRIDS = ('Seeded random pairs of structured quadrilateral grids (rectangular, stretched, affine incl. reflected and transposed, jittered, smoothly '
         'distorted, polar, disks with degenerate centre cells, nested, shifted, identical, slivers, touching, disjoint; scales 1e-8..1e8, offsets up to 50 domain sizes). ')


# every workload of the behavioural monitors, run again under the memory and undefined-behaviour monitors (deciding C25)
ALL = [('conserve', ['C01', 'C02', 'C03', 'C04', 'C34']), ('reuse', ['C05']), ('node', ['C06', 'C07', 'C08', 'C09', 'C34']), ('flow', ['C10', 'C11', 'C34']),
       ('geom', ['C12', 'C13', 'C14', 'C15']), ('memory', ['C31']), ('misc', ['C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C32']), ('diag', ['C33'])]


def memory_jobs(tier):
    q = tier == 'quick'
    j = [dict(harness='memory', prop='C25', flavour='san', scale=0.25 if q else 0.1, crash_only=True, budget=60 if q else 120)]
    for h, ps in ALL:
        for p in ps:
            j.append(dict(harness=h, prop=p, flavour='san', scale=QUICK[p]*0.02 if q else 0.05, crash_only=True, budget=30 if q else 18))
    vg = [('memory', 'C25', 0.01)] + [(h, p, 0.001*QUICK[p]) for h, ps in ALL for p in ps]
    for h, p, s in vg:
        j.append(dict(harness=h, prop=p, flavour='vg', valgrind=True, scale=s if q else s*0.3, crash_only=True, budget=40 if q else 60))
    return j


CHECKS = {
    'C01': chk('conserve', 'C01', GRIDS + 'Destinations that cover the source; random, sign-changing and single-cell data; non-trivial: more than one source cell and data compared.'),
    'C02': chk('conserve', 'C02', GRIDS + 'Every (dst, src) pair compared with exact clipping; non-trivial: at least one partial overlap.', must_see=['partial-overlaps']),
    'C03': chk('conserve', 'C03', GRIDS + 'Constants, bounds and untouched cells per destination cell; non-trivial: at least one covered or untouched cell.', must_see=['covered-cells', 'untouched-cells']),
    'C04': chk('conserve', 'C04', GRIDS + 'Passes recorded as event lists (first, wrapped, partial, reset) and compared; non-trivial: at least two weights.', must_see=['empty-get', 'empty-weight-sets', 'passes']),
    'C05': chk('reuse', 'C05', 'Random histories of set/compute/apply/iterate/search calls (2-8 steps, grids of changing size, place, scale, periodicity) on one object, every step compared with a fresh object; non-trivial: at least two comparisons.', must_see=['compared']),
    'C06': chk('node', 'C06', 'Affine and curvilinear source grids (scales, offsets), destination points at nodes, edges, borders and inside; interpolants compared with the exact map; non-trivial: at least one point found.', must_see=['found', 'at-nodes']),
    'C07': chk('node', 'C07', 'Destination nodes inside and outside (1e-3 to 100 domain sizes away, also within the bounding box); nodes found alone but not together with others counted over grids; non-trivial: both kinds present.', must_see=['outside', 'inside', 'company-nodes']),
    'C08': chk('node', 'C08', 'Searches on grids of 1-3 dimensions (uniform .. random maps, polar, periodic) from any start to targets inside, outside and at the border; every iteration judged; non-trivial: more than one iteration. States: (status, dimensions, steps).', must_see=['status1', 'status-1', 'status-2', 'status-3']),
    'C09': chk('node', 'C09', 'Known index positions mapped forward and searched for; affine grids from any start, mildly distorted ones from the middle, periodic annuli and cylinders from nearby incl. across the seam; non-trivial: all found.', must_see=['searches', 'across-the-seam']),
    'C10': chk('flow', 'C10', 'Nodal stream functions of 4 kinds on distorted grids, open and closed polylines incl. along grid lines and through nodes, loops around annuli with circulation; non-trivial: more than one cell.', must_see=['segments', 'lattice-lines', 'loops', 'rings-with-circulation']),
    'C11': chk('flow', 'C11', 'Arbitrary and single-edge data on affine, distorted and polar grids, segments inside, along grid lines, crossing the border; linearity, reversal and subdivision; non-trivial: several cells crossed.', must_see=['pieces', 'segments-outside', 'subdivided', 'short-decided']),
    'C12': chk('geom', 'C12', 'Convex quads (13 kinds, both orientations, scales 1e-6..1e6) and segments of many contact kinds against exact clipping; non-trivial: an intersection.'),
    'C13': chk('geom', 'C13', 'Convex quads and segments between known bilinear coordinates incl. edges and nodes; non-trivial: a non-zero projection.'),
    'C14': chk('geom', 'C14', 'Pairs of convex quads of many contact kinds against exact clipping, corner by corner; non-trivial: an intersection.'),
    'C15': chk('geom', 'C15', 'Point sets of 13 kinds (random, lattice, collinear, duplicates, near-duplicates, slivers, clusters...), scales 1e-8..1e8, several orders each, against an exact hull; non-trivial: positive area.', must_see=['permutations']),
    'C16': chk('misc', 'C16', 'Systems of 1-7 rows and columns of 5 kinds and scales against a long double orthogonal factorization, plus systems with an exactly zero row or column; non-trivial: well conditioned and more than one entry.', must_see=['square', 'overdetermined', 'underdetermined', 'reported-singular']),
    'C17': chk('misc', 'C17', 'Random boxes in 1-5 dimensions, all elements checked both ways in random order; non-trivial: more than one element.', must_see=['elements', 'empty-boxes']),
    'C18': chk('misc', 'C18', 'Walks in 1-7 dimensions with resets at random points; non-trivial: all.', must_see=['sides']),
    'C19': chk('misc', 'C19', 'Uniform, mildly stretched, transposed, mirrored and affine grids, polygons of 1-8 vertices; every cell judged; non-trivial: at least one cell must be listed.', must_see=['far-from-the-origin', 'cells-under-polygons']),
    'C20': chk('misc', 'C20', 'Random, lattice and clustered point sets in 1-4 dimensions; keys, boxes and children checked level by level; non-trivial: more than one point.', must_see=['boxes', 'deep-keys', 'flat-point-sets']),
    'C21': chk('misc', 'C21', 'All nodes of tripolar grids of random sizes and cap rows against a long double construction on the unit sphere; non-trivial: a cap exists.', must_see=['nodes', 'folds']),
    'C22': chk('misc', 'C22', 'All nodes of generated grids against the closed formulas in long double; non-trivial: all.', must_see=['products', 'rectangular', 'polar', 'rotated-pole']),
    'C23': chk('misc', 'C23', 'Random option sets and argument vectors against a reference interpretation; non-trivial: at least one argument.', must_see=['values', 'unknown-options']),
    'C24': chk('misc', 'C24', 'Random coordinates; all points, edges and faces; non-trivial: all.', must_see=['lines', 'triangles', 'tetrahedra']),
    'C25': dict(jobs=memory_jobs, must_see=['lives', 'odd-no overlap', 'odd-degenerate cells'], assumptions=['LAPACK/BLAS and the C++ runtime are not instrumented by the sanitizers (valgrind watches them too).'],
                rule='All workloads of C01-C24 and C31-C34 plus scripted lives of 16 kinds of object and odd but valid calls, with exact-size inputs, under AddressSanitizer, UBSan, libstdc++ assertions (build "san") and valgrind memcheck (build "vg", uninitialized values); every execution judged; non-trivial: as in the respective workload.'),
    'C26': dict(jobs=lambda tier: [dict(harness='memory', prop='C26', flavour='fast', scale=3 if tier == 'quick' else 1), dict(harness='memory', prop='C26', flavour='san', scale=0.05 if tier == 'quick' else 0.02, budget=60)],
                must_see=['lives', 'allocations-watched', 'repeated-computations'], assumptions=['Memory is counted through the malloc family; memory kept by LAPACK/BLAS or the C++ runtime for itself is warmed up before counting.'],
                rule='Scripted lives of 16 kinds of object (new, any sequence of setters, computations, queries, failed ones too, delete), every allocation made while a library call runs followed until freed; repeated computations with the bytes held compared; non-trivial: more than one call.'),
    'C27': dict(jobs=lambda tier: [dict(harness='isolation', prop='C27', flavour='fast', scale=2 if tier == 'quick' else 1), dict(harness='isolation', prop='C27', flavour='tsan', scale=0.06 if tier == 'quick' else 0.02, crash_only=True, budget=100)],
                must_see=['objects-interleaved', 'values-compared'], assumptions=['Reference LAPACK/BLAS is deterministic and thread safe.'],
                rule='2-5 scripted objects interleaved in a random order of calls, and 2-4 threads with their own objects, all outputs compared bit by bit with lone runs, all inputs compared with their checksums; ThreadSanitizer on the same threads; non-trivial: values compared. States: schedules.'),
    'C28': dict(jobs=lambda tier: [dict(harness='python', prop='C28', flavour='fast', lib='py', scale=4 if tier == 'quick' else 1)], must_see=['values-compared', 'nonzero-values', 'refused', 'outside-cells'],
                assumptions=['numpy and ctypes are trusted.'],
                rule='Random sequences of setSrcGrid, setDstGrid, computeWeights, apply on one or two objects (19 array types and layouts, also out of order) compared bit by bit with the library called directly; non-trivial: a comparison with a non-zero value. States: orders of calls.'),
    'C29': dict(jobs=lambda tier: [dict(harness='isolation', prop='C29', flavour='fast', scale=2 if tier == 'quick' else 1), dict(harness='isolation', prop='C29', flavour='san', scale=0.05 if tier == 'quick' else 0.02, budget=60)],
                must_see=['values-compared'], assumptions=[TRUST],
                rule='Scripted lives of 16 kinds of object run twice: with all inputs kept, and with every input overwritten and freed directly after the call it was passed to; all outputs compared bit by bit; non-trivial: values compared.'),
    'C30': dict(jobs=lambda tier: [dict(harness='python', prop='C30', flavour='fast', lib='py', scale=6 if tier == 'quick' else 1)], must_see=['cells', 'file-values'], assumptions=['numpy is trusted.'],
                rule='Random maps of 4 kinds (affine, distorted, polar, left-handed; scales 1e-3..1e3) and sizes; every cell, face and written number judged; non-trivial: all.'),
    'C32': chk('misc', 'C32', 'Random option sets, footnotes and argument vectors; every line of the captured help text against the registered options; non-trivial: at least one option registered.', must_see=['options-listed', 'footnotes', 'after-parsing']),
    'C33': chk('diag', 'C33', 'Source and destination grids with nodes outside, in holes and found; quads with segment ends inside and outside; polylines and repeated listings; argument vectors with unknown options; everything written to standard output and error captured and parsed; non-trivial: something to report.', must_see=['failed-nodes', 'outside-nodes', 'failed-ends', 'cells-listed', 'segments-outside', 'unknown-options']),
    'C34': dict(jobs=lambda tier: [dict(harness=h, prop='C34', flavour='fast', scale=f if tier == 'quick' else 1.0) for h, f in [('conserve', 3), ('node', 8), ('flow', 8)]], assumptions=[TRUST],
                must_see=['conserve-shown', 'conserve-unaffected', 'node-shown', 'node-unaffected', 'flow-shown', 'flow-unaffected'],
                rule='Random grid pairs, destination nodes and polylines as for C02, C06 and C10; random data, then the same with not-a-number, infinite or huge values in one or several source cells, nodes or edges, over outputs holding 1, not-a-number, infinities; non-trivial: values that must stay and (nodes, segments) values that must show the replaced ones.'),
    'C31': chk('memory', 'C31', 'Scripted lives of 16 kinds of object with the return value of every call of the C interface watched; iterations, searches, solves and projections whose outcome is known; non-trivial: more than one call. States: functions of the C interface called.', must_see=['calls-watched', 'iterations-ended', 'search1', 'search-3', 'solver-failed', 'solver-solved', 'projections-done', 'projections-refused']),
}
