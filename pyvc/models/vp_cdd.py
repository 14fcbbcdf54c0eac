"""Interpreted model of pycddlib: matrices with exact rational rows, and linear programs by contract.

LinProg.solve() either finds the program infeasible, finds it unbounded (with a feasible point whose
objective is as low, or as high, as asked) or returns a feasible optimal point;
an unbounded program has a ray along which the objective improves.  What this says about
all points is instantiated at the registered points: the ghost points of the contract and all points
returned by earlier solves.  canonicalize() keeps the set of points, and is modelled as the identity;
generators (vertices) are not modelled."""

from vp import fresh_real, fresh_bool, assume, undecided


class RepType:
    INEQUALITY = 1
    GENERATOR = 2
    UNSPECIFIED = 0


class LPObjType:
    NONE = 0
    MAX = 1
    MIN = 2


class LPStatusType:
    UNDECIDED = 0
    OPTIMAL = 1
    INCONSISTENT = 2
    DUAL_INCONSISTENT = 3
    STRUC_INCONSISTENT = 4
    STRUC_DUAL_INCONSISTENT = 5
    UNBOUNDED = 6
    DUAL_UNBOUNDED = 7


class Matrix:
    def __init__(self, rows, linear=False, number_type=None):
        rows = [tuple(r) for r in rows]
        for r in rows:
            if len(r) != len(rows[0]):
                raise ValueError('rows have different lengths')
        self.rows = rows
        self.row_size = len(rows)
        self.lin_set = frozenset(range(len(rows))) if linear else frozenset()
        self.col_size = len(rows[0]) if len(rows) > 0 else 0
        self.rep_type = RepType.UNSPECIFIED
        self.obj_type = LPObjType.NONE
        self.obj_func = None

    def __len__(self):
        return len(self.rows)

    def __getitem__(self, i):
        return self.rows[i]

    def __iter__(self):
        return iter(list(self.rows))

    def copy(self):
        m = Matrix(self.rows)
        m.col_size = self.col_size
        m.lin_set = self.lin_set
        m.rep_type = self.rep_type
        return m

    def extend(self, rows, linear=False):
        rows = [tuple(r) for r in rows]
        for r in rows:
            if len(r) != self.col_size:
                raise ValueError('rows have different lengths')
        n = self.row_size
        self.rows = self.rows + rows
        self.row_size = n + len(rows)
        if linear:
            self.lin_set = self.lin_set | frozenset(range(n, n + len(rows)))

    def canonicalize(self):
        return (frozenset(), frozenset())


class Polyhedron:
    def __init__(self, mat):
        self.mat = mat
        self.rep_type = mat.rep_type

    def get_generators(self):
        undecided('vertex enumeration')

    def get_inequalities(self):
        undecided('facet enumeration')


def affine_at(row, x):
    return row[0] + sum(row[i + 1] * x[i] for i in range(len(x)))


def feasible(prog, x):
    return all((affine_at(r, x) == 0) if eq else (affine_at(r, x) >= 0) for (r, eq) in prog['rows'])


class World:
    points = []
    solved = []


def learn(prog, x):
    """A solved program speaks about the point x."""
    if len(x) != prog['dim']:
        return
    if prog['result'] == 'infeasible':
        assume(not feasible(prog, x))
    elif prog['result'] == 'optimal':
        v = affine_at(prog['obj'], x)
        better = (v < prog['value']) if prog['type'] == LPObjType.MIN else (v > prog['value'])
        assume(not (feasible(prog, x) and better))


def ghost(x):
    """Register a point."""
    x = tuple(x)
    World.points.append(x)
    for p in World.solved:
        learn(p, x)
    return x


class LinProg:
    def __init__(self, mat):
        self.prog = {'rows': [(mat.rows[i], i in mat.lin_set) for i in range(len(mat.rows))], 'dim': mat.col_size - 1,
                     'obj': tuple(mat.obj_func), 'type': mat.obj_type}
        self.status = LPStatusType.UNDECIDED
        self.obj_value = None
        self.primal_solution = None

    def solve(self):
        prog = self.prog
        if fresh_bool('feasible'):
            x = tuple(fresh_real('lp') for i in range(prog['dim']))
            assume(feasible(prog, x))
            v = affine_at(prog['obj'], x)
            if fresh_bool('bounded'):
                prog['result'] = 'optimal'
                prog['value'] = v
                self.status = LPStatusType.OPTIMAL
                self.obj_value = v
                self.primal_solution = x
            else:
                y = tuple(fresh_real('ray') for i in range(prog['dim']))
                for (r, eq) in prog['rows']:
                    g = affine_at(r, y) - r[0]
                    assume(g == 0 if eq else g >= 0)
                g = affine_at(prog['obj'], y) - prog['obj'][0]
                assume(g < 0 if prog['type'] == LPObjType.MIN else g > 0)
                prog['result'] = 'unbounded'
                assume(v < 0 if prog['type'] == LPObjType.MIN else v > 0)
                self.status = LPStatusType.DUAL_INCONSISTENT
            ghost(x)
        else:
            prog['result'] = 'infeasible'
            self.status = LPStatusType.DUAL_INCONSISTENT if fresh_bool('dual') else LPStatusType.INCONSISTENT
        for x in World.points:
            learn(prog, x)
        World.solved.append(prog)
