"""Interpreted model of scipy.spatial.ConvexHull in the plane (exact arithmetic).

Contract used: .vertices are the indices of the extreme points of the input, in counterclockwise order."""


from fractions import Fraction


def exact(v):
    return Fraction(v) if isinstance(v, float) else v


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


class ConvexHull:
    def __init__(self, points):
        pts = [(exact(p[0]), exact(p[1])) for p in points]
        order = sorted(range(len(pts)), key=lambda i: (pts[i][0], pts[i][1]))
        lower = []
        for i in order:
            while len(lower) >= 2 and cross(pts[lower[-2]], pts[lower[-1]], pts[i]) <= 0:
                lower.pop()
            lower.append(i)
        upper = []
        for i in reversed(order):
            while len(upper) >= 2 and cross(pts[upper[-2]], pts[upper[-1]], pts[i]) <= 0:
                upper.pop()
            upper.append(i)
        self.points = pts
        self.vertices = lower[:-1] + upper[:-1]
