"""Independent reference models (plain Python; nothing from the repository, no numpy)."""
import math
from fractions import Fraction


# -- affine maps: (a, b, c, d, e, f):  x' = a x + b y + c,  y' = d x + e y + f --------------------------------------
IDENT = (1.0, 0.0, 0.0, 0.0, 1.0, 0.0)


def aff_mul(m, n):
    """m after n"""
    a, b, c, d, e, f = m
    g, h, i, j, k, l = n
    return (a*g + b*j, a*h + b*k, a*i + b*l + c,
            d*g + e*j, d*h + e*k, d*i + e*l + f)


def aff(m, p):
    x, y = p
    a, b, c, d, e, f = m
    return a*x + b*y + c, d*x + e*y + f


def aff_vec(m, v):
    x, y = v
    return m[0]*x + m[1]*y, m[3]*x + m[4]*y


def aff_det(m):
    return m[0]*m[4] - m[1]*m[3]


def aff_inv(m):
    a, b, c, d, e, f = m
    det = a*e - b*d
    ia, ib, id_, ie = e/det, -b/det, -d/det, a/det
    return ia, ib, -(ia*c + ib*f), id_, ie, -(id_*c + ie*f)


def aff_norm(m):
    """Frobenius norm of the linear part"""
    return math.sqrt(m[0]**2 + m[1]**2 + m[3]**2 + m[4]**2)


def aff_cond(m):
    det = abs(aff_det(m))
    return float('inf') if det == 0 else aff_norm(m)**2 / det


def mat_translate(dx, dy):
    return 1.0, 0.0, dx, 0.0, 1.0, dy


def mat_scale(sx, sy):
    return sx, 0.0, 0.0, 0.0, sy, 0.0


def mat_ccw(deg):
    r = math.radians(deg)
    c, s = math.cos(r), math.sin(r)
    return c, -s, 0.0, s, c, 0.0


def mat_cw(deg):
    return mat_ccw(-deg)


def about(m, c):
    """m about the point c"""
    return aff_mul(mat_translate(c[0], c[1]), aff_mul(m, mat_translate(-c[0], -c[1])))


# -- cubic curves ----------------------------------------------------------------------------------------------------
def cubic(pts, t):
    (ax, ay), (bx, by), (cx, cy), (dx, dy) = pts
    s = 1 - t
    w0, w1, w2, w3 = s*s*s, 3*s*s*t, 3*s*t*t, t*t*t
    return w0*ax + w1*bx + w2*cx + w3*dx, w0*ay + w1*by + w2*cy + w3*dy


def cubic_d(pts, t):
    """derivative"""
    (ax, ay), (bx, by), (cx, cy), (dx, dy) = pts
    s = 1 - t
    w0, w1, w2 = 3*s*s, 6*s*t, 3*t*t
    return (w0*(bx-ax) + w1*(cx-bx) + w2*(dx-cx), w0*(by-ay) + w1*(cy-by) + w2*(dy-cy))


def cubic_area(pts):
    """integral of (x dy - y dx)/2 along the cubic (exact closed form by 4-point Gauss quadrature, degree 5)"""
    nodes = ((0.33998104358485626, 0.6521451548625461), (0.8611363115940526, 0.34785484513745385))
    total = 0.0
    for n, w in nodes:
        for sgn in (1, -1):
            t = 0.5 + 0.5*sgn*n
            x, y = cubic(pts, t)
            dx, dy = cubic_d(pts, t)
            total += 0.5 * w * (x*dy - y*dx) / 2
    return total


def segs_of(cps, closed):
    """[(p0, p1, p2, p3)...] of a list of control points ((cx,cy),(dlx,dly),(drx,dry))"""
    out = []
    n = len(cps)
    for i in range(n if closed else n - 1):
        (c, dl, dr), (c2, dl2, dr2) = cps[i], cps[(i + 1) % n]
        out.append((c, (c[0]+dr[0], c[1]+dr[1]), (c2[0]+dl2[0], c2[1]+dl2[1]), c2))
    return out


# -- polygons --------------------------------------------------------------------------------------------------------
def shoelace(pts):
    n = len(pts)
    total = 0
    for i in range(n):
        (x1, y1), (x2, y2) = pts[i], pts[(i + 1) % n]
        total += x1*y2 - x2*y1
    return total / 2 if not isinstance(total, Fraction) else total / 2


def dist_seg(p, a, b):
    px, py = p[0]-a[0], p[1]-a[1]
    dx, dy = b[0]-a[0], b[1]-a[1]
    dd = dx*dx + dy*dy
    t = 0.0 if dd == 0 else max(0.0, min(1.0, (px*dx + py*dy) / dd))
    return math.hypot(px - t*dx, py - t*dy)


def dist_polyline(p, pts, closed=True):
    n = len(pts)
    if n == 1:
        return math.hypot(p[0]-pts[0][0], p[1]-pts[0][1])
    return min(dist_seg(p, pts[i], pts[(i+1) % n]) for i in range(n if closed else n-1))


def winding(p, pts):
    """winding number of closed polygon about p"""
    wn = 0
    n = len(pts)
    x, y = p
    for i in range(n):
        (x1, y1), (x2, y2) = pts[i], pts[(i+1) % n]
        if y1 <= y:
            if y2 > y and (x2-x1)*(y-y1) - (x-x1)*(y2-y1) > 0:
                wn += 1
        elif y2 <= y and (x2-x1)*(y-y1) - (x-x1)*(y2-y1) < 0:
            wn -= 1
    return wn


def crossings(p, pts):
    """even-odd crossing count of closed polygon about p"""
    n = len(pts)
    x, y = p
    c = 0
    for i in range(n):
        (x1, y1), (x2, y2) = pts[i], pts[(i+1) % n]
        if (y1 > y) != (y2 > y) and x < (x2-x1)*(y-y1)/(y2-y1) + x1:
            c += 1
    return c


def frac(p):
    return Fraction(p[0]), Fraction(p[1])
