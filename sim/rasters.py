"""An independent model of raster interpolation."""
import numpy as np


def bilinear(ref, xlim, ylim, px, py):
    """Independent bilinear model: values, and whether every cell that could matter is a number.

    px, py: point coordinates of equal shape. Linear extrapolation beyond the outer cell centers.
    """
    ny, nx = ref.shape
    dx, dy = (xlim[1] - xlim[0]) / nx, (ylim[1] - ylim[0]) / ny
    u = (np.asarray(px, float) - xlim[0]) / dx - 0.5
    v = (np.asarray(py, float) - ylim[0]) / dy - 0.5
    a = ref.astype(float)
    nan = np.isnan(a)
    z = np.where(nan, 0, a)

    def parts(t, n):
        if n == 1:
            i = np.zeros(t.shape, int)
            return i, i, np.zeros(t.shape)
        i = np.clip(np.floor(t).astype(int), 0, n - 2)
        return i, i + 1, t - i

    i0, i1, s = parts(u, nx)
    j0, j1, t = parts(v, ny)
    value = (1 - t) * ((1 - s) * z[j0, i0] + s * z[j0, i1]) + t * ((1 - s) * z[j1, i0] + s * z[j1, i1])
    clear = np.ones(u.shape, bool)
    sure = np.zeros(u.shape, bool)
    for a_ in range(u.size):
        k = np.unravel_index(a_, u.shape)
        box = nan[max(j0[k] - 1, 0) : j1[k] + 2, max(i0[k] - 1, 0) : i1[k] + 2]
        clear[k] = not box.any()
        # a number of clearly nonzero weight is missing
        for jj, wt in ((j0[k], abs(1 - t[k])), (j1[k], abs(t[k]))):
            for ii, ws in ((i0[k], abs(1 - s[k])), (i1[k], abs(s[k]))):
                if nan[jj, ii] and wt * ws > 1e-3:
                    sure[k] = True
    return value, clear, sure
