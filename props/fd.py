import numpy as np


def ladder(f, h0, factors=(1.0, 0.25, 0.0625, 0.015625)):
    """central differences over a ladder of steps, Richardson-extrapolated pairwise; returns (best estimate, error estimate)
    elementwise.  The error estimate is the spread of neighbouring extrapolants, so a kink or roundoff shows up as a large one."""
    ds = []
    for k in factors:
        h = h0 * k
        ds.append((np.asarray(f(h), float) - np.asarray(f(-h), float)) / (2 * h))
    rich = [ds[i + 1] + (ds[i + 1] - ds[i]) / ((factors[i] / factors[i + 1]) ** 2 - 1) for i in range(len(ds) - 1)]
    cand = np.array([0.5 * (rich[i] + rich[i + 1]) for i in range(len(rich) - 1)])
    err = np.array([np.abs(rich[i + 1] - rich[i]) for i in range(len(rich) - 1)])
    err = np.where(np.isfinite(err), err, np.inf)
    k = np.argmin(err, axis=0)
    best = np.take_along_axis(cand, k[None], 0)[0]
    e = np.take_along_axis(err, k[None], 0)[0]
    return best, e


class Settle:
    """second opinion on an entry that disagrees with the ladder: a kink of the model (edge of the Reynolds numbers of a polar, a knot)
    can lie inside the finest step of the ladder without showing in its spread.  Central differences over much smaller steps are
    asked; an entry counts as wrong only if it disagrees with all of them as well."""

    def __init__(self, f, h0, factors=(1.0 / 512, 1.0 / 8192)):
        self.f, self.h0, self.factors, self.d = f, h0, factors, None

    def agrees(self, g, pick, scale, w):
        """g: the gradient, w: what the ladder found.  A step whose roundoff cannot tell the two apart says nothing."""
        if self.d is None:
            self.d = []
            for k in self.factors:
                h = self.h0 * k
                self.d.append((h, (np.asarray(self.f(h), float) - np.asarray(self.f(-h), float)) / (2 * h)))
        return any(2e-10 * scale / h < abs(g - w) / 4 and abs(g - pick(d)) <= 1e-4 * abs(pick(d)) + 2e-10 * scale / h for h, d in self.d)
