"""Stand-in for the S4 solver, which is not installed here: the part of its Python interface RayFlare uses, on top of Inkstone.

Only the set-up and the calls are S4's; the optics is Inkstone's, so what RayFlare passes in and does with the answers can be observed."""
import numpy as np
from inkstone import Inkstone


class Simulation:
    def __init__(self, size, orders):
        self.s = Inkstone(size, orders)
        self.options = {}
        self.order, self.d, self.eps, self.of, self.regions, self.size = [], {}, {}, {}, {}, np.array(size, float)

    def SetOptions(self, **kw):
        self.options.update(kw)

    def SetMaterial(self, Name, Epsilon):
        self.eps[Name] = complex(Epsilon)
        self.s.AddMaterial(Name, Epsilon)

    def AddLayer(self, Name, Thickness, Material):
        self.order.append(Name)
        self.d[Name] = Thickness
        self.of[Name], self.regions[Name] = Material, []
        self.s.AddLayer(Name, Thickness, Material)

    def SetRegionCircle(self, Layer, Material, Center, Radius):
        self.regions[Layer].append((Material, Center, 0, lambda x, y: np.hypot(x, y) < Radius))
        self.s.AddPatternDisk(Layer, Material, Radius, Center)

    def SetRegionEllipse(self, Layer, Material, Center, Angle, Halfwidths):
        self.regions[Layer].append((Material, Center, Angle, lambda x, y: np.hypot(x / Halfwidths[0], y / Halfwidths[1]) < 1))
        self.s.AddPatternEllipse(Layer, Material, Halfwidths, Center, Angle)

    def SetRegionRectangle(self, Layer, Material, Center, Angle, Halfwidths):
        self.regions[Layer].append((Material, Center, Angle, lambda x, y: abs(x) < Halfwidths[0] and abs(y) < Halfwidths[1]))
        self.s.AddPatternRectangle(Layer, Material, [2 * h for h in Halfwidths], Center, Angle)

    def SetRegionPolygon(self, Layer, Material, Center, Angle, Vertices):
        V = np.array(Vertices, float)
        W = np.roll(V, -1, axis=0)
        turn = np.sign(np.sum(V[:, 0] * W[:, 1] - V[:, 1] * W[:, 0]))
        self.regions[Layer].append((Material, Center, Angle, lambda x, y: bool(np.all(turn * ((W[:, 0] - V[:, 0]) * (y - V[:, 1]) - (W[:, 1] - V[:, 1]) * (x - V[:, 0])) > 0))))  # convex
        a = np.deg2rad(Angle)
        v = [(Center[0] + x * np.cos(a) - y * np.sin(a), Center[1] + x * np.sin(a) + y * np.cos(a)) for x, y in Vertices]
        self.s.AddPatternPolygon(Layer, Material, v)

    def SetExcitationPlanewave(self, IncidenceAngles, sAmplitude=0, pAmplitude=0, Order=0):
        self.s.SetExcitation(IncidenceAngles[0], IncidenceAngles[1], sAmplitude, pAmplitude)

    def SetFrequency(self, f):
        self.s.SetFrequency(f)

    def GetPowerFlux(self, Layer, zOffset=0):
        return tuple(complex(np.ravel(x)[0]) for x in self.s.GetPowerFlux(Layer, zOffset))

    def GetPowerFluxByOrder(self, Layer, zOffset=0):
        return [tuple(complex(np.ravel(x)[0]) for x in self.s.GetPowerFluxByOrder(Layer, o, zOffset)) for o in self.s.pr.idx_g]

    def GetBasisSet(self):
        return tuple(tuple(g) for g in self.s.pr.idx_g)

    def GetReciprocalLattice(self):
        return tuple(tuple(float(x) / (2 * np.pi) for x in b) for b in self.s.pr.recipr_vec)

    def at(self, z):
        """Layer at a depth below the incidence medium, and the depth in it."""
        if z < 0:
            return self.order[0], z
        edges = np.cumsum([0] + [self.d[n] for n in self.order[1:-1]])
        i = int(np.searchsorted(edges, z, side="right"))
        return self.order[i], z - edges[i - 1]

    def field(self, x, y, z, layer):
        f = [complex(np.ravel(v)[0]) for v in self.s.GetLayerFields(x=[x], y=[y], z=z, layer=layer)]
        return tuple(f[:3]), tuple(f[3:])

    def GetFields(self, x, y, z):
        layer, z = self.at(z)
        return self.field(x, y, z, layer)

    def GetFieldsOnGrid(self, z, NumSamples, Format="Array"):
        layer, z = self.at(z)
        r = [[self.field(*(i / NumSamples[0] * self.size[0] + j / NumSamples[1] * self.size[1]), z, layer) for j in range(NumSamples[1])] for i in range(NumSamples[0])]
        return [[f[0] for f in q] for q in r], [[f[1] for f in q] for q in r]

    def GetLayerZIntegral(self, Layer, xy):
        d = self.d[Layer] if np.isfinite(self.d[Layer]) else 0
        q, w = np.polynomial.legendre.leggauss(24)
        f = [self.field(xy[0], xy[1], d * (t + 1) / 2, Layer) for t in q]
        return tuple(tuple(float(np.sum(w * d / 2 * np.abs([v[k][c] for v in f]) ** 2)) for c in range(3)) for k in range(2))

    def GetEpsilon(self, x, y, z):
        layer, z = self.at(z)
        m = self.of[layer]
        for mat, c, angle, inside in self.regions[layer]:
            a = np.deg2rad(angle)
            for i in range(-9, 10):
                for j in range(-9, 10):
                    u, v = np.array([x, y]) - np.asarray(c, float) - i * self.size[0] - j * self.size[1]
                    if inside(u * np.cos(a) + v * np.sin(a), v * np.cos(a) - u * np.sin(a)):
                        m = mat
        return self.eps[m]


def New(Lattice=None, NumBasis=None, *a):
    return Simulation(Lattice, NumBasis)


def install():
    """Make `import S4` find this module, before RayFlare is imported."""
    import sys
    sys.modules["S4"] = sys.modules[__name__]
