"""Stand-in for KratosMultiphysics: the part of its interface that an embedded analysis needs, recording what it is given.
Nothing is solved. Ids are checked as Kratos checks them (positive, created once; nodes with equal ids must be equal)."""
import json, math, sys, types

KM = types.ModuleType("KratosMultiphysics")
IGA = types.ModuleType("KratosMultiphysics.IgaApplication")
SMA = types.ModuleType("KratosMultiphysics.StructuralMechanicsApplication")
SMAA = types.ModuleType("KratosMultiphysics.StructuralMechanicsApplication.structural_mechanics_analysis")
LSA = types.ModuleType("KratosMultiphysics.LinearSolversApplication")
ALL = {m.__name__: m for m in (KM, IGA, SMA, SMAA, LSA)}
for m in (KM, SMA):
    m.__path__ = []
KM.IgaApplication, KM.StructuralMechanicsApplication, KM.LinearSolversApplication, SMA.structural_mechanics_analysis = IGA, SMA, LSA, SMAA


class Variable:
    def __init__(self, name):
        self.name = name

    def Name(self):
        return self.name

    def __repr__(self):
        return self.name


for mod, names in ((KM, ("DISPLACEMENT", "REACTION", "VECTOR_LAGRANGE_MULTIPLIER")), (IGA, ("VECTOR_LAGRANGE_MULTIPLIER_REACTION",)), (SMA, ("POINT_LOAD", "SURFACE_LOAD"))):
    for n in names:
        for x in ("", "_X", "_Y", "_Z"):
            setattr(mod, n + x, Variable(n + x))
for mod, names in ((KM, ("DOMAIN_SIZE", "TO_ERASE", "ACTIVE")), (IGA, ("PENALTY_FACTOR",))):
    for n in names:
        setattr(mod, n, Variable(n))


class Data:
    """values of variables; the components of a vector are one thing with the vector"""
    def __init__(self):
        self.d = {}
        self.flags = set()

    def SetValue(self, var, value):
        n = var.name
        if n[-2:] in ("_X", "_Y", "_Z"):
            self.d.setdefault(n[:-2], [0.0, 0.0, 0.0])["XYZ".index(n[-1])] = float(value)
        elif isinstance(value, (int, float)):
            self.d[n] = value
        else:
            v = [float(x) for x in value]
            if len(v) != 3:
                raise RuntimeError("%s needs three components" % n)
            self.d[n] = v

    __setitem__ = SetValue

    def GetValue(self, var):
        n = var.name
        if n[-2:] in ("_X", "_Y", "_Z"):
            return self.d.get(n[:-2], [0.0, 0.0, 0.0])["XYZ".index(n[-1])]
        v = self.d.get(n, 0.0)
        return Vector(v) if isinstance(v, list) else v

    __getitem__ = GetValue

    def Has(self, var):
        return var.name in self.d

    def Set(self, flag, value=True):
        (self.flags.add if value else self.flags.discard)(flag.name)

    def Is(self, flag):
        return flag.name in self.flags


class Vector(list):
    def __init__(self, a=0, b=0.0):
        list.__init__(self, [b] * a if isinstance(a, int) else [float(x) for x in a])

    def Size(self):
        return len(self)


class Node(Data):
    def __init__(self, id, x, y, z):
        Data.__init__(self)
        if not isinstance(id, int) or id < 1:
            raise RuntimeError("invalid id of a node")
        self.Id = id
        self.X0 = self.X = float(x); self.Y0 = self.Y = float(y); self.Z0 = self.Z = float(z)
        self.fixed, self.nodal = set(), Data()

    def Fix(self, var):
        self.fixed.add(var.name)

    def Free(self, var):
        self.fixed.discard(var.name)

    def IsFixed(self, var):
        return var.name in self.fixed

    def SetSolutionStepValue(self, var, *a):
        self.nodal.SetValue(var, a[-1])

    def GetSolutionStepValue(self, var, *a):
        return self.nodal.GetValue(var)

    def xyz(self):
        return (self.X0, self.Y0, self.Z0)


class Geometry:
    """a list of nodes"""
    def __init__(self, *nodes):
        self.nodes = list(nodes)

    def __len__(self):
        return len(self.nodes)

    def __iter__(self):
        return iter(self.nodes)

    def __getitem__(self, i):
        return self.nodes[i]

    def PointsNumber(self):
        return len(self.nodes)


class Triangle3D3(Geometry):
    def __init__(self, a, b, c):
        Geometry.__init__(self, a, b, c)


class QuadraturePoints(Geometry):
    """quadrature points given in the parameter space of the volume, or one triangle of its parameter space"""
    def __init__(self, kind, data, derivatives):
        Geometry.__init__(self)
        self.kind, self.data, self.derivatives = kind, data, derivatives


class GeometriesVector(list):
    pass


class NurbsVolume:
    def __init__(self, lo, hi, u0, u1, order, spans):
        self.lo, self.hi, self.u0, self.u1, self.order, self.spans = [tuple(x) for x in (lo, hi, u0, u1, order, spans)]

    def GlobalCoordinates(self, u):
        return Vector([self.lo[i] + (u[i] - self.u0[i]) / (self.u1[i] - self.u0[i]) * (self.hi[i] - self.lo[i]) for i in range(3)])

    def CreateQuadraturePointGeometries(self, out, derivatives, points):
        out[:] = [QuadraturePoints("points", [tuple(float(x) for x in p) for p in points], derivatives)]
        if any(len(p) != 4 for p in points):
            raise RuntimeError("a quadrature point has four values")


class SurfaceInNurbsVolumeGeometry:
    def __init__(self, volume, triangle):
        self.volume, self.triangle = volume, triangle

    def Area(self):
        a, b, c = [self.volume.GlobalCoordinates(n.xyz()) for n in self.triangle]
        u, v = [b[i] - a[i] for i in range(3)], [c[i] - a[i] for i in range(3)]
        return 0.5 * math.sqrt(sum((u[i - 2] * v[i - 1] - u[i - 1] * v[i - 2]) ** 2 for i in range(3)))

    def CreateQuadraturePointGeometries(self, out, derivatives):
        out[:] = [QuadraturePoints("triangle", [n.xyz() for n in self.triangle], derivatives)]


class Entity(Data):
    def __init__(self, name, id, geometry, properties):
        Data.__init__(self)
        self.name, self.Id, self.geometry, self.Properties = name, id, geometry, properties

    def GetGeometry(self):
        return self.geometry

    def GetNodes(self):
        return list(self.geometry)


class PropertiesArray(dict):
    def __missing__(self, i):
        self[i] = Data()
        self[i].Id = i
        return self[i]


class ModelPart:
    def __init__(self, name):
        self.Name, self.ProcessInfo = name, Data()
        self.nodes, self.elements, self.conditions, self.geometries = {}, {}, {}, {}
        self.properties, self.variables, self.dofs = PropertiesArray(), [], []

    def AddNodalSolutionStepVariable(self, v): self.variables.append(v.name)
    def GetProperties(self): return self.properties
    def CreateNewProperties(self, i): return self.properties[i]
    def NumberOfProperties(self): return len(self.properties)
    Properties = property(GetProperties)

    def GetGeometry(self, name):
        return self.geometries[name]

    def CreateNewNode(self, id, x, y, z):
        n = Node(id, x, y, z)
        if id in self.nodes and self.nodes[id].xyz() != n.xyz():
            raise RuntimeError("a node with id %d exists at another place" % id)
        return self.nodes.setdefault(id, n)

    def GetNode(self, id): return self.nodes[id]
    def GetElement(self, id): return self.elements[id]
    def GetCondition(self, id): return self.conditions[id]

    def _create(self, where, name, id, what, properties):
        if not isinstance(id, int) or id < 1 or id in where:
            raise RuntimeError("id %r of a new entity is invalid or taken" % id)
        g = what if isinstance(what, Geometry) else Geometry(*[self.nodes[i] for i in what])
        if not isinstance(properties, Data):
            raise TypeError("properties")
        where[id] = Entity(name, id, g, properties)
        return where[id]

    def CreateNewElement(self, name, id, what, properties): return self._create(self.elements, name, id, what, properties)
    def CreateNewCondition(self, name, id, what, properties): return self._create(self.conditions, name, id, what, properties)
    Nodes = property(lambda s: [s.nodes[i] for i in sorted(s.nodes)])
    Elements = property(lambda s: [s.elements[i] for i in sorted(s.elements)])
    Conditions = property(lambda s: [s.conditions[i] for i in sorted(s.conditions)])
    def GetNodes(self): return self.Nodes
    def GetElements(self): return self.Elements
    def GetConditions(self): return self.Conditions
    def NumberOfNodes(self): return len(self.nodes)
    def NumberOfElements(self): return len(self.elements)
    def NumberOfConditions(self): return len(self.conditions)

    def _remove(self, where, flag):
        for i in [i for i, e in where.items() if e.Is(flag)]:
            del where[i]

    def RemoveElements(self, flag): self._remove(self.elements, flag)
    def RemoveConditions(self, flag): self._remove(self.conditions, flag)
    RemoveElementsFromAllLevels, RemoveConditionsFromAllLevels = RemoveElements, RemoveConditions


class Model:
    def __init__(self):
        self.parts = {}

    def CreateModelPart(self, name):
        if name in self.parts:
            raise RuntimeError("model part %s exists" % name)
        self.parts[name] = ModelPart(name)
        return self.parts[name]

    def GetModelPart(self, name): return self.parts[name]
    def HasModelPart(self, name): return name in self.parts
    __getitem__ = GetModelPart


class Parameters:
    def __init__(self, x="{}"):
        self.j = json.loads(x) if isinstance(x, str) else x

    class _Ref:
        pass

    def _sub(self, k):
        return Sub(self.j, k)

    def __getitem__(self, k):
        if (isinstance(k, str) and k not in self.j) or (isinstance(k, int) and k >= len(self.j)):
            raise RuntimeError("no value %s" % k)
        return self._sub(k)

    def Has(self, k): return k in self.j
    def AddEmptyValue(self, k): self.j.setdefault(k, None); return self._sub(k)
    def AddVector(self, k, v): self.j[k] = [float(x) for x in v]
    def keys(self): return list(self.j)
    def values(self): return [self._sub(k) for k in (range(len(self.j)) if isinstance(self.j, list) else self.j)]
    def items(self): return list(zip(self.keys(), self.values()))
    def size(self): return len(self.j)
    def __iter__(self): return iter(self.values())
    def __len__(self): return len(self.j)
    def GetString(self): return self.j
    GetInt = GetDouble = GetBool = GetString
    def GetVector(self): return Vector(self.j)


class Sub(Parameters):
    def __init__(self, parent, k):
        self.parent, self.k = parent, k
    j = property(lambda s: s.parent[s.k])
    def _set(self, v): self.parent[self.k] = v
    def SetVector(self, v): self._set([float(x) for x in v])
    SetDouble = SetInt = SetString = SetBool = _set


class VariableUtils:
    def AddDof(self, *a):
        a[-1].dofs.append(tuple(v.name for v in a[:-1]))


class Logger:
    @staticmethod
    def PrintInfo(*a): pass
    PrintWarning = PrintInfo


class NurbsGeometryModeler:
    def __init__(self, model, p):
        self.model, self.p = model, p

    def SetupGeometryModel(self):
        v = [self.p[k].GetVector() for k in ("lower_point_xyz", "upper_point_xyz", "lower_point_uvw", "upper_point_uvw", "polynomial_order", "number_of_knot_spans")]
        self.model.GetModelPart(self.p["model_part_name"].GetString()).geometries[self.p["geometry_name"].GetString()] = NurbsVolume(*v)

    def PrepareGeometryModel(self): pass

    def SetupModelPart(self):   # something to be replaced
        mp = self.model.GetModelPart(self.p["model_part_name"].GetString())
        for i in (1, 2, 7):
            if i not in mp.elements:
                mp.CreateNewElement("Leftover", i, [], mp.GetProperties()[0])
            if i not in mp.conditions:
                mp.CreateNewCondition("Leftover", i, [], mp.GetProperties()[0])


class OtherModeler(NurbsGeometryModeler):
    def SetupGeometryModel(self): pass
    def SetupModelPart(self): pass


class StructuralMechanicsAnalysis:
    def __init__(self, model, parameters):
        self.model, self.project_parameters = model, parameters
        self.echo_level = parameters["problem_data"]["echo_level"].GetInt()
        self.modelers = [(NurbsGeometryModeler if m["modeler_name"].GetString() == "NurbsGeometryModeler" else OtherModeler)(model, m["Parameters"]) for m in parameters["modelers"].values()]
        self.solved = 0

    def _GetListOfModelers(self): return self.modelers
    def _GetSimulationName(self): return "Analysis"

    def _ModelersSetupGeometryModel(self):
        for m in self._GetListOfModelers():
            m.SetupGeometryModel()

    def _ModelersPrepareGeometryModel(self):
        for m in self._GetListOfModelers():
            m.PrepareGeometryModel()

    def _ModelersSetupModelPart(self):
        for m in self._GetListOfModelers():
            m.SetupModelPart()

    def ModifyInitialProperties(self): pass
    def ModifyInitialGeometry(self): pass

    def Initialize(self):
        self._ModelersSetupGeometryModel()
        self._ModelersPrepareGeometryModel()
        self._ModelersSetupModelPart()
        self.ModifyInitialProperties()
        self.ModifyInitialGeometry()

    def Run(self):
        self.Initialize()
        self.solved += 1


for c in (Vector, Node, Geometry, Triangle3D3, GeometriesVector, SurfaceInNurbsVolumeGeometry, ModelPart, Model, Parameters, VariableUtils, Logger):
    setattr(KM, c.__name__, c)
SMAA.StructuralMechanicsAnalysis = StructuralMechanicsAnalysis


def install():
    sys.modules.update(ALL)
