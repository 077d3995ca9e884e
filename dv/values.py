"""Values of the symbolic interpreter."""
from .terms import *
from . import terms as tm

class Unsupported(Exception):
    """the verifier cannot handle this construct: the obligation is undecided"""

class ShapeError(Unsupported):
    pass

class PyRaise(Exception):
    """the program raises an exception on this path"""
    def __init__(self, name, msg=""):
        Exception.__init__(self, "%s: %s" % (name, msg)); self.name = name; self.msg = msg

class Sc:
    """scalar; ty in bool/int/float; lib in py/np/torch (0-d array or tensor)"""
    __slots__ = ("t", "ty", "lib")
    def __init__(self, t, ty=None, lib="py"):
        self.t = t
        self.ty = ty or ("bool" if t.sort == "B" else "int" if t.sort == "I" else "float")
        self.lib = lib
    def __repr__(self): return "Sc(%s)" % show(self.t)[:80]

def cst(q, ty=None): return Sc(num(q), ty)
TRUEV = Sc(TRUE); FALSEV = Sc(FALSE)

class Arr:
    """reference to (a view of) an array cell; vm[k] describes base axis k: ('i', term) or ('v', view axis, start, step);
    lb: the library whose type the reference has, when it is not the one that made the cell (shared memory)"""
    __slots__ = ("cid", "vm", "shape", "lb")
    def __init__(self, cid, vm, shape, lb=None):
        self.cid = cid; self.vm = tuple(vm); self.shape = tuple(shape); self.lb = lb
    def __repr__(self): return "Arr#%d%s" % (self.cid, [show(s) for s in self.shape])

class ACell:
    __slots__ = ("shape", "vs", "body", "lib", "ty", "ro")
    def __init__(self, shape, vs, body, lib, ty, ro=False):
        self.ro = ro                # stands for several objects: must not be written; "user": result of a user function, possibly the caller's own array
        self.shape = tuple(shape); self.vs = tuple(vs); self.body = body; self.lib = lib; self.ty = ty

class ListRef:
    __slots__ = ("lid", "kind")
    def __init__(self, lid, kind="list"): self.lid = lid; self.kind = kind

class Named(tuple):
    """tuple with named entries (torch.min(x, dim) and the like)"""
    def __new__(cls, items, fields):
        r = tuple.__new__(cls, items); r.fields = fields; return r

class SymList:
    """immutable sequence of symbolic length: elem(i) -> value"""
    __slots__ = ("n", "elem")
    def __init__(self, n, elem): self.n = n; self.elem = elem

class PreList:
    """list payload at the start of an iteration of a summarised loop"""
    def __init__(self, loc, items=(), n=None, last=None):
        self.loc = loc; self.items = tuple(items)
        self.n = n                  # length at the start of the iteration (a list to which every iteration appends one item)
        self.last = last            # variable that holds the last item at the start of the iteration: (frame, name)
    def plus(self, items): return PreList(self.loc, self.items + tuple(items), self.n, self.last)

class ListRead(Unsupported):
    """a list is read while a summarised loop builds it"""
    def __init__(self, lid): Unsupported.__init__(self, "list under construction"); self.lid = lid

class DictRef:
    __slots__ = ("did",)
    def __init__(self, did): self.did = did

class Inst:
    __slots__ = ("iid", "cls")
    def __init__(self, iid, cls): self.iid = iid; self.cls = cls

class FnV:
    def __init__(self, node, fid, name, defaults, kwdefaults, mod, qual):
        self.node = node; self.fid = fid; self.name = name; self.defaults = defaults; self.kwdefaults = kwdefaults
        self.mod = mod; self.qual = qual
        self.memo_id = id(node)

class ClassV:
    def __init__(self, name, attrs, mod, bases): self.name = name; self.attrs = attrs; self.mod = mod; self.bases = bases

class Bound:
    def __init__(self, fn, self_): self.fn = fn; self.self_ = self_

class LibMethod:
    def __init__(self, obj, name): self.obj = obj; self.name = name

class Lib:
    """library module / function / class, by dotted name"""
    __slots__ = ("name",)
    def __init__(self, name): self.name = name
    def __repr__(self): return "Lib(%s)" % self.name
    def __eq__(self, o): return isinstance(o, Lib) and o.name == self.name
    def __hash__(self): return hash(self.name)

class ModV:
    def __init__(self, name, path): self.name = name; self.path = path; self.fid = None

class RangeV:
    def __init__(self, a, b, s): self.a = a; self.b = b; self.s = s

class Seq:
    """iterable with a length term and an element function (enumerate, zip, array rows, ...)"""
    def __init__(self, n, elem): self.n = n; self.elem = elem

class SliceV:
    def __init__(self, a, b, s): self.a = a; self.b = b; self.s = s

class OpaqueFn:
    """uninterpreted user callback (drift, path constraint): a contract given by a python function"""
    def __init__(self, name, contract): self.name = name; self.contract = contract

class SpecFn:
    """a function value whose behaviour is given by a contract: call(interp, args, kwargs)"""
    def __init__(self, name, call, terms=(), make=None):
        """terms, make: the terms the function depends on, and the function for other values of them"""
        self.name = name; self.call = call; self.terms = terms; self.make = make

class Ignored:
    """result of a call without effect on the properties (logging, plotting)"""
    def __init__(self, what=""): self.what = what

class Poison:
    """value that must not be used (unbound or not summarised)"""
    def __init__(self, why): self.why = why

class Distr:
    def __init__(self, kind, a, b): self.kind = kind; self.a = a; self.b = b

ELLIPSIS = object()
NOTIMPL = object()
