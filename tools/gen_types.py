#!/usr/bin/env python3
"""Writes harness/types_gen.go: the catalogue of Go types the checks run over,
with their reference schemas and conversions to and from reference values."""
import os

out = []
done = {}
defs = []


def emit(s):
    out.append(s)


def leaf(t, ctor):
    """a leaf schema with the text its own definition prints"""
    emit("func sch_%s() *Sch {\n\ts := %s\n\ts.Print = func(v *Val) []byte {\n\t\tvar x %s\n\t\tset_%s(&x, v)\n\t\treturn prettyOf(&x, zssz.GetSSZ((*%s)(nil)))\n\t}\n\treturn s\n}" % (t.key, ctor, t.go, t.key, t.go))


class T:
    key = ""
    go = ""

    def prep(self):
        if self.key in done:
            return
        done[self.key] = self
        self.deps()
        self.code()

    def deps(self):
        pass


class Uint(T):
    def __init__(self, n, name=None):
        self.n = n
        base = {1: "uint8", 2: "uint16", 4: "uint32", 8: "uint64"}[n]
        self.base = base
        self.go = name or base
        self.named = name
        self.key = name or "U%d" % (8 * n)

    def code(self):
        if self.named:
            emit("type %s %s" % (self.go, self.base))
        leaf(self, "sUint(%d)" % self.n)
        emit("func set_%s(p *%s, v *Val) { *p = %s(v.U) }" % (self.key, self.go, self.go))
        emit("func get_%s(p *%s) *Val { return &Val{U: uint64(*p)} }" % (self.key, self.go))


class Bool(T):
    def __init__(self, name=None):
        self.go = name or "bool"
        self.named = name
        self.key = name or "Bool"

    def code(self):
        if self.named:
            emit("type %s bool" % self.go)
        leaf(self, "sBool()")
        emit("func set_%s(p *%s, v *Val) { *p = v.U != 0 }" % (self.key, self.go))
        emit("func get_%s(p *%s) *Val { return &Val{U: b2u(bool(*p))} }" % (self.key, self.go))


class BytesN(T):
    def __init__(self, n, elem=None):
        self.n, self.elem = n, elem
        self.go = "[%d]%s" % (n, elem.go if elem else "byte")
        self.key = "BytesN%d" % n + ("_" + elem.key if elem else "")

    def deps(self):
        if self.elem:
            self.elem.prep()

    def code(self):
        leaf(self, "sBytesN(%d)" % self.n)
        if self.elem:
            emit("func set_%s(p *%s, v *Val) {\n\tfor i := range p {\n\t\tp[i] = %s(v.B[i])\n\t}\n}" % (self.key, self.go, self.elem.go))
            emit("func get_%s(p *%s) *Val {\n\tv := &Val{}\n\tfor i := range p {\n\t\tv.B = append(v.B, byte(p[i]))\n\t}\n\treturn v\n}" % (self.key, self.go))
            return
        emit("func set_%s(p *%s, v *Val) { copy(p[:], v.B) }" % (self.key, self.go))
        emit("func get_%s(p *%s) *Val { return &Val{B: clone(p[:])} }" % (self.key, self.go))


class Vec(T):
    def __init__(self, e, n):
        self.e, self.n = e, n
        self.go = "[%d]%s" % (n, e.go)
        self.key = "Vec%d_%s" % (n, e.key)

    def deps(self):
        self.e.prep()

    def code(self):
        emit("func sch_%s() *Sch { return sVec(sch_%s(), %d) }" % (self.key, self.e.key, self.n))
        emit("func set_%s(p *%s, v *Val) {\n\tfor i := range p {\n\t\tset_%s(&p[i], v.Elems[i])\n\t}\n}" % (self.key, self.go, self.e.key))
        emit("func get_%s(p *%s) *Val {\n\tv := &Val{}\n\tfor i := range p {\n\t\tv.Elems = append(v.Elems, get_%s(&p[i]))\n\t}\n\treturn v\n}" % (self.key, self.go, self.e.key))


def lim(l):
    return "symLimit" if l == "SYM" else str(l)


def gsuf(gen, dflt):
    if isinstance(gen, (list, tuple)):
        return "_n" + "_".join(map(str, gen))
    return "" if gen == dflt else "_g%d" % gen


def glens(ctor, gen):
    """a constructor call, for a longest length or a list of lengths"""
    if isinstance(gen, (list, tuple)):
        return "lens(%s, %s)" % (ctor % max(gen), ", ".join(map(str, gen)))
    return ctor % gen


class List(T):
    def __init__(self, e, limit, gen=3):
        self.e, self.limit, self.gen = e, limit, gen
        self.go = self.key = "List%s_%s" % (limit, e.key) + gsuf(gen, 3)

    def deps(self):
        self.e.prep()

    def code(self):
        emit("type %s []%s" % (self.go, self.e.go))
        emit("func (*%s) Limit() uint64 { return %s }" % (self.go, lim(self.limit)))
        emit("func sch_%s() *Sch { return %s }" % (self.key, glens("sList(sch_%s(), %s, %%d)" % (self.e.key, lim(self.limit)), self.gen)))
        emit("func set_%s(p *%s, v *Val) {\n\tn := len(v.Elems)\n\tif keeps(cap(*p), n) {\n\t\t*p = (*p)[:n]\n\t} else {\n\t\t*p = nil\n\t\tif spares(n) {\n\t\t\t*p = make(%s, n+1)\n\t\t\tset_%s(&(*p)[n], junk(sch_%s()))\n\t\t\t*p = (*p)[:n]\n\t\t}\n\t}\n\tfor i := range *p {\n\t\tset_%s(&(*p)[i], v.Elems[i])\n\t}\n}" % (self.key, self.go, self.go, self.e.key, self.e.key, self.e.key))
        emit("func get_%s(p *%s) *Val {\n\tv := &Val{}\n\tfor i := range *p {\n\t\tv.Elems = append(v.Elems, get_%s(&(*p)[i]))\n\t}\n\treturn v\n}" % (self.key, self.go, self.e.key))


class Bytes(T):
    def __init__(self, limit, gen=None, elem=None):
        self.limit, self.elem = limit, elem
        self.gen = gen if gen is not None else 4
        self.go = self.key = "Bytes%s" % limit + gsuf(self.gen, 4) + ("_" + elem.key if elem else "")

    def deps(self):
        if self.elem:
            self.elem.prep()

    def code(self):
        emit("type %s []%s" % (self.go, self.elem.go if self.elem else "byte"))
        emit("func (*%s) Limit() uint64 { return %s }" % (self.go, lim(self.limit)))
        leaf(self, glens("sBytes(%s, %%d)" % lim(self.limit), self.gen))
        if self.elem:
            emit("func set_%s(p *%s, v *Val) {\n\tn := len(v.B)\n\tif keeps(cap(*p), n) {\n\t\t*p = (*p)[:n]\n\t} else {\n\t\t*p = nil\n\t\tif spares(n) {\n\t\t\t*p = make(%s, n+1)\n\t\t\t(*p)[n] = 0xa5\n\t\t\t*p = (*p)[:n]\n\t\t}\n\t}\n\tfor i, x := range v.B {\n\t\t(*p)[i] = %s(x)\n\t}\n}" % (self.key, self.go, self.go, self.elem.go))
            emit("func get_%s(p *%s) *Val {\n\tv := &Val{}\n\tfor _, x := range *p {\n\t\tv.B = append(v.B, byte(x))\n\t}\n\treturn v\n}" % (self.key, self.go))
            return
        emit("func set_%s(p *%s, v *Val) { *p = setBytes(*p, v.B) }" % (self.key, self.go))
        emit("func get_%s(p *%s) *Val { return &Val{B: clone(*p)} }" % (self.key, self.go))


class Bitvec(T):
    def __init__(self, n):
        self.n = n
        self.go = self.key = "Bitvec%d" % n

    def code(self):
        emit("type %s [%d]byte" % (self.go, (self.n + 7) // 8))
        emit("func (*%s) BitLen() uint64 { return %d }" % (self.go, self.n))
        leaf(self, "sBitvec(%d)" % self.n)
        emit("func set_%s(p *%s, v *Val) { copy(p[:], v.B) }" % (self.key, self.go))
        emit("func get_%s(p *%s) *Val { return &Val{B: clone(p[:])} }" % (self.key, self.go))


class Bitlist(T):
    def __init__(self, limit, gen=None):
        self.limit = limit
        self.gen = gen if gen is not None else 10
        self.go = self.key = "Bitlist%s" % limit + gsuf(self.gen, 10)

    def code(self):
        emit("type %s []byte" % self.go)
        emit("func (b *%s) Limit() uint64 { return %s }" % (self.go, lim(self.limit)))
        emit("func (b %s) BitLen() uint64 { return bitfields.BitlistLen(b) }" % self.go)
        leaf(self, glens("sBitlist(%s, %%d)" % lim(self.limit), self.gen))
        emit("func set_%s(p *%s, v *Val) { *p = setBytes(*p, Ser(sch_%s(), v)) }" % (self.key, self.go, self.key))
        emit("func get_%s(p *%s) *Val { return getBitlist(*p) }" % (self.key, self.go))


class Ptr(T):
    def __init__(self, e):
        self.e = e
        self.go = "*" + e.go
        self.key = "Ptr_" + e.key

    def deps(self):
        self.e.prep()

    def code(self):
        emit("func sch_%s() *Sch { return sch_%s() }" % (self.key, self.e.key))
        emit("func set_%s(p *%s, v *Val) {\n\tif !inPlace || *p == nil {\n\t\t*p = new(%s)\n\t}\n\tset_%s(*p, v)\n}" % (self.key, self.go, self.e.go, self.e.key))
        emit("func get_%s(p *%s) *Val { return get_%s(*p) }" % (self.key, self.go, self.e.key))


class F:
    def __init__(self, name, t, tag="", embed=False):
        self.name, self.t, self.tag, self.embed = name, t, tag, embed

    @property
    def omit(self):
        return "omit" in self.tag.split(",")

    @property
    def squash(self):
        return isinstance(self.t, Struct) and (self.embed or "squash" in self.tag.split(","))


class Struct(T):
    def __init__(self, name, *fields):
        self.go = self.key = name
        self.fields = fields

    def leaves(self):
        r = []
        for f in self.fields:
            if f.omit:
                continue
            if f.squash:
                r += [(f.name + "." + p, t) for p, t in f.t.leaves()]
            else:
                r.append((f.name, f.t))
        return r

    def omitted(self):
        r = []
        for f in self.fields:
            if f.omit:
                r.append((f.name, f.t))
            elif f.squash:
                r += [(f.name + "." + p, t) for p, t in f.t.omitted()]
        return r

    def deps(self):
        for f in self.fields:
            f.t.prep()

    def code(self):
        s = "type %s struct {\n" % self.go
        for f in self.fields:
            tag = ' `ssz:"%s"`' % f.tag if f.tag else ""
            s += "\t%s%s%s\n" % ("" if f.embed else f.name + " ", f.t.go, tag)
        emit(s + "}")
        ls = self.leaves()
        emit("func sch_%s() *Sch {\n\treturn &Sch{K: KContainer, Fields: []*Sch{%s}, Names: []string{%s}}\n}" % (
            self.key, ", ".join("sch_%s()" % t.key for _, t in ls), ", ".join('"%s"' % p.split(".")[-1] for p, _ in ls)))
        emit("func set_%s(p *%s, v *Val) {\n%s}" % (self.key, self.go, "".join("\tset_%s(&p.%s, v.Elems[%d])\n" % (t.key, p, i) for i, (p, t) in enumerate(ls))))
        emit("func get_%s(p *%s) *Val {\n\treturn &Val{Elems: []*Val{%s}}\n}" % (self.key, self.go, ", ".join("get_%s(&p.%s)" % (t.key, p) for p, t in ls)))


U8, U16, U32, U64, B = Uint(1), Uint(2), Uint(4), Uint(8), Bool()
Slot = Uint(8, "Slot")
Flag = Bool("Flag")

# small pieces
Small = Struct("Small", F("A", U16), F("B", U8))
Fix3 = Struct("Fix3", F("A", U8), F("B", U32), F("C", BytesN(4)))
FixBig = Struct("FixBig", F("A", U64), F("R", BytesN(32)), F("V", Vec(U16, 3)), F("S", Small), F("X", B))
Var1 = Struct("Var1", F("L", List(U16, 4, 2)))
Var2 = Struct("Var2", F("A", U8), F("L", Bytes(5, 3)), F("B", U16))
VarMix = Struct("VarMix", F("L", Bytes(5, 2)), F("A", U16), F("M", List(U16, 3, 2)), F("B", B), F("N", Bitlist(9, 3)))
VarNest = Struct("VarNest", F("A", U8), F("N", Var2), F("L", List(Var2, 2, 1)))
Var2Only = Struct("Var2Only", F("X", Bytes(4, 2)), F("Y", Bytes(4, 2)))
One = Struct("One", F("Only", U32))
Nine = Struct("Nine", *[F("F%d" % i, U8) for i in range(9)])
Five = Struct("Five", F("A", U64), F("B", Bytes(3, 1)), F("C", B), F("D", U16), F("E", BytesN(33)))
PtrS = Struct("PtrS", F("P", Ptr(Small)), F("A", U8), F("Q", Ptr(Var2)))
PtrB = Struct("PtrB", F("P", Ptr(U32)), F("Q", Ptr(Bytes(3, 2))), F("R", Ptr(Ptr(U16))))
# squashing
In1 = Struct("In1", F("A", U16), F("L", Bytes(3, 2)))
In2 = Struct("In2", F("X", U8), F("In", In1, "squash"), F("Y", U8))
Sq1 = Struct("Sq1", F("H", U8), F("S", In1, "squash"), F("T", U16))
Sq2 = Struct("Sq2", F("H", U8), F("Mid", In2, "squash"), F("Z", List(U16, 3, 1)), F("T", U8))
Emb1 = Struct("Emb1", F("H", U8), F("In1", In1, embed=True), F("T", U16))
Emb2 = Struct("Emb2", F("Small", Small, embed=True), F("In2", In2, embed=True), F("W", U8))
Om1 = Struct("Om1", F("A", U16), F("Hidden", U64, "omit"), F("L", Bytes(3, 2)), F("Cache", BytesN(3), "omit"))
InOm = Struct("InOm", F("A", U8), F("K", U32, "omit"), F("B", U16))
Om2 = Struct("Om2", F("In", InOm, "squash"), F("Note", U32, "other,omit"), F("Q", U8), F("InOm", InOm, embed=True))
EmbPtr = Struct("EmbPtr", F("H", U8), F("Small", Ptr(Small), embed=True), F("T", U8))
EmbList = Struct("EmbList", F("A", U8), F("Bytes3_g2", Bytes(3, 2), embed=True))
PtrAll = Struct("PtrAll", F("A", Ptr(U8)), F("B", Ptr(U16)), F("C", Ptr(U64)), F("D", Ptr(B)), F("E", Ptr(BytesN(4))), F("G", Ptr(Bitvec(9))), F("H", Ptr(Vec(U16, 2))), F("I", Ptr(Vec(Small, 2))))
PtrVar = Struct("PtrVar", F("A", Ptr(Bytes(3, 2))), F("B", Ptr(List(U16, 3, 1))), F("C", Ptr(Bitlist(9, 3))), F("D", U8), F("E", Ptr(Ptr(Var2))), F("G", Ptr(U32)))
PtrLL = Struct("PtrLL", F("A", Ptr(List(Bytes(2, 1), 2, 1))), F("B", Ptr(List(Ptr(Small), 2, 2))))
EmbDeep = Struct("EmbDeep", F("H", U8), F("Sq2", Sq2, embed=True), F("V", U16), F("K", Small, "squash"))
Un = Struct("Un", F("a", U8), F("b", Bytes(3, 2)), F("c", Small))

catalogue = []



def D(t, dec=None, decT=None, tier="", fam=""):
    catalogue.append((t, dec, decT, tier, fam))


# name, decode bound quick/thorough (bytes), tier
for t in (U8, U16, U32, U64, B):
    D(t)
D(Slot, tier="thorough"); D(Flag, tier="thorough")
for n in (1, 32, 33, 65):
    D(BytesN(n))
for n in (4, 31, 64, 96):
    D(BytesN(n), tier="thorough")
D(Vec(U16, 3)); D(Vec(B, 3)); D(Vec(U64, 5)); D(Vec(U32, 8), tier="thorough"); D(Vec(B, 33), tier="thorough"); D(Vec(Slot, 2), tier="thorough"); D(Vec(U64, 4), tier="thorough"); D(Vec(U16, 17), tier="thorough")
D(Vec(Small, 2)); D(Vec(BytesN(32), 3)); D(Vec(BytesN(4), 3), tier="thorough")
D(Vec(Bytes(3, 2), 2), 12, 14); D(Vec(Var2, 1), 12, 14, tier="thorough"); D(Vec(List(U16, 3, 1), 3), 16, 18, tier="thorough")
D(Vec(Ptr(Small), 2), tier="thorough"); D(Vec(Vec(U16, 2), 2)); D(Vec(Bitvec(9), 2), tier="thorough"); D(Vec(Bitlist(9, 9), 2), 11, 12, tier="thorough")
for n in (1, 8, 9, 256, 257):
    D(Bitvec(n))
for n in (7, 15, 16, 17, 255, 512):
    D(Bitvec(n), tier="thorough")
for n in (1, 7, 8, 9):
    D(Bitlist(n, n), 3, 4)
D(Bitlist(16, 16), 4, 4, tier="thorough"); D(Bitlist(15, 15), 4, 4, tier="thorough"); D(Bitlist(17, 17), 4, 5, tier="thorough"); D(Bitlist(0, 0), 2, 3, tier="thorough")
D(Bitlist(256, 256), 34, 34, fam="big"); D(Bitlist(255, 255), 34, 34, tier="thorough", fam="big"); D(Bitlist(257, 257), 35, 35, tier="thorough", fam="big"); D(Bitlist(513, 513), 66, 66, tier="thorough", fam="big")
D(Bytes(3), 5, 6); D(Bytes(33, 33), 35, 36, fam="big"); D(Bytes(65, 65), 67, 68, tier="thorough", fam="big"); D(Bytes(32, 32), 34, 36, tier="thorough", fam="big"); D(Bytes(1), 3, 4, tier="thorough"); D(Bytes(0), 2, 2, tier="thorough")
D(List(B, 5, 5), 7, 8); D(List(U16, 4, 4), 10, 12); D(List(U64, 5, 5), 44, 50); D(List(U32, 3, 3), 14, 16, tier="thorough"); D(List(U32, 9, 9), 40, 44, tier="thorough"); D(List(U16, 17, 17), 38, 40, tier="thorough"); D(List(B, 33, 33), 35, 36, tier="thorough", fam="big"); D(List(Slot, 3, 3), 25, 33, tier="thorough"); D(List(Flag, 3, 3), 4, 6, tier="thorough"); D(List(U16, 0, 0), 2, 4, tier="thorough")
D(List(Small, 3, 3), 11, 13); D(List(BytesN(32), 5, 5), 165, 165, fam="big"); D(List(BytesN(4), 3, 3), 14, 17, tier="thorough"); D(List(Bitvec(9), 3, 3), 8, 9, tier="thorough")
D(List(Bytes(2, 2), 3, 2), 12, 14); D(List(List(U16, 2, 2), 2, 2), 13, 15); D(List(Bitlist(3, 3), 2, 2), 10, 12, tier="thorough"); D(List(Var2, 2, 2), 14, 20, tier="thorough"); D(List(Ptr(Small), 2, 2), 7, 8); D(List(Vec(Bytes(2, 1), 2), 2, 1), 14, 16, tier="thorough"); D(List(List(Bytes(2, 1), 2, 1), 2, 1), 12, 14, tier="thorough")
D(List(Vec(U16, 2), 3, 3), 13, 14, tier="thorough"); D(List(Ptr(Var2), 2, 1), 12, 14, tier="thorough")
D(One); D(Small, tier="thorough"); D(Fix3); D(FixBig); D(Nine)
D(Var1, 9, 12); D(Var2, 11, 13); D(Var2Only, 12, 14, tier="thorough"); D(VarMix, 19, 21); D(VarNest, 20, 26, tier="thorough"); D(Five, 49, 50, tier="thorough")
D(PtrS, 16, 18); D(PtrB, 12, 13, tier="thorough")
D(Sq1, 11, 13, fam="squash"); D(Sq2, 17, 19, fam="squash"); D(Emb1, 11, 13, fam="squash"); D(Emb2, 17, 18, fam="squash", tier="thorough"); D(Om1, 9, 11, fam="squash"); D(Om2, fam="squash"); D(EmbPtr, fam="squash"); D(EmbList, 8, 9, fam="squash", tier="thorough"); D(Un, 12, 13, fam="squash", tier="thorough")
D(EmbDeep, 21, 23, fam="squash", tier="thorough")
D(PtrAll, fam="ptr"); D(PtrVar, 29, 31, fam="ptr"); D(PtrLL, 14, 16, fam="ptr")
D(Ptr(U32), fam="ptr"); D(Ptr(Bytes(3, 2)), 5, 6, fam="ptr"); D(Ptr(Var2), 11, 13, fam="ptr"); D(Ptr(Ptr(Small)), fam="ptr")

def fixedlen(t):
    if isinstance(t, Uint): return t.n
    if isinstance(t, Bool): return 1
    if isinstance(t, BytesN): return t.n
    if isinstance(t, Bitvec): return (t.n + 7) // 8
    if isinstance(t, Ptr): return fixedlen(t.e)
    if isinstance(t, Vec):
        e = fixedlen(t.e)
        return None if e is None else e * t.n
    if isinstance(t, Struct):
        s = 0
        for _, f in t.leaves():
            e = fixedlen(f)
            if e is None: return None
            s += e
        return s
    return None



# ---- a wider catalogue: every kind of element in every kind of position ----


def isbasic(t):
    return isinstance(t, (Uint, Bool))


def dsize(t):
    """length of inputs: room for a short value of every part, and a byte more in one"""
    n = fixedlen(t)
    if n is not None:
        return n
    if isinstance(t, Ptr):
        return dsize(t.e)
    if isinstance(t, Bytes):
        return min(t.limit, 1)
    if isinstance(t, Bitlist):
        return min(t.limit // 8 + 1, 1)
    if isinstance(t, List):
        e = fixedlen(t.e)
        k = min(t.limit, 2 if isbasic(t.e) and fixedlen(t.e) < 8 else 1)
        return k * e if e is not None else k * (4 + dsize(t.e))
    if isinstance(t, Vec):
        return t.n * (4 + dsize(t.e))
    s = 0
    for _, f in t.leaves():
        e = fixedlen(f)
        s += e if e is not None else 4 + dsize(f)
    return s


def parts(t):
    """number of parts of variable size in an input of dsize(t)"""
    if isinstance(t, Ptr):
        return parts(t.e)
    if isinstance(t, (Bytes, Bitlist)):
        return 1
    if isinstance(t, List):
        return 1 + (parts(t.e) if fixedlen(t.e) is None else 0)
    if isinstance(t, Vec):
        return t.n * parts(t.e)
    if isinstance(t, Struct):
        return sum(parts(f) for _, f in t.leaves())
    return 0


slow = set()  # inputs of these are left to the thorough tier


def X(t, more=None, **k):
    if t.key not in [c[0].key for c in catalogue]:
        p = parts(t)
        if more is None:
            more = 2 if p < 3 else 1
        more = min(more, 2 if p < 4 else 1 if p < 6 else 0)
        n = dsize(t) + more
        D(t, n, n + 1, **k)
        if p > 4 or n > 1000:
            slow.add(t.key)


EL = [U8, U16, U32, U64, B, BytesN(4), BytesN(32), BytesN(33), Bitvec(1), Bitvec(9), Bitvec(17), Bitlist(9, [0, 1, 8, 9]), Bytes(5, [0, 1, 3]), List(U16, 3, [0, 1, 2]), List(B, 3, [0, 2]), List(U64, 5, [0, 1]),
      Vec(U16, 3), Vec(B, 2), Small, Var1, Var2Only, Ptr(Small), Ptr(Var2), Ptr(Bytes(3, 1)), List(Small, 3, [0, 1, 2]), List(Bytes(2, 1), 3, [0, 2]), Vec(Bytes(3, 1), 2), Vec(Small, 2)]
for e in EL:
    k = e.key
    X(Struct("S1_" + k, F("A", e)))
    X(Struct("S3_" + k, F("A", U8), F("B", e), F("C", U16)))
    if fixedlen(e) is None:
        X(Struct("SV_" + k, F("A", e), F("B", Bytes(2, 1)), F("C", e)))
        X(Struct("SP_" + k, F("A", Bytes(2, 1)), F("B", Ptr(e)), F("C", U8)), fam="ptr")
    else:
        X(Struct("SV_" + k, F("A", e), F("B", Bytes(2, 1)), F("C", e), F("D", Bytes(2, 1))))
        X(Struct("SP_" + k, F("A", U8), F("B", Ptr(e)), F("C", Bytes(2, 1))), fam="ptr")
    if not (isinstance(e, Uint) and e.n == 1):
        X(Vec(e, 1))
        X(Vec(e, 2))
        X(List(e, 4, [0, 1, 2]))
        if not isbasic(e):
            X(List(e, 1 << 33, [0, 1]))
            X(Vec(Vec(e, 1), 2))
            X(List(Vec(e, 2), 2, [0, 1]))
            X(List(List(e, 2, [0, 1]), 2, [0, 2]))
            X(Struct("Sq_" + k, F("H", U16), F("I", Struct("SqI_" + k, F("X", e), F("Y", Bytes(2, 1))), "squash"), F("T", e)), fam="squash")
            X(Struct("Em_" + k, F("EmI_" + k, Struct("EmI_" + k, F("X", U8), F("Y", e)), embed=True), F("T", Bytes(2, 1))), fam="squash")
# bit lengths
for n in list(range(1, 25)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 248, 249, 511, 513]:
    X(Bitvec(n))
for n in (2, 3, 6, 10, 23, 24, 25, 31, 32, 33):
    X(Bitlist(n, sorted({0, 1, n - 1, n})), 3)
for n in (64, 248, 255, 256, 257, 264, 511, 512, 513, 768, 1024, 1 << 40):
    X(Bitlist(n, sorted(x for x in {0, 1, 7, 8, 9, 247, 248, 255, 256, 257, 264, 511, 512, 513} if x <= n)), 34 if n <= 512 else 2)
# byte lengths
for n in (2, 3, 5, 8, 16, 20, 30, 48, 63, 95, 97, 128, 129):
    X(BytesN(n))
for n in (2, 31, 64, 96, 100, 128, 160, 1 << 33):
    X(Bytes(n, sorted(x for x in {0, 1, 30, 31, 32, 33, 63, 64, 65, 95, 96, 97, 100, 128, 129, 160} if x <= n)), 66 if n <= 64 else 4)
# chunk boundaries of packed values
for e, n in ((U16, 15), (U16, 16), (U32, 7), (U32, 9), (U64, 3), (U64, 8), (U64, 9), (B, 31), (B, 32), (B, 64), (B, 65), (U16, 33), (U64, 17)):
    X(Vec(e, n))
for e, n, ls in ((U16, 16, [0, 15, 16]), (U16, 33, [0, 16, 17, 32, 33]), (U32, 8, [0, 7, 8]), (U32, 17, [0, 8, 9, 16, 17]), (U64, 4, [0, 3, 4]), (U64, 16, [0, 1, 4, 5, 8, 9, 13, 16]), (U64, 1 << 40, [0, 1, 4, 5]), (U16, 1 << 32, [0, 1]), (B, 32, [0, 31, 32]), (B, 64, [0, 33, 64]), (U32, 1 << 50, [0, 3])):
    X(List(e, n, ls), 4)
# numbers of elements
for n in (3, 4, 5, 7, 8, 9, 16, 17):
    X(Vec(Small, n))
    X(List(Small, n, sorted({0, 1, n - 1, n})), 4)
    X(Struct("Many%d" % n, *[F("F%d" % i, U16) for i in range(n)]))
for n in (3, 5, 9):
    X(Struct("ManyVar%d" % n, *[F("F%d" % i, Bytes(2, [0, 2] if n < 9 and i < 3 else [1])) for i in range(n)]), 2)
    X(Vec(Bytes(2, [1]), n), 1)
    X(List(Bytes(2, [1]), n, [0, n - 1, n]), 2)
for n in (17, 33, 70):
    X(Struct("ManyVar%d" % n, *[F("F%d" % i, Bytes(2, [1]) if i % 3 else List(U16, 2, [1])) for i in range(n)]), 0)
# limits of parts beyond 32 bits
for e in (Bytes((1 << 32) + 5, 1), List(U64, (1 << 32) + 5, 1), Bitlist((1 << 35) + 5, 3), List(Small, 1 << 31, 1), List(Bytes(2, 1), 1 << 30, 1)):
    X(Vec(e, 3), 1); X(List(e, 5, [0, 2]), 1); X(Struct("SF_" + e.key, F("A", e), F("B", Vec(e, 1)), F("C", U8)), 1); X(List(List(e, 3, [0, 1]), 1 << 20, [0, 1]), 1)
for l in (1, 2, 3, 5, 8, 9, 1 << 20, 1 << 32, 1 << 40):
    X(List(Small, l, [0, 1]))
    X(List(Bytes(2, 1), l, [0, 1]))
# layout in memory
X(Struct("Pad1", F("A", U8), F("B", U64), F("C", U8), F("D", U32), F("E", B), F("G", U16)))
Pad2 = Struct("Pad2", F("A", B), F("B", U64), F("C", B))
X(Pad2); X(Vec(Pad2, 3)); X(List(Pad2, 3, [0, 1, 3])); X(Vec(Vec(Pad2, 2), 2)); X(List(Vec(Pad2, 2), 2, [0, 2]))
X(Vec(Ptr(Pad2), 2)); X(Vec(Ptr(Var2), 2)); X(List(Ptr(Bytes(3, 1)), 3, [0, 1, 2])); X(Vec(Ptr(BytesN(32)), 2)); X(List(Ptr(Vec(U16, 2)), 3, [0, 2]))
Oct = Uint(1, "Oct")
Half, Word = Uint(2, "Half"), Uint(4, "Word")
X(Oct); X(Half); X(Word)
X(BytesN(5, Oct)); X(Bytes(5, [0, 1, 5], Oct)); X(Vec(Half, 3)); X(List(Word, 3, [0, 1, 3])); X(Vec(Flag, 3)); X(Struct("Named", F("A", Oct), F("B", Half), F("C", Flag), F("D", Bytes(5, [0, 1, 5], Oct))))
# deep nesting
d = Bytes(2, 1)
for i in range(4):
    d = List(d, 2, [0, 1])
X(d)
d = U16
for i in range(4):
    d = Struct("Deep%d" % i, F("A", d))
X(d)
d = Bytes(2, 1)
for i in range(4):
    d = Struct("DeepV%d" % i, F("A", U8), F("B", d))
X(d)
d = Small
for i in range(3):
    d = Vec(d, 2)
X(d)
X(Ptr(Ptr(Ptr(Var1))), fam="ptr")
# squashing at several levels, next to variable-size and omitted fields
L0 = Struct("L0", F("A", U8), F("B", Bytes(2, 1)))
L1 = Struct("L1", F("Z", U16), F("L0", L0, embed=True), F("N", U32, "omit"), F("Y", B))
L2 = Struct("L2", F("L1", L1, "squash"), F("M", U64, "omit"), F("P", Ptr(Small)))
L3 = Struct("L3", F("Q", U8), F("L2", L2, embed=True), F("R", L0, "x,squash"))
X(L1, fam="squash"); X(L2, fam="squash"); X(L3, fam="squash")
X(Struct("TwoIn", F("A", Small, "squash"), F("B", Struct("Small2", F("C", U16), F("D", U8)), "squash")), fam="squash")
X(List(L1, 2, [0, 1]), fam="squash"); X(Vec(Om1, 2), fam="squash"); X(Vec(InOm, 3), fam="squash"); X(List(InOm, 3, [0, 1, 3]), fam="squash")
X(Struct("OmAll", F("A", U8, "omit"), F("B", U16), F("C", Bytes(2, 1), "omit"), F("D", Ptr(U8), "omit")), fam="squash")
X(Struct("SqEmb", F("Fix3", Fix3, embed=True, tag="squash"), F("V", List(U16, 3, [0, 1]))), fam="squash")
X(Struct("SqFix", F("A", U8), F("I", FixBig, "squash"), F("Z", U64)), fam="squash")
EmbOmit = Struct("EmbOmit", F("H", U8), F("Small", Small, embed=True, tag="omit"), F("In1", In1, embed=True), F("T", U8))
X(EmbOmit, fam="squash")
X(Struct("TagNear", F("A", U8, "omittable"), F("B", U16, "noomit"), F("C", Small, "squashed"), F("D", Small, "nosquash"), F("Fix3", Fix3, embed=True, tag="other"), F("E", U8, "Omit"), F("G", U16, " omit"), F("H", Small, "squash "), F("I", U8, "omi"), F("J", Bytes(2, 1), "squas,omi")), fam="squash")
X(Struct("OmFirst", F("H", BytesN(7), "omit"), F("L", Bytes(2, 1)), F("I", Small, "squash,omit"), F("A", U32), F("J", Small, "omit,squash"), F("M", Bytes(2, 1)), F("K", U64, "omit")), fam="squash")
Hid = Struct("Hid", F("X", U64, "omit"))
X(Struct("SqHid", F("A", U8), F("Hid", Hid, embed=True), F("I", Hid, "squash"), F("B", U16)), fam="squash")
X(Struct("SqTwice", F("A", In1, "squash"), F("In1", In1, embed=True), F("B", In1)), 1, fam="squash")
X(Struct("SqPtrIn", F("P", Ptr(Om1)), F("S", Struct("SqPtrI", F("Q", Ptr(U16)), F("N", U16, "omit"), F("R", Ptr(Small))), "squash")), fam="squash")
X(Vec(EmbOmit, 2), 1, fam="squash"); X(List(L3, 2, [0, 1]), 0, fam="squash"); X(Ptr(L2), fam="ptr")
X(Struct("SqDeep", F("A", Struct("SqDeep1", F("B", Struct("SqDeep2", F("C", Struct("SqDeep3", F("X", U8), F("D", U32, "omit"), F("Y", Bytes(2, 1))), "squash"), F("E", B)), "squash"), F("Small", Small, embed=True)), "squash"), F("Z", Bytes(2, 1))), fam="squash")
# long values
for t, n in ((BytesN(1000), 0), (Bytes(1 << 20, [1000, 1024]), 0), (Bitlist(4096, [2047, 2048, 4095, 4096]), 0), (List(U64, 4096, [300]), 0), (Vec(U64, 300), 0), (Vec(U16, 1000), 0), (List(Small, 100, [99, 100]), 0), (Vec(Small, 70), 0), (Vec(BytesN(32), 65), 0),
             (List(BytesN(32), 128, [65, 128]), 0), (Vec(Bytes(2, [1]), 33), 0), (List(Bytes(2, [1]), 64, [33, 64]), 0), (Bitvec(4097), 0), (Bitvec(8192), 0), (List(B, 300, [257, 300]), 0), (Vec(B, 300), 0), (List(U32, 1 << 30, [129]), 0), (Struct("Many70", *[F("F%d" % i, Bytes(2, [1]) if i % 7 == 3 else U16) for i in range(70)]), 0)):
    X(t, n)
for t in (List(U64, 1024, [16, 17, 36, 37, 64, 65]), List(U32, 1024, [32, 33, 40, 41, 64, 65]), List(U16, 1024, [32, 33, 48, 49, 64, 65, 128, 129]), List(B, 1024, [0, 32, 64, 65, 96, 97, 128, 129]),
          Vec(U64, 37), Vec(U16, 49), Vec(B, 97), Vec(U32, 41), Vec(B, 96), Vec(B, 128), Bitlist(2048, [767, 768, 769, 1023, 1024, 1025]), Bitvec(768), Bitvec(769), Bitvec(1024), Bytes(1000, [191, 192, 193, 255, 256, 257]), BytesN(192), BytesN(256),
          Vec(U32, 1100), List(U64, 1 << 20, [520]), Bytes(1 << 14, [4096, 4097]), Bitlist(40000, [33000]), List(U16, 5000, [2049]), BytesN(8192), Vec(BytesN(48), 128)):
    X(t, 0)
    slow.discard(t.key)
# structures as clients of the library declare them
R32, Sig = BytesN(32), BytesN(96)
Checkpoint = Struct("Checkpoint", F("Epoch", U64), F("Root", R32))
AttData = Struct("AttData", F("Slot", Slot), F("Index", U64), F("BlockRoot", R32), F("Source", Checkpoint), F("Target", Checkpoint))
CB = Bitlist(2048, [0, 1, 9])
Attestation = Struct("Attestation", F("Bits", CB), F("Data", AttData), F("Custody", CB), F("Signature", Sig))
IndexedAtt = Struct("IndexedAtt", F("Bit0", List(U64, 2048, [0, 2])), F("Bit1", List(U64, 2048, [0, 1])), F("Data", AttData), F("Signature", Sig))
Header = Struct("Header", F("Slot", U64), F("Parent", R32), F("State", R32), F("Body", R32), F("Signature", Sig))
Validator = Struct("Validator", F("Pubkey", BytesN(48)), F("Creds", R32), F("Balance", U64), F("Slashed", B), F("Elig", U64), F("Act", U64), F("Exit", U64), F("Withd", U64))
Fork = Struct("Fork", F("Prev", BytesN(4)), F("Cur", BytesN(4)), F("Epoch", U64))
DepData = Struct("DepData", F("Pubkey", BytesN(48)), F("Creds", R32), F("Amount", U64), F("Signature", Sig))
Deposit = Struct("Deposit", F("Proof", Vec(R32, 33)), F("Data", DepData))
Eth1 = Struct("Eth1", F("Root", R32), F("Count", U64), F("Hash", R32))
ProposerSl = Struct("ProposerSl", F("Index", U64), F("H1", Header), F("H2", Header))
AttSl = Struct("AttSl", F("A1", IndexedAtt), F("A2", IndexedAtt))
Body = Struct("Body", F("Randao", Sig), F("Eth1", Eth1), F("Graffiti", R32), F("Prop", List(ProposerSl, 16, [0, 1])), F("Atts", List(Attestation, 128, [0, 1])), F("Deps", List(Deposit, 16, [0])))
StateLite = Struct("StateLite", F("Genesis", U64), F("Fork", Fork), F("Header", Header), F("Roots", Vec(R32, 4)), F("Hist", List(R32, 1 << 24, [0, 2])), F("Vals", List(Validator, 1 << 40, [0, 1])), F("Bals", List(U64, 1 << 40, [0, 3])), F("Just", Bitvec(4)), F("Fin", Checkpoint))
for t in (Checkpoint, AttData, Header, Validator, Fork, DepData, Eth1, ProposerSl):
    X(t)
for t in (Attestation, IndexedAtt, Deposit, AttSl, Body, StateLite):
    X(t, 1)
slow.update(("AttSl", "Body", "StateLite"))

# limits given by a symbolic value
SY = [Bytes("SYM", 3), List(U16, "SYM", 3), List(B, "SYM", 3), List(U64, "SYM", 2), List(U32, "SYM", 2), List(Small, "SYM", 3), List(BytesN(32), "SYM", 3), List(Bytes(2, 2), "SYM", 2), Bitlist("SYM", 10)]
for t in SY:
    D(t, 12, 16, fam="sym")

emit("// Code generated by tools/gen_types.py; DO NOT EDIT.\n\npackage main\n\nimport (\n\t\"github.com/protolambda/zssz\"\n\t\"github.com/protolambda/zssz/bitfields\"\n\t\"github.com/protolambda/zssz/types\"\n)\n")
for t, *_ in catalogue:
    t.prep()


emit("var Types = []*TypeDef{")
for t, dec, decT, tier, fam in catalogue:
    n = fixedlen(t)
    if n is not None:
        dec = decT = n + 1
    assert dec, t.key
    if t.key in slow:
        dec = 0
    emit('\t{Name: "%s", Tier: "%s", Fam: "%s", Parts: %d, Dec: %d, DecT: %d, Sch: sch_%s, New: func() any { return new(%s) }, Set: func(p any, v *Val) { set_%s(p.(*%s), v) }, Get: func(p any) *Val { return get_%s(p.(*%s)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*%s)(nil)) }},' % (
        t.key, tier, fam, parts(t), dec, decT, t.key, t.go, t.key, t.go, t.key, t.go, t.go))
emit("}")

# omitted fields
emit("var Omits = map[string]func(any) []any{")
for t, *_ in catalogue:
    if isinstance(t, Struct) and t.omitted():
        emit('\t"%s": func(q any) []any { p := q.(*%s); return []any{%s} },' % (t.key, t.go, ", ".join("&p.%s" % p for p, _ in t.omitted())))
emit("}")
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "types_gen.go")
open(p, "w").write("\n".join(out) + "\n")
os.system("gofmt -w " + p)
print(len(catalogue), "types")
