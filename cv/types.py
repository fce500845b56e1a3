"""C++ types as seen by the verifier, and values as flat maps of solver terms."""
import re
import z3


class Unsupported(Exception):
    """The code uses a construct the extraction does not cover: the function
    is *not* verified (never a violation, never counted as proved)."""


class Ty:
    __slots__ = ("k", "a", "_leaves", "_h")

    def __init__(self, k, *a):
        self.k = k
        self.a = a
        self._leaves = None
        self._h = hash((k, a))

    def __eq__(self, o):
        return isinstance(o, Ty) and self.k == o.k and self.a == o.a

    def __hash__(self):
        return self._h

    def __repr__(self):
        return self.k + ("(" + ",".join(map(str, self.a)) + ")" if self.a else "")


LL = Ty("int", 64, True)
ULL = Ty("int", 64, False)
INT = Ty("int", 32, True)
CHAR = Ty("int", 8, True)
BOOL = Ty("bool")
VOID = Ty("void")
ORD = Ty("ord")  # std::strong_ordering, as -1/0/1
STR = Ty("vec", CHAR)
OPAQUE = Ty("opaque")

_prims = {
    "long long": LL, "long": LL, "unsigned long": ULL, "unsigned long long": ULL, "int": INT,
    "unsigned int": Ty("int", 32, False), "unsigned": Ty("int", 32, False), "char": CHAR, "signed char": CHAR,
    "unsigned char": Ty("int", 8, False), "short": Ty("int", 16, True), "unsigned short": Ty("int", 16, False),
    "bool": BOOL, "void": VOID, "size_t": ULL, "std::size_t": ULL, "ptrdiff_t": LL,
    "double": Ty("opaque"), "float": Ty("opaque"), "uint64_t": ULL, "int64_t": LL, "std::uint64_t": ULL, "uint32_t": Ty("int", 32, False),
    "__int128": Ty("int", 128, True), "unsigned __int128": Ty("int", 128, False),
}


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def strip_cv(s):
    s = s.strip()
    while True:
        t = s
        for pre in ("const ", "volatile ", "struct ", "class ", "enum ", "typename "):
            if s.startswith(pre):
                s = s[len(pre):].strip()
        for suf in (" const", "*const", " volatile", " noexcept"):
            if s.endswith(suf):
                s = s[:-len(suf)].strip() + ("*" if suf == "*const" else "")
        if t == s:
            return s


class Types:
    def __init__(self, tu):
        self.tu = tu
        self.cache = {}
        self.recfields = {}
        self._suffix = {}
        for q in list(tu.records) + list(tu.enums) + list(tu.aliases):
            self._suffix.setdefault(q.rpartition("::")[2], []).append(q)
        self._dts = {}
        self._dtsort = {}
        self._boxed = {}
        self._plain = {}
        self._boxdef = {}
        self.box_axioms = []

    # ---- records that contain themselves through a container: one opaque term
    # with projection functions for the members
    def boxed(self, ty):
        q = ty.a[0]
        if q not in self._boxed:
            self._boxed[q] = False
            self._boxed[q] = any(self._reaches(t, q, {q}) for _, t, _ in self.fields(ty)) if q in self.tu.records else False
        return self._boxed[q]

    def _reaches(self, t, q, seen, inside=False):
        if t.k in ("vec", "opt", "variant", "tuple", "map", "set") or (t.k == "uptr" and inside):
            return any(isinstance(x, Ty) and self._reaches(x, q, seen, inside or t.k == "vec") for x in t.a)
        if t.k == "rec":
            if t.a[0] == q:
                return True
            if t.a[0] in seen or t.a[0] not in self.tu.records:
                return False
            seen.add(t.a[0])
            return any(self._reaches(x, q, seen, inside) for _, x, _ in self.fields(t))
        return False

    def tree(self, ty):
        """a unique_ptr to a record that owns its children through containers of
        such pointers: represented as a null flag and the boxed record"""
        return ty.k == "uptr" and ty.a[0].k == "rec" and (self.boxed(ty.a[0]) or self.plain(ty.a[0]))

    def plain(self, ty):
        """a record that does not own another of its kind"""
        q = ty.a[0]
        if q not in self._plain:
            self._plain[q] = q in self.tu.records and not any(self._owns(t, q, {q}) for _, t, _ in self.fields(ty))
        return self._plain[q]

    def _owns(self, t, q, seen):
        if t.k == "rec":
            if t.a[0] == q:
                return True
            if t.a[0] in seen or t.a[0] not in self.tu.records:
                return False
            seen.add(t.a[0])
            return any(self._owns(x, q, seen) for _, x, _ in self.fields(t))
        return t.k != "ptr" and any(isinstance(x, Ty) and self._owns(x, q, seen) for x in t.a)

    def boxsort(self, ty):
        return z3.DeclareSort("Box_" + re.sub(r"\W+", "_", ty.a[0]))

    def box(self, ty):
        """(constructor, {path: projection})"""
        q = ty.a[0]
        if q not in self._boxdef:
            lv = [((n,) + p, s) for n, t, _ in self.fields(ty) for p, s in self.leaves(t)]
            nm = re.sub(r"\W+", "_", q)
            B = self.boxsort(ty)
            pr = {p: z3.Function("%s.%s" % (nm, ".".join(p)), B, s) for p, s in lv}
            mk = z3.Function("make_" + nm, *[s for _, s in lv], B)
            self._boxdef[q] = (mk, pr)
            b = z3.Const("b!box", B)
            enums = {}
            for p, s in lv:
                if p[-1] == "#":
                    self.box_axioms.append(z3.ForAll([b], z3.And(pr[p](b) >= 0, pr[p](b) <= (1 << 59)), patterns=[pr[p](b)]))
                if p[-1] not in ("#", "tag") and "[]" not in p and s == z3.IntSort():
                    t = ty
                    for st in p:
                        t = dict((n, x) for n, x, _ in self.fields(t)).get(st) if t is not None and t.k == "rec" else None
                    if t is not None and t.k == "enum":
                        enums[p] = len([c for c in self.tu.enums[t.a[0]].get("inner", []) if c.get("kind") == "EnumConstantDecl"])
                        self.box_axioms.append(z3.ForAll([b], z3.And(pr[p](b) >= 0, pr[p](b) < enums[p]), patterns=[pr[p](b)]))
                if p[-1] == "tag":
                    t = ty
                    for st in p[:-1]:
                        t = dict((n, x) for n, x, _ in self.fields(t))[st] if t.k == "rec" else None
                    self.box_axioms.append(z3.ForAll([b], z3.And(pr[p](b) >= 0, pr[p](b) < len(t.a)), patterns=[pr[p](b)]))
            xs = [z3.Const("x!%d" % i, s) for i, (_, s) in enumerate(lv)]
            ok = [z3.And(x >= 0, x <= (1 << 59)) for x, (p, _) in zip(xs, lv) if p[-1] == "#"]
            ok += [z3.And(x >= 0, x < 2) for x, (p, _) in zip(xs, lv) if p[-1] == "tag"]
            ok += [z3.And(x >= 0, x < enums[p]) for x, (p, _) in zip(xs, lv) if p in enums]
            self.box_axioms.append(z3.ForAll(xs, z3.Implies(z3.And(ok), z3.And([pr[p](mk(*xs)) == x for x, (p, _) in zip(xs, lv)])), patterns=[mk(*xs)]))
        return self._boxdef[q]

    def open(self, v):
        """leaves of a record value (a boxed record's through its projections)"""
        if v.ty.k == "rec" and set(v.lv) == {()} and self.boxed(v.ty):
            return {p: f(v.t) for p, f in self.box(v.ty)[1].items()}
        return v.lv

    def close(self, ty, lv):
        """leaf map of a record of this type, from the leaves of its members"""
        if self.boxed(ty):
            mk, pr = self.box(ty)
            return {(): mk(*[lv[p] for p in pr])}
        return lv

    def find(self, name):
        """Resolve a possibly partially-qualified name to a known record, enum
        or alias."""
        for d in (self.tu.records, self.tu.enums, self.tu.aliases):
            if name in d:
                return name
        last = name.rpartition("::")[2]
        c = [q for q in self._suffix.get(last, []) if q == name or q.endswith("::" + name)]
        c = list(dict.fromkeys(c))
        if len(c) > 1:
            r = [q for q in c if q in self.tu.records or q in self.tu.enums]
            if len(r) >= 1:
                c = r
        if len(c) >= 1:
            return sorted(c, key=len)[0]
        return None

    def spec(self, head, args):
        """record name of a class template specialisation"""
        for q in self.tu.specs:
            if q == head or q.endswith("::" + head.removeprefix("::")) or q.rpartition("::")[2] == head:
                cands = self.tu.specs[q]
                for a, rn in cands:
                    if len(a) >= len(args) and all(self._same_arg(x, y) for x, y in zip(args, a)):
                        return rn
        return None

    def _same_arg(self, x, y):
        if x == y:
            return True
        try:
            a, b = self.parse(x), self.parse(y)
        except Unsupported:
            return False
        return a == b and a.k != "opaque"

    abstract = None   # types with these names are sets of numbers
    opaque = None   # what types with these names contain is left out of account

    def node(self, n):
        t = n["type"]
        return self.parse(t.get("desugaredQualType", t["qualType"]), t["qualType"])

    def parse(self, s, alt=None):
        if s in self.cache:
            return self.cache[s]
        try:
            r = self._parse(s)
        except Unsupported:
            if alt is None or alt == s:
                raise
            r = self._parse(alt)
        self.cache[s] = r
        return r

    def _parse(self, s):
        s = strip_cv(s)
        if self.opaque is not None and self.opaque.match(s):
            return Ty("opaque", s)
        if self.abstract is not None and self.abstract.match(s):
            return Ty("iset")
        if s.endswith("&&"):
            return self._parse(s[:-2])
        if s.endswith("&"):
            return self._parse(s[:-1])
        if s.endswith("*"):
            return Ty("ptr", self._parse(s[:-1]))
        if s in _prims:
            return _prims[s]
        if s.startswith("(lambda at"):
            return Ty("fn", s)
        m = re.match(r"^(.*)\[(\d+)\]$", s)
        if m:
            return Ty("vec", self._parse(m.group(1)))
        if "<" in s and s.endswith(">"):
            i = s.index("<")
            head, args = s[:i].strip(), split_args(s[i + 1:-1])
            h = head.replace("std::__cxx11::", "std::")
            base = h.rpartition("::")[2]
            if base in ("vector", "deque", "initializer_list", "span", "stack", "queue", "list", "priority_queue"):
                return Ty("vec", self._parse(args[0]))
            if base == "small_vector":
                return Ty("vec", self._parse(args[0]))
            if base in ("array", "generator"):   # a generator is the sequence of what it yields
                return Ty("vec", self._parse(args[0]))
            if base in ("basic_string", "basic_string_view"):
                return STR
            if base in ("pair", "tuple"):
                return Ty("tuple", *[self._parse(x) for x in args])
            if base == "uniform_int_distribution":   # its two ends
                x = self._parse(args[0]) if args and args[0] else INT
                return Ty("tuple", x, x)
            if base == "optional":
                return Ty("opt", self._parse(args[0]))
            if base == "variant":
                return Ty("variant", *[self._parse(x) for x in args])
            if base in ("unique_ptr",):
                return Ty("uptr", self._parse(args[0]))
            if base in ("shared_ptr",):
                return Ty("uptr", self._parse(args[0]))
            if base in ("map", "unordered_map"):
                return Ty("map", self._parse(args[0]), self._parse(args[1]))
            if base in ("set", "unordered_set"):
                return Ty("set", self._parse(args[0]))
            if base in ("reference_wrapper",):
                return Ty("ptr", self._parse(args[0]))
            if base in ("function", "move_only_function"):
                return Ty("fn", s)
            if base == "overloaded":
                return Ty("fn", s)
            if base in ("__normal_iterator",):
                return Ty("iter", self._parse(args[0]))
            f = self.spec(head, args)
            if f:
                return Ty("rec", f)
            f = self.find(s) or self.find(head)
            if f and f in self.tu.records:
                return Ty("rec", f)
            if f and f in self.tu.aliases:
                return self._parse(self.tu.aliases[f])
            return Ty("opaque", s)
        if s in ("std::string", "string", "string_view", "std::string_view", "std::basic_string<char>"):
            return STR
        if s in ("std::strong_ordering", "strong_ordering", "std::weak_ordering", "weak_ordering"):
            return ORD
        if s in ("std::nullopt_t", "nullopt_t", "std::nullptr_t", "nullptr_t"):
            return Ty("null")
        if s in ("std::monostate", "monostate", "std::in_place_t"):
            return Ty("tuple")
        f = self.find(s)
        if f:
            if f in self.tu.records:
                return Ty("rec", f)
            if f in self.tu.enums:
                return Ty("enum", f)
            return self._parse(self.tu.aliases[f])
        if s in ("auto", "decltype(auto)"):
            raise Unsupported("undeduced type " + s)
        if s in ("value_type", "size_type", "iterator", "const_iterator", "reference", "const_reference", "key_type", "difference_type"):
            raise Unsupported("unresolved member type " + s)
        return Ty("opaque", s)

    # ------------------------------------------------------------------
    def fields(self, ty):
        """[(name, Ty, decl)] for a record, base-class fields first."""
        q = ty.a[0]
        if q in self.recfields:
            return self.recfields[q]
        n = self.tu.records.get(q)
        if n is None:
            raise Unsupported("record %s is not defined in the extraction" % q)
        out = []
        for b in n.get("bases", []):
            bt = self.parse(b["type"].get("desugaredQualType", b["type"]["qualType"]), b["type"]["qualType"])
            if bt.k == "rec":
                out += self.fields(bt)
            elif bt.k in ("opaque",):
                pass
            else:
                out.append(("base", bt, None))
        for f in n["_fields"]:
            out.append((f.get("name", "anon_%d" % len(out)), self.node(f), f))
        self.recfields[q] = out
        return out

    def datatype(self, elem):
        """Solver datatype for unique_ptr<elem>: nil | node(leaves of elem)."""
        key = elem
        if key in self._dts:
            return self._dts[key]
        # two-phase for recursion
        nm = "P_" + re.sub(r"\W+", "_", str(elem))
        d = z3.Datatype(nm)
        d.declare("nil")
        self._dtsort[key] = z3.DatatypeSort(nm) if hasattr(z3, "DatatypeSort") else None
        lv = self._leaves(elem, rec=key, recd=d)
        flds = [(".".join(map(str, p)) or "_", s) for p, s in lv]
        d.declare("node", *[("g_%d_%s" % (i, re.sub(r"\W+", "_", a)), s) for i, (a, s) in enumerate(flds)])
        srt = d.create()
        self._dts[key] = (srt, [p for p, _ in lv])
        return self._dts[key]

    def leaves(self, ty):
        if ty._leaves is None:
            ty._leaves = self._leaves(ty)
        return ty._leaves

    def _leaves(self, ty, rec=None, recd=None):
        k = ty.k
        L = lambda t: self._leaves(t, rec, recd) if rec is not None else self.leaves(t)
        if k in ("int", "enum", "ord", "null", "opaque"):
            return [((), z3.IntSort())]
        if k == "bool":
            return [((), z3.BoolSort())]
        if k == "iset":
            return [((), z3.ArraySort(z3.IntSort(), z3.BoolSort()))]
        if k == "rec":
            if self.boxed(ty):
                return [((), self.boxsort(ty))]
            return [((n,) + p, s) for n, t, _ in self.fields(ty) for p, s in L(t)]
        if k == "tuple":
            return [((str(i),) + p, s) for i, t in enumerate(ty.a) for p, s in L(t)]
        if k == "vec":
            return [(("#",), z3.IntSort())] + [(("[]",) + p, z3.ArraySort(z3.IntSort(), s)) for p, s in L(ty.a[0])]
        if k == "opt":
            return [(("?",), z3.BoolSort())] + [(("*",) + p, s) for p, s in L(ty.a[0])]
        if k == "variant":
            return [(("tag",), z3.IntSort())] + [(("alt%d" % i,) + p, s) for i, t in enumerate(ty.a) for p, s in L(t)]
        if k == "uptr":
            if self.tree(ty):
                return [(("?",), z3.BoolSort())] + [(("*",) + p, s) for p, s in L(ty.a[0])]
            if rec is not None and ty.a[0] == rec:
                return [((), recd)]
            return [((), self.datatype(ty.a[0])[0])]
        if k == "set":
            if self._keyable(ty.a[0]):
                return [(("in",), z3.ArraySort(z3.IntSort(), z3.BoolSort())), (("n",), z3.IntSort())]
            return [((), z3.IntSort())]
        if k == "map":
            if self._keyable(ty.a[0]):
                return [(("in",), z3.ArraySort(z3.IntSort(), z3.BoolSort())), (("n",), z3.IntSort())] + \
                       [(("at",) + p, z3.ArraySort(z3.IntSort(), s)) for p, s in L(ty.a[1])]
            return [((), z3.IntSort())]
        if k in ("fn", "ptr", "iter", "void"):
            return [((), z3.IntSort())]
        raise Unsupported("no representation for type %s" % ty)

    def _keyable(self, t):
        return t.k in ("int", "enum") or (t.k == "rec" and len(self.leaves(t)) == 1)


def int_range(ty):
    if ty.k == "int":
        b, sg = ty.a
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if sg else (0, (1 << b) - 1)
    if ty.k == "enum":
        return (0, 1 << 16)
    if ty.k == "ord":
        return (-1, 1)
    return None


class Val:
    """A value of type ty: map from leaf path to solver term."""
    __slots__ = ("ty", "lv")

    def __init__(self, ty, lv):
        self.ty = ty
        self.lv = lv

    @property
    def t(self):
        return self.lv[()]

    def __repr__(self):
        return "Val<%s>%s" % (self.ty, self.lv)


def scalar(ty, term):
    if isinstance(term, bool):
        term = z3.BoolVal(term)
    elif isinstance(term, int):
        term = z3.IntVal(term)
    return Val(ty, {(): term})


def sub(lv, key):
    return {p[1:]: t for p, t in lv.items() if p and p[0] == key}


_cnt = [0]


def fresh_name(base):
    _cnt[0] += 1
    return "%s!%d" % (base, _cnt[0])
