"""Loading of clang's JSON AST: the mechanical extraction step.

The C++ that is verified is never transcribed: every run asks clang++ for the
AST of the current /repo sources (via a small translation unit under
/verif/tu that only #includes them and forces template instantiations), and
everything downstream works on that AST.
"""
import json, os, re, subprocess, tempfile, hashlib

CLANG = os.environ.get("CV_CLANG", "clang++-20")
REPO = os.environ.get("CV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class ExtractionError(Exception):
    pass


FUNC_KINDS = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl")
REC_KINDS = ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl")


def name_unnamed_namespaces(text):
    """`namespace {` -> `inline namespace gcs_unnamed {` (same visibility, only
    linkage differs) so that clang's AST filter can select its members."""
    return re.sub(r"(?<![\w:])namespace(\s*)\{", r"inline namespace gcs_unnamed\1{", text)


def clang_ast(source_text, tag, extra=(), sources=(), filemap=None, texts=None):
    """Run clang on the given TU text; returns list of top-level JSON decls."""
    with tempfile.TemporaryDirectory(prefix="cv_") as td:
        src = os.path.join(td, tag + ".cc")
        for k, sname in enumerate(sources):
            p = os.path.join(REPO, sname)
            if not os.path.exists(p):
                raise ExtractionError("source file missing: " + p)
            q = os.path.join(td, "src_%d.cc" % k)
            txt = name_unnamed_namespaces(open(p).read())
            with open(q, "w") as f:
                f.write(txt)
            if texts is not None:
                texts[p] = txt.encode()
            extra = list(extra) + ["-iquote", os.path.dirname(p)]
            filemap[q] = p
            source_text = source_text.replace("@SRC%d@" % k, '#include "%s"' % q)
        with open(src, "w") as f:
            f.write(source_text)
        if texts is not None:
            texts[src] = source_text.encode()
        out = os.path.join(td, "ast.json")
        cmd = [CLANG, "-std=c++23", "-DGCS_VERIFY", "-I" + REPO, "-I" + os.path.join(VERIF, "shim"),
               "-w", "-fsyntax-only", "-ferror-limit=20", "-Xclang", "-ast-dump=json",
               "-Xclang", "-ast-dump-filter=gcs", *extra, src]
        with open(out, "w") as f:
            p = subprocess.run(cmd, stdout=f, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise ExtractionError("clang rejected the translation unit %s:\n%s" % (tag, p.stderr[-3000:]))
        s = open(out).read()
    d = json.JSONDecoder()
    i, tops, n = 0, [], len(s)
    while True:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            break
        o, i = d.raw_decode(s, i)
        tops.append(o)
    return tops


class TU:
    """Index over one translation unit's AST."""

    def __init__(self, tag, includes=(), sources=(), extra_text="", defines=()):
        """includes: header names; sources: /repo-relative .cc files whose text
        is pulled in (with unnamed namespaces given a name); extra_text: forced
        instantiations."""
        text = "".join("#define %s\n" % d for d in defines)
        text += "".join("#include <%s>\n" % h for h in includes)
        self.files = {}
        self.texts = {}
        for k in range(len(sources)):
            text += "@SRC%d@\n" % k
        text += extra_text
        self.tops = clang_ast(text, tag, sources=sources, filemap=self.files, texts=self.texts)
        self.decls = {}
        self.funcs = {}  # qname -> [decl with body]
        self.records = {}  # qname -> decl
        self.enums = {}
        self.aliases = {}  # qname -> type string
        self.globals = {}
        self.specs = {}  # class template -> [(argument strings, record name)]
        self._file = None
        self._line = None
        for t in self.tops:
            self._locs(t)
        for t in self.tops:
            self._index(t, "", None)
        self.canon = {}
        self._orphans()
        self._link()

    # ---- locations are delta-encoded in document order
    def _locs(self, n):
        stack = [n]

        def upd(o):
            if not isinstance(o, dict):
                return None
            if "spellingLoc" in o:
                upd(o["spellingLoc"])
                return upd(o["expansionLoc"])
            if "file" in o:
                self._file = o["file"]
            if "line" in o:
                self._line = o["line"]
            if o:
                return (self.files.get(self._file, self._file), self._line)
            return None

        def rec(x):
            l = upd(x.get("loc"))
            b = None
            r = x.get("range")
            if r:
                b = upd(r.get("begin"))
                upd(r.get("end"))
            x["_loc"] = l or b
            # members are printed in the order they occur in the object
            for k, v in x.items():
                if k in ("inner",):
                    for c in v:
                        if c:
                            rec(c)

        import sys
        sys.setrecursionlimit(100000)
        rec(n)

    def _index(self, n, scope, parent):
        k = n.get("kind")
        if k is None:
            return
        i = n.get("id")
        if "loc" not in n and self.decls.get(i, {}).get("loc") is not None:
            return   # a bare mention of a declaration that was printed in full elsewhere
        if i is not None and k.endswith("Decl"):
            self.decls[i] = n
        n["_parent"] = parent
        name = n.get("name")
        sc = scope
        if k in FUNC_KINDS or k in REC_KINDS or k in ("NamespaceDecl", "EnumDecl", "TypeAliasDecl", "TypedefDecl", "VarDecl",
                                                      "FunctionTemplateDecl", "ClassTemplateDecl", "EnumConstantDecl", "FieldDecl"):
            pd = n.get("parentDeclContextId")
            if pd and pd in self.decls and self.decls[pd].get("_q") is not None and k != "EnumConstantDecl":
                base = self.decls[pd]["_q"]
            elif n.get("previousDecl") in self.decls:
                base = self.decls[n["previousDecl"]]["_q"].rpartition("::")[0]
            else:
                base = scope
            if name is None:
                q = base + "::(anon)" if k in REC_KINDS or k == "NamespaceDecl" else base
            else:
                if name == "gcs_unnamed":
                    q = base
                else:
                    q = (base + "::" if base else "") + name
            n["_q"] = q
            if k == "NamespaceDecl" or k in REC_KINDS or k == "EnumDecl":
                sc = q
            elif k in FUNC_KINDS:
                sc = q
            if k in FUNC_KINDS:
                n["_body"] = next((c for c in n.get("inner", []) if c.get("kind") in ("CompoundStmt", "CXXTryStmt", "CoroutineBodyStmt")), None)
                if n["_body"] is not None and n["_body"]["kind"] == "CoroutineBodyStmt":
                    n["_coro"] = True
                    n["_body"] = next((c for c in n["_body"].get("inner", []) if c and c.get("kind") == "CompoundStmt"), None)
                n["_params"] = [c for c in n.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        for c in n.get("inner", []):
            if c:
                if k in ("FunctionTemplateDecl", "ClassTemplateDecl"):
                    self._index(c, scope if not n.get("_q") else n["_q"].rpartition("::")[0], n)
                else:
                    self._index(c, sc, n)

    def _orphans(self):
        """members of a specialisation of a library class template (such as
        std::formatter) are dumped without their class: give them one back"""
        def this_type(n):
            if n.get("kind") == "CXXThisExpr":
                return n["type"]["qualType"]
            for c in n.get("inner", []):
                if c:
                    r = this_type(c)
                    if r:
                        return r
            return None
        fields, recs = [], {}
        for t in self.tops:
            k = t.get("kind")
            if k == "CXXRecordDecl" and t.get("isImplicit"):
                fields = []
            elif k == "FieldDecl":
                fields.append(t)
            elif k == "CXXMethodDecl" and t.get("_parent") is None and t.get("parentDeclContextId") not in self.decls and t.get("_body") is not None and t.get("_q") == t.get("name"):
                c = this_type(t["_body"])
                if not c:
                    continue
                c = c.rstrip("* ").removeprefix("const ").strip()
                if c not in recs:
                    recs[c] = {"kind": "CXXRecordDecl", "id": "synthetic:" + c, "name": c, "_q": c, "_rn": c, "completeDefinition": True, "_parent": None, "inner": list(fields), "_loc": t.get("_loc")}
                    self.decls[recs[c]["id"]] = recs[c]
                recs[c]["inner"].append(t)
                t["_parent"] = recs[c]
                t["_q"] = c + "::" + t["name"]

    def _link(self):
        for i, n in list(self.decls.items()):
            k = n["kind"]
            if k in FUNC_KINDS:
                n["_root"] = self.root(i)
                if n.get("_body") is not None:
                    par = n.get("_parent") or {}
                    # the uninstantiated pattern of a template is skipped
                    if par.get("kind") == "FunctionTemplateDecl" and self._is_pattern(n, par):
                        n["_pattern"] = True
                        continue
                    if self._in_pattern_class(n):
                        n["_pattern"] = True
                        continue
                    self.funcs.setdefault(n["_q"], []).append(n)
            elif k in REC_KINDS:
                if n.get("completeDefinition"):
                    if k == "CXXRecordDecl" and (n.get("_parent") or {}).get("kind") == "ClassTemplateDecl":
                        n["_pattern"] = True
                        continue
                    rn = n["_q"]
                    if k == "ClassTemplateSpecializationDecl":
                        args = self._tmpl_args(n)
                        rn = "%s<%s>" % (n["_q"], ", ".join(args))
                        self.specs.setdefault(n["_q"], []).append((args, rn))
                    n["_rn"] = rn
                    self.records.setdefault(rn, n)
                    n["_fields"] = [c for c in n.get("inner", []) if c.get("kind") == "FieldDecl"]
            elif k == "EnumDecl":
                self.enums[n["_q"]] = n
            elif k in ("TypeAliasDecl", "TypedefDecl"):
                self.aliases.setdefault(n["_q"], n["type"].get("desugaredQualType", n["type"]["qualType"]))
        # bodies by root decl
        self.body_of = {}
        for i, n in self.decls.items():
            if n["kind"] in FUNC_KINDS and n.get("_body") is not None:
                self.body_of.setdefault(n["_root"], n)

    @staticmethod
    def _tmpl_args(n):
        out = []

        def one(c):
            if "type" in c:
                out.append(c["type"].get("desugaredQualType", c["type"]["qualType"]))
            elif "value" in c:
                out.append(str(c["value"]))
            elif c.get("inner") and all(x.get("kind") == "TemplateArgument" for x in c["inner"]):
                for x in c["inner"]:
                    one(x)
            else:
                out.append("?")
        for c in n.get("inner", []):
            if c.get("kind") == "TemplateArgument":
                one(c)
        return out

    def record_of(self, d):
        """record name of the class a member function belongs to"""
        p = d.get("_parent")
        pid = d.get("parentDeclContextId")
        if pid in self.decls and self.decls[pid]["kind"] in REC_KINDS:
            p = self.decls[pid]
        while p is not None and p.get("kind") not in REC_KINDS:
            p = p.get("_parent")
        if p is None:
            return None
        return p.get("_rn") or p["_q"]

    def _is_pattern(self, n, tmpl):
        first = next((c for c in tmpl.get("inner", []) if c.get("kind") in FUNC_KINDS), None)
        return first is n

    def _in_pattern_class(self, n):
        p = n.get("_parent")
        while p is not None:
            if p.get("kind") == "CXXRecordDecl" and (p.get("_parent") or {}).get("kind") == "ClassTemplateDecl":
                return True
            p = p.get("_parent")
        return False

    def root(self, i):
        seen = set()
        while i in self.decls and self.decls[i].get("previousDecl") and i not in seen:
            seen.add(i)
            p = self.decls[i]["previousDecl"]
            if p not in self.decls:
                break
            i = p
        return i

    def text_at(self, n):
        """the token at a declaration's location"""
        l = n.get("loc") or {}
        p = (n.get("_loc") or (None,))[0]
        if p is None or "offset" not in l or "tokLen" not in l:
            return None
        if p not in self.texts:
            try:
                self.texts[p] = open(p, "rb").read()
            except OSError:
                return None
        return self.texts[p][l["offset"]:l["offset"] + l["tokLen"]].decode("utf8", "replace")

    def func_for(self, declid):
        """Definition (with body) of the function that declid declares, if the
        TU has one."""
        if declid not in self.decls:
            return None
        return self.body_of.get(self.root(declid))


def loc(n):
    l = n.get("_loc")
    if not l or not l[0]:
        return "?"
    f = l[0]
    if f.startswith(REPO + "/"):
        f = f[len(REPO) + 1:]
    return "%s:%s" % (f, l[1])
