"""The generator: built from /repo's current sources, run on the schemas in
harness/gen; the result and a harness made from protoc's own description of the
schemas (not from what was generated) are returned for the engine."""
import os, glob, struct, subprocess, re
from concurrent.futures import ThreadPoolExecutor
from pipeline import *
GEN = os.path.join(HARN, "gen")
FILES = ["first.proto", "second.proto", "lite.proto"]
CXX = "g++"

class Broken(Exception):
    """The generated code does not exist or does not compile."""

# ------------------------------------------------------------ FileDescriptorSet
def fields(b):
    """(number, value) of a message: ints for varints, bytes for the rest."""
    i = 0
    def var():
        nonlocal i
        r = s = 0
        while True:
            c = b[i]; i += 1; r |= (c & 127) << s; s += 7
            if c < 128: return r
    out = []
    while i < len(b):
        k = var(); w = k & 7
        if w == 0: v = var()
        elif w == 2: n = var(); v = b[i:i + n]; i += n
        elif w == 1: v = b[i:i + 8]; i += 8
        else: v = b[i:i + 4]; i += 4
        out.append((k >> 3, v))
    return out
def one(fs, n, d=None):
    r = [v for k, v in fs if k == n]
    return r[-1] if r else d
def text(fs, n): return one(fs, n, b"").decode()
TYPES = {1: ("DOUBLE", "double"), 2: ("FLOAT", "float"), 3: ("INT64", "int64_t"), 4: ("UINT64", "uint64_t"), 5: ("INT32", "int32_t"), 6: ("FIXED64", "uint64_t"), 7: ("FIXED32", "uint32_t"),
         8: ("BOOL", "uint8_t"), 9: ("STRING", "pb_string_t"), 11: ("MESSAGE", None), 12: ("BYTES", "pb_string_t"), 13: ("UINT32", "uint32_t"), 14: ("ENUM", "pb_enum_t"), 15: ("SFIXED32", "int32_t"),
         16: ("SFIXED64", "int64_t"), 17: ("SINT32", "int32_t"), 18: ("SINT64", "int64_t")}
class F: pass
def parse(path):
    """Files with messages (flattened), enumerations and extensions, by full name."""
    files = []
    for n, fb in fields(open(path, "rb").read()):
        ff = fields(fb)
        X = F(); X.name = text(ff, 1); X.pkg = text(ff, 2); X.msgs = []; X.enums = []; X.exts = []
        X.lite = one(fields(one(ff, 8, b"")), 9, 1) == 3
        pre = "." + X.pkg if X.pkg else ""
        def field(b, container, scope, oneofs=()):
            s = fields(b); f = F()
            f.name = text(s, 1); f.tag = one(s, 3); f.label = one(s, 4); f.type = TYPES[one(s, 5)][0]; f.ct = TYPES[one(s, 5)][1]; f.refer = text(s, 6)
            f.dflt = one(s, 7); f.packed = bool(one(fields(one(s, 8, b"")), 2, 0)); oi = one(s, 9); f.oneof = oneofs[oi] if oi is not None and oneofs else None
            f.container = container or text(s, 2); f.scope = scope; f.ext = container is None; f.file = X
            return f
        def enum(b, p):
            s = fields(b); e = F(); e.full = p + "." + text(s, 1); e.parent = p
            e.values = [(text(fields(v), 1), sgn(one(fields(v), 2, 0))) for k, v in s if k == 2]
            X.enums.append(e)
        def msg(b, p):
            s = fields(b); m = F(); m.full = p + "." + text(s, 1); m.file = X
            m.oneofs = [m.full + "." + text(fields(v), 1) for k, v in s if k == 8]
            m.fields = sorted((field(v, m.full, None, m.oneofs) for k, v in s if k == 2), key=lambda f: f.tag)
            X.msgs.append(m)
            for k, v in s:
                if k == 3: msg(v, m.full)
                if k == 4: enum(v, m.full)
                if k == 6: X.exts.append(field(v, None, m.full))
        for k, v in ff:
            if k == 4: msg(v, pre)
            if k == 5: enum(v, pre)
            if k == 7: X.exts.append(field(v, None, None))
        files.append(X)
    return files
def sgn(v): return v - (1 << 64) if v >> 63 else v

# ------------------------------------------------------------ names
def sym(full): return full.lstrip(".").replace(".", "_").lower()
def extname(f):
    """Name of an extension in its descriptor: qualified by the scope it is declared in, without package."""
    s = f.scope or ""
    p = "." + f.file.pkg + "." if f.file.pkg else "."
    if s.startswith(p): s = s[len(p):]
    return (s + "." if s else "") + f.name
def fieldsym(f): return "X_" + extname(f).replace(".", "_").lower() if f.ext else f.name.lower()
def const(f):
    if not f.ext: return (f.container + "." + f.name).lstrip(".").replace(".", "_").upper() + "_T"

def cstr(b): return '"' + "".join("\\%03o" % c for c in b) + '"'
def cunescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        c = s[i]
        if c != 0x5c: out.append(c); i += 1; continue
        m = re.match(rb"\\([0-7]{1,3})", s[i:])
        if m: out.append(int(m[1], 8)); i += len(m[0]); continue
        out.append({b"n": 10, b"r": 13, b"t": 9, b'"': 34, b"'": 39, b"\\": 92, b"?": 63}[s[i + 1:i + 2]]); i += 2
    return bytes(out)
def default(f, enums):
    """(has, bits, string)"""
    if f.oneof: return (0, 0, None)
    d = f.dflt
    if d is None:
        if f.type == "ENUM" and f.label == 1: return (1, enums[f.refer].values[0][1] & 0xffffffff, None)
        return (0, 0, None)
    if f.type == "STRING": return (1, 0, d)
    if f.type == "BYTES": return (1, 0, cunescape(d))
    t = d.decode()
    if f.type == "ENUM": return (1, dict(enums[f.refer].values)[t] & 0xffffffff, None)
    if f.type == "BOOL": return (1, int(t == "true"), None)
    if f.type == "FLOAT": return (1, struct.unpack("<I", struct.pack("<f", float(t)))[0], None)
    if f.type == "DOUBLE": return (1, struct.unpack("<Q", struct.pack("<d", float(t)))[0], None)
    size = 64 if f.type.endswith("64") else 32
    return (1, int(t) & ((1 << size) - 1), None)

# ------------------------------------------------------------ harness
def harness_text(files):
    enums = {e.full: e for X in files for e in X.enums}
    msgs = {m.full: m for X in files for m in X.msgs}
    exts = [f for X in files for f in X.exts]
    D = lambda full: sym(full) + "_descriptor"
    acc = []; enc = []; dsc = []; asserts = []
    def tags(t): return "TAGS(%s), %d" % (", ".join(map(str, t)), len(t))
    def accessors(root, f, trace):
        """The functions due for field f of message root, reached along trace."""
        r = sym(root); path = trace + [f]; t = tags([x.tag for x in path]); fs = "_".join(fieldsym(x) for x in path); d = D(root)
        if f.label != 2: acc.append("CASE_HAS(%s, %s, %s, %s_has_%s)" % (d, t, f.type, r, fs))
        if f.type == "MESSAGE":
            acc.append("CASE_CREATE(%s, %s, %s, %s_create_%s)" % (d, t, D(f.refer), r, fs))
            if f.label == 3: acc.append("CASE_CURSOR(%s, %s, %s_create_%s_cursor)" % (d, t, r, fs))
            elif not f.ext:
                c = f.container; own = c + "."; up = [c]
                while c.rfind(".") > 0 and c[:c.rfind(".")] in msgs: c = c[:c.rfind(".")]; up.append(c)
                if f.refer not in up and f.refer.startswith(own):
                    for g in msgs[f.refer].fields: accessors(root, g, path)
        else:
            if f.label != 3: acc.append("CASE_GET(%s, %s, %s, %s, %s_get_%s)" % (d, t, f.type, f.ct, r, fs))
            acc.append("CASE_PUT(%s, %s, %s, %s, %s_put_%s)" % (d, t, f.type, f.ct, r, fs))
            if f.type == "ENUM":
                for n, v in enums[f.refer].values:
                    acc.append("CASE_MATCH(%s, %s, %d, %s_has_%s_%s)" % (d, t, v, r, fs, n.lower()))
                    acc.append("CASE_PUTV(%s, %s, %d, %s_put_%s_%s)" % (d, t, v, r, fs, n.lower()))
        if f.label == 1: acc.append("CASE_ERASE(%s, %s, %s, %s_erase_%s)" % (d, t, f.type, r, fs))
    def encoder(m, f):
        r = sym(m.full); d = D(m.full); rep = f.label == 3
        cnt = "sym_range(1, 2), , n" if rep else "1"
        if f.type == "MESSAGE": enc.append("CASE_ENCM(%s, %s, %d, %s, %s_encode_%s, %s)" % (d, r, f.tag, D(f.refer), r, fieldsym(f), cnt))
        else: enc.append("CASE_ENC(%s, %s, %d, %s, %s, %s_encode_%s, %s)" % (d, r, f.tag, f.type, f.ct, r, fieldsym(f), cnt))
        if f.type == "ENUM":
            for n, v in enums[f.refer].values: enc.append("CASE_ENCV(%s, %s, %d, %d, %s_encode_%s_%s)" % (d, r, f.tag, v, r, fieldsym(f), n.lower()))
    LABEL = {1: "OPTIONAL", 2: "REQUIRED", 3: "REPEATED"}
    for X in files:
        for m in X.msgs:
            r = sym(m.full); d = D(m.full)
            enc.append("CASE_CODEC(%s, %s, NB)" % (d, r))
            if not X.lite: acc.append("CASE_MESSAGE(%s, %s, NB)" % (d, r))
            for f in m.fields:
                encoder(m, f)
                if not X.lite: accessors(m.full, f, [])
                asserts.append("_Static_assert(%s == %d, \"tag\");" % (const(f), f.tag))
            for o in m.oneofs:
                mem = [f for f in m.fields if f.oneof == o]
                if not X.lite: acc.append("CASE_ONEOF(%s, %s_case_%s, %d, %s)" % (d, r, o.rsplit(".", 1)[1], len(mem), ", ".join("{ %d, %s }" % (f.tag, f.type) for f in mem)))
                dsc.append("check_oneof(&%s_descriptor, &%s, TAGS(%s), %d);" % (sym(o), d, ", ".join(str(f.tag) for f in mem), len(mem)))
            rows = []
            mine = m.fields + [f for f in exts if f.container == m.full]
            for f in mine:
                has, bits, s = default(f, enums)
                rows.append("{ %d, %s, %s, %s, %d, %s, %d, %dull, %s, %d, %d }" % (f.tag, cstr((extname(f) if f.ext else f.name).encode()), f.type, "ONEOF" if f.oneof else LABEL[f.label], f.packed,
                    "&" + D(f.refer) if f.refer else "NULL", has, bits, "(const char *)&%s_descriptor" % sym(f.oneof) if f.oneof else cstr(s) if s is not None else "NULL", len(s or b""), f.ext))
            dsc.append("{ static const row rows[] = { %s }; check_message(&%s, rows, %d, %d); }" % (", ".join(rows) or "{ 0 }", d, len(rows), len(m.fields)))
        for f in X.exts:
            if not X.lite: accessors(f.container, f, [])
        for e in X.enums:
            dsc.append("{ static const evalue v[] = { %s }; check_enum(&%s, v, %d); }" % (", ".join("{ %d, %s }" % (v if v > -2**31 else -2**31, cstr(n.encode())) for n, v in e.values), D(e.full), len(e.values)))
            for n, v in e.values: asserts.append("_Static_assert((%s_V) == %d, \"value\");" % ((e.parent + "." + n).lstrip(".").replace(".", "_").upper(), v))
    out = ['#include "acc.h"'] + ['#include "%s"' % f.replace(".proto", ".pb.h") for f in FILES] + asserts
    out.append("#ifndef NB\n#define NB 3\n#endif")
    for part, cases in (("ACC", acc), ("ENCODERS", enc), ("DESCRIPTORS", dsc)):
        out.append("#ifdef P_" + part)
        for i, c in enumerate(cases): out.append("static void k%d(void) { %s }" % (i, c))
        out.append("static void (*const cases[])(void) = { %s };" % ", ".join("k%d" % i for i in range(len(cases))))
        out.append("#endif")
    out.append("void harness(void) {\n  size_t n = COUNT(cases), hi = (size_t)sym_range(0, (n - 1) / 64), lo = (size_t)sym_range(0, 63);\n  if (hi * 64 + lo >= n) return;\n  cases[hi * 64 + lo]();\n}")
    return "\n".join(out) + "\n", dict(accessors=len(acc), encoders=len(enc), descriptors=len(dsc))

# ------------------------------------------------------------ steps
def prepare(work):
    """Returns (sources, include directory, counts). Raises Broken if the generated code is missing or does not fit the schema."""
    d = os.path.join(work, "gen"); o = os.path.join(d, "o"); out = os.path.join(d, "out")
    os.makedirs(o); os.makedirs(out)
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "generator", "*.cc")))
    jobs = [[CXX, "-O0", "-w", "-DHAVE_CONFIG_H=0", "-include", os.path.join(GEN, "compat.h"), "-I" + REPO + "/include", "-I" + REPO + "/src", "-c", s, "-o", os.path.join(o, "g%d.o" % i)] for i, s in enumerate(srcs)]
    with ThreadPoolExecutor(8) as ex: list(ex.map(must, jobs))
    plugin = os.path.join(d, "protoc-gen-protobluff")
    must([CXX] + [j[-1] for j in jobs] + ["-lprotoc", "-lprotobuf", "-lpthread", "-o", plugin])
    setf = os.path.join(d, "set.pb")
    must(["protoc", "-I", GEN, "--descriptor_set_out=" + setf] + FILES, cwd=GEN)
    rc, so, se = sh(["protoc", "-I", GEN, "--plugin=protoc-gen-protobluff=" + plugin, "--protobluff_out=" + out] + FILES, cwd=GEN)
    if rc: raise Broken("the generator fails: " + se[-1500:])
    files = parse(setf)
    text_, counts = harness_text(files)
    main = os.path.join(d, "accessors.c")
    open(main, "w").write(text_)
    gen = [os.path.join(out, f.replace(".proto", ".pb.c")) for f in FILES]
    flags = [f for f in base_flags() if f != "-w"] + ["-I" + out, "-I" + GEN, "-fsyntax-only", "-Wno-everything", "-Werror=incompatible-pointer-types", "-Werror=pointer-sign", "-Werror=implicit-function-declaration", "-Werror=int-conversion",
             "-Werror=incompatible-pointer-types-discards-qualifiers", "-Werror=return-type"]
    mine = re.compile("'(%s)_|static_assert|static assertion|passing|assigning|initializing|conflicting" % "|".join(sorted({sym(m.full) for X in files for m in X.msgs} | {sym(e.full) for X in files for e in X.enums})))
    for s, extra in [(g, []) for g in gen] + [(main, ["-DP_" + p]) for p in ("ACC", "ENCODERS", "DESCRIPTORS")]:
        rc, so, se = sh([CLANG] + flags + extra + [s])
        if rc:
            errors = "\n".join([l for l in se.splitlines() if "error" in l][:10])
            if s != main or mine.search(errors) or ".pb.h:" in errors: raise Broken("what is generated does not compile, or lacks what the schema calls for: " + errors.replace(d + "/", ""))
            raise BuildError("harness for generated code: " + se[-3000:])
    return [main] + gen, [out, GEN], counts
