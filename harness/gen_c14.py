#!/usr/bin/env python3
"""Writes c14_structs_K.cpp: one bound struct for every number of fields, 1 to 50 (committed; not run by the checks)."""
import os
TYPES = ["int", "STR", "bool", "double", "std::vector<int>", "Inner", "std::shared_ptr<int>", "std::map<STR, STR>", "int64_t", "std::list<Inner>"]
here = os.path.dirname(os.path.abspath(__file__))

def struct(n, wide):
    name = ("W%d" if wide else "S%d") % n
    L = "L" if wide else ""
    inner = "WInner" if wide else "Inner"
    fields, binds, each = [], [], []
    for i in range(n):
        t = TYPES[(i * 7 + n) % len(TYPES)].replace("STR", "std::wstring" if wide else "std::string").replace("Inner", inner)
        f = "f%d" % i
        req = (i * 5 + n) % 3 != 0 if n > 2 else n == 1
        # names of all sorts: the field's, given ones, empty, with quotes and spaces
        given = wide or (i + n) % 4 in (1, 2)
        nm = f
        if given:
            nm = ["name %d", "n\\\"%d", "\\303\\251%d", "%d"][(i + n // 3) % 4] % i if not wide else ["name %d", "n\\\"%d", "\\u00e9%d", "%d"][(i + n // 3) % 4] % i
            if i == n % 13:
                nm = ""
        fields.append("    %s %s{};" % (t, f))
        kind = "REQUIRED" if req else "OPTIONAL"
        binds.append('%s(%s, %s"%s")' % (kind, f, L, nm) if given else "%s(%s)" % (kind, f))
        each.append('        f(%s, %s"%s", %s);' % (f, L, nm, "true" if req else "false"))
    v = "wjson::value" if wide else "json::value"
    return """struct %s
{
%s
    template <class F>
    void each(F& f)
    {
%s
    }
    CONFIGOR_BIND(%s, %s, %s)
};
""" % (name, "\n".join(fields), "\n".join(each), v, name, ",\n                  ".join(binds))

def unit(k, sizes, wide):
    out = ["// written by gen_c14.py", "#define ENGINE_NO_MAIN", '#include "c14.hpp"', "using namespace c14;", "namespace", "{"]
    for n in sizes:
        out.append(struct(n, wide))
    out.append("}  // namespace")
    V = "wjson::value" if wide else "json::value"
    T = "W%d" if wide else "S%d"
    out.append("PROP(structs_%d, %d, %d)" % (k, 120 * len(sizes), 3000 * len(sizes)))
    out.append("{\n    static void (*const fn[])(Src&, Ctx&) = { %s };" % ", ".join("&bound<%s, %s>" % (V, T % n) for n in sizes))
    out.append("    fn[s.draw(%d)](s, c);\n}" % len(sizes))
    open(os.path.join(here, "c14_structs_%d.cpp" % k), "w").write("\n".join(out) + "\n")

# of about the same weight
unit(1, list(range(1, 26)), False)
unit(2, list(range(26, 34)), False)
unit(3, list(range(34, 40)), False)
unit(4, list(range(40, 45)), False)
unit(5, list(range(45, 48)), False)
unit(6, list(range(48, 51)), False)
unit(7, [1, 2, 3, 7, 12, 50], True)
