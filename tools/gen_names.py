#!/usr/bin/env python3
"""Writes contracts/12_names.rs: what the names in the specification are made of, letter by letter
(the verifier treats a string literal as opaque until it is told)."""
import os
names = """any nil null bool false true int uint nint float tstr text bstr bytes float16 float32 float64 float16-32
float32-64 tdate uri b64url b64legacy regexp mime-message biguint bignint encoded-cbor eb64url eb64legacy eb16 cbor-any time
bigint integer unsigned number decfrac bigfloat undefined size lt le gt ge cbor""".split()
out = ["// Written by tools/gen_names.py.", "pub mod names {", "use vstd::prelude::*;"]
for n in names:
    f = "name_" + n.replace("-", "_")
    out.append("pub proof fn %s() ensures \"%s\"@.len() == %d, %s { reveal_strlit(\"%s\"); }" % (
        f, n, len(n), ", ".join("\"%s\"@[%d] == '%s'" % (n, i, c) for i, c in enumerate(n)), n))
out.append("pub proof fn all_names() ensures %s { %s }" % (
    ", ".join("\"%s\"@.len() == %d, %s" % (n, len(n), ", ".join("\"%s\"@[%d] == '%s'" % (n, i, c) for i, c in enumerate(n))) for n in names),
    " ".join("name_%s();" % n.replace("-", "_") for n in names)))
out.append("}")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../contracts/12_names.rs"), "w").write("\n".join(out) + "\n")
