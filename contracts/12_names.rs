// Written by tools/gen_names.py.
pub mod names {
use vstd::prelude::*;
pub proof fn name_any() ensures "any"@.len() == 3, "any"@[0] == 'a', "any"@[1] == 'n', "any"@[2] == 'y' { reveal_strlit("any"); }
pub proof fn name_nil() ensures "nil"@.len() == 3, "nil"@[0] == 'n', "nil"@[1] == 'i', "nil"@[2] == 'l' { reveal_strlit("nil"); }
pub proof fn name_null() ensures "null"@.len() == 4, "null"@[0] == 'n', "null"@[1] == 'u', "null"@[2] == 'l', "null"@[3] == 'l' { reveal_strlit("null"); }
pub proof fn name_bool() ensures "bool"@.len() == 4, "bool"@[0] == 'b', "bool"@[1] == 'o', "bool"@[2] == 'o', "bool"@[3] == 'l' { reveal_strlit("bool"); }
pub proof fn name_false() ensures "false"@.len() == 5, "false"@[0] == 'f', "false"@[1] == 'a', "false"@[2] == 'l', "false"@[3] == 's', "false"@[4] == 'e' { reveal_strlit("false"); }
pub proof fn name_true() ensures "true"@.len() == 4, "true"@[0] == 't', "true"@[1] == 'r', "true"@[2] == 'u', "true"@[3] == 'e' { reveal_strlit("true"); }
pub proof fn name_int() ensures "int"@.len() == 3, "int"@[0] == 'i', "int"@[1] == 'n', "int"@[2] == 't' { reveal_strlit("int"); }
pub proof fn name_uint() ensures "uint"@.len() == 4, "uint"@[0] == 'u', "uint"@[1] == 'i', "uint"@[2] == 'n', "uint"@[3] == 't' { reveal_strlit("uint"); }
pub proof fn name_nint() ensures "nint"@.len() == 4, "nint"@[0] == 'n', "nint"@[1] == 'i', "nint"@[2] == 'n', "nint"@[3] == 't' { reveal_strlit("nint"); }
pub proof fn name_float() ensures "float"@.len() == 5, "float"@[0] == 'f', "float"@[1] == 'l', "float"@[2] == 'o', "float"@[3] == 'a', "float"@[4] == 't' { reveal_strlit("float"); }
pub proof fn name_tstr() ensures "tstr"@.len() == 4, "tstr"@[0] == 't', "tstr"@[1] == 's', "tstr"@[2] == 't', "tstr"@[3] == 'r' { reveal_strlit("tstr"); }
pub proof fn name_text() ensures "text"@.len() == 4, "text"@[0] == 't', "text"@[1] == 'e', "text"@[2] == 'x', "text"@[3] == 't' { reveal_strlit("text"); }
pub proof fn name_bstr() ensures "bstr"@.len() == 4, "bstr"@[0] == 'b', "bstr"@[1] == 's', "bstr"@[2] == 't', "bstr"@[3] == 'r' { reveal_strlit("bstr"); }
pub proof fn name_bytes() ensures "bytes"@.len() == 5, "bytes"@[0] == 'b', "bytes"@[1] == 'y', "bytes"@[2] == 't', "bytes"@[3] == 'e', "bytes"@[4] == 's' { reveal_strlit("bytes"); }
pub proof fn name_float16() ensures "float16"@.len() == 7, "float16"@[0] == 'f', "float16"@[1] == 'l', "float16"@[2] == 'o', "float16"@[3] == 'a', "float16"@[4] == 't', "float16"@[5] == '1', "float16"@[6] == '6' { reveal_strlit("float16"); }
pub proof fn name_float32() ensures "float32"@.len() == 7, "float32"@[0] == 'f', "float32"@[1] == 'l', "float32"@[2] == 'o', "float32"@[3] == 'a', "float32"@[4] == 't', "float32"@[5] == '3', "float32"@[6] == '2' { reveal_strlit("float32"); }
pub proof fn name_float64() ensures "float64"@.len() == 7, "float64"@[0] == 'f', "float64"@[1] == 'l', "float64"@[2] == 'o', "float64"@[3] == 'a', "float64"@[4] == 't', "float64"@[5] == '6', "float64"@[6] == '4' { reveal_strlit("float64"); }
pub proof fn name_float16_32() ensures "float16-32"@.len() == 10, "float16-32"@[0] == 'f', "float16-32"@[1] == 'l', "float16-32"@[2] == 'o', "float16-32"@[3] == 'a', "float16-32"@[4] == 't', "float16-32"@[5] == '1', "float16-32"@[6] == '6', "float16-32"@[7] == '-', "float16-32"@[8] == '3', "float16-32"@[9] == '2' { reveal_strlit("float16-32"); }
pub proof fn name_float32_64() ensures "float32-64"@.len() == 10, "float32-64"@[0] == 'f', "float32-64"@[1] == 'l', "float32-64"@[2] == 'o', "float32-64"@[3] == 'a', "float32-64"@[4] == 't', "float32-64"@[5] == '3', "float32-64"@[6] == '2', "float32-64"@[7] == '-', "float32-64"@[8] == '6', "float32-64"@[9] == '4' { reveal_strlit("float32-64"); }
pub proof fn name_tdate() ensures "tdate"@.len() == 5, "tdate"@[0] == 't', "tdate"@[1] == 'd', "tdate"@[2] == 'a', "tdate"@[3] == 't', "tdate"@[4] == 'e' { reveal_strlit("tdate"); }
pub proof fn name_uri() ensures "uri"@.len() == 3, "uri"@[0] == 'u', "uri"@[1] == 'r', "uri"@[2] == 'i' { reveal_strlit("uri"); }
pub proof fn name_b64url() ensures "b64url"@.len() == 6, "b64url"@[0] == 'b', "b64url"@[1] == '6', "b64url"@[2] == '4', "b64url"@[3] == 'u', "b64url"@[4] == 'r', "b64url"@[5] == 'l' { reveal_strlit("b64url"); }
pub proof fn name_b64legacy() ensures "b64legacy"@.len() == 9, "b64legacy"@[0] == 'b', "b64legacy"@[1] == '6', "b64legacy"@[2] == '4', "b64legacy"@[3] == 'l', "b64legacy"@[4] == 'e', "b64legacy"@[5] == 'g', "b64legacy"@[6] == 'a', "b64legacy"@[7] == 'c', "b64legacy"@[8] == 'y' { reveal_strlit("b64legacy"); }
pub proof fn name_regexp() ensures "regexp"@.len() == 6, "regexp"@[0] == 'r', "regexp"@[1] == 'e', "regexp"@[2] == 'g', "regexp"@[3] == 'e', "regexp"@[4] == 'x', "regexp"@[5] == 'p' { reveal_strlit("regexp"); }
pub proof fn name_mime_message() ensures "mime-message"@.len() == 12, "mime-message"@[0] == 'm', "mime-message"@[1] == 'i', "mime-message"@[2] == 'm', "mime-message"@[3] == 'e', "mime-message"@[4] == '-', "mime-message"@[5] == 'm', "mime-message"@[6] == 'e', "mime-message"@[7] == 's', "mime-message"@[8] == 's', "mime-message"@[9] == 'a', "mime-message"@[10] == 'g', "mime-message"@[11] == 'e' { reveal_strlit("mime-message"); }
pub proof fn name_biguint() ensures "biguint"@.len() == 7, "biguint"@[0] == 'b', "biguint"@[1] == 'i', "biguint"@[2] == 'g', "biguint"@[3] == 'u', "biguint"@[4] == 'i', "biguint"@[5] == 'n', "biguint"@[6] == 't' { reveal_strlit("biguint"); }
pub proof fn name_bignint() ensures "bignint"@.len() == 7, "bignint"@[0] == 'b', "bignint"@[1] == 'i', "bignint"@[2] == 'g', "bignint"@[3] == 'n', "bignint"@[4] == 'i', "bignint"@[5] == 'n', "bignint"@[6] == 't' { reveal_strlit("bignint"); }
pub proof fn name_encoded_cbor() ensures "encoded-cbor"@.len() == 12, "encoded-cbor"@[0] == 'e', "encoded-cbor"@[1] == 'n', "encoded-cbor"@[2] == 'c', "encoded-cbor"@[3] == 'o', "encoded-cbor"@[4] == 'd', "encoded-cbor"@[5] == 'e', "encoded-cbor"@[6] == 'd', "encoded-cbor"@[7] == '-', "encoded-cbor"@[8] == 'c', "encoded-cbor"@[9] == 'b', "encoded-cbor"@[10] == 'o', "encoded-cbor"@[11] == 'r' { reveal_strlit("encoded-cbor"); }
pub proof fn name_eb64url() ensures "eb64url"@.len() == 7, "eb64url"@[0] == 'e', "eb64url"@[1] == 'b', "eb64url"@[2] == '6', "eb64url"@[3] == '4', "eb64url"@[4] == 'u', "eb64url"@[5] == 'r', "eb64url"@[6] == 'l' { reveal_strlit("eb64url"); }
pub proof fn name_eb64legacy() ensures "eb64legacy"@.len() == 10, "eb64legacy"@[0] == 'e', "eb64legacy"@[1] == 'b', "eb64legacy"@[2] == '6', "eb64legacy"@[3] == '4', "eb64legacy"@[4] == 'l', "eb64legacy"@[5] == 'e', "eb64legacy"@[6] == 'g', "eb64legacy"@[7] == 'a', "eb64legacy"@[8] == 'c', "eb64legacy"@[9] == 'y' { reveal_strlit("eb64legacy"); }
pub proof fn name_eb16() ensures "eb16"@.len() == 4, "eb16"@[0] == 'e', "eb16"@[1] == 'b', "eb16"@[2] == '1', "eb16"@[3] == '6' { reveal_strlit("eb16"); }
pub proof fn name_cbor_any() ensures "cbor-any"@.len() == 8, "cbor-any"@[0] == 'c', "cbor-any"@[1] == 'b', "cbor-any"@[2] == 'o', "cbor-any"@[3] == 'r', "cbor-any"@[4] == '-', "cbor-any"@[5] == 'a', "cbor-any"@[6] == 'n', "cbor-any"@[7] == 'y' { reveal_strlit("cbor-any"); }
pub proof fn name_time() ensures "time"@.len() == 4, "time"@[0] == 't', "time"@[1] == 'i', "time"@[2] == 'm', "time"@[3] == 'e' { reveal_strlit("time"); }
pub proof fn name_bigint() ensures "bigint"@.len() == 6, "bigint"@[0] == 'b', "bigint"@[1] == 'i', "bigint"@[2] == 'g', "bigint"@[3] == 'i', "bigint"@[4] == 'n', "bigint"@[5] == 't' { reveal_strlit("bigint"); }
pub proof fn name_integer() ensures "integer"@.len() == 7, "integer"@[0] == 'i', "integer"@[1] == 'n', "integer"@[2] == 't', "integer"@[3] == 'e', "integer"@[4] == 'g', "integer"@[5] == 'e', "integer"@[6] == 'r' { reveal_strlit("integer"); }
pub proof fn name_unsigned() ensures "unsigned"@.len() == 8, "unsigned"@[0] == 'u', "unsigned"@[1] == 'n', "unsigned"@[2] == 's', "unsigned"@[3] == 'i', "unsigned"@[4] == 'g', "unsigned"@[5] == 'n', "unsigned"@[6] == 'e', "unsigned"@[7] == 'd' { reveal_strlit("unsigned"); }
pub proof fn name_number() ensures "number"@.len() == 6, "number"@[0] == 'n', "number"@[1] == 'u', "number"@[2] == 'm', "number"@[3] == 'b', "number"@[4] == 'e', "number"@[5] == 'r' { reveal_strlit("number"); }
pub proof fn name_decfrac() ensures "decfrac"@.len() == 7, "decfrac"@[0] == 'd', "decfrac"@[1] == 'e', "decfrac"@[2] == 'c', "decfrac"@[3] == 'f', "decfrac"@[4] == 'r', "decfrac"@[5] == 'a', "decfrac"@[6] == 'c' { reveal_strlit("decfrac"); }
pub proof fn name_bigfloat() ensures "bigfloat"@.len() == 8, "bigfloat"@[0] == 'b', "bigfloat"@[1] == 'i', "bigfloat"@[2] == 'g', "bigfloat"@[3] == 'f', "bigfloat"@[4] == 'l', "bigfloat"@[5] == 'o', "bigfloat"@[6] == 'a', "bigfloat"@[7] == 't' { reveal_strlit("bigfloat"); }
pub proof fn name_undefined() ensures "undefined"@.len() == 9, "undefined"@[0] == 'u', "undefined"@[1] == 'n', "undefined"@[2] == 'd', "undefined"@[3] == 'e', "undefined"@[4] == 'f', "undefined"@[5] == 'i', "undefined"@[6] == 'n', "undefined"@[7] == 'e', "undefined"@[8] == 'd' { reveal_strlit("undefined"); }
pub proof fn name_size() ensures "size"@.len() == 4, "size"@[0] == 's', "size"@[1] == 'i', "size"@[2] == 'z', "size"@[3] == 'e' { reveal_strlit("size"); }
pub proof fn name_lt() ensures "lt"@.len() == 2, "lt"@[0] == 'l', "lt"@[1] == 't' { reveal_strlit("lt"); }
pub proof fn name_le() ensures "le"@.len() == 2, "le"@[0] == 'l', "le"@[1] == 'e' { reveal_strlit("le"); }
pub proof fn name_gt() ensures "gt"@.len() == 2, "gt"@[0] == 'g', "gt"@[1] == 't' { reveal_strlit("gt"); }
pub proof fn name_ge() ensures "ge"@.len() == 2, "ge"@[0] == 'g', "ge"@[1] == 'e' { reveal_strlit("ge"); }
pub proof fn name_cbor() ensures "cbor"@.len() == 4, "cbor"@[0] == 'c', "cbor"@[1] == 'b', "cbor"@[2] == 'o', "cbor"@[3] == 'r' { reveal_strlit("cbor"); }
pub proof fn all_names() ensures "any"@.len() == 3, "any"@[0] == 'a', "any"@[1] == 'n', "any"@[2] == 'y', "nil"@.len() == 3, "nil"@[0] == 'n', "nil"@[1] == 'i', "nil"@[2] == 'l', "null"@.len() == 4, "null"@[0] == 'n', "null"@[1] == 'u', "null"@[2] == 'l', "null"@[3] == 'l', "bool"@.len() == 4, "bool"@[0] == 'b', "bool"@[1] == 'o', "bool"@[2] == 'o', "bool"@[3] == 'l', "false"@.len() == 5, "false"@[0] == 'f', "false"@[1] == 'a', "false"@[2] == 'l', "false"@[3] == 's', "false"@[4] == 'e', "true"@.len() == 4, "true"@[0] == 't', "true"@[1] == 'r', "true"@[2] == 'u', "true"@[3] == 'e', "int"@.len() == 3, "int"@[0] == 'i', "int"@[1] == 'n', "int"@[2] == 't', "uint"@.len() == 4, "uint"@[0] == 'u', "uint"@[1] == 'i', "uint"@[2] == 'n', "uint"@[3] == 't', "nint"@.len() == 4, "nint"@[0] == 'n', "nint"@[1] == 'i', "nint"@[2] == 'n', "nint"@[3] == 't', "float"@.len() == 5, "float"@[0] == 'f', "float"@[1] == 'l', "float"@[2] == 'o', "float"@[3] == 'a', "float"@[4] == 't', "tstr"@.len() == 4, "tstr"@[0] == 't', "tstr"@[1] == 's', "tstr"@[2] == 't', "tstr"@[3] == 'r', "text"@.len() == 4, "text"@[0] == 't', "text"@[1] == 'e', "text"@[2] == 'x', "text"@[3] == 't', "bstr"@.len() == 4, "bstr"@[0] == 'b', "bstr"@[1] == 's', "bstr"@[2] == 't', "bstr"@[3] == 'r', "bytes"@.len() == 5, "bytes"@[0] == 'b', "bytes"@[1] == 'y', "bytes"@[2] == 't', "bytes"@[3] == 'e', "bytes"@[4] == 's', "float16"@.len() == 7, "float16"@[0] == 'f', "float16"@[1] == 'l', "float16"@[2] == 'o', "float16"@[3] == 'a', "float16"@[4] == 't', "float16"@[5] == '1', "float16"@[6] == '6', "float32"@.len() == 7, "float32"@[0] == 'f', "float32"@[1] == 'l', "float32"@[2] == 'o', "float32"@[3] == 'a', "float32"@[4] == 't', "float32"@[5] == '3', "float32"@[6] == '2', "float64"@.len() == 7, "float64"@[0] == 'f', "float64"@[1] == 'l', "float64"@[2] == 'o', "float64"@[3] == 'a', "float64"@[4] == 't', "float64"@[5] == '6', "float64"@[6] == '4', "float16-32"@.len() == 10, "float16-32"@[0] == 'f', "float16-32"@[1] == 'l', "float16-32"@[2] == 'o', "float16-32"@[3] == 'a', "float16-32"@[4] == 't', "float16-32"@[5] == '1', "float16-32"@[6] == '6', "float16-32"@[7] == '-', "float16-32"@[8] == '3', "float16-32"@[9] == '2', "float32-64"@.len() == 10, "float32-64"@[0] == 'f', "float32-64"@[1] == 'l', "float32-64"@[2] == 'o', "float32-64"@[3] == 'a', "float32-64"@[4] == 't', "float32-64"@[5] == '3', "float32-64"@[6] == '2', "float32-64"@[7] == '-', "float32-64"@[8] == '6', "float32-64"@[9] == '4', "tdate"@.len() == 5, "tdate"@[0] == 't', "tdate"@[1] == 'd', "tdate"@[2] == 'a', "tdate"@[3] == 't', "tdate"@[4] == 'e', "uri"@.len() == 3, "uri"@[0] == 'u', "uri"@[1] == 'r', "uri"@[2] == 'i', "b64url"@.len() == 6, "b64url"@[0] == 'b', "b64url"@[1] == '6', "b64url"@[2] == '4', "b64url"@[3] == 'u', "b64url"@[4] == 'r', "b64url"@[5] == 'l', "b64legacy"@.len() == 9, "b64legacy"@[0] == 'b', "b64legacy"@[1] == '6', "b64legacy"@[2] == '4', "b64legacy"@[3] == 'l', "b64legacy"@[4] == 'e', "b64legacy"@[5] == 'g', "b64legacy"@[6] == 'a', "b64legacy"@[7] == 'c', "b64legacy"@[8] == 'y', "regexp"@.len() == 6, "regexp"@[0] == 'r', "regexp"@[1] == 'e', "regexp"@[2] == 'g', "regexp"@[3] == 'e', "regexp"@[4] == 'x', "regexp"@[5] == 'p', "mime-message"@.len() == 12, "mime-message"@[0] == 'm', "mime-message"@[1] == 'i', "mime-message"@[2] == 'm', "mime-message"@[3] == 'e', "mime-message"@[4] == '-', "mime-message"@[5] == 'm', "mime-message"@[6] == 'e', "mime-message"@[7] == 's', "mime-message"@[8] == 's', "mime-message"@[9] == 'a', "mime-message"@[10] == 'g', "mime-message"@[11] == 'e', "biguint"@.len() == 7, "biguint"@[0] == 'b', "biguint"@[1] == 'i', "biguint"@[2] == 'g', "biguint"@[3] == 'u', "biguint"@[4] == 'i', "biguint"@[5] == 'n', "biguint"@[6] == 't', "bignint"@.len() == 7, "bignint"@[0] == 'b', "bignint"@[1] == 'i', "bignint"@[2] == 'g', "bignint"@[3] == 'n', "bignint"@[4] == 'i', "bignint"@[5] == 'n', "bignint"@[6] == 't', "encoded-cbor"@.len() == 12, "encoded-cbor"@[0] == 'e', "encoded-cbor"@[1] == 'n', "encoded-cbor"@[2] == 'c', "encoded-cbor"@[3] == 'o', "encoded-cbor"@[4] == 'd', "encoded-cbor"@[5] == 'e', "encoded-cbor"@[6] == 'd', "encoded-cbor"@[7] == '-', "encoded-cbor"@[8] == 'c', "encoded-cbor"@[9] == 'b', "encoded-cbor"@[10] == 'o', "encoded-cbor"@[11] == 'r', "eb64url"@.len() == 7, "eb64url"@[0] == 'e', "eb64url"@[1] == 'b', "eb64url"@[2] == '6', "eb64url"@[3] == '4', "eb64url"@[4] == 'u', "eb64url"@[5] == 'r', "eb64url"@[6] == 'l', "eb64legacy"@.len() == 10, "eb64legacy"@[0] == 'e', "eb64legacy"@[1] == 'b', "eb64legacy"@[2] == '6', "eb64legacy"@[3] == '4', "eb64legacy"@[4] == 'l', "eb64legacy"@[5] == 'e', "eb64legacy"@[6] == 'g', "eb64legacy"@[7] == 'a', "eb64legacy"@[8] == 'c', "eb64legacy"@[9] == 'y', "eb16"@.len() == 4, "eb16"@[0] == 'e', "eb16"@[1] == 'b', "eb16"@[2] == '1', "eb16"@[3] == '6', "cbor-any"@.len() == 8, "cbor-any"@[0] == 'c', "cbor-any"@[1] == 'b', "cbor-any"@[2] == 'o', "cbor-any"@[3] == 'r', "cbor-any"@[4] == '-', "cbor-any"@[5] == 'a', "cbor-any"@[6] == 'n', "cbor-any"@[7] == 'y', "time"@.len() == 4, "time"@[0] == 't', "time"@[1] == 'i', "time"@[2] == 'm', "time"@[3] == 'e', "bigint"@.len() == 6, "bigint"@[0] == 'b', "bigint"@[1] == 'i', "bigint"@[2] == 'g', "bigint"@[3] == 'i', "bigint"@[4] == 'n', "bigint"@[5] == 't', "integer"@.len() == 7, "integer"@[0] == 'i', "integer"@[1] == 'n', "integer"@[2] == 't', "integer"@[3] == 'e', "integer"@[4] == 'g', "integer"@[5] == 'e', "integer"@[6] == 'r', "unsigned"@.len() == 8, "unsigned"@[0] == 'u', "unsigned"@[1] == 'n', "unsigned"@[2] == 's', "unsigned"@[3] == 'i', "unsigned"@[4] == 'g', "unsigned"@[5] == 'n', "unsigned"@[6] == 'e', "unsigned"@[7] == 'd', "number"@.len() == 6, "number"@[0] == 'n', "number"@[1] == 'u', "number"@[2] == 'm', "number"@[3] == 'b', "number"@[4] == 'e', "number"@[5] == 'r', "decfrac"@.len() == 7, "decfrac"@[0] == 'd', "decfrac"@[1] == 'e', "decfrac"@[2] == 'c', "decfrac"@[3] == 'f', "decfrac"@[4] == 'r', "decfrac"@[5] == 'a', "decfrac"@[6] == 'c', "bigfloat"@.len() == 8, "bigfloat"@[0] == 'b', "bigfloat"@[1] == 'i', "bigfloat"@[2] == 'g', "bigfloat"@[3] == 'f', "bigfloat"@[4] == 'l', "bigfloat"@[5] == 'o', "bigfloat"@[6] == 'a', "bigfloat"@[7] == 't', "undefined"@.len() == 9, "undefined"@[0] == 'u', "undefined"@[1] == 'n', "undefined"@[2] == 'd', "undefined"@[3] == 'e', "undefined"@[4] == 'f', "undefined"@[5] == 'i', "undefined"@[6] == 'n', "undefined"@[7] == 'e', "undefined"@[8] == 'd', "size"@.len() == 4, "size"@[0] == 's', "size"@[1] == 'i', "size"@[2] == 'z', "size"@[3] == 'e', "lt"@.len() == 2, "lt"@[0] == 'l', "lt"@[1] == 't', "le"@.len() == 2, "le"@[0] == 'l', "le"@[1] == 'e', "gt"@.len() == 2, "gt"@[0] == 'g', "gt"@[1] == 't', "ge"@.len() == 2, "ge"@[0] == 'g', "ge"@[1] == 'e', "cbor"@.len() == 4, "cbor"@[0] == 'c', "cbor"@[1] == 'b', "cbor"@[2] == 'o', "cbor"@[3] == 'r' { name_any(); name_nil(); name_null(); name_bool(); name_false(); name_true(); name_int(); name_uint(); name_nint(); name_float(); name_tstr(); name_text(); name_bstr(); name_bytes(); name_float16(); name_float32(); name_float64(); name_float16_32(); name_float32_64(); name_tdate(); name_uri(); name_b64url(); name_b64legacy(); name_regexp(); name_mime_message(); name_biguint(); name_bignint(); name_encoded_cbor(); name_eb64url(); name_eb64legacy(); name_eb16(); name_cbor_any(); name_time(); name_bigint(); name_integer(); name_unsigned(); name_number(); name_decfrac(); name_bigfloat(); name_undefined(); name_size(); name_lt(); name_le(); name_gt(); name_ge(); name_cbor(); }
}
