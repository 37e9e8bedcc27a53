"""Assumptions under which an analysis looks at the success path only."""
from .terms import RESULT, OPTION

# library operations that fail for reasons outside the program; C13 checks separately
# that each of these failures is reported
IO = ("io:", "File::", "fs::", "OpenOptions::", "glob::", "Reader::", "StringRecord", "bincode::", "Encoding::",
      "try_u32", "Write::", "Path::", "DoubleArrayBuilder::build", "csv::", "ReaderBuilder::",
      "serde_json::to_", "io_read:", "try_", "BufRead::", "Read::", "str::from_utf8", "String::from_utf8",
      "DeflateEncoder::", "ZlibEncoder::", "GzEncoder::", "DeflateDecoder::", "ZlibDecoder::", "GzDecoder::",
      "Vec::try_from", "TryInto::", "TryFrom::")
PARSE = ("parse<", "FromStr", "str::parse", "u16::from_str_radix", "u32::from_str_radix", "usize::from_str_radix",
         "serde_json::from_", "regex::", "Regex::")


def root(u):
    while u.op in ("idx", "f", "slice") or (u.op == "call" and u.args[0] in ("map_err",)):
        u = u.args[0] if u.op != "call" else u.args[1]
    return u


def base_name(u):
    r = root(u)
    return r.args[0] if r.op == "call" else ""


def io_ok(u, enum):
    if enum == RESULT and base_name(u).startswith(IO):
        return "Ok"
    if enum == OPTION and base_name(u).startswith(("Encoding::", "Path::", "DoubleArrayBuilder::build")):
        return "Some"
    return None


def all_ok(u, enum):
    if enum == RESULT and u.op != "adt" and base_name(u).startswith(IO + PARSE):
        return "Ok"
    return io_ok(u, enum)
