"""classification of canonical C++ type spellings"""
import functools, re
INTS = {"int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "char", "signed char",
        "unsigned char", "short", "unsigned short", "wchar_t", "char16_t", "char32_t"}
UNSIGNED = {"unsigned int", "unsigned long", "unsigned long long", "unsigned char", "unsigned short"}
REALS = {"double", "float", "long double"}

def strip(t):
    """remove references and top-level cv"""
    t = t.strip()
    while True:
        if t.endswith("&"): t = t[:-1].strip(); continue
        if t.endswith(" const"): t = t[:-6].strip(); continue
        if t.endswith("*const"): t = t[:-5].strip(); continue
        if t.startswith("const ") and not t.rstrip().endswith("*"): t = t[6:].strip(); continue
        return t

def is_ref(t): return t.strip().endswith("&")
def is_const(t):
    t = t.strip().rstrip("&").strip()
    return (t.startswith("const ") and not t.endswith("*") and not t.endswith("*const")) or t.endswith(" const") or t.endswith("*const")

def targs(t):
    """template name, args"""
    i = t.find("<")
    if i < 0 or not t.endswith(">"): return t, []
    name = t[:i]; args = []; d = 0; cur = ""
    for ch in t[i + 1:-1]:
        if ch in "<([": d += 1
        if ch in ">)]": d -= 1
        if ch == "," and d == 0: args.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): args.append(cur.strip())
    return name, args

@functools.lru_cache(maxsize=None)
def cls(t0, enums=frozenset()):
    """-> (kind, *details)"""
    t = strip(t0)
    if t in REALS: return ("R",)
    if t in INTS: return ("I",)
    if t in ("bool", "std::_Bit_reference"): return ("B",)
    if t in enums: return ("I",)
    if t == "void": return ("void",)
    if t == "std::nullptr_t": return ("ptr", "void")
    if t.endswith("*"):
        return ("ptr", t[:-1].strip())
    m = re.match(r"^(.*?)\s*\[(\d+)\]((\[\d+\])*)$", t)
    if m: return ("arr", m.group(1) + (m.group(3) or ""), int(m.group(2)))
    t_ = t.replace("(anonymous namespace)", "")
    if re.match(r"^(.*?)\s*\(.*\)", t_) and "<" not in t_.split("(")[0]: return ("fn",)
    name, a = targs(t)
    if name == "std::basic_string": return ("S",)
    if name in ("std::vector", "std::initializer_list", "std::valarray", "std::deque", "std::set", "std::unordered_set", "std::list"): return ("vec", a[0], name)
    if name == "std::array": return ("arr", a[0], int(re.sub(r"[A-Za-z]", "", a[1])))
    if name in ("std::map", "std::unordered_map", "std::multimap"): return ("map", "std::pair<const %s, %s>" % (a[0], a[1]), a[0], a[1])
    if name == "std::pair": return ("pair", a[0], a[1])
    if name in ("std::shared_ptr", "std::unique_ptr", "std::weak_ptr", "std::__shared_ptr_access", "std::__shared_ptr"): return ("sptr", a[0])
    if name in ("__gnu_cxx::__normal_iterator",): return ("iter", a[0][:-1].strip())
    if name in ("std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator"): return ("iter", a[0])
    if name in ("std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator"): return ("iter", a[0])
    if name in ("std::_Bit_iterator", "std::_Bit_const_iterator"): return ("iter", "bool")
    if name in ("std::reverse_iterator",): return ("opaque", t)
    if name == "std::function" or t.startswith("(lambda"): return ("fn",)
    if name == "std::complex": return ("pair", a[0], a[0])
    if name in ("Eigen::EigenBase", "Eigen::ArrayBase", "Eigen::DenseBase", "Eigen::MatrixBase", "Eigen::PlainObjectBase", "Eigen::Map", "Eigen::MapBase", "Eigen::DenseCoeffsBase", "Eigen::ArrayWrapper", "Eigen::MatrixWrapper") and a:
        return cls(a[0], enums)
    if name in ("Eigen::Array", "Eigen::Matrix") and len(a) >= 3:
        n = lambda x: int(re.sub(r"[^0-9-]", "", x) or 0)
        if n(a[2]) == 1 or n(a[1]) == 1: 
            k = n(a[1]) if n(a[2]) == 1 else n(a[2])
            return ("evec", a[0], k)
        return ("emat", a[0])
    if name in ("std::multiplies", "std::plus", "std::minus", "std::divides", "std::negate", "std::less", "std::greater"): return ("functor", name)
    if name.startswith("std::") : return ("opaque", t)
    return ("rec", t)

def is_unsigned(t): return strip(t) in UNSIGNED
