// Stand-in for the subset of simdjson's DOM API that novatel_edie uses (simdjson is not installed in
// this sandbox).  Independent mini-parser with simdjson's documented semantics: document order kept,
// first duplicate key wins, INT64/UINT64/DOUBLE tags, strict type access, RFC 8259 syntax, UTF-8 checked.
#ifndef VERIF_SHIM_SIMDJSON_H
#define VERIF_SHIM_SIMDJSON_H
#include <charconv>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iterator>
#include <memory>
#include <optional>
#include <ostream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace simdjson {
enum error_code { SUCCESS = 0, CAPACITY, MEMALLOC, TAPE_ERROR, DEPTH_ERROR, STRING_ERROR, T_ATOM_ERROR, F_ATOM_ERROR, N_ATOM_ERROR,
    NUMBER_ERROR, BIGINT_ERROR, UTF8_ERROR, UNINITIALIZED, EMPTY, UNESCAPED_CHARS, UNCLOSED_STRING, INCORRECT_TYPE, NUMBER_OUT_OF_RANGE,
    INDEX_OUT_OF_BOUNDS, NO_SUCH_FIELD, IO_ERROR };
inline const char* error_message(error_code e)
{
    switch (e)
    {
    case SUCCESS: return "No error";
    case NO_SUCH_FIELD: return "The JSON field referenced does not exist in this object.";
    case INCORRECT_TYPE: return "The JSON element does not have the requested type.";
    case NUMBER_OUT_OF_RANGE: return "The JSON number is too large or too small to fit within the requested type.";
    case IO_ERROR: return "Error reading the file.";
    case EMPTY: return "Empty: no JSON found";
    default: return "The JSON document has an improper structure.";
    }
}
inline std::ostream& operator<<(std::ostream& os, error_code e) { return os << error_message(e); }
struct simdjson_error : std::runtime_error
{
    error_code c;
    explicit simdjson_error(error_code e) : std::runtime_error(error_message(e)), c(e) {}
    error_code error() const noexcept { return c; }
};

namespace dom {
struct node
{
    enum kind_t { NUL, BOOL, I64, U64, DBL, STR, ARR, OBJ } kind = NUL;
    bool b = false;
    int64_t i = 0;
    uint64_t u = 0;
    double d = 0;
    std::string s;
    std::vector<node> a;
    std::vector<std::pair<std::string, node>> o;
};
} // namespace dom

template <class T> struct simdjson_result;

namespace dom {
class element;
class array;
class object;
} // namespace dom

template <class T> struct simdjson_result_base
{
    T first{};
    error_code second = UNINITIALIZED;
    simdjson_result_base() = default;
    simdjson_result_base(T&& v) : first(std::move(v)), second(SUCCESS) {}
    simdjson_result_base(const T& v) : first(v), second(SUCCESS) {}
    simdjson_result_base(error_code e) : second(e) {}
    error_code error() const { return second; }
    error_code get(T& out) &&
    {
        if (!second) { out = std::move(first); }
        return second;
    }
    error_code get(T& out) &
    {
        if (!second) { out = std::move(first); }
        return second;
    }
    T& value() &
    {
        if (second) { throw simdjson_error(second); }
        return first;
    }
    T&& value() &&
    {
        if (second) { throw simdjson_error(second); }
        return std::move(first);
    }
    operator T&&() && { return std::move(*this).value(); }
};
template <class T> struct simdjson_result : simdjson_result_base<T>
{
    using simdjson_result_base<T>::simdjson_result_base;
};

namespace dom {
class array
{
    const node* n = nullptr;

  public:
    array() = default;
    explicit array(const node* p) : n(p) {}
    class iterator
    {
        const node* p;

      public:
        explicit iterator(const node* q) : p(q) {}
        element operator*() const;
        iterator& operator++() { ++p; return *this; }
        bool operator!=(const iterator& o) const { return p != o.p; }
    };
    iterator begin() const { return iterator(n->a.data()); }
    iterator end() const { return iterator(n->a.data() + n->a.size()); }
    size_t size() const { return n->a.size(); }
};
struct key_value_pair;
class object
{
    const node* n = nullptr;

  public:
    object() = default;
    explicit object(const node* p) : n(p) {}
    class iterator
    {
        const std::pair<std::string, node>* p;

      public:
        explicit iterator(const std::pair<std::string, node>* q) : p(q) {}
        key_value_pair operator*() const;
        iterator& operator++() { ++p; return *this; }
        bool operator!=(const iterator& o) const { return p != o.p; }
    };
    iterator begin() const { return iterator(n->o.data()); }
    iterator end() const { return iterator(n->o.data() + n->o.size()); }
    size_t size() const { return n->o.size(); }
    inline simdjson_result<element> operator[](std::string_view key) const;
};
class element
{
    const node* n = nullptr;

  public:
    element() = default;
    explicit element(const node* p) : n(p) {}
    bool is_null() const { return n->kind == node::NUL; }
    bool is_string() const { return n->kind == node::STR; }
    bool is_array() const { return n->kind == node::ARR; }
    bool is_object() const { return n->kind == node::OBJ; }
    bool is_bool() const { return n->kind == node::BOOL; }
    bool is_number() const { return n->kind == node::I64 || n->kind == node::U64 || n->kind == node::DBL; }
    error_code get(element& o) const { o = *this; return SUCCESS; }
    error_code get(std::string_view& o) const { if (n->kind != node::STR) { return INCORRECT_TYPE; } o = n->s; return SUCCESS; }
    error_code get(const char*& o) const { if (n->kind != node::STR) { return INCORRECT_TYPE; } o = n->s.c_str(); return SUCCESS; }
    error_code get(bool& o) const { if (n->kind != node::BOOL) { return INCORRECT_TYPE; } o = n->b; return SUCCESS; }
    error_code get(int64_t& o) const
    {
        if (n->kind == node::U64) { return NUMBER_OUT_OF_RANGE; }
        if (n->kind != node::I64) { return INCORRECT_TYPE; }
        o = n->i;
        return SUCCESS;
    }
    error_code get(uint64_t& o) const
    {
        if (n->kind == node::I64)
        {
            if (n->i < 0) { return NUMBER_OUT_OF_RANGE; }
            o = static_cast<uint64_t>(n->i);
            return SUCCESS;
        }
        if (n->kind != node::U64) { return INCORRECT_TYPE; }
        o = n->u;
        return SUCCESS;
    }
    error_code get(double& o) const
    {
        if (n->kind == node::DBL) { o = n->d; return SUCCESS; }
        if (n->kind == node::U64) { o = static_cast<double>(n->u); return SUCCESS; }
        if (n->kind == node::I64) { o = static_cast<double>(n->i); return SUCCESS; }
        return INCORRECT_TYPE;
    }
    error_code get(array& o) const { if (n->kind != node::ARR) { return INCORRECT_TYPE; } o = array(n); return SUCCESS; }
    error_code get(object& o) const { if (n->kind != node::OBJ) { return INCORRECT_TYPE; } o = object(n); return SUCCESS; }
    template <class T> simdjson_result<T> get() const
    {
        T v{};
        const error_code e = get(v);
        if (e) { return simdjson_result<T>(e); }
        return simdjson_result<T>(std::move(v));
    }
    simdjson_result<array> get_array() const { return get<array>(); }
    simdjson_result<object> get_object() const { return get<object>(); }
    simdjson_result<std::string_view> get_string() const { return get<std::string_view>(); }
    simdjson_result<double> get_double() const { return get<double>(); }
    simdjson_result<int64_t> get_int64() const { return get<int64_t>(); }
    simdjson_result<uint64_t> get_uint64() const { return get<uint64_t>(); }
    simdjson_result<bool> get_bool() const { return get<bool>(); }
    inline simdjson_result<element> operator[](std::string_view key) const;
    inline simdjson_result<element> at_key(std::string_view key) const;
};
struct key_value_pair
{
    std::string_view key;
    element value;
};
inline element array::iterator::operator*() const { return element(p); }
inline key_value_pair object::iterator::operator*() const { return key_value_pair{p->first, element(&p->second)}; }
} // namespace dom

template <> struct simdjson_result<dom::element> : simdjson_result_base<dom::element>
{
    using simdjson_result_base<dom::element>::simdjson_result_base;
    template <class T> error_code get(T& out) const
    {
        if (second) { return second; }
        return first.get(out);
    }
    template <class T> simdjson_result<T> get() const
    {
        if (second) { return simdjson_result<T>(second); }
        return first.get<T>();
    }
    bool is_null() const { return !second && first.is_null(); }
    simdjson_result<dom::element> operator[](std::string_view key) const
    {
        if (second) { return simdjson_result<dom::element>(second); }
        return first[key];
    }
    simdjson_result<dom::array> get_array() const { return get<dom::array>(); }
    simdjson_result<dom::object> get_object() const { return get<dom::object>(); }
    simdjson_result<std::string_view> get_string() const { return get<std::string_view>(); }
};

namespace dom {
inline simdjson_result<element> object::operator[](std::string_view key) const
{
    for (const auto& kv : n->o)
    {
        if (kv.first == key) { return simdjson_result<element>(element(&kv.second)); }
    }
    return simdjson_result<element>(NO_SUCH_FIELD);
}
inline simdjson_result<element> element::operator[](std::string_view key) const
{
    if (n->kind != node::OBJ) { return simdjson_result<element>(INCORRECT_TYPE); }
    return object(n)[key];
}
inline simdjson_result<element> element::at_key(std::string_view key) const { return (*this)[key]; }
} // namespace dom

class padded_string
{
    std::string s;

  public:
    padded_string() = default;
    padded_string(const char* p, size_t n) : s(p, n) {}
    padded_string(const std::string& x) : s(x) {}
    padded_string(std::string_view x) : s(x) {}
    const char* data() const { return s.data(); }
    size_t size() const { return s.size(); }
    size_t length() const { return s.size(); }
    operator std::string_view() const { return s; }
    static simdjson_result<padded_string> load(std::string_view path)
    {
        std::ifstream f(std::string(path), std::ios::binary);
        if (!f) { return simdjson_result<padded_string>(IO_ERROR); }
        std::string x((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        if (f.bad()) { return simdjson_result<padded_string>(IO_ERROR); }
        return simdjson_result<padded_string>(padded_string(x));
    }
};

namespace dom {
class parser
{
    std::unique_ptr<node> root;
    const char* p = nullptr;
    const char* e = nullptr;

    void ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) { ++p; } }
    static void utf8(std::string& o, uint32_t c)
    {
        if (c < 0x80) { o += static_cast<char>(c); }
        else if (c < 0x800) { o += static_cast<char>(0xC0 | (c >> 6)); o += static_cast<char>(0x80 | (c & 63)); }
        else if (c < 0x10000)
        {
            o += static_cast<char>(0xE0 | (c >> 12)); o += static_cast<char>(0x80 | ((c >> 6) & 63)); o += static_cast<char>(0x80 | (c & 63));
        }
        else
        {
            o += static_cast<char>(0xF0 | (c >> 18)); o += static_cast<char>(0x80 | ((c >> 12) & 63));
            o += static_cast<char>(0x80 | ((c >> 6) & 63)); o += static_cast<char>(0x80 | (c & 63));
        }
    }
    bool hex4(uint32_t& v)
    {
        if (e - p < 4) { return false; }
        v = 0;
        for (int k = 0; k < 4; ++k)
        {
            const char c = *p++;
            v <<= 4;
            if (c >= '0' && c <= '9') { v |= c - '0'; }
            else if (c >= 'a' && c <= 'f') { v |= c - 'a' + 10; }
            else if (c >= 'A' && c <= 'F') { v |= c - 'A' + 10; }
            else { return false; }
        }
        return true;
    }
    error_code str(std::string& o)
    {
        ++p;
        while (true)
        {
            if (p >= e) { return UNCLOSED_STRING; }
            const unsigned char c = static_cast<unsigned char>(*p);
            if (c == '"') { ++p; return SUCCESS; }
            if (c < 0x20) { return UNESCAPED_CHARS; }
            if (c != '\\') { o += static_cast<char>(c); ++p; continue; }
            ++p;
            if (p >= e) { return UNCLOSED_STRING; }
            switch (*p++)
            {
            case '"': o += '"'; break;
            case '\\': o += '\\'; break;
            case '/': o += '/'; break;
            case 'b': o += '\b'; break;
            case 'f': o += '\f'; break;
            case 'n': o += '\n'; break;
            case 'r': o += '\r'; break;
            case 't': o += '\t'; break;
            case 'u': {
                uint32_t v;
                if (!hex4(v)) { return STRING_ERROR; }
                if (v >= 0xDC00 && v <= 0xDFFF) { return STRING_ERROR; }
                if (v >= 0xD800 && v <= 0xDBFF)
                {
                    uint32_t w;
                    if (e - p < 6 || p[0] != '\\' || p[1] != 'u') { return STRING_ERROR; }
                    p += 2;
                    if (!hex4(w) || w < 0xDC00 || w > 0xDFFF) { return STRING_ERROR; }
                    v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
                }
                utf8(o, v);
                break;
            }
            default: return STRING_ERROR;
            }
        }
    }
    error_code num(node& n)
    {
        const char* b = p;
        const bool neg = *p == '-';
        if (neg) { ++p; }
        if (p >= e || *p < '0' || *p > '9') { return NUMBER_ERROR; }
        const char* d0 = p;
        while (p < e && *p >= '0' && *p <= '9') { ++p; }
        if (p - d0 > 1 && *d0 == '0') { return NUMBER_ERROR; }
        bool dbl = false;
        if (p < e && *p == '.')
        {
            dbl = true; ++p;
            const char* f = p;
            while (p < e && *p >= '0' && *p <= '9') { ++p; }
            if (p == f) { return NUMBER_ERROR; }
        }
        if (p < e && (*p == 'e' || *p == 'E'))
        {
            dbl = true; ++p;
            if (p < e && (*p == '+' || *p == '-')) { ++p; }
            const char* f = p;
            while (p < e && *p >= '0' && *p <= '9') { ++p; }
            if (p == f) { return NUMBER_ERROR; }
        }
        if (p < e && !strchr(" \t\r\n,]}:", *p)) { return NUMBER_ERROR; }
        if (dbl)
        {
            n.kind = node::DBL;
            n.d = std::strtod(std::string(b, p).c_str(), nullptr);
            if (n.d > 1.7976931348623157e308 || n.d < -1.7976931348623157e308) { return NUMBER_ERROR; }
            return SUCCESS;
        }
        int64_t i;
        if (auto r = std::from_chars(b, p, i); r.ec == std::errc()) { n.kind = node::I64; n.i = i; return SUCCESS; }
        uint64_t u;
        if (neg) { return BIGINT_ERROR; }
        if (auto r = std::from_chars(b, p, u); r.ec == std::errc()) { n.kind = node::U64; n.u = u; return SUCCESS; }
        return BIGINT_ERROR;
    }
    bool lit(const char* w)
    {
        const size_t l = strlen(w);
        if (static_cast<size_t>(e - p) < l || memcmp(p, w, l) != 0) { return false; }
        p += l;
        return p >= e || strchr(" \t\r\n,]}:", *p) != nullptr;
    }
    error_code val(node& n, int depth)
    {
        if (depth > 1024) { return DEPTH_ERROR; }
        ws();
        if (p >= e) { return TAPE_ERROR; }
        switch (*p)
        {
        case '{': {
            n.kind = node::OBJ;
            ++p; ws();
            if (p < e && *p == '}') { ++p; return SUCCESS; }
            while (true)
            {
                ws();
                if (p >= e || *p != '"') { return TAPE_ERROR; }
                n.o.emplace_back();
                if (auto c = str(n.o.back().first)) { return c; }
                ws();
                if (p >= e || *p != ':') { return TAPE_ERROR; }
                ++p;
                if (auto c = val(n.o.back().second, depth + 1)) { return c; }
                ws();
                if (p >= e) { return TAPE_ERROR; }
                if (*p == ',') { ++p; continue; }
                if (*p == '}') { ++p; return SUCCESS; }
                return TAPE_ERROR;
            }
        }
        case '[': {
            n.kind = node::ARR;
            ++p; ws();
            if (p < e && *p == ']') { ++p; return SUCCESS; }
            while (true)
            {
                n.a.emplace_back();
                if (auto c = val(n.a.back(), depth + 1)) { return c; }
                ws();
                if (p >= e) { return TAPE_ERROR; }
                if (*p == ',') { ++p; continue; }
                if (*p == ']') { ++p; return SUCCESS; }
                return TAPE_ERROR;
            }
        }
        case '"': n.kind = node::STR; return str(n.s);
        case 't': n.kind = node::BOOL; n.b = true; return lit("true") ? SUCCESS : T_ATOM_ERROR;
        case 'f': n.kind = node::BOOL; n.b = false; return lit("false") ? SUCCESS : F_ATOM_ERROR;
        case 'n': n.kind = node::NUL; return lit("null") ? SUCCESS : N_ATOM_ERROR;
        default: return num(n);
        }
    }
    static bool valid_utf8(const char* b, size_t len)
    {
        const auto* s = reinterpret_cast<const unsigned char*>(b);
        size_t i = 0;
        while (i < len)
        {
            const unsigned char c = s[i];
            size_t k;
            uint32_t v;
            if (c < 0x80) { ++i; continue; }
            if (c >= 0xC2 && c <= 0xDF) { k = 1; v = c & 0x1F; }
            else if (c >= 0xE0 && c <= 0xEF) { k = 2; v = c & 0x0F; }
            else if (c >= 0xF0 && c <= 0xF4) { k = 3; v = c & 0x07; }
            else { return false; }
            if (i + k >= len + 0 && i + k > len - 1) { return false; }
            for (size_t j = 1; j <= k; ++j)
            {
                if ((s[i + j] & 0xC0) != 0x80) { return false; }
                v = (v << 6) | (s[i + j] & 0x3F);
            }
            if (k == 2 && (v < 0x800 || (v >= 0xD800 && v <= 0xDFFF))) { return false; }
            if (k == 3 && (v < 0x10000 || v > 0x10FFFF)) { return false; }
            i += k + 1;
        }
        return true;
    }

  public:
    simdjson_result<element> parse(const char* b, size_t len)
    {
        root = std::make_unique<node>();
        p = b;
        e = b + len;
        if (!valid_utf8(b, len)) { return simdjson_result<element>(UTF8_ERROR); }
        ws();
        if (p >= e) { return simdjson_result<element>(EMPTY); }
        if (auto c = val(*root, 0)) { return simdjson_result<element>(c); }
        ws();
        if (p != e) { return simdjson_result<element>(TAPE_ERROR); }
        return simdjson_result<element>(element(root.get()));
    }
    simdjson_result<element> parse(const uint8_t* b, size_t len, bool = true) { return parse(reinterpret_cast<const char*>(b), len); }
    simdjson_result<element> parse(const char* b, size_t len, bool) { return parse(b, len); }
    simdjson_result<element> parse(const std::string& s) { return parse(s.data(), s.size()); }
    simdjson_result<element> parse(std::string_view s) { return parse(s.data(), s.size()); }
    simdjson_result<element> parse(const padded_string& s) { return parse(s.data(), s.size()); }
    simdjson_result<element> load(std::string_view path)
    {
        padded_string s;
        if (auto c = padded_string::load(path).get(s)) { return simdjson_result<element>(c); }
        return parse(s);
    }
};
} // namespace dom
} // namespace simdjson
#endif
