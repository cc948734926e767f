// Reading a message object in every way its interface offers.
#pragma once
#include "vh_oem.hpp"

#include "novatel_edie/decoders/oem/message_decoder.hpp"

namespace vh {
inline bool isVar(const BaseField& f)
{
    return f.type == FIELD_TYPE::VARIABLE_LENGTH_ARRAY || f.type == FIELD_TYPE::STRING || f.type == FIELD_TYPE::RESPONSE_STR || f.type == FIELD_TYPE::FIELD_ARRAY;
}
inline const std::vector<BaseField::ConstPtr>& order(const FieldInfo& fi) { return fi.messageOrderedFields; }
inline size_t al(const BaseField& f) { return dynamic_cast<const ArrayField&>(f).arrayLength; }

inline J fixedTree(const unsigned char* base, const BaseField& f)
{
    if (f.type != FIELD_TYPE::FIXED_LENGTH_ARRAY) { return jbytes(base + f.index, f.dataType.length); }
    J a = J::array();
    for (size_t i = 0; i < al(f); ++i) { a.push_back(jbytes(base + f.index + i * f.dataType.length, f.dataType.length)); }
    return a;
}
inline J tree(const CompositeField& cf, const FieldInfo& fi);
inline J varTree(const FieldValueVariant& v, const BaseField& f)
{
    return std::visit(
        [&](const auto& x) -> J {
            using T = std::decay_t<decltype(x)>;
            J a = J::array();
            if constexpr (std::is_same_v<T, std::string>) { return jbytes(x); }
            else if constexpr (std::is_same_v<T, FlatFieldArray>)
            {
                const auto& fa = dynamic_cast<const FieldArrayField&>(f);
                for (size_t r = 0; r < x.size(); ++r)
                {
                    J row = J::array();
                    for (const auto& g : order(*fa.fieldInfo)) { row.push_back(fixedTree(reinterpret_cast<const unsigned char*>(x.data()) + r * fa.fieldInfo->fixedFieldBytes, *g)); }
                    a.push_back(row);
                }
            }
            else if constexpr (std::is_same_v<T, CompositeFieldArray>)
            {
                const auto& fa = dynamic_cast<const FieldArrayField&>(f);
                for (const auto& r : x) { a.push_back(tree(r, *fa.fieldInfo)); }
            }
            else if constexpr (is_specialization_of_v<T, std::vector>)
            {
                for (const auto& e : x) { a.push_back(jbytes(reinterpret_cast<const unsigned char*>(&e), sizeof(e))); }
            }
            else { a.push_back("?"); }
            return a;
        },
        v);
}
inline J tree(const CompositeField& cf, const FieldInfo& fi)
{
    J a = J::array();
    for (const auto& f : order(fi))
    {
        if (!isVar(*f)) { a.push_back(fixedTree(reinterpret_cast<const unsigned char*>(cf.GetFixedFields().data()), *f)); }
        else { a.push_back(varTree(cf.GetVarFields().at(f->index), *f)); }
    }
    return a;
}

// ---- every other way of reading the same values must agree ----
struct Disagree
{
    std::string why;
};
inline void want(bool b, const BaseField& f, const char* w)
{
    if (!b) { throw Disagree{f.name + ": " + w}; }
}
template <class T> inline J raw(const T& v) { return jbytes(reinterpret_cast<const unsigned char*>(&v), sizeof(v)); }
// a bool holds one byte of its field
template <class T> inline bool same(const T& v, const J& b)
{
    if constexpr (std::is_same_v<T, bool>) { return v == (b[0].get<int>() != 0); }
    else { return raw(v) == b; }
}
template <class Rec> inline void agreeLeaf(const Rec& rec, const BaseField& f, const J& v)
{
    SimpleTypeVisitor(f, [&](auto tag) {
        using T = decltype(tag);
        if (f.type == FIELD_TYPE::FIXED_LENGTH_ARRAY)
        {
            const auto tb = rec.template GetFieldValueByName<TypedBuffer<T>>(f.name);
            want(tb.size() == v.size(), f, "size of typed buffer");
            size_t i = 0;
            for (const auto x : tb) { want(same<T>(x, v[i++]), f, "typed buffer iteration"); }
            for (i = 0; i < v.size(); ++i)
            {
                want(same<T>(tb[i], v[i]), f, "typed buffer element");
                want(same<T>(rec.template GetFieldValue<T>(f, i), v[i]), f, "array element");
            }
            bool thrown = false;
            try { (void)rec.template GetFieldValue<T>(f, v.size()); }
            catch (const std::runtime_error&) { thrown = true; }
            want(thrown, f, "element past the end");
        }
        else { want(same<T>(rec.template GetFieldValueByName<T>(f.name), v), f, "value by name"); }
    });
}
inline void agree(const CompositeField& cf, const FieldInfo& fi, const J& v);
inline void agreeField(const CompositeField& cf, const BaseField& f, const J& v)
{
    const auto var = cf.GetFieldValueVariant(f);
    std::vector<std::byte> buf(4096);
    {
        // the two ways of writing a field agree, and the second one keeps track of the room left
        std::vector<unsigned char> a(2048, 0x7E), b(2048, 0x7E);
        int thrown = 0;
        size_t n1 = 0, n2 = 0;
        unsigned char* p = b.data();
        uint32_t room = static_cast<uint32_t>(b.size());
        try { n1 = cf.WriteFieldToBuffer(f, reinterpret_cast<std::byte*>(a.data()), a.size()); }
        catch (const std::runtime_error&) { ++thrown; }
        try { n2 = cf.WriteFieldToBuffer(f, &p, room); }
        catch (const std::runtime_error&) { ++thrown; }
        want(thrown != 1 && n1 == n2 && a == b && p == b.data() + n2 && room == b.size() - n2, f, "writing a field");
    }
    if (f.type == FIELD_TYPE::STRING || f.type == FIELD_TYPE::RESPONSE_STR)
    {
        want(jbytes(cf.GetFieldValueByName<std::string>(f.name)) == v && jbytes(std::get<std::string>(var)) == v, f, "string");
        want(cf.GetFieldSize(f) == v.size() && cf.GetFieldByteSize(f) == v.size(), f, "string size");
        return;
    }
    if (f.type == FIELD_TYPE::FIELD_ARRAY)
    {
        const auto& fa = dynamic_cast<const FieldArrayField&>(f);
        const auto rows = cf.GetFieldValueByName<FieldArray>(f.name);
        want(rows.size() == v.size() && cf.GetFieldSize(f) == v.size(), f, "rows");
        want(rows.empty() == v.empty(), f, "no rows");
        size_t walked = 0;
        for (const auto rec : rows)
        {
            want(walked < v.size(), f, "rows walked");
            size_t i = 0;
            for (const auto& g : order(*fa.fieldInfo)) { if (!isVar(*g)) { agreeLeaf(rec, *g, v[walked][i]); } ++i; }
            ++walked;
        }
        want(walked == v.size(), f, "rows walked");
        if (const auto* flat = std::get_if<FlatFieldArray>(&cf.GetVarFields()[f.index]))
        {
            want(flat->size() == v.size() && flat->ByteSize() == v.size() * fa.fieldInfo->fixedFieldBytes && cf.GetFieldByteSize(f) == flat->ByteSize(), f, "size of a flat array");
            walked = 0;
            for (const auto rec : *flat)
            {
                want(walked < v.size(), f, "flat rows walked");
                size_t i = 0;
                for (const auto& g : order(*fa.fieldInfo)) { if (g->type != FIELD_TYPE::FIXED_LENGTH_ARRAY) { agreeLeaf(rec, *g, v[walked][i]); } ++i; }
                ++walked;
            }
            want(walked == v.size(), f, "flat rows walked");
        }
        for (size_t r = 0; r < v.size(); ++r)
        {
            const auto rec = rows[r];
            size_t i = 0;
            for (const auto& g : order(*fa.fieldInfo))
            {
                const J& w = v[r][i++];
                if (!isVar(*g)) { agreeLeaf(rec, *g, w); }
                else if (g->type == FIELD_TYPE::STRING) { want(jbytes(rec.GetFieldValueByName<std::string>(g->name)) == w, *g, "string in a row"); }
                else if (g->type == FIELD_TYPE::FIELD_ARRAY)
                {
                    const auto nested = rec.GetFieldValueByName<FieldArray>(g->name);
                    want(nested.size() == w.size(), *g, "rows in a row");
                    const auto& ga = dynamic_cast<const FieldArrayField&>(*g);
                    for (size_t k = 0; k < w.size(); ++k)
                    {
                        size_t q = 0;
                        for (const auto& h : order(*ga.fieldInfo)) { if (!isVar(*h)) { agreeLeaf(nested[k], *h, w[k][q]); } ++q; }
                    }
                }
                else
                {
                    SimpleTypeVisitor(*g, [&](auto tag) {
                        using T = std::conditional_t<std::is_same_v<decltype(tag), bool>, uint8_t, decltype(tag)>;
                        const auto vec = rec.GetFieldValueByName<std::vector<T>>(g->name);
                        want(vec.size() == w.size(), *g, "array size in a row");
                        for (size_t k = 0; k < w.size(); ++k) { want(raw(vec[k]) == w[k], *g, "array element in a row"); }
                    });
                }
            }
        }
        return;
    }
    const size_t n = f.type == FIELD_TYPE::VARIABLE_LENGTH_ARRAY || f.type == FIELD_TYPE::FIXED_LENGTH_ARRAY ? v.size() : 1;
    want(cf.GetFieldSize(f) == n && cf.GetFieldByteSize(f) == n * f.dataType.length, f, "size");
    J flat = J::array();
    if (f.type == FIELD_TYPE::VARIABLE_LENGTH_ARRAY || f.type == FIELD_TYPE::FIXED_LENGTH_ARRAY)
    {
        for (const auto& e : v) { for (const auto& b : e) { flat.push_back(b); } }
    }
    else { flat = v; }
    const size_t wrote = cf.WriteFieldToBuffer(f, buf.data(), buf.size());
    if (flat.size() <= buf.size()) { want(jbytes(reinterpret_cast<unsigned char*>(buf.data()), wrote) == flat, f, "field bytes"); }
    if (!flat.empty()) { want(cf.WriteFieldToBuffer(f, buf.data(), flat.size() - 1) == 0, f, "field bytes into too small a buffer"); }
    if (f.type == FIELD_TYPE::VARIABLE_LENGTH_ARRAY)
    {
        SimpleTypeVisitor(f, [&](auto tag) {
            using T = std::conditional_t<std::is_same_v<decltype(tag), bool>, uint8_t, decltype(tag)>;
            const auto vec = cf.GetFieldValueByName<std::vector<T>>(f.name);
            want(std::get<std::vector<T>>(var) == vec || f.dataType.name == DATA_TYPE::FLOAT || f.dataType.name == DATA_TYPE::DOUBLE, f, "array as a variant");
            want(vec.size() == v.size(), f, "array size");
            for (size_t i = 0; i < v.size(); ++i)
            {
                want(raw(vec[i]) == v[i], f, "array");
                want(same<decltype(tag)>(cf.GetFieldValueByName<decltype(tag)>(f.name, i), v[i]), f, "array element");
            }
            bool thrown = false;
            try { (void)cf.GetFieldValue<decltype(tag)>(f, v.size()); }
            catch (const std::runtime_error&) { thrown = true; }
            want(thrown, f, "element past the end");
        });
        return;
    }
    agreeLeaf(cf, f, v);
    SimpleTypeVisitor(f, [&](auto tag) {
        using T = decltype(tag);
        if (f.type == FIELD_TYPE::FIXED_LENGTH_ARRAY) { want(std::get<TypedBuffer<T>>(var).size() == v.size(), f, "array as a variant"); }
        else { want(same<T>(std::get<T>(var), v), f, "value as a variant"); }
    });
}
inline void agree(const CompositeField& cf, const FieldInfo& fi, const J& v)
{
    size_t i = 0;
    for (const auto& f : order(fi)) { agreeField(cf, *f, v[i++]); }
    i = 0;
    for (const auto& [def, var] : cf)
    {
        if (i >= order(fi).size() || def != order(fi)[i]) { throw Disagree{"iteration order"}; }
        ++i;
    }
    if (i != order(fi).size()) { throw Disagree{"iteration length"}; }
}
inline void observe(J& e, const CompositeField& cf)
{
    const auto fi = cf.GetFieldInfo();
    e["got"] = fi ? tree(cf, *fi) : J::array();
    e["ok"] = true;
    try
    {
        if (fi)
        {
            agree(cf, *fi, e["got"]);
            // copies are independent of the original
            auto* orig = new CompositeField(cf);
            CompositeField copy(*orig), assigned;
            assigned = *orig;
            delete orig;
            if (tree(copy, *fi) != e["got"] || tree(assigned, *fi) != e["got"]) { throw Disagree{"copy"}; }
        }
    }
    catch (const Disagree& d)
    {
        e["ok"] = false;
        e["why"] = d.why;
    }
    catch (const std::exception& x)
    {
        e["ok"] = false;
        e["why"] = x.what();
    }
}

} // namespace vh
