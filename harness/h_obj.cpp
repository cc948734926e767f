// Message objects and flat field arrays as values (M04): histories over three objects and two arrays.
#include "vh_tree.hpp"

#include <optional>
using namespace vh;

template <class Fn> static void withType(const std::string& ty, Fn&& fn)
{
    if (ty == "b") { fn(bool{}); }
    else if (ty == "i8") { fn(int8_t{}); }
    else if (ty == "u8") { fn(uint8_t{}); }
    else if (ty == "i16") { fn(int16_t{}); }
    else if (ty == "u16") { fn(uint16_t{}); }
    else if (ty == "i32") { fn(int32_t{}); }
    else if (ty == "u32") { fn(uint32_t{}); }
    else if (ty == "i64") { fn(int64_t{}); }
    else if (ty == "u64") { fn(uint64_t{}); }
    else if (ty == "f") { fn(float{}); }
    else if (ty == "d") { fn(double{}); }
    else { std::fprintf(stderr, "type %s\n", ty.c_str()); std::exit(3); }
}
template <class T> static const char* tyName()
{
    if constexpr (std::is_same_v<T, bool>) { return "b"; }
    else if constexpr (std::is_same_v<T, int8_t>) { return "i8"; }
    else if constexpr (std::is_same_v<T, uint8_t>) { return "u8"; }
    else if constexpr (std::is_same_v<T, int16_t>) { return "i16"; }
    else if constexpr (std::is_same_v<T, uint16_t>) { return "u16"; }
    else if constexpr (std::is_same_v<T, int32_t>) { return "i32"; }
    else if constexpr (std::is_same_v<T, uint32_t>) { return "u32"; }
    else if constexpr (std::is_same_v<T, int64_t>) { return "i64"; }
    else if constexpr (std::is_same_v<T, uint64_t>) { return "u64"; }
    else if constexpr (std::is_same_v<T, float>) { return "f"; }
    else { return "d"; }
}
template <class T> static T from(const J& b)
{
    if constexpr (std::is_same_v<T, bool>) { return b[0].get<int>() != 0; }
    else
    {
        T v{};
        const auto x = bytes(b);
        std::memcpy(&v, x.data(), std::min(sizeof(T), x.size()));
        return v;
    }
}
template <class T> static std::vector<T> list(const J& v)
{
    std::vector<T> o;
    for (const auto& x : v) { o.push_back(from<T>(x)); }
    return o;
}
static std::string text(const J& b)
{
    const auto x = bytes(b);
    return std::string(x.begin(), x.end());
}

struct Run
{
    J& sc;
    MessageDatabase::Ptr db;
    std::vector<FieldInfo::ConstPtr> infos; // numbered from 1
    CompositeField objs[3];
    std::optional<FlatFieldArray> flats[2];

    explicit Run(J& s) : sc(s), db(ParseJsonDb(dbJson(s["msgs"], s["enums"], "OEM").dump()))
    {
        for (const auto& x : sc["infos"])
        {
            FieldInfo::ConstPtr fi = db->GetMsgDef(static_cast<uint32_t>(x["id"].get<int>()))->fieldInfo.at(u32of(x["crc"]));
            for (const auto& n : x["path"]) { fi = std::dynamic_pointer_cast<const FieldArrayField>(fi->GetFieldDefByName(n.get<std::string>()))->fieldInfo; }
            infos.push_back(fi);
        }
    }
    FieldInfo::ConstPtr info(int i) const { return i == 0 ? FieldInfo::ConstPtr() : infos.at(static_cast<size_t>(i) - 1); }
    const BaseField& field(const J& e, const char* i = "i", const char* j = "j") const { return *order(*info(e[i])).at(e[j].get<size_t>() - 1); }
    int number(const FieldInfo* p) const
    {
        if (p == nullptr) { return 0; }
        for (size_t i = 0; i < infos.size(); ++i) { if (infos[i].get() == p) { return static_cast<int>(i) + 1; } }
        return -1;
    }

    // ---- what is stored ----
    J dump(const CompositeField& o) const
    {
        J r;
        r["i"] = number(o.GetFieldInfo().get());
        r["fixed"] = jbytes(reinterpret_cast<const unsigned char*>(o.GetFixedFields().data()), o.GetFixedFields().size());
        r["var"] = J::array();
        for (const auto& v : o.GetVarFields()) { r["var"].push_back(slot(v)); }
        return r;
    }
    J slot(const FieldValueVariant& v) const
    {
        J r = {{"k", "none"}, {"ty", ""}, {"s", J::array()}, {"v", J::array()}, {"i", 0}, {"b", J::array()}, {"o", J::array()}};
        std::visit(
            [&](const auto& x) {
                using T = std::decay_t<decltype(x)>;
                if constexpr (std::is_same_v<T, std::string>)
                {
                    r["k"] = "str";
                    r["s"] = jbytes(x);
                }
                else if constexpr (std::is_same_v<T, FlatFieldArray>)
                {
                    r["k"] = "flat";
                    r["i"] = number(x.GetFieldInfo());
                    r["b"] = jbytes(reinterpret_cast<const unsigned char*>(x.data()), x.ByteSize());
                }
                else if constexpr (std::is_same_v<T, CompositeFieldArray>)
                {
                    r["k"] = "comp";
                    for (const auto& y : x) { r["o"].push_back(dump(y)); }
                }
                else if constexpr (is_specialization_of_v<T, std::vector>)
                {
                    r["k"] = "vec";
                    r["ty"] = tyName<typename T::value_type>();
                    for (const auto& y : x) { r["v"].push_back(raw(y)); }
                }
                else if constexpr (std::is_same_v<T, bool>) {}
                else { r["k"] = "?"; }
            },
            v);
        return r;
    }
    J dump(const std::optional<FlatFieldArray>& a) const
    {
        if (!a) { return {{"i", 0}, {"b", J::array()}}; }
        return {{"i", number(a->GetFieldInfo())}, {"b", jbytes(reinterpret_cast<const unsigned char*>(a->data()), a->ByteSize())}};
    }
    static bool sound(const CompositeField& o)
    {
        const auto fi = o.GetFieldInfo();
        if (!fi || o.GetFixedFields().size() != fi->fixedFieldBytes || o.GetVarFields().size() != fi->varFieldCount) { return false; }
        for (const auto& f : order(*fi))
        {
            if (!isVar(*f)) { continue; }
            const auto& v = o.GetVarFields()[f->index];
            bool ok = false;
            if (f->type == FIELD_TYPE::STRING) { ok = std::holds_alternative<std::string>(v); }
            else if (f->type == FIELD_TYPE::FIELD_ARRAY)
            {
                const auto* want = dynamic_cast<const FieldArrayField&>(*f).fieldInfo.get();
                if (const auto* a = std::get_if<FlatFieldArray>(&v)) { ok = a->GetFieldInfo() == want && a->ByteSize() % want->fixedFieldBytes == 0; }
                else if (const auto* c = std::get_if<CompositeFieldArray>(&v))
                {
                    ok = true;
                    for (const auto& r : *c) { ok = ok && r.GetFieldInfo().get() == want && sound(r); }
                }
            }
            else
            {
                SimpleTypeVisitor(*f, [&](auto tag) {
                    using T = std::conditional_t<std::is_same_v<decltype(tag), bool>, uint8_t, decltype(tag)>;
                    ok = std::holds_alternative<std::vector<T>>(v);
                });
            }
            if (!ok) { return false; }
        }
        return true;
    }
    static J view(const CompositeField& o, J& agreeing)
    {
        J a = J::array();
        if (!sound(o)) { return a; }
        J e;
        observe(e, o);
        if (!e["ok"].get<bool>()) { agreeing.push_back(e.value("why", std::string("?"))); }
        for (const auto& f : order(*o.GetFieldInfo()))
        {
            J x = {{"n", o.GetFieldSize(*f)}, {"bytes", o.GetFieldByteSize(*f)}};
            std::vector<std::byte> buf(o.GetFieldByteSize(*f) + 8);
            try { x["w"] = jbytes(reinterpret_cast<unsigned char*>(buf.data()), o.WriteFieldToBuffer(*f, buf.data(), buf.size())); }
            catch (const std::runtime_error&) { x["w"] = J::array({-1}); }
            a.push_back(x);
        }
        return a;
    }

    // ---- operations ----
    static size_t at(const J& e, const char* k = "at") { return e[k].get<int>() < 0 ? static_cast<size_t>(e[k].get<int64_t>()) : e[k].get<size_t>(); }
    template <class T> static T copyOf(const T& x) { return x; }

    void put(J& e)
    {
        CompositeField& o = objs[e["s"].get<int>() - 1];
        const std::string op = e["op"], k = e["k"];
        const bool byDef = op == "field";
        const BaseField* f = byDef ? &field(e) : nullptr;
        if (k == "str")
        {
            if (byDef) { o.SetFieldValue(*f, text(e["x"])); }
            else if (op == "fix") { o.SetFieldValue<true>(at(e), text(e["x"])); }
            else { o.SetFieldValue<false>(at(e), text(e["x"])); }
        }
        else if (k == "comp")
        {
            CompositeFieldArray rows;
            for (const auto& x : e["rows"]) { rows.push_back(objs[x.get<int>() - 1]); }
            if (e["way"] == 0) { o.SetFieldValue(*f, rows); }
            else { o.SetFieldValue(*f, std::move(rows)); }
        }
        else if (k == "flat")
        {
            FlatFieldArray a = *flats[e["from"].get<int>() - 1];
            if (e["way"] == 0) { o.SetFieldValue(*f, a); }
            else { o.SetFieldValue(*f, std::move(a)); }
        }
        else
        {
            withType(e["ty"], [&](auto tag) {
                using T = decltype(tag);
                if constexpr (std::is_same_v<T, bool>)
                {
                    const bool one = e["v"].empty() ? false : from<bool>(e["v"][0]);
                    if (k == "one") { byDef ? o.SetFieldValue(*f, one) : op == "fix" ? o.SetFieldValue<true>(at(e), one) : o.SetFieldValue<false>(at(e), one); }
                    else
                    {
                        bool some[64];
                        size_t n = 0;
                        for (const auto& x : e["v"]) { some[n++] = from<bool>(x); }
                        const bool* p = e["null"].get<bool>() ? nullptr : some;
                        if (op == "fix") { o.SetFieldValue<true>(at(e), p, n); }
                        else { o.SetFieldValue<false>(at(e), p, n); }
                    }
                }
                else
                {
                    const auto v = list<T>(e["v"]);
                    if (k == "one")
                    {
                        if (byDef) { e["way"] == 0 ? o.SetFieldValue(*f, v[0]) : o.SetFieldValue(*f, copyOf(v[0])); }
                        else if (op == "fix") { o.SetFieldValue<true>(at(e), v[0]); }
                        else { o.SetFieldValue<false>(at(e), v[0]); }
                    }
                    else if (k == "buf")
                    {
                        const TypedBuffer<T> b(reinterpret_cast<const std::byte*>(v.data()), v.size());
                        o.SetFieldValue(*f, b);
                    }
                    else if (e["way"] == 0 && !byDef)
                    {
                        static const T none{};
                        const T* p = e["null"].get<bool>() ? nullptr : v.empty() ? &none : v.data();
                        if (op == "fix") { o.SetFieldValue<true>(at(e), p, v.size()); }
                        else { o.SetFieldValue<false>(at(e), p, v.size()); }
                    }
                    else
                    {
                        if (byDef) { o.SetFieldValue(*f, copyOf(v)); }
                        else if (op == "fix") { o.SetFieldValue<true>(at(e), copyOf(v)); }
                        else { o.SetFieldValue<false>(at(e), copyOf(v)); }
                    }
                }
            });
        }
    }
    void elem(J& e)
    {
        CompositeField& o = objs[e["s"].get<int>() - 1];
        const BaseField& f = field(e);
        withType(e["ty"], [&](auto tag) {
            using T = decltype(tag);
            if (isVar(f)) { o.SetArrayElement<false>(f, at(e), from<T>(e["v"][0])); }
            else { o.SetArrayElement<true>(f, at(e), from<T>(e["v"][0])); }
        });
    }
    template <class T> static J some(const T& x)
    {
        J a = J::array();
        for (const auto v : x) { a.push_back(raw(v)); }
        return a;
    }
    // reading through anything that has GetFieldValue(field, args..., element)
    template <class Rec> static J read(const Rec& rec, const BaseField& f, const J& e)
    {
        const std::string want = e["want"];
        const size_t i = at(e);
        const bool byName = e["way"] == 1;
        J out;
        if (want == "str") { return jbytes(byName ? rec.template GetFieldValueByName<std::string>(f.name) : rec.template GetFieldValue<std::string>(f)); }
        if (want == "rows") { return byName ? rec.template GetFieldValueByName<FieldArray>(f.name).size() : rec.template GetFieldValue<FieldArray>(f).size(); }
        withType(e["ty"], [&](auto tag) {
            using T = decltype(tag);
            using S = std::conditional_t<std::is_same_v<T, bool>, uint8_t, T>;
            if (want == "one") { out = raw(byName ? rec.template GetFieldValueByName<T>(f.name, i) : rec.template GetFieldValue<T>(f, i)); }
            else if (want == "buf") { out = some(byName ? rec.template GetFieldValueByName<TypedBuffer<T>>(f.name) : rec.template GetFieldValue<TypedBuffer<T>>(f)); }
            else { out = some(byName ? rec.template GetFieldValueByName<std::vector<S>>(f.name) : rec.template GetFieldValue<std::vector<S>>(f)); }
        });
        return out;
    }
    J readRow(const CompositeField& o, const J& e) const
    {
        const BaseField& f = field(e);
        const FieldArray rows = o.GetFieldValue<FieldArray>(f);
        const BaseField& g = *order(*dynamic_cast<const FieldArrayField&>(f).fieldInfo).at(e["g"].get<size_t>() - 1);
        if (e["direct"].get<bool>() && e["want"] == "one")
        {
            J out;
            withType(e["ty"], [&](auto tag) {
                using T = decltype(tag);
                out = raw(e["way"] == 1 ? rows.GetFieldValueByName<T>(g.name, at(e, "r"), at(e)) : rows.GetFieldValue<T>(g, at(e, "r"), at(e)));
            });
            return out;
        }
        return read(rows[at(e, "r")], g, e);
    }
    J readFlat(const FlatFieldArray& a, const J& e) const
    {
        const BaseField& f = *order(*a.GetFieldInfo()).at(e["j"].get<size_t>() - 1);
        if (e["direct"].get<bool>() && e["want"] != "vec")
        {
            J out;
            withType(e["ty"], [&](auto tag) {
                using T = decltype(tag);
                const bool byName = e["way"] == 1;
                const size_t r = at(e, "r");
                if (e["want"] == "buf") { out = some(byName ? a.GetFieldValueByName<TypedBuffer<T>>(f.name, r) : a.GetFieldValue<TypedBuffer<T>>(f, r)); }
                else { out = raw(byName ? a.GetFieldValueByName<T>(f.name, r) : a.GetFieldValue<T>(f, r)); }
            });
            return out;
        }
        return read(a[at(e, "r")], f, e);
    }
    void step(J& e)
    {
        const std::string op = e["op"];
        const int s = e["s"].get<int>() - 1;
        if (op == "new") { objs[s] = e["i"] == 0 ? (e["way"] == 0 ? CompositeField() : CompositeField(FieldInfo::ConstPtr())) : CompositeField(info(e["i"])); }
        else if (op == "sized") { objs[s] = CompositeField(e["n"].get<size_t>(), e["m"].get<size_t>()); }
        else if (op == "resize") { objs[s].resize(e["n"], e["m"]); }
        else if (op == "copy")
        {
            const int t = e["t"].get<int>() - 1;
            if (e["way"] == 0) { objs[s] = objs[t]; }
            else if (e["way"] == 1) { objs[s] = CompositeField(objs[t]); }
            else
            {
                CompositeField c(objs[t]);
                objs[s] = std::move(c);
            }
        }
        else if (op == "info") { objs[s].SetFieldInfo(info(e["i"])); }
        else if (op == "def")
        {
            std::optional<uint32_t> crc;
            if (!e["crc"].empty()) { crc = u32of(e["crc"]); }
            const auto def = e["m"] == 0 ? MessageDefinition::ConstPtr() : db->GetMsgDef(static_cast<uint32_t>(sc["msgs"][e["m"].get<size_t>() - 1]["id"].get<int>()));
            if (crc || e["way"] == 0) { objs[s].SetFieldInfo(def, crc); }
            else { objs[s].SetFieldInfo(def); }
        }
        else if (op == "fix" || op == "var" || op == "field") { put(e); }
        else if (op == "elem") { elem(e); }
        else if (op == "get") { e["val"].push_back(read(objs[s], field(e), e)); }
        else if (op == "noname") { e["val"].push_back(raw(objs[s].GetFieldValueByName<uint32_t>(e["name"].get<std::string>()))); }
        else if (op == "row") { e["val"].push_back(readRow(objs[s], e)); }
        else if (op == "fnew") { flats[s] = FlatFieldArray(e["n"].get<size_t>(), info(e["i"]).get()); }
        else if (op == "fdata")
        {
            const auto x = bytes(e["x"]);
            std::vector<std::byte> b(x.size());
            std::memcpy(b.data(), x.data(), x.size());
            flats[s] = FlatFieldArray(std::move(b), info(e["i"]).get());
        }
        else if (op == "fput")
        {
            FlatFieldArray& a = *flats[s];
            const size_t r = at(e, "r"), i = at(e);
            const int j = e["j"];
            if (e["k"] == "str")
            {
                if (j) { a.SetFieldValue(r, *order(*a.GetFieldInfo()).at(static_cast<size_t>(j) - 1), text(e["x"])); }
                else { a.SetFieldValue(r, i, text(e["x"])); }
            }
            else
            {
                withType(e["ty"], [&](auto tag) {
                    using T = decltype(tag);
                    if constexpr (std::is_same_v<T, bool>)
                    {
                        const bool one = from<bool>(e["v"][0]);
                        if (j) { a.SetFieldValue(r, *order(*a.GetFieldInfo()).at(static_cast<size_t>(j) - 1), one); }
                        else { a.SetFieldValue(r, i, one); }
                    }
                    else
                    {
                        const auto v = list<T>(e["v"]);
                        if (j)
                        {
                            const BaseField& f = *order(*a.GetFieldInfo()).at(static_cast<size_t>(j) - 1);
                            if (e["k"] == "one") { a.SetFieldValue(r, f, copyOf(v[0])); }
                            else { a.SetFieldValue(r, f, copyOf(v)); }
                        }
                        else if (e["k"] == "one") { a.SetFieldValue(r, i, v[0]); }
                        else if (e["way"] == 0) { a.SetFieldValue(r, i, v.data(), v.size()); }
                        else { a.SetFieldValue(r, i, copyOf(v)); }
                    }
                });
            }
        }
        else if (op == "fcopy") { flats[s] = flats[e["t"].get<int>() - 1]; }
        else if (op == "fresize") { flats[s]->resize(e["n"]); }
        else if (op == "fget") { e["val"].push_back(readFlat(*flats[s], e)); }
        else
        {
            std::fprintf(stderr, "op %s\n", op.c_str());
            std::exit(3);
        }
    }
};

int main(int argc, char** argv)
{
    return drive(argc, argv, [](J& sc) {
        Run r(sc);
        for (auto& e : sc["ev"])
        {
            e["val"] = J::array();
            try
            {
                r.step(e);
                e["res"] = "ok";
            }
            catch (const std::exception& x)
            {
                e["res"] = "refused";
                e["why"] = x.what();
            }
            e["agree"] = J::array();
            e["objs"] = J::array();
            e["views"] = J::array();
            for (const auto& o : r.objs)
            {
                e["objs"].push_back(r.dump(o));
                e["views"].push_back(Run::view(o, e["agree"]));
            }
            e["flats"] = J::array({r.dump(r.flats[0]), r.dump(r.flats[1])});
        }
    });
}
