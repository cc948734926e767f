// Definitions as values (D04): histories of building, copying, assigning, moving, changing and destroying
// enumeration, message and field definitions; everything of every living one is observed after each step.
#include "vh_msg.hpp"

#include <malloc.h>

#include <map>
#include <memory>
#include <set>

#include "novatel_edie/decoders/common/common.hpp"
#include "novatel_edie/decoders/common/message_database.hpp"

using namespace novatel::edie;
using vh::J;

static J w32(uint32_t v) { return vh::limbs<uint32_t>(v); }
static std::string str(const J& a)
{
    const auto v = vh::bytes(a);
    return std::string(v.begin(), v.end());
}

static FIELD_TYPE fieldType(const std::string& t)
{
    for (int i = 0; i <= static_cast<int>(FIELD_TYPE::UNKNOWN); ++i)
    {
        if (FieldTypeToString(static_cast<FIELD_TYPE>(i)) == t) { return static_cast<FIELD_TYPE>(i); }
    }
    throw std::runtime_error("no field type " + t);
}

static BaseField::Ptr mkField(const J& j);
static void fill(BaseField& f, const J& j)
{
    f.name = j["n"];
    f.type = fieldType(j["t"]);
    f.description = j["d"];
    const std::string c = str(j["conv"]);
    if (!c.empty()) { f.SetConversion(std::string(c)); }
    f.dataType.name = DataTypeEnumLookup.at(j["dt"].get<std::string>());
    f.dataType.length = j["len"];
    f.dataType.description = j["dd"];
    f.index = j["i"];
}
static void fillArray(ArrayField& f, const J& j)
{
    fill(f, j);
    f.arrayLength = j["al"];
    f.arrayLengthRef = j["ref"];
    f.arrayLengthFieldSize = j["alfs"];
}
static std::shared_ptr<FieldInfo> mkInfo(const J& j)
{
    auto i = std::make_shared<FieldInfo>();
    i->fixedFieldBytes = j["fb"];
    i->varFieldCount = j["vc"];
    for (const auto& f : j["fields"]) { i->messageOrderedFields.push_back(mkField(f)); }
    return i;
}
static BaseField::Ptr mkField(const J& j)
{
    const std::string k = j["k"];
    if (k == "null") { return nullptr; }
    if (k == "enum")
    {
        auto f = std::make_shared<EnumField>();
        fill(*f, j);
        f->enumId = j["enum"];
        const std::string e = j["e"];
        if (!e.empty()) { f->enumDef = std::make_shared<EnumDefinition>(e, e, std::vector<EnumDataType>{}); }
        return f;
    }
    if (k == "array")
    {
        auto f = std::make_shared<ArrayField>();
        fillArray(*f, j);
        return f;
    }
    if (k == "rows")
    {
        auto f = std::make_shared<FieldArrayField>();
        fillArray(*f, j);
        f->fieldSize = j["fs"];
        f->fieldInfo = mkInfo(j);
        return f;
    }
    auto f = std::make_shared<BaseField>();
    fill(*f, j);
    return f;
}

static J dumpFields(const FieldInfo& i);
static J dump(const BaseField* f)
{
    J o;
    o["k"] = "base";
    o["n"] = o["t"] = o["d"] = o["dt"] = o["dd"] = o["enum"] = o["ref"] = o["e"] = "";
    o["conv"] = o["fields"] = J::array();
    o["len"] = o["al"] = o["alfs"] = o["i"] = o["fb"] = o["vc"] = o["fs"] = 0;
    if (!f)
    {
        o["k"] = "null";
        return o;
    }
    o["n"] = f->name;
    o["t"] = std::string(FieldTypeToString(f->type));
    o["d"] = f->description;
    o["conv"] = vh::jbytes(f->conversion);
    o["dt"] = std::string(DataTypeToString(f->dataType.name));
    o["len"] = f->dataType.length;
    o["dd"] = f->dataType.description;
    o["i"] = f->index;
    BaseField fresh;
    if (!f->conversion.empty()) { fresh.SetConversion(std::string(f->conversion)); }
    o["c"] = {{"w", f->width ? *f->width : -1}, {"p", f->precision ? *f->precision : -1}, {"s", f->isString}, {"v", f->isCsv}, {"h", f->conversionHash == fresh.conversionHash}};
    if (typeid(*f) == typeid(EnumField))
    {
        const auto& e = static_cast<const EnumField&>(*f);
        o["k"] = "enum";
        o["enum"] = e.enumId;
        if (e.enumDef) { o["e"] = e.enumDef->name; }
    }
    else if (typeid(*f) == typeid(ArrayField) || typeid(*f) == typeid(FieldArrayField))
    {
        const auto& a = static_cast<const ArrayField&>(*f);
        o["k"] = "array";
        o["al"] = a.arrayLength;
        o["ref"] = a.arrayLengthRef;
        o["alfs"] = a.arrayLengthFieldSize;
        if (typeid(*f) == typeid(FieldArrayField))
        {
            const auto& r = static_cast<const FieldArrayField&>(*f);
            o["k"] = "rows";
            o["fs"] = r.fieldSize;
            o["fb"] = r.fieldInfo->fixedFieldBytes;
            o["vc"] = r.fieldInfo->varFieldCount;
            o["fields"] = dumpFields(*r.fieldInfo);
        }
    }
    return o;
}
static J dumpFields(const FieldInfo& i)
{
    J a = J::array();
    for (const auto& f : i.messageOrderedFields) { a.push_back(dump(f.get())); }
    return a;
}

struct Slot
{
    std::string k = "none";
    std::unique_ptr<EnumDefinition> e;
    std::unique_ptr<MessageDefinition> m;
    BaseField::Ptr f;
    FieldInfo::Ptr i;
};

static std::vector<EnumDataType> vals(const J& j)
{
    std::vector<EnumDataType> v;
    for (const auto& x : j) { v.push_back({vh::u32of(x["v"]), x["n"].get<std::string>(), x["d"].get<std::string>()}); }
    return v;
}

static void make(Slot& s, const std::string& k, const J& v)
{
    s = Slot();
    s.k = k;
    if (k == "enum") { s.e = std::make_unique<EnumDefinition>(v["id"].get<std::string>(), v["name"].get<std::string>(), vals(v["vals"])); }
    else if (k == "field") { s.f = mkField(v); }
    else if (k == "info") { s.i = mkInfo(v); }
    else
    {
        std::unordered_map<uint32_t, FieldInfo::ConstPtr> m;
        for (const auto& d : v["defs"]) { m[vh::u32of(d["crc"])] = mkInfo(d); }
        s.m = std::make_unique<MessageDefinition>(v["id"].get<std::string>(), v["log"].get<uint32_t>(), v["name"].get<std::string>(), v["tag"].get<std::string>(),
                                                  vh::u32of(v["latest"]), std::move(m));
    }
}

static std::map<uint32_t, const FieldInfo*> sorted(const MessageDefinition& m)
{
    std::map<uint32_t, const FieldInfo*> r;
    for (const auto& kv : m.fieldInfo) { r[kv.first] = kv.second.get(); }
    return r;
}

static void reach(const FieldInfo* i, std::set<const void*>& out)
{
    out.insert(i);
    for (const auto& f : i->messageOrderedFields)
    {
        if (!f) { continue; }
        out.insert(f.get());
        if (auto* r = dynamic_cast<const FieldArrayField*>(f.get())) { reach(r->fieldInfo.get(), out); }
    }
}
static std::set<const void*> reach(const Slot& s)
{
    std::set<const void*> o;
    if (s.i) { reach(s.i.get(), o); }
    if (s.m)
    {
        for (const auto& kv : s.m->fieldInfo) { reach(kv.second.get(), o); }
    }
    if (s.f)
    {
        o.insert(s.f.get());
        if (auto* r = dynamic_cast<const FieldArrayField*>(s.f.get())) { reach(r->fieldInfo.get(), o); }
    }
    return o;
}

static bool same(const FieldInfo& a, const FieldInfo& b)
{
    if (a.messageOrderedFields.size() != b.messageOrderedFields.size()) { return false; }
    for (size_t i = 0; i < a.messageOrderedFields.size(); ++i)
    {
        if (!(*a.messageOrderedFields[i] == *b.messageOrderedFields[i])) { return false; }
    }
    return true;
}

static J observe(const Slot* sl, const J& qs)
{
    J o;
    o["live"] = J::array();
    o["eq"] = J::array();
    o["share"] = J::array();
    for (int s = 1; s <= 4; ++s)
    {
        const Slot& x = sl[s];
        if (x.k == "none") { continue; }
        J v, look;
        look["x"] = 0;
        if (x.e)
        {
            v["id"] = x.e->_id;
            v["name"] = x.e->name;
            v["vals"] = J::array();
            for (const auto& y : x.e->enumerators) { v["vals"].push_back({{"v", w32(y.value)}, {"n", y.name}, {"d", y.description}}); }
            look["nv"] = look["dv"] = look["vn"] = J::array();
            for (const auto& q : qs["n"])
            {
                const std::string n = q;
                auto a = x.e->nameValue.find(n);
                look["nv"].push_back({{"q", n}, {"r", a == x.e->nameValue.end() ? J::array() : J::array({w32(a->second)})}});
                auto b = x.e->descriptionValue.find(n);
                look["dv"].push_back({{"q", n}, {"r", b == x.e->descriptionValue.end() ? J::array() : J::array({w32(b->second)})}});
            }
            for (const auto& q : qs["v"])
            {
                auto a = x.e->valueName.find(vh::u32of(q));
                look["vn"].push_back({{"q", q}, {"r", a == x.e->valueName.end() ? J::array() : J::array({std::string(a->second)})}});
            }
            look["unk"] = w32(x.e->unknownValue);
        }
        else if (x.f) { v = dump(x.f.get()); }
        else if (x.i)
        {
            v["fb"] = x.i->fixedFieldBytes;
            v["vc"] = x.i->varFieldCount;
            v["fields"] = dumpFields(*x.i);
            look["byn"] = J::array();
            for (const auto& q : qs["n"])
            {
                const auto f = x.i->GetFieldDefByName(q.get<std::string>());
                J r = J::array();
                for (size_t i = 0; f && i < x.i->messageOrderedFields.size(); ++i)
                {
                    if (x.i->messageOrderedFields[i] == f) { r.push_back(i + 1); }
                }
                look["byn"].push_back({{"q", q}, {"r", r}});
            }
        }
        else
        {
            v["id"] = x.m->_id;
            v["log"] = x.m->logID;
            v["name"] = x.m->name;
            v["tag"] = x.m->description;
            v["latest"] = w32(x.m->latestMessageCrc);
            v["defs"] = J::array();
            for (const auto& kv : sorted(*x.m))
            {
                v["defs"].push_back({{"crc", w32(kv.first)}, {"fb", kv.second->fixedFieldBytes}, {"vc", kv.second->varFieldCount}, {"fields", dumpFields(*kv.second)}});
            }
            look["crcq"] = J::array();
            for (const auto& c : qs["c"])
            {
                J r = J::array();
                try
                {
                    const FieldInfo* fi = &x.m->GetMsgDefFromCrc(vh::u32of(c));
                    for (const auto& kv : x.m->fieldInfo)
                    {
                        if (kv.second.get() == fi) { r.push_back(w32(kv.first)); }
                    }
                }
                catch (const std::runtime_error&)
                {
                }
                look["crcq"].push_back({{"q", c}, {"r", r}});
            }
        }
        o["live"].push_back({{"s", s}, {"k", x.k}, {"v", v}, {"look", look}});
    }
    for (int a = 1; a <= 4; ++a)
    {
        for (int b = 1; b <= 4; ++b)
        {
            const Slot &x = sl[a], &y = sl[b];
            if (x.k == "none" || x.k != y.k) { continue; }
            J e = {{"a", a}, {"b", b}, {"te", false}, {"tn", false}};
            if (x.e)
            {
                bool eq = x.e->enumerators.size() == y.e->enumerators.size(), any = !eq;
                for (size_t i = 0; i < x.e->enumerators.size() && i < y.e->enumerators.size(); ++i)
                {
                    eq = eq && x.e->enumerators[i] == y.e->enumerators[i];
                    any = any || x.e->enumerators[i] != y.e->enumerators[i];
                }
                e["eq"] = eq;
                e["ne"] = any;
            }
            else if (x.f)
            {
                e["eq"] = *x.f == *y.f;
                e["ne"] = *x.f != *y.f;
                e["te"] = x.f->dataType == y.f->dataType;
                e["tn"] = x.f->dataType != y.f->dataType;
            }
            else if (x.m)
            {
                e["eq"] = *x.m == *y.m;
                e["ne"] = *x.m != *y.m;
            }
            else
            {
                e["eq"] = same(*x.i, *y.i);
                e["ne"] = !same(*x.i, *y.i);
            }
            o["eq"].push_back(e);
            if (a < b)
            {
                const auto p = reach(x), q = reach(y);
                for (const void* z : p)
                {
                    if (q.count(z))
                    {
                        o["share"].push_back({a, b});
                        break;
                    }
                }
            }
        }
    }
    return o;
}

// the definition or field that a path of positions leads to
static FieldInfo& infoOf(Slot& s, const std::vector<int>& path)
{
    size_t at = 0;
    FieldInfo* i = nullptr;
    BaseField* f = s.f.get();
    if (s.m)
    {
        const auto all = sorted(*s.m);
        i = const_cast<FieldInfo*>(std::next(all.begin(), path[at++] - 1)->second);
    }
    else if (s.i) { i = s.i.get(); }
    else { i = const_cast<FieldInfo*>(dynamic_cast<FieldArrayField&>(*f).fieldInfo.get()); }
    while (at < path.size())
    {
        f = const_cast<BaseField*>(i->messageOrderedFields[path[at++] - 1].get());
        i = const_cast<FieldInfo*>(dynamic_cast<FieldArrayField&>(*f).fieldInfo.get());
    }
    return *i;
}
static BaseField& fieldOf(Slot& s, std::vector<int> path)
{
    if (path.empty()) { return *s.f; }
    const int last = path.back();
    path.pop_back();
    return *const_cast<BaseField*>(infoOf(s, path).messageOrderedFields[last - 1].get());
}

static void setPart(Slot& s, const std::vector<int>& path, const std::string& p, const J& x)
{
    if (s.e)
    {
        if (p == "id") { s.e->_id = x; }
        else if (p == "name") { s.e->name = x; }
        else
        {
            s.e->enumerators = vals(x);
            s.e->RebuildCaches();
        }
        return;
    }
    if (s.m && path.empty())
    {
        if (p == "id") { s.m->_id = x; }
        else if (p == "log") { s.m->logID = x; }
        else if (p == "name") { s.m->name = x; }
        else if (p == "tag") { s.m->description = x; }
        else if (p == "latest") { s.m->latestMessageCrc = vh::u32of(x); }
        else { s.m->fieldInfo.erase(vh::u32of(x)); }
        return;
    }
    if (p == "push") { infoOf(s, path).messageOrderedFields.push_back(mkField(x)); }
    else if (p == "pop") { infoOf(s, path).messageOrderedFields.pop_back(); }
    else if (p == "fb") { infoOf(s, path).fixedFieldBytes = x; }
    else if (p == "vc") { infoOf(s, path).varFieldCount = x; }
    else
    {
        BaseField& f = fieldOf(s, path);
        if (p == "n") { f.name = x; }
        else if (p == "t") { f.type = fieldType(x); }
        else if (p == "d") { f.description = x; }
        else if (p == "dt") { f.dataType.name = DataTypeEnumLookup.at(x.get<std::string>()); }
        else if (p == "len") { f.dataType.length = x; }
        else if (p == "dd") { f.dataType.description = x; }
        else if (p == "i") { f.index = x; }
        else if (p == "enum") { dynamic_cast<EnumField&>(f).enumId = x; }
        else if (p == "al") { dynamic_cast<ArrayField&>(f).arrayLength = x; }
        else if (p == "ref") { dynamic_cast<ArrayField&>(f).arrayLengthRef = x; }
        else if (p == "alfs") { dynamic_cast<ArrayField&>(f).arrayLengthFieldSize = x; }
    }
}

int main(int argc, char** argv)
{
    mallopt(M_PERTURB, 0xA5); // what is released does not keep its content
    return vh::drive(argc, argv, [](J& sc) {
        Slot sl[5];
        for (auto& e : sc["ev"])
        {
            const std::string op = e["op"];
            std::vector<int> path;
            if (e.contains("path")) { path = e["path"].get<std::vector<int>>(); }
            if (op == "new") { make(sl[e["s"].get<int>()], e["k"], e["v"]); }
            else if (op == "del") { sl[e["s"].get<int>()] = Slot(); }
            else if (op == "set") { setPart(sl[e["s"].get<int>()], path, e["part"], e["x"]); }
            else if (op == "conv")
            {
                e["r"] = "ok";
                try
                {
                    fieldOf(sl[e["s"].get<int>()], path).SetConversion(str(e["x"]));
                }
                catch (const std::exception&)
                {
                    e["r"] = "bad";
                }
            }
            else
            {
                Slot &d = sl[e["d"].get<int>()], &s = sl[e["s"].get<int>()];
                const bool mv = op == "mv";
                if (s.e)
                {
                    if (d.e && mv) { *d.e = std::move(*s.e); }
                    else if (d.e) { *d.e = *s.e; }
                    else if (mv) { d.e = std::make_unique<EnumDefinition>(std::move(*s.e)); }
                    else { d.e = std::make_unique<EnumDefinition>(*s.e); }
                }
                else if (s.m)
                {
                    if (d.m && mv) { *d.m = std::move(*s.m); }
                    else if (d.m) { *d.m = *s.m; }
                    else if (mv) { d.m = std::make_unique<MessageDefinition>(std::move(*s.m)); }
                    else { d.m = std::make_unique<MessageDefinition>(*s.m); }
                }
                else if (s.f) { d.f = mv ? s.f : s.f->clone(); }
                else { d.i = mv ? s.i : s.i->clone(); }
                d.k = s.k;
                if (mv) { s = Slot(); }
            }
            e["obs"] = observe(sl, sc["qs"]);
        }
    });
}
