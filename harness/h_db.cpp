// Message database: histories of loading, appending, removing, merging (D01), names and enumerations (D02),
// loading and layout (D03).
#include "vh_msg.hpp"

#include <set>

#include "novatel_edie/decoders/common/common.hpp"
#include "novatel_edie/decoders/common/json_db_reader.hpp"
#include "novatel_edie/decoders/common/message_database.hpp"
#include "novatel_edie/decoders/oem/common.hpp"
#include "novatel_edie/decoders/oem/message_decoder.hpp"

using namespace novatel::edie;
using vh::J;

static std::string enumTag(const EnumDefinition* e) { return e && !e->enumerators.empty() ? e->enumerators[0].name : std::string(); }

static J layout(const FieldInfo& fi);
static J layField(const BaseField& f)
{
    J o;
    o["i"] = f.index;
    o["e"] = "";
    o["sub"] = J::array();
    if (auto* e = dynamic_cast<const EnumField*>(&f)) { o["e"] = enumTag(e->enumDef.get()); }
    if (auto* a = dynamic_cast<const FieldArrayField*>(&f)) { o["sub"].push_back(layout(*a->fieldInfo)); }
    return o;
}
static J layout(const FieldInfo& fi)
{
    J a = J::array();
    for (const auto& f : fi.messageOrderedFields) { a.push_back(layField(*f)); }
    return {{"fb", fi.fixedFieldBytes}, {"vc", fi.varFieldCount}, {"f", a}};
}

// what was loaded of a field, for D03
static J loaded(const BaseField& f)
{
    J o;
    o["n"] = f.name;
    o["t"] = std::string(FieldTypeToString(f.type));
    o["dt"] = std::string(DataTypeToString(f.dataType.name));
    o["len"] = f.dataType.length;
    o["conv"] = f.conversion;
    o["enum"] = "";
    o["al"] = 0;
    o["ref"] = "";
    o["alfs"] = 4;
    o["fields"] = J::array();
    o["w"] = f.width ? *f.width : -1;
    o["p"] = f.precision ? *f.precision : -1;
    o["str"] = f.isString;
    o["csv"] = f.isCsv;
    if (auto* e = dynamic_cast<const EnumField*>(&f)) { o["enum"] = e->enumId; }
    if (auto* a = dynamic_cast<const ArrayField*>(&f))
    {
        o["al"] = a->arrayLength;
        o["ref"] = a->arrayLengthRef;
        o["alfs"] = a->arrayLengthFieldSize;
    }
    if (auto* a = dynamic_cast<const FieldArrayField*>(&f))
    {
        for (const auto& g : a->fieldInfo->messageOrderedFields) { o["fields"].push_back(loaded(*g)); }
    }
    return o;
}

struct Universe
{
    std::set<std::string> mn, en, ei;
    std::set<int> mi;
    std::vector<J> crcs;
    void add(const J& o)
    {
        if (o.contains("msgs"))
        {
            for (const auto& m : o["msgs"])
            {
                mn.insert(m["name"].get<std::string>());
                mi.insert(m["id"].get<int>());
            }
        }
        if (o.contains("enums"))
        {
            for (const auto& e : o["enums"])
            {
                en.insert(e["name"].get<std::string>());
                ei.insert(e["id"].get<std::string>());
            }
        }
    }
};

static J observe(const MessageDatabase& db, const Universe& u, const J& crcs)
{
    J o;
    o["ids"] = J::array();
    o["msgs"] = J::array();
    for (const auto& m : db.MessageDefinitions())
    {
        o["ids"].push_back(m->logID);
        J ds = J::array();
        for (const auto& kv : m->fieldInfo) { ds.push_back({{"crc", vh::limbs<uint32_t>(kv.first)}, {"lay", layout(*kv.second)}}); }
        J qs = J::array();
        for (const auto& c : crcs)
        {
            J r = J::array();
            try
            {
                const FieldInfo& fi = m->GetMsgDefFromCrc(vh::u32of(c));
                for (const auto& kv : m->fieldInfo)
                {
                    if (kv.second.get() == &fi) { r.push_back(vh::limbs<uint32_t>(kv.first)); }
                }
            }
            catch (const std::runtime_error&)
            {
            }
            qs.push_back({{"q", c}, {"r", r}});
        }
        o["msgs"].push_back({{"id", m->logID}, {"name", m->name}, {"tag", m->description}, {"defs", ds}, {"crcq", qs}});
    }
    o["mn"] = J::array();
    for (const auto& n : u.mn)
    {
        auto d = db.GetMsgDef(std::string_view(n));
        o["mn"].push_back({{"k", n}, {"v", d ? d->description : std::string()}});
    }
    o["mi"] = J::array();
    for (int n : u.mi)
    {
        auto d = db.GetMsgDef(static_cast<int32_t>(n));
        o["mi"].push_back({{"k", n}, {"v", d ? d->description : std::string()}});
    }
    o["enl"] = J::array();
    for (const auto& e : db.EnumDefinitions()) { o["enl"].push_back(enumTag(e.get())); }
    o["en"] = J::array();
    for (const auto& n : u.en) { o["en"].push_back({{"k", n}, {"v", enumTag(db.GetEnumDefName(n).get())}}); }
    o["ei"] = J::array();
    for (const auto& n : u.ei) { o["ei"].push_back({{"k", n}, {"v", enumTag(db.GetEnumDefId(n).get())}}); }
    return o;
}

static J limbs32(uint32_t v) { return vh::limbs<uint32_t>(v); }

static void histories(J& sc)
{
    Universe u;
    for (const auto& e : sc["ev"]) { u.add(e); }
    MessageDatabase::Ptr db;
    std::vector<MessageDatabase::Ptr> keep; // databases merged from; some are dropped at once
    for (auto& e : sc["ev"])
    {
        const std::string op = e["op"];
        auto mk = [&](const std::string& fam) {
            return ParseJsonDb(vh::dbJson(e.contains("msgs") ? e["msgs"] : J::array(), e.contains("enums") ? e["enums"] : J::array(), fam).dump());
        };
        if (op == "load") { db = mk(e["fam"]); }
        else if (op == "am") { db->AppendMessages(mk(e["fam"])->MessageDefinitions()); }
        else if (op == "ae") { db->AppendEnumerations(mk("")->EnumDefinitions()); }
        else if (op == "rm") { db->RemoveMessage(e["id"].get<uint32_t>()); }
        else if (op == "re") { db->RemoveEnumeration(e["name"].get<std::string>()); }
        else if (op == "mg")
        {
            auto o = mk(e["fam"]);
            const J before = observe(*o, u, sc["crcs"]);
            db->Merge(*o);
            e["same"] = before == observe(*o, u, sc["crcs"]);
        }
        else if (op == "fam") { db->SetMessageFamily(e["fam"]); }
        else if (op == "vec") // a database made of the definitions of this one
        {
            const std::string fam = e["fam"];
            if (fam.empty()) { db = std::make_shared<MessageDatabase>(db->MessageDefinitions(), db->EnumDefinitions()); }
            else
            {
                auto meta = std::make_shared<DbMetadata>();
                meta->messageFamily = fam;
                db = std::make_shared<MessageDatabase>(db->MessageDefinitions(), db->EnumDefinitions(), meta);
            }
        }
        e["obs"] = observe(*db, u, sc["crcs"]);
    }
}

static void names(J& sc)
{
    auto db = ParseJsonDb(vh::dbJson(sc["msgs"], sc["enums"], "OEM").dump());
    for (auto& e : sc["ev"])
    {
        const std::string op = e["op"];
        auto str = [&] { const auto v = vh::bytes(e["s"]); return std::string(v.begin(), v.end()); };
        if (op == "n2i") { e["r"] = limbs32(db->MsgNameToMsgId(str())); }
        else if (op == "i2n") { e["r"] = vh::jbytes(db->MsgIdToMsgName(vh::u32of(e["i"]))); }
        else if (op == "es") { e["r"] = vh::jbytes(std::string(GetEnumString(db->GetEnumDefName(e["en"].get<std::string>()), vh::u32of(e["i"])))); }
        else if (op == "ev") { e["r"] = limbs32(static_cast<uint32_t>(GetEnumValue(db->GetEnumDefName(e["en"].get<std::string>()), str()))); }
        else if (op == "rid") { e["r"] = limbs32(static_cast<uint32_t>(GetResponseId(db->GetEnumDefName(e["en"].get<std::string>()), str()))); }
        else if (op == "mk") { e["r"] = limbs32(CreateMsgId(e["id"].get<uint32_t>(), e["sib"].get<uint32_t>(), e["fmt"].get<uint32_t>(), e["resp"].get<uint32_t>())); }
        else if (op == "un")
        {
            uint16_t id;
            uint32_t s, f, r;
            UnpackMsgId(vh::u32of(e["i"]), id, s, f, r);
            e["r"] = {id, s, f, r};
        }
        else if (op == "mt") { e["r"] = PackMsgType(e["sib"].get<uint32_t>(), e["fmt"].get<uint32_t>(), e["resp"].get<uint32_t>()); }
    }
}

static void loading(J& sc)
{
    for (auto& e : sc["ev"])
    {
        J db = vh::dbJson(e["msgs"], e["enums"], e["fam"]);
        const std::string p = e["del"];
        std::string text;
        if (!p.empty())
        {
            const J::json_pointer ptr(p);
            J& par = db[ptr.parent_pointer()];
            par.erase(ptr.back());
        }
        text = db.dump();
        if (e["cut"].get<int>() > 0) { text.resize(text.size() * e["cut"].get<int>() / 100); }
        e["st"] = "";
        e["out"] = J::array();
        e["en"] = J::array();
        e["lat"] = J::array();
        try
        {
            auto d = ParseJsonDb(text);
            e["st"] = "ok";
            for (const auto& m : d->MessageDefinitions())
            {
                J ds = J::array();
                for (const auto& kv : m->fieldInfo)
                {
                    J a = J::array();
                    for (const auto& f : kv.second->messageOrderedFields) { a.push_back(loaded(*f)); }
                    ds.push_back({{"crc", limbs32(kv.first)}, {"fields", a}, {"lay", layout(*kv.second)}});
                }
                e["out"].push_back({{"id", m->logID}, {"name", m->name}, {"tag", m->description}, {"latest", limbs32(m->latestMessageCrc)}, {"defs", ds}});
            }
            for (const auto& x : d->EnumDefinitions())
            {
                J vs = J::array();
                for (const auto& v : x->enumerators) { vs.push_back({{"v", limbs32(v.value)}, {"n", v.name}, {"d", v.description}}); }
                e["en"].push_back({{"id", x->_id}, {"name", x->name}, {"vals", vs}});
            }
        }
        catch (const JsonDbReaderFailure&)
        {
            e["st"] = "refused";
        }
    }
}

int main(int argc, char** argv)
{
    oem::MessageDecoder reg(nullptr); // pulls in the OEM alignment registration
    return vh::drive(argc, argv, [](J& sc) {
        const std::string k = sc["kind"];
        if (k == "hist") { histories(sc); }
        else if (k == "names") { names(sc); }
        else { loading(sc); }
    });
}
