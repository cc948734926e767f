PROPERTY = "D02"; SRC = "all"
exec(open("/verif/tools/seeds/_db.py").read())
NEEDS = "a message whose own name ends in A, B or R, written in abbreviated form with a sibling suffix"
BREAKS = "the name no longer translates back to the message's identifier"
EDITS = [("src/decoders/common/src/message_database.cpp", "    if (pclMessageDef != nullptr)\n", "    if (pclMessageDef != nullptr && uiSiblingId == NULL_SIBLING_ID)\n")]
DEMO = PRE + r'''
int main() {
    auto db = ParseJsonDb(dbj(msg(1, "RAWB", 7, defs({{7, ""}})) + "," + msg(2, "TIME", 7, defs({{7, ""}})) + "," + msg(3, "RAW", 7, defs({{7, ""}})), stdEnums()));
    for (unsigned id : {1u, 2u, 3u}) for (unsigned s : {0u, 1u, 5u, 9u}) {
        uint32_t k = CreateMsgId(id, s, 2, 0); S n = db->MsgIdToMsgName(k);
        if (db->MsgNameToMsgId(n) != k) { printf("%s\n", n.c_str()); return 1; }
    }
    return 0;
}
'''
