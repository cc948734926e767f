PROPERTY = "G01"; SRC = "script"
exec(open("/verif/tools/seeds/_flat.py").read())
NEEDS = "a message with a ULONG field, compiled where long has eight bytes"
BREAKS = "ULONG fields are given a type whose size depends on the platform"
EDITS = [("scripts/gen_flat_cpp_structs.py", "    'ULONG': 'uint32_t',", "    'ULONG': 'unsigned long',")]
FILES = {"db.json": DB(("AB", 7, [(7, [F("a", "SIMPLE", "ULONG", 4), F("b", "SIMPLE", "USHORT", 2), F("c", "FIXED_LENGTH_ARRAY", "ULONG", 4, arrayLength=2)])]))}
DEMO = PRE + r'''
int main() { CHECK(sizeof(AB) == 16 && AT(AB, b) == 4 && AT(AB, c) == 8); return 0; }
'''
