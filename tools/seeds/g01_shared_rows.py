PROPERTY = "G01"; SRC = "script"
exec(open("/verif/tools/seeds/_flat.py").read())
NEEDS = "two messages whose field arrays have the same name and different rows"
BREAKS = "the rows of field arrays of the same name in different messages are given one struct"
EDITS = [("scripts/gen_flat_cpp_structs.py", """            struct_name = f'{msg_name}_{field["name"]}'""", """            struct_name = f'{field["name"]}_row'""")]
ROW = lambda *fs: F("obs", "FIELD_ARRAY", "UNKNOWN", 0, arrayLength=3, fields=list(fs))
FILES = {"db.json": DB(("AB", 7, [(7, [ROW(F("a", "SIMPLE", "UINT", 4))])]), ("CD", 7, [(7, [ROW(F("a", "SIMPLE", "UINT", 4), F("b", "SIMPLE", "UINT", 4))])]))}
DEMO = PRE + r'''
int main() { CHECK(sizeof(AB) == 4 + 3 * 4); CHECK(sizeof(CD) == 4 + 3 * 8); CD x{}; CHECK((char*)&x.obs[2].b - (char*)&x == 4 + 16 + 4); return 0; }
'''
