PROPERTY = "G01"; SRC = "script"
exec(open("/verif/tools/seeds/_flat.py").read())
NEEDS = "a message with several definitions of which the newest is not listed last"
BREAKS = "the struct is generated from the definition listed last instead of the newest"
EDITS = [("scripts/gen_flat_cpp_structs.py", "        gen_field_defs(msg['fields'][msg['latestMsgDefCrc']], msg['name'])", "        gen_field_defs(list(msg['fields'].values())[-1], msg['name'])")]
FILES = {"db.json": DB(("AB", 7, [(7, [F("a", "SIMPLE", "UINT", 4), F("b", "SIMPLE", "DOUBLE", 8)]), (5, [F("a", "SIMPLE", "UINT", 4)])]))}
DEMO = PRE + r'''
int main() { CHECK(sizeof(AB) == 12); AB x{}; x.b = 1.5; CHECK(x.b == 1.5 && AT(AB, b) == 4); return 0; }
'''
