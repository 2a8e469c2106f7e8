ID="p24-get-exact-size"; PROP="P24"
NEEDS="a value buffer exactly as long as the value, without room for its terminator"
BREAKS="ini_parser_get_string writes the terminator behind the caller's buffer instead of answering NO_ENOUGH_MEMORY"
EDITS=[("src/file/ini_parser.c","		if (value_size <= the_value_len)","		if (value_size < the_value_len)")]
DEMO=r'''
#include "w.h"
#include "file/ini_parser.h"
int main(void) {
    ini_parser_handle p = ini_parser_create();
    char b[16]; memset(b, 'x', sizeof b);
    CHECK(0 == ini_parser_put_string(p, "s", "k", "12345678"));
    CHECK(INI_PARSER_CODE_NO_ENOUGH_MEMORY == ini_parser_get_string(p, "s", "k", b, 8));
    CHECK(b[8] == 'x');
    CHECK(0 == ini_parser_get_string(p, "s", "k", b, 9) && 0 == strcmp(b, "12345678") && b[9] == 'x');
    ini_parser_destroy(&p);
    return 0;
}
'''
#----
ID="p24-key-prefix"; PROP="P24"
NEEDS="two keys of one section of which one begins with the other"
BREAKS="a key is found under another one it begins with, so storing it replaces the other's value"
EDITS=[("src/file/ini_parser.c","	return 0 != strcasecmp(key, p_kv->key);","	return 0 != strncasecmp(key, p_kv->key, strlen(p_kv->key));")]
DEMO=r'''
#include "w.h"
#include "file/ini_parser.h"
int main(void) {
    ini_parser_handle p = ini_parser_create();
    char b[16];
    CHECK(0 == ini_parser_put_string(p, "s", "port", "1"));
    CHECK(0 == ini_parser_put_string(p, "s", "port_max", "2"));
    CHECK(0 == ini_parser_get_string(p, "s", "port", b, sizeof b) && 0 == strcmp(b, "1"));
    CHECK(0 == ini_parser_get_string(p, "s", "port_max", b, sizeof b) && 0 == strcmp(b, "2"));
    ini_parser_destroy(&p);
    return 0;
}
'''
#----
ID="p24-value-cut"; PROP="P24"
NEEDS="a value of 64 or more characters"
BREAKS="values are cut to the size of a key although 255 characters are held"
EDITS=[("src/file/ini_parser.c","	strlcpy(p_kv->value, (value ? value : \"\"), sizeof(p_kv->value));","	strlcpy(p_kv->value, (value ? value : \"\"), sizeof(p_kv->key));")]
DEMO=r'''
#include "w.h"
#include "file/ini_parser.h"
int main(void) {
    ini_parser_handle p = ini_parser_create();
    char v[201], b[256]; memset(v, 'v', 200); v[200] = 0;
    CHECK(0 == ini_parser_put_string(p, "s", "k", v));
    CHECK(0 == ini_parser_get_string(p, "s", "k", b, sizeof b) && 0 == strcmp(b, v));
    ini_parser_destroy(&p);
    return 0;
}
'''
#----
ID="p24-stale-section"; PROP="P24"
NEEDS="deleting the section stored to last while others remain, then asking for a section again"
BREAKS="the remembered section is forgotten only when the last section goes, later look-ups use released memory"
CFLAGS="-fsanitize=address"
LDFLAGS="-fsanitize=address"
EDITS=[("src/file/ini_parser.c","	if (p_section == parser_p->p_last_used_section)\n	{","	if (p_section == parser_p->p_last_used_section && 1 == list_length(parser_p->plist_sections))\n	{")]
DEMO=r'''
#include "w.h"
#include "file/ini_parser.h"
int main(void) {
    ini_parser_handle p = ini_parser_create();
    char b[16];
    CHECK(0 == ini_parser_put_string(p, "a", "k", "1"));
    CHECK(0 == ini_parser_put_string(p, "b", "k", "2"));
    CHECK(0 == ini_parser_delete_section(p, "b"));
    CHECK(INI_PARSER_CODE_NOT_FOUND_SECTION_KEY == ini_parser_get_string(p, "b", "k", b, sizeof b));
    CHECK(0 == ini_parser_get_string(p, "a", "k", b, sizeof b) && 0 == strcmp(b, "1"));
    ini_parser_destroy(&p);
    return 0;
}
'''
