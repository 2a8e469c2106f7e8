ID="p15-builder-grows-once"; PROP="P15"
NEEDS="a text appended that needs more than twice the room the builder has"
BREAKS="the builder doubles its buffer only once and the text is copied beyond its end"
CFLAGS="-fsanitize=address"
LDFLAGS="-fsanitize=address"
ENV="ASAN_OPTIONS=detect_leaks=0"
EDITS=[("src/mem/stringbuilder.c","	while (should_alloc_buf_size < sb->length + string_len + 1U)\n","	if (should_alloc_buf_size < sb->length + string_len + 1U)\n")]
DEMO=r'''
#include "w.h"
#include "mem/stringbuilder.h"
int main(void) {
    stringbuilder_t *sb = stringbuilder_create(16);
    char t[101]; memset(t, 't', 100); t[100] = 0;
    CHECK(0 == stringbuilder_appendstr(sb, "head:"));
    CHECK(0 == stringbuilder_appendstr(sb, t));
    CHECK(stringbuilder_len(sb) == 105 && 0 == strncmp(stringbuilder_to_string(sb), "head:ttt", 8));
    stringbuilder_destroy(&sb);
    return 0;
}
'''
#----
ID="p15-trim-leaves-one"; PROP="P15"
NEEDS="a text that consists of characters to be trimmed only"
BREAKS="strtrim keeps the last character of a text that should become empty"
EDITS=[("src/mem/strings.c","while (sp <= end && strchr(cset, *sp)) sp++;","while (sp < end && strchr(cset, *sp)) sp++;")]
DEMO=r'''
#include "w.h"
#include "mem/strings.h"
int main(void) {
    char a[] = "  x y ", b[] = " \t ";
    strtrim(a, " \t"); CHECK(0 == strcmp(a, "x y"));
    strtrim(b, " \t"); CHECK(0 == strcmp(b, ""));
    return 0;
}
'''
#----
ID="p15-strlcat-one-more"; PROP="P15"
NEEDS="appending a text that does not fit into the rest of the buffer"
BREAKS="strlcat fills the last byte with text and writes the terminator behind the buffer"
EDITS=[("src/mem/strings.c","		if (n != 1) \n","		if (n != 0) \n")]
DEMO=r'''
#include "w.h"
#include "mem/strings.h"
int main(void) {
    char b[16]; memset(b, '#', sizeof b); strcpy(b, "abc");
    CHECK(9 == strlcat(b, "defghi", 8));
    CHECK(0 == strcmp(b, "abcdefg") && b[8] == '#');
    return 0;
}
'''
#----
ID="p15-hex-exact-fit"; PROP="P15"
NEEDS="a capacity of exactly three characters for each byte, without one for the terminator"
BREAKS="str_char2hex takes the text for fitting, cuts the last byte in half and returns a length behind the terminator"
EDITS=[("src/mem/strings.c","	if (chars_count * ONE_HEX_STR_SIZE >= out_hex_str_capacity)","	if (chars_count * ONE_HEX_STR_SIZE > out_hex_str_capacity)")]
DEMO=r'''
#include "w.h"
#include "mem/strings.h"
int main(void) {
    char in[40], out[120]; memset(in, 0x5a, sizeof in);
    size_t n = str_char2hex(out, sizeof out, in, sizeof in);
    CHECK(n == strlen(out) && n < sizeof out);
    CHECK(strncmp(out, "hex truncated(40):", 18) == 0);
    return 0;
}
'''
