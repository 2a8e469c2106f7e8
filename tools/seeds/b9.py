ID="p26-exact-fit-refused"; PROP="P26"
NEEDS="a buffer that is exactly as long as the value and its terminator"
BREAKS="str_params_get_str refuses a value that fits"
EDITS=[("src/mem/str_params.c","		if (strlen(value) + 1 > out_val_size)","		if (strlen(value) + 1 >= out_val_size)")]
DEMO=r'''
#include "w.h"
#include "mem/str_params.h"
int main(void) {
    str_params_ptr p = str_params_create(NULL);
    char b[8];
    CHECK(0 == str_params_add_str(p, "k", "1234567"));
    CHECK(0 == str_params_get_str(p, "k", b, sizeof(b)) && 0 == strcmp(b, "1234567"));
    CHECK(0 > str_params_get_str(p, "k", b, 7));
    str_params_destroy(p);
    return 0;
}
'''
#----
ID="p26-last-equals"; PROP="P26"
NEEDS="a value that contains an equals sign itself"
BREAKS="key and value are parted at the last equals sign of a token"
EDITS=[("src/mem/str_params.c","strchr(kvpair, '=')","strrchr(kvpair, '=')")]
DEMO=r'''
#include "w.h"
#include "mem/str_params.h"
int main(void) {
    str_params_ptr p = str_params_create_str(";", "url=http://a/?q=1;n=2");
    char b[32];
    CHECK(p && 0 == str_params_get_str(p, "url", b, sizeof(b)) && 0 == strcmp(b, "http://a/?q=1"));
    CHECK(0 == str_params_get_str(p, "n", b, sizeof(b)) && 0 == strcmp(b, "2"));
    str_params_destroy(p);
    return 0;
}
'''
#----
ID="p26-taken-key-released"; PROP="P26"
NEEDS="a key that is put a second time"
BREAKS="the new text that replaced the value is released although the map took it"
CFLAGS="-fsanitize=address"
LDFLAGS="-fsanitize=address"
ENV="ASAN_OPTIONS=detect_leaks=0"
EDITS=[("src/mem/str_params.c","		old_val = tmp_val = NULL;","		tmp_val = (old_val == tmp_val) ? NULL : tmp_val;\n		old_val = NULL;")]
DEMO=r'''
#include "w.h"
#include "mem/str_params.h"
int main(void) {
    str_params_ptr p = str_params_create(NULL);
    char b[64];
    CHECK(0 == str_params_add_str(p, "k", "the first value"));
    CHECK(0 == str_params_add_str(p, "k", "the second value, a longer one"));
    CHECK(0 == str_params_get_str(p, "k", b, sizeof(b)) && 0 == strcmp(b, "the second value, a longer one"));
    str_params_destroy(p);
    return 0;
}
'''
#----
ID="p26-number-partly"; PROP="P26"
NEEDS="a value that starts with a number but goes on with something else"
BREAKS="str_params_get_double accepts a value that is a number only in part"
EDITS=[("src/mem/str_params.c","	out = strtod(value, &end);\n	if (*value == '\\0' || *end != '\\0')","	out = strtod(value, &end);\n	if (*value == '\\0' || end == value)")]
DEMO=r'''
#include "w.h"
#include "mem/str_params.h"
int main(void) {
    str_params_ptr p = str_params_create(NULL);
    double d = 7; float f = 7;
    CHECK(0 == str_params_add_str(p, "k", "1.5km"));
    CHECK(0 > str_params_get_double(p, "k", &d) && d == 7);
    CHECK(0 > str_params_get_float(p, "k", &f) && f == 7);
    CHECK(0 == str_params_add_str(p, "k", "1.5"));
    CHECK(0 == str_params_get_double(p, "k", &d) && d == 1.5);
    str_params_destroy(p);
    return 0;
}
'''
