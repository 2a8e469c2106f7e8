ID="p01-ini-put-leak"; PROP="P01"
NEEDS="the allocation of the list node fails while a new key is added"
BREAKS="the key/value record that could not be appended is neither freed nor kept"
EDITS=[("src/file/ini_parser.c", """		allocator_my_free(p_kv);
		return INI_PARSER_CODE_FAILED;""", """		return INI_PARSER_CODE_FAILED;""")]
DEMO=r'''
#include "w.h"
#include "file/ini_parser.h"
int main(void) {
    for (int k = 0; k < 12; k++) {
        long before = g_live;
        ini_parser_handle h = ini_parser_create();
        CHECK(h);
        ini_parser_put_string(h, "s", "a", "1");
        g_n = 0; g_fail = k;
        ini_parser_put_string(h, "s", "b", "2");
        ini_parser_put_string(h, "t", "b", "2");
        g_fail = -1;
        ini_parser_destroy(&h);
        CHECK(g_live == before);
    }
    return 0;
}
'''
#----
ID="p02-hashmap-remove-order"; PROP="P02"
NEEDS="a map with a value release callback and an allocator that overwrites released memory"
BREAKS="the entry is released before its value is read for the release callback"
EDITS=[("src/data/hashmap.c", """			ret = current->value;
			*p = current->next;
			if (current->key && map->fn_key_free)
			{
				map->fn_key_free(current->key);
			}
			if (current->value && map->fn_value_free)
			{
				map->fn_value_free(current->value);
			}
			free(current);
			map->size--;
""", """			void* removed_key = current->key;
			ret = current->value;
			*p = current->next;
			free(current);
			map->size--;
			if (removed_key && map->fn_key_free)
			{
				map->fn_key_free(removed_key);
			}
			if (ret && map->fn_value_free)
			{
				map->fn_value_free(current->value);
			}
""")]
DEMO=r'''
#include "w.h"
#include "data/hashmap.h"
static void *got;
static int h(const void *k) { return (int)(long)k; }
static bool eq(const void *a, const void *b) { return a == b; }
static void vf(void *v) { got = v; }
int main(void) {
    int v[3];
    hashmap_t *m = hashmap_create(8, h, NULL, vf, eq, NULL);
    for (long i = 1; i <= 3; i++) hashmap_put(m, (void *)i, &v[i - 1]);
    hashmap_remove(m, (void *)2);
    if (got != &v[1]) { puts("value callback got something else"); return 1; }
    hashmap_free(m);
    return 0;
}
'''
#----
ID="p05-ini-parse-file-null"; PROP="P05"
NEEDS="the allocation of the duplicated string fails while an ini document is saved"
BREAKS="the failed copy of the dumped text is dereferenced"
EDITS=[("src/file/ini_parser.c", """	if (!ini_str || '\\0' == ini_str[0])
	{
		if (ini_str)
		{
			free(ini_str);
		}
""", """	const size_t dumped_len = strlen(ini_str);
	if (0 == dumped_len)
	{
		free(ini_str);
""")]
DEMO=r'''
#include "w.h"
#include "file/ini_parser.h"
int main(void) {
    for (int k = 0; k < 10; k++) {
        ini_parser_handle h = ini_parser_create();
        CHECK(h);
        ini_parser_put_string(h, "s", "a", "1");
        g_n = 0; g_fail = k;
        ini_parser_save(h, "out.ini");
        g_fail = -1;
        ini_parser_destroy(&h);
    }
    return 0;
}
'''
#----
ID="p06-autocover-early-return"; PROP="P06"
NEEDS="a buffer with lock callbacks that has wrapped, and a read position inside the overwritten gap"
BREAKS="the covered-data result is returned with the caller's lock still held"
EDITS=[("src/ring/autocover_buffer.c", """				//"cover_read_off" shouldn't in this range. if in, that means the data you want to read is already been covered.
				break;""", """				//"cover_read_off" shouldn't in this range. if in, that means the data you want to read is already been covered.
				return real_can_read_len;""")]
DEMO=r"""
#include <stdio.h>
#include "ring/autocover_buffer.h"
static int depth;
static int acq(void *a) { (void)a; depth++; return 0; }
static int rel(void *a) { (void)a; depth--; return 0; }
int main(void) {
    auto_cover_buf_lock_t l = { .arg = NULL, .acquire = acq, .release = rel };
    auto_cover_buf_handle b = auto_cover_buf_create(64, &l);
    char t[64] = {0}, o[64];
    auto_cover_buf_write(b, t, 50);
    auto_cover_buf_read(b, 0, o, 40);
    auto_cover_buf_write(b, t, 30);
    for (unsigned p = 0; p < 64; p++) { auto_cover_buf_available_read(b, p); if (depth) { puts("lock still held"); return 1; } }
    auto_cover_buf_destroy(&b);
    return 0;
}
"""
