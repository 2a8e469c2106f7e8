ID="p16-autocover-no-default"; PROP="P16"
NEEDS="a read position outside the stored range while the stored range does not wrap"
BREAKS="the result is a local that was never set"
EDITS=[("src/ring/autocover_buffer.c","	int real_can_read_len = AUTO_COVER_BUF_ERR_DATA_COVERED;","	int real_can_read_len;"),
("src/ring/autocover_buffer.c","""				//"cover_read_off" shouldn't in this range. if in, that means the data you want to read is already been covered.
				break;""","""				//"cover_read_off" shouldn't in this range. if in, that means the data you want to read is already been covered.
				real_can_read_len = AUTO_COVER_BUF_ERR_DATA_COVERED;
				break;""")]
DEMO=r'''
#include <stdio.h>
#include <string.h>
#include "ring/autocover_buffer.h"
static void __attribute__((noinline)) dirty(void) { volatile char b[512]; for (int i = 0; i < 512; i++) b[i] = 0; }
int main(void) {
    auto_cover_buf_handle h = auto_cover_buf_create(16, NULL);
    if (!h) return 2;
    auto_cover_buf_write(h, "abcd", 4);
    dirty();
    int n = auto_cover_buf_available_read(h, 9);
    printf("%d\n", n);
    return n != AUTO_COVER_BUF_ERR_DATA_COVERED;
}
'''
#----
ID="p03-ini-pair-release"; PROP="P03"
NEEDS="the build with memory checking switched on, and an ini document with at least one key"
BREAKS="the key/value records come from the tracking allocator but the list releases them with the C library's free"
EDITS=[("src/file/ini_parser.c","		target_section->plist_section = list_new(allocator_my_free);","		target_section->plist_section = list_new(free);")]
VARIANT="memcheck"
DEMO=r'''
#include <stdio.h>
#include <string.h>
#include "lcu.h"
#include "mem/mem_debug.h"
#include "file/ini_parser.h"
int main(void) {
    MEM_CHECK_INIT();
    ini_parser_handle h = ini_parser_create();
    if (!h) return 2;
    ini_parser_put_string(h, "section", "key", "value");
    char b[32] = {0};
    if (ini_parser_get_string(h, "section", "key", b, sizeof b) || strcmp(b, "value")) return 1;
    ini_parser_destroy(&h);
    MEM_CHECK_DEINIT();
    return 0;
}
'''
