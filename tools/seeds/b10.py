ID="p04-tag-padding"; PROP="P04"
NEEDS="a log tag longer than the 22 characters that are kept"
BREAKS="the padding of the tag runs to its uncut length: the header leaves the stack buffer"
EDITS=[("src/log/xlog.c","(cpy_tag_len < 8U ? 8U : cpy_tag_len)","(origin_tag_len < 8U ? 8U : origin_tag_len)")]
DEMO=r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "log/xlog.h"
#include "lcu.h"
static char last[8192];
static void cb(LogLevel level, char *msg, size_t n, void *u) { snprintf(last, sizeof(last), "%s", msg); }
int main(void) {
    static char tag[6000];
    memset(tag, 'T', sizeof(tag) - 1);
    lcu_global_init();
    xlog_set_format(LOG_FORMAT_WITH_TIMESTAMP | LOG_FORMAT_WITH_TAG_LEVEL);
    xlog_set_target(LOG_TARGET_CONSOLE);
    __xlog_internal_print(LOG_LEVEL_INFO, tag, NULL, -1, "%s", "hello");
    lcu_global_cleanup();
    return 0;
}
'''
#----
ID="p04-log-cache-capacity"; PROP="P04"
NEEDS="two large log messages, the second a few bytes longer than the rounded size of the first"
BREAKS="the message cache is taken for larger than it is and overrun"
LDFLAGS="".join(" -Wl,--wrap=" + x for x in ("malloc", "calloc", "realloc", "free", "strdup", "strndup"))
FILES={"ef.h": open("/verif/tools/ef.h").read()}
EDITS=[("src/log/file_logger.c","handle->cur_msg_obj_capacity = (size_t)new_msg_max_size;","handle->cur_msg_obj_capacity = new_mem_size;")]
DEMO=r'''
#include "ef.h"
#include <unistd.h>
#include "log/file_logger.h"
#include "lcu.h"
int main(void) {
    static char m[5000];
    memset(m, 'm', sizeof(m));
    lcu_global_init();
    file_logger_cfg c; memset(&c, 0, sizeof(c));
    strcpy(c.log_folder_path, "./logs/"); strcpy(c.log_file_name_prefix, "p_");
    c.log_queue_size = 256;
    file_logger_handle h = file_logger_init(&c);
    CHECK(h);
    CHECK(0 == file_logger_log(h, m, 3000));
    for (size_t n = 4090; n < 4112; n++) CHECK(0 == file_logger_log(h, m, n));
    file_logger_deinit(&h);
    lcu_global_cleanup();
    return 0;
}
'''
#----
ID="p04-long-message-no-header-room"; PROP="P04"
NEEDS="a log message too long for the stack buffer, printed with a header"
BREAKS="the heap buffer has no room for the header: the end of the message is written behind it"
LDFLAGS="".join(" -Wl,--wrap=" + x for x in ("malloc", "calloc", "realloc", "free", "strdup", "strndup"))
FILES={"ef.h": open("/verif/tools/ef.h").read()}
EDITS=[("src/log/xlog.c","buffer_log_size = buffer_strlen + need_fmt_str_size;","buffer_log_size = header_len + need_fmt_str_size;")]
DEMO=r'''
#include "ef.h"
#include "log/xlog.h"
#include "lcu.h"
int main(void) {
    static char m[20000];
    memset(m, 'm', sizeof(m) - 1);
    lcu_global_init();
    xlog_set_format(LOG_FORMAT_WITH_TIMESTAMP | LOG_FORMAT_WITH_TAG_LEVEL);
    xlog_set_target(LOG_TARGET_CONSOLE);
    __xlog_internal_print(LOG_LEVEL_INFO, "tag", "some_function_name", 12345, "%s", m);
    lcu_global_cleanup();
    return 0;
}
'''
#----
ID="p04-section-name-fills-array"; PROP="P04"
NEEDS="a section name at least as long as the array it is copied to"
BREAKS="the terminator is written behind the array of the section name"
EDITS=[("src/file/ini_reader.c","for (i = 0; i < size - 1 && src[i]; i++)","for (i = 0; i < size && src[i]; i++)")]
FILES={"demo.c": r'''
#include <stdio.h>
#include <string.h>
#include "file/ini_reader.h"
static int h(void *u, const char *s, const char *n, const char *v) { if (strlen(s) >= 128) *(int *)u = 1; return 1; }
int main(void) {
    static char t[300];
    int bad = 0;
    for (int n = 40; n < 180; n++) {
        memset(t, 0, sizeof(t));
        t[0] = '['; memset(t + 1, 's', n); strcpy(t + 1 + n, "]\nk=v\n");
        if (0 != ini_reader_parse_string(t, h, &bad)) return 1;
    }
    return bad;
}
'''}
SH=r'''#!/bin/bash
# exit 0: behaves as promised; nonzero: broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
b=main
gcc -g -O0 -fsanitize=address -I/repo/inc -I/repo/_build/$b/deploy/inc -I/repo/_build/$b/deploy/inc/config -I/repo/_build/$b/generate \
  -D_DEBUG "$d/demo.c" /repo/src/file/ini_reader.c -o "$t/demo" || exit 2
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
'''
#----
ID="p04-decode-last-escape"; PROP="P04"
NEEDS="an escape that is cut off at the end of the text"
BREAKS="the second digit of a cut escape is read behind the text handed in"
EDITS=[("src/net/url_encoder_decoder.c","if (input_index + 3 <= src_buf_plain_strlen)","if (input_index + 2 <= src_buf_plain_strlen)")]
LDFLAGS="".join(" -Wl,--wrap=" + x for x in ("malloc", "calloc", "realloc", "free", "strdup", "strndup"))
FILES={"ef.h": open("/verif/tools/ef.h").read()}
DEMO=r'''
#include "ef.h"
#include "net/url_encoder_decoder.h"
int main(void) {
    char *s = malloc(8); memcpy(s, "abcdef%4", 8);          /* not terminated: the length is given */
    char o[32], *last = NULL;
    int r = lcu_url_decode(o, sizeof(o), s, 8, &last);
    CHECK(r == 6 && last == s + 6 && 0 == memcmp(o, "abcdef", 7));
    return 0;
}
'''
