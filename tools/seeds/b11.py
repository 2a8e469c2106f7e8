ID="p17-transfer-restarts-in-buffer"; PROP="P17"
NEEDS="a transfer that arrives in more than one piece"
BREAKS="every piece is put at the beginning of the buffer"
EDITS=[("src/file/file_util.c","target_func(file_handle, (char*)buffer + cur_char_count, max_char_count - cur_char_count)","target_func(file_handle, (char*)buffer, max_char_count - cur_char_count)")]
DEMO=r'''
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include "file/file_util.h"
int main(void) {
    int p[2]; char b[16] = {0};
    if (pipe(p)) return 2;
    if (fork() == 0) { write(p[1], "hello ", 6); usleep(200000); write(p[1], "world", 5); _exit(0); }
    close(p[1]);
    int n = file_util_read(p[0], b, 11);
    printf("%d %s\n", n, b);
    return !(n == 11 && !memcmp(b, "hello world", 11));
}
'''
#----
ID="p17-mkdirs-goes-on"; PROP="P17"
NEEDS="a path one of whose beginnings cannot be made"
BREAKS="mkdirs reports success although the folders are not there"
EDITS=[("src/file/file_util.c","			//error occurred on mkdir\n			return ret;","			//error occurred on mkdir\n			continue;")]
DEMO=r'''
#include <stdio.h>
#include <unistd.h>
#include "file/file_util.h"
int main(void) {
    FILE *f = fopen("taken", "w"); if (!f) return 2; fclose(f);
    if (file_util_mkdirs("./a/b/c/") != 0 || access("./a/b/c", F_OK)) return 1;
    return file_util_mkdirs("./taken/b/c/") == 0;
}
'''
#----
ID="p17-read-all-short-file"; PROP="P17"
NEEDS="a file that yields fewer bytes than its length (shrinks, or a read error in the middle)"
BREAKS="read_all reports success with a block that holds only part of the file"
LDFLAGS="-Wl,--wrap=fread"
EDITS=[("src/file/file_util.c","if (file_size != fread(mem, 1, file_size, fp))","if (1 > fread(mem, 1, file_size, fp))")]
DEMO=r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "file/file_util.h"
static int cut;
size_t __real_fread(void *, size_t, size_t, FILE *);
size_t __wrap_fread(void *p, size_t a, size_t n, FILE *f) { return cut ? (size_t)(__real_fread(p, 1, a * n / 2, f) / a) : __real_fread(p, a, n, f); }
int main(void) {
    FILE *f = fopen("x", "w"); if (!f) return 2; fputs("0123456789", f); fclose(f);
    char *d = NULL; int n = 0;
    if (file_util_read_all("x", &d, &n) || !d || n != 10 || memcmp(d, "0123456789", 11)) return 1;
    free(d);
    cut = 1; d = NULL;
    int r = file_util_read_all("x", &d, &n);
    return r == 0 || d != NULL;
}
'''
#----
ID="p17-log-file-exact-limit"; PROP="P17"
NEEDS="a log file that reaches its limit exactly"
BREAKS="the file is not closed when the limit is reached, the next message still goes there"
EDITS=[("src/log/file_logger.c","handle->cur_log_file_size_counter >= handle->cfg.one_piece_file_max_len","handle->cur_log_file_size_counter > handle->cfg.one_piece_file_max_len")]
DEMO=r'''
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <dirent.h>
#include "log/file_logger.h"
#include "lcu.h"
int main(void) {
    char m[100];
    memset(m, 'm', sizeof(m));
    lcu_global_init();
    file_logger_cfg c; memset(&c, 0, sizeof(c));
    strcpy(c.log_folder_path, "./logs/"); strcpy(c.log_file_name_prefix, "p_");
    c.log_queue_size = 256; c.one_piece_file_max_len = 100;
    file_logger_handle h = file_logger_init(&c);
    if (!h) return 2;
    file_logger_log(h, m, 99);
    sleep(2);
    file_logger_log(h, m, 10);
    sleep(1);
    file_logger_deinit(&h);
    lcu_global_cleanup();
    int n = 0; DIR *d = opendir("logs"); if (!d) return 2;
    for (struct dirent *e; (e = readdir(d)); ) n += !strncmp(e->d_name, "p_", 2);
    printf("%d files\n", n);
    return n != 2;
}
'''
#----
ID="p17-refused-message-not-kept"; PROP="P17"
NEEDS="a message that the queue refuses while the logger is told to keep every message"
BREAKS="the refused message is lost instead of being appended to the lost file"
EDITS=[("src/log/file_logger.c","if (MSG_Q_CODE_SUCCESS != status && handle->cfg.is_try_my_best_to_keep_log)\n	{\n		char","if (MSG_Q_CODE_BUF_NOT_ENOUGH == status && handle->cfg.is_try_my_best_to_keep_log)\n	{\n		char")]
DEMO=r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "log/file_logger.h"
#include "lcu.h"
int main(void) {
    char *m = malloc(100000);
    memset(m, 'm', 100000);
    lcu_global_init();
    file_logger_cfg c; memset(&c, 0, sizeof(c));
    if (system("mkdir -p logs")) return 2;
    strcpy(c.log_folder_path, "./logs/"); strcpy(c.log_file_name_prefix, "p_");
    c.log_queue_size = 4; c.is_try_my_best_to_keep_log = true;
    file_logger_handle h = file_logger_init(&c);
    if (!h) return 2;
    int r = file_logger_log(h, m, 60000);
    file_logger_deinit(&h);
    lcu_global_cleanup();
    free(m);
    return r == 0 || access("logs/p__lost.log", F_OK);
}
'''
#----
ID="p17-txt-positive-answer"; PROP="P17"
NEEDS="a handler that asks to stop with a positive answer"
BREAKS="the rest of the file is handed over although the handler said stop"
EDITS=[("src/file/file_util.c","if (0 != (ret = (*handle_txt_line_fn)(line_num, p, user_data)))","if (0 > (ret = (*handle_txt_line_fn)(line_num, p, user_data)))")]
DEMO=r'''
#include <stdio.h>
#include "file/file_util.h"
static int calls;
static int h(int n, char *t, void *u) { calls++; return t[0] == 'b' ? 7 : 0; }
int main(void) {
    FILE *f = fopen("x", "w"); if (!f) return 2; fputs("a\n\nb\nc\n", f); fclose(f);
    int r = file_util_read_txt("x", h, NULL);
    printf("%d %d\n", r, calls);
    return !(r == 7 && calls == 2);
}
'''
#----
ID="p17-txt-blank-lines-not-counted"; PROP="P17"
NEEDS="a blank line in front of another one"
BREAKS="the number handed to the handler is not the number of the line"
EDITS=[("src/file/file_util.c","		if (*p == '\\0' /* || *p == '#' */) \n		{\n			continue;","		if (*p == '\\0' /* || *p == '#' */) \n		{\n			--line_num;\n			continue;")]
DEMO=r'''
#include <stdio.h>
#include "file/file_util.h"
static int bad;
static int h(int n, char *t, void *u) { bad |= n != t[0] - '0'; return 0; }
int main(void) {
    FILE *f = fopen("x", "w"); if (!f) return 2; fputs("0\n1\n \n3\n\n\n6\n", f); fclose(f);
    int r = file_util_read_txt("x", h, NULL);
    return r || bad;
}
'''
