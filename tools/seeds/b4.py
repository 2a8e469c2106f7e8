ID="p13-map-keys-of-equal-hash"; PROP="P13"
NEEDS="two different keys with the same hash"
BREAKS="the second key replaces the first one's value"
EDITS=[("src/data/hashmap.c","	if (hashA != hashB)\n	{\n		return false;\n	}\n	return fn_equals(keyA, keyB);","	if (hashA == hashB)\n	{\n		return true;\n	}\n	return fn_equals(keyA, keyB);")]
DEMO=r'''
#include "w.h"
#include "data/hashmap.h"
static int h(const void *k) { (void)k; return 7; }
static bool eq(void *a, void *b) { return strcmp(a, b) == 0; }
int main(void) {
    hashmap_t *m = hashmap_create(8, (void*)h, NULL, NULL, (void*)eq, NULL);
    CHECK(m);
    hashmap_put(m, "a", "1"); hashmap_put(m, "b", "2");
    CHECK(hashmap_size(m) == 2);
    CHECK(!strcmp(hashmap_get(m, "a"), "1"));
    CHECK(!strcmp(hashmap_get(m, "b"), "2"));
    return 0;
}
'''
#----
ID="p13-map-growth-loses-chain"; PROP="P13"
NEEDS="the map grows while one bucket holds several entries"
BREAKS="only one entry of each chain reaches the new bucket array"
EDITS=[("src/data/hashmap.c","			Entry* next = entry->next;\n			size_t index = calculateIndex(newBucketCount, entry->hash);\n			entry->next = newBuckets[index];\n			newBuckets[index] = entry;","			Entry* next = entry->next;\n			size_t index = calculateIndex(newBucketCount, entry->hash);\n			newBuckets[index] = entry;")]
DEMO=r'''
#include "w.h"
#include "data/hashmap.h"
static int h(const void *k) { return (int)(((const char *)k)[0] & 1); }
static bool eq(void *a, void *b) { return strcmp(a, b) == 0; }
int main(void) {
    static char k[12][2];
    hashmap_t *m = hashmap_create(2, (void*)h, NULL, NULL, (void*)eq, NULL);
    CHECK(m);
    for (int i = 0; i < 12; i++) { k[i][0] = 'a' + i; hashmap_put(m, k[i], k[i]); }
    for (int i = 0; i < 12; i++) CHECK(hashmap_get(m, k[i]) == k[i]);
    return 0;
}
'''
#----
ID="p13-array-grow-copies-half"; PROP="P13"
NEEDS="an array of elements larger than one byte that outgrows its initial capacity"
BREAKS="only as many bytes as there are elements are kept"
EDITS=[("src/data/array.c","memcpy(new_data, array->internal_storage, array->length * array->element_size);","memcpy(new_data, array->internal_storage, array->length * (array->element_size > 4 ? 4 : array->element_size));")]
DEMO=r'''
#include "w.h"
#include "data/array.h"
typedef struct { long a, b; } E;
int main(void) {
    array_t *a = array_new_with_init_capacity(sizeof(E), 4);
    CHECK(a);
    for (long i = 0; i < 9; i++) { E e = {i + 1, ~i}; CHECK(array_append_ptr(a, &e)); }
    for (long i = 0; i < 9; i++) { E *e = array_at(a, (size_t)i); CHECK(e->a == i + 1 && e->b == ~i); }
    return 0;
}
'''
#----
ID="p14-map-foreach-next-bucket"; PROP="P14"
NEEDS="a map with entries in several buckets and a callback that stops early"
BREAKS="stopping ends only the current bucket"
EDITS=[("src/data/hashmap.c","			if (!callback(entry->key, entry->value, context))\n			{\n				keep_going = false;\n				break;\n			}","			keep_going = callback(entry->key, entry->value, context);\n			if (!keep_going && next != NULL)\n			{\n				break;\n			}\n			keep_going = true;")]
DEMO=r'''
#include "w.h"
#include "data/hashmap.h"
static int h(const void *k) { return (int)((const char *)k)[0]; }
static bool eq(void *a, void *b) { return strcmp(a, b) == 0; }
static int n;
static bool cb(void *k, void *v, void *c) { (void)k; (void)v; (void)c; n++; return false; }
int main(void) {
    hashmap_t *m = hashmap_create(32, (void*)h, NULL, NULL, (void*)eq, NULL);
    CHECK(m);
    hashmap_put(m, "a", "1"); hashmap_put(m, "b", "2"); hashmap_put(m, "c", "3");
    hashmap_foreach(m, cb, NULL);
    CHECK(n == 1);
    return 0;
}
'''
#----
ID="p14-directory-skips-short-names"; PROP="P14"
NEEDS="a directory holding a hidden file with a one-letter name, such as .a"
BREAKS="it is taken for the parent directory and skipped"
EDITS=[("src/file/file_iterator.c","if (d_name_len == 2 && '.' == direntp->d_name[0] && '.' == direntp->d_name[1]) // parent dir","if (d_name_len == 2 && '.' == direntp->d_name[0]) // parent dir")]
DEMO=r'''
#include "w.h"
#include <sys/stat.h>
#include <unistd.h>
#include "file/file_iterator.h"
static int n;
static int cb(file_info_t *i, void *u) { (void)i; (void)u; n++; return 0; }
int main(void) {
    char d[] = "/tmp/iterXXXXXX", p[64];
    CHECK(mkdtemp(d));
    snprintf(p, sizeof p, "%s/.a", d);
    FILE *f = (fopen)(p, "w"); CHECK(f); (fclose)(f);
    int r = file_iterator_foreach(d, cb, NULL);
    unlink(p); rmdir(d);
    CHECK(r == 0 && n == 1);
    return 0;
}
'''
