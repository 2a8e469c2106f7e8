ID="p10-ring-reset-when-drained"; PROP="P10"
NEEDS="the producer writes between the consumer's test for an empty ring and its reset of the positions"
BREAKS="the consumer rewrites the producer's position: bytes just published are lost"
EDITS=[("src/ring/ringbuffer.c","""	if (!is_peek)
	{
		ring_handle->out += size;
	}""","""	if (!is_peek)
	{
		if (size == available_read_size)
		{
			/* drained: start again at the beginning, so that the next message is contiguous */
			ring_handle->in = 0;
			ring_handle->out = 0;
		}
		else
		{
			ring_handle->out += size;
		}
	}""")]
DEMO=r'''
#include "step.h"
#include "ring/ringbuffer.h"
static ring_buffer_handle r;
static char got[8];
static uint32_t n_got, n_put;
static void consumer(void) { n_got = RingBuffer_read(r, got, 4); }
static void producer(void) { n_put = RingBuffer_write(r, "wxyz", 4); }
int main(void) {
    for (long k = 0;; k++) {
        r = RingBuffer_create(16);
        RingBuffer_write(r, "abcd", 4);
        int mid = interleave(consumer, producer, k);
        if (!mid) producer();
        CHECK(n_got == 4 && !memcmp(got, "abcd", 4) && n_put == 4);
        char b[8] = {0};
        CHECK(RingBuffer_available_read(r) == 4);
        CHECK(RingBuffer_read(r, b, 4) == 4 && !memcmp(b, "wxyz", 4));
        RingBuffer_destroy(&r);
        if (!mid) return k < 20;
    }
}
'''
#----
ID="p10-ring-publish-before-copy"; PROP="P10"
NEEDS="the consumer reads while the producer has advanced the write position but not finished copying"
BREAKS="the consumer is handed bytes that were not written yet"
EDITS=[("src/ring/ringbuffer.c","""	/* then put the rest_len (if any) at the beginning of the buffer */
	if ((rest_len = size - first_part_len) > 0)
	{
		memcpy(ring_handle->buf, (char*)source + first_part_len, rest_len);
	}
	ring_handle->in += size;
	return size;""","""	rest_len = size - first_part_len;
	ring_handle->in += size;
	/* then put the rest_len (if any) at the beginning of the buffer */
	if (rest_len > 0)
	{
		memcpy(ring_handle->buf, (char*)source + first_part_len, rest_len);
	}
	return size;""")]
DEMO=r'''
#include "step.h"
#include "ring/ringbuffer.h"
static ring_buffer_handle r;
static char got[32];
static uint32_t n_got, n_put;
static void consumer(void) { n_got = RingBuffer_read(r, got, 16); }
static void producer(void) { n_put = RingBuffer_write(r, "0123456789AB", 12); }
int main(void) {
    for (long k = 0;; k++) {
        r = RingBuffer_create(16);
        RingBuffer_write(r, "............", 12); RingBuffer_discard(r, 12);
        memset(got, 0, sizeof got);
        int mid = interleave(producer, consumer, k);
        CHECK(n_put == 12);
        if (mid) { CHECK(n_got == 0 || n_got == 12); CHECK(n_got == 0 || !memcmp(got, "0123456789AB", 12)); }
        RingBuffer_destroy(&r);
        if (!mid) return k < 20;
    }
}
'''
#----
ID="p10-pop-header-only"; PROP="P10"
NEEDS="the consumer pops after the producer has written a short message's header but before its payload"
BREAKS="a message whose payload is not there yet is popped: the process aborts"
EDITS=[("src/ring/msg_queue.c","""	if (available_read_bytes < sizeof(header) + header.msg_size)
	{
		return MSG_Q_CODE_AGAIN;""","""	if (available_read_bytes < header.msg_size)
	{
		return MSG_Q_CODE_AGAIN;"""),("src/ring/msg_queue.c","""	if (available_read_bytes < sizeof(msg_header_t) + 1)
	{
		return MSG_Q_CODE_EMPTY;""","""	if (available_read_bytes < sizeof(msg_header_t))
	{
		return MSG_Q_CODE_EMPTY;""")]
DEMO=r'''
#include "step.h"
#include "ring/msg_queue.h"
#include "ring/ringbuffer.h"
/* the consumer runs in the middle of the push of the second message */
static msg_queue q;
static char got[64]; static uint32_t n; static int code;
static void producer(void) { msg_queue_push(q, "2nd", 3); }
static void consumer(void) { n = sizeof got; code = msg_queue_pop(q, got, &n); }
static void first(void) { msg_queue_push(q, "first", 5); }
int main(void) {
    for (long k = 0;; k++) {
        q = msg_queue_create(256);
        first(); consumer();
        CHECK(code == MSG_Q_CODE_SUCCESS && n == 5 && !memcmp(got, "first", 5));
        int mid = interleave(producer, consumer, k);
        if (mid) CHECK(code != MSG_Q_CODE_SUCCESS || (n == 3 && !memcmp(got, "2nd", 3)));
        msg_queue_destroy(&q);
        if (!mid) return k < 50;
    }
}
'''
#----
ID="p12-push-size-wraps"; PROP="P12"
NEEDS="a message size within four bytes of 2^32"
BREAKS="the space test wraps around: the header of a message that cannot fit is stored and the process aborts"
EDITS=[("src/ring/msg_queue.c","""	if (RingBuffer_available_write(msg_queue_p->ring_buf_p) < (sizeof(msg_header_t) + msg_size))
	{""","""	const uint32_t need_bytes = (uint32_t)sizeof(msg_header_t) + msg_size;
	if (RingBuffer_available_write(msg_queue_p->ring_buf_p) < need_bytes)
	{""")]
DEMO=r'''
#include <stdio.h>
#include <string.h>
#include "ring/msg_queue.h"
int main(void) {
    static char big[256];
    msg_queue q = msg_queue_create(128);
    uint32_t room = msg_queue_available_push_bytes(q);
    if (msg_queue_push(q, big, 0xFFFFFFFEu) == MSG_Q_CODE_SUCCESS) return 1;
    if (msg_queue_available_push_bytes(q) != room || msg_queue_available_pop_bytes(q)) return 1;
    msg_queue_destroy(&q);
    return 0;
}
'''
#----
ID="p12-fixed-pop-partial"; PROP="P12"
NEEDS="a fixed-size queue whose capacity in bytes is not a multiple of the message size, filled to the brim"
BREAKS="a push is accepted only in part and a fragment of a message stays in the queue"
EDITS=[("src/ring/fixed_msg_queue.c","""    if (fixed_msg_queue_is_full(msg_queue)) 
    {""","""    if (RingBuffer_is_full(msg_queue->ring_buf_p)) 
    {""")]
DEMO=r'''
#include <stdio.h>
#include <string.h>
#include "ring/fixed_msg_queue.h"
int main(void) {
    fixed_msg_queue q = fixed_msg_queue_create(7, 16);
    char m[7], g[7];
    int in = 0, out = 0;
    for (int i = 0; i < 40; i++) { memset(m, 'a' + in % 26, 7); if (fixed_msg_queue_push(q, m)) in++; }
    while (fixed_msg_queue_pop(q, g)) { memset(m, 'a' + out % 26, 7); if (memcmp(m, g, 7)) return 1; out++; }
    if (in != out || in == 0) return 1;
    for (int i = 0; i < 5; i++) { memset(m, 'A' + i, 7); if (!fixed_msg_queue_push(q, m)) return 1; }
    for (int i = 0; i < 5; i++) { memset(m, 'A' + i, 7); if (!fixed_msg_queue_pop(q, g) || memcmp(m, g, 7)) { printf("message %d damaged\n", i); return 1; } }
    fixed_msg_queue_destroy(&q);
    return 0;
}
'''
#----
ID="p11-peek-consumes-at-wrap"; PROP="P11"
NEEDS="a peek whose range wraps around the end of the memory"
BREAKS="peeking consumes the bytes"
EDITS=[("src/ring/ring_buf.c","""		if (!is_peek)
		{
			handle->offset_read = second_part_len;
		}""","""		handle->offset_read = second_part_len;""")]
DEMO=r'''
#include <stdio.h>
#include <string.h>
#include "ring/ring_buf.h"
int main(void) {
    ring_handle r = ring_buf_create(11);
    char b[16];
    for (int s = 0; s < 25; s++) {
        if (ring_buf_write(r, "abcdefg", 7) != 7) return 1;
        if (ring_buf_peek(r, b, 7) != 7 || memcmp(b, "abcdefg", 7)) return 1;
        if (ring_buf_available_read(r) != 7) { printf("round %d: peek consumed\n", s); return 1; }
        if (ring_buf_read(r, b, 7) != 7 || memcmp(b, "abcdefg", 7)) return 1;
    }
    ring_buf_destroy(&r);
    return 0;
}
'''
#----
ID="p11-autocover-discards-too-much"; PROP="P11"
NEEDS="a write into an overwriting buffer that is partly full, longer than the room left"
BREAKS="more of the oldest data is dropped than needed: data that should still be readable is gone"
EDITS=[("src/ring/autocover_buffer.c","RingBuffer_discard(buf_handle->ring, write_len - ring_available_write);","RingBuffer_discard(buf_handle->ring, write_len > RingBuffer_available_read(buf_handle->ring) ? RingBuffer_available_read(buf_handle->ring) : write_len);")]
DEMO=r'''
#include <stdio.h>
#include <string.h>
#include "ring/autocover_buffer.h"
int main(void) {
    auto_cover_buf_handle h = auto_cover_buf_create(16, NULL);
    if (!h) return 2;
    if (auto_cover_buf_write(h, "abcdefghijkl", 12) < 0) return 1;
    if (auto_cover_buf_write(h, "mnopqrst", 8) < 0) return 1;   /* 4 bytes have to go */
    char b[20] = {0};
    int n = auto_cover_buf_read(h, 4, b, 16);
    printf("%d %s\n", n, b);
    return !(n == 16 && !memcmp(b, "efghijklmnopqrst", 16));
}
'''
