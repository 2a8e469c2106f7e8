B = "src/data/base64.c"
U = "src/net/url_encoder_decoder.c"
import_ = r'''#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "data/base64.h"
#include "net/url_encoder_decoder.h"
'''
#----
ID="p19-two-byte-tail"; PROP="P19"
NEEDS="a length that leaves two bytes over and a last byte of 128 or more"
BREAKS="the top bit of the last byte is lost by encoding"
EDITS=[(B,"			*p++ = basis_64[((src_buf_plain[i] & 0x3) << 4) |\n				((int)(src_buf_plain[i + 1] & 0xF0) >> 4)];\n			*p++ = basis_64[((src_buf_plain[i + 1] & 0xF) << 2)];","			*p++ = basis_64[((src_buf_plain[i] & 0x3) << 4) |\n				((int)(src_buf_plain[i + 1] & 0x70) >> 4)];\n			*p++ = basis_64[((src_buf_plain[i + 1] & 0xF) << 2)];")]
DEMO=import_+r'''
int main(void) {
    for (int a = 0; a < 256; a++)
        for (int b = 0; b < 256; b++)
            for (int n = 2; n < 8; n++) {
                char s[8], e[32], d[32];
                for (int i = 0; i < n; i++) s[i] = (char)(i & 1 ? b : a);
                if (lcu_base64_encode(e, s, n) != lcu_base64_encode_buf_size(n)) return 2;
                if (lcu_base64_decode(d, e) != n || memcmp(d, s, n)) { printf("%d %d, %d bytes\n", a, b, n); return 1; }
            }
    return 0;
}
'''
#----
ID="p19-escape-at-end"; PROP="P19"
NEEDS="a text that ends in an escape"
BREAKS="the last escape is left undecoded"
EDITS=[(U,"			if (input_index + 3 <= src_buf_plain_strlen)\n","			if (input_index + 3 < src_buf_plain_strlen)\n")]
DEMO=import_+r'''
int main(void) {
    for (int c = 1; c < 256; c++)
        for (int n = 1; n < 6; n++) {
            char s[8], e[32], d[32], *last = NULL;
            memset(s, c, n);
            int m = lcu_url_encode(e, sizeof(e), s, n);
            if (m < n) return 2;
            int k = lcu_url_decode(d, sizeof(d), e, m, &last);
            if (k != n || memcmp(d, s, n) || d[n] || last != e + m) { printf("%d times %d: %d\n", n, c, k); return 1; }
        }
    return 0;
}
'''
#----
ID="p19-fitting-escape-refused"; PROP="P19"
NEEDS="an output buffer that is just large enough for a text that ends in an escape"
BREAKS="encoding is refused although everything fits"
EDITS=[(U,"			if (output_index + 3 < out_buf_encoded_size)\n","			if (output_index + 3 + 1 < out_buf_encoded_size)\n")]
DEMO=import_+r'''
int main(void) {
    static const char *texts[] = {"a", "a b", "%", "a%", "ab/c?", "\xe4\xb8\xad", "x=1&y=2", "  +"};
    for (int k = 0; k < 8; k++) {
        char big[64], e[64];
        int n = (int)strlen(texts[k]), m = lcu_url_encode(big, sizeof(big), texts[k], n);
        if (m < n) return 2;
        memset(e, 'x', sizeof(e));
        int r = lcu_url_encode(e, m + 1, texts[k], n);
        if (r != m || strcmp(e, big)) { printf("%s: %d, not %d\n", texts[k], r, m); return 1; }
        if (m > 1 && lcu_url_encode(e, m, texts[k], n) >= 0) { printf("%s fits in %d?\n", texts[k], m); return 1; }
    }
    return 0;
}
'''
#----
ID="p19-place-counted-in-output"; PROP="P19"
NEEDS="escapes, and a caller that goes on from the place reported"
BREAKS="the place where decoding stopped is counted in decoded bytes"
EDITS=[(U,"		*last_src_pos = (char *)src_buf_plain + input_index;\n","		*last_src_pos = (char *)src_buf_plain + (output_index < out_buf_decoded_size - 1 ? input_index : output_index);\n")]
DEMO=import_+r'''
int main(void) {
    const char *text = "caf%C3%A9+au+lait%2C+s%27il+vous+pla%C3%AEt";
    char whole[128];
    int n = lcu_url_decode(whole, sizeof(whole), text, strlen(text), NULL);
    if (n <= 0) return 2;
    for (int room = 2; room < 16; room++) {
        char got[256], part[16], *at = (char *)text, *end = at + strlen(text);
        int len = 0;
        for (int i = 0; at < end && i < 64; i++) {
            int k = lcu_url_decode(part, room, at, end - at, &at);
            if (k < 0 || len + k > 200) { printf("room %d: %d\n", room, k); return 1; }
            memcpy(got + len, part, k);
            len += k;
        }
        if (len != n || memcmp(got, whole, n)) { printf("room %d: %.*s\n", room, len, got); return 1; }
    }
    return 0;
}
'''
