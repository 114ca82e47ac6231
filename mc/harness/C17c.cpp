// C17 with dart::skinny_ptr.
#include "C17.hpp"
namespace {
using H = dart::basic_heap<dart::skinny_ptr>; using B = dart::basic_buffer<dart::skinny_ptr>; using P = dart::basic_packet<dart::skinny_ptr>;
C17_HIST(h, "heap-skinny", "every history of 2 (thorough 3) of 141 operations over 3 handles, an iterator and a wrapper", H, 2, 3)
C17_HIST(b, "buffer-skinny", "every history of 2 (thorough 3) of 141 operations over 3 handles, an iterator, a wrapper and shared bytes", B, 2, 3)
C17_HIST(p, "packet-skinny", "every history of 2 (thorough 3) of 141 operations over 3 handles, an iterator, a wrapper and shared bytes, from both forms", P, 2, 3)
C17_FORMS(fh, "forms-heap-skinny", H)
C17_FORMS(fb, "forms-buffer-skinny", B)
C17_FORMS(fp, "forms-packet-skinny", P)
}
