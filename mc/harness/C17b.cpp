// C17 with dart::unsafe_ptr.
#include "C17.hpp"
namespace {
using H = dart::basic_heap<dart::unsafe_ptr>; using B = dart::basic_buffer<dart::unsafe_ptr>; using P = dart::basic_packet<dart::unsafe_ptr>;
C17_HIST(h, "heap-unsafe", "every history of 2 (thorough 3) of 141 operations over 3 handles, an iterator and a wrapper", H, 2, 3)
C17_HIST(b, "buffer-unsafe", "every history of 2 (thorough 3) of 141 operations over 3 handles, an iterator, a wrapper and shared bytes", B, 2, 3)
C17_HIST(p, "packet-unsafe", "every history of 2 (thorough 3) of 141 operations over 3 handles, an iterator, a wrapper and shared bytes, from both forms", P, 2, 3)
C17_FORMS(fh, "forms-heap-unsafe", H)
C17_FORMS(fb, "forms-buffer-unsafe", B)
C17_FORMS(fp, "forms-packet-unsafe", P)
}
