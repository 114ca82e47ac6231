// C17 with tracked_ptr.
#include "C17.hpp"
namespace {
using H = dart::basic_heap<tracked_ptr>; using B = dart::basic_buffer<tracked_ptr>; using P = dart::basic_packet<tracked_ptr>;
C17_HIST(h, "heap-tracked", "every history of 2 (thorough 3) of 141 operations over 3 handles, an iterator and a wrapper", H, 2, 3)
C17_HIST(b, "buffer-tracked", "every history of 3 (thorough 4) of 141 operations over 3 handles, an iterator, a wrapper and shared bytes", B, 3, 4)
C17_HIST(p, "packet-tracked", "every history of 2 (thorough 3) of 141 operations over 3 handles, an iterator, a wrapper and shared bytes, from both forms", P, 2, 3)
C17_FORMS(fh, "forms-heap-tracked", H)
C17_FORMS(fb, "forms-buffer-tracked", B)
C17_FORMS(fp, "forms-packet-tracked", P)
}
