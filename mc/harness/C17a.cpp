// C17 with std::shared_ptr.
#include "C17.hpp"
namespace {
using H = dart::basic_heap<std::shared_ptr>; using B = dart::basic_buffer<std::shared_ptr>; using P = dart::basic_packet<std::shared_ptr>;
C17_HIST(h, "heap-shared", "every history of 2 (thorough 3) of 141 operations over 3 handles, an iterator and a wrapper", H, 2, 3)
C17_HIST(b, "buffer-shared", "every history of 2 (thorough 3) of 141 operations over 3 handles, an iterator, a wrapper and shared bytes", B, 2, 3)
C17_HIST(p, "packet-shared", "every history of 2 (thorough 3) of 141 operations over 3 handles, an iterator, a wrapper and shared bytes, from both forms", P, 2, 3)
C17_FORMS(fh, "forms-heap-shared", H)
C17_FORMS(fb, "forms-buffer-shared", B)
C17_FORMS(fp, "forms-packet-shared", P)
}
