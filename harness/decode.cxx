// Entry point for the decoder that the interface directory offers to other ANSAK libraries.  Never executed.
#include "internal/string_decode_utf8.hxx"

extern "C" {

char32_t h_decode(const char** p) { const char*& q = *p; return ansak::internal::decodeUtf8(q); }

}
