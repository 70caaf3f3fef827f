// What std::basic_string's constructors, assign and append do with a pair of iterators over units of
// another type: one unit after the other, converted as C++ converts integers.  The analysis enters
// these in their place.  Never executed.
#include <string>

#define FILL(C, T, N) extern "C" void sa_fill_##N(std::basic_string<C>& r, const T* b, const T* e) \
    { for (; b != e; ++b) r.push_back(static_cast<C>(*b)); }
#define FROM(T, N) FILL(char, T, char_##N) FILL(char16_t, T, char16_t_##N) FILL(char32_t, T, char32_t_##N) FILL(wchar_t, T, wchar_t_##N)
FROM(char, char) FROM(unsigned char, unsigned_char) FROM(char16_t, char16_t) FROM(char32_t, char32_t) FROM(wchar_t, wchar_t)
FROM(unsigned short, unsigned_short) FROM(unsigned int, unsigned_int)
