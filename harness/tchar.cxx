// Entry points for the Windows part of the API (compiled with -DWIN32 and _MBCS or _UNICODE, 16-bit wchar_t).  Never executed.
#include "string.hxx"

using namespace ansak;
#if defined(_MBCS)
typedef std::string tstr;
#else
typedef std::wstring tstr;
#endif

extern "C" {

bool t_isUtf16_p(const char* s) { return isUtf16(s); }
bool t_isUtf16_s(const std::string& s) { return isUtf16(s); }
bool t_isUcs2_p(const char* s) { return isUcs2(s); }
bool t_isUcs2_s(const std::string& s) { return isUcs2(s); }
bool t_isUcs4_p(const char* s) { return isUcs4(s); }
bool t_isUcs4_s(const std::string& s) { return isUcs4(s); }
void t_toUtf8_p(std::string* r, const char* s) { new (r) std::string(toUtf8(s)); }
void t_toUtf8_s(std::string* r, const std::string& s) { new (r) std::string(toUtf8(s)); }
bool t_isT_8p(const char* s) { return isTstring(s); }
bool t_isT_8s(const std::string& s) { return isTstring(s); }
bool t_isT_16p(const char16_t* s) { return isTstring(s); }
bool t_isT_16s(const std::u16string& s) { return isTstring(s); }
bool t_isT_32p(const char32_t* s) { return isTstring(s); }
bool t_isT_32s(const std::u32string& s) { return isTstring(s); }
void t_toT_8p(tstr* r, const char* s) { new (r) tstr(toTstring(s)); }
void t_toT_8s(tstr* r, const std::string& s) { new (r) tstr(toTstring(s)); }
void t_toT_16p(tstr* r, const char16_t* s) { new (r) tstr(toTstring(s)); }
void t_toT_16s(tstr* r, const std::u16string& s) { new (r) tstr(toTstring(s)); }
void t_toT_32p(tstr* r, const char32_t* s) { new (r) tstr(toTstring(s)); }
void t_toT_32s(tstr* r, const std::u32string& s) { new (r) tstr(toTstring(s)); }

}
