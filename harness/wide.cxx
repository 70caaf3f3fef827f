// Entry points for the wchar_t part of the API.  Never executed.
#include "string.hxx"

using namespace ansak;

extern "C" {

bool w_isUtf8_p(const wchar_t* s) { return isUtf8(s); }
bool w_isUtf8_s(const std::wstring& s) { return isUtf8(s); }
bool w_isUtf16_p(const wchar_t* s) { return isUtf16(s); }
bool w_isUtf16_s(const std::wstring& s) { return isUtf16(s); }
bool w_isUcs2_p(const wchar_t* s) { return isUcs2(s); }
bool w_isUcs2_s(const std::wstring& s) { return isUcs2(s); }
bool w_isUcs4_p(const wchar_t* s) { return isUcs4(s); }
bool w_isUcs4_s(const std::wstring& s) { return isUcs4(s); }
bool w_isW_8p(const char* s) { return isWstring(s); }
bool w_isW_8s(const std::string& s) { return isWstring(s); }
bool w_isW_16p(const char16_t* s) { return isWstring(s); }
bool w_isW_16s(const std::u16string& s) { return isWstring(s); }
bool w_isW_32p(const char32_t* s) { return isWstring(s); }
bool w_isW_32s(const std::u32string& s) { return isWstring(s); }

void w_toUtf8_p(std::string* r, const wchar_t* s) { new (r) std::string(toUtf8(s)); }
void w_toUtf8_s(std::string* r, const std::wstring& s) { new (r) std::string(toUtf8(s)); }
void w_toUtf16_p(std::u16string* r, const wchar_t* s) { new (r) std::u16string(toUtf16(s)); }
void w_toUtf16_s(std::u16string* r, const std::wstring& s) { new (r) std::u16string(toUtf16(s)); }
void w_toUcs2_p(std::u16string* r, const wchar_t* s) { new (r) std::u16string(toUcs2(s)); }
void w_toUcs2_s(std::u16string* r, const std::wstring& s) { new (r) std::u16string(toUcs2(s)); }
void w_toUcs4_p(std::u32string* r, const wchar_t* s) { new (r) std::u32string(toUcs4(s)); }
void w_toUcs4_s(std::u32string* r, const std::wstring& s) { new (r) std::u32string(toUcs4(s)); }
void w_toW_8p(std::wstring* r, const char* s) { new (r) std::wstring(toWstring(s)); }
void w_toW_8s(std::wstring* r, const std::string& s) { new (r) std::wstring(toWstring(s)); }
void w_toW_16p(std::wstring* r, const char16_t* s) { new (r) std::wstring(toWstring(s)); }
void w_toW_16s(std::wstring* r, const std::u16string& s) { new (r) std::wstring(toWstring(s)); }
void w_toW_32p(std::wstring* r, const char32_t* s) { new (r) std::wstring(toWstring(s)); }
void w_toW_32s(std::wstring* r, const std::u32string& s) { new (r) std::wstring(toWstring(s)); }

}
