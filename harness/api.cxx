// Entry points for the analyses: each function makes one call to the public API, so that
// overload resolution and default arguments are part of what is analysed.  Never executed.
#include "string.hxx"
#include "string_splitjoin.hxx"
#include "string_trim.hxx"

using namespace ansak;
typedef EncodingCheckPredicate Pred;

// the predicates used as analysis contexts
static Pred mk(int which)
{
    switch (which)
    {
    default: return Pred();
    case 1: return validIf(kIsAssigned);
    case 2: return validIf(kIsPrivate);
    case 3: return validIf(kIsControl);
    case 4: return validIf(kIsWhitespace);
    case 5: return validIfNot(kIsAssigned);
    case 6: return validIfNot(kIsPrivate);
    case 7: return validIfNot(kIsControl);
    case 8: return validIfNot(kIsWhitespace);
    case 9: return validIf(kIsAssigned).andIfNot(kIsControl).andIfNot(kIsWhitespace);
    case 10: return validIf(kIsNone);
    case 11: return validIfNot(kIsNone);
    case 12: return validIf(kFirstInvalidEncoding);
    case 13: return validIfNot(kFirstInvalidEncoding);
    case 14: return validIf(kIsAssigned).andIf(kIsAssigned);
    case 15: return validIfNot(kIsWhitespace).andIf(kIsControl).andIf(kIsAssigned).andIfNot(kIsPrivate);
    }
}

// two-step conjunctions: t1 with polarity p1, then t2 with polarity p2
static Pred mk2(int t1, int p1, int t2, int p2)
{
    Pred a = p1 ? validIf(static_cast<EncodingType>(t1)) : validIfNot(static_cast<EncodingType>(t1));
    return p2 ? a.andIf(static_cast<EncodingType>(t2)) : a.andIfNot(static_cast<EncodingType>(t2));
}
static Pred mk3(int t1, int p1, int t2, int p2, int t3, int p3)
{
    Pred a = mk2(t1, p1, t2, p2);
    return p3 ? a.andIf(static_cast<EncodingType>(t3)) : a.andIfNot(static_cast<EncodingType>(t3));
}

static Pred mk4(int t1, int p1, int t2, int p2, int t3, int p3, int t4, int p4)
{
    Pred a = mk3(t1, p1, t2, p2, t3, p3);
    return p4 ? a.andIf(static_cast<EncodingType>(t4)) : a.andIfNot(static_cast<EncodingType>(t4));
}

extern "C" {

// ---- predicates applied to one character
bool h_pred32(int which, char32_t c) { return mk(which)(c); }
bool h_pred16(int which, char16_t c) { return mk(which)(c); }
bool h_pred8(int which, char c) { return mk(which)(c); }
bool h_pred32_2(int t1, int p1, int t2, int p2, char32_t c) { return mk2(t1, p1, t2, p2)(c); }
bool h_pred16_2(int t1, int p1, int t2, int p2, char16_t c) { return mk2(t1, p1, t2, p2)(c); }
bool h_pred8_2(int t1, int p1, int t2, int p2, char c) { return mk2(t1, p1, t2, p2)(c); }
bool h_pred32_3(int t1, int p1, int t2, int p2, int t3, int p3, char32_t c) { return mk3(t1, p1, t2, p2, t3, p3)(c); }
bool h_pred32_4(int t1, int p1, int t2, int p2, int t3, int p3, int t4, int p4, char32_t c) { return mk4(t1, p1, t2, p2, t3, p3, t4, p4)(c); }
bool h_predeq2(int t1, int p1, int t2, int p2, int u1, int q1, int u2, int q2) { return mk2(t1, p1, t2, p2) == mk2(u1, q1, u2, q2); }
bool h_predne2(int t1, int p1, int t2, int p2, int u1, int q1, int u2, int q2) { return mk2(t1, p1, t2, p2) != mk2(u1, q1, u2, q2); }
bool h_predeq3(int t1, int p1, int t2, int p2, int t3, int p3, int u1, int q1, int u2, int q2, int u3, int q3) { return mk3(t1, p1, t2, p2, t3, p3) == mk3(u1, q1, u2, q2, u3, q3); }
bool h_predeq(int a, int b) { return mk(a) == mk(b); }
bool h_predne(int a, int b) { return mk(a) != mk(b); }
bool h_predself(int a) { Pred p = mk(a); return p == p; }

// ---- is*
bool h_isUtf8_p(const char* s, RangeType r) { return isUtf8(s, r); }
bool h_isUtf8_s(const std::string& s, RangeType r) { return isUtf8(s, r); }
bool h_isUtf8_pd(const char* s) { return isUtf8(s); }
bool h_isUtf8_sd(const std::string& s) { return isUtf8(s); }
bool h_isUtf8_pp(const char* s, RangeType r, int w) { return isUtf8(s, r, mk(w)); }
bool h_isUtf8_sp(const std::string& s, RangeType r, int w) { return isUtf8(s, r, mk(w)); }
bool h_isUtf8_po(const char* s, int w) { return isUtf8(s, mk(w)); }
bool h_isUtf8_so(const std::string& s, int w) { return isUtf8(s, mk(w)); }
bool h_isUtf8_l(const char* s, unsigned int n) { return isUtf8(s, n); }
bool h_isUtf8_lp(const char* s, unsigned int n, int w) { return isUtf8(s, n, mk(w)); }

bool h_isUtf16_p(const char16_t* s, RangeType r) { return isUtf16(s, r); }
bool h_isUtf16_s(const std::u16string& s, RangeType r) { return isUtf16(s, r); }
bool h_isUtf16_pd(const char16_t* s) { return isUtf16(s); }
bool h_isUtf16_sd(const std::u16string& s) { return isUtf16(s); }
bool h_isUtf16_pp(const char16_t* s, RangeType r, int w) { return isUtf16(s, r, mk(w)); }
bool h_isUtf16_sp(const std::u16string& s, RangeType r, int w) { return isUtf16(s, r, mk(w)); }
bool h_isUtf16_po(const char16_t* s, int w) { return isUtf16(s, mk(w)); }
bool h_isUtf16_so(const std::u16string& s, int w) { return isUtf16(s, mk(w)); }

bool h_isUcs2_p(const char16_t* s, RangeType r) { return isUcs2(s, r); }
bool h_isUcs2_s(const std::u16string& s, RangeType r) { return isUcs2(s, r); }
bool h_isUcs2_pd(const char16_t* s) { return isUcs2(s); }
bool h_isUcs2_sd(const std::u16string& s) { return isUcs2(s); }
bool h_isUcs2_pp(const char16_t* s, RangeType r, int w) { return isUcs2(s, r, mk(w)); }
bool h_isUcs2_sp(const std::u16string& s, RangeType r, int w) { return isUcs2(s, r, mk(w)); }
bool h_isUcs2_po(const char16_t* s, int w) { return isUcs2(s, mk(w)); }
bool h_isUcs2_so(const std::u16string& s, int w) { return isUcs2(s, mk(w)); }

bool h_isUcs4_p(const char32_t* s, RangeType r) { return isUcs4(s, r); }
bool h_isUcs4_s(const std::u32string& s, RangeType r) { return isUcs4(s, r); }
bool h_isUcs4_pd(const char32_t* s) { return isUcs4(s); }
bool h_isUcs4_sd(const std::u32string& s) { return isUcs4(s); }
bool h_isUcs4_pp(const char32_t* s, RangeType r, int w) { return isUcs4(s, r, mk(w)); }
bool h_isUcs4_sp(const std::u32string& s, RangeType r, int w) { return isUcs4(s, r, mk(w)); }
bool h_isUcs4_po(const char32_t* s, int w) { return isUcs4(s, mk(w)); }
bool h_isUcs4_so(const std::u32string& s, int w) { return isUcs4(s, mk(w)); }

// ---- to*
void h_toUtf8_16p(std::string* r, const char16_t* s) { new (r) std::string(toUtf8(s)); }
void h_toUtf8_16s(std::string* r, const std::u16string& s) { new (r) std::string(toUtf8(s)); }
void h_toUtf8_32p(std::string* r, const char32_t* s) { new (r) std::string(toUtf8(s)); }
void h_toUtf8_32s(std::string* r, const std::u32string& s) { new (r) std::string(toUtf8(s)); }
void h_toUcs2_8p(std::u16string* r, const char* s) { new (r) std::u16string(toUcs2(s)); }
void h_toUcs2_8s(std::u16string* r, const std::string& s) { new (r) std::u16string(toUcs2(s)); }
void h_toUcs2_32p(std::u16string* r, const char32_t* s) { new (r) std::u16string(toUcs2(s)); }
void h_toUcs2_32s(std::u16string* r, const std::u32string& s) { new (r) std::u16string(toUcs2(s)); }
void h_toUtf16_8p(std::u16string* r, const char* s) { new (r) std::u16string(toUtf16(s)); }
void h_toUtf16_8s(std::u16string* r, const std::string& s) { new (r) std::u16string(toUtf16(s)); }
void h_toUtf16_32p(std::u16string* r, const char32_t* s) { new (r) std::u16string(toUtf16(s)); }
void h_toUtf16_32s(std::u16string* r, const std::u32string& s) { new (r) std::u16string(toUtf16(s)); }
void h_toUcs4_8p(std::u32string* r, const char* s) { new (r) std::u32string(toUcs4(s)); }
void h_toUcs4_8s(std::u32string* r, const std::string& s) { new (r) std::u32string(toUcs4(s)); }
void h_toUcs4_16p(std::u32string* r, const char16_t* s) { new (r) std::u32string(toUcs4(s)); }
void h_toUcs4_16s(std::u32string* r, const std::u16string& s) { new (r) std::u32string(toUcs4(s)); }
void h_toUtf8_cp(std::string* r, const char* s, SourceEncoding e) { new (r) std::string(toUtf8(s, e)); }

// ---- unicodeLength
unsigned int h_len8_p(const char* s) { return unicodeLength(s); }
unsigned int h_len8_l(const char* s, unsigned int n) { return unicodeLength(s, n); }
unsigned int h_len8_s(const std::string& s) { return unicodeLength(s); }
unsigned int h_len16_p(const char16_t* s) { return unicodeLength(s); }
unsigned int h_len16_l(const char16_t* s, unsigned int n) { return unicodeLength(s, n); }
unsigned int h_len16_s(const std::u16string& s) { return unicodeLength(s); }
unsigned int h_len32_p(const char32_t* s) { return unicodeLength(s); }
unsigned int h_len32_l(const char32_t* s, unsigned int n) { return unicodeLength(s, n); }
unsigned int h_len32_s(const std::u32string& s) { return unicodeLength(s); }

// ---- toLower
void h_lower8(std::string* r, const std::string& s, const char* lang) { new (r) std::string(toLower(s, lang)); }
void h_lower8d(std::string* r, const std::string& s) { new (r) std::string(toLower(s)); }
void h_lower16(std::u16string* r, const std::u16string& s, const char* lang) { new (r) std::u16string(toLower(s, lang)); }
void h_lower16d(std::u16string* r, const std::u16string& s) { new (r) std::u16string(toLower(s)); }
void h_lower32(std::u32string* r, const std::u32string& s, const char* lang) { new (r) std::u32string(toLower(s, lang)); }
void h_lower32d(std::u32string* r, const std::u32string& s) { new (r) std::u32string(toLower(s)); }

// ---- version
void h_version(std::string* r) { new (r) std::string(getUnicodeVersionSupported()); }

// ---- trim / split / join
void h_trim8(std::string& v) { trim(v); }
void h_trim16(std::u16string& v) { trim(v); }
void h_trim32(std::u32string& v) { trim(v); }
void h_trimset8(std::string& v, const std::string& s) { trim(v, s); }
void h_trimset16(std::u16string& v, const std::u16string& s) { trim(v, s); }
void h_trimset32(std::u32string& v, const std::u32string& s) { trim(v, s); }
void h_trim7(std::string& v) { trimAscii7WhiteSpace(v); }
void h_trimws8(std::string& v) { trimWhiteSpace(v); }
void h_trimws16(std::u16string& v) { trimWhiteSpace(v); }
void h_trimws32(std::u32string& v) { trimWhiteSpace(v); }

void h_split8(std::vector<std::string>* r, const std::string& s, char d) { new (r) std::vector<std::string>(split(s, d)); }
void h_split16(std::vector<std::u16string>* r, const std::u16string& s, char16_t d) { new (r) std::vector<std::u16string>(split(s, d)); }
void h_split32(std::vector<std::u32string>* r, const std::u32string& s, char32_t d) { new (r) std::vector<std::u32string>(split(s, d)); }
void h_join8(std::string* r, const std::vector<std::string>& v, char d) { new (r) std::string(join(v, d)); }
void h_join16(std::u16string* r, const std::vector<std::u16string>& v, char16_t d) { new (r) std::u16string(join(v, d)); }
void h_join32(std::u32string* r, const std::vector<std::u32string>& v, char32_t d) { new (r) std::u32string(join(v, d)); }

}
