// Generators for texts, tables and command lines.
#include "world.h"

uint32_t gen_num(Stream& p, uint32_t cap) {
    uint32_t x;
    switch (p.below(10)) {
        case 0: case 1: case 2: case 3: x = p.below(6); break;
        case 4: case 5: x = p.below(24); break;
        case 6: case 7: {
            uint32_t d = g_dict_nums[p.below((uint32_t)g_dict_nums.size())];
            uint32_t k = p.below(5);
            x = d + k >= 2 ? d + k - 2 : 0;
        } break;
        case 8: { static const uint32_t b[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257}; x = b[p.below(15)]; } break;
        default: x = p.below(cap + 1); break;
    }
    return x > cap ? x % (cap + 1) : x;
}
uint32_t gen_len(Stream& p, uint32_t cap) {
    uint32_t x;
    switch (p.below(12)) {
        case 0: case 1: case 2: case 3: case 4: x = p.below(12); break;
        case 5: case 6: x = p.below(60); break;
        case 7: case 8: {
            uint32_t d = g_dict_nums[p.below((uint32_t)g_dict_nums.size())];
            x = d + p.below(7);
            x = x >= 3 ? x - 3 : 0;
        } break;
        case 9: {
            static const uint32_t b[] = {98, 198, 48, 14, 498, 253, 62, 126, 1021, 2045, 4093, 8189};
            x = b[p.below(cap >= 8200 ? 12 : cap >= 4100 ? 11 : cap >= 2050 ? 10 : 8)] + p.below(6);
        } break;
        case 10: x = p.below(400); break;
        default: x = p.below(cap + 1); break;
    }
    return x > cap ? x % (cap + 1) : x;
}
Str gen_word(Stream& p, uint32_t maxlen) {
    static const char al[] = "abcdefghxyzABC019_";
    uint32_t n = p.range(1, maxlen);
    Str s;
    for (uint32_t i = 0; i < n; i++) s += al[p.below(sizeof al - 1)];
    return s;
}
Str gen_text(Stream& p, uint32_t len) {
    Str s;
    s.reserve(len);
    uint32_t style = p.below(6), c = p.below(26);
    if (len > 80) {  // long texts: a pattern with a few decisions
        uint32_t word = p.range(1, 30), k = 0;
        while (s.size() < len) {
            k++;
            if (style == 0) s += (char)('a' + (c + s.size()) % 26);
            else if (k % (word + 1) == 0) s += style == 1 ? '\n' : ' ';
            else if (style == 2 && k % 17 == 0) s += '%';
            else s += (char)('a' + (c + k) % 26);
        }
        if (p.chance(1, 3) && len > 4) { s[len / 2] = '%'; s[len / 2 + 1] = "sdnc"[p.below(4)]; }
        return s;
    }
    while (s.size() < len) {
        switch (p.below(9)) {
            case 0: s += ' '; break;
            case 1: s += '%'; s += "sdnc%"[p.below(5)]; break;
            case 2: s += style == 3 ? '\n' : style == 5 ? "\t\r\v\f\b\x01\x1b\x7f"[p.below(8)] : '.'; break;
            case 3: s += "\"'\\|=,-[]<>()"[p.below(13)]; break;
            case 4: s += style == 4 ? (char)(0xA0 + p.below(80)) : 'q'; break;
            default: s += (char)('a' + p.below(26)); break;
        }
    }
    s.resize(len);
    return s;
}
Str gen_any(Stream& p, uint32_t cap) {
    if (p.chance(1, 6)) return g_dict_strs[p.below((uint32_t)g_dict_strs.size())];
    return gen_text(p, gen_len(p, cap));
}
OptStr put(const Str& s, int role) {
    OptStr o;
    o.p = IN.str(s, role);
    return o;
}

static const char* const long_pool[] = {"help", "hello", "verbose", "version", "ver", "v", "input", "in", "output", "out-file", "a", "ab", "abc", "abcd", "all",
                                        "debug", "dry-run", "x", "xx", "force", "file", "files", "he", "hel", "n", "num", "number", "Help", "VERBOSE", "A", "aB"};
static Str gen_long(Stream& p) {
    if (p.chance(1, 12)) {
        Str d = g_dict_strs[p.below((uint32_t)g_dict_strs.size())];
        bool ok = !d.empty() && d[0] != '-';
        for (char c : d) ok = ok && (isalnum((unsigned char)c) || c == '-' || c == '_');
        if (ok) return d;
    }
    if (p.chance(1, 8)) return gen_word(p, 40);
    if (p.chance(1, 60)) return Str(p.range(100, 300), 'l');
    return long_pool[p.below(sizeof long_pool / sizeof *long_pool)];
}
struct Pat { const char* pattern; const char* yes; const char* no; };
static const Pat pats[] = {
    {"[0-9]+", "1234", "12x"}, {"hello.*world", "hello big world", "hello"}, {"^(ab|cd)e?f$", "abef", "abff"}, {"", "", "x"},
    {"(hello|world)[0-9]{2,3}", "hello123", "hello1"}, {"a\\", "a\\", "a"}, {"(ab", "ab", "x"}, {"[a-z", "q", "0"}, {"[^x]*", "abc", "axc"},
    {"\\d+\\.\\d*", "3.14", "a.b"}, {"a?b?c?d", "abcd", "abc"}, {".", "z", "zz"}, {"x{3}", "xxx", "xx"}, {"\\w+@\\w+", "me@home", "me"}, {"(a|(b|c))d", "cd", "ce"},
    {"*", "*", "a"}, {"a|b|c", "b", "d"}, {"^$", "", "x"}, {"\\s*x", "  x", "y"}, {"[\\d\\w]+", "a1", "-"}, {"(?:ab)c", "abc", "ab"}, {"[A-Z][a-z]*", "Abc", "abc"},
    {"ab{2,}c", "abbbc", "abc"}, {"-?[0-9]+", "-12", "--"}};
struct Dfmt { const char* f; const char* yes[3]; };
static const Dfmt dfmts[] = {
    {"%Y-%m-%d", {"1999-12-31", "2024-02-29", "2000-1-1"}}, {"%H:%M:%S", {"23:59:59", "00:00:00", "7:8:9"}}, {"%I:%M %p", {"11:59 PM", "12:00 AM", "1:05 pm"}},
    {"%F %T", {"1999-12-31 23:59:59", "2024-02-29 01:02:03", "1970-01-01 00:00:00"}}, {"%D", {"12/31/99", "01/02/03", "2/29/24"}},
    {"%b %d %Y", {"Dec 31 1999", "January 1 2000", "may 5 2010"}}, {"%A", {"Monday", "tue", "SUNDAY"}}, {"%j", {"1", "365", "042"}}, {"%y", {"99", "00", "68"}},
    {"%C%y", {"1999", "2000", "1970"}}, {"%e %B", {" 3 March", "31 december", "1 Sep"}}, {"%R", {"10:20", "00:00", "23:59"}}, {"%r", {"10:20:30 AM", "12:00:00 PM", "01:01:01 am"}},
    {"%U %w", {"12 3", "0 0", "53 6"}}, {"%d%%%m", {"01%02", "31%12", "9%9"}}, {"%c", {"Mon Jan  1 00:00:00 1970", "Fri Dec 31 23:59:59 1999", "x"}}, {"%h/%k/%l", {"Jan/1/2", "Feb/23/12", "x"}}};

// A pattern with at most two repetitions, none inside another, and a text made from it.
struct PatGen {
    Stream& p;
    int budget = 2;
    Str pat, txt;
    void cls() {
        pat += '[';
        bool neg = p.chance(1, 4);
        if (neg) pat += '^';
        static const char* const it[] = {"a-z", "0-9", "A-F", "abc", "\\d", "\\w", "\\s", "-", "x", "_.", "\\]", "\\n-\\r", "q-q", "\\S\\D"};
        for (uint32_t n = p.range(1, 4); n; n--) pat += it[p.below(14)];
        pat += ']';
        txt += neg ? '~' : "a0Fbx"[p.below(5)];
    }
    void atom(int depth, bool& quantifiable) {
        quantifiable = true;
        uint32_t r = p.below(20);
        if (r < 9) { char c = "abcxyz01 -_,<A\"%"[p.below(16)]; pat += c; txt += c; }
        else if (r < 11) { pat += '.'; txt += "q7 "[p.below(3)]; }
        else if (r < 14) cls();
        else if (r < 17) {
            static const char* const es[] = {"\\d", "\\w", "\\s", "\\D", "\\W", "\\S", "\\a", "\\x", "\\p", "\\l", "\\u", "\\.", "\\\\", "\\n", "\\t", "\\*", "\\(", "\\A", "\\X", "\\C", "\\c", "\\P", "\\v", "\\f", "\\r"};
            static const char eg[] = {'5', 'w', ' ', 'x', '-', 'x', 'a', 'f', '!', 'l', 'U', '.', '\\', '\n', '\t', '*', '(', '0', 'z', 'c', '\x01', 'P', '\v', '\f', '\r'};
            uint32_t k = p.below(25);
            pat += es[k]; txt += eg[k];
        } else if (r < 19 && depth < 3) {
            int before = budget;
            pat += p.chance(1, 3) ? "(?:" : "(";
            alt(depth + 1);
            pat += ')';
            quantifiable = budget == before;
        } else { pat += p.chance(1, 2) ? "\\b" : "\\B"; quantifiable = false; }
    }
    void seq(int depth) {
        for (uint32_t n = depth ? p.range(1, 3) : p.range(1, 7); n; n--) {
            bool q;
            size_t at = txt.size();
            atom(depth, q);
            if (!q || !budget || !p.chance(1, 3)) continue;
            budget--;
            Str unit = txt.substr(at);
            uint32_t lo = p.below(4), k = p.below(6);
            switch (k) {
                case 0: pat += '*'; lo = p.below(4); break;
                case 1: pat += '+'; lo = p.range(1, 4); break;
                case 2: pat += '?'; lo = p.below(2); break;
                case 3: pat += sfmt("{%u}", lo); break;
                case 4: pat += sfmt("{%u,}", lo); lo += p.below(2); break;
                default: pat += sfmt("{%u,%u}", lo, lo + p.below(3)); break;
            }
            txt.resize(at);
            for (uint32_t i = 0; i < lo; i++) txt += unit;
        }
    }
    void alt(int depth) {
        size_t at = txt.size();
        if (depth == 0 && p.chance(1, 5)) pat += '^';
        seq(depth);
        while (p.chance(1, 5)) {
            pat += '|';
            Str keep = txt;
            txt.resize(at);
            seq(depth);
            if (p.chance(1, 2)) txt = keep;
        }
        if (depth == 0 && p.chance(1, 5)) pat += '$';
    }
    static bool tame(const Str& s) {   // no more than two repetitions, and none of a group with one
        int q = 0;
        bool group = false;
        for (size_t i = 0; i < s.size(); i++) {
            if (s[i] == '\\') { i++; continue; }
            if (!strchr("*+?{", s[i]) || (s[i] == '?' && i && s[i - 1] == '(')) continue;
            q++;
            if (i && s[i - 1] == ')') group = true;
            if (i && strchr("^$", s[i - 1])) return false;   // repeats the empty text, 65535 times
            if (i > 1 && s[i - 2] == '\\' && strchr("bB", s[i - 1])) return false;
        }
        return q <= 2 && !(group && q > 1) && !(group && (s.find('^') != Str::npos || s.find('$') != Str::npos || s.find("\\b") != Str::npos || s.find("\\B") != Str::npos));
    }
    void make() {
        alt(0);
        if (p.chance(1, 3)) {
            Str m = pat;
            static const char al[] = "()[]{}*+?|\\^$,-0a:.";
            uint32_t k = p.below(4), at = p.below((uint32_t)m.size() + 1);
            if (k == 0) m.resize(at);
            else if (k == 1) m.insert(at, 1, al[p.below(sizeof al - 1)]);
            else if (k == 2 && at < m.size()) m[at] = al[p.below(sizeof al - 1)];
            else if (at < m.size()) m.erase(at, 1);
            pat = m;
        }
        if (!tame(pat)) pat = "a(b|c)d";
    }
};
static Str gen_format(Stream& p, Str& sample) {
    Str f;
    bool hour = false;
    for (uint32_t n = p.below(7); n; n--) {
        static const char conv[] = "YmdHMSyCeIjUWwabBAhDRTFxXcrknlt%";
        uint32_t r = p.below(12);
        if (r < 7) {
            char c = conv[p.below(sizeof conv - 1)];
            f += '%';
            f += c;
            if (strchr("HIkl", c)) hour = true;
        } else if (r < 9) f += "-/: ,.T"[p.below(7)];
        else if (r == 9 && hour) { f += "%p"; break; }
        else if (r == 10) f += gen_word(p, 6);
        else if (p.chance(1, 3)) f += Str(gen_num(p, 300), 'L');
        else { static const char* const odd[] = {"%E", "%Ey", "%Od", "%Ok", "%Q", "%", "%n", "%t", "%EC", "%EE", "%s", "%Z", "%z", "%u", "%G"}; f += odd[p.below(15)]; }
    }
    // what the pieces add up to counts: "%" and "%H" make "%%H", which is no hour
    hour = false;
    for (size_t i = 0; i + 1 < f.size(); i++)
        if (f[i] == '%') {
            do i++;
            while (i + 1 < f.size() && strchr("EO", f[i]));
            if (strchr("HIklrRTXc", f[i])) hour = true;
            if (f[i] == 'p' && !hour) f[i] = 'M';
        }
    struct tm t;
    memset(&t, 0, sizeof t);
    t.tm_year = 70 + (int)p.below(60), t.tm_mon = (int)p.below(12), t.tm_mday = 1 + (int)p.below(28), t.tm_hour = (int)p.below(24), t.tm_min = (int)p.below(60), t.tm_sec = (int)p.below(60);
    t.tm_wday = (int)p.below(7), t.tm_yday = (int)p.below(365);
    char b[3000];
    b[0] = 0;
    if (!f.empty() && f.back() != '%' && !strftime(b, sizeof b, f.c_str(), &t)) b[0] = 0;
    sample = b;
    return f;
}

TableSpec gen_table(Stream& p, const GenOpts& o) {
    TableSpec t;
    uint32_t n = p.below(o.max_entries + 1);
    if (o.big && p.chance(1, 40)) n = p.chance(1, 8) ? p.range(80, 320) : p.range(20, 80);
    bool huge = n > 80;
    for (uint32_t i = 0; i < n; i++) {
        EntrySpec e;
        for (;;) {
            static const Kind ks[] = {E_LIT, E_INT, E_STR, E_LIT, E_DBL, E_FILE, E_REX, E_DATE, E_CUSTOM, E_REM, E_STR, E_INT};
            e.kind = o.only >= 0 && p.chance(3, 4) ? (Kind)o.only : ks[p.below(12)];
            if (e.kind == E_CUSTOM && !o.custom) continue;
            if (e.kind == E_DATE && !o.dates) continue;
            if (e.kind == E_REX && !o.rex) continue;
            break;
        }
        if (e.kind == E_REM) {
            if (p.chance(1, 2)) e.datatype = put(gen_text(p, p.below(12)), ROLE_DATATYPE);
            if (p.chance(1, 2)) e.glossary = put(gen_any(p, 300), ROLE_GLOSSARY);
            e.minc = e.maxc = 1;
            t.e.push_back(e);
            continue;
        }
        uint32_t tag = p.below(8);
        if (e.kind == E_LIT && tag == 7) tag = 0;
        if (tag <= 4) {
            uint32_t k = p.chance(1, 4) ? p.range(2, 5) : 1;
            if (p.chance(1, 60)) k = p.range(6, 150);
            Str s;
            for (uint32_t j = 0; j < k; j++) s += "abcdfhnvxyW019GzT"[p.below(17)];
            if (p.chance(1, 60)) s.clear();
            e.shorts = put(s, ROLE_SHORT);
        }
        if (tag >= 3 && tag <= 6) {
            Str s = gen_long(p);
            while (p.chance(1, 4)) s += "," + gen_long(p);
            if (p.chance(1, 80))
                for (uint32_t j = p.range(5, 40); j; j--) s += "," + gen_long(p);
            if (p.chance(1, 40)) {
                static const char* const odd[] = {"", ",", ",,", ",a", "a,", "a,,b", ",x,", ",,n,,"};
                switch (p.below(4)) {
                    case 0: s = "," + s; break;
                    case 1: s += ","; break;
                    default: s = odd[p.below(8)]; break;
                }
            }
            e.longs = put(s, ROLE_LONG);
        }
        if (p.chance(1, 2)) e.datatype = put(p.chance(1, 10) ? gen_any(p, 260) : gen_text(p, p.range(1, 10)), ROLE_DATATYPE);
        if (p.chance(5, 6)) e.glossary = put(gen_any(p, huge ? 20 : 500), ROLE_GLOSSARY);
        switch (p.below(6)) {
            case 0: e.minc = 0; e.maxc = 1; e.ctor = 0; break;
            case 1: e.minc = 1; e.maxc = 1; e.ctor = 1; break;
            case 2: e.minc = 0; e.maxc = (int)p.below(5); break;
            case 3: e.minc = (int)p.below(3); e.maxc = e.minc + (int)p.below(4); break;
            case 4: e.minc = (int)p.below(2); e.maxc = e.minc + (int)gen_num(p, p.chance(1, 8) ? 1200 : 300); break;
            default: e.minc = (int)p.below(5); e.maxc = (int)p.below(5); break;
        }
        if (e.kind == E_CUSTOM) {
            e.salt = p.below(1 << 16);
            e.reject = p.below(5);
            if (p.chance(1, 4)) e.nullfns = p.below(16);
            if (e.nullfns & 1) e.nullfns |= 2;  // without a reset it must not accumulate either
            e.cflag = p.chance(2, 3) ? ARG_HASVALUE : 0;
        }
        if (o.optvalues && e.hasvalue() && p.chance(1, 6)) e.optvalue = true;
        if (e.kind == E_REX) {
            if (p.chance(1, 3)) {
                PatGen g{p};
                g.make();
                e.pattern = put(g.pat, ROLE_PATTERN);
                e.sample = put(g.txt);
            } else e.pattern = put(pats[p.below(sizeof pats / sizeof *pats)].pattern, ROLE_PATTERN);
            e.flags = p.chance(1, 3) ? ARG_REX_ICASE : 0;
        }
        if (e.kind == E_DATE && p.chance(9, 10)) {
            Str sm;
            if (p.chance(1, 4)) { e.format = put(gen_format(p, sm), ROLE_FORMAT); e.sample = put(sm); }
            else e.format = put(dfmts[p.below(sizeof dfmts / sizeof *dfmts)].f, ROLE_FORMAT);
        }
        e.wrap = o.wrap_all || e.optvalue || (o.wrap && p.chance(2, 3));
        t.e.push_back(e);
    }
    switch (p.below(5)) {
        case 0: t.endcap = (int)p.below(4); break;
        case 1: t.endcap = (int)gen_num(p, p.chance(1, 4) ? 300 : 100); break;
        case 2: t.endcap = (int)p.range(1, 8); break;
        default: t.endcap = 20; break;
    }
    return t;
}

bool g_bad_values = false;   // mostly values the entries reject
static Str gen_value(Stream& p, const EntrySpec& e) {
    if (p.chance(1, 14) || (g_bad_values && p.chance(1, 2))) return gen_any(p, 600);
    if (p.chance(1, 30)) return "";
    if (e.sample.set() && p.chance(4, 5)) {
        Str v = e.sample.s();
        if (!v.empty() && p.chance(1, 4)) {
            uint32_t at = p.below((uint32_t)v.size());
            if (p.chance(1, 2)) v.erase(at, 1);
            else v[at] = "ax0 -\n"[p.below(6)];
        }
        return v;
    }
    switch (e.kind) {
        case E_INT: {
            static const char* const v[] = {"0", "1", "-1", "+7", "42", "2147483647", "-2147483648", "2147483648", "99999999999999999999", "0x1f", "0X", "0o17", "0b101",
                                            "-0xff", "1KB", "2MB", "1GB", "3GB", "7kb", "12 ", " 12", "12x", "x", "1e3", "0b2", "-", "4MBx", "1.5", "0x80000000"};
            return p.chance(1, 3) ? sfmt("%d", (int)p.below(100000) - 5000) : Str(v[p.below(sizeof v / sizeof *v)]);
        }
        case E_DBL: {
            static const char* const v[] = {"0", "1.5", "-2e10", "1e400", "inf", "nan", "0x1p4", "1,5", "abc", ".5", "5.", "1e", "-0.0", "3.141592653589793"};
            return v[p.below(sizeof v / sizeof *v)];
        }
        case E_REX:
            for (auto& x : pats)
                if (e.pattern.s() == x.pattern) return p.chance(2, 3) ? x.yes : x.no;
            return "zz";
        case E_FILE: {
            static const char* const v[] = {"foo.bar", "/home/foo.bar", "foo", ".foo", "..", ".", "/", "a/b/c", "a.b/c", "foo.", "foo..bar", "/a/.bashrc", "dir/"};
            return v[p.below(sizeof v / sizeof *v)];
        }
        case E_DATE:
            for (auto& x : dfmts)
                if (e.format.set() ? e.format.s() == x.f : !strcmp(x.f, "%D")) return p.chance(5, 6) ? x.yes[p.below(3)] : "31-31-31";
            return "1";
        default: return p.chance(1, 4) ? gen_text(p, p.range(1, 20)) : gen_word(p, 8);
    }
}
static std::vector<Str> split_longs(const EntrySpec& e) {
    std::vector<Str> r;
    Str s = e.longs.s(), c;
    for (char x : s) {
        if (x == ',') { r.push_back(c); c.clear(); }
        else c += x;
    }
    if (!c.empty() || r.empty()) r.push_back(c);
    return r;
}
static char a_short(Stream& p, const EntrySpec& e) {
    size_t n = strlen(e.shorts.p);
    return n ? e.shorts.p[p.below((uint32_t)n)] : 'e';
}
Args gen_args(Stream& p, const TableSpec& s, bool) {
    Args a;
    if (p.chance(1, 25)) return a;  // argc == 0
    a.s.push_back(p.chance(1, 10) ? gen_any(p, 300) : Str("prog"));
    uint32_t n = p.chance(1, 12) ? p.range(10, 60) : p.below(9);
    uint32_t copies = p.chance(1, 60) ? gen_num(p, p.chance(1, 4) ? 1200 : 300) : 0;   // a long command line: more of the same
    std::vector<size_t> sh, lo, po;
    for (size_t i = 0; i < s.e.size(); i++) {
        if (s.e[i].shorts.set()) sh.push_back(i);
        if (s.e[i].longs.set()) lo.push_back(i);
        if (!s.e[i].tagged() && s.e[i].kind != E_REM) po.push_back(i);
    }
    // half of the command lines start with what the table requires, so that the final checks are reached
    if (p.chance(1, 2)) {
        for (size_t i = 0; i < s.e.size() && a.s.size() < 60; i++) {
            auto& e = s.e[i];
            if (e.kind == E_REM || e.minc < 1 || e.minc > 8) continue;
            uint32_t k = (uint32_t)e.minc - (p.chance(1, 10) ? 1 : 0);
            for (uint32_t j = 0; j < k; j++) {
                Str v = gen_value(p, e);
                if (e.shorts.set() && (!e.longs.set() || p.chance(1, 2))) {
                    Str o = Str("-") + a_short(p, e);
                    if (!e.hasvalue()) a.s.push_back(o);
                    else if (e.optvalue || p.chance(1, 2)) a.s.push_back(o + v);
                    else { a.s.push_back(o); a.s.push_back(v); }
                } else if (e.longs.set()) {
                    auto ls = split_longs(e);
                    Str o = "--" + ls[p.below((uint32_t)ls.size())];
                    if (!e.hasvalue()) a.s.push_back(o);
                    else if (e.optvalue || p.chance(1, 2)) a.s.push_back(o + "=" + v);
                    else { a.s.push_back(o); a.s.push_back(v); }
                } else a.s.push_back(v);
            }
        }
    }
    for (uint32_t i = 0; i < n; i++) {
        uint32_t r = p.below(16);
        if (r < 5 && !sh.empty()) {
            Str t = "-";
            for (;;) {
                auto& e = s.e[sh[p.below((uint32_t)sh.size())]];
                t += a_short(p, e);
                if (e.hasvalue()) {
                    if (p.chance(1, 2)) t += gen_value(p, e);
                    else if (!e.optvalue && p.chance(7, 8)) { a.s.push_back(t); t = gen_value(p, e); }
                    break;
                }
                if (p.chance(1, 12)) { t += "?-Q=:"[p.below(5)]; if (p.chance(1, 2)) break; }
                if (!p.chance(1, 3)) break;
            }
            a.s.push_back(t);
        } else if (r < 9 && !lo.empty()) {
            auto& e = s.e[lo[p.below((uint32_t)lo.size())]];
            auto ls = split_longs(e);
            Str nm = ls[p.below((uint32_t)ls.size())];
            if (p.chance(1, 4)) nm = nm.substr(0, p.below((uint32_t)nm.size() + 1));
            Str t = "--" + nm;
            if (e.hasvalue()) {
                if (p.chance(1, 2)) t += "=" + gen_value(p, e);
                else if (p.chance(1, 10)) t += "=";
                else if (!e.optvalue && p.chance(7, 8)) { a.s.push_back(t); t = gen_value(p, e); }
            } else if (p.chance(1, 10)) t += "=" + gen_word(p);
            a.s.push_back(t);
        } else if (r < 13 && !po.empty()) {
            a.s.push_back(gen_value(p, s.e[po[p.below((uint32_t)po.size())]]));
        } else {
            static const char* const junk[] = {"--", "-", "", "---", "-a-", "--=x", "-?", "--?", "-:", "--unknown", "--unknown=3", "-Z", "-ZZ", "x", "--h", "--ver", "--a", "--ab=",
                                               "-W", "-Wfoo", "--v", "-v-", "-a-a", "--in", "-=", "-1", "--he", "-%s", "--%d", "%n", "-xW", "=", "--=", "-- "};
            uint32_t j = p.below(sizeof junk / sizeof *junk + 4);
            if (p.chance(1, 60)) { a.s.push_back("-" + Str(p.range(1, 300), 'Q')); continue; }   // an error for each
            if (j < sizeof junk / sizeof *junk) a.s.push_back(junk[j]);
            else if (j & 1) a.s.push_back(gen_any(p, 800));
            else if (a.s.size() > 1) a.s.push_back(a.s[1 + p.below((uint32_t)a.s.size() - 1)]);
            else a.s.push_back("-" + gen_word(p));
        }
    }
    if (copies && a.s.size() > 1) {
        size_t have = a.s.size() - 1, at = 1 + p.below((uint32_t)have), span = 1 + p.below(4);
        for (uint32_t i = 0; i < copies; i++) {
            if (p.chance(1, 16)) { at = 1 + p.below((uint32_t)have); span = 1 + p.below(4); }
            const Str& x = a.s[1 + (at - 1 + i % span) % have];
            a.s.push_back(x.size() > 64 ? x.substr(0, 64) : x);
        }
    }
    return a;
}
void gen_env(Stream& p) {
    static const char* const names[] = {"POSIXLY_CORRECT", "POSIXLY_CORRECT", "EF_DUMPCORE"};
    static const char* const vals[] = {"", "1", "0"};
    const char* n = names[p.below(3)];
    if (p.chance(1, 2)) PR.env.erase(n);
    else PR.env[n] = vals[p.below(3)];
    COUNT(K_F_ENV);
}
