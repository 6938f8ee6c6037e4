// Argument tables: construction, handlers, outcomes, pristine twin.
#include "world.h"
#include <sanitizer/asan_interface.h>

const char* const kind_names[] = {"rem", "lit", "int", "dbl", "str", "rex", "file", "date", "custom"};
const char* const print_names[] = {"syntax", "syntaxv", "glossary", "glossary_gnu", "errors", "option", "formatted"};

// ---------------------------------------------------------------- caller-defined entries
static void cust_reset(void* p) {
    CustomEntry* c = (CustomEntry*)p;
    c->count = 0;
    c->vals = 17;
}
static uint32_t small_hash(uint32_t salt, const char* s) {
    uint32_t h = salt * 2654435761u + 12345;
    if (!s) return h ^ 0x5555;
    for (; *s; s++) h = (h ^ (uint8_t)*s) * 16777619u;
    return h ^ (h >> 15);
}
static int cust_scan(void* p, const char* v) {
    CustomEntry* c = (CustomEntry*)p;
    if (c->count >= c->hdr.maxcount) return 2;
    uint32_t h = small_hash(c->salt, v);
    if (c->reject && h % c->reject == 0) { COUNT(K_F_REJECT); return (int)(1 + h / 7 % 130); }
    c->count++;
    c->vals = c->vals * 31 + h;
    return 0;
}
static int cust_check(void* p) {
    CustomEntry* c = (CustomEntry*)p;
    return c->count < c->hdr.mincount ? (int)(1 + c->salt % 9) : 0;
}
static void cust_error(void* p, arg_dstr_t ds, int code, const char* v, const char* prog) {
    CustomEntry* c = (CustomEntry*)p;
    Lib& l = (uintptr_t)p >= LB.arena.base && (uintptr_t)p < LB.arena.end ? LB : LA;
    l.f.arg_dstr_catf(ds, "%s: custom %u error %d ", prog, c->salt, code);
    l.f.arg_dstr_cat(ds, v ? v : "(none)");
    l.f.arg_dstr_catc(ds, '\n');
}

// ---------------------------------------------------------------- recording handlers
static std::unordered_map<void*, WrapRec*>& wrapmap() {
    static std::unordered_map<void*, WrapRec*> m;
    return m;
}
static WrapRec* rec_of(void* p) {
    auto it = wrapmap().find(p);
    if (it == wrapmap().end()) violate("foreign-handler-call", "a handler was called with an object it does not belong to");
    return it->second;
}
int& Table::count(size_t i) {
    switch (spec.e[i].kind) {
        case E_LIT: return ((arg_lit_t*)arr[i])->count;
        case E_INT: return ((arg_int_t*)arr[i])->count;
        case E_DBL: return ((arg_dbl_t*)arr[i])->count;
        case E_STR: return ((arg_str_t*)arr[i])->count;
        case E_REX: return ((arg_rex_t*)arr[i])->count;
        case E_FILE: return ((arg_file_t*)arr[i])->count;
        case E_DATE: return ((arg_date_t*)arr[i])->count;
        case E_CUSTOM: return ((CustomEntry*)arr[i])->count;
        default: { static int zero; zero = 0; return zero; }
    }
}
static void w_reset(void* p) {
    WrapRec* r = rec_of(p);
    r->t->ev.push_back(Ev{EV_RESET, r->idx, nullptr, 0, 0});
    if (r->t->hook) r->t->hook(EV_RESET, r->idx);
    r->reset(p);
}
static int w_scan(void* p, const char* v) {
    WrapRec* r = rec_of(p);
    if (r->t->hook) r->t->hook(EV_SCAN, r->idx);
    int rc = r->scan(p, v);
    int c = r->idx >= 0 ? r->t->count((size_t)r->idx) : 0;
    r->t->ev.push_back(Ev{EV_SCAN, r->idx, v, rc, c});
    if (!v && rc == 0 && r->idx >= 0 && (size_t)r->idx < r->t->nullslots.size()) r->t->nullslots[(size_t)r->idx].insert(c - 1);
    return rc;
}
static int w_check(void* p) {
    WrapRec* r = rec_of(p);
    if (r->t->hook) r->t->hook(EV_CHECK, r->idx);
    int rc = r->check(p);
    r->t->ev.push_back(Ev{EV_CHECK, r->idx, nullptr, rc, r->idx >= 0 ? r->t->count((size_t)r->idx) : 0});
    return rc;
}
static void w_error(void* p, arg_dstr_t ds, int code, const char* v, const char* prog) {
    WrapRec* r = rec_of(p);
    r->t->ev.push_back(Ev{EV_ERROR, r->idx, v, code, 0});
    if (r->t->hook) r->t->hook(EV_ERROR, r->idx);
    r->error(p, ds, code, v, prog);
}
static void wrap_hdr(Table& t, int idx, arg_hdr_t* h) {
    WrapRec* r = new WrapRec{&t, idx, h->resetfn, h->scanfn, h->checkfn, h->errorfn};
    wrapmap()[h->parent] = r;
    t.wraps.push_back(r);
    if (h->resetfn) h->resetfn = w_reset;
    if (h->scanfn) h->scanfn = w_scan;
    if (h->checkfn) h->checkfn = w_check;
    if (h->errorfn) h->errorfn = w_error;
}
static void drop_wraps(Table& t) {
    for (auto it = wrapmap().begin(); it != wrapmap().end();) {
        if (it->second->t == &t) it = wrapmap().erase(it);
        else ++it;
    }
    for (auto* r : t.wraps) delete r;
    t.wraps.clear();
}
Table::~Table() { drop_wraps(*this); }

// ---------------------------------------------------------------- construction
void* construct(Lib& lib, const EntrySpec& e) {
    Api& f = lib.f;
    const char *s = e.shorts.p, *l = e.longs.p, *d = e.datatype.p, *g = e.glossary.p;
    switch (e.kind) {
        case E_REM: return f.arg_rem(d, g);
        case E_LIT: return e.ctor == 0 ? f.arg_lit0(s, l, g) : e.ctor == 1 ? f.arg_lit1(s, l, g) : f.arg_litn(s, l, e.minc, e.maxc, g);
        case E_INT: return e.ctor == 0 ? f.arg_int0(s, l, d, g) : e.ctor == 1 ? f.arg_int1(s, l, d, g) : f.arg_intn(s, l, d, e.minc, e.maxc, g);
        case E_DBL: return e.ctor == 0 ? f.arg_dbl0(s, l, d, g) : e.ctor == 1 ? f.arg_dbl1(s, l, d, g) : f.arg_dbln(s, l, d, e.minc, e.maxc, g);
        case E_STR: return e.ctor == 0 ? f.arg_str0(s, l, d, g) : e.ctor == 1 ? f.arg_str1(s, l, d, g) : f.arg_strn(s, l, d, e.minc, e.maxc, g);
        case E_REX: return e.ctor == 0   ? f.arg_rex0(s, l, e.pattern.p, d, e.flags, g)
                           : e.ctor == 1 ? f.arg_rex1(s, l, e.pattern.p, d, e.flags, g)
                                         : f.arg_rexn(s, l, e.pattern.p, d, e.minc, e.maxc, e.flags, g);
        case E_FILE: return e.ctor == 0 ? f.arg_file0(s, l, d, g) : e.ctor == 1 ? f.arg_file1(s, l, d, g) : f.arg_filen(s, l, d, e.minc, e.maxc, g);
        case E_DATE: return e.ctor == 0   ? f.arg_date0(s, l, e.format.p, d, g)
                            : e.ctor == 1 ? f.arg_date1(s, l, e.format.p, d, g)
                                          : f.arg_daten(s, l, e.format.p, d, e.minc, e.maxc, g);
        case E_CUSTOM: {
            CustomEntry* c = (CustomEntry*)lib.arena.alloc(sizeof(CustomEntry), OWN_HANDED);
            memset(c, 0, sizeof *c);
            c->hdr.flag = (char)e.cflag;
            c->hdr.shortopts = s;
            c->hdr.longopts = l;
            c->hdr.datatype = d;
            c->hdr.glossary = g;
            c->hdr.mincount = e.minc;
            c->hdr.maxcount = e.effmax();
            c->hdr.parent = c;
            if (!(e.nullfns & 1)) c->hdr.resetfn = cust_reset;
            if (!(e.nullfns & 2)) c->hdr.scanfn = cust_scan;
            if (!(e.nullfns & 4)) c->hdr.checkfn = cust_check;
            if (!(e.nullfns & 8)) c->hdr.errorfn = cust_error;
            c->salt = e.salt;
            c->reject = e.reject;
            c->vals = 17;
            return c;
        }
        default: return nullptr;
    }
}
static bool same(const char* a, const char* b) { return a == b || (a && b && !strcmp(a, b)); }
void install(Table& t, size_t i, void* entry) {
    t.arr[i] = entry;
    arg_hdr_t* h = (arg_hdr_t*)entry;
    if (i == t.n()) {
        int want = t.spec.endcap < 1 ? 1 : t.spec.endcap;
        REQUIRE(h->flag & ARG_TERMINATOR, "constructor", "arg_end is no terminator");
        REQUIRE(h->maxcount == want && ((arg_end_t*)h)->count == 0, "constructor", "arg_end(%d) has capacity %d and count %d", t.spec.endcap, h->maxcount,
                ((arg_end_t*)h)->count);
        return;
    }
    const EntrySpec& e = t.spec.e[i];
    REQUIRE(same(h->shortopts, e.shorts.p) && same(h->longopts, e.longs.p) && same(h->glossary, e.glossary.p) && h->mincount == e.minc &&
                h->maxcount == e.effmax() && h->parent == entry && !(h->flag & ARG_TERMINATOR) && ((h->flag & ARG_HASVALUE) != 0) == e.hasvalue(),
            "constructor", "entry %zu (%s) does not hold the given definition", i, kind_names[e.kind]);
    if (e.datatype.set() && e.kind != E_LIT) REQUIRE(same(h->datatype, e.datatype.p), "constructor", "entry %zu (%s) lost its data type", i, kind_names[e.kind]);
    REQUIRE(e.kind == E_REM || t.count(i) == 0, "constructor", "new entry %zu (%s) has count %d", i, kind_names[e.kind], t.count(i));
    if (e.optvalue) h->flag |= ARG_HASOPTVALUE;
    if (e.wrap && e.kind != E_REM) wrap_hdr(t, (int)i, h);
}
TableP new_table(Lib& lib, const TableSpec& s) {
    TableP t = std::make_shared<Table>();
    t->spec = s;
    t->lib = &lib;
    t->arr = (void**)lib.arena.alloc(sizeof(void*) * (s.e.size() + 1), OWN_USER);
    for (size_t i = 0; i <= s.e.size(); i++) t->arr[i] = nullptr;
    t->nullslots.resize(s.e.size());
    return t;
}
bool build_now(Table& t) {
    for (size_t i = t.made.size(); i <= t.n(); i++) {
        void* r = nullptr;
        CallInfo ci = guarded(*t.lib, [&] { r = i < t.n() ? construct(*t.lib, t.spec.e[i]) : t.lib->f.arg_end(t.spec.endcap); });
        REQUIRE(ci.code == X_RET, "constructor", "constructor ended with %s", exit_name(ci.code));
        REQUIRE(r, "constructor", "constructor returned null with memory available");
        t.made.push_back(r);
        install(t, i, r);
    }
    t.complete = true;
    snapshot_defs(t);
    return true;
}
Str defs_now(Table& t, size_t i) {
    arg_hdr_t* h = (arg_hdr_t*)t.arr[i];
    Str s((const char*)h, sizeof *h);
    if (i == t.n()) {
        arg_end_t* e = (arg_end_t*)h;
        s.append((const char*)&e->error, sizeof(void*) * 3);
        return s;
    }
    switch (t.spec.e[i].kind) {
        case E_INT: s.append((const char*)&((arg_int_t*)h)->ival, 8); break;
        case E_DBL: s.append((const char*)&((arg_dbl_t*)h)->dval, 8); break;
        case E_STR: s.append((const char*)&((arg_str_t*)h)->sval, 8); break;
        case E_REX: s.append((const char*)&((arg_rex_t*)h)->sval, 8); break;
        case E_FILE: s.append((const char*)&((arg_file_t*)h)->filename, 24); break;
        case E_DATE: s.append((const char*)&((arg_date_t*)h)->format, 8); s.append((const char*)&((arg_date_t*)h)->tmval, 8); break;
        case E_CUSTOM: s.append((const char*)&((CustomEntry*)h)->salt, 8); s.append(((CustomEntry*)h)->tail, 8); break;
        default: break;
    }
    return s;
}
void snapshot_defs(Table& t) {
    t.defsnap.clear();
    for (size_t i = 0; i <= t.n(); i++) t.defsnap.push_back(defs_now(t, i));
}
void check_defs(Table& t, const char* when) {
    if (!t.complete) return;
    for (size_t i = 0; i <= t.n(); i++) {
        REQUIRE(t.arr[i] == t.made[i], "definition-changed", "table position %zu refers to another entry %s", i, when);
        REQUIRE(defs_now(t, i) == t.defsnap[i], "definition-changed", "the definition of entry %zu (%s) changed %s", i, i < t.n() ? kind_names[t.spec.e[i].kind] : "end", when);
    }
}

// ---------------------------------------------------------------- argument vectors
void place_args(Args& a, Table* t, bool reuse, bool terminated) {
    a.argc = (int)a.s.size();
    size_t need = ((size_t)a.argc + 2) * sizeof(char*) + 64;
    for (auto& s : a.s) need += ((s.size() + 1 + 15) & ~(size_t)15) + 16;
    uintptr_t p;
    IN.unseal();
    if (t && reuse) {
        if (t->region_len < need) {
            t->region_len = need < 4096 ? 4096 : need * 2;
            t->region = (uintptr_t)IN.alloc(t->region_len);
        }
        p = t->region;
    } else {
        p = (uintptr_t)IN.alloc(need);
    }
    __asan_unpoison_memory_region((void*)p, need);
    memset((void*)p, 0x7e, need);
    __asan_poison_memory_region((void*)p, need);
    size_t an = ((size_t)a.argc + (terminated ? 1 : 0)) * sizeof(char*);
    a.argv = (char**)p;
    __asan_unpoison_memory_region((void*)p, an);
    a.pos.clear();
    uintptr_t q = (p + an + 16 + 15) & ~(uintptr_t)15;
    for (int i = 0; i < a.argc; i++) {
        auto& s = a.s[(size_t)i];
        __asan_unpoison_memory_region((void*)q, s.size() + 1);
        raw_copy((void*)q, s.c_str(), s.size() + 1);
        a.argv[i] = (char*)q;
        a.pos.push_back({q, s.size()});
        q = (q + s.size() + 1 + 16 + 15) & ~(uintptr_t)15;
    }
    if (terminated) a.argv[a.argc] = nullptr;
    if (a.argc == 0 && !terminated) a.argv = nullptr;
}
long Args::locate(const char* p) const {
    if (!p) return -1;
    for (size_t i = 0; i < pos.size(); i++)
        if ((uintptr_t)p >= pos[i].first && (uintptr_t)p <= pos[i].first + pos[i].second) return (long)(i * 65536 + ((uintptr_t)p - pos[i].first));
    return -2;
}
Str Args::show(const char* p) const {
    long l = locate(p);
    if (l == -1) return "null";
    if (l == -2) return Str("other:") + (__asan_region_is_poisoned((void*)p, 1) ? Str("?") : Str(p).substr(0, 200));
    return sfmt("argv[%ld]+%ld", l / 65536, l % 65536);
}

// ---------------------------------------------------------------- outcomes
Str entry_value(Table& t, size_t i, int k, const Args& a) {
    switch (t.spec.e[i].kind) {
        case E_INT: return sfmt("%d", ((arg_int_t*)t.arr[i])->ival[k]);
        case E_DBL: { uint64_t b; memcpy(&b, &((arg_dbl_t*)t.arr[i])->dval[k], 8); return sfmt("%llx", (unsigned long long)b); }
        case E_STR: return a.show(((arg_str_t*)t.arr[i])->sval[k]);
        case E_REX: return a.show(((arg_rex_t*)t.arr[i])->sval[k]);
        case E_FILE: {
            arg_file_t* f = (arg_file_t*)t.arr[i];
            return a.show(f->filename[k]) + "/" + a.show(f->basename[k]) + "/" + a.show(f->extension[k]);
        }
        case E_DATE: {
            struct tm* m = &((arg_date_t*)t.arr[i])->tmval[k];
            return sfmt("%d-%d-%d %d:%d:%d %d %d %d", m->tm_year, m->tm_mon, m->tm_mday, m->tm_hour, m->tm_min, m->tm_sec, m->tm_wday, m->tm_yday, m->tm_isdst);
        }
        default: return "";
    }
}
Str describe_entries(Table& t, const Args& a) {
    Str s;
    for (size_t i = 0; i < t.n(); i++) {
        if (t.spec.e[i].kind == E_REM) continue;
        int c = t.count(i);
        s += sfmt("%zu:%s n=%d", i, kind_names[t.spec.e[i].kind], c);
        if (c < 0 || c > ((arg_hdr_t*)t.arr[i])->maxcount) { s += "(out of range)\n"; continue; }
        if (t.spec.e[i].kind == E_CUSTOM) s += sfmt(" %u", ((CustomEntry*)t.arr[i])->vals);
        else if (t.spec.e[i].kind != E_LIT)
            for (int k = 0; k < c; k++) s += " " + (t.nullslots[i].count(k) ? Str("-") : entry_value(t, i, k, a));
        s += "\n";
    }
    return s;
}
Str describe_errors(Table& t, const Args& a) {
    arg_end_t* e = t.end();
    Str s = sfmt("errors=%d", e->count);
    if (e->count < 0 || e->count > e->hdr.maxcount) return s + "(out of range)\n";
    for (int i = 0; i < e->count; i++) {
        int who = -2;
        if (e->parent[i] == e) who = -1;
        else
            for (size_t k = 0; k < t.n(); k++)
                if (e->parent[i] == t.arr[k]) who = (int)k;
        s += sfmt(" [%d,%d,", who, e->error[i]) + a.show(e->argval[i]) + "]";
    }
    return s + "\n";
}
Str describe(Table& t, const Args& a, int ret) { return sfmt("ret=%d\n", ret) + describe_entries(t, a) + describe_errors(t, a); }
void reset_events(Table& t) {
    t.ev.clear();
    for (auto& x : t.nullslots) x.clear();
}

// ---------------------------------------------------------------- the pristine twin
static void twin_fresh() {
    LB.restore();
    LB.arena.reset(REUSE_NEVER, FILL_ZERO, 16, 1);
}
TwinOutcome twin_parse(const TableSpec& s, const Args& a, const char* progname) {
    COUNT(K_TWIN);
    twin_fresh();
    TwinOutcome o;
    TableP t = new_table(LB, s);
    build_now(*t);
    int ret = 0;
    Str* et = &o.errors;
    CallInfo ci = guarded(LB, [&] {
        ret = LB.f.arg_parse(a.argc, a.argv, t->arr);
    });
    REQUIRE(ci.code == X_RET, "fresh-parse", "a parse in a fresh process ended with %s", exit_name(ci.code));
    o.ret = ret;
    o.outcome = describe(*t, a, ret);
    o.ev = t->ev;
    if (progname) {
        const char* txt = nullptr;
        guarded(LB, [&] {
            arg_dstr_t d = LB.f.arg_dstr_create();
            LB.f.arg_print_errors_ds(d, t->end(), progname);
            txt = LB.f.arg_dstr_cstr(d);
        });
        if (txt) *et = txt;
    }
    return o;
}
static void print_to(Lib& l, arg_dstr_t d, void** arr, int what, const char* arg) {
    switch (what) {
        case PR_SYNTAX: l.f.arg_print_syntax_ds(d, arr, arg); break;
        case PR_SYNTAXV: l.f.arg_print_syntaxv_ds(d, arr, arg); break;
        case PR_GLOSSARY: l.f.arg_print_glossary_ds(d, arr, arg); break;
        case PR_GLOSSARY_GNU: l.f.arg_print_glossary_gnu_ds(d, arr); break;
        default: break;
    }
}
Str twin_print(const TableSpec& s, int what, const char* arg) {
    COUNT(K_TWIN);
    twin_fresh();
    TableP t = new_table(LB, s);
    build_now(*t);
    const char* txt = nullptr;
    CallInfo ci = guarded(LB, [&] {
        arg_dstr_t d = LB.f.arg_dstr_create();
        print_to(LB, d, t->arr, what, arg);
        txt = LB.f.arg_dstr_cstr(d);
    });
    REQUIRE(ci.code == X_RET && txt, "fresh-print", "printing in a fresh process ended with %s", exit_name(ci.code));
    return txt;
}
