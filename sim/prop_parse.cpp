// C10, C11, C12: what a parse leaves untouched, records and delivers.
#include "props.h"
#include <string.h>

// ---------------------------------------------------------------- C10
static void pointers_in_argv(Table& t) {
    const Args& a = t.args;
    for (size_t i = 0; i < t.n(); i++) {
        Kind k = t.spec.e[i].kind;
        if (k != E_STR && k != E_REX && k != E_FILE) continue;
        int c = t.count(i);
        if (c < 0 || c > t.hdr(i)->maxcount) violate("count-range", "entry %zu has count %d", i, c);
        for (int s = 0; s < c; s++) {
            if (t.nullslots[i].count(s)) continue;
            const char* v[3] = {nullptr, nullptr, nullptr};
            int n = 1;
            if (k == E_STR) v[0] = ((arg_str_t*)t.arr[i])->sval[s];
            else if (k == E_REX) v[0] = ((arg_rex_t*)t.arr[i])->sval[s];
            else {
                arg_file_t* f = (arg_file_t*)t.arr[i];
                v[0] = f->filename[s];
                v[1] = f->basename[s];
                v[2] = f->extension[s];
                n = 3;
            }
            for (int j = 0; j < n; j++)
                REQUIRE(a.locate(v[j]) >= 0, "value-copied", "value %d of entry %zu (%s) does not lie in the caller's arguments", s, i, kind_names[k]);
        }
    }
    arg_end_t* e = t.end();
    REQUIRE(e->count >= 0 && e->count <= e->hdr.maxcount, "count-range", "%d errors are recorded, capacity %d", e->count, e->hdr.maxcount);
    for (int i = 0; i < e->count; i++)
        REQUIRE(a.locate(e->argval[i]) != -2, "value-copied", "the offending argument of error %d does not lie in the caller's arguments", i);
    // the vector itself
    for (int i = 0; i < a.argc; i++) {
        REQUIRE((uintptr_t)a.argv[i] == a.pos[(size_t)i].first, "argv-changed", "argv[%d] points elsewhere after the parse", i);
        REQUIRE(a.s[(size_t)i] == a.argv[i], "argv-changed", "argv[%d] reads %s after the parse", i, fmtq(a.argv[i]).c_str());
    }
}
static void c10(Choices&) {
    pick_personality(P(), true);
    World w;
    g_ctx = &w;
    w.gen.wrap = true;
    w.defcheck = true;
    w.twin = false;
    w.nest = true;
    w.fc.rate = P().chance(1, 2) ? 200 : 0;
    w.fc.cb_unwind = P().chance(1, 2) ? 200 : 0;
    w.nested_hook = [&](int) {
        for (auto& t : w.tables) check_defs(*t, "in the middle of a call");
        COUNT(K_MODELCHK);
    };
    w.after_parse = [](Table& t) { pointers_in_argv(t); };
    weights(w, {{OC_BUILD, 4}, {OC_PARSE, 14}, {OC_PRINT, 6}, {OC_FREE, 1}, {OC_DSTR, 2}, {OC_REG, 2}, {OC_DISPATCH, 2}, {OC_SORT, 1}, {OC_MSG, 3}, {OC_EDIT, 2}, {OC_ENV, 1}});
    if (P().chance(1, 3)) gen_env(P());
    run_ops(w, 4, 24);
}
static RegProp r10({"C10", c10, 150000, 4500000, "distinct sequences of operations, ends (returned, abandoned) and outcomes"});

// ---------------------------------------------------------------- error records
struct Rec {
    int who;   // -1: end, -2: unknown
    int code;
    const char* arg;
};
static std::vector<Rec> records(Table& t) {
    std::vector<Rec> v;
    arg_end_t* e = t.end();
    for (int i = 0; i < e->count; i++) {
        int who = -2;
        if (e->parent[i] == e) who = -1;
        else
            for (size_t k = 0; k < t.n(); k++)
                if (e->parent[i] == t.arr[k]) who = (int)k;
        v.push_back(Rec{who, e->error[i], e->argval[i]});
    }
    return v;
}
static Str show(const std::vector<Rec>& v, const Args& a) {
    Str s;
    size_t n = 0;
    for (auto& r : v) {
        if (n++ > 12) { s += sfmt(" ..(%zu)", v.size()); break; }
        s += sfmt(" [%d,%d,%s]", r.who, r.code, a.show(r.arg).c_str());
    }
    return s;
}
static bool eq(const Rec& a, const Rec& b) { return a.who == b.who && a.code == b.code && a.arg == b.arg; }
// what a record of the given capacity holds of these errors
static std::vector<Rec> fit(const std::vector<Rec>& all, int cap) {
    if ((int)all.size() <= cap) return all;
    std::vector<Rec> v(all.begin(), all.begin() + (cap - 1));
    v.push_back(Rec{-1, ARG_ELIMIT, nullptr});
    return v;
}
static void match(Table& t, const std::vector<Rec>& all, const char* kind) {
    arg_end_t* e = t.end();
    int cap = e->hdr.maxcount;
    REQUIRE(e->count >= 0 && e->count <= cap, "error-count", "%d errors are recorded, the capacity is %d", e->count, cap);
    REQUIRE(t.last_ret == e->count, "error-count", "the parse returned %d, recorded are %d errors", t.last_ret, e->count);
    std::vector<Rec> got = records(t), want = fit(all, cap);
    bool same = got.size() == want.size();
    for (size_t i = 0; same && i < got.size(); i++) same = eq(got[i], want[i]);
    REQUIRE(same, kind, "capacity %d: recorded%s, expected%s", cap, show(got, t.args).c_str(), show(want, t.args).c_str());
    if ((int)all.size() > cap) PROBE("errors exceed the capacity");
    if ((int)all.size() == cap) PROBE("errors fill the capacity exactly");
}

// ---------------------------------------------------------------- C11
static void c11_parse(Table& t) {
    // the same parse in a fresh process with room for everything
    LB.restore();
    LB.arena.reset(REUSE_NEVER, FILL_ZERO, 16, 1);
    TableSpec s = t.spec;
    const int room = 4000 + (int)t.args.total() + (int)t.n();
    s.endcap = room;
    TableP b = new_table(LB, s);
    build_now(*b);
    int ret = 0;
    const Args& a = t.args;
    CallInfo ci = guarded(LB, [&] { ret = LB.f.arg_parse(a.argc, a.argv, b->arr); });
    COUNT(K_TWIN);
    REQUIRE(ci.code == X_RET, "fresh-parse", "a parse in a fresh process ended with %s", exit_name(ci.code));
    std::vector<Rec> all = records(*b);
    REQUIRE(ret == (int)all.size() && ret < room, "error-count", "with capacity %d the parse returned %d and recorded %zu", room, ret, all.size());
    for (auto& r : all) REQUIRE(r.who != -2, "error-record", "an error is attributed to something that is not in the table");
    match(t, all, "error-record");
    REQUIRE(describe_entries(t, a) == describe_entries(*b, a), "capacity-effect", "capacity %d changed the values: %s, with large capacity %s", t.end()->hdr.maxcount,
            fmtq(describe_entries(t, a)).c_str(), fmtq(describe_entries(*b, a)).c_str());
    bool same = t.ev.size() == b->ev.size();
    for (size_t i = 0; same && i < t.ev.size(); i++) {
        auto &x = t.ev[i], &y = b->ev[i];
        same = x.what == y.what && x.idx == y.idx && x.arg == y.arg && x.ret == y.ret && x.count_after == y.count_after;
    }
    REQUIRE(same, "capacity-effect", "with capacity %d the handlers were called differently", t.end()->hdr.maxcount);
    // printing
    uint32_t n = 1 + P().below(2);
    for (uint32_t round = 0; round < n; round++) {
        const char* prog = put(P().chance(1, 3) ? gen_any(P(), 100) : Str("prog")).p;
        bool tostream = P().chance(1, 2);
        std::vector<Rec> before = records(t);
        // each record's own message
        Str want, got;
        for (int i = 0; i < t.end()->count; i++) {
            arg_hdr_t* h = (arg_hdr_t*)t.end()->parent[i];
            if (!h->errorfn) continue;
            arg_dstr_t d = nullptr;
            const char* c = nullptr;
            int code = t.end()->error[i];
            const char* av = t.end()->argval[i];
            guarded(LA, [&] {
                d = LA.f.arg_dstr_create();
                h->errorfn(h->parent, d, code, av, prog);
                c = LA.f.arg_dstr_cstr(d);
            });
            if (c) want += c;
            guarded(LA, [&] { LA.f.arg_dstr_destroy(d); });
        }
        t.ev.clear();
        CallInfo pi;
        if (tostream) {
            FILE* f = open_mem(&got);
            pi = guarded(LA, [&] { LA.f.arg_print_errors(f, t.end(), prog); });
            fclose(f);
        } else {
            arg_dstr_t d = nullptr;
            const char* c = nullptr;
            pi = guarded(LA, [&] {
                d = LA.f.arg_dstr_create();
                LA.f.arg_print_errors_ds(d, t.end(), prog);
                c = LA.f.arg_dstr_cstr(d);
            });
            got = c ? c : "";
            guarded(LA, [&] { LA.f.arg_dstr_destroy(d); });
        }
        COUNT(K_PRINTS);
        REQUIRE(pi.code == X_RET, "error-print", "printing the errors ended with %s", exit_name(pi.code));
        REQUIRE(got == want, "error-print", "the printed list is %s, the messages of the %zu records are %s", fmtq(got).c_str(), before.size(), fmtq(want).c_str());
        std::vector<Rec> after = records(t);
        bool keep = before.size() == after.size();
        for (size_t i = 0; keep && i < after.size(); i++) keep = eq(before[i], after[i]);
        REQUIRE(keep, "error-record", "printing changed the records");
        size_t k = 0;
        for (auto& r : before) {
            if (r.who < 0 || !t.hdr((size_t)r.who)->errorfn) continue;
            REQUIRE(k < t.ev.size() && t.ev[k].what == EV_ERROR && t.ev[k].idx == r.who && t.ev[k].ret == r.code && t.ev[k].arg == r.arg, "error-print",
                    "message %zu was not requested from its entry in the order of the records", k);
            k++;
        }
        REQUIRE(k == t.ev.size(), "error-print", "%zu messages were requested for %zu records of entries", t.ev.size(), k);
    }
    SIG(hash_u64(all.size(), (uint64_t)t.end()->hdr.maxcount));
}
static void c11(Choices&) {
    pick_personality(P(), true);
    World w;
    g_ctx = &w;
    w.gen.wrap_all = true;
    w.twin = false;
    w.bursts = true;
    w.fc.cb_unwind = P().chance(1, 3) ? 150 : 0;
    w.after_parse = c11_parse;
    weights(w, {{OC_BUILD, 3}, {OC_PARSE, 12}, {OC_FREE, 1}, {OC_EDIT, 1}, {OC_ENV, 1}, {OC_PRINT, 1}});
    if (P().chance(1, 3)) gen_env(P());
    run_ops(w, 3, 16);
}
static RegProp r11({"C11", c11, 220000, 6600000, "distinct sequences of parses with their outcomes, numbers of errors and capacities"});

// ---------------------------------------------------------------- C12: reference model of a parse
struct Model {
    Table& t;
    const Args& a;
    std::vector<Rec> rec;
    std::vector<int> count;
    std::vector<std::vector<const char*>> vals;
    size_t ep = 0;   // next event
    explicit Model(Table& tb) : t(tb), a(tb.args), count(tb.n(), 0), vals(tb.n()) {}
    const EntrySpec& E(int i) { return t.spec.e[(size_t)i]; }
    Str ev(size_t i) {
        if (i >= t.ev.size()) return "nothing";
        auto& e = t.ev[i];
        static const char* const nm[] = {"reset", "delivery", "check", "error message"};
        return sfmt("%s of entry %d %s", nm[e.what], e.idx, e.what == EV_SCAN ? a.show(e.arg).c_str() : "");
    }
    // the handler of entry i must be the next one called, with this argument
    int scan(int i, const char* arg) {
        REQUIRE(ep < t.ev.size() && t.ev[ep].what == EV_SCAN && t.ev[ep].idx == i && t.ev[ep].arg == arg, "delivery", "expected delivery of %s to entry %d, observed %s",
                a.show(arg).c_str(), i, ev(ep).c_str());
        Ev& e = t.ev[ep++];
        int prev = count[(size_t)i];
        Kind k = E(i).kind;
        int mx = t.hdr((size_t)i)->maxcount;
        if (prev >= mx) REQUIRE(e.ret != 0, "delivery", "entry %d accepted more than its maximum of %d", i, mx);
        else if (k == E_LIT || k == E_STR || k == E_FILE || (!arg && k != E_CUSTOM)) REQUIRE(e.ret == 0, "delivery", "entry %d (%s) rejected %s below its maximum", i, kind_names[k], a.show(arg).c_str());
        int now = prev + (e.ret == 0);
        REQUIRE(e.count_after == now, "delivery", "entry %d counts %d after %s delivery number %d", i, e.count_after, e.ret ? "a rejected" : "an accepted", now);
        count[(size_t)i] = now;
        if (e.ret == 0) vals[(size_t)i].push_back(arg);
        else COUNT(K_F_REJECT);
        return e.ret;
    }
    void option(int i, const char* arg) {
        if (!E(i).scans()) return;
        int rc = scan(i, arg);
        if (rc) rec.push_back(Rec{i, rc, arg});
    }
    struct Long { Str name; int i; };
    void run() {
        std::vector<Long> longs;
        for (size_t i = 0; i < t.n(); i++) {
            if (!t.spec.e[i].longs.set()) continue;
            Str s = t.spec.e[i].longs.s(), c;
            if (!s.empty() && s.back() != ',') s += ',';   // nothing follows a comma at the end; a name may be empty elsewhere
            for (char x : s) {
                if (x == ',') { longs.push_back(Long{c, (int)i}); c.clear(); }
                else c += x;
            }
        }
        // resets: each once, before anything else
        std::vector<int> seen(t.n(), 0);
        size_t nres = 0;
        for (size_t i = 0; i < t.n(); i++) nres += t.spec.e[i].resets();
        for (size_t k = 0; k < nres; k++) {
            REQUIRE(k < t.ev.size() && t.ev[k].what == EV_RESET && !seen[(size_t)t.ev[k].idx], "reset", "expected reset number %zu, observed %s", k, ev(k).c_str());
            seen[(size_t)t.ev[k].idx] = 1;
        }
        ep = nres;
        if (a.argc > 0) {
            bool posix = t.env.count("POSIXLY_CORRECT") != 0;
            std::vector<const char*> rest;
            int i = 1;
            for (; i < a.argc; i++) {
                const char* s = a.argv[i];
                if (s[0] != '-' || !s[1]) {  // no option
                    if (posix) break;
                    rest.push_back(s);
                    continue;
                }
                if (!strcmp(s, "--")) { i++; break; }
                const char* p = s + 1;
                const char* whole = s;
                while (*p) {
                    if (*p == '-') {
                        p++;
                        if (!*p) { rec.push_back(Rec{-1, ARG_EMISSARG, whole}); break; }
                        long_option(longs, p, whole, i);
                        break;
                    }
                    int who = -1;
                    for (size_t k = 0; k < t.n() && who < 0; k++)
                        if (t.spec.e[k].shorts.set() && strchr(t.spec.e[k].shorts.p, *p)) who = (int)k;
                    if (*p == ':' || who < 0) {
                        rec.push_back(Rec{-1, (int)*p, nullptr});
                        p++;
                        continue;
                    }
                    const EntrySpec& e = E(who);
                    p++;
                    if (!e.hasvalue()) { option(who, nullptr); continue; }
                    if (*p) { option(who, p); break; }
                    if (e.optvalue) { option(who, nullptr); break; }
                    if (i + 1 >= a.argc) { rec.push_back(Rec{-1, ARG_EMISSARG, whole}); break; }
                    option(who, a.argv[++i]);
                    break;
                }
            }
            for (; i < a.argc; i++) rest.push_back(a.argv[i]);
            positional(rest);
        }
        if (rec.empty()) {
            PROBE("final checks ran");
            std::fill(seen.begin(), seen.end(), 0);
            size_t nchk = 0;
            for (size_t i = 0; i < t.n(); i++) nchk += t.spec.e[i].checks();
            for (size_t k = 0; k < nchk; k++, ep++) {
                REQUIRE(ep < t.ev.size() && t.ev[ep].what == EV_CHECK && !seen[(size_t)t.ev[ep].idx], "check", "expected final check number %zu, observed %s", k, ev(ep).c_str());
                Ev& e = t.ev[ep];
                seen[(size_t)e.idx] = 1;
                bool few = count[(size_t)e.idx] < t.hdr((size_t)e.idx)->mincount;
                REQUIRE((e.ret != 0) == few, "check", "entry %d has %d of at least %d values and its check returned %d", e.idx, count[(size_t)e.idx], t.hdr((size_t)e.idx)->mincount, e.ret);
                if (e.ret) rec.push_back(Rec{e.idx, e.ret, nullptr});
            }
        } else PROBE("final checks skipped");
        REQUIRE(ep == t.ev.size(), "delivery", "after everything was delivered: %s", ev(ep).c_str());
        match(t, rec, "report");
        for (size_t k = 0; k < t.n(); k++) {
            Kind kd = t.spec.e[k].kind;
            if (kd == E_REM) continue;
            REQUIRE(t.count(k) == count[k], "delivery", "entry %zu ends with count %d, accepted were %d", k, t.count(k), count[k]);
            if (kd != E_STR && kd != E_REX && kd != E_FILE) continue;
            for (size_t s = 0; s < vals[k].size(); s++) {
                if (!vals[k][s]) continue;
                const char* v = kd == E_STR ? ((arg_str_t*)t.arr[k])->sval[s] : kd == E_REX ? ((arg_rex_t*)t.arr[k])->sval[s] : ((arg_file_t*)t.arr[k])->filename[s];
                REQUIRE(v == vals[k][s], "delivery", "value %zu of entry %zu is %s, delivered was %s", s, k, a.show(v).c_str(), a.show(vals[k][s]).c_str());
            }
        }
        SIG(hash_u64(t.ev.size(), rec.size()));
        COUNT(K_MODELCHK);
    }
    void long_option(const std::vector<Long>& longs, const char* p, const char* whole, int& i) {
        const char* eqp = strchr(p, '=');
        Str name(p, eqp ? (size_t)(eqp - p) : strlen(p));
        int who = -1;
        bool exact = false, amb = false;
        for (auto& l : longs) {
            if (l.name.compare(0, name.size(), name) != 0) continue;
            if (l.name.size() == name.size()) { who = l.i; exact = true; break; }
            if (who < 0) who = l.i;
            else if (who != l.i) amb = true;
        }
        if (!exact && amb) { PROBE("ambiguous long option"); rec.push_back(Rec{-1, ARG_ELONGOPT, whole}); return; }
        if (who < 0) { rec.push_back(Rec{-1, ARG_ELONGOPT, whole}); return; }
        if (!exact) PROBE("abbreviated long option");
        const EntrySpec& e = E(who);
        if (!e.hasvalue()) {
            if (eqp) { rec.push_back(Rec{-1, ARG_ELONGOPT, whole}); return; }
            option(who, nullptr);
            return;
        }
        const char *val = nullptr, *at = whole;
        if (eqp) val = eqp + 1;
        else if (!e.optvalue) {
            if (i + 1 >= a.argc) { rec.push_back(Rec{-1, ARG_EMISSARG, whole}); return; }
            val = at = a.argv[++i];
        }
        if (val && !*val) rec.push_back(Rec{-1, ARG_EMISSARG, at});  // and still delivered
        option(who, val);
    }
    void positional(const std::vector<const char*>& rest) {
        size_t r = 0;
        Rec last{-1, 0, nullptr};
        bool tent = false;
        for (size_t k = 0; k < t.n();) {
            if (r >= rest.size()) return;
            if (t.spec.e[k].tagged() || !t.spec.e[k].scans()) { k++; continue; }
            int rc = scan((int)k, rest[r]);
            if (rc == 0) { r++; tent = false; }
            else { last = Rec{(int)k, rc, rest[r]}; tent = true; k++; }
        }
        if (tent) { rec.push_back(last); r++; }
        for (; r < rest.size(); r++) rec.push_back(Rec{-1, ARG_ENOMATCH, rest[r]});
    }
};
static void c12_parse(Table& t) {
    Model m(t);
    m.run();
}
static void c12(Choices&) {
    pick_personality(P(), true);
    World w;
    g_ctx = &w;
    w.gen.wrap_all = true;
    w.twin = false;
    w.bursts = true;
    w.fc.cb_unwind = P().chance(1, 3) ? 100 : 0;
    w.after_parse = c12_parse;
    weights(w, {{OC_BUILD, 3}, {OC_PARSE, 12}, {OC_FREE, 1}, {OC_EDIT, 1}, {OC_ENV, 1}});
    if (P().chance(1, 3)) gen_env(P());
    run_ops(w, 3, 16);
}
static RegProp r12({"C12", c12, 440000, 13200000, "distinct sequences of parses with their deliveries and reports"});
