// Operations on the library with their reference models.
#include "world.h"
#include <errno.h>
#include <limits.h>
#include <sanitizer/asan_interface.h>

Global G;
static World* W() { return (World*)g_ctx; }

// ---------------------------------------------------------------- streams
static ssize_t mem_write(void* c, const char* b, size_t n) {
    ((Str*)c)->append(b, n);
    return (ssize_t)n;
}
FILE* open_mem(Str* s) {
    cookie_io_functions_t io = {nullptr, mem_write, nullptr, nullptr};
    return fopencookie(s, "w", io);
}

// ---------------------------------------------------------------- callbacks
void World::on_callback(int what) {
    callbacks++;
    if (unwind_in && what != 100 && --unwind_in == 0) {
        COUNT(K_F_UNWIND);
        LOG("fault: callback unwinds");
        PROBE("callback unwound");
        unwind(X_UNWIND);
    }
    if (nest && nested_hook) {
        FaultPlan* f = LA.arena.fault;
        LA.arena.fault = nullptr;
        uint64_t lim = g_step_limit, s0 = g_steps;
        void* c = g_ctx;
        nested_hook(what);
        g_ctx = c;
        g_step_limit = lim == UINT64_MAX ? lim : lim + (g_steps - s0);
        LA.arena.fault = f;
        IN.seal();
    }
}

// ---------------------------------------------------------------- begin
uint64_t work_bound(uint64_t n) {   // the code needs below 20 blocks per unit of size; a generous polynomial all the same
    uint64_t q = n > 9000 ? 20000000 : n * n / 4;
    return 300000 + 400 * n + q;
}
uint64_t formatted_size(const char* s, uint32_t lm, uint32_t rm) {   // upper bound of the output
    uint64_t len = strlen(s), lines = 2;
    uint32_t width = rm - lm + 1;
    for (const char* p = s; *p; p++) lines += isspace((unsigned char)*p) ? 1 : 0;
    lines += width ? len / width : 0;
    if (lines > len + 2) lines = len + 2;
    return len + lines * (lm + 1);
}
void world_begin(FillPolicy f, ReusePolicy r, uint32_t gap, bool custom_handler) {
    LA.arena.reset(r, f, gap, 1 + gap);
    G = Global();
    pending_clear();
    PR.panics = 0;
    if (custom_handler && LA.f.arg_set_panic)
        guarded(LA, [&] { LA.f.arg_set_panic(sim_panic); });
}

Str twin_errors(Table& t, const char* prog) {
    std::map<Str, Str> now = PR.env;
    PR.env = t.env;
    Str s = twin_parse(t.spec, t.args, prog).errors;
    PR.env = now;
    return s;
}
TableP World::pick_table(bool want_parsed) {
    std::vector<TableP> c;
    for (auto& t : tables)
        if (t->complete && (!want_parsed || t->parsed)) c.push_back(t);
    if (c.empty()) return nullptr;
    return c[P().below((uint32_t)c.size())];
}

// ---------------------------------------------------------------- tables
Op World::op_build() {
    Op o;
    o.cls = OC_BUILD;
    if (tables.size() >= maxtables) return op_free();
    TableSpec s = gen_table(P(), gen);
    TableP t = new_table(LA, s);
    World* w = this;
    t->hook = [w](int what, int) { w->on_callback(what); };
    o.desc = sfmt("build table of %zu entries", s.e.size());
    o.keeps = true;
    for (auto& e : s.e) o.may_warn |= e.kind == E_REX;
    for (auto& e : s.e) o.size += 200 + strlen(e.pattern.p ? e.pattern.p : "") * 50 + (uint64_t)e.effmax() * 4;
    o.size += (uint64_t)(s.endcap < 0 ? 0 : s.endcap);
    Table* tp = t.get();
    o.keep.push_back(t);
    o.call = [tp] {
        for (size_t i = tp->made.size(); i <= tp->n(); i++) {
            void* r = i < tp->n() ? construct(*tp->lib, tp->spec.e[i]) : tp->lib->f.arg_end(tp->spec.endcap);
            tp->made.push_back(r);
        }
    };
    auto check_made = [tp] {
        for (size_t i = 0; i < tp->made.size(); i++) {
            REQUIRE(tp->made[i], "constructor", "constructor %zu returned null without calling the out-of-memory handler", i);
            if (!tp->arr[i]) install(*tp, i, tp->made[i]);
        }
    };
    o.done = [=] {
        check_made();
        int nc = -1;
        guarded(LA, [&] { nc = LA.f.arg_nullcheck(tp->arr); });
        REQUIRE(nc == 0, "nullcheck", "arg_nullcheck of a complete table is %d", nc);
        tp->complete = true;
        snapshot_defs(*tp);
        w->tables.push_back(t);
        COUNT(K_TABLES);
        w->note(sfmt("built %zu", tp->n()));
    };
    o.aborted = [=](int) {
        check_made();
        int nc = -1;
        guarded(LA, [&] { nc = LA.f.arg_nullcheck(tp->arr); });
        REQUIRE(nc == 1, "nullcheck", "arg_nullcheck of an incomplete table is %d", nc);
    };
    o.cleanup = [=](bool completed) {
        if (completed) return;
        // the caller gives up on a partly built table
        PROBE("partial table released");
        guarded(LA, [&] { LA.f.arg_freetable(tp->arr, tp->n() + 1); });
        for (size_t i = 0; i <= tp->n(); i++) REQUIRE(!tp->arr[i], "freetable", "released entry %zu is not null", i);
        LA.arena.release(tp->arr, true);
    };
    return o;
}
Op World::op_parse(Table& tb) {
    Op o;
    o.cls = OC_PARSE;
    o.serial = true;
    Table* t = &tb;
    World* w = this;
    auto a = std::make_shared<Args>(gen_args(P(), t->spec));
    bool term = !P().chance(1, 3);
    place_args(*a, t, !P().chance(1, 6), term);
    o.desc = "parse";
    for (auto& s : a->s) {
        if (o.desc.size() < 120) o.desc += " " + fmtq(s).substr(0, 60);
        o.size += s.size() + 2;
    }
    for (auto& e : t->spec.e) {
        o.size += 10 + (e.longs.p ? strlen(e.longs.p) : 0) + (e.shorts.p ? strlen(e.shorts.p) : 0);
        if (e.kind == E_REX) for (auto& s : a->s) o.size += 8 * strlen(e.pattern.p) + s.size();
        if (e.effmax() < 1 << 20) o.size += (uint64_t)e.effmax() / 16;
    }
    auto ret = std::make_shared<int>(0);
    int* rp = ret.get();
    o.keep.push_back(ret);
    Args* ap = a.get();
    o.keep.push_back(a);
    // defaults the caller stored in value slots that no earlier parse used
    struct Def { size_t i; int slot; int v; };
    auto defs = std::make_shared<std::vector<Def>>();
    auto pre = std::make_shared<std::vector<int>>();
    for (size_t i = 0; i < t->n(); i++) {
        pre->push_back(t->count(i));
        if ((t->spec.e[i].kind == E_INT || t->spec.e[i].kind == E_STR || t->spec.e[i].kind == E_DBL || t->spec.e[i].kind == E_FILE || t->spec.e[i].kind == E_REX) && P().chance(1, 3)) {
            int mx = ((arg_hdr_t*)t->arr[i])->maxcount, c = t->count(i);
            if (c >= 0 && c < mx) {
                int slot = c + (int)P().below((uint32_t)std::min(mx - c, 4));
                if (P().chance(1, 3)) slot = mx - 1;
                defs->push_back(Def{i, slot, (int)P().below(1000) + 7});
            }
        }
    }
    static const char* const deftext = "caller's default";
    auto put_defs = [=] {
        for (auto& d : *defs) switch (t->spec.e[d.i].kind) {
            case E_INT: ((arg_int_t*)t->arr[d.i])->ival[d.slot] = d.v; break;
            case E_DBL: ((arg_dbl_t*)t->arr[d.i])->dval[d.slot] = d.v; break;
            case E_STR: ((arg_str_t*)t->arr[d.i])->sval[d.slot] = deftext; break;
            case E_FILE: {
                arg_file_t* f = (arg_file_t*)t->arr[d.i];
                f->filename[d.slot] = f->basename[d.slot] = f->extension[d.slot] = deftext;
                break;
            }
            case E_REX: ((arg_rex_t*)t->arr[d.i])->sval[d.slot] = deftext; break;
            default: break;
        }
    };
    const uint32_t burst = bursts && a->s.size() < 40 && a->total() < 2000 && t->n() < 20 && P().chance(1, 150) ? gen_num(P(), 700) : 0;   // the same again and again
    if (burst) { o.desc += sfmt(" (%u times before)", burst); o.size *= burst + 1; o.reps = burst + 1; defs->clear(); PROBE("many parses in a row"); }
    put_defs();
    o.call = [=] {
        for (uint32_t i = 0; i < burst; i++) {
            reset_events(*t);
            t->parsed = false;
            t->args = *ap;
            LA.f.arg_parse(ap->argc, ap->argv, t->arr);
        }
        reset_events(*t);
        t->parsed = false;
        t->args = *ap;
        *rp = LA.f.arg_parse(ap->argc, ap->argv, t->arr);
    };
    o.done = [=] {
        COUNT(K_PARSES);
        t->last_ret = *rp;
        t->parsed = true;
        t->env = PR.env;
        Str d = describe(*t, *ap, *rp);
        if (*rp) COUNT(K_PARSE_ERR);
        for (auto& x : *defs) {
            if (x.slot < t->count(x.i) && !t->nullslots[x.i].count(x.slot)) continue;
            bool ok = true;
            switch (t->spec.e[x.i].kind) {
                case E_INT: ok = ((arg_int_t*)t->arr[x.i])->ival[x.slot] == x.v; break;
                case E_DBL: ok = ((arg_dbl_t*)t->arr[x.i])->dval[x.slot] == x.v; break;
                case E_STR: ok = ((arg_str_t*)t->arr[x.i])->sval[x.slot] == deftext; break;
                case E_FILE: {
                    arg_file_t* f = (arg_file_t*)t->arr[x.i];
                    ok = f->filename[x.slot] == deftext && f->basename[x.slot] == deftext && f->extension[x.slot] == deftext;
                    break;
                }
                case E_REX: ok = ((arg_rex_t*)t->arr[x.i])->sval[x.slot] == deftext; break;
                default: break;
            }
            REQUIRE(ok, "default-lost", "slot %d of entry %zu (%s, %d values) got no value but lost what the caller stored there", x.slot, x.i, kind_names[t->spec.e[x.i].kind], t->count(x.i));
        }
        SIG(hash_str(d));
        w->note(d);
        if (w->twin) {
            TwinOutcome o2 = twin_parse(t->spec, *ap, nullptr);
            REQUIRE(o2.outcome == d, "outcome-differs", "outcome: %s in a fresh process: %s", fmtq(d).c_str(), fmtq(o2.outcome).c_str());
            COUNT(K_MODELCHK);
        }
        if (w->after_parse) w->after_parse(*t);
    };
    o.aborted = [=](int) {
        t->parsed = false;
        // slots the abandoned parse counted are cleared by the next one
        defs->erase(std::remove_if(defs->begin(), defs->end(), [&](const Def& d) { return d.slot < t->count(d.i); }), defs->end());
        put_defs();
        (void)pre;
    };
    return o;
}
Op World::op_parse_pick() {
    TableP t = pick_table();
    if (!t || !allow_parse) return op_build();
    Op o = op_parse(*t);
    auto c = o.done;
    o.done = [t, c] { c(); };
    return o;
}

static const char* const gloss_formats[] = {nullptr, "  %-25s %s\n", "%s %s", "%-10.10s|%s\n", "<%s>%%%s\n"};
Op World::op_print() {
    Op o;
    o.cls = OC_PRINT;
    World* w = this;
    int what = print_only >= 0 && P().chance(3, 4) ? print_only : (int)P().below(NPRINT);
    TableP t;
    if (what <= PR_ERRORS) {
        t = pick_table(what == PR_ERRORS);
        if (!t) return op_build();
    }
    const char* arg = nullptr;
    const char* prog = nullptr;
    EntrySpec oe;
    uint32_t lm = 0, rm = 0;
    switch (what) {
        case PR_SYNTAX: case PR_SYNTAXV: if (P().chance(2, 3)) arg = put(gen_any(P(), 400)).p; break;
        case PR_GLOSSARY: arg = gloss_formats[P().below(5)]; if (arg) arg = put(arg).p; break;
        case PR_ERRORS: prog = put(P().chance(1, 2) ? Str("prog") : gen_any(P(), 300)).p; break;
        case PR_OPTION:
            if (P().chance(2, 3)) oe.shorts = put(gen_word(P(), 3));
            if (P().chance(1, 2)) oe.longs = put(P().chance(1, 8) ? gen_word(P(), 250) : gen_word(P(), 8) + "," + gen_word(P(), 5));
            if (P().chance(1, 2)) oe.datatype = put(gen_any(P(), 300));
            if (P().chance(1, 2)) oe.glossary = put(gen_any(P(), 300));
            break;
        case PR_FORMATTED: {
            arg = put(P().chance(1, 4) ? gen_any(P(), 2000) : gen_text(P(), P().below(160))).p;
            lm = P().below(30);
            rm = P().chance(1, 10) ? gen_num(P(), 200) : lm + P().below(60);
            if (P().chance(1, 20)) rm = lm - P().below(3);
        } break;
        default: break;
    }
    bool tostream = what == PR_FORMATTED || P().chance(1, 2);
    DSP d;
    if (!tostream) {
        d = pick_ds();
        if (!d || d->lost) return Op();
    }
    o.keeps = !tostream;
    o.desc = sfmt("print %s %s", print_names[what], tostream ? "to a stream" : "to a string");
    o.size = 100 + (arg ? strlen(arg) : 0) + (d ? d->model.size() : 0);
    if (t) {
        for (auto& e : t->spec.e)
            o.size += 300 + (e.glossary.p ? strlen(e.glossary.p) * 8 : 0) + (uint64_t)e.effmax() * 2 + (e.minc > 0 ? (uint64_t)e.minc * 100 : 0);
        if (what == PR_ERRORS) {
            int n = t->end()->count;
            o.size += n > 0 ? (uint64_t)n * 600 : 0;
            for (auto& s : t->args.s) o.size += s.size() * 4;
        }
    }
    if (what == PR_FORMATTED) o.size += formatted_size(arg, lm, rm);
    auto expect = [=]() -> Str {
        if (what == PR_ERRORS) return twin_errors(*t, prog);
        if (what <= PR_GLOSSARY_GNU) return twin_print(t->spec, what, arg);
        COUNT(K_TWIN);
        LB.restore();
        LB.arena.reset(REUSE_NEVER, FILL_ZERO, 16, 1);
        Str s;
        FILE* f = open_mem(&s);
        guarded(LB, [&] {
            if (what == PR_FORMATTED) LB.f.arg_print_formatted(f, lm, rm, arg);
            else LB.f.arg_print_option(f, oe.shorts.p, oe.longs.p, oe.datatype.p, oe.glossary.p);
        });
        fclose(f);
        return s;
    };
    auto got = std::make_shared<Str>();
    FILE* f = tostream ? open_mem(got.get()) : nullptr;
    auto before = std::make_shared<Str>(t && what == PR_ERRORS ? describe_errors(*t, t->args) : Str());
    Table* tp = t.get();
    o.keep.push_back(t);
    DS* dp = d.get();
    o.keep.push_back(d);
    o.call = [=] {
        if (f) {
            switch (what) {
                case PR_SYNTAX: LA.f.arg_print_syntax(f, tp->arr, arg); break;
                case PR_SYNTAXV: LA.f.arg_print_syntaxv(f, tp->arr, arg); break;
                case PR_GLOSSARY: LA.f.arg_print_glossary(f, tp->arr, arg); break;
                case PR_GLOSSARY_GNU: LA.f.arg_print_glossary_gnu(f, tp->arr); break;
                case PR_ERRORS: LA.f.arg_print_errors(f, tp->end(), prog); break;
                case PR_OPTION: LA.f.arg_print_option(f, oe.shorts.p, oe.longs.p, oe.datatype.p, oe.glossary.p); break;
                case PR_FORMATTED: LA.f.arg_print_formatted(f, lm, rm, arg); break;
            }
        } else {
            switch (what) {
                case PR_SYNTAX: LA.f.arg_print_syntax_ds(dp->h, tp->arr, arg); break;
                case PR_SYNTAXV: LA.f.arg_print_syntaxv_ds(dp->h, tp->arr, arg); break;
                case PR_GLOSSARY: LA.f.arg_print_glossary_ds(dp->h, tp->arr, arg); break;
                case PR_GLOSSARY_GNU: LA.f.arg_print_glossary_gnu_ds(dp->h, tp->arr); break;
                case PR_ERRORS: LA.f.arg_print_errors_ds(dp->h, tp->end(), prog); break;
                case PR_OPTION: LA.f.arg_print_option_ds(dp->h, oe.shorts.p, oe.longs.p, oe.datatype.p, oe.glossary.p); break;
            }
        }
    };
    auto tail = [=] { if (tp && what == PR_ERRORS) REQUIRE(describe_errors(*tp, tp->args) == *before, "records-changed", "printing changed the error records"); };
    o.done = [=] {
        COUNT(K_PRINTS);
        tail();
        Str e = w->twin || !f ? expect() : Str();
        if (f) {
            fflush(f);
            if (w->twin) REQUIRE(*got == e, "print-differs", "printed %s in a fresh process %s", fmtq(*got).c_str(), fmtq(e).c_str());
            w->note(*got);
        } else {
            dp->model += e;
            dp->writable = true;
            check_ds(*dp, "after printing");
            w->note(e);
        }
        SIG(hash_str(w->twin ? e : *got, (uint64_t)what));
        (void)t; (void)d;
    };
    o.aborted = [=](int) {
        tail();
        if (f) {
            fflush(f);
            Str e = expect();
            REQUIRE(e.compare(0, got->size(), *got) == 0 && got->size() <= e.size(), "print-differs", "an abandoned print wrote %s which is no prefix of %s", fmtq(*got).c_str(), fmtq(e).c_str());
            got->clear();
        } else {
            Str e = expect(), now;
            guarded(LA, [&] { now = LA.f.arg_dstr_cstr(dp->h); });
            Str all = dp->model + e;
            REQUIRE(now.size() >= dp->model.size() && all.compare(0, now.size(), now) == 0, "string-after-abort", "an abandoned print left %s, which is not %s plus a prefix of %s",
                    fmtq(now).c_str(), fmtq(dp->model).c_str(), fmtq(e).c_str());
            dp->model = now;
            dp->writable = true;
        }
    };
    o.cleanup = [=](bool) { if (f) fclose(f); };
    return o;
}
Op World::op_free() {
    Op o;
    o.cls = OC_FREE;
    TableP t = pick_table();
    if (!t) return op_build();
    bool old = P().chance(1, 3);
    World* w = this;
    Table* tp = t.get();
    o.keep.push_back(t);
    o.desc = old ? "arg_free" : "arg_freetable";
    // sometimes the caller has released one entry before
    int hole = !old && t->n() && P().chance(1, 5) ? (int)P().below((uint32_t)t->n()) : -1;
    // and sometimes the array goes on after the end marker
    uint32_t extra = !old && P().chance(1, 6) ? 1 + P().below(3) : 0;
    auto more = std::make_shared<std::vector<void*>>();
    o.keep.push_back(more);
    if (extra) {
        size_t n = t->n() + 1;
        void** a = (void**)LA.arena.alloc(sizeof(void*) * (n + extra), OWN_USER);
        for (size_t i = 0; i < n; i++) a[i] = t->arr[i];
        for (uint32_t i = 0; i < extra; i++) {
            void* e = nullptr;
            uint32_t kind = P().below(3);
            if (kind) {
                CallInfo ci = guarded(LA, [&] { e = kind == 1 ? (void*)LA.f.arg_lit0("a", nullptr, nullptr) : (void*)LA.f.arg_end(2); });
                REQUIRE(ci.code == X_RET && e, "constructor", "constructor failed with memory available");
            }
            a[n + i] = e;
            more->push_back(e);
        }
        LA.arena.release(t->arr, true);
        t->arr = a;
        PROBE("entries after the end marker released");
    }
    o.size = t->n() * 50 + 200;
    if (hole >= 0) {
        guarded(LA, [&] { LA.f.arg_freetable(tp->arr + hole, 1); });
        REQUIRE(!tp->arr[hole], "freetable", "released entry %d is not null", hole);
        for (size_t i = 0; i <= tp->n(); i++)
            if ((int)i != hole) REQUIRE(tp->arr[i] == tp->made[i], "freetable", "entry %zu was changed by releasing entry %d", i, hole);
        int nc = -1;
        guarded(LA, [&] { nc = LA.f.arg_nullcheck(tp->arr); });
        REQUIRE(nc == 1, "nullcheck", "arg_nullcheck of a table with a null entry is %d", nc);
    }
    tables.erase(std::find(tables.begin(), tables.end(), t));
    o.call = [=] {
        if (old) LA.f.arg_free(tp->arr);
        else LA.f.arg_freetable(tp->arr, tp->n() + 1 + extra);
    };
    o.done = [=] {
        for (uint32_t i = 0; i < extra; i++) {
            REQUIRE(!tp->arr[tp->n() + 1 + i], "freetable", "released entry %zu after the end marker is not null", tp->n() + 1 + i);
            if ((*more)[i]) REQUIRE(!w->still_live((*more)[i]), "freetable", "entry %zu after the end marker was not released", tp->n() + 1 + i);
        }
        for (size_t i = 0; i <= tp->n(); i++) {
            REQUIRE(!tp->arr[i], "freetable", "released entry %zu is not null", i);
            if ((int)i == hole) continue;
            REQUIRE(!w->still_live(tp->made[i]), "freetable", "entry %zu was not released", i);
        }
        LA.arena.release(tp->arr, true);
        w->note("freed");
        if (!g_sched && !w->in_nested) w->recycle(*tp);
        (void)t;
    };
    o.aborted = [=](int) { violate("free-allocates", "releasing a table called the out-of-memory handler"); };
    return o;
}
// The texts of a released table make room for those of later ones.
void World::recycle(Table& t) {
    std::set<const char*> used;
    auto each = [](Table& x, auto f) {
        for (auto& e : x.spec.e) {
            f(e.shorts.p, ROLE_SHORT);
            f(e.longs.p, ROLE_LONG);
            f(e.datatype.p, ROLE_DATATYPE);
            f(e.glossary.p, ROLE_GLOSSARY);
            f(e.pattern.p, ROLE_PATTERN);
            f(e.format.p, ROLE_FORMAT);
        }
    };
    for (auto& o : tables) each(*o, [&](const char* p, int) { used.insert(p); });
    each(t, [&](const char* p, int r) { if (p && !used.count(p)) IN.recycle(p, r); });
    PROBE("texts of a released table reused");
}
Op World::op_edit() {
    Op o;
    TableP t = pick_table();
    if (!t) return op_build();
    o.cls = OC_EDIT;
    COUNT(K_F_EDIT);
    uint32_t k = P().below(9);
    World* w = this;
    size_t i = t->n() ? P().below((uint32_t)t->n()) : 0;
    if (!t->n()) return Op();
    EntrySpec& e = t->spec.e[i];
    arg_hdr_t* h = t->hdr(i);
    int allocmax = e.effmax();
    switch (k) {
        case 0: if (e.kind != E_REM) { e.minc = (int)P().below((uint32_t)std::min(allocmax, 5) + 1); e.maxc = allocmax; e.ctor = 2; h->mincount = e.minc; } break;
        case 1: if (e.kind != E_REM && e.minc <= allocmax) { // lower maximum: the storage stays
                int nm = e.minc + (int)P().below((uint32_t)(allocmax - e.minc) + 1);
                if (t->count(i) > nm) PROBE("maximum lowered below the count");
                e.maxc = nm; e.ctor = 2; h->maxcount = nm;
            } break;
        case 2: e.glossary = P().chance(1, 4) ? OptStr() : put(gen_any(P(), 300)); h->glossary = e.glossary.p; break;
        case 3: if (e.shorts.set()) { e.shorts = put(gen_word(P(), 2)); for (const char* c = e.shorts.p; *c; c++) if (!isalnum((unsigned char)*c)) e.shorts = put("q"); h->shortopts = e.shorts.p; } break;
        case 4: if (e.longs.set()) { e.longs = put(gen_word(P(), 6)); h->longopts = e.longs.p; } break;
        case 5: if (e.kind != E_LIT && e.kind != E_REM) { e.datatype = put(gen_any(P(), 100)); h->datatype = e.datatype.p; } break;
        case 6: {
            size_t j = P().below((uint32_t)t->n());
            if (i != j) {
                std::swap(t->spec.e[i], t->spec.e[j]);
                std::swap(t->arr[i], t->arr[j]);
                std::swap(t->made[i], t->made[j]);
                for (auto* r : t->wraps) { if (r->idx == (int)i) r->idx = (int)j; else if (r->idx == (int)j) r->idx = (int)i; }
                std::swap(t->nullslots[i], t->nullslots[j]);
            }
        } break;
        case 7: if (e.kind != E_REM && e.kind != E_DATE) t->count(i) = 0; break;
        case 8: { // a new end marker with another capacity
            arg_end_t* old = t->end();
            t->spec.endcap = (int)P().below(12);
            void* ne = nullptr;
            guarded(LA, [&] { ne = LA.f.arg_end(t->spec.endcap); });
            REQUIRE(ne, "constructor", "arg_end returned null");
            void* tmp[1] = {old};
            guarded(LA, [&] { LA.f.arg_freetable(tmp, 1); });
            t->made[t->n()] = ne;
            install(*t, t->n(), ne);
        } break;
    }
    t->parsed = false;
    snapshot_defs(*t);
    set_op("caller edits entry %zu (%u)", i, k);
    (void)w;
    return Op();
}
Op World::op_env() {
    gen_env(P());
    set_op("environment changes");
    return Op();
}

// ---------------------------------------------------------------- dynamic strings
struct Pending { int fn; uint32_t id; };
static std::map<char*, Pending>& pending() {
    static std::map<char*, Pending> m;
    return m;
}
static uint32_t pending_id;
void pending_clear() { pending().clear(); pending_id = 0; }
template <int N> static void free_fn(char* b) {
    auto it = pending().find(b);
    if (it == pending().end()) violate("release-function", "release function %d called with a pointer that was not handed over, or again", N);
    if (it->second.fn != N) violate("release-function", "release function %d called for a string handed over with function %d", N, it->second.fn);
    pending().erase(it);
    if (W()) W()->on_callback(100);
    LA.arena.release(b, true);
    LOG("release function %d", N);
}
static arg_dstr_freefn* const free_fns[] = {free_fn<0>, free_fn<1>, free_fn<2>};

void check_ds(DS& d, const char* when) {
    if (d.lost) return;
    char* c = nullptr;
    guarded(LA, [&] { c = LA.f.arg_dstr_cstr(d.h); });
    REQUIRE(c, "string-content", "null content %s", when);
    Str now(c);
    COUNT(K_MODELCHK);
    if (now != d.model) {
        size_t k = 0;
        while (k < now.size() && k < d.model.size() && now[k] == d.model[k]) k++;
        violate("string-content", "%s: length %zu, expected %zu, first difference at %zu: %s, expected %s", when, now.size(), d.model.size(), k,
                fmtq(now.substr(k > 10 ? k - 10 : 0, 60)).c_str(), fmtq(d.model.substr(k > 10 ? k - 10 : 0, 60)).c_str());
    }
}
DSP World::pick_ds(bool create) {
    std::vector<DSP> c;
    for (auto& d : ds) if (!d->lost) c.push_back(d);
    if (c.empty() || (create && c.size() < 3 && P().chance(1, 4))) {
        DSP d = std::make_shared<DS>();
        FaultPlan* f = LA.arena.fault;
        LA.arena.fault = nullptr;
        CallInfo ci = guarded(LA, [&] { d->h = LA.f.arg_dstr_create(); });
        LA.arena.fault = f;
        REQUIRE(ci.code == X_RET && d->h, "constructor", "arg_dstr_create failed with memory available");
        ds.push_back(d);
        check_ds(*d, "after creation");
        return d;
    }
    return c[P().below((uint32_t)c.size())];
}
static Str gen_fmt_result(Stream& p, int& kind, Str& s1, Str& s2, long& n, double& x) {
    kind = (int)p.below(11);
    s1 = gen_any(p, 4000);
    if (p.chance(1, 150)) s1 = gen_text(p, p.chance(1, 2) ? 32760 + p.below(12) : p.range(20000, 140000));
    s2 = gen_text(p, p.below(30));
    n = (long)p.below(2000000) - 1000000;
    x = (double)((int)p.below(100000) - 50000) / 7.0;
    return "";
}
static void do_catf(Api& f, arg_dstr_t h, int kind, const char* lit, const char* s1, const char* s2, long n, double x) {
    switch (kind) {
        case 0: f.arg_dstr_catf(h, "%s", s1); break;
        case 1: f.arg_dstr_catf(h, "%d", (int)n); break;
        case 2: f.arg_dstr_catf(h, "[%8ld|%-8s]", n, s2); break;
        case 3: f.arg_dstr_catf(h, "%s%s%s", s2, s1, s2); break;
        case 4: f.arg_dstr_catf(h, "%.3f%%", x); break;
        case 5: f.arg_dstr_catf(h, lit); break;
        case 6: f.arg_dstr_catf(h, "%*s|%.*s", (int)(n & 63), s2, (int)(n & 15), s1); break;
        case 7: f.arg_dstr_catf(h, "%c%c", 'a' + (int)(n & 15), 'A'); break;
        case 8: f.arg_dstr_catf(h, "%lx %o %u", (unsigned long)n, (unsigned)n, (unsigned)n); break;
        case 9: f.arg_dstr_catf(h, nullptr); break;
        case 10: f.arg_dstr_catf(h, "%s", ""); break;
    }
}
static Str fmt_result(int kind, const char* lit, const char* s1, const char* s2, long n, double x) {
    Str b(strlen(s1) + strlen(s2) * 2 + 600, 0);
    int k = 0;
    char* p = &b[0];
    size_t z = b.size();
    switch (kind) {
        case 0: return s1;
        case 1: k = snprintf(p, z, "%d", (int)n); break;
        case 2: k = snprintf(p, z, "[%8ld|%-8s]", n, s2); break;
        case 3: k = snprintf(p, z, "%s%s%s", s2, s1, s2); break;
        case 4: k = snprintf(p, z, "%.3f%%", x); break;
        case 5: return lit;
        case 6: k = snprintf(p, z, "%*s|%.*s", (int)(n & 63), s2, (int)(n & 15), s1); break;
        case 7: k = snprintf(p, z, "%c%c", 'a' + (int)(n & 15), 'A'); break;
        case 8: k = snprintf(p, z, "%lx %o %u", (unsigned long)n, (unsigned)n, (unsigned)n); break;
        default: return "";
    }
    b.resize((size_t)k);
    return b;
}
static char* user_block(const Str& s, int owner) {
    char* b = (char*)LA.arena.alloc(s.size() + 1, owner);
    memcpy(b, s.c_str(), s.size() + 1);
    return b;
}
Op World::op_dstr() {
    Op o;
    o.cls = OC_DSTR;
    World* w = this;
    uint32_t k = P().below(ds.empty() ? 1 : 20);
    if (ds.size() >= maxds && k == 0) k = 5;
    if (k == 0) {  // create
        DSP d = std::make_shared<DS>();
        DS* dp = d.get();
        o.keep.push_back(d);
        o.desc = "dstr create";
        o.keeps = true;
        o.size = 100;
        o.call = [dp] { dp->h = LA.f.arg_dstr_create(); };
        o.done = [=] {
            REQUIRE(dp->h, "constructor", "arg_dstr_create returned null without calling the out-of-memory handler");
            w->ds.push_back(d);
            check_ds(*dp, "after creation");
            COUNT(K_DSTR);
        };
        o.aborted = [](int) {};
        return o;
    }
    DSP d = ds[P().below((uint32_t)ds.size())];
    DS* dp = d.get();
    o.keep.push_back(d);
    if (d->lost && k > 7) k = 1 + k % 7;
    bool keep_writable = false;
    auto fin = [=](const char* what, const Str& m) {
        dp->model = m;
        dp->lost = false;
        dp->ops++;
        check_ds(*dp, what);
        COUNT(K_DSTR);
        w->note(m);
        SIG(m.size() * 31 + (uint64_t)k);
    };
    (void)keep_writable;
    o.keeps = true;
    o.size = 200 + dp->model.size();
    auto old_only = [=](int) {
        if (dp->lost) return;
        check_ds(*dp, "after an abandoned operation");
    };
    switch (k) {
        case 1: {  // destroy
            o.desc = "dstr destroy";
            ds.erase(std::find(ds.begin(), ds.end(), d));
            o.call = [=] { LA.f.arg_dstr_destroy(dp->h); };
            o.done = [=] {
                REQUIRE(!w->still_live(dp->h), "leak", "arg_dstr_destroy did not release the string");
                for (auto& x : pending()) REQUIRE((int)x.second.id != dp->pending_free, "leak", "a string handed over with a release function was not released by destroying the dynamic string");
                COUNT(K_DSTR);
                (void)d;
            };
            o.aborted = [=](int) { violate("free-allocates", "destroying a dynamic string called the out-of-memory handler"); };
            break;
        }
        case 2:
            o.desc = "dstr reset";
            o.call = [=] { LA.f.arg_dstr_reset(dp->h); };
            o.done = [=] { dp->writable = false; fin("after reset", ""); (void)d; };
            o.aborted = [=](int) { violate("free-allocates", "resetting a dynamic string called the out-of-memory handler"); };
            break;
        case 3: {  // set static
            const char* s = put(gen_any(P(), 3000)).p;
            o.desc = "dstr set static";
            o.call = [=] { LA.f.arg_dstr_set(dp->h, (char*)s, ARG_DSTR_STATIC); };
            o.done = [=] { dp->writable = false; fin("after set static", s); (void)d; };
            o.aborted = old_only;
            break;
        }
        case 4: {  // set volatile
            Str s = gen_any(P(), 3000);
            char* b = user_block(s, OWN_USER);
            o.desc = sfmt("dstr set volatile (%zu)", s.size());
            o.size += s.size();
            o.call = [=] { LA.f.arg_dstr_set(dp->h, b, ARG_DSTR_VOLATILE); };
            o.done = [=] {
                memset(b, 'Z', s.size());
                dp->writable = true;
                fin("after set volatile", s);
                (void)d;
            };
            o.aborted = old_only;
            o.cleanup = [=](bool) { LA.arena.release(b, true); };
            break;
        }
        case 5: {  // set dynamic or with a release function
            Str s = gen_any(P(), 3000);
            uint32_t fn = P().below(4);
            char* b = user_block(s, fn == 3 ? OWN_HANDED : OWN_USER);
            uint32_t id = ++pending_id;
            o.desc = fn == 3 ? sfmt("dstr set dynamic (%zu)", s.size()) : sfmt("dstr set with release function %u (%zu)", fn, s.size());
            o.size += s.size();
            o.call = [=] {
                if (fn < 3) pending()[b] = Pending{(int)fn, id};
                LA.f.arg_dstr_set(dp->h, b, fn == 3 ? ARG_DSTR_DYNAMIC : free_fns[fn]);
            };
            o.done = [=] { dp->pending_free = fn < 3 ? (int)id : -1; dp->writable = true; fin("after set", s); (void)d; };
            o.aborted = old_only;
            o.cleanup = [=](bool completed) { if (!completed) { pending().erase(b); LA.arena.release(b, true); } };
            break;
        }
        case 6:
            o.desc = "dstr set null";
            o.call = [=] { LA.f.arg_dstr_set(dp->h, nullptr, k & 1 ? ARG_DSTR_VOLATILE : ARG_DSTR_STATIC); };
            o.done = [=] { dp->writable = false; fin("after set null", ""); (void)d; };
            o.aborted = old_only;
            break;
        case 7: {  // release the content early
            if (d->lost || !P().chance(1, 3)) { o.desc = "dstr reset"; o.call = [=] { LA.f.arg_dstr_reset(dp->h); }; o.done = [=] { dp->writable = false; fin("after reset", ""); (void)d; }; }
            else {
                o.desc = "dstr free";
                o.call = [=] { LA.f.arg_dstr_free(dp->h); };
                o.done = [=] { dp->lost = true; dp->writable = false; (void)d; };
            }
            o.aborted = [=](int) { violate("free-allocates", "releasing a dynamic string called the out-of-memory handler"); };
            break;
        }
        case 8: case 9: {  // volatile part of the own content
            char* own = nullptr;
            guarded(LA, [&] { own = LA.f.arg_dstr_cstr(dp->h); });
            Block* ob = LA.arena.find(own);
            auto pe = pending().find(own);
            if (ob && (ob->owner == OWN_HANDED || pe != pending().end()) && P().chance(1, 2)) {
                // handed over once more: it is the same block, and still to be released once
                int fn = pe != pending().end() ? pe->second.fn : 3;
                if (fn < 3 && P().chance(1, 2)) { fn = (int)P().below(3); pe->second.fn = fn; }
                PROBE("content handed over again");
                o.desc = sfmt("dstr set to its own content (%zu) with release function %d", d->model.size(), fn);
                o.call = [=] { LA.f.arg_dstr_set(dp->h, own, fn == 3 ? ARG_DSTR_DYNAMIC : free_fns[fn]); };
                o.done = [=] {
                    REQUIRE(LA.arena.find(own), "foreign-free", "setting a dynamic string to its own content released it");
                    fin("after set to own content", dp->model);
                    (void)d;
                };
                o.aborted = old_only;
                break;
            }
            uint32_t off = P().below((uint32_t)d->model.size() + 1);
            if (P().chance(1, 3)) off = off % 3 % ((uint32_t)d->model.size() + 1);
            o.desc = sfmt("dstr set to its own tail (+%u of %zu)", off, d->model.size());
            o.call = [=] {
                char* c = LA.f.arg_dstr_cstr(dp->h);
                LA.f.arg_dstr_set(dp->h, c + off, ARG_DSTR_VOLATILE);
            };
            o.done = [=] { dp->writable = true; fin("after set to own tail", dp->model.substr(off)); (void)d; };
            o.aborted = old_only;
            break;
        }
        case 10: {  // the caller shortens the string in place
            if (!d->writable || d->model.empty()) { k = 11; goto append; }
            char* c = nullptr;
            guarded(LA, [&] { c = LA.f.arg_dstr_cstr(dp->h); });
            if (IN.has(c)) { k = 11; goto append; }  // still the caller's static text (something empty was appended)
            uint32_t n = P().below((uint32_t)d->model.size());
            c[n] = 0;
            d->model.resize(n);
            COUNT(K_F_EDIT);
            set_op("caller shortens a dynamic string to %u", n);
            check_ds(*d, "after shortening");
            return Op();
        }
        default: append: {
            Str app;
            auto rem = std::make_shared<size_t>(0);   // characters still to append one by one
            if (k < 15) {
                app = gen_any(P(), k == 11 ? 12000 : 1000);
                if (P().chance(1, 250)) app = gen_text(P(), P().chance(1, 2) ? 65530 + P().below(12) : P().range(20000, 140000));
                const char* s = put(app).p;
                *rem = app.size();
                o.desc = sfmt("dstr cat (%zu to %zu)", app.size(), d->model.size());
                o.call = [=] { LA.f.arg_dstr_cat(dp->h, s); };
            } else if (k < 17) {
                char c = P().chance(1, 3) ? (char)(1 + P().below(255)) : (char)('!' + P().below(90));
                uint32_t n = P().chance(1, 6) ? P().range(2, 260) : 1;
                app = Str(n, c);
                o.desc = sfmt("dstr catc x%u", n);
                *rem = n;
                size_t* rp = rem.get();
                o.keep.push_back(rem);
                o.call = [=] { for (size_t i = 0; i < *rp; i++) LA.f.arg_dstr_catc(dp->h, c); };
            } else {
                int kind;
                Str s1, s2;
                long n;
                double x;
                gen_fmt_result(P(), kind, s1, s2, n, x);
                Str lit;
                for (char ch : s1) if (ch != '%') lit += ch;
                const char* p1 = put(s1).p;
                const char* p2 = put(s2).p;
                const char* pl = put(lit).p;
                app = fmt_result(kind, pl, p1, p2, n, x);
                *rem = app.size();
                o.desc = sfmt("dstr catf %d (%zu to %zu)", kind, app.size(), d->model.size());
                o.call = [=] { do_catf(LA.f, dp->h, kind, pl, p1, p2, n, x); };
            }
            o.size += app.size() * 4;
            if (k >= 15 && k < 17) o.size *= app.size() + 1;
            bool unchanged = app.empty();
            o.done = [=] {
                if (!unchanged) dp->writable = true;
                fin("after appending", dp->model + app.substr(0, k >= 15 && k < 17 ? *rem : app.size()));
                (void)d;
            };
            o.aborted = [=](int) {
                Str now;
                guarded(LA, [&] { now = LA.f.arg_dstr_cstr(dp->h); });
                Str all = dp->model + app;
                REQUIRE(now.size() >= dp->model.size() && all.compare(0, now.size(), now) == 0, "string-after-abort", "an abandoned append left %s, which is not %s plus a prefix of %s",
                        fmtq(now).c_str(), fmtq(dp->model).c_str(), fmtq(app).c_str());
                if (now.size() > dp->model.size()) dp->writable = true;
                *rem -= now.size() - dp->model.size();
                dp->model = now;
            };
        }
    }
    return o;
}
