// C08, C09, C15: interleaved callers, memory personalities, calls inside callbacks.
#include "props.h"
#include <errno.h>

// ---------------------------------------------------------------- C08
static uint32_t quantum(uint32_t mode) {
    Stream& s = SC();
    switch (mode) {
        case 0: return 1 + s.below(12);
        case 1: return 1 + s.below(200);
        case 2: return 1 + s.below(5000);
        case 4: case 6: case 8: return s.chance(1, 2) ? 1 + s.below(30000) : 4000000;   // preempted at new places, for long
        default: {
            uint32_t r = s.below(8);
            return r < 3 ? 1 + s.below(20) : r < 6 ? 1 + s.below(500) : 1 + s.below(10000);
        }
    }
}
static void c08(Choices& c) {
    pick_personality(P(), true);
    World m;
    g_ctx = &m;
    m.gen.max_entries = 4;
    m.gen.big = false;
    weights(m, {{OC_REG, 6}, {OC_IDENT, 2}});
    run_ops(m, 0, 10);
    uint32_t n = 2 + P().below(2);
    uint32_t mode = SC().below(9);   // 0..3: quanta; 4: at new places; 6: at some places, whoever gets there; 8: at static data
    if (mode == 5) mode = 4;
    if (mode == 7) mode = 6;
    uint32_t focus = P().below(8);
    static const int one[] = {OC_HASH, OC_HASH, OC_DSTR, OC_SORT, OC_REG, OC_MSG, OC_BUILD, OC_PRINT};
    int cls = one[P().below(8)];
    int kind = (int)P().below(E_CUSTOM), print = (int)P().below(NPRINT);   // callers that do the same things at the same time
    if (P().chance(1, 3)) print = PR_ERRORS;
    bool bad = P().chance(1, 2);
    std::vector<std::unique_ptr<World>> ws;
    std::vector<std::function<void()>> bodies;
    Choices* cp = &c;
    for (uint32_t i = 0; i < n; i++) {
        ws.emplace_back(new World);
        World* w = ws.back().get();
        w->reg_write = false;
        w->gen.wrap = i & 1;
        w->gen.max_entries = 5;
        w->gen.big = false;
        if (focus == 0) weights(*w, {{OC_BUILD, 4}, {OC_PARSE, 6}, {OC_PRINT, 6}, {OC_FREE, 2}, {OC_MSG, 3}});
        else if (focus >= 6) {
            weights(*w, {{OC_BUILD, 1}, {OC_PARSE, 1}});
            w->w[cls] += 30;
        } else if (focus >= 4) {
            weights(*w, {{OC_BUILD, 2}, {OC_PARSE, 5}, {OC_PRINT, 8}, {OC_MSG, focus == 4 ? 3u : 0u}, {OC_FREE, 1}});
            w->gen.only = kind;
            w->print_only = print;
        }
        else if (focus == 1) weights(*w, {{OC_BUILD, 3}, {OC_PRINT, 6}, {OC_DSTR, 6}, {OC_SORT, 4}, {OC_HASH, 4}, {OC_FREE, 1}});
        else weights(*w, {{OC_BUILD, 5}, {OC_PARSE, 6}, {OC_PRINT, 6}, {OC_FREE, 2}, {OC_DSTR, 5}, {OC_REG, 3}, {OC_DISPATCH, 2}, {OC_HASH, 4}, {OC_SORT, 3}, {OC_MSG, 4}});
        bodies.push_back([w, i, cp] {
            g_prog = &cp->st[ST_PROG1 + i];
            g_ctx = w;
            run_ops(*w, 2, 9);
            w->check_objects();
            w->release_all();
        });
    }
    g_bad_values = (focus == 4 || focus == 5) && bad;
    Sched s;
    s.quantum = [mode] { return (uint64_t)quantum(mode); };
    uint32_t den = mode == 4 ? 1 << (2 + SC().below(6)) : 0;
    if (mode == 4) s.fresh = [den] { return SC().chance(1, den); };
    if (mode == 6) {
        uint32_t den2 = 1 << SC().below(5);
        s.mod = 1u << (3 + SC().below(9));
        s.res = SC().below(s.mod);
        s.at_place = [den2] { return SC().chance(1, den2); };
    }
    if (mode == 8) {
        uint32_t den2 = 1 << SC().below(4);
        s.on_data = true;
        s.at_place = [den2] { return SC().chance(1, den2); };
    }
    s.choose = [](size_t k) { return (size_t)SC().below((uint32_t)k); };
    g_step_limit = g_steps + 300000000;
    s.run(bodies);
    g_step_limit = UINT64_MAX;
    g_bad_values = false;
    g_ctx = &m;
    SIG(s.trace);
    if (s.switches > n) PROBE("callers interleaved");
    set_op("final inspection");
    m.check_ident("after the callers finished");
    check_registry("after the callers finished");
    m.finish();
    m.check_leaks("after everything was released");
}
static RegProp r08({"C08", c08, 108000, 2160000, "distinct schedules: the sequence of (caller, position in executed basic blocks) at each switch, with the results", "libP.so"});

// ---------------------------------------------------------------- C09
struct Personality { FillPolicy fill; ReusePolicy reuse; uint32_t gap, dirty; int err; };
static std::vector<Str> c09_once(Choices& c, const Personality& q, bool first) {
    uint64_t lh = g_loghash, st = g_steps;
    if (!first) {
        std::vector<uint32_t> keep_sc = c.st[ST_SCHED].marks;
        size_t pos = c.st[ST_SCHED].pos;
        begin_run(c);
        c.st[ST_SCHED].pos = pos;
        c.st[ST_PROG].rewind();
        c.st[ST_FAULT].rewind();
    }
    world_begin(q.fill, q.reuse, q.gap, true);
    g_dirty_stack = q.dirty;
    std::vector<Str> log;
    World w;
    g_ctx = &w;
    w.log = &log;
    w.twin = false;
    w.errno_value = q.err;
    w.gen.wrap = P().chance(1, 3);
    w.fc.rate = P().chance(1, 3) ? 120 : 0;
    uint32_t focus = P().below(3);
    if (focus == 0) weights(w, {{OC_BUILD, 4}, {OC_PARSE, 14}, {OC_PRINT, 8}, {OC_FREE, 1}, {OC_EDIT, 1}, {OC_ENV, 1}, {OC_MSG, 2}});
    else weights(w, {{OC_BUILD, 5}, {OC_PARSE, 9}, {OC_PRINT, 7}, {OC_FREE, 2}, {OC_DSTR, 10}, {OC_REG, 6}, {OC_DISPATCH, 3}, {OC_HASH, 6}, {OC_SORT, 3}, {OC_MSG, 5}, {OC_IDENT, 3}, {OC_EDIT, 1}, {OC_ENV, 1}});
    run_ops(w, 3, 22);
    for (auto& d : w.ds)
        if (!d->lost) log.push_back(d->model);
    w.finish();
    g_loghash = hash_u64(lh, g_loghash);
    g_steps += first ? 0 : st;
    return log;
}
static void c09(Choices& c) {
    Personality q[3];
    q[0] = Personality{FILL_ZERO, REUSE_NEVER, 16, 0, 0};
    static const int errs[] = {0, EINVAL, ERANGE, EINTR, ENOMEM, 12345};
    for (int i = 1; i < 3; i++) {
        q[i].fill = (FillPolicy)(1 + SC().below(5));
        q[i].reuse = (ReusePolicy)SC().below(3);
        q[i].gap = 16 + 16 * SC().below(6);
        q[i].dirty = SC().chance(3, 4) ? 6000 : 0;
        q[i].err = errs[SC().below(6)];
        COUNT(K_F_MEMORY);
    }
    std::vector<Str> base = c09_once(c, q[0], true);
    for (int i = 1; i < 3; i++) {
        std::vector<Str> l = c09_once(c, q[i], false);
        size_t k = 0;
        while (k < base.size() && k < l.size() && base[k] == l[k]) k++;
        static const char* const fn[] = {"zero", "0xff", "0xa5", "stale", "random", "text"};
        REQUIRE(k == base.size() && k == l.size(), "garbage-dependence", "result %zu of the program is %s with zeroed fresh memory, but %s with %s memory, reuse policy %d, errno %d", k,
                k < base.size() ? fmtq(base[k]).c_str() : "absent", k < l.size() ? fmtq(l[k]).c_str() : "absent", fn[q[i].fill], (int)q[i].reuse, q[i].err);
        COUNT(K_MODELCHK);
    }
    for (auto& s : base) SIG(hash_str(s));
}
static RegProp r09({"C09", c09, 165000, 3300000, "distinct programs by their results; each executed under three memory personalities"});

// ---------------------------------------------------------------- C15
static void c15(Choices& c) {
    pick_personality(P(), true);
    World outer, in1, in2;
    g_ctx = &outer;
    World* in[2] = {&in1, &in2};
    Stream* st[2] = {&c.st[ST_PROG1], &c.st[ST_PROG2]};
    uint32_t rate = P().range(1, 3);   // of 4 callbacks
    uint32_t budget = 40;
    auto hook = [&](int depth, int what) {
        if (budget == 0) return;
        Stream& s = *st[depth];
        if (!s.chance(rate, 4)) return;
        World& w = *in[depth];
        Stream* gp = g_prog;
        g_prog = &s;
        g_ctx = &w;
        COUNT(K_NESTED);
        // a parse is not allowed while another is between its arguments
        w.allow_parse = what == EV_RESET || what == EV_CHECK || what == EV_ERROR || what == 200;
        if (depth > 0) w.allow_parse = w.allow_parse && in[0]->allow_parse;
        uint32_t n = 1 + s.below(3);
        for (uint32_t i = 0; i < n && budget; i++) {
            budget--;
            w.step();
        }
        w.check_objects();
        g_prog = gp;
    };
    for (int d = 0; d < 2; d++) {
        World& w = *in[d];
        w.in_nested = true;
        w.gen.wrap = true;
        w.gen.max_entries = 4;
        w.gen.big = false;
        w.depth = d + 1;
        w.maxtables = 3;
        weights(w, {{OC_BUILD, 5}, {OC_PARSE, 8}, {OC_PRINT, 6}, {OC_FREE, 2}, {OC_DSTR, 6}, {OC_REG, 4}, {OC_DISPATCH, 3}, {OC_HASH, 2}, {OC_SORT, 4}, {OC_MSG, 4}});
    }
    outer.nest = true;
    outer.nested_hook = [&](int what) { hook(0, what); };
    in1.nest = true;
    in1.nested_hook = [&](int what) { hook(1, what); };
    outer.gen.wrap = true;
    outer.gen.max_entries = 5;
    weights(outer, {{OC_BUILD, 4}, {OC_PARSE, 12}, {OC_PRINT, 5}, {OC_FREE, 1}, {OC_DSTR, 6}, {OC_REG, 4}, {OC_DISPATCH, 7}, {OC_HASH, 1}, {OC_SORT, 4}, {OC_MSG, 4}, {OC_IDENT, 1}});
    uint32_t n = P().range(3, 16);
    for (uint32_t i = 0; i < n; i++) {
        budget = 40;
        outer.step();
    }
    budget = 0;
    in2.release_all();
    in1.release_all();
    outer.finish();
    outer.check_leaks("after everything was released");
}
static RegProp r15({"C15", c15, 150000, 3000000, "distinct sequences of outer operations, nested operations and their results"});
