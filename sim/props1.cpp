// The property checks that run random programs of one caller under faults.
#include "world.h"
#include "props.h"
#include <errno.h>

void pick_personality(Stream& p, bool custom_handler) {
    FillPolicy f = (FillPolicy)p.below(6);
    ReusePolicy r = (ReusePolicy)p.below(3);
    uint32_t gap = 16 + 16 * p.below(4);
    world_begin(f, r, gap, custom_handler);
    g_bad_values = false;
    g_dirty_stack = p.chance(1, 2) ? 3000 : 0;
    COUNT(K_F_MEMORY);
}
void weights(World& w, std::initializer_list<std::pair<int, uint32_t>> l) {
    for (auto& x : w.w) x = 0;
    for (auto& x : l) w.w[x.first] = x.second;
}
void run_ops(World& w, uint32_t lo, uint32_t hi) {
    uint32_t n = P().range(lo, hi);
    for (uint32_t i = 0; i < n && !w.process_over; i++) w.step();
}
static void all_weights(World& w) {
    weights(w, {{OC_BUILD, 6}, {OC_PARSE, 8}, {OC_PRINT, 6}, {OC_FREE, 2}, {OC_DSTR, 10}, {OC_REG, 8}, {OC_DISPATCH, 4}, {OC_HASH, 8}, {OC_SORT, 3}, {OC_MSG, 6}, {OC_IDENT, 4}, {OC_EDIT, 1}, {OC_ENV, 1}});
}

// ---------------------------------------------------------------- C01
static void c01(Choices&) {
    pick_personality(P(), true);
    World w;
    g_ctx = &w;
    w.gen.wrap = true;
    w.errno_noise = true;
    w.bursts = true;
    w.fc.rate = P().chance(1, 2) ? 150 : 0;
    w.fc.cb_unwind = P().chance(1, 2) ? 150 : 0;
    weights(w, {{OC_BUILD, 3}, {OC_PARSE, 12}, {OC_PRINT, 4}, {OC_FREE, 1}, {OC_EDIT, 3}, {OC_ENV, 2}, {OC_DSTR, 1}});
    if (P().chance(1, 3)) gen_env(P());
    run_ops(w, 4, 24);
}
static RegProp r01({"C01", c01, 220000, 6600000, "distinct sequences of operations, ends (returned, abandoned) and outcomes; runs without a parse or print do not count"});

// ---------------------------------------------------------------- C02
static void c02(Choices&) {
    bool custom = P().chance(1, 2);
    pick_personality(P(), custom);
    World w;
    g_ctx = &w;
    w.gen.wrap = P().chance(1, 3);
    w.fc.custom_handler = custom;
    all_weights(w);
    if (P().chance(1, 2)) gen_env(P());
    if (P().chance(1, 3)) PR.env["EF_DUMPCORE"] = P().chance(1, 3) ? "" : "1";
    PR.err_fails = P().chance(1, 3);
    stderr_buffering(P().chance(1, 4));
    // a history without faults, then operations that run out of memory until one of them ends the program
    w.fc.rate = 0;
    run_ops(w, 0, 12);
    w.fc.rate = 800;
    w.stop_on_abort = true;
    run_ops(w, 1, 8);
}
static RegProp r02({"C02", c02, 520000, 15600000, "distinct sequences of operations and how each ended (returned, handler, exit, abort) with their results; at least one allocation failure planned"});

// ---------------------------------------------------------------- C03
static void c03(Choices&) {
    pick_personality(P(), true);
    World w;
    g_ctx = &w;
    w.gen.wrap = P().chance(1, 3);
    w.fc.rate = 450;
    w.retry_rate = P().range(1, 4);
    all_weights(w);
    if (P().chance(1, 2)) {  // concentrate on one or two kinds of object
        static const int cl[] = {OC_BUILD, OC_PARSE, OC_PRINT, OC_DSTR, OC_REG, OC_DISPATCH, OC_HASH, OC_SORT, OC_MSG, OC_IDENT};
        for (auto& x : w.w) x /= 4;
        w.w[cl[P().below(10)]] += 20;
        w.w[cl[P().below(10)]] += 20;
    }
    run_ops(w, 4, 30);
    w.finish();
    w.check_leaks("after everything was released");
}
static RegProp r03({"C03", c03, 220000, 6600000, "distinct sequences of operations, abandoned or completed, and resulting contents; at least one abandoned call"});

// ---------------------------------------------------------------- C05
static void c05(Choices&) {
    pick_personality(P(), true);
    World w;
    g_ctx = &w;
    w.gen.wrap = P().chance(1, 3);
    w.leakcheck = true;
    w.bursts = true;
    all_weights(w);
    w.w[OC_FREE] = 5;
    run_ops(w, 4, 30);
    w.finish();
    w.check_leaks("after everything was released");
}
static RegProp r05({"C05", c05, 220000, 6600000, "distinct sequences of operations and resulting contents"});

// ---------------------------------------------------------------- C06
static void c06(Choices&) {
    pick_personality(P(), true);
    World w;
    g_ctx = &w;
    weights(w, {{OC_DSTR, 1}});
    w.maxds = 3;
    run_ops(w, 5, 50);
    w.finish();
    w.check_leaks("after everything was released");
}
static RegProp r06({"C06", c06, 520000, 15600000, "distinct sequences of string operations and lengths"});

// ---------------------------------------------------------------- C07
static void c07(Choices&) {
    pick_personality(P(), true);
    World w;
    g_ctx = &w;
    weights(w, {{OC_REG, 6}, {OC_DISPATCH, 2}});
    w.maxds = 2;
    w.big = P().chance(1, 60);
    run_ops(w, 5, 50);
    w.finish();
}
static RegProp r07({"C07", c07, 100000, 3000000, "distinct sequences of registry operations and table sizes"});

// ---------------------------------------------------------------- C13
static void c13(Choices&) {
    pick_personality(P(), true);
    World w;
    g_ctx = &w;
    weights(w, {{OC_SORT, 1}});
    w.fc.rate = 200;
    w.fc.cb_unwind = 400;
    run_ops(w, 2, 12);
    w.finish();
    w.check_leaks("after everything was released");
}
static RegProp r13({"C13", c13, 720000, 21600000, "distinct arrays, ranges, comparison functions and points of abandonment"});

// ---------------------------------------------------------------- C14
static void c14(Choices&) {
    pick_personality(P(), true);
    World w;
    g_ctx = &w;
    w.gen.wrap = P().chance(1, 4);
    weights(w, {{OC_MSG, 8}, {OC_IDENT, 3}, {OC_REG, 2}, {OC_BUILD, 1}, {OC_PARSE, 2}, {OC_DSTR, 1}, {OC_ENV, 1}});
    if (P().chance(1, 4)) w.fc.rate = 100;
    run_ops(w, 5, 30);
    if (!w.process_over) w.check_ident("at the end");
}
static RegProp r14({"C14", c14, 220000, 6600000, "distinct sequences of identity changes, registrations, parses and messages"});

// ---------------------------------------------------------------- C16
static void c16(Choices&) {
    pick_personality(P(), true);
    World w;
    g_ctx = &w;
    weights(w, {{OC_HASH, 1}});
    w.maxht = 2;
    w.big = P().chance(1, 30);
    run_ops(w, 5, 40);
    w.finish();
    w.check_leaks("after everything was released");
}
static RegProp r16({"C16", c16, 54000, 1080000, "distinct sequences of hash table operations and table sizes"});

// ---------------------------------------------------------------- C17
static void c17(Choices&) {
    pick_personality(P(), true);
    World w;
    g_ctx = &w;
    w.bounds = true;
    w.twin = false;
    w.gen.wrap = P().chance(1, 3);
    w.fc.rate = P().chance(1, 2) ? 250 : 0;
    w.fc.cb_unwind = P().chance(1, 3) ? 200 : 0;
    weights(w, {{OC_BUILD, 5}, {OC_PARSE, 14}, {OC_PRINT, 8}, {OC_FREE, 1}, {OC_DSTR, 6}, {OC_REG, 5}, {OC_DISPATCH, 2}, {OC_HASH, 5}, {OC_SORT, 3}, {OC_MSG, 4}, {OC_IDENT, 1}, {OC_EDIT, 2}, {OC_ENV, 2}});
    uint32_t n = P().range(4, 30);
    for (uint32_t i = 0; i < n && !w.process_over; i++) {
        if (P().chance(1, 8)) {
            P().mark();
            Op o = op_stream(w);
            if (o) w.exec(o);
        } else w.step();
    }
    w.finish();
}
static RegProp r17({"C17", c17, 220000, 6600000, "distinct sequences of operations with their results"});
