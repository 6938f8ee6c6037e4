// Registry, hash tables, sorting, messages, identity; execution of operations under faults.
#include "world.h"
#include <errno.h>
#include <limits.h>

static World* W() { return (World*)g_ctx; }
static int g_ctxs[8];
static void* ctx_ptr(int i) { return i < 0 ? nullptr : &g_ctxs[i & 7]; }

// ---------------------------------------------------------------- command procedures
template <int N> static int proc_fn(int argc, char* argv[], arg_dstr_t res, void* ctx) {
    World* w = W();
    if (!w) violate("dispatch", "a command procedure was called out of nowhere");
    return w->on_proc(N, argc, argv, res, ctx);
}
static arg_cmdfn* const procs[] = {proc_fn<0>, proc_fn<1>, proc_fn<2>, proc_fn<3>, proc_fn<4>};
enum { NPROC = 5 };
enum { ACT_NONE, ACT_UNREG_SELF, ACT_DISPATCH, ACT_REREG_SELF, ACT_APPEND, ACT_LOOKUP, NACT };

static void reg_begin(World* w, const Str& n, bool has_new, const Cmd& c) {
    Inflight& f = w->inflight;
    f.name = n;
    auto it = G.reg.find(n);
    f.has_old = it != G.reg.end();
    if (f.has_old) f.o = it->second;
    f.has_new = has_new;
    f.n = c;
    f.active = true;
}
static void reg_commit(World* w) {
    Inflight& f = w->inflight;
    if (f.has_new) G.reg[f.name] = f.n;
    else G.reg.erase(f.name);
    f.active = false;
}
static bool same_cmd(arg_cmd_info_t* i, const Str& n, const Cmd& c) {
    return i && n == i->name && c.desc == i->description && i->proc == procs[c.proc] && i->ctx == ctx_ptr(c.ctx);
}
static void reg_resolve(World* w) {
    Inflight& f = w->inflight;
    if (!f.active) return;
    f.active = false;
    arg_cmd_info_t* i = nullptr;
    const char* nm = f.name.c_str();
    guarded(LA, [&] { i = LA.f.arg_cmd_info(nm); });
    if (f.has_new && same_cmd(i, f.name, f.n)) { G.reg[f.name] = f.n; return; }
    if (!f.has_new && !i) { G.reg.erase(f.name); return; }
    if (f.has_old ? same_cmd(i, f.name, f.o) : !i) return;
    violate("registry-after-abort", "after an abandoned change the command %s is %s, neither its previous nor its new state", fmtq(f.name).c_str(), i ? "something else" : "gone");
}

int World::on_proc(int which, int argc, char** argv, arg_dstr_t res, void* ctx) {
    if (!script || frame < 0 || frame >= (int)script->f.size()) violate("dispatch", "procedure %d was called although nothing was dispatched", which);
    int me = frame;
    Frame& f = script->f[(size_t)me];
    f.calls++;
    REQUIRE(f.calls == 1, "dispatch", "the procedure of %s was called %d times for one dispatch", fmtq(f.name).c_str(), f.calls);
    REQUIRE(which == f.cmd.proc, "dispatch", "dispatching %s called procedure %d, registered was %d", fmtq(f.name).c_str(), which, f.cmd.proc);
    REQUIRE(argc == f.argc && argv == f.argv, "dispatch", "dispatching %s passed other arguments", fmtq(f.name).c_str());
    REQUIRE(res == f.res, "dispatch", "dispatching %s passed another result string", fmtq(f.name).c_str());
    REQUIRE(ctx == ctx_ptr(f.cmd.ctx), "dispatch", "dispatching %s passed another context", fmtq(f.name).c_str());
    Script* sc = script;
    on_callback(200);
    script = sc;
    frame = me;
    switch (f.act) {
        case ACT_UNREG_SELF:
            if (!reg_write || !G.reg.count(f.name)) break;
            PROBE("command unregisters itself");
            reg_begin(this, f.name, false, Cmd());
            LA.f.arg_cmd_unregister(f.pname);
            reg_commit(this);
            break;
        case ACT_REREG_SELF:
            if (!reg_write) break;
            PROBE("command registers itself again");
            reg_begin(this, f.name, true, f.repl);
            LA.f.arg_cmd_register(f.pname, procs[f.repl.proc], f.repl_desc, ctx_ptr(f.repl.ctx));
            reg_commit(this);
            break;
        case ACT_DISPATCH: {
            if (me + 1 >= (int)sc->f.size()) break;
            Frame& g = sc->f[(size_t)me + 1];
            auto it = G.reg.find(g.name);
            if (it == G.reg.end()) break;
            PROBE("command dispatches another");
            g.cmd = it->second;
            frame = me + 1;
            int r = LA.f.arg_cmd_dispatch(g.pname, g.argc, g.argv, g.res);
            REQUIRE(g.calls == 1, "dispatch", "dispatching %s called no procedure", fmtq(g.name).c_str());
            REQUIRE(r == g.ret, "dispatch", "dispatching %s returned %d, the procedure returned %d", fmtq(g.name).c_str(), r, g.ret);
            script = sc;
            frame = me;
        } break;
        case ACT_APPEND:
            sc->pending = f.text;
            LA.f.arg_dstr_cat(res, f.text);
            sc->text += f.text;
            sc->pending = nullptr;
            break;
        case ACT_LOOKUP: {
            arg_cmd_info_t* i = LA.f.arg_cmd_info(f.pname);
            auto it = G.reg.find(f.name);
            if (it == G.reg.end() ? i != nullptr : !same_cmd(i, f.name, it->second)) violate("registry-content", "the running command %s is not found as registered", fmtq(f.name).c_str());
        } break;
        default: break;
    }
    return f.ret;
}

// ---------------------------------------------------------------- registry
static Str gen_cmd_name(Stream& p) {
    switch (p.below(8)) {
        case 0: case 1: {  // all of one length hash alike
            uint32_t n = p.range(1, 6);
            Str s;
            for (uint32_t i = 0; i < n; i++) s += p.below(2) ? "cA" : "bb";
            return s;
        }
        case 2: { Str s = "command"; s.resize(p.below(8)); return s; }
        case 3: return sfmt("c%u", p.below(200));
        case 4: return Str(p.range(95, 99), (char)('a' + p.below(3)));
        case 5: { Str s = gen_text(p, p.range(1, 30)); for (auto& c : s) if (c == '\n') c = '_'; return s; }
        default: return gen_word(p, 2);
    }
}
static Str gen_desc(Stream& p) {
    Str s = gen_any(p, 255);
    if (s.size() > 255) s.resize(255);
    return s;
}
static const char* gen_absent(Stream& p) {
    Str s = gen_cmd_name(p);
    while (G.reg.count(s)) s += "~";
    return put(s, ROLE_NAME).p;
}
void check_registry(const char* when) {
    if (!G.reg_live) return;
    COUNT(K_MODELCHK);
    unsigned n = 0;
    guarded(LA, [&] { n = LA.f.arg_cmd_count(); });
    REQUIRE(n == G.reg.size(), "registry-content", "%s: count is %u, registered are %zu", when, n, G.reg.size());
    bool sample = G.reg.size() > 120 && g_opno % 8;
    for (auto& kv : G.reg) {
        if (sample && (hash_str(kv.first) + g_opno) % 16) continue;
        arg_cmd_info_t* i = nullptr;
        const char* nm = kv.first.c_str();
        guarded(LA, [&] { i = LA.f.arg_cmd_info(nm); });
        REQUIRE(i, "registry-content", "%s: command %s is not found", when, fmtq(kv.first).c_str());
        REQUIRE(same_cmd(i, kv.first, kv.second), "registry-content", "%s: command %s is not as last registered (%s, %s)", when, fmtq(kv.first).c_str(), fmtq(i->name).c_str(), fmtq(i->description).c_str());
    }
    if (sample) return;
    std::set<Str> seen;
    arg_cmd_itr_t it = nullptr;
    FaultPlan* fp = LA.arena.fault;
    LA.arena.fault = nullptr;
    guarded(LA, [&] { it = LA.f.arg_cmd_itr_create(); });
    REQUIRE(it, "registry-content", "no iterator");
    if (n > 0) {
        for (;;) {
            char* k = nullptr;
            arg_cmd_info_t* v = nullptr;
            guarded(LA, [&] { k = LA.f.arg_cmd_itr_key(it); v = LA.f.arg_cmd_itr_value(it); });
            REQUIRE(k && v, "registry-content", "%s: iteration yields null", when);
            auto m = G.reg.find(k);
            REQUIRE(m != G.reg.end() && same_cmd(v, m->first, m->second), "registry-content", "%s: iteration yields %s, which is not registered that way", when, fmtq(k).c_str());
            REQUIRE(seen.insert(k).second, "registry-content", "%s: iteration visits %s twice", when, fmtq(k).c_str());
            int a = 0;
            guarded(LA, [&] { a = LA.f.arg_cmd_itr_advance(it); });
            if (!a) break;
        }
        int a = 1;
        guarded(LA, [&] { a = LA.f.arg_cmd_itr_advance(it); });
        REQUIRE(!a, "registry-content", "%s: an iterator advances past the end", when);
    } else {
        int a = 1;
        guarded(LA, [&] { a = LA.f.arg_cmd_itr_advance(it); });
        REQUIRE(!a, "registry-content", "%s: an iterator over an empty registry advances", when);
    }
    guarded(LA, [&] { LA.f.arg_cmd_itr_destroy(it); });
    LA.arena.fault = fp;
    REQUIRE(seen.size() == G.reg.size(), "registry-content", "%s: iteration visits %zu of %zu commands", when, seen.size(), G.reg.size());
}
static const Str* pick_name(Stream& p) {
    if (G.reg.empty()) return nullptr;
    auto it = G.reg.begin();
    std::advance(it, p.below((uint32_t)G.reg.size()));
    return &it->first;
}
Op World::op_reg() {
    Op o;
    o.cls = OC_REG;
    World* w = this;
    COUNT(K_REG);
    o.keeps = true;
    o.size = 400;
    if (!G.reg_live) {
        if (!reg_write || in_nested) return Op();
        o.desc = "cmd init";
        o.call = [] { LA.f.arg_cmd_init(); };
        o.done = [] { G.reg_live = true; G.reg.clear(); check_registry("after init"); };
        o.aborted = [](int) {};
        return o;
    }
    uint32_t k = P().below(16);
    if (!reg_write && k < 10) k = 10 + k % 6;
    if (k < 7) {  // register
        struct R { Str name; Cmd c; const char* pn; char* buf; const char* pd; };
        auto v = std::make_shared<std::vector<R>>();
        uint32_t n = P().chance(1, 10) ? P().range(5, 70) : 1;
        if (big && P().chance(1, 12)) { n = P().range(300, 2200); PROBE("large registry"); }
        uint32_t base = P().below(1000);
        bool alias = n == 1 && !G.reg.empty() && P().chance(1, 6);
        for (uint32_t i = 0; i < n; i++) {
            R r;
            const Str* ex = P().chance(1, 4) || alias ? pick_name(P()) : nullptr;
            r.name = ex ? *ex : n > 1 && i ? sfmt("n%u", base + i) : gen_cmd_name(P());
            r.c.proc = (int)P().below(NPROC);
            r.c.ctx = (int)P().below(9) - 1;
            r.c.desc = gen_desc(P());
            r.pn = nullptr;
            r.pd = nullptr;
            if (alias) {
                arg_cmd_info_t* inf = nullptr;
                const char* nm = ex->c_str();
                guarded(LA, [&] { inf = LA.f.arg_cmd_info(nm); });
                if (inf) {
                    PROBE("registration names an existing record");
                    r.pn = inf->name;
                    if (P().chance(1, 2)) { r.pd = inf->description; r.c.desc = inf->description; }
                }
            }
            r.buf = (char*)LA.arena.alloc(r.name.size() + r.c.desc.size() + 2, OWN_USER);
            memcpy(r.buf, r.name.c_str(), r.name.size() + 1);
            memcpy(r.buf + r.name.size() + 1, r.c.desc.c_str(), r.c.desc.size() + 1);
            if (!r.pn) r.pn = r.buf;
            if (!r.pd) r.pd = r.buf + r.name.size() + 1;
            v->push_back(r);
        }
        o.desc = sfmt("cmd register x%u %s%s", n, fmtq((*v)[0].name).c_str(), alias ? " (name from its own record)" : "");
        for (auto& r : *v) o.size += 600 + r.name.size() + r.c.desc.size() + (n > 300 ? 100 : 0);
        o.size += G.reg.size() * 30;
        auto pos = std::make_shared<size_t>(0);
        size_t* pp = pos.get();
        o.keep.push_back(pos);
        auto* vp = v.get();
        o.keep.push_back(v);
        auto inside = std::make_shared<bool>(false);
        o.call = [=] {
            for (; *pp < vp->size(); ++*pp) {
                R& r = (*vp)[*pp];
                reg_begin(w, r.name, true, r.c);
                LA.f.arg_cmd_register(r.pn, procs[r.c.proc], r.pd, ctx_ptr(r.c.ctx));
                reg_commit(w);
            }
        };
        o.done = [=] {
            for (auto& r : *v) memset(r.buf, 'Z', r.name.size() + r.c.desc.size() + 1);
            check_registry("after register");
            SIG(G.reg.size());
            (void)pos;
        };
        o.aborted = [=](int) {
            reg_resolve(w);
            // the names point into our own buffers from now on
            for (auto& r : *v) { r.pn = r.buf; r.pd = r.buf + r.name.size() + 1; }
            check_registry("after an abandoned register");
        };
        o.cleanup = [=](bool) { for (auto& r : *v) LA.arena.release(r.buf, true); };
        return o;
    }
    if (k < 9) {  // unregister
        const Str* ex = P().chance(5, 6) ? pick_name(P()) : nullptr;
        const char* nm = ex ? put(*ex, ROLE_NAME).p : gen_absent(P());
        Str s = nm;
        arg_cmd_info_t* inf = nullptr;
        guarded(LA, [&] { inf = LA.f.arg_cmd_info(nm); });
        o.desc = sfmt("cmd unregister %s", fmtq(s).c_str());
        o.call = [=] { reg_begin(w, s, false, Cmd()); LA.f.arg_cmd_unregister(nm); reg_commit(w); };
        o.done = [=] {
            if (inf) REQUIRE(!w->still_live(inf), "leak", "the record of an unregistered command was not released");
            check_registry("after unregister");
        };
        o.aborted = [=](int) { violate("free-allocates", "unregistering called the out-of-memory handler"); };
        return o;
    }
    if (k == 9) {  // uninit
        if (in_nested || !P().chance(1, 3) || frame >= 0) return Op();
        o.desc = sfmt("cmd uninit (%zu commands)", G.reg.size());
        o.size += G.reg.size() * 20 + 2000;
        auto blocks = std::make_shared<std::vector<void*>>();
        for (auto& kv : G.reg) {
            const char* nm = kv.first.c_str();
            void* i = nullptr;
            guarded(LA, [&] { i = LA.f.arg_cmd_info(nm); });
            blocks->push_back(i);
        }
        o.call = [] { LA.f.arg_cmd_uninit(); };
        o.done = [=] {
            G.reg_live = false;
            G.reg.clear();
            for (auto* b : *blocks) REQUIRE(!w->still_live(b), "leak", "a command record survives uninitialising the registry");
        };
        o.aborted = [](int) { violate("free-allocates", "uninitialising the registry called the out-of-memory handler"); };
        return o;
    }
    // reads
    const Str* ex = P().chance(2, 3) ? pick_name(P()) : nullptr;
    const char* nm = ex ? put(*ex, ROLE_NAME).p : gen_absent(P());
    Str s = nm;
    o.keeps = false;
    o.size += G.reg.size() * 40;
    if (k < 12) {
        auto r = std::make_shared<arg_cmd_info_t*>(nullptr);
        auto* rp = r.get();
        o.keep.push_back(r);
        o.desc = sfmt("cmd info %s", fmtq(s).c_str());
        o.call = [=] { *rp = LA.f.arg_cmd_info(nm); };
        o.done = [=] {
            auto it = G.reg.find(s);
            if (it == G.reg.end()) REQUIRE(!*r, "registry-content", "command %s was never registered or was unregistered but is found", fmtq(s).c_str());
            else REQUIRE(same_cmd(*r, s, it->second), "registry-content", "command %s is %s", fmtq(s).c_str(), *r ? "not as last registered" : "not found");
            w->note(sfmt("info %d", *r ? 1 : 0));
        };
    } else if (k < 14) {
        auto r = std::make_shared<int>(0);
        auto* rp = r.get();
        o.keep.push_back(r);
        auto kv = std::make_shared<std::pair<char*, arg_cmd_info_t*>>();
        auto* kp = kv.get();
        o.keep.push_back(kv);
        o.keeps = true;  // the iterator, until the clean-up
        o.desc = sfmt("cmd iterator search %s", fmtq(s).c_str());
        auto itr = std::make_shared<arg_cmd_itr_t>(nullptr);
        auto* ip = itr.get();
        o.keep.push_back(itr);
        o.call = [=] {
            if (!*ip) *ip = LA.f.arg_cmd_itr_create();
            *rp = LA.f.arg_cmd_itr_search(*ip, (void*)nm);
            if (*rp) { kp->first = LA.f.arg_cmd_itr_key(*ip); kp->second = LA.f.arg_cmd_itr_value(*ip); }
        };
        o.done = [=] {
            auto it = G.reg.find(s);
            if (it == G.reg.end()) REQUIRE(!*r, "registry-content", "iterator search finds %s, which is not registered", fmtq(s).c_str());
            else REQUIRE(*r && same_cmd(kv->second, s, it->second) && s == kv->first, "registry-content", "iterator search for %s %s", fmtq(s).c_str(), *r ? "yields another command" : "fails");
            (void)itr;
        };
        o.cleanup = [=](bool) {
            if (*ip) guarded(LA, [&] { LA.f.arg_cmd_itr_destroy(*ip); });
            (void)itr;
        };
    } else {
        auto n = std::make_shared<unsigned>(0);
        auto* np = n.get();
        o.keep.push_back(n);
        o.desc = "cmd count";
        o.call = [=] { *np = LA.f.arg_cmd_count(); };
        o.done = [=] {
            REQUIRE(*n == G.reg.size(), "registry-content", "count is %u, registered are %zu", *n, G.reg.size());
            check_registry("on inspection");
            w->note(sfmt("count %u", *n));
        };
    }
    o.aborted = [](int) { check_registry("after an abandoned lookup"); };
    return o;
}
Op World::op_dispatch() {
    if (!G.reg_live || G.reg.empty()) return op_reg();
    Op o;
    o.cls = OC_DISPATCH;
    World* w = this;
    COUNT(K_REG);
    DSP d = P().chance(3, 4) ? pick_ds() : nullptr;
    if (d && d->lost) d = nullptr;
    auto sc = std::make_shared<Script>();
    const uint32_t deep = P().chance(1, 40) ? P().range(4, 40) : 3;
    for (;;) {
        Frame f;
        const Str* n = pick_name(P());
        f.name = *n;
        f.pname = put(f.name, ROLE_NAME).p;
        f.cmd = G.reg[f.name];
        Args a;
        uint32_t argc = P().chance(1, 40) ? gen_num(P(), 300) : P().below(4);
        for (uint32_t i = 0; i < argc; i++) a.s.push_back(gen_word(P()));
        place_args(a, nullptr, false, P().chance(1, 2));
        f.argc = a.argc;
        f.argv = a.argv;
        f.res = d ? d->h : nullptr;
        f.ret = (int)P().below(1000) - 500;
        f.act = (int)P().below(NACT);
        if (deep > 3 && sc->f.size() < deep) f.act = ACT_DISPATCH;
        if (f.act == ACT_APPEND && !d) f.act = ACT_NONE;
        if (f.act == ACT_DISPATCH && sc->f.size() >= deep) f.act = ACT_NONE;
        if (f.act == ACT_APPEND) f.text = put(gen_any(P(), 500)).p;
        if (f.act == ACT_REREG_SELF) {
            f.repl.proc = (int)P().below(NPROC);
            f.repl.ctx = (int)P().below(9) - 1;
            f.repl.desc = gen_desc(P());
            f.repl_desc = put(f.repl.desc).p;
        }
        sc->f.push_back(f);
        if (f.act != ACT_DISPATCH) break;
    }
    auto ret = std::make_shared<int>(0);
    int* rp = ret.get();
    o.keep.push_back(ret);
    Script* sp = sc.get();
    o.keep.push_back(sc);
    DS* dp = d.get();
    o.keep.push_back(d);
    o.desc = sfmt("dispatch %s (%zu deep, last action %d)", fmtq(sc->f[0].name).c_str(), sc->f.size(), sc->f.back().act);
    o.keeps = true;
    o.size = 3000 * (1 + sc->f.size()) + G.reg.size() * 40 + (d ? d->model.size() * 2 : 0);
    auto outer = std::make_shared<std::pair<Script*, int>>(nullptr, -1);
    auto* op = outer.get();
    o.keep.push_back(outer);
    auto runnable = std::make_shared<bool>(true);
    bool* rn = runnable.get();
    o.keep.push_back(runnable);
    o.call = [=] {
        op->first = w->script;
        op->second = w->frame;
        auto it = G.reg.find(sp->f[0].name);
        *rn = it != G.reg.end();
        if (!*rn) return;  // an abandoned earlier attempt already unregistered it
        sp->f[0].cmd = it->second;
        for (auto& f : sp->f) f.calls = 0;
        w->script = sp;
        w->frame = 0;
        *rp = LA.f.arg_cmd_dispatch(sp->f[0].pname, sp->f[0].argc, sp->f[0].argv, sp->f[0].res);
    };
    o.done = [=] {
        w->script = op->first;
        w->frame = op->second;
        if (!*rn) return;
        REQUIRE(sc->f[0].calls == 1, "dispatch", "dispatching %s called no procedure", fmtq(sc->f[0].name).c_str());
        REQUIRE(*ret == sc->f[0].ret, "dispatch", "dispatching %s returned %d, the procedure returned %d", fmtq(sc->f[0].name).c_str(), *ret, sc->f[0].ret);
        if (dp) {
            if (!sc->text.empty()) dp->writable = true;
            dp->model += sc->text;
            sc->text.clear();
            check_ds(*dp, "after dispatching");
        }
        check_registry("after dispatching");
        w->note(sfmt("dispatch %d", *ret));
        (void)d; (void)runnable; (void)outer;
    };
    o.aborted = [=](int) {
        w->script = op->first;
        w->frame = op->second;
        reg_resolve(w);
        if (dp) {
            Str now, all = dp->model + sc->text + (sc->pending ? sc->pending : "");
            guarded(LA, [&] { now = LA.f.arg_dstr_cstr(dp->h); });
            REQUIRE(now.size() >= dp->model.size() + sc->text.size() && all.compare(0, now.size(), now) == 0, "string-after-abort", "an abandoned dispatch left %s in the result string, expected a prefix of %s",
                    fmtq(now).c_str(), fmtq(all).c_str());
            if (now != dp->model) dp->writable = true;
            dp->model = now;
        }
        sc->text.clear();
        sc->pending = nullptr;
        check_registry("after an abandoned dispatch");
    };
    return o;
}

// ---------------------------------------------------------------- hash tables
static unsigned h_zero(const void*) { return 0; }
static unsigned h_max(const void*) { return UINT_MAX; }
static unsigned h_first(const void* k) { return *(const unsigned char*)k; }
static unsigned h_len(const void* k) { return (unsigned)strlen((const char*)k); }
static unsigned h_djb(const void* k) {
    unsigned h = 5381;
    for (const char* s = (const char*)k; *s; s++) h = h * 33 + (unsigned char)*s;
    return h;
}
static unsigned h_high(const void* k) { return 0x80000000u | (h_djb(k) << 20); }
static unsigned (*const hashes[])(const void*) = {h_djb, h_zero, h_first, h_len, h_max, h_high};
template <int T> static int h_eq(const void* a, const void* b) { return strcmp((const char*)a, (const char*)b) == 0 ? T : 0; }
static int (*const eqs[])(const void*, const void*) = {h_eq<1>, h_eq<-1>, h_eq<256>, h_eq<INT_MIN>};   // anything but 0 means equal
static char* handed_key(const Str& s) {
    char* b = (char*)LA.arena.alloc(s.size() + 1, OWN_HANDED);
    memcpy(b, s.c_str(), s.size() + 1);
    return b;
}
void check_hash(HT& h, const char* when, bool full) {
    COUNT(K_MODELCHK);
    unsigned n = 0;
    guarded(LA, [&] { n = LA.f.ht_count(h.h); });
    REQUIRE(n == h.m.size(), "hash-content", "%s: count is %u, expected %zu", when, n, h.m.size());
    uint32_t i = 0;
    for (auto& kv : h.m) {
        if (!full && (i++ + g_opno) % 8) continue;
        void* v = nullptr;
        const char* k = kv.first.c_str();
        guarded(LA, [&] { v = LA.f.ht_search(h.h, k); });
        REQUIRE(v == kv.second.p, "hash-content", "%s: search for %s yields %s", when, fmtq(kv.first).c_str(), v ? "another value" : "nothing");
        REQUIRE(*(uint32_t*)v == kv.second.id, "hash-content", "%s: the value of %s was overwritten", when, fmtq(kv.first).c_str());
    }
    if (!full) return;
    std::set<Str> seen;
    hti_t it = nullptr;
    FaultPlan* fp = LA.arena.fault;
    LA.arena.fault = nullptr;
    guarded(LA, [&] { it = LA.f.hti_create(h.h); });
    bool more = n > 0;
    while (more) {
        void *k = nullptr, *v = nullptr;
        guarded(LA, [&] { k = LA.f.hti_key(it); v = LA.f.hti_value(it); });
        REQUIRE(k, "hash-content", "%s: iteration yields a null key", when);
        auto m = h.m.find((char*)k);
        REQUIRE(m != h.m.end() && m->second.p == v, "hash-content", "%s: iteration yields a pair for %s that is not in the table", when, fmtq((char*)k).c_str());
        REQUIRE(seen.insert((char*)k).second, "hash-content", "%s: iteration visits %s twice", when, fmtq((char*)k).c_str());
        int a = 0;
        guarded(LA, [&] { a = LA.f.hti_advance(it); });
        more = a != 0;
    }
    int a = 1;
    guarded(LA, [&] { a = LA.f.hti_advance(it); });
    REQUIRE(!a, "hash-content", "%s: an iterator advances past the end", when);
    guarded(LA, [&] { LA.f.hti_destroy(it); });
    LA.arena.fault = fp;
    REQUIRE(seen.size() == h.m.size(), "hash-content", "%s: iteration visits %zu of %zu pairs", when, seen.size(), h.m.size());
}
static uint32_t g_valid;
static HVal new_val() {
    HVal v;
    v.id = ++g_valid;
    v.p = LA.arena.alloc(sizeof(uint32_t) * 3, OWN_HANDED);
    *(uint32_t*)v.p = v.id;
    return v;
}
static Str gen_key(Stream& p) {
    switch (p.below(5)) {
        case 0: return sfmt("%u", p.below(400));
        case 1: return gen_word(p, 2);
        case 2: { Str s; uint32_t n = p.range(1, 5); for (uint32_t i = 0; i < n; i++) s += p.below(2) ? "cA" : "bb"; return s; }
        case 3: return Str(p.below(40), 'k');
        default: return gen_word(p, 12);
    }
}
Op World::op_hash() {
    Op o;
    if (!LA.f.ht_create || !LA.f.ht_insert || !LA.f.ht_search || !LA.f.ht_remove || !LA.f.ht_count || !LA.f.ht_change || !LA.f.ht_destroy || !LA.f.hti_create || !LA.f.hti_destroy ||
        !LA.f.hti_key || !LA.f.hti_value || !LA.f.hti_advance || !LA.f.hti_remove || !LA.f.hti_search) {
        PROBE("hash table functions not exported");
        return o;
    }
    o.cls = OC_HASH;
    World* w = this;
    COUNT(K_HASH);
    o.keeps = true;
    if (ht.empty() || (ht.size() < maxht && P().chance(1, 12))) {
        HTP h = std::make_shared<HT>();
        HT* hp = h.get();
        o.keep.push_back(h);
        h->hashkind = (int)P().below(6);
        auto eq = eqs[P().chance(1, 4) ? P().below(4) : 0];
        static const unsigned sizes[] = {0, 1, 5, 16, 32, 52, 53, 54, 97, 500, 3000};
        unsigned ms = sizes[P().below(11)];
        o.desc = sfmt("hash create (size %u, hash function %d)", ms, h->hashkind);
        o.size = 10000 + ms * 10;
        o.call = [=] { hp->h = LA.f.ht_create(ms, hashes[hp->hashkind], eq); };
        o.done = [=] {
            REQUIRE(hp->h, "hash-content", "creating a hash table returned null without calling the out-of-memory handler");
            w->ht.push_back(h);
            check_hash(*hp, "after creation", true);
        };
        o.aborted = [](int) {};
        return o;
    }
    HTP h = ht[P().below((uint32_t)ht.size())];
    HT* hp = h.get();
    o.keep.push_back(h);
    auto pick_key = [&]() -> Str {
        if (!hp->m.empty() && P().chance(5, 6)) { auto it = hp->m.begin(); std::advance(it, P().below((uint32_t)hp->m.size())); return it->first; }
        return gen_key(P());
    };
    o.size = 2000 + hp->m.size() * 200;
    bool full = hp->m.size() < 60 || P().chance(1, 6);
    auto fin = [=](const char* when) { check_hash(*hp, when, full); SIG(hp->m.size() * 8 + (uint64_t)hp->hashkind); (void)h; };
    uint32_t k = P().below(16);
    if (k < 7) {  // insert, in bulk now and then
        struct E { Str k; char* kp; HVal v; };
        auto v = std::make_shared<std::vector<E>>();
        uint32_t n = P().chance(1, 6) ? P().range(10, 120) : 1, base = P().below(5000);
        if (big && (hp->hashkind == 0 || hp->hashkind == 5) && P().chance(1, 10)) { n = P().range(300, 2500); PROBE("large hash table"); }
        std::set<Str> used;
        for (uint32_t i = 0; i < n; i++) {
            E e;
            e.k = n > 1 ? sfmt("b%u", base + i) : gen_key(P());
            if (hp->m.count(e.k) || !used.insert(e.k).second) continue;
            e.kp = handed_key(e.k);
            e.v = new_val();
            v->push_back(e);
        }
        if (v->empty()) return Op();
        o.desc = sfmt("hash insert x%zu %s", v->size(), fmtq((*v)[0].k).c_str());
        o.size += v->size() * (hp->m.size() + v->size() + 100) * 4;
        auto pos = std::make_shared<size_t>(0);
        size_t* pp = pos.get();
        o.keep.push_back(pos);
        auto* vp = v.get();
        o.keep.push_back(v);
        o.call = [=] {
            for (; *pp < vp->size(); ++*pp) {
                E& e = (*vp)[*pp];
                LA.f.ht_insert(hp->h, e.kp, e.v.p);
                hp->m[e.k] = e.v;
            }
        };
        o.done = [=] { fin("after insertion"); (void)pos; };
        o.aborted = [=](int) {
            // an insertion that never completed is either in or not; the key was not given away if it is not
            E& e = (*v)[*pp];
            void* x = nullptr;
            const char* nm = e.k.c_str();
            guarded(LA, [&] { x = LA.f.ht_search(hp->h, nm); });
            if (x) {
                REQUIRE(x == e.v.p, "hash-content", "after an abandoned insertion %s has another value", fmtq(e.k).c_str());
                hp->m[e.k] = e.v;
                ++*pp;
            } else {
                REQUIRE(LA.arena.find(e.kp) && LA.arena.find(e.v.p), "foreign-free", "an abandoned insertion released the caller's key or value");
            }
            check_hash(*hp, "after an abandoned insertion", true);
        };
        o.cleanup = [=](bool completed) {
            if (!completed)
                for (size_t i = *pp; i < v->size(); i++) { LA.arena.release((*v)[i].kp, true); LA.arena.release((*v)[i].v.p, true); }
        };
        return o;
    }
    if (k < 9) {  // change
        Str key = pick_key();
        auto nv = std::make_shared<HVal>(new_val());
        HVal* np = nv.get();
        o.keep.push_back(nv);
        const char* kp = put(key, ROLE_NAME).p;
        auto r = std::make_shared<int>(0);
        int* rp = r.get();
        o.keep.push_back(r);
        auto it = hp->m.find(key);
        void* old = it == hp->m.end() ? nullptr : it->second.p;
        o.desc = sfmt("hash change %s", fmtq(key).c_str());
        o.call = [=] { *rp = LA.f.ht_change(hp->h, (void*)kp, np->p); };
        o.done = [=] {
            auto it2 = hp->m.find(key);
            REQUIRE((*rp != 0) == (it2 != hp->m.end()), "hash-content", "changing %s reports %d", fmtq(key).c_str(), *rp);
            if (it2 != hp->m.end()) {
                it2->second = *nv;
                REQUIRE(!w->still_live(old) , "leak", "the replaced value was not released");
            } else LA.arena.release(nv->p, true);
            fin("after a change");
            (void)r;
        };
        o.aborted = [=](int) { check_hash(*hp, "after an abandoned change", true); };
        o.cleanup = [=](bool c) { if (!c) LA.arena.release(nv->p, true); };
        return o;
    }
    if (k < 12) {  // remove
        Str key = pick_key();
        const char* kp = put(key, ROLE_NAME).p;
        auto it = hp->m.find(key);
        void* old = it == hp->m.end() ? nullptr : it->second.p;
        o.desc = sfmt("hash remove %s", fmtq(key).c_str());
        o.call = [=] { LA.f.ht_remove(hp->h, kp); };
        o.done = [=] {
            if (old) REQUIRE(!w->still_live(old), "leak", "the removed value was not released");
            hp->m.erase(key);
            fin("after removal");
        };
        o.aborted = [](int) { violate("free-allocates", "removing called the out-of-memory handler"); };
        return o;
    }
    if (k < 14) {  // iterate and remove some
        uint32_t mode = P().below(5), salt = P().below(1000);
        auto kill = [=](const Str& s, uint32_t i) {
            switch (mode) {
                case 0: return true;
                case 1: return (hash_str(s) + salt) % 2 == 0;
                case 2: return (hash_str(s) + salt) % 7 == 0;
                case 3: return i == 0;
                default: return (i + salt) % 3 == 0;
            }
        };
        o.desc = sfmt("hash iterate and remove (%zu pairs, mode %u)", hp->m.size(), mode);
        o.size *= 4;
        auto ok = std::make_shared<bool>(false);
        bool* okp = ok.get();
        o.keep.push_back(ok);
        // only the iterator's creation may fail
        auto itp = std::make_shared<hti_t>(nullptr);
        auto* ip = itp.get();
        o.keep.push_back(itp);
        o.call = [=] { *ip = LA.f.hti_create(hp->h); *okp = true; };
        o.done = [=] {
            hti_t it = *itp;
            REQUIRE(it, "hash-content", "creating an iterator returned null");
            std::map<Str, HVal> left = hp->m;
            bool more = !left.empty();
            uint32_t i = 0;
            size_t removed = 0;
            while (more) {
                void *k2 = nullptr, *v2 = nullptr;
                guarded(LA, [&] { k2 = LA.f.hti_key(it); v2 = LA.f.hti_value(it); });
                REQUIRE(k2, "hash-content", "iteration with removal yields a null key");
                Str ks((char*)k2);
                auto m = left.find(ks);
                REQUIRE(m != left.end() && m->second.p == v2, "hash-content", "iteration with removal yields %s, which is %s", fmtq(ks).c_str(), hp->m.count(ks) ? "visited already" : "not in the table");
                left.erase(m);
                int a = 0;
                if (kill(ks, i++)) {
                    guarded(LA, [&] { a = LA.f.hti_remove(it); });
                    REQUIRE(!w->still_live(k2) && !w->still_live(v2), "leak", "a pair removed through an iterator was not released");
                    hp->m.erase(ks);
                    removed++;
                    unsigned n = 0;
                    guarded(LA, [&] { n = LA.f.ht_count(hp->h); });
                    REQUIRE(n == hp->m.size(), "hash-content", "count is %u after removal through an iterator, expected %zu", n, hp->m.size());
                } else {
                    guarded(LA, [&] { a = LA.f.hti_advance(it); });
                }
                more = a != 0;
            }
            REQUIRE(left.empty(), "hash-content", "iteration with removal missed %zu pairs", left.size());
            if (removed) PROBE("removed through an iterator");
            guarded(LA, [&] { LA.f.hti_destroy(it); });
            check_hash(*hp, "after removal through an iterator", true);
            (void)h; (void)ok;
        };
        o.aborted = [=](int) { check_hash(*hp, "after an abandoned iteration", true); };
        return o;
    }
    if (k == 14 || !P().chance(1, 3)) {  // search through an iterator, go on from there, perhaps removing
        Str key = pick_key();
        const char* kp = put(key, ROLE_NAME).p;
        bool rm = P().chance(1, 2);
        uint32_t salt = P().below(1000), rate = P().below(4);
        HT* op = hp;   // the iterator may have stood in another table
        if (ht.size() > 1 && P().chance(1, 4)) { HTP q = ht[P().below((uint32_t)ht.size())]; o.keep.push_back(q); op = q.get(); }
        o.desc = sfmt("hash iterator search %s%s%s", fmtq(key).c_str(), rm ? " and remove" : "", op != hp ? ", from another table" : "");
        auto itp = std::make_shared<hti_t>(nullptr);
        auto* ip = itp.get();
        o.keep.push_back(itp);
        o.call = [=] { *ip = LA.f.hti_create(op->h); };
        o.done = [=] {
            hti_t it = *itp;
            int r = 0;
            if (salt % 3 == 0) {   // somewhere else at first
                bool more = !op->m.empty();
                for (uint32_t i = 0; more && i < salt % 5; i++) {
                    int a = 0;
                    guarded(LA, [&] { a = LA.f.hti_advance(it); });
                    more = a != 0;
                }
            }
            guarded(LA, [&] { r = LA.f.hti_search(it, hp->h, (void*)kp); });
            auto m = hp->m.find(key);
            REQUIRE((r != 0) == (m != hp->m.end()), "hash-content", "iterator search for %s reports %d", fmtq(key).c_str(), r);
            if (r) {
                void *k2 = nullptr, *v2 = nullptr;
                guarded(LA, [&] { k2 = LA.f.hti_key(it); v2 = LA.f.hti_value(it); });
                REQUIRE(k2 && key == (char*)k2 && v2 == m->second.p, "hash-content", "iterator search for %s stands on another pair", fmtq(key).c_str());
                int a = 0;
                if (rm) {
                    guarded(LA, [&] { a = LA.f.hti_remove(it); });
                    hp->m.erase(key);
                } else guarded(LA, [&] { a = LA.f.hti_advance(it); });
                std::set<Str> seen;
                if (!rm) seen.insert(key);
                uint32_t i = 0;
                while (a) {  // continues with pairs that are still there, removing some
                    void *k3 = nullptr, *v3 = nullptr;
                    guarded(LA, [&] { k3 = LA.f.hti_key(it); v3 = LA.f.hti_value(it); });
                    REQUIRE(k3 && hp->m.count((char*)k3) && hp->m[(char*)k3].p == v3, "hash-content", "going on from a found pair the iterator stands on a pair that is not in the table");
                    Str ks((char*)k3);
                    REQUIRE(seen.insert(ks).second, "hash-content", "going on from a found pair another is visited twice");
                    if (rate == 0 || (rate == 1 && (hash_str(ks) + salt) % 5 == 0) || (rate == 2 && i == salt % 4)) {
                        guarded(LA, [&] { a = LA.f.hti_remove(it); });
                        REQUIRE(!w->still_live(k3) && !w->still_live(v3), "leak", "a pair removed through an iterator was not released");
                        hp->m.erase(ks);
                    } else guarded(LA, [&] { a = LA.f.hti_advance(it); });
                    i++;
                }
            }
            guarded(LA, [&] { LA.f.hti_destroy(it); });
            check_hash(*hp, "after an iterator search", true);
            (void)h;
        };
        o.aborted = [=](int) { check_hash(*hp, "after an abandoned iterator search", true); };
        return o;
    }
    bool fv = P().chance(1, 2);
    o.desc = sfmt("hash destroy (%zu pairs, %s values)", hp->m.size(), fv ? "with" : "without");
    o.size += 200000;
    ht.erase(std::find(ht.begin(), ht.end(), h));
    o.call = [=] { LA.f.ht_destroy(hp->h, fv); };
    o.done = [=] {
        for (auto& kv : hp->m) {
            if (fv) REQUIRE(!w->still_live(kv.second.p), "leak", "destroying a hash table left the value of %s", fmtq(kv.first).c_str());
            else {
                REQUIRE(LA.arena.find(kv.second.p), "foreign-free", "destroying a hash table released the value of %s, which was to be kept", fmtq(kv.first).c_str());
                LA.arena.release(kv.second.p, true);
            }
        }
        REQUIRE(!w->still_live(hp->h), "leak", "destroying a hash table did not release it");
        (void)h;
    };
    o.aborted = [](int) { violate("free-allocates", "destroying a hash table called the out-of-memory handler"); };
    return o;
}

// ---------------------------------------------------------------- sorting
static int key_of(const void* p) { return *(const unsigned char*)p; }
template <int K> static int cmp_fn(const void* a, const void* b) {
    if (W()) W()->on_callback(300);
    int x = key_of(a), y = key_of(b);
    switch (K) {
        case 0: return x - y;
        case 1: return y - x;
        case 2: return (x & 3) - (y & 3);
        case 3: return 0;
        case 4: return x < y ? INT_MIN : x > y ? INT_MAX : 0;
        case 5: return (int)(((unsigned)x * 7 + (unsigned)y * 13) % 3) - 1;  // consistent with no order
        case 6: return -1;
        default: return 1;
    }
}
static int plain_cmp(int k, const void* a, const void* b) {
    int x = key_of(a), y = key_of(b);
    switch (k) {
        case 1: return y - x;
        case 2: return (x & 3) - (y & 3);
        case 3: return 0;
        default: return x - y;
    }
}
static arg_comparefn* const cmps[] = {cmp_fn<0>, cmp_fn<1>, cmp_fn<2>, cmp_fn<3>, cmp_fn<4>, cmp_fn<5>, cmp_fn<6>, cmp_fn<7>};
Op World::op_sort() {
    Op o;
    o.cls = OC_SORT;
    World* w = this;
    COUNT(K_SORT);
    static const int sizes[] = {1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 33, 64, 100};
    int es = sizes[P().below(13)];
    if (P().chance(1, 30)) es = (int)P().range(1, 700);
    int n = (int)(P().chance(1, 12) ? gen_num(P(), 600) : P().below(24));
    if (P().chance(1, 400)) {   // large in all, so that sizes and offsets exceed 16 bits
        if (P().chance(1, 2)) { es = (int)P().range(4000, 40000); n = (int)P().range(2, 30); }
        else { n = (int)P().range(1000, 5000); if (es > 64) es = 64; }
    }
    int lo = 0, hi = n - 1;
    if (P().chance(1, 2) && n > 0) { lo = (int)P().below((uint32_t)n); hi = lo + (int)P().below((uint32_t)(n - lo)); }
    if (P().chance(1, 20)) hi = lo - 1 - (int)P().below(2);
    int kind = (int)P().below(8);
    uint32_t pattern = P().below(6), range = P().chance(1, 2) ? 256 : P().range(1, 5), salt = P().below(1 << 16);
    char* a = (char*)LA.arena.alloc((size_t)es * (size_t)(n ? n : 1), OWN_USER);
    for (int i = 0; i < n; i++) {
        uint32_t key;
        switch (pattern) {
            case 0: key = (uint32_t)i; break;
            case 1: key = (uint32_t)(n - i); break;
            case 2: key = 5; break;
            case 3: key = (uint32_t)(i % 2 ? i : n - i); break;
            default: key = (uint32_t)(hash_u64((uint64_t)i + salt, 99) % range); break;
        }
        memset(a + (size_t)i * (size_t)es, (int)('A' + i % 26), (size_t)es);
        a[(size_t)i * (size_t)es] = (char)key;
        for (int j = 1; j < es && j < 5; j++) a[(size_t)i * (size_t)es + (size_t)j] = (char)((unsigned)i >> (8 * (j - 1)));
    }
    auto init = std::make_shared<Str>(a, (size_t)es * (size_t)n);
    o.desc = sfmt("sort [%d,%d] of %d elements of %d bytes, comparison %d", lo, hi, n, es, kind);
    o.size = 100 + (uint64_t)n * 60;
    o.call = [=] { LA.f.arg_mgsort(a, n, es, lo, hi, cmps[kind]); };
    auto verify = [=](bool sorted, const char* when) {
        COUNT(K_MODELCHK);
        auto el = [&](const Str& s, int i) { return s.substr((size_t)i * (size_t)es, (size_t)es); };
        Str now(a, (size_t)es * (size_t)n);
        for (int i = 0; i < n; i++)
            if (i < lo || i > hi) REQUIRE(el(now, i) == el(*init, i), "sort-outside", "%s: element %d outside the range [%d,%d] changed", when, i, lo, hi);
        std::vector<Str> x, y;
        for (int i = lo; i <= hi; i++) { x.push_back(el(now, i)); y.push_back(el(*init, i)); }
        if (sorted && kind <= 4)
            for (size_t i = 0; i + 1 < x.size(); i++) REQUIRE(plain_cmp(kind, x[i].data(), x[i + 1].data()) <= 0, "sort-order", "%s: elements %zu and %zu are out of order", when, i, i + 1);
        std::sort(x.begin(), x.end());
        std::sort(y.begin(), y.end());
        REQUIRE(x == y, "sort-permutation", "%s: elements were lost or duplicated", when);
        if (sorted) SIG(hash_str(now, (uint64_t)kind));
        w->note(sfmt("sorted %llx", (unsigned long long)(kind <= 4 ? hash_str(now) : 0)));
    };
    o.done = [=] { verify(true, "after sorting"); };
    o.aborted = [=](int) { verify(false, "after an abandoned sort"); };
    o.cleanup = [=](bool) { LA.arena.release(a, true); };
    return o;
}

// ---------------------------------------------------------------- messages and identity
static Str get_help_text(const Str& n, const Str& v) { return n + " v" + v + "\nPlease type '" + n + " help' to get more information.\n"; }
static Str observed_ident() {
    arg_dstr_t d = nullptr;
    const char* c = nullptr;
    FaultPlan* fp = LA.arena.fault;
    LA.arena.fault = nullptr;
    CallInfo ci = guarded(LA, [&] { d = LA.f.arg_dstr_create(); LA.f.arg_make_get_help_msg(d); c = LA.f.arg_dstr_cstr(d); });
    REQUIRE(ci.code == X_RET && c, "message", "composing a message ended with %s", exit_name(ci.code));
    Str s = c;
    guarded(LA, [&] { LA.f.arg_dstr_destroy(d); });
    LA.arena.fault = fp;
    return s;
}
void World::check_ident(const char* when) {
    COUNT(K_MODELCHK);
    Str s = observed_ident(), e = get_help_text(G.mod_name(), G.mod_version());
    REQUIRE(s == e, "identity", "%s: the message is %s, expected %s", when, fmtq(s).c_str(), fmtq(e).c_str());
}
Op World::op_ident() {
    if (!reg_write) return Op();
    Op o;
    o.cls = OC_IDENT;
    World* w = this;
    o.keeps = true;
    bool nm = P().chance(1, 2);
    Str s = P().chance(1, 6) ? Str() : gen_any(P(), 700);
    int a = (int)gen_num(P(), 100000), b = (int)P().below(50), c = (int)P().below(50);
    if (P().chance(1, 20)) { a = INT_MIN; b = INT_MAX; c = -1; }
    char* buf = (char*)LA.arena.alloc(s.size() + 1, OWN_USER);
    memcpy(buf, s.c_str(), s.size() + 1);
    Str ver = sfmt("%d.%d.%d.", a, b, c) + s;
    o.size = 500 + s.size() * 4;
    o.desc = nm ? sfmt("set module name %s", fmtq(s).substr(0, 60).c_str()) : sfmt("set module version %s", fmtq(ver).substr(0, 60).c_str());
    o.call = [=] {
        if (nm) LA.f.arg_set_module_name(buf);
        else LA.f.arg_set_module_version(a, b, c, buf);
    };
    auto commit = [=] {
        if (nm) { G.name = s; G.name_set = true; }
        else { G.version = ver; G.ver_set = true; }
    };
    o.done = [=] {
        memset(buf, 'Z', s.size());
        commit();
        w->check_ident("after setting the identity");
        SIG(hash_str(s));
    };
    o.aborted = [=](int) {
        Str now = observed_ident();
        Str old = get_help_text(G.mod_name(), G.mod_version());
        if (now == old) return;
        Global g0 = G;
        commit();
        Str nw = get_help_text(G.mod_name(), G.mod_version());
        REQUIRE(now == nw, "identity", "after an abandoned change the message is %s, neither old (%s) nor new", fmtq(now).c_str(), fmtq(old).c_str());
    };
    o.cleanup = [=](bool) { LA.arena.release(buf, true); };
    return o;
}
Op World::op_msg() {
    Op o;
    o.cls = OC_MSG;
    World* w = this;
    uint32_t k = P().below(6);
    if (k > 0 && !G.reg_live) { if (k < 4 && reg_write && !in_nested) return op_reg(); k = k == 4 ? 4 : 0; }
    TableP t;
    if (k > 0) {
        t = pick_table(k >= 3);
        if (!t) {
            if (P().chance(1, 2)) { k = 0; }
            else return tables.empty() ? op_build() : op_parse_pick();
        }
    }
    DSP d = pick_ds();
    if (!d || d->lost) return Op();
    DS* dp = d.get();
    o.keep.push_back(d);
    Table* tp = t.get();
    o.keep.push_back(t);
    COUNT(K_MSG);
    o.keeps = true;
    Str cmd;
    if (k) {
        const Str* n = P().chance(2, 3) ? pick_name(P()) : nullptr;
        cmd = n ? *n : gen_cmd_name(P());
    }
    const char* pc = put(cmd, ROLE_NAME).p;
    int help = 0, nerr = 0;
    if (k >= 4 && t) {
        static const int hv[] = {0, 0, 1, 3, -1};
        help = hv[P().below(5)];
        static const int nv[] = {0, 1, 5, -1};
        nerr = P().chance(1, 2) && t->parsed ? t->last_ret : nv[P().below(4)];
        if (!t->parsed && nerr > 0) nerr = 0;
        if (help > 0 && !G.reg_live) help = 0;
    }
    // the description in force when the call starts
    auto known = std::make_shared<std::pair<bool, Str>>(false, "");
    o.keep.push_back(known);
    auto* kn = known.get();
    auto expect = [=]() -> Str {
        Str m = G.mod_name();
        auto helpmsg = [&] {
            Str s;
            if (known->first) s += cmd + ": " + known->second + "\n";
            s += "Usage:\n  " + m;
            s += twin_print(tp->spec, PR_SYNTAXV, "\n \nAvailable options:\n");
            s += twin_print(tp->spec, PR_GLOSSARY, "  %-23s %s\n");
            return s + "\n";
        };
        auto errmsg = [&] {
            Str s = twin_errors(*tp, m.c_str());
            s += "Usage: \n  " + m;
            s += twin_print(tp->spec, PR_SYNTAXV, "\n");
            return s + "\n";
        };
        switch (k) {
            case 0: return get_help_text(m, G.mod_version());
            case 1: case 2: return helpmsg();
            case 3: return errmsg();
            default: return help > 0 ? helpmsg() : nerr > 0 ? errmsg() : Str();
        }
    };
    int want = k >= 4 ? (help > 0 || nerr > 0) : 0;
    int wantcode = k >= 4 && help > 0 ? EXIT_SUCCESS : k >= 4 && nerr > 0 ? EXIT_FAILURE : -77;
    auto r = std::make_shared<std::pair<int, int>>(0, -77);
    auto* rp = r.get();
    o.keep.push_back(r);
    auto errs = std::make_shared<Str>(tp && tp->parsed ? describe_errors(*tp, tp->args) : Str());
    o.desc = k == 0 ? Str("get-help message") : k < 3 ? sfmt("help message for %s", fmtq(cmd).c_str()) : k == 3 ? Str("syntax error message") : sfmt("help/error message (help %d, errors %d)", help, nerr);
    o.size = 2000 + d->model.size() * 2 + G.mod_name().size() * 4;
    if (t) {
        for (auto& e : t->spec.e) o.size += 800 + (e.glossary.p ? strlen(e.glossary.p) * 8 : 0) + (uint64_t)e.effmax() * 4 + (e.minc > 0 ? (uint64_t)e.minc * 200 : 0);
        if (t->parsed) o.size += (uint64_t)std::max(t->end()->count, 0) * (600 + G.mod_name().size() * 2);
        for (auto& s : t->args.s) o.size += s.size() * 4;
    }
    o.call = [=] {
        rp->first = 0;
        rp->second = -77;
        auto it = G.reg.find(cmd);
        kn->first = it != G.reg.end();
        if (kn->first) kn->second = it->second.desc;
        switch (k) {
            case 0: LA.f.arg_make_get_help_msg(dp->h); break;
            case 1: case 2: LA.f.arg_make_help_msg(dp->h, pc, tp->arr); break;
            case 3: LA.f.arg_make_syntax_err_msg(dp->h, tp->arr, tp->end()); break;
            default: rp->first = LA.f.arg_make_syntax_err_help_msg(dp->h, pc, help, nerr, tp->arr, tp->end(), &rp->second); break;
        }
    };
    o.done = [=] {
        Str e = expect();
        if (k >= 4) {
            REQUIRE((rp->first != 0) == (want != 0), "message", "help %d, errors %d: returned %d", help, nerr, rp->first);
            REQUIRE(rp->second == wantcode, "message", "help %d, errors %d: exit code is %d, expected %d", help, nerr, rp->second, wantcode);
        }
        if (tp && tp->parsed) REQUIRE(describe_errors(*tp, tp->args) == *errs, "records-changed", "composing a message changed the error records");
        if (!e.empty()) dp->writable = true;
        dp->model += e;
        check_ds(*dp, "after composing a message");
        SIG(hash_str(e));
        w->note(e);
        (void)t; (void)d; (void)r;
    };
    o.aborted = [=](int) {
        Str now, all = dp->model + expect();
        guarded(LA, [&] { now = LA.f.arg_dstr_cstr(dp->h); });
        REQUIRE(now.size() >= dp->model.size() && all.compare(0, now.size(), now) == 0, "string-after-abort", "an abandoned message left %s, no prefix of %s", fmtq(now).c_str(), fmtq(all).c_str());
        if (now != dp->model) dp->writable = true;
        dp->model = now;
    };
    return o;
}

// ---------------------------------------------------------------- choosing and executing
Op World::gen_op() {
    uint32_t sum = 0;
    for (int i = 0; i < NOC; i++) sum += w[i];
    uint32_t x = P().below(sum);
    int c = 0;
    while (x >= w[c]) x -= w[c++];
    switch (c) {
        case OC_BUILD: return op_build();
        case OC_PARSE: return op_parse_pick();
        case OC_PRINT: return op_print();
        case OC_FREE: return op_free();
        case OC_DSTR: return op_dstr();
        case OC_REG: return op_reg();
        case OC_DISPATCH: return op_dispatch();
        case OC_HASH: return op_hash();
        case OC_SORT: return op_sort();
        case OC_MSG: return op_msg();
        case OC_IDENT: return op_ident();
        case OC_EDIT: return op_edit();
        default: return op_env();
    }
}
static FaultPlan gen_plan(Stream& f) {
    FaultPlan p;
    switch (f.below(6)) {
        case 0: case 1: case 2:
            p.mode = FaultPlan::NTH;
            p.n = 1 + (f.chance(1, 3) ? f.below(80) : f.below(8));
            break;
        case 3:
            p.mode = FaultPlan::FROM_NTH;
            p.n = 1 + (f.chance(1, 3) ? f.below(60) : f.below(8));
            break;
        case 4:
            p.mode = FaultPlan::SIZE_GE;
            p.n = 1 + (f.chance(1, 3) ? f.below(4000) : f.below(300));
            break;
        default:
            p.mode = FaultPlan::BUDGET;
            p.n = LA.arena.live_bytes + f.below(3000);
            break;
    }
    return p;
}
static void live_set(std::set<uint32_t>& s) {
    for (auto& kv : LA.arena.blocks)
        if (kv.second.live && kv.second.owner == OWN_LIB) s.insert(kv.second.serial);
}
static void after_exit(World& w, int code, int status) {
    // the default handler ended the process
    w.process_over = true;
    auto e = PR.env.find("EF_DUMPCORE");
    bool dump = e != PR.env.end() && !e->second.empty();
    REQUIRE(code == (dump ? X_ABORT : X_EXIT), "default-handler", "running out of memory ended the process by %s with EF_DUMPCORE %s", exit_name(code), dump ? "set" : "unset or empty");
    if (code == X_EXIT) REQUIRE(status != 0, "default-handler", "running out of memory ended the process with success status");
    REQUIRE(PR.out.empty(), "default-handler", "the default handler wrote %s to standard output", fmtq(PR.out).c_str());
    if (!PR.err_fails && !(PR.err_buffered && code == X_ABORT)) REQUIRE(!PR.err.empty(), "default-handler", "the process ended without a message on standard error");
    PROBE(code == X_EXIT ? "process ended by exit" : "process ended by abort");
}
bool World::still_live(const void* p) {
    Block* b = LA.arena.find(p);
    return b && b->serial <= op_serial0;
}
int World::exec(Op& op) {
    if (process_over) return X_RET;
    set_op("%s%s", in_nested ? "  (nested) " : "", op.desc.c_str());
    COUNT(K_OPS);
    if (before) before(op);
    bool locked = false;
    bool completed = false;
    int rounds = 0;
    int result = X_RET;
    op_serial0 = LA.arena.serial;
    bool saved_nested = in_nested;
    FaultPlan lasting;       // a shortage that lasts over several attempts
    int lasts = 0;
    for (;;) {
        FaultPlan plan;
        bool faulty = false;
        unwind_in = 0;
        callbacks = 0;
        int noise = errno_value;
        if (rounds == 0 && !in_nested) {
            if (fc.rate && FS().chance(fc.rate, 1000)) {
                plan = gen_plan(FS());
                faulty = true;
                if (retry_rate && FS().chance(1, 10)) { lasting = plan; lasts = (int)FS().range(1, FS().chance(1, 3) ? 24 : 4); }
            }
            else if (fc.cb_unwind && FS().chance(fc.cb_unwind, 1000)) unwind_in = 1 + FS().below(FS().chance(1, 3) ? 40 : 6);
            if (errno_noise && FS().chance(1, 3)) {
                static const int ev[] = {EINVAL, ERANGE, EINTR, ENOMEM, 12345};
                noise = ev[FS().below(5)];
                COUNT(K_F_ERRNO);
            }
        } else if (rounds > 0 && rounds <= lasts) {
            plan = lasting;
            faulty = true;
            if (rounds == 10) PROBE("shortage lasting over ten attempts");
        }
        FaultPlan* outer_plan = LA.arena.fault;
        LA.arena.fault = faulty ? &plan : nullptr;
        uint32_t serial0 = LA.arena.serial, panics0 = PR.panics;
        size_t out0 = PR.out.size(), err0 = PR.err.size();
        std::set<uint32_t> live0;
        bool lk = leakcheck && !op.keeps && !in_nested;
        if (lk) live_set(live0);
        Script* sc0 = script;
        int fr0 = frame;
        bool lock_it = op.serial && g_sched && g_sched->current;
        if (lock_it) { g_sched->lock(); locked = true; }
        uint64_t lim0 = g_step_limit;
        if (!g_sched) g_step_limit = g_steps + (bounds && !in_nested ? work_bound(op.size) : 20000000 * op.reps);
        CallInfo ci = guarded(LA, [&] {
            if (noise) errno = noise;
            op.call();
        });
        if (!g_sched) g_step_limit = in_nested ? lim0 : UINT64_MAX;
        if (locked) { g_sched->unlock(); locked = false; }
        LA.arena.fault = outer_plan;
        unwind_in = 0;
        if (ci.code != X_RET) { script = sc0; frame = fr0; in_nested = saved_nested; }
        last_exit = ci.code;
        fault_now = plan.fired > 0;
        SIG((uint64_t)ci.code * 64 + (uint64_t)op.cls + (plan.fired ? 1000 : 0));
        LOG("  -> %s, %llu steps", exit_name(ci.code), (unsigned long long)ci.steps);
        if (ci.code == X_EXIT || ci.code == X_ABORT) {
            REQUIRE(plan.fired, "exit", "the library ended the process (%s) although memory was available", exit_name(ci.code));
            REQUIRE(!fc.custom_handler, "default-handler", "the process was ended although a handler is installed");
            result = ci.code;
            after_exit(*this, ci.code, ci.status);
            return result;
        }
        if (PR.out.size() != out0) violate("output", "the call wrote %s to standard output", fmtq(PR.out.substr(out0)).c_str());
        if (PR.err.size() != err0 && !op.may_warn && !g_sched && !nest) violate("output", "the call wrote %s to standard error", fmtq(PR.err.substr(err0)).c_str());
        if (ci.code == X_PANIC) {
            REQUIRE(plan.fired, "panic", "the out-of-memory handler was called although memory was available");
            REQUIRE(PR.panics == panics0 + 1, "panic", "the out-of-memory handler was called %u times", PR.panics - panics0);
        } else {
            REQUIRE(PR.panics == panics0, "panic", "the out-of-memory handler was called but the operation went on");
        }
        result = ci.code;
        if (ci.code == X_RET) {
            if (plan.fired) PROBE("allocation failure absorbed");
            // leaks first: verification calls the library too
            if (lk) {
                std::set<uint32_t> live1;
                live_set(live1);
                std::vector<uintptr_t> extra;
                for (auto& kv : LA.arena.blocks)
                    if (kv.second.live && kv.second.owner == OWN_LIB && !live0.count(kv.second.serial)) extra.push_back(kv.first);
                COUNT(K_LEAKSCAN);
                if (!extra.empty() && !plan.fired) {
                    std::set<uintptr_t> reach;
                    LA.reachable_from_globals(reach);
                    for (auto x : extra) {
                        REQUIRE(reach.count(x), "leak", "the call kept a block of %zu bytes that nothing refers to", LA.arena.blocks[x].size);
                    }
                }
            }
            completed = true;
            if (op.done) op.done();
            if (defcheck) for (auto& t : tables) check_defs(*t, "by the call");
            break;
        }
        if (stop_on_abort) { process_over = true; return result; }
        for (auto& kv : LA.arena.blocks)
            if (kv.second.live && kv.second.serial > serial0 && kv.second.owner == OWN_LIB) kv.second.doomed = true;
        if (op.aborted) op.aborted(ci.code);
        if (defcheck) for (auto& t : tables) check_defs(*t, "by an abandoned call");
        rounds++;
        if (rounds > 1 && !plan.fired) violate("abandoned-again", "a call ended with %s although nothing failed", exit_name(ci.code));
        if (rounds > lasts && !FS().chance(retry_rate, 4)) break;
        COUNT(K_RETRIES);
        LOG("retry");
    }
    if (op.cleanup) op.cleanup(completed);
    if (after) after(op);
    if (!g_sched && !in_nested) IN.recycle_all(ROLE_NAME);
    return result;
}
void World::check_objects() {
    for (auto& d : ds) check_ds(*d, "on inspection");
    for (auto& h : ht) check_hash(*h, "on inspection", true);
    if (G.reg_live && reg_write) check_registry("on inspection");
    if (defcheck) for (auto& t : tables) check_defs(*t, "meanwhile");
}
void World::release_all() {
    auto f = fc;
    fc.rate = 0;
    fc.cb_unwind = 0;
    while (!tables.empty()) {
        TableP t = tables.back();
        tables.pop_back();
        guarded(LA, [&] { LA.f.arg_freetable(t->arr, t->n() + 1); });
        for (size_t i = 0; i <= t->n(); i++) REQUIRE(!t->arr[i], "freetable", "released entry %zu is not null", i);
        LA.arena.release(t->arr, true);
    }
    while (!ds.empty()) {
        DSP d = ds.back();
        ds.pop_back();
        guarded(LA, [&] { LA.f.arg_dstr_destroy(d->h); });
    }
    while (!ht.empty()) {
        HTP h = ht.back();
        ht.pop_back();
        guarded(LA, [&] { LA.f.ht_destroy(h->h, 1); });
    }
    fc = f;
}
void World::finish() {
    if (process_over) return;
    g_step_limit = g_steps + 200000000;
    set_op("inspect everything");
    check_objects();
    set_op("release everything");
    release_all();
    if (reg_write && G.reg_live) {
        guarded(LA, [&] { LA.f.arg_cmd_uninit(); });
        G.reg_live = false;
        G.reg.clear();
    }
    g_step_limit = UINT64_MAX;
}
void World::check_leaks(const char* when) {
    if (process_over) return;
    COUNT(K_LEAKSCAN);
    std::set<uintptr_t> reach;
    LA.reachable_from_globals(reach);
    size_t cached = 0;
    for (auto& kv : LA.arena.blocks) {
        Block& b = kv.second;
        if (!b.live || b.doomed) continue;
        if (b.owner == OWN_USER) continue;
        if (b.owner == OWN_LIB && reach.count(kv.first)) { cached++; continue; }
        violate("leak", "%s: a block of %zu bytes allocated in operation #%u is still there%s", when, b.size, b.op, b.owner == OWN_HANDED ? " (it was handed over to the library)" : "");
    }
    REQUIRE(cached <= 32, "leak", "%s: the library holds on to %zu blocks", when, cached);
}
