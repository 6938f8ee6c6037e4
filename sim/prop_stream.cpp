// C04: printing to streams that fail at any byte and buffer in every mode.
#include "props.h"
#include <errno.h>

struct FaultyStream {
    Str got;
    size_t fail_at = SIZE_MAX;   // bytes accepted before it starts failing
    bool closed = false;
    bool failed = false;
    int transient = 0;           // it accepts everything again after this many refusals
    int refused = 0;
    int err = ENOSPC;
};
static ssize_t fs_write(void* c, const char* b, size_t n) {
    FaultyStream* s = (FaultyStream*)c;
    if (s->got.size() >= s->fail_at) {
        s->failed = true;
        COUNT(K_F_STREAM_ERR);
        if (s->transient && ++s->refused >= s->transient) s->fail_at = SIZE_MAX;
        errno = s->err;
        return 0;
    }
    size_t k = n;
    if (k > s->fail_at - s->got.size()) { k = s->fail_at - s->got.size(); s->failed = true; COUNT(K_F_STREAM_SHORT); }
    s->got.append(b, k);
    return (ssize_t)k;
}
static int fs_close(void* c) {
    ((FaultyStream*)c)->closed = true;
    return 0;
}
Op op_stream(World& world) {
    World* w = &world;
    Op o;
    o.cls = OC_PRINT;
    int what = (int)P().below(NPRINT);
    TableP t;
    if (what <= PR_ERRORS) {
        t = w->pick_table(what == PR_ERRORS);
        if (!t) return w->tables.empty() ? w->op_build() : w->op_parse_pick();
    }
    const char *arg = nullptr, *prog = nullptr;
    EntrySpec oe;
    unsigned lm = 0, rm = 0;
    static const char* const fmts[] = {nullptr, "  %-25s %s\n", "%s %s", "%-10.10s|%s\n", "<%s>%%%s\n"};
    switch (what) {
        case PR_SYNTAX: case PR_SYNTAXV: if (P().chance(2, 3)) arg = put(gen_any(P(), 9000)).p; break;
        case PR_GLOSSARY: arg = fmts[P().below(5)]; if (arg) arg = put(arg).p; break;
        case PR_ERRORS: prog = put(P().chance(1, 2) ? Str("prog") : gen_any(P(), 9000)).p; break;
        case PR_OPTION:
            if (P().chance(2, 3)) oe.shorts = put(gen_word(P(), 3));
            if (P().chance(1, 2)) oe.longs = put(P().chance(1, 8) ? gen_word(P(), 250) : gen_word(P(), 8) + "," + gen_word(P(), 5));
            if (P().chance(1, 2)) oe.datatype = put(gen_any(P(), 300));
            if (P().chance(1, 2)) oe.glossary = put(gen_any(P(), 9000));
            break;
        default:
            arg = put(P().chance(1, 3) ? gen_any(P(), 9000) : gen_text(P(), P().below(160))).p;
            lm = P().below(30);
            rm = lm + P().below(60);
            if (P().chance(1, 3)) { lm = 28; rm = 79; }   // as the glossary does it
            break;
    }
    auto fs = std::make_shared<FaultyStream>();
    cookie_io_functions_t io = {nullptr, fs_write, nullptr, fs_close};
    FILE* f = fopencookie(fs.get(), "w", io);
    uint32_t mode = FS().below(4);
    auto buf = std::make_shared<std::vector<char>>();
    if (mode == 1) setvbuf(f, nullptr, _IONBF, 0);
    else if (mode == 2) { buf->resize(FS().range(2, 300)); setvbuf(f, buf->data(), _IOFBF, buf->size()); }
    else if (mode == 3) { buf->resize(FS().range(2, 300)); setvbuf(f, buf->data(), _IOLBF, buf->size()); }
    Str before = FS().chance(1, 2) ? gen_text(P(), P().below(40)) : Str(), after = FS().chance(1, 2) ? gen_text(P(), P().below(40)) : Str();
    bool preset = FS().chance(1, 8);
    if (preset) {  // the stream had an error before
        fs->fail_at = 0;
        fputs("lost", f);
        fflush(f);
        fs->fail_at = SIZE_MAX;
        // what is still buffered is dropped with the stream's state
        if (!ferror(f) || !fs->got.empty()) preset = false;
    }
    Str lead = fs->got;
    if (preset) { fclose(f); fs->closed = false; fs->failed = false; fs->got.clear(); f = fopencookie(fs.get(), "r", io); fputc('x', f); }
    if (!preset && !before.empty()) fputs(before.c_str(), f);
    // the counterpart's text, from the same library
    auto text = std::make_shared<Str>();
    if (what != PR_FORMATTED) {
        arg_dstr_t d = nullptr;
        const char* c = nullptr;
        CallInfo ci = guarded(LA, [&] {
            d = LA.f.arg_dstr_create();
            switch (what) {
                case PR_SYNTAX: LA.f.arg_print_syntax_ds(d, t->arr, arg); break;
                case PR_SYNTAXV: LA.f.arg_print_syntaxv_ds(d, t->arr, arg); break;
                case PR_GLOSSARY: LA.f.arg_print_glossary_ds(d, t->arr, arg); break;
                case PR_GLOSSARY_GNU: LA.f.arg_print_glossary_gnu_ds(d, t->arr); break;
                case PR_ERRORS: LA.f.arg_print_errors_ds(d, t->end(), prog); break;
                default: LA.f.arg_print_option_ds(d, oe.shorts.p, oe.longs.p, oe.datatype.p, oe.glossary.p); break;
            }
            c = LA.f.arg_dstr_cstr(d);
        });
        REQUIRE(ci.code == X_RET && c, "print", "the dynamic-string counterpart ended with %s", exit_name(ci.code));
        *text = c;
        guarded(LA, [&] { LA.f.arg_dstr_destroy(d); });
    } else {
        LB.restore();
        LB.arena.reset(REUSE_NEVER, FILL_ZERO, 16, 1);
        FILE* g = open_mem(text.get());
        guarded(LB, [&] { LB.f.arg_print_formatted(g, lm, rm, arg); });
        fclose(g);
        Str a, b;
        for (const char* q = arg; *q; q++) if (!isspace((unsigned char)*q)) a += *q;
        for (char q : *text) if (!isspace((unsigned char)q)) b += q;
        size_t k = 0;
        while (k < a.size() && k < b.size() && a[k] == b[k]) k++;
        REQUIRE(a == b, "stream-text", "the formatted text has %zu visible characters, the given text has %zu, first difference at %zu: %s, given %s", b.size(), a.size(), k,
                fmtq(b.substr(k > 10 ? k - 10 : 0, 50)).c_str(), fmtq(a.substr(k > 10 ? k - 10 : 0, 50)).c_str());
        if (lm == 28 && rm == 79 && *arg) {  // the dynamic-string counterpart is part of the GNU style glossary
            Str gl;
            bool ok = false;
            CallInfo ci = guarded(LA, [&] {
                struct arg_lit* l = LA.f.arg_litn("a", nullptr, 0, 1, arg);
                struct arg_end* e = LA.f.arg_end(1);
                void* tab[2] = {l, e};
                arg_dstr_t d = LA.f.arg_dstr_create();
                LA.f.arg_print_glossary_gnu_ds(d, tab);
                gl = LA.f.arg_dstr_cstr(d);
                LA.f.arg_dstr_destroy(d);
                LA.f.arg_freetable(tab, 2);
                ok = true;
            });
            REQUIRE(ok && ci.code == X_RET && gl.size() >= 28, "print", "the GNU style glossary of one entry ended with %s and has %zu bytes", exit_name(ci.code), gl.size());
            gl = gl.substr(28);
            // the glossary ends with an empty line
            REQUIRE(gl.compare(0, text->size(), *text) == 0 && gl.size() <= text->size() + 1, "stream-text", "formatted for the columns of the glossary, the text is %s, in the glossary it is %s", fmtq(*text).c_str(), fmtq(gl).c_str());
        }
    }
    size_t total = before.size() + text->size() + after.size();
    bool willfail = !preset && FS().chance(1, 2);
    if (willfail) fs->fail_at = FS().chance(1, 4) ? FS().below(3) : FS().below((uint32_t)total + 2);
    if (willfail && FS().chance(1, 3)) fs->transient = 1 + (int)FS().below(2);
    static const int errs[] = {ENOSPC, EIO, EPIPE};
    fs->err = errs[FS().below(3)];
    Table* tp = t.get();
    o.keep.push_back(t);
    o.desc = sfmt("print %s to a stream (buffering %u, %s, %zu bytes)", print_names[what], mode, preset ? "not writable" : willfail ? sfmt("failing after %zu", fs->fail_at).c_str() : "no failure", text->size());
    o.size = 200 + text->size() * 8;
    if (t) for (auto& e : t->spec.e) o.size += 300 + (uint64_t)e.effmax() * 2 + (e.minc > 0 ? (uint64_t)e.minc * 100 : 0) + (e.glossary.p ? strlen(e.glossary.p) * 8 : 0);
    if (what == PR_FORMATTED) o.size += formatted_size(arg, lm, rm);
    int std_ = FS().chance(1, 4) ? 1 + (int)FS().below(2) : 0;   // the stream is the program's standard output or standard error
    auto saved = std::make_shared<std::pair<FILE*, FILE*>>(sim_stdout, sim_stderr);
    o.keep.push_back(saved);
    auto* sv = saved.get();
    auto put_back = [=] { sim_stdout = sv->first; sim_stderr = sv->second; };
    o.call = [=] {
        if (std_ == 1) sim_stdout = f;
        if (std_ == 2) sim_stderr = f;
        switch (what) {
            case PR_SYNTAX: LA.f.arg_print_syntax(f, tp->arr, arg); break;
            case PR_SYNTAXV: LA.f.arg_print_syntaxv(f, tp->arr, arg); break;
            case PR_GLOSSARY: LA.f.arg_print_glossary(f, tp->arr, arg); break;
            case PR_GLOSSARY_GNU: LA.f.arg_print_glossary_gnu(f, tp->arr); break;
            case PR_ERRORS: LA.f.arg_print_errors(f, tp->end(), prog); break;
            case PR_OPTION: LA.f.arg_print_option(f, oe.shorts.p, oe.longs.p, oe.datatype.p, oe.glossary.p); break;
            case PR_FORMATTED: LA.f.arg_print_formatted(f, lm, rm, arg); break;
        }
    };
    auto again = std::make_shared<bool>(false);
    o.done = [=] {
        put_back();
        COUNT(K_PRINTS);
        REQUIRE(!fs->closed, "stream-closed", "the stream was closed");
        if (*again) return;   // after an abandoned attempt, part of the text may be there already
        if (fs->failed) REQUIRE(ferror(f), "error-lost", "the stream failed but its error indicator is not set after the call");
        if (preset) {
            REQUIRE(ferror(f), "error-lost", "the error indicator of the stream was cleared");
            REQUIRE(fs->got.empty(), "stream-text", "text reached a stream that is not writable");
            PROBE("printed to a stream that is not writable");
            return;
        }
        bool err0 = ferror(f);
        if (!after.empty() && !fs->failed) fputs(after.c_str(), f);
        fflush(f);
        if (err0) REQUIRE(ferror(f), "error-lost", "the error indicator was cleared");
        Str all = before + *text + after;
        if (fs->failed) {
            PROBE("stream failed while printing");
            if (fs->transient) {   // what was refused is lost, the rest comes once and in order
                PROBE("stream failed for a while");
                size_t k = 0;
                for (size_t i = 0; i < all.size() && k < fs->got.size(); i++) k += all[i] == fs->got[k];
                REQUIRE(k == fs->got.size(), "stream-text", "the stream that failed for a while received %s, which repeats or reorders parts of %s", fmtq(fs->got).c_str(), fmtq(all).c_str());
                REQUIRE(ferror(f), "error-lost", "the stream failed for a while but its error indicator is not set");
                return;
            }
            REQUIRE(fs->got.size() <= all.size() && all.compare(0, fs->got.size(), fs->got) == 0, "stream-text", "the failing stream received %s, which is no prefix of %s", fmtq(fs->got).c_str(), fmtq(all).c_str());
            REQUIRE(ferror(f), "error-lost", "the stream failed but its error indicator is not set");
        } else {
            size_t k = 0;
            while (k < all.size() && k < fs->got.size() && all[k] == fs->got[k]) k++;
            REQUIRE(fs->got == all, "stream-text", "the stream received %zu bytes, expected %zu, first difference at %zu: %s, expected %s", fs->got.size(), all.size(), k,
                    fmtq(fs->got.substr(k > 10 ? k - 10 : 0, 50)).c_str(), fmtq(all.substr(k > 10 ? k - 10 : 0, 50)).c_str());
        }
        SIG(hash_str(*text, fs->got.size()));
        (void)t;
    };
    o.aborted = [=](int) {
        put_back();
        REQUIRE(!fs->closed, "stream-closed", "the stream was closed by an abandoned call");
        if (*again) return;
        *again = true;
        if (preset || fs->failed) return;
        fflush(f);
        Str all = before + *text;
        REQUIRE(fs->failed || (fs->got.size() <= all.size() && all.compare(0, fs->got.size(), fs->got) == 0), "stream-text", "an abandoned call left %s, which is no prefix of %s", fmtq(fs->got).c_str(), fmtq(all).c_str());
        PROBE("printing abandoned for lack of memory");
    };
    o.cleanup = [=](bool) { fclose(f); (void)buf; };
    return o;
}
static void c04(Choices&) {
    pick_personality(P(), true);
    World w;
    g_ctx = &w;
    w.leakcheck = true;
    w.twin = false;
    w.gen.wrap = P().chance(1, 4);
    w.fc.rate = P().chance(1, 3) ? 250 : 0;
    weights(w, {{OC_BUILD, 1}, {OC_PARSE, 2}});
    uint32_t n = P().range(3, 20);
    for (uint32_t i = 0; i < n; i++) {
        P().mark();
        if (i == 0 || P().chance(1, 3)) { Op o = w.gen_op(); if (o) w.exec(o); }
        else { Op o = op_stream(w); if (o) w.exec(o); }
    }
}
static RegProp r04({"C04", c04, 150000, 4500000, "distinct texts and points at which the stream failed"});
