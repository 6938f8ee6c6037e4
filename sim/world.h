// The simulated callers: objects of the library together with their reference models,
// and operations on them that can be executed under faults, abandoned, retried and verified.
#pragma once
#include "core.h"
#include <algorithm>

// ---------------------------------------------------------------- generators
uint32_t gen_len(Stream& p, uint32_t cap = 3000);    // text lengths, drawn to boundaries and to numbers in the source
Str gen_word(Stream& p, uint32_t maxlen = 8);
Str gen_text(Stream& p, uint32_t len);               // printable, with blanks, '%', newlines
Str gen_any(Stream& p, uint32_t cap = 3000);
uint32_t gen_num(Stream& p, uint32_t cap);           // counts and sizes, drawn to boundaries

// ---------------------------------------------------------------- argument tables
enum Kind { E_REM, E_LIT, E_INT, E_DBL, E_STR, E_REX, E_FILE, E_DATE, E_CUSTOM, NKIND };
extern const char* const kind_names[];
struct OptStr {
    const char* p = nullptr;   // in the read-only pool, or null
    bool set() const { return p != nullptr; }
    Str s() const { return p ? Str(p) : Str(); }
};
struct EntrySpec {
    Kind kind = E_LIT;
    OptStr shorts, longs, datatype, glossary, pattern, format;
    OptStr sample;          // a generated pattern or format: a text made for it
    int minc = 0, maxc = 1;
    bool optvalue = false;
    int flags = 0;          // regular expression flags
    uint32_t salt = 0;      // custom: decides which values are accepted
    uint32_t reject = 0;    // custom: one value in this many is rejected (0: none)
    uint32_t nullfns = 0;   // custom: bit set of absent handlers (1 reset, 2 scan, 4 check, 8 error)
    int cflag = 0;          // custom: ARG_HASVALUE or not
    int ctor = 2;           // 0: arg_xxx0, 1: arg_xxx1, 2: arg_xxxn
    bool wrap = false;      // handlers replaced by recording ones that call the original
    int effmax() const { return maxc < minc ? minc : maxc; }
    bool hasvalue() const { return kind == E_CUSTOM ? (cflag & ARG_HASVALUE) != 0 : kind != E_REM && kind != E_LIT; }
    bool tagged() const { return shorts.set() || longs.set(); }
    bool scans() const { return kind == E_CUSTOM ? !(nullfns & 2) : kind != E_REM; }
    bool resets() const { return kind == E_CUSTOM ? !(nullfns & 1) : kind != E_REM; }
    bool checks() const { return kind == E_CUSTOM ? !(nullfns & 4) : kind != E_REM; }
};
struct TableSpec {
    std::vector<EntrySpec> e;
    int endcap = 20;
};
struct GenOpts {
    uint32_t max_entries = 8;
    bool custom = true, wrap = false, wrap_all = false, dates = true, rex = true, optvalues = true, big = true;
    int only = -1;    // mostly entries of this kind
};
OptStr put(const Str& s, int role = 0);
enum { ROLE_SHORT = 1, ROLE_LONG, ROLE_DATATYPE, ROLE_GLOSSARY, ROLE_PATTERN, ROLE_FORMAT, ROLE_NAME };
extern bool g_bad_values;
TableSpec gen_table(Stream& p, const GenOpts& o);

struct CustomEntry {   // a caller-defined entry type
    arg_hdr_t hdr;
    int count;
    uint32_t salt, reject;
    uint32_t vals;       // running hash of accepted values
    char tail[8];
};
enum EvKind { EV_RESET, EV_SCAN, EV_CHECK, EV_ERROR };
struct Ev {
    int what, idx;     // idx: table position (-1: end)
    const char* arg;   // scan: value; error: offending argument
    int ret;           // scan, check: result; error: code
    int count_after;
};
struct Table;
struct WrapRec {
    Table* t;
    int idx;
    arg_resetfn* reset;
    arg_scanfn* scan;
    arg_checkfn* check;
    arg_errorfn* error;
};
struct Args {
    int argc = 0;
    char** argv = nullptr;
    std::vector<Str> s;
    std::vector<std::pair<uintptr_t, size_t>> pos;  // address and length of each string
    size_t total() const { size_t n = 0; for (auto& x : s) n += x.size() + 1; return n; }
    // -1: null; else index*65536+offset; -2: not in the vector
    long locate(const char* p) const;
    Str show(const char* p) const;
};
struct Table {
    TableSpec spec;
    Lib* lib = &LA;
    void** arr = nullptr;          // n entries + end, in caller memory
    std::vector<void*> made;       // what the constructors returned
    std::vector<WrapRec*> wraps;
    std::vector<Ev> ev;
    std::function<void(int what, int idx)> hook;  // runs inside handlers (nested calls, unwinding)
    std::vector<std::set<int>> nullslots;         // slots counted without a value
    Args args;                     // of the last parse
    bool parsed = false;           // the error record refers to args
    int last_ret = 0;
    std::map<Str, Str> env;        // in force during the last parse
    bool complete = false;
    uintptr_t region = 0;          // reserved for the argument vector, reused by each parse
    size_t region_len = 0;
    std::vector<Str> defsnap;      // definitions as built
    size_t n() const { return spec.e.size(); }
    arg_hdr_t* hdr(size_t i) { return (arg_hdr_t*)arr[i]; }
    arg_end_t* end() { return (arg_end_t*)arr[n()]; }
    int& count(size_t i);
    ~Table();
};
typedef std::shared_ptr<Table> TableP;
void* construct(Lib& lib, const EntrySpec& e);          // library call(s), inside a guard
void install(Table& t, size_t i, void* entry);          // flags and recording handlers
TableP new_table(Lib& lib, const TableSpec& s);         // not yet constructed
bool build_now(Table& t);                               // constructs everything, unfaulted; false never
void snapshot_defs(Table& t);
Str defs_now(Table& t, size_t i);
void check_defs(Table& t, const char* when);
Args gen_args(Stream& p, const TableSpec& s, bool terminate_random = true);
void place_args(Args& a, Table* t, bool reuse, bool terminated);
Str entry_value(Table& t, size_t i, int slot, const Args& a);   // canonical text of a value
Str describe(Table& t, const Args& a, int ret);                 // outcome of a parse, canonical
Str describe_entries(Table& t, const Args& a);
Str describe_errors(Table& t, const Args& a);
void reset_events(Table& t);
struct TwinOutcome { Str outcome, errors; int ret; std::vector<Ev> ev; };
TwinOutcome twin_parse(const TableSpec& s, const Args& a, const char* progname);
Str twin_print(const TableSpec& s, int what, const char* arg);

// What is printed: the dynamic-string and the stream variant
enum PrintKind { PR_SYNTAX, PR_SYNTAXV, PR_GLOSSARY, PR_GLOSSARY_GNU, PR_ERRORS, PR_OPTION, PR_FORMATTED, NPRINT };
extern const char* const print_names[];

// ---------------------------------------------------------------- dynamic strings
struct DS {
    arg_dstr_t h = nullptr;
    Str model;
    bool lost = false;        // content released by arg_dstr_free: only set, reset, destroy may follow
    bool writable = false;    // the caller may shorten it in place
    int pending_free = -1;    // id of a handed-over custom block not yet released
    uint64_t ops = 0;
};
typedef std::shared_ptr<DS> DSP;

// ---------------------------------------------------------------- registry and identity (process wide)
struct Cmd { int proc = 0; Str desc; int ctx = 0; };
struct Global {
    bool reg_live = false;
    std::map<Str, Cmd> reg;
    bool name_set = false, ver_set = false;
    Str name, version;
    Str mod_name() const { return name_set && !name.empty() ? name : Str("<name>"); }
    Str mod_version() const { return ver_set && !version.empty() ? version : Str("0.0.0.0"); }
};
extern Global G;

// ---------------------------------------------------------------- hash tables
struct HVal { void* p; uint32_t id; };
struct HT {
    ht_t h = nullptr;
    int hashkind = 0;
    std::map<Str, HVal> m;
};
typedef std::shared_ptr<HT> HTP;

// ---------------------------------------------------------------- operations
struct Op {
    Str desc;
    int cls = 0;
    std::function<void()> call;              // library calls only
    std::function<void()> done;              // it returned: verify against the model, commit
    std::function<void(int)> aborted;        // it was abandoned: objects hold old or new content
    std::function<void(bool)> cleanup;       // parameters no longer needed (true: call completed)
    uint64_t size = 0;                       // of its inputs, for work bounds
    uint64_t reps = 1;                       // library calls it makes, if many
    bool serial = false;                     // a parse
    std::vector<std::shared_ptr<void>> keep; // what the functions above refer to
    bool may_warn = false;                   // reports an unusable definition on standard error
    bool keeps = false;                      // may keep library memory afterwards
    explicit operator bool() const { return (bool)call; }
};
enum OpClass { OC_BUILD, OC_PARSE, OC_PRINT, OC_FREE, OC_DSTR, OC_REG, OC_DISPATCH, OC_HASH, OC_SORT, OC_MSG, OC_IDENT, OC_EDIT, OC_ENV, NOC };

struct Inflight {   // a registry change under way: afterwards the old or the new state
    bool active = false;
    Str name;
    bool has_old = false, has_new = false;
    Cmd o, n;
};
struct Frame {      // one call of a command procedure
    Str name;
    const char* pname = nullptr;
    Cmd cmd;
    int argc = 0;
    char** argv = nullptr;
    arg_dstr_t res = nullptr;
    int ret = 0, act = 0, calls = 0;
    const char* text = nullptr;
    Cmd repl;
    const char* repl_desc = nullptr;
};
struct Script {
    std::vector<Frame> f;
    Str text;                    // appended to the result string
    const char* pending = nullptr;
};
struct FaultCfg {
    uint32_t rate = 0;          // per mille of operations with a planned allocation failure
    uint32_t cb_unwind = 0;     // per mille of operations whose callbacks unwind
    bool custom_handler = true;
};
struct World {
    int depth = 0;
    std::vector<TableP> tables;
    std::vector<DSP> ds;
    std::vector<HTP> ht;
    GenOpts gen;
    FaultCfg fc;
    bool twin = true;              // compare parses and prints with the pristine twin
    bool reg_write = true;         // may change registry and identity
    bool allow_parse = true;
    bool nest = false;             // operations inside callbacks
    bool leakcheck = false;        // per operation
    bool defcheck = false;
    bool bounds = false;           // tight work bounds
    bool big = false;              // registries and hash tables of thousands
    std::vector<Str>* log = nullptr;   // observable results, in order
    uint32_t w[NOC] = {0};         // weights of operation classes
    uint32_t unwind_in = 0;        // callbacks until one of them unwinds (0: never)
    uint32_t callbacks = 0;        // seen in this operation
    bool in_nested = false;
    std::set<uintptr_t> handed_ptrs;
    uint32_t retry_rate = 3;       // of 4
    std::function<void(Op&)> before, after;
    std::function<void(int)> nested_hook;      // operations inside callbacks
    std::function<void(Table&)> after_parse;
    Script* script = nullptr;                  // what the command procedures are to do
    int frame = -1;
    Inflight inflight;
    int print_only = -1;                       // mostly this kind of print
    uint32_t maxds = 7, maxht = 4, maxtables = 6;
    bool bursts = false;                       // now and then hundreds of parses in a row
    bool errno_noise = false;
    int errno_value = 0;                       // before every call
    bool stop_on_abort = false;                // the program ends when the handler was called
    bool fault_now = false;                    // an allocation failed in the current operation
    uint32_t op_serial0 = 0;                   // blocks allocated before the current operation
    bool still_live(const void* p);            // allocated before the operation and not released
    int last_exit = X_RET;
    bool process_over = false;     // default handler ended the process

    Op gen_op();
    Op op_build();
    Op op_parse(Table& t);
    Op op_parse_pick();
    Op op_print();
    Op op_free();
    Op op_dstr();
    Op op_reg();
    Op op_dispatch();
    Op op_hash();
    Op op_sort();
    Op op_msg();
    Op op_ident();
    Op op_edit();
    Op op_env();
    int exec(Op& op);              // runs it with whatever faults the fault stream decides; verifies
    void step() { P().mark(); Op o = gen_op(); if (o) exec(o); }
    void finish();                 // releases everything
    void check_objects();          // all models
    void check_leaks(const char* when);
    void on_callback(int what);    // from handlers, procedures, comparisons, release functions
    void note(const Str& s) { if (log) log->push_back(s); LOG("= %s", fmtq(s).c_str()); }
    int on_proc(int which, int argc, char** argv, arg_dstr_t res, void* ctx);
    void release_all();
    void recycle(Table& t);
    void check_ident(const char* when);
    TableP pick_table(bool want_parsed = false);
    DSP pick_ds(bool create = true);
};
extern World* g_world;             // whose callbacks are running
void check_ds(DS& d, const char* when);
void check_registry(const char* when);
void check_hash(HT& h, const char* when, bool full);
void world_begin(FillPolicy f, ReusePolicy r, uint32_t gap, bool custom_handler);
extern uint64_t g_freecount[64];
uint64_t work_bound(uint64_t size);
uint64_t formatted_size(const char* s, uint32_t lm, uint32_t rm);
void gen_env(Stream& p);
FILE* open_mem(Str* s);
Str twin_errors(Table& t, const char* prog);
bool permits_registry(World& w);
void pending_clear();
