// Known findings: specific histories on which the code is known to break a property.
#include "props.h"
#include "shared.h"

// C01: a date entry whose format has %p with no hour before it. The slot keeps the hour of the previous parse,
// so the same argument "PM" is accepted once and refused the second time.
static bool date_pm_twice() {
    Choices c;
    begin_run(c);
    world_begin(FILL_ZERO, REUSE_NEVER, 16, true);
    TableSpec s;
    EntrySpec e;
    e.kind = E_DATE;
    e.format = put("%p");
    e.ctor = 0;
    s.e.push_back(e);
    TableP t = new_table(LA, s);
    build_now(*t);
    Args a;
    a.s = {"prog", "PM"};
    place_args(a, nullptr, false, true);
    int r1 = -1, r2 = -1;
    guarded(LA, [&] { r1 = LA.f.arg_parse(a.argc, a.argv, t->arr); });
    guarded(LA, [&] { r2 = LA.f.arg_parse(a.argc, a.argv, t->arr); });
    return r1 == 0 && r2 == 1;
}
// C11: an unknown short option is recorded with its character as the code; the characters 1 to 5 are the codes of
// the table's own errors, so that "-\x01" is recorded and printed as the marker for too many errors.
static bool control_character_option() {
    Choices c;
    begin_run(c);
    world_begin(FILL_ZERO, REUSE_NEVER, 16, true);
    TableSpec s;
    TableP t = new_table(LA, s);
    build_now(*t);
    Args a;
    a.s = {"prog", "-\x01"};
    place_args(a, nullptr, false, true);
    int r = -1;
    guarded(LA, [&] { r = LA.f.arg_parse(a.argc, a.argv, t->arr); });
    return r == 1 && t->end()->error[0] == ARG_ELIMIT;
}
void print_known(const char* prop) {
    if (!strcmp(prop, "C01") && date_pm_twice())
        printf("KNOWN-FINDING: property=C01 date entry with format \"%%p\" (no hour conversion before it): parsing \"PM\" twice with one table, the second parse refuses what the first accepted\n");
    if (!strcmp(prop, "C11") && control_character_option())
        printf("KNOWN-FINDING: property=C11 the unknown short option \"-\\x01\" is recorded and printed as the 'too many errors' marker although all errors fit (the characters 1 to 5 coincide with the codes ARG_ELIMIT to ARG_EMISSARG)\n");
}
