#pragma once
#include "world.h"
void pick_personality(Stream& p, bool custom_handler);
void weights(World& w, std::initializer_list<std::pair<int, uint32_t>> l);
void run_ops(World& w, uint32_t lo, uint32_t hi);
Op op_stream(World& w);   // prints to a stream that may fail
