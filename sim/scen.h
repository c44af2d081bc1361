// Scenarios: how plans are generated from a seed and how a plan is executed.
#pragma once
#include "engine.h"
#include "ops.h"

void gen_plan(Plan &p);  // from p.prop and p.seed
void run_plan();         // in the current world
const std::vector<std::string> &scenario_ids();

// --- shared pieces
struct Opt {  // what is checked besides results
  bool leak = false, hygiene = false, blind = false, entropy = false;
};
extern Opt OPT;
Proc *boot(int node);                      // a fresh process
void do_init(const Item &it);              // in a task
void do_uninit(const Item &it);
void after_item(const Item &it);           // per-item checks, in a task
void check_exit(Proc *p);                  // was the end of the process legitimate?
const Item *synth(const char *kind, int id);  // an item outside of the plan

// --- worlds of several nodes
void gen_c12(Plan &p, Rng &r); void run_c12();
void gen_c13(Plan &p, Rng &r); void run_c13();
void gen_c14(Plan &p, Rng &r); void run_c14();
void gen_c15(Plan &p, Rng &r); void run_c15();
void gen_c16(Plan &p, Rng &r); void run_c16();
void gen_c20(Plan &p, Rng &r); void run_c20();
