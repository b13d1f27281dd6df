// API histories as data: generate, apply to a solver, apply to a model.
#pragma once
#include "common.h"
#include "internals.h"
enum OpK { SOLVE = 0, VEC, MAT, RHO, SETT, WARM, COLD, GETS, NOPK };
enum { M_SOLVE = 1, M_VEC = 2, M_MAT = 4, M_RHO = 8, M_SET = 16, M_WARM = 32, M_COLD = 64, M_GET = 128 };
struct Op {
  OpK k = SOLVE;
  bool hq = false, hl = false, hu = false; VF q, l, u;
  bool hP = false, hA = false; VF px, ax; VI pi, ai; bool pidx = false, aidx = false; I pn = 0, an = 0;
  F rho = 0; OSQPSettings st; bool hx = false, hy = false; VF x, y;
};
struct Model { Prob pb; OSQPSettings st; };
Op gen_op(Rng& r, const Model& m, int mask);
Op op_rho(F rho); Op op_cold(); Op op_solve(); Op op_set(const OSQPSettings& st);
Op op_vec_all(const Prob& pb); Op op_mat_all(const Prob& pb);
void model_apply(Model& m, const Op& o);
std::vector<Op> gen_ops(Rng& r, Model& m, int mask, int len);
std::string op_str(const Op& o); std::string ops_str(const std::vector<Op>& v);
struct ApplyOpt { bool guard = false; VF* scribbled = nullptr; };   // guard: pass private copies, check they are untouched, destroy them
I op_apply(Solver& S, const Op& o, bool guard = false);
struct Got { I flag = 0; VF x, y, pc, dc; };
Got retrieve(Solver& S);
std::string got_diff(const Got& a, const Got& b);
OSQPSettings merge_settings(const OSQPSettings& cur, const OSQPSettings& nw);
std::string settings_diff(const OSQPSettings& a, const OSQPSettings& b);
