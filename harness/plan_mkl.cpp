#define PLAN_ALIEN_F float _Complex
#define PLAN_ALIEN_D double _Complex
#define PLAN_ALIEN_TAG heffte::backend::mkl
#include "plan_impl.h"
std::unique_ptr<Plan> make_plan_mkl(PlanSpec const &s){ return build_any<int, heffte::backend::mkl, heffte::backend::mkl_cos, heffte::backend::mkl_sin, heffte::backend::mkl_sin>(s); }
